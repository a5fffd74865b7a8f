// ---- vectors ----
pub trait VContains<T> { spec fn has(&self, x: T) -> bool; fn v_contains(&self, x: &T) -> (r: bool) ensures r == self.has(*x); }
// elements are compared structurally
impl<T> VContains<T> for Vec<T> {
  open spec fn has(&self, x: T) -> bool { self@.contains(x) }
  #[verifier::external_body]
  fn v_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
}
impl<T> VContains<T> for [T] {
  open spec fn has(&self, x: T) -> bool { self@.contains(x) }
  #[verifier::external_body]
  fn v_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
}
//@rename-method contains v_contains
pub trait VExtend<T> {
  spec fn xs(&self) -> Seq<T>;
  fn v_extend<I: VIter<Item = T>>(&mut self, i: I) ensures final(self).xs() == old(self).xs() + i.items();
}
impl<T> VExtend<T> for Vec<T> {
  open spec fn xs(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn v_extend<I: VIter<Item = T>>(&mut self, i: I) { unimplemented!() }
}
//@rename-method extend v_extend
/// Vec::retain, Vec::dedup: which elements stay, and in which order
pub open spec fn v_kept<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T> decreases s.len() {
  if s.len() == 0 || keep.len() != s.len() { Seq::empty() } else {
    let r = v_kept(s.drop_last(), keep.drop_last());
    if keep.last() { r.push(s.last()) } else { r }
  }
}
pub open spec fn v_deduped<T>(s: Seq<T>) -> Seq<T> decreases s.len() {
  if s.len() <= 1 { s } else if s[s.len() - 2] == s.last() { v_deduped(s.drop_last()) } else { v_deduped(s.drop_last()).push(s.last()) }
}
pub trait VKeep<T> {
  spec fn elems(&self) -> Seq<T>;
  fn v_retain<F: Fn(&T) -> bool>(&mut self, f: F)
    requires forall|i: int| 0 <= i < old(self).elems().len() ==> f.requires((&(#[trigger] old(self).elems()[i]),))
    ensures exists|keep: Seq<bool>| #![trigger v_kept(old(self).elems(), keep)]
      keep.len() == old(self).elems().len() && final(self).elems() == v_kept(old(self).elems(), keep)
      && forall|i: int| 0 <= i < keep.len() ==> f.ensures((&old(self).elems()[i],), #[trigger] keep[i]);
  // elements are compared structurally
  fn v_dedup(&mut self) ensures final(self).elems() == v_deduped(old(self).elems());
}
impl<T> VKeep<T> for Vec<T> {
  open spec fn elems(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn v_retain<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() }
  #[verifier::external_body]
  fn v_dedup(&mut self) { unimplemented!() }
}
//@rename-method retain v_retain
//@rename-method dedup v_dedup
