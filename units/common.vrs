// ---- common prelude: assumed contracts on the standard library and small shims ----

pub mod vax {
use vstd::prelude::*;
#[verifier::external_body]
pub broadcast proof fn axiom_string_ext(a: String, b: String)
  ensures (#[trigger] a@ == #[trigger] b@) ==> a == b
{ }
// `==` on strings compares the characters
use vstd::std_specs::cmp::PartialEqSpec;
#[verifier::external_body]
pub broadcast proof fn ax1(a: String, b: String) ensures #[trigger] <String as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@) {}
#[verifier::external_body]
pub broadcast proof fn ax1b() ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec() {}
#[verifier::external_body]
pub broadcast proof fn ax2(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@) {}
#[verifier::external_body]
pub broadcast proof fn ax2b() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec() {}
#[verifier::external_body]
pub broadcast proof fn ax3<'a>(a: String, b: &'a str) ensures #[trigger] <String as PartialEqSpec<&'a str>>::eq_spec(&a, &b) == (a@ == b@) {}
#[verifier::external_body]
pub broadcast proof fn ax3b<'a>() ensures #[trigger] <String as PartialEqSpec<&'a str>>::obeys_eq_spec() {}
#[verifier::external_body]
pub broadcast proof fn axiom_vec_len<T>(v: Vec<T>) ensures #[trigger] v@.len() <= usize::MAX {}
pub broadcast group string_axioms { axiom_vec_len, axiom_string_ext, ax1, ax1b, ax2, ax2b, ax3, ax3b }
}
broadcast use vax::string_axioms;

/// A critical section: the protected value when the lock was taken (arbitrary: any other
/// thread may have run before) and when it was released.
pub struct Sec<T> { pub id: int, pub pre: T, pub post: T }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { t: core::marker::PhantomData<T> }
impl<T> Mutex<T> {
  pub uninterp spec fn id(&self) -> int;
}

/// std::task::Poll
pub enum Poll<T> { Ready(T), Pending }

/// An iterator: the sequence of the items it yields.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIt<T> { t: core::marker::PhantomData<T> }
impl<T> VIt<T> {
  pub uninterp spec fn view(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn v_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn v_get(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
  pub fn v_into_iter(self) -> (r: VIt<T>) ensures r == self { self }
  #[verifier::external_body]
  pub fn rev(self) -> (r: VIt<T>) ensures r@ == self@.reverse() { unimplemented!() }
  #[verifier::external_body]
  pub fn take(self, n: usize) -> (r: VIt<T>) ensures r@ == if n <= self@.len() { self@.take(n as int) } else { self@ } { unimplemented!() }
  #[verifier::external_body]
  pub fn skip(self, n: usize) -> (r: VIt<T>) ensures r@ == if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() } { unimplemented!() }
  #[verifier::external_body]
  pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn last(self) -> (r: Option<T>) ensures r == if self@.len() > 0 { Some(self@.last()) } else { None } { unimplemented!() }
  #[verifier::external_body]
  pub fn chain<I: VIter<Item = T>>(self, o: I) -> (r: VIt<T>) ensures r@ == self@ + o.items() { unimplemented!() }
  #[verifier::external_body]
  pub fn enumerate(self) -> (r: VIt<(usize, T)>)
    ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]) && i <= usize::MAX
  { unimplemented!() }
  #[verifier::external_body]
  pub fn v_collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIt<U>)
    requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
    ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), r@[i])
  { unimplemented!() }
}
impl<T> VIt<T> {
  #[verifier::external_body]
  pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
    ensures r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true),
      !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
    ensures !r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), false),
      r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), true)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn v_find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
    requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((&self@[i],))
    ensures
      r is None ==> forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((&self@[i],), false),
      r matches Some(x) ==> self@.contains(x) && f.ensures((&x,), true)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn v_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VIt<T>)
    requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((&self@[i],))
    ensures
      forall|i: int| 0 <= i < r@.len() ==> self@.contains(#[trigger] r@[i]) && f.ensures((&r@[i],), true),
      forall|i: int| 0 <= i < self@.len() ==> r@.contains(#[trigger] self@[i]) || f.ensures((&self@[i],), false)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
    requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
    ensures
      r matches Some(k) ==> k < self@.len() && f.ensures((self@[k as int],), true),
      forall|i: int| 0 <= i < self@.len() && !(r matches Some(k) && k <= i) ==> f.ensures((#[trigger] self@[i],), false)
  { unimplemented!() }
}
impl<'a, T: Clone> VIt<&'a T> {
  // derived clones are structural copies
  #[verifier::external_body]
  pub fn cloned(self) -> (r: VIt<T>)
    ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == *self@[i]
  { unimplemented!() }
}
pub trait VIter { 
  type Item;
  spec fn items(self) -> Seq<Self::Item>;
  fn v_into_iter(self) -> (r: VIt<Self::Item>) ensures r@ == self.items();
}
impl<T> VIter for VIt<T> {
  type Item = T;
  open spec fn items(self) -> Seq<T> { self@ }
  fn v_into_iter(self) -> (r: VIt<T>) { self }
}
impl<'a, T> VIter for &'a Vec<T> {
  type Item = &'a T;
  open spec fn items(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
  #[verifier::external_body]
  fn v_into_iter(self) -> (r: VIt<&'a T>) { unimplemented!() }
}
impl<T> VIter for Vec<T> {
  type Item = T;
  open spec fn items(self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn v_into_iter(self) -> (r: VIt<T>) { unimplemented!() }
}
impl<'a, T> VIter for &'a [T] {
  type Item = &'a T;
  open spec fn items(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
  #[verifier::external_body]
  fn v_into_iter(self) -> (r: VIt<&'a T>) { unimplemented!() }
}
impl VIter for core::ops::Range<usize> {
  type Item = usize;
  open spec fn items(self) -> Seq<usize> { if self.start <= self.end { Seq::new((self.end - self.start) as nat, |i: int| (self.start + i) as usize) } else { Seq::empty() } }
  #[verifier::external_body]
  fn v_into_iter(self) -> (r: VIt<usize>) { unimplemented!() }
}
impl VIter for core::ops::Range<i32> {
  type Item = i32;
  open spec fn items(self) -> Seq<i32> { if self.start <= self.end { Seq::new((self.end - self.start) as nat, |i: int| (self.start + i) as i32) } else { Seq::empty() } }
  #[verifier::external_body]
  fn v_into_iter(self) -> (r: VIt<i32>) { unimplemented!() }
}
impl<T> VIter for Option<T> {
  type Item = T;
  open spec fn items(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } }
  #[verifier::external_body]
  fn v_into_iter(self) -> (r: VIt<T>) { unimplemented!() }
}
pub trait VIterRef<'a> { 
  type T;
  spec fn rseq(&self) -> Seq<Self::T>;
  fn v_iter(&'a self) -> (r: VIt<&'a Self::T>)
    ensures r@.len() == self.rseq().len(), forall|i: int| #![trigger r@[i]] #![trigger self.rseq()[i]] 0 <= i < r@.len() ==> *(r@[i]) == self.rseq()[i];
}
impl<'a, T: 'a> VIterRef<'a> for Vec<T> {
  type T = T;
  open spec fn rseq(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn v_iter(&'a self) -> (r: VIt<&'a T>) { unimplemented!() }
}
impl<'a, T: 'a> VIterRef<'a> for [T] {
  type T = T;
  open spec fn rseq(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn v_iter(&'a self) -> (r: VIt<&'a T>) { unimplemented!() }
}
//@rename-method map v_map
//@rename-method find v_find
//@rename-method filter v_filter
//@rename-method into_iter v_into_iter
//@rename-method collect v_collect
//@rename-method into v_into

/// Code that is never reached, or that panics: nothing is guaranteed afterwards.
#[verifier::external_body]
pub fn v_panic<T>() -> (r: T) ensures false { unimplemented!() }

// ---- strings ----
#[verifier::external_body]
pub fn v_lit(s: &'static str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn v_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn v_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub trait VDisplay { spec fn disp(&self) -> Seq<char>; }
impl VDisplay for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VDisplay for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl<T: VDisplay + ?Sized> VDisplay for &T { open spec fn disp(&self) -> Seq<char> { (*self).disp() } }
pub uninterp spec fn dec(n: nat) -> Seq<char>;
impl VDisplay for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
#[verifier::external_body]
pub fn v_disp<T: VDisplay + ?Sized>(t: &T) -> (r: String) ensures r@ == t.disp() { unimplemented!() }
#[verifier::external_body]
pub fn v_dbg<T: ?Sized>(t: &T) -> (r: String) { unimplemented!() }

pub trait VToStr {
  spec fn tdisp(&self) -> Seq<char>;
  fn v_to_string(&self) -> (r: String) ensures r@ == self.tdisp();
}
impl<T: VDisplay + ?Sized> VToStr for T {
  open spec fn tdisp(&self) -> Seq<char> { self.disp() }
  #[verifier::external_body]
  fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_string_from<T: VIntoStr>(t: T) -> (r: String) ensures r@ == t.sview() { unimplemented!() }
//@rename-method to_string v_to_string
//@rename-path String::from v_string_from

/// `impl Into<String>` parameters
pub trait VIntoStr: Sized {
  spec fn sview(self) -> Seq<char>;
  fn v_into(self) -> (r: String) ensures r@ == self.sview();
}
impl VIntoStr for String {
  open spec fn sview(self) -> Seq<char> { self@ }
  fn v_into(self) -> (r: String) { self }
}
impl<'a> VIntoStr for &'a str {
  open spec fn sview(self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn v_into(self) -> (r: String) { unimplemented!() }
}
impl<'a> VIntoStr for &'a String {
  open spec fn sview(self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn v_into(self) -> (r: String) { unimplemented!() }
}
//@type-subst `impl Into<String>` `impl VIntoStr`
//@type-subst `Into<String>` `VIntoStr`

// ---- options ----
pub trait VOpt<T>: Sized {
  spec fn as_opt(self) -> Option<T>;
  /// panics on None: nothing is claimed about panicking runs
  fn v_expect(self, s: &str) -> (r: T) ensures self.as_opt() == Some(r);
  fn v_or(self, o: Option<T>) -> (r: Option<T>) ensures r == (if self.as_opt() is Some { self.as_opt() } else { o });
}
impl<T> VOpt<T> for Option<T> {
  open spec fn as_opt(self) -> Option<T> { self }
  #[verifier::external_body]
  fn v_expect(self, s: &str) -> (r: T) { unimplemented!() }
  fn v_or(self, o: Option<T>) -> (r: Option<T>) { match self { Some(x) => Some(x), None => o } }
}
pub trait VRes<T>: Sized {
  spec fn ok_of(self) -> Option<T>;
  fn v_expect(self, s: &str) -> (r: T) ensures self.ok_of() == Some(r);
}
impl<T, E> VRes<T> for core::result::Result<T, E> {
  open spec fn ok_of(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
  #[verifier::external_body]
  fn v_expect(self, s: &str) -> (r: T) { unimplemented!() }
}
//@rename-method or v_or

pub assume_specification<T>[Option::<T>::replace](o: &mut Option<T>, v: T) -> (r: Option<T>)
  ensures *final(o) == Some(v), r == *old(o);
pub assume_specification<T, E>[core::result::Result::<T, E>::unwrap_or](o: core::result::Result<T, E>, v: T) -> (r: T)
  ensures r == (match o { Ok(x) => x, Err(_) => v });
pub assume_specification<T>[Option::<T>::xor](o: Option<T>, v: Option<T>) -> (r: Option<T>)
  ensures r == (match (o, v) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None::<T> });
pub assume_specification<'a, T: Copy>[Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>)
  ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
#[verifier::external_body]
pub fn v_opt_mut<T>(o: &mut Option<T>) -> (r: &mut T)
  requires old(o).is_some()
  ensures *r == old(o)->0, *final(o) == Some(*final(r))
{ unimplemented!() }

// ---- std::collections::HashMap: a finite map; keys are compared structurally ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
  /// extend with the entries of another map
  #[verifier::external_body]
  pub fn v_extend(&mut self, o: HashMap<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
  pub uninterp spec fn view(&self) -> Map<K, V>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<K>::empty()) { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &K) -> (r: Option<&V>)
    ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None })
  { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None })
  { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &K) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None })
  { unimplemented!() }
  #[verifier::external_body]
  pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn v_retain<F: Fn(&K, &V) -> bool>(&mut self, f: F)
    requires forall|k: K| #[trigger] old(self)@.contains_key(k) ==> f.requires((&k, &old(self)@[k]))
    ensures
      forall|k: K| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k] && f.ensures((&k, &old(self)@[k]), true),
      forall|k: K| #[trigger] old(self)@.contains_key(k) ==> final(self)@.contains_key(k) || f.ensures((&k, &old(self)@[k]), false)
  { unimplemented!() }
  /// arbitrary order; every entry exactly once
  #[verifier::external_body]
  pub fn v_iter(&self) -> (r: VIt<(&K, &V)>) ensures map_items(self@, r@) { unimplemented!() }
  #[verifier::external_body]
  pub fn keys(&self) -> (r: VIt<&K>)
    ensures r@.len() == self@.dom().len(),
      forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(*(#[trigger] r@[i])),
      forall|k: K| self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == k
  { unimplemented!() }
  #[verifier::external_body]
  pub fn values(&self) -> (r: VIt<&V>)
    ensures r@.len() == self@.dom().len(),
      forall|i: int| 0 <= i < r@.len() ==> self@.values().contains(*(#[trigger] r@[i])),
      forall|k: K| self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == self@[k]
  { unimplemented!() }
}
/// The items are the map's entries, each key exactly once.
pub open spec fn map_items<K, V>(m: Map<K, V>, s: Seq<(&K, &V)>) -> bool {
  &&& s.len() == m.dom().len()
  &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
  &&& forall|k: K| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
  &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && *(#[trigger] s[i]).0 == *(#[trigger] s[j]).0 ==> i == j
}
pub open spec fn map_items_own<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
  &&& s.len() == m.dom().len()
  &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
  &&& forall|k: K| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
  &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 ==> i == j
}
impl<K, V> Clone for HashMap<K, V> {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// `for x in &map`, `for x in map`
pub trait VMapIter { type It; spec fn ok(self, r: Self::It) -> bool; fn v_into_iter(self) -> (r: Self::It) ensures self.ok(r); }
impl<'a, K, V> VMapIter for &'a HashMap<K, V> {
  type It = VIt<(&'a K, &'a V)>;
  open spec fn ok(self, r: VIt<(&'a K, &'a V)>) -> bool { map_items(self@, r@) }
  #[verifier::external_body]
  fn v_into_iter(self) -> (r: VIt<(&'a K, &'a V)>) { unimplemented!() }
}
impl<K, V> VMapIter for HashMap<K, V> {
  type It = VIt<(K, V)>;
  open spec fn ok(self, r: VIt<(K, V)>) -> bool { map_items_own(self@, r@) }
  #[verifier::external_body]
  fn v_into_iter(self) -> (r: VIt<(K, V)>) { unimplemented!() }
}
//@rename-method iter v_iter
//@rename-method expect v_expect
