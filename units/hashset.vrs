#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: core::marker::PhantomData<K> }
impl<K> HashSet<K> {
  pub uninterp spec fn view(&self) -> Set<K>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<K>::empty()) { unimplemented!() }
}
impl<T> VContains<T> for HashSet<T> {
  open spec fn has(&self, x: T) -> bool { self@.contains(x) }
  #[verifier::external_body]
  fn v_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
}
