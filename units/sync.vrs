// ---- locks: every critical section starts from an arbitrary value (other threads) and is logged ----
impl<T> Mutex<T> {
  #[verifier::external_body]
  pub fn new(t: T) -> (r: Self) ensures r.initial() == t { unimplemented!() }
  pub uninterp spec fn initial(&self) -> T;
}
