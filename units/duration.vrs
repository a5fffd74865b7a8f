// ---- std::time::Duration ----
#[verifier::external_body]
pub struct Duration { d: u8 }
impl Clone for Duration {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for Duration {}
impl Duration {
  /// its length in nanoseconds; durations are equal exactly when their lengths are
  pub uninterp spec fn nanos(&self) -> int;
  #[verifier::external_body]
  pub proof fn axiom_nanos(a: Self, b: Self) ensures (a == b) == (a.nanos() == b.nanos()) {}
  #[verifier::external_body]
  pub fn from_secs(n: u64) -> (r: Self) ensures r.nanos() == n * 1_000_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn from_millis(n: u64) -> (r: Self) ensures r.nanos() == n * 1_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn max(self, o: Self) -> (r: Self) ensures r == if o.nanos() >= self.nanos() { o } else { self } { unimplemented!() }
  #[verifier::external_body]
  pub fn min(self, o: Self) -> (r: Self) ensures r == if o.nanos() < self.nanos() { o } else { self } { unimplemented!() }
  #[verifier::external_body]
  pub fn is_zero(&self) -> (r: bool) ensures r == (self.nanos() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn as_secs(&self) -> (r: u64) ensures r == self.nanos() / 1_000_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn as_millis(&self) -> (r: u128) ensures r == self.nanos() / 1_000_000 { unimplemented!() }
}
