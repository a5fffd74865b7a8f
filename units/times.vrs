// ---- chrono: points in time are not part of any property ----
#[verifier::external_body]
pub struct Time { t: u8 }
impl Clone for Time {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Copy for Time {}
#[verifier::external_body]
pub struct Elapsed { t: u8 }
pub struct Utc { }
impl Utc {
  #[verifier::external_body]
  pub fn now() -> (r: Time) { unimplemented!() }
}
impl Time {
  #[verifier::external_body]
  pub fn timestamp_millis(&self) -> i64 { unimplemented!() }
}
