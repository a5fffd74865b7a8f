#[verifier::external_body]
pub struct Waker { w: u8 }
impl Waker {
  #[verifier::external_body]
  pub fn wake(self, Tracked(tr): Tracked<&mut Tr>)
    ensures *final(tr) == (Tr { wakes: old(tr).wakes.insert(self), ..*old(tr) })
  { unimplemented!() }
  #[verifier::external_body]
  pub fn wake_by_ref(&self, Tracked(tr): Tracked<&mut Tr>)
    ensures *final(tr) == (Tr { wakes: old(tr).wakes.insert(*self), ..*old(tr) })
  { unimplemented!() }
  #[verifier::external_body]
  pub fn will_wake(&self, o: &Waker) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
}
impl Clone for Waker {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Context { w: u8 }
impl Context {
  pub uninterp spec fn spec_waker(&self) -> Waker;
  #[verifier::external_body]
  pub fn waker(&self) -> (r: &Waker) ensures *r == self.spec_waker() { unimplemented!() }
}
//@trace-method wake wake_by_ref
//@type-subst `Context<'_>` `Context`
