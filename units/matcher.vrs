// ---- the matcher and its cache; `describes` is what a condition says of a payload ----
pub open spec fn good(e: TriggerEvent, p: ConditionPayload) -> bool {
  p.event@ == e.event@ && p.branch@ == e.branch@ && files_of(e, p.paths@)
}
/// the event for which a cache was made (a matcher and its copies share cache and event)
pub uninterp spec fn event_of(cache: int) -> TriggerEvent;
pub open spec fn wf(m: ConditionMatcher) -> bool { m.event matches Some(e) ==> e == event_of(m.payload.id()) }
impl Mutex<Option<ConditionPayload>> {
  #[verifier::external_body]
  pub fn lock<'a>(&'a self, Tracked(tr): Tracked<&mut Tr>) -> (g: &'a mut Option<ConditionPayload>)
    ensures
      *g matches Some(p) ==> good(event_of(self.id()), p),
      *final(tr) == (Tr { ok: old(tr).ok && (*final(g) matches Some(p) ==> good(event_of(self.id()), p)), ..*old(tr) })
  { unimplemented!() }
}
/// the answer `r` of a matcher for a condition
pub open spec fn answer(m: ConditionMatcher, c: Condition, t0: Tr, t1: Tr, r: bool) -> bool {
  if m.github_auth.is_none() || m.event.is_none() { r } else {
    // the files could not be determined, or a correct payload decides
    ||| (r && (!supported(m.event->0) || t1.fails > t0.fails))
    ||| (exists|p: ConditionPayload| #[trigger] good(m.event->0, p) && r == describes(c, p))
  }
}
