// ---- the configuration as it is parsed ----
#[verifier::external_body]
pub struct EnvironmentVariable { e: u8 }
#[verifier::external_body]
pub struct YamlValue { e: u8 }
impl Clone for YamlValue {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for EnvironmentVariable {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@type-subst `serde_yaml::Value` `YamlValue`
//@file cond crates/astro-run/src/types/condition.rs
//@file uc crates/astro-run/src/user_config.rs
//@file env crates/astro-run/src/types/envs.rs
//@file id crates/astro-run/src/types/id.rs
//@type id Id
//@type env EnvironmentVariables
//@type cond PushCondition
//@type cond PullRequestCondition
//@type cond ConditionConfig
//@type cond Condition
//@type uc ContainerOptions
//@type uc Container
//@type uc UserCommandStep
//@type uc UserActionStep
//@type uc UserStep
//@type uc UserJob
//@type uc UserWorkflow

// ---- which configurations are accepted ----
pub open spec fn deps(j: UserJob) -> Seq<String> { match j.depends_on { Some(d) => d@, None => Seq::empty() } }
pub open spec fn steps_ok(w: UserWorkflow) -> bool { forall|k: String| #[trigger] w.jobs@.contains_key(k) ==> w.jobs@[k].steps@.len() > 0 }
pub open spec fn deps_ok(w: UserWorkflow) -> bool {
  forall|k: String, i: int| #[trigger] w.jobs@.contains_key(k) && 0 <= i < deps(w.jobs@[k]).len() ==> w.jobs@.contains_key(#[trigger] deps(w.jobs@[k])[i])
}
/// `rank` orders the jobs: every job comes after the jobs it depends on
pub open spec fn ranked(w: UserWorkflow, rank: Map<String, nat>) -> bool {
  forall|k: String, i: int| #[trigger] w.jobs@.contains_key(k) && 0 <= i < deps(w.jobs@[k]).len() ==> rank[#[trigger] deps(w.jobs@[k])[i]] < rank[k]
}
pub open spec fn acyclic(w: UserWorkflow) -> bool { exists|rank: Map<String, nat>| #[trigger] ranked(w, rank) }
pub open spec fn accepted(w: UserWorkflow) -> bool {
  !(w.jobs@.dom() =~= Set::<String>::empty()) && steps_ok(w) && deps_ok(w) && acyclic(w)
}
