// ---- paths: their text (unix) ----
pub struct PathBuf { pub path: String }
// std::path::Path is the same for these properties
//@type-subst `Path` `PathBuf`
impl Clone for PathBuf {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// PathBuf::join: an absolute path replaces the base
pub open spec fn pjoin(base: Seq<char>, p: Seq<char>) -> Seq<char> {
  if p.len() > 0 && p[0] == '/' { p } else if base.len() == 0 || base.last() == '/' { base + p } else { base + seq!['/'] + p }
}
pub trait VOsStr { spec fn os(&self) -> Seq<char>; }
impl VOsStr for String { open spec fn os(&self) -> Seq<char> { self@ } }
impl VOsStr for str { open spec fn os(&self) -> Seq<char> { self@ } }
impl VOsStr for PathBuf { open spec fn os(&self) -> Seq<char> { self.path@ } }
impl<T: VOsStr + ?Sized> VOsStr for &T { open spec fn os(&self) -> Seq<char> { (**self).os() } }
impl PathBuf {
  #[verifier::external_body]
  pub fn v_join<S: VOsStr>(&self, s: S) -> (r: PathBuf) ensures r.path@ == pjoin(self.path@, s.os()) { unimplemented!() }
  #[verifier::external_body]
  pub fn push<S: VOsStr>(&mut self, s: S) ensures final(self).path@ == pjoin(old(self).path@, s.os()) { unimplemented!() }
  /// the text of a path, if it is valid UTF-8 (its text is all that counts here)
  #[verifier::external_body]
  pub fn to_str(&self) -> (r: Option<&str>) ensures r matches Some(s) ==> s@ == self.path@ { unimplemented!() }
}
//@rename-method join v_join
//@file meta crates/runner/src/metadata.rs
//@file id crates/astro-run/src/types/id.rs
//@type id Id
//@type id WorkflowId
//@type id JobId
//@type id StepId
//@type meta Metadata
//@type meta MetadataBuilder

// ---------------- the directories of a step ----------------
pub open spec fn root(wd: Seq<char>, repo: Option<(Seq<char>, Seq<char>)>) -> Seq<char> { match repo { Some(r) => pjoin(pjoin(wd, r.0), r.1), None => wd } }
pub open spec fn wf_dir(wd: Seq<char>, repo: Option<(Seq<char>, Seq<char>)>, wf: Seq<char>) -> Seq<char> { pjoin(root(wd, repo), wf) }
pub open spec fn job_dir(wd: Seq<char>, repo: Option<(Seq<char>, Seq<char>)>, id: StepId) -> Seq<char> { pjoin(wf_dir(wd, repo, id.0@), id.1@) }
pub open spec fn data_dir(wd: Seq<char>, repo: Option<(Seq<char>, Seq<char>)>, id: StepId) -> Seq<char> { pjoin(job_dir(wd, repo, id), "data"@) }
pub open spec fn step_dir(wd: Seq<char>, repo: Option<(Seq<char>, Seq<char>)>, id: StepId) -> Seq<char> { pjoin(job_dir(wd, repo, id), dec(id.2 as nat)) }
pub open spec fn metadata_ok(m: Metadata, wd: Seq<char>, repo: Option<(Seq<char>, Seq<char>)>, id: StepId) -> bool {
  &&& m.job_data_directory.path@ == data_dir(wd, repo, id)
  &&& m.step_host_working_directory.path@ == step_dir(wd, repo, id)
  &&& m.entrypoint_path.path@ == pjoin(step_dir(wd, repo, id), "entrypoint"@)
  &&& m.cache_directory.path@ == pjoin(root(wd, repo), "caches"@)
  &&& m.docker_name@ == id.0@ + seq!['-'] + id.1@ + seq!['-'] + dec(id.2 as nat)
  &&& m.docker_working_directory@ == "/home/runner/work"@
}
pub open spec fn pair(r: Option<(String, String)>) -> Option<(Seq<char>, Seq<char>)> { match r { Some(p) => Some((p.0@, p.1@)), None => None } }

// ---------------- contracts ----------------
//@fn id StepId::workflow_id
  ensures r == WorkflowId(self.0)
//@end
//@fn id StepId::job_key
  ensures r == self.1
//@end
//@fn id StepId::step_number
  ensures r == self.2
//@end
//@fn id WorkflowId::inner
  ensures r == self.0
//@end
//@fn meta MetadataBuilder::new
  ensures r.runner_working_directory is None, r.repository is None, r.step_id is None
//@end
//@fn meta Metadata::builder
  ensures r.runner_working_directory is None, r.repository is None, r.step_id is None
//@end
//@fn meta MetadataBuilder::runner_working_directory
  ensures r.runner_working_directory == Some(runner_working_directory), r.repository == self.repository, r.step_id == self.step_id
//@end
//@fn meta MetadataBuilder::repository
  ensures r.repository == Some((owner, name)), r.runner_working_directory == self.runner_working_directory, r.step_id == self.step_id
//@end
//@fn meta MetadataBuilder::step_id
  ensures r.step_id == Some(step_id), r.runner_working_directory == self.runner_working_directory, r.repository == self.repository
//@end
//@fn meta MetadataBuilder::build
  requires self.runner_working_directory is Some, self.step_id is Some
  ensures metadata_ok(r, self.runner_working_directory->0.path@, pair(self.repository), self.step_id->0)
//@start
  proof { reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
//@end
