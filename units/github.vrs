// ---- what GitHub holds ----
/// the files a commit changes, and those a pull request changes
pub uninterp spec fn commit_files(owner: Seq<char>, repo: Seq<char>, sha: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn pull_files(owner: Seq<char>, repo: Seq<char>, number: int) -> Seq<Seq<char>>;
pub open spec fn lists(f: Seq<String>, all: Seq<Seq<char>>) -> bool {
  f.len() == all.len() && forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i])@ == all[i]
}
pub open spec fn push_files(e: TriggerEvent, f: Seq<String>) -> bool {
  lists(f, commit_files(e.repo_owner@, e.repo_name@, e.sha@))
}
pub open spec fn pr_files(e: TriggerEvent, f: Seq<String>) -> bool {
  e.pr_number matches Some(n) && lists(f, pull_files(e.repo_owner@, e.repo_name@, n as int))
}
pub open spec fn files_of(e: TriggerEvent, f: Seq<String>) -> bool {
  if e.event@ == "push"@ { push_files(e, f) } else { e.event@ == "pull_request"@ && pr_files(e, f) }
}
/// events that say which files are asked for
pub open spec fn supported(e: TriggerEvent) -> bool { e.event@ == "push"@ || (e.event@ == "pull_request"@ && e.pr_number is Some) }
