use astro_run::*;
use harness::github::{self, Github};
use harness::H;
use std::collections::HashMap;
use std::time::Duration;

struct R;
#[async_trait]
impl Runner for R {
  async fn run(&self, _c: Context) -> RunResponse {
    let (tx, rx) = stream();
    tx.succeeded();
    Ok(rx)
  }
}

const PATS: [&str; 18] = ["**/*.rs", "*", "src/**", "src/*.rs", "a", "master", "feat/*", "[", "***", "[a-z]*", "src/a?.rs", "", "**/x/**", "release-[0-9]", "a**", "{a,b}", "main", "*.md"];
const VALS: [&str; 14] = ["src/a.rs", "src/ab.rs", "src/x/y.rs", "a", "master", "main", "feat/one", "README.md", "", "release-7", "x/b.rs", ".hidden", "[", "{a,b}"];

fn list(h: &mut H, from: &[&str], max: usize) -> Vec<String> {
  (0..h.rng.below(max + 1)).map(|_| h.rng.pick(from).to_string()).collect()
}
// pieces of patterns and of names: any text may be a pattern or a name
const BITS: [&str; 30] = ["!", "-", "/", ".", "*", "**", "?", "[", "]", "[!a]", "a", "B", "src", "main", " ", "é", "refs/heads/", "./", ":", "\\", "+", "^", "{", "}", ",", "@", "#", "~", "1", "\n"];
fn text(h: &mut H) -> String {
  (0..1 + h.rng.below(4)).map(|_| *h.rng.pick(&BITS)).collect()
}
fn patterns(h: &mut H) -> Vec<String> {
  let mut v = list(h, &PATS, 4);
  if h.rng.chance(1, 3) {
    let (t, at) = (text(h), h.rng.below(v.len() + 1));
    v.insert(at, t);
  }
  v
}
fn values(h: &mut H, max: usize) -> Vec<String> {
  let mut v = list(h, &VALS, max);
  if h.rng.chance(1, 3) && v.len() < max {
    let (t, at) = (text(h), h.rng.below(v.len() + 1));
    v.insert(at, t);
  }
  v
}
fn filter(h: &mut H) -> Option<Vec<String>> {
  if h.rng.chance(1, 3) { None } else { Some(patterns(h)) }
}
fn any(patterns: &[String], values: &[String]) -> bool {
  values.iter().any(|v| patterns.iter().any(|p| glob::Pattern::new(p).map(|g| g.matches(v)).unwrap_or(false)))
}
fn side(b: &Option<Vec<String>>, p: &Option<Vec<String>>, pl: &ConditionPayload) -> bool {
  b.as_ref().map_or(true, |b| any(b, &[pl.branch.clone()])) && p.as_ref().map_or(true, |p| any(p, &pl.paths))
}
fn condition(h: &mut H) -> Condition {
  if h.rng.chance(1, 3) {
    Condition::Event(list(h, &["push", "pull_request", "Push", "push ", "tag", ""], 3))
  } else {
    Condition::Config(ConditionConfig {
      push: if h.rng.chance(1, 3) { None } else { Some(PushCondition { branches: filter(h), paths: filter(h) }) },
      pull_request: if h.rng.chance(1, 3) { None } else { Some(PullRequestCondition { branches: filter(h), paths: filter(h) }) },
    })
  }
}
fn oracle(c: &Condition, p: &ConditionPayload) -> bool {
  match c {
    Condition::Event(e) => e.iter().any(|x| *x == p.event),
    Condition::Config(c) => match p.event.as_str() {
      "push" => c.push.as_ref().map_or(false, |x| side(&x.branches, &x.paths, p)),
      "pull_request" => c.pull_request.as_ref().map_or(false, |x| side(&x.branches, &x.paths, p)),
      _ => false,
    },
  }
}
fn payload(h: &mut H) -> ConditionPayload {
  ConditionPayload {
    event: h.rng.pick(&["push", "push", "pull_request", "pull_request", "tag", "Push", ""]).to_string(),
    branch: values(h, 1).pop().unwrap_or_default(),
    paths: values(h, 4),
  }
}

fn matching(h: &mut H) {
  let n = h.n(300000, 4000000);
  for _ in 0..n {
    let (c, p) = (condition(h), payload(h));
    let (got, want) = (c.is_match(&p), oracle(&c, &p));
    h.count("conditions");
    if want {
      h.count("nontrivial");
    }
    if !h.check(got == want, || format!("{:?} with {:?}: is_match = {}, expected {}", c, p, got, want)) {
      return;
    }
    h.sample(format!("{:?} with {:?}: {}", c, p, got));
  }
}

/// skip decisions of workflows, jobs and steps
async fn skipping(h: &mut H) {
  let astro = AstroRun::builder().runner(R).github_personal_token("t").build();
  let plain = AstroRun::builder().runner(R).build();
  let n = h.n(1500, 20000);
  for k in 0..n {
    let on = |h: &mut H| if h.rng.chance(1, 4) { None } else { Some(condition(h)) };
    let (w_on, j_on, s_on) = (on(h), on(h), on(h));
    let step = Step { id: StepId::new("w", "j", 0), on: s_on.clone(), run: "x".into(), timeout: Duration::from_secs(60), ..Default::default() };
    let job = Job { id: JobId::new("w", "j"), name: None, on: j_on.clone(), steps: vec![step.clone()], depends_on: vec![], working_directories: vec![] };
    let wf = Workflow { id: WorkflowId::new("w"), name: None, on: w_on.clone(), jobs: HashMap::from([("j".to_string(), job.clone())]) };
    // 0: known changed files; 1: no credentials; 2: no event; 3: an event whose files are not determined
    let mode = if k % 2 == 0 { 0 } else { 1 + h.rng.below(3) };
    let pl = payload(h);
    let ctx = match mode {
      0 => {
        let c = astro.execution_context().event(TriggerEvent::default()).build();
        c.verif_condition_payload(pl.clone());
        c
      }
      1 => plain.execution_context().event(TriggerEvent::default()).build(),
      2 => astro.execution_context().build(),
      _ => astro.execution_context().event(TriggerEvent { event: "tag".into(), ..Default::default() }).build(),
    };
    let want = |on: &Option<Condition>| mode == 0 && on.as_ref().map_or(false, |c| !oracle(c, &pl));
    let got = (wf.should_skip(&ctx).await, job.should_skip(&ctx).await, step.should_skip(&ctx).await);
    let exp = (want(&w_on), want(&j_on), want(&s_on));
    h.check(got == exp, || format!("mode {} payload {:?} on {:?} / {:?} / {:?}: skipped {:?}, expected {:?}", mode, pl, w_on, j_on, s_on, got, exp));
    let r = wf.run(ctx).await;
    let skipped = r.state == WorkflowState::Skipped;
    let js = r.jobs.get("j").map(|j| j.state == WorkflowState::Skipped);
    let ss = r.jobs.get("j").and_then(|j| j.steps.first().map(|s| s.state == WorkflowState::Skipped));
    let wj = if exp.0 { None } else { Some(exp.1) };
    let ws = if exp.0 || exp.1 { None } else { Some(exp.2) };
    h.check(skipped == exp.0 && js == wj && ss == ws, || format!("mode {} payload {:?} on {:?} / {:?} / {:?}: run gave {:?} {:?} {:?}, expected {:?}", mode, pl, w_on, j_on, s_on, skipped, js, ss, exp));
    h.count("skip_decisions");
    if h.failed() {
      return;
    }
  }
}

/// the changed files come from (a stand-in of) GitHub, several conditions are asked of one event
async fn from_github(h: &mut H, g: &Github) {
  let astro = AstroRun::builder().runner(R).github_personal_token("ghp_x").build();
  for _ in 0..h.n(120, 1500) {
    let mut pl = payload(h);
    pl.event = h.rng.pick(&["push", "pull_request"]).to_string();
    let sha = format!("{:040x}", h.rng.next());
    let number = 1 + h.rng.below(999) as i64;
    let known = h.rng.chance(5, 6);
    {
      let mut w = g.lock().unwrap();
      w.commits.clear();
      w.pulls.clear();
      w.tokens = vec!["ghp_x".into()];
      if known && pl.event == "push" {
        w.commits.insert(("o".into(), "r".into(), sha.clone()), pl.paths.clone());
      } else if known {
        w.pulls.insert(("o".into(), "r".into(), number), pl.paths.clone());
      }
    }
    let event = TriggerEvent { event: pl.event.clone(), repo_owner: "o".into(), repo_name: "r".into(), pr_number: Some(number), sha, branch: pl.branch.clone(), ref_name: "refs/heads/x".into() };
    let c = astro.execution_context().event(event).build();
    for _ in 0..3 {
      let on = condition(h);
      let job = Job { id: JobId::new("w", "j"), name: None, on: Some(on.clone()), steps: vec![], depends_on: vec![], working_directories: vec![] };
      let (got, want) = (!job.should_skip(&c).await, !known || oracle(&on, &pl));
      if !h.check(got == want, || format!("GitHub reports {:?} for the event {} on branch {:?}: the condition {:?} {}, expected {}", if known { Some(&pl.paths) } else { None }, pl.event, pl.branch, on, if got { "matches" } else { "does not match" }, want)) {
        return;
      }
      h.count("through_github");
    }
  }
}

fn main() {
  let mut h = H::start();
  let scratch = std::env::temp_dir().join(format!("verif-c04-{}", std::process::id()));
  std::fs::create_dir_all(&scratch).unwrap();
  let g = github::start(&scratch);
  matching(&mut h);
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  rt.block_on(skipping(&mut h));
  if !h.failed() {
    rt.block_on(async { tokio::time::timeout(Duration::from_secs(120), from_github(&mut h, &g)).await.is_err().then(|| println!("FAIL C04 no answer from the GitHub stand-in")) });
  }
  std::fs::remove_dir_all(&scratch).ok();
  h.done()
}
