use astro_run::*;
use harness::rec::*;
use harness::H;
use std::collections::HashMap;
use std::time::Duration;

#[derive(Clone, Debug)]
struct J {
  deps: Vec<usize>,
  /// ok, f3, c, or s: the job's own condition does not match
  out: &'static str,
  delay: usize,
}
fn cond(m: bool) -> Condition {
  Condition::Event(vec![if m { "push".into() } else { "tag".into() }])
}
fn key(i: usize) -> String {
  format!("j{}", i)
}

fn main() {
  let mut h = H::start();
  let mut cases: Vec<(Vec<J>, Option<bool>)> = vec![];
  const OUTS: [&str; 4] = ["ok", "f3", "c", "s"];
  const FAILS: [&str; 8] = ["f3", "f1", "f123", "f0", "f-1", "f137", "f255", "r"];
  // all graphs of up to 3 jobs with all outcomes
  for n in 1..=3usize {
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..a).map(move |b| (a, b))).collect();
    for g in 0..(1usize << pairs.len()) {
      for o in 0..OUTS.len().pow(n as u32) {
        let js = (0..n).map(|i| J {
          deps: pairs.iter().enumerate().filter(|(k, p)| p.0 == i && g >> k & 1 == 1).map(|(_, p)| p.1).collect(),
          out: OUTS[o / OUTS.len().pow(i as u32) % OUTS.len()],
          delay: (o + i) % 3,
        }).collect();
        cases.push((js, None));
      }
    }
  }
  for k in 0..h.n(1200, 20000) {
    let n = if k % 40 == 0 { 14 + h.rng.below(30) } else { 3 + h.rng.below(6) };
    let dense = h.rng.below(4);
    let js: Vec<J> = (0..n).map(|i| {
      let mut deps: Vec<usize> = (0..i).filter(|_| h.rng.chance(dense, if n > 10 { 12 } else { 5 })).collect();
      if h.rng.chance(1, 8) && !deps.is_empty() {
        deps.push(deps[0]);
      }
      // the position of a job says nothing about its dependencies
      deps.reverse();
      let out = OUTS[h.rng.below(4)];
      let out = if out == "f3" { *h.rng.pick(&FAILS) } else { out };
      J { deps, out: if h.rng.chance(2, 3) { "ok" } else { out }, delay: if h.rng.chance(1, 3) { h.rng.below(4) } else { 0 } }
    }).collect();
    let on = match h.rng.below(20) { 0 => Some(false), 1 => Some(true), _ => None };
    cases.push((js, on));
  }
  let many = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
  let one = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  for (n, (js, on)) in cases.iter().enumerate() {
    let rt = if n % 3 == 0 { &one } else { &many };
    rt.block_on(run(&h, js, *on));
    if h.failed() {
      break;
    }
  }
  h.done()
}

async fn run(h: &H, js: &[J], on: Option<bool>) {
  let book = Book::default();
  let astro = AstroRun::builder().runner(SpyRunner::new("r", &book)).plugin(Spy::new("p", &book)).github_personal_token("t").build();
  let jobs: HashMap<String, Job> = js.iter().enumerate().map(|(i, j)| {
    let step = Step { id: StepId::new("w", key(i), 0), run: format!("{}{}", if j.delay > 0 { format!("d{};", j.delay) } else { String::new() }, j.out), timeout: Duration::from_secs(60), ..Default::default() };
    (key(i), Job { id: JobId::new("w", key(i)), name: None, on: if j.out == "s" { Some(cond(false)) } else { None }, steps: vec![step], depends_on: j.deps.iter().map(|d| key(*d)).collect(), working_directories: vec![] })
  }).collect();
  let wf = Workflow { id: WorkflowId::new("w"), name: None, on: on.map(cond), jobs };
  let ctx = astro.execution_context().event(TriggerEvent::default()).build();
  ctx.verif_condition_payload(ConditionPayload { event: "push".into(), branch: "b".into(), paths: vec![] });
  let what = || format!("workflow on {:?}, jobs {:?}", on, js);
  let w2 = wf.clone();
  let r = match tokio::time::timeout(Duration::from_secs(20), tokio::spawn(async move { w2.run(ctx).await })).await {
    Ok(Ok(r)) => r,
    Ok(Err(e)) => return h.fail(format!("{}: running it panicked: {}", what(), e)),
    Err(_) => return h.fail(format!("{}: the workflow did not end within 20 s; seen {:?}", what(), book.of("p").iter().map(|c| c.short()).collect::<Vec<_>>())),
  };
  h.count("workflows");
  let calls = book.of("p");
  let ctl: Vec<String> = calls.iter().filter(|c| c.id == "w").map(|c| c.short()[2..].to_string()).collect();
  if on == Some(false) {
    h.check(state_name(&r.state) == "skipped" && r.jobs.is_empty() && ctl == ["state(w)=skipped"] && calls.len() == 1, || format!("{}: skipped workflow gave {:?} and {:?}", what(), r, ctl));
    return;
  }
  let pos = |hook: &str, id: &str| -> Vec<usize> { calls.iter().enumerate().filter(|(_, c)| c.hook == hook && c.id == id).map(|(i, _)| i).collect() };
  let result = |i: usize| match js[i].out { "ok" => "succeeded", "s" => "skipped", "c" => "cancelled", _ => "failed" };
  for i in 0..js.len() {
    let id = format!("w/{}", key(i));
    let first = calls.iter().position(|c| c.id == id || c.id.starts_with(&format!("{}/", id)));
    let starts = pos("job", &id);
    let skips = calls.iter().filter(|c| c.hook == "state" && c.id == id && c.state() == "skipped").count();
    let runs = book.of("r").iter().filter(|c| c.hook == "run" && c.id == format!("{}/0", id)).count();
    let want = if js[i].out == "s" { (0, 1, 0) } else { (1, 0, 1) };
    if !h.check((starts.len(), skips, runs) == want, || format!("{}: job {} was started {} times, skipped {} times, its step ran {} times", what(), i, starts.len(), skips, runs)) {
      return;
    }
    for d in &js[i].deps {
      let did = format!("w/{}", key(*d));
      // the result of a dependency: its completion event, or its skipped state
      let end = calls.iter().rposition(|c| c.id == did);
      h.check(end < first, || format!("{}: job {} began before its dependency {} had reported", what(), i, d));
    }
    match r.jobs.get(&key(i)) {
      Some(j) => h.check(j.id.to_string() == id && state_name(&j.state) == result(i), || format!("{}: under key {} there is {:?}", what(), key(i), j)),
      None => h.check(false, || format!("{}: no result of job {}", what(), i)),
    };
  }
  h.check(r.jobs.len() == js.len(), || format!("{}: {} results of {} jobs", what(), r.jobs.len(), js.len()));
  let bad: Vec<&str> = (0..js.len()).map(result).filter(|s| ["failed", "cancelled"].contains(s)).collect();
  let st = state_name(&r.state);
  h.check(if bad.is_empty() { st == "succeeded" } else { bad.contains(&st.as_str()) }, || format!("{}: final state {}, bad jobs {:?}", what(), st, bad));
  let exp: Vec<String> = vec!["workflow(w)".into(), "state(w)=in_progress".into(), format!("state(w)={}", st), format!("workflow_done(w)={}", st)];
  h.check(ctl == exp, || format!("{}: workflow events {:?}, expected {:?}", what(), ctl, exp));
  let n = calls.len();
  h.check(n >= 2 && calls[n - 1].hook == "workflow_done" && calls[n - 2].id == "w", || format!("{}: events after the end of the workflow: {:?}", what(), calls.iter().map(|c| c.short()).collect::<Vec<_>>()));
  if let Some(d) = calls.iter().find(|c| c.hook == "workflow_done") {
    h.check(d.arg == js_of(&r), || format!("{}: the completion event differs from the result", what()));
  }
  h.sample(format!("{}: {}", what(), st));
  if js.iter().any(|j| !j.deps.is_empty()) {
    h.count("nontrivial");
  }
}
fn js_of(r: &WorkflowRunResult) -> serde_json::Value {
  harness::rec::js(r)
}
