use astro_run::*;
use harness::rec::*;
use harness::H;
use std::time::Duration;

#[derive(Clone, Debug)]
struct S {
  out: String,
  keep: bool,
  on: Option<bool>,
}

fn cond(m: bool) -> Condition {
  Condition::Event(vec![if m { "push".into() } else { "tag".into() }])
}

fn main() {
  let mut h = H::start();
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  rt.block_on(async {
    let book = Book::default();
    let astro = AstroRun::builder().runner(SpyRunner::new("r", &book)).plugin(Spy::new("p", &book)).github_personal_token("t").build();
    // every list of up to 3 steps of these kinds first, then random longer lists
    let kinds: Vec<S> = ["ok", "f3", "c", "r"]
      .iter()
      .flat_map(|o| [false, true].into_iter().flat_map(move |keep| [None, Some(true), Some(false)].into_iter().map(move |on| S { out: o.to_string(), keep, on })))
      .filter(|s| !(s.out == "r" && s.on.is_some()))
      .collect();
    let mut lists: Vec<Vec<S>> = vec![vec![]];
    for a in &kinds {
      lists.push(vec![a.clone()]);
      for b in &kinds {
        lists.push(vec![a.clone(), b.clone()]);
      }
    }
    for _ in 0..h.n(2500, 40000) {
      let n = 3 + h.rng.below(6);
      lists.push((0..n).map(|_| {
        let mut s = h.rng.pick(&kinds).clone();
        if h.rng.chance(1, 2) {
          s.out = "ok".into();
        } else if s.out == "f3" {
          s.out = format!("f{}", h.rng.pick(&[3, 1, 2, 0, -1, 123, 124, 125, 126, 127, 130, 137, 143, 255, 256, i32::MAX]));
        }
        s
      }).collect());
    }
    for n in [40, 130, 270] {
      // long jobs: hardly a step fails, or all do after the first failure
      let tolerant = h.rng.below(2);
      lists.push((0..n).map(|i| S { out: if i == n / 3 || (tolerant == 1 && i % 50 == 7) { "f3".into() } else { "ok".into() }, keep: tolerant == 1 && i % 2 == 0, on: None }).collect());
    }
    for (n, l) in lists.iter().enumerate() {
      let job_on = match n % 7 { 0 => Some(false), 1 => Some(true), _ => None };
      one(&h, &astro, &book, l, job_on, n).await;
      if h.failed() {
        break;
      }
    }
  });
  h.done()
}

async fn one(h: &H, astro: &AstroRun, book: &Book, l: &[S], job_on: Option<bool>, n: usize) {
  book.clear();
  let steps: Vec<Step> = l.iter().enumerate().map(|(i, s)| Step {
    id: StepId::new("w", "j", i),
    on: s.on.map(cond),
    run: format!("l{};{}{}", i, if (i + n) % 3 == 0 { "d1;" } else { "" }, s.out),
    continue_on_error: s.keep,
    timeout: Duration::from_secs(60),
    ..Default::default()
  }).collect();
  let job = Job { id: JobId::new("w", "j"), name: None, on: job_on.map(cond), steps: steps.clone(), depends_on: vec![], working_directories: vec![] };
  let ctx = astro.execution_context().event(TriggerEvent::default()).build();
  ctx.verif_condition_payload(ConditionPayload { event: "push".into(), branch: "b".into(), paths: vec![] });
  let what = || format!("job on {:?}, steps {:?}", job_on, l);
  let res = match tokio::time::timeout(Duration::from_secs(20), tokio::spawn({ let job = job.clone(); async move { job.run(ctx).await } })).await {
    Ok(Ok(r)) => r,
    Ok(Err(e)) => return h.fail(format!("{}: running the job panicked: {}", what(), e)),
    Err(_) => return h.fail(format!("{}: the job did not end within 20 s", what())),
  };
  h.count("jobs");
  // the oracle
  let mut want = vec![];
  let mut state = "in_progress".to_string();
  let mut ran = vec![];
  let mut expect_events = vec![];
  let skipped_job = job_on == Some(false);
  if !skipped_job {
    for (i, s) in l.iter().enumerate() {
      let skip = (state == "failed" && !s.keep) || state == "cancelled" || s.on == Some(false);
      let r = if skip { "skipped" } else {
        ran.push(i);
        match s.out.as_str() { "ok" => "succeeded", "c" => "cancelled", _ => "failed" }
      };
      if r == "failed" || r == "cancelled" {
        state = r.to_string();
      }
      let code = match (r, s.out.as_str()) { ("failed", "r") => Some(1), ("failed", f) => f[1..].parse().ok(), _ => None };
      want.push((StepId::new("w", "j", i).to_string(), r.to_string(), code));
      expect_events.push((i, r.to_string()));
    }
    if state == "in_progress" {
      state = "succeeded".into();
    }
  } else {
    state = "skipped".into();
  }
  let got: Vec<(String, String, Option<i32>)> = res.steps.iter().map(|s| (s.id.to_string(), state_name(&s.state), s.exit_code)).collect();
  h.check(got == want, || format!("{}: results {:?}, expected {:?}", what(), got, want));
  h.check(state_name(&res.state) == state && res.id == job.id, || format!("{}: job {} is {}, expected {}", what(), res.id.to_string(), state_name(&res.state), state));
  h.check(res.started_at.is_some() == !skipped_job && res.completed_at.is_some() == !skipped_job, || format!("{}: times {:?} {:?}", what(), res.started_at, res.completed_at));
  for who in ["p", "r"] {
    let calls = book.of(who);
    // the calls at the runner, in order: start of the job, per step its events, end of the job
    let mut exp: Vec<String> = vec![];
    if skipped_job {
      exp.push("state(w/j)=skipped".into());
    } else {
      exp.push("job(w/j)".into());
      exp.push("state(w/j)=in_progress".into());
      for (i, r) in &expect_events {
        let id = StepId::new("w", "j", *i).to_string();
        if r == "skipped" {
          exp.push(format!("state({})=skipped", id));
        } else {
          exp.push(format!("before({})", id));
          exp.push(format!("step({})", id));
          exp.push(format!("state({})=queued", id));
          if l[*i].out != "r" {
            exp.push(format!("state({})=in_progress", id));
            exp.push(format!("log({})", id));
          }
          exp.push(format!("state({})={}", id, r));
          exp.push(format!("step_done({})={}", id, r));
        }
      }
      exp.push(format!("state(w/j)={}", state));
      exp.push(format!("job_done(w/j)={}", state));
    }
    let seen: Vec<String> = calls.iter().filter(|c| !["run", "end"].contains(&c.hook)).map(|c| c.short()[2..].to_string()).collect();
    h.check(seen == exp, || format!("{}: {} saw {:?}, expected {:?}", what(), who, seen, exp));
    if let Some(d) = calls.iter().find(|c| c.hook == "job_done") {
      h.check(d.arg == js(&res), || format!("{}: the completion event {} is not the result {}", what(), d.arg, js(&res)));
    }
  }
  let started: Vec<String> = book.of("r").iter().filter(|c| c.hook == "run").map(|c| c.id.clone()).collect();
  let want_started: Vec<String> = ran.iter().map(|i| StepId::new("w", "j", *i).to_string()).collect();
  h.check(started == want_started, || format!("{}: the runner was given {:?}, expected {:?}", what(), started, want_started));
  h.sample(format!("{}: {} {:?}", what(), state, want));
  if want.iter().any(|w| w.1 == "skipped") {
    h.count("nontrivial");
  }
}
