//! Plugins and runners that record their calls, fail at random hooks and change steps.
use astro_run::*;
use harness::rec::*;
use harness::H;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const HOOKS: [&str; 9] = ["workflow", "job", "step", "state", "log", "step_done", "job_done", "workflow_done", "before"];
#[derive(Clone, Debug)]
struct P {
  fails: Vec<&'static str>,
  append: Option<String>,
  /// built from callbacks instead of an own type
  built: bool,
}
fn party(h: &mut H, i: usize) -> P {
  let fails = match h.rng.below(4) {
    0 => HOOKS.to_vec(),
    1 => vec![*h.rng.pick(&HOOKS)],
    2 => HOOKS.iter().filter(|_| h.rng.chance(1, 3)).cloned().collect(),
    _ => vec![],
  };
  P { fails, append: if h.rng.chance(1, 2) { Some(format!(";#{}", i)) } else { None }, built: h.rng.chance(1, 2) }
}
fn noop(f: bool) -> HookNoopResult {
  if f { Err(Error::error("hook failed")) } else { Ok(()) }
}
fn built(who: String, book: &Book, p: &P) -> AstroRunPlugin {
  macro_rules! cb {
    ($name:expr, $t:ty, $id:expr) => {{
      let (w, b, f) = (who.clone(), book.clone(), p.fails.contains(&$name));
      move |e: $t| {
        b.put(&w, $name, $id(&e), js(&e));
        noop(f)
      }
    }};
  }
  let (w, b, f, app) = (who.clone(), book.clone(), p.fails.contains(&"before"), p.append.clone());
  AstroRunPlugin::builder("built")
    .on_run_workflow(cb!("workflow", RunWorkflowEvent, |e: &RunWorkflowEvent| e.source.id.to_string()))
    .on_run_job(cb!("job", RunJobEvent, |e: &RunJobEvent| e.source.id.to_string()))
    .on_run_step(cb!("step", RunStepEvent, |e: &RunStepEvent| e.source.id.to_string()))
    .on_state_change(cb!("state", WorkflowStateEvent, state_id))
    .on_log(cb!("log", WorkflowLog, |e: &WorkflowLog| e.step_id.to_string()))
    .on_step_completed(cb!("step_done", StepRunResult, |e: &StepRunResult| e.id.to_string()))
    .on_job_completed(cb!("job_done", JobRunResult, |e: &JobRunResult| e.id.to_string()))
    .on_workflow_completed(cb!("workflow_done", WorkflowRunResult, |e: &WorkflowRunResult| e.id.to_string()))
    .on_before_run_step(move |s: Step| {
      b.put(&w, "before", s.id.to_string(), js(&s));
      if f {
        return Err(Error::error("hook failed"));
      }
      let mut s = s;
      if let Some(t) = &app {
        edit(&mut s, t);
      }
      Ok(s)
    })
    .build()
}
/// cancels the job as soon as it hears of it, and looks after it later
struct Early {
  ctx: Arc<Mutex<Option<ExecutionContext>>>,
  on: bool,
  seen: Arc<Mutex<Vec<(String, bool)>>>,
}
#[async_trait]
impl Plugin for Early {
  fn name(&self) -> &'static str {
    "early"
  }
  async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
    if self.on {
      if let Some(c) = self.ctx.lock().unwrap().clone() {
        let ok = c.cancel_job(&e.source.id).is_ok();
        self.seen.lock().unwrap().push((e.source.id.to_string(), ok));
      }
    }
    Ok(())
  }
}

fn main() {
  let mut h = H::start();
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
  for n in 0..h.n(700, 8000) {
    let ps: Vec<P> = (0..h.rng.below(5)).map(|i| party(&mut h, i)).collect();
    let r = party(&mut h, 9);
    let jobs: Vec<Vec<String>> = (0..1 + h.rng.below(3)).map(|_| {
      (0..1 + h.rng.below(3)).map(|_| {
        let out = *h.rng.pick(&["ok", "ok", "ok", "f3", "c", "r"]);
        format!("{}{}", ["", "l1;", "la;eb;", "l;l;l;", "d1;lx;"][h.rng.below(5)], out)
      }).collect()
    }).collect();
    if h.failed() {
      break;
    }
    let pay = if h.rng.chance(1, 2) { Some(load(&mut h.rng)) } else { None };
    rt.block_on(one(&h, &ps, &r, &jobs, pay, n % 9 == 8));
  }
  rt.block_on(replaced(&mut h));
  #[cfg(feature = "runner")]
  rt.block_on(local(&mut h));
  h.done()
}

/// hooks that hand back another step altogether
async fn replaced(h: &mut H) {
  struct Other {
    gives: Option<Step>,
    saw: Arc<Mutex<Vec<serde_json::Value>>>,
  }
  #[async_trait]
  impl Plugin for Other {
    fn name(&self) -> &'static str {
      "other"
    }
    async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult {
      self.saw.lock().unwrap().push(js(&s));
      self.gives.clone().ok_or(Error::error("no"))
    }
  }
  #[async_trait]
  impl Runner for Other {
    async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult {
      self.saw.lock().unwrap().push(js(&s));
      self.gives.clone().ok_or(Error::error("no"))
    }
    async fn run(&self, c: Context) -> RunResponse {
      self.saw.lock().unwrap().push(serde_json::json!([c.id.to_string(), js(&c.command)]));
      let (tx, rx) = stream();
      tx.succeeded();
      Ok(rx)
    }
  }
  for _ in 0..h.n(400, 5000) {
    let step = |h: &mut H| Step {
      id: StepId::new("w", "j", h.rng.below(1000)),
      name: if h.rng.chance(1, 2) { None } else { Some(format!("{}", h.rng.below(9))) },
      container: if h.rng.chance(1, 2) { None } else { Some(ContainerOptions { name: format!("c{}", h.rng.below(9)), volumes: if h.rng.chance(1, 2) { None } else { Some(vec![]) }, security_opts: None }) },
      run: format!("{}", h.rng.below(9)),
      continue_on_error: h.rng.chance(1, 2),
      environments: (0..h.rng.below(3)).map(|k| (format!("{}", k), EnvironmentVariable::from(h.rng.below(9) as f64))).collect(),
      secrets: (0..h.rng.below(3)).map(|k| format!("{}", k)).collect(),
      timeout: Duration::from_millis(60_000 + h.rng.below(1_000_000) as u64),
      on: if h.rng.chance(1, 2) { None } else { Some(Condition::Event(vec![format!("{}", h.rng.below(9))])) },
      ..Default::default()
    };
    let saw = Arc::new(Mutex::new(vec![]));
    let first = step(h);
    let n = 1 + h.rng.below(4);
    let gives: Vec<Option<Step>> = (0..n).map(|_| if h.rng.chance(1, 4) { None } else { Some(step(h)) }).collect();
    let mut b = AstroRun::builder().runner(Other { gives: gives[n - 1].clone(), saw: saw.clone() });
    for g in &gives[..n - 1] {
      b = b.plugin(Other { gives: g.clone(), saw: saw.clone() });
    }
    let ctx = b.build().execution_context().build();
    let mut cur = first.clone();
    cur.on = None;
    let job = Job { id: JobId::new("w", "j"), name: None, on: None, steps: vec![cur.clone()], depends_on: vec![], working_directories: vec![] };
    let what = format!("step {} and hooks that give {}", js(&cur), js(&gives));
    let r = job.run(ctx).await;
    let mut want = vec![];
    for g in &gives {
      want.push(js(&cur));
      cur = g.clone().unwrap_or(cur);
    }
    let got = saw.lock().unwrap().clone();
    h.check(got[..got.len() - 1] == want[..], || format!("{}: the hooks saw {:?}, expected {:?}", what, got, want));
    let ran = got.last().unwrap();
    h.check(ran[0] == cur.id.to_string() && js(&cur).as_object().unwrap().iter().all(|(k, v)| k == "on" || ran[1][k] == *v), || format!("{}: {} was run, expected {}", what, ran, js(&cur)));
    h.check(r.steps.len() == 1 && r.steps[0].id == cur.id, || format!("{}: result of {:?}", what, r.steps));
    h.count("replaced");
    if h.failed() {
      return;
    }
  }
}

async fn one(h: &H, ps: &[P], r: &P, jobs: &[Vec<String>], pay: Option<Load>, early: bool) {
  let what = || format!("plugins {:?}, runner {:?}, jobs {:?}, payload {:?}{}", ps, r, jobs, pay, if early { ", every job cancelled at its start" } else { "" });
  let book = Book::default();
  let fails = |p: &P| -> Option<Fails> { let f = p.fails.clone(); Some(Arc::new(move |x: &'static str| f.contains(&x))) };
  let slot = Arc::new(Mutex::new(None));
  let seen = Arc::new(Mutex::new(vec![]));
  let mut b = AstroRun::builder().runner(SpyRunner { who: "r".into(), book: book.clone(), fails: fails(r), append: r.append.clone() });
  for (i, p) in ps.iter().enumerate() {
    let who = format!("p{}", i);
    b = if p.built { b.plugin(built(who, &book, p)) } else { b.plugin(Spy { who, book: book.clone(), fails: fails(p), append: p.append.clone() }) };
  }
  let astro = b.plugin(Early { ctx: slot.clone(), on: early, seen: seen.clone() }).build();
  let trigger = TriggerEvent { branch: "b".into(), ..Default::default() };
  let mut cb = astro.execution_context().event(trigger.clone());
  if let Some(p) = &pay {
    cb = cb.payload(p.clone());
  }
  let ctx = cb.build();
  h.check(ctx.payload::<Load>() == pay.as_ref(), || format!("{}: the context has payload {:?}", what(), ctx.payload::<Load>()));
  let text = pay.as_ref().map(|p| serde_json::to_string(&ContextPayload::new(p.clone())).unwrap());
  *slot.lock().unwrap() = Some(ctx.clone());
  let mut m = HashMap::new();
  let mut all = vec![];
  for (j, l) in jobs.iter().enumerate() {
    let key = format!("j{}", j);
    let steps: Vec<Step> = l.iter().enumerate().map(|(i, t)| Step { id: StepId::new("w", key.as_str(), i), run: if early { format!("w20000;{}", t) } else { t.clone() }, continue_on_error: i % 2 == 0, timeout: Duration::from_secs(600 + i as u64), name: if j % 2 == 0 { Some(format!("n{}", i)) } else { None }, environments: [("K".to_string(), EnvironmentVariable::from(t.as_str()))].into_iter().collect(), secrets: vec![format!("s{}", i)], container: if i % 2 == 1 { Some(ContainerOptions { name: format!("c{}", j), volumes: Some(vec!["v".into()]), security_opts: None }) } else { None }, ..Default::default() }).collect();
    all.extend(steps.clone());
    m.insert(key.clone(), Job { id: JobId::new("w", key.as_str()), name: None, on: None, steps, depends_on: vec![], working_directories: vec![] });
  }
  let wf = Workflow { id: WorkflowId::new("w"), name: None, on: None, jobs: m };
  let run = tokio::spawn({ let (wf, ctx) = (wf.clone(), ctx.clone()); async move { wf.run(ctx).await } });
  match tokio::time::timeout(Duration::from_secs(60), run).await {
    Ok(Ok(_)) => {}
    Ok(Err(e)) => return h.fail(format!("{}: running panicked: {}", what(), e)),
    Err(_) => return h.fail(format!("{}: did not end within 60 s", what())),
  }
  *slot.lock().unwrap() = None;
  h.count("workflows");
  let parties: Vec<String> = (0..ps.len()).map(|i| format!("p{}", i)).chain(["r".to_string()]).collect();
  let calls: Vec<Call> = book.all().into_iter().filter(|c| !["run", "end", "signal", "no_signal"].contains(&c.hook)).collect();
  // per job (and for the workflow) events follow each other: each must go to all parties in order
  let mut groups: Vec<String> = (0..jobs.len()).map(|j| format!("w/j{}", j)).collect();
  groups.push("w".into());
  let in_group = |c: &Call, g: &str| if g == "w" { c.id == "w" } else { c.id == g || c.id.starts_with(&format!("{}/", g)) };
  for g in &groups {
    let mine: Vec<&Call> = calls.iter().filter(|c| in_group(c, g)).collect();
    for (k, e) in mine.chunks(parties.len()).enumerate() {
      h.count("events");
      let who: Vec<&str> = e.iter().map(|c| c.who.as_str()).collect();
      if !h.check(who == parties.iter().map(|s| s.as_str()).collect::<Vec<_>>() && e.iter().all(|c| c.hook == e[0].hook && c.id == e[0].id), || format!("{}: event {} of {}: expected one event for each of {:?} in this order, but the calls were {:?}", what(), k, g, parties, e.iter().map(|c| c.short()).collect::<Vec<_>>())) {
        return;
      }
      if e[0].hook != "before" {
        h.check(e.iter().all(|c| c.arg == e[0].arg), || format!("{}: event {} of {}: different contents: {:?}", what(), k, g, e.iter().map(|c| (c.who.clone(), c.arg.to_string())).collect::<Vec<_>>()));
        if ["workflow", "job", "step"].contains(&e[0].hook) {
          let p = serde_json::from_value::<Option<ContextPayload>>(e[0].arg["payload"].clone()).ok().flatten();
          h.check(p.as_ref().and_then(|p| p.payload::<Load>()) == pay.as_ref(), || format!("{}: {} event with another payload: {}", what(), e[0].hook, e[0].arg));
          h.check(e[0].arg["trigger_event"] == js(&trigger), || format!("{}: {} event without the trigger event: {}", what(), e[0].hook, e[0].arg));
        }
        continue;
      }
      // the chain of before hooks
      let step = all.iter().find(|s| s.id.to_string() == e[0].id).unwrap();
      let mut cur = step.clone();
      let ordered: Vec<&P> = ps.iter().chain([r]).collect();
      for (c, p) in e.iter().zip(ordered) {
        h.check(c.arg == js(&cur), || format!("{}: before hook of {} for {} saw {}, expected {}", what(), c.who, c.id, c.arg, js(&cur)));
        if !p.fails.contains(&"before") {
          if let Some(t) = &p.append {
            edit(&mut cur, t);
            h.count("nontrivial");
          }
        }
      }
      let ran: Vec<Call> = book.all().into_iter().filter(|c| c.hook == "run" && c.id == e[0].id).collect();
      h.check(ran.len() == 1 && js(&cur).as_object().unwrap().iter().all(|(k, v)| k == "on" || ran[0].arg[k] == *v) && ran[0].arg["_event"] == js(&Some(trigger.clone())) && ran[0].arg["_payload"] == js(&text), || format!("{}: step {} was run as {:?}, expected {}", what(), e[0].id, ran.iter().map(|c| c.arg.to_string()).collect::<Vec<_>>(), js(&cur)));
      if let Some(s) = calls.iter().find(|c| c.hook == "step" && c.id == e[0].id) {
        h.check(s.arg["source"] == js(&cur), || format!("{}: step event of {} has {}, expected {}", what(), e[0].id, s.arg["source"], js(&cur)));
      }
    }
    // completeness: start and end of everything that ran
    let count = |hook: &str| mine.iter().filter(|c| c.hook == hook).count();
    let n = parties.len();
    if g == "w" {
      h.check(count("workflow") == n && count("workflow_done") == n && count("state") == 2 * n, || format!("{}: workflow events {:?}", what(), mine.iter().map(|c| c.short()).collect::<Vec<_>>()));
    } else {
      h.check(count("job") == n && count("job_done") == n && count("step") == count("step_done") && count("before") == count("step"), || format!("{}: events of {}: {:?}", what(), g, mine.iter().map(|c| c.short()).collect::<Vec<_>>()));
    }
  }
  // signals: there while the job runs, gone afterwards
  let seen = seen.lock().unwrap().clone();
  if early {
    h.check(seen.len() == jobs.len() && seen.iter().all(|s| s.1), || format!("{}: cancelling jobs while they start: {:?}", what(), seen));
    let sig: Vec<Call> = book.all().into_iter().filter(|c| c.hook == "signal" || c.hook == "no_signal").collect();
    h.check(sig.iter().all(|c| c.arg == "true"), || format!("{}: signals of the steps: {:?}", what(), sig.iter().map(|c| (c.id.clone(), c.hook, c.arg.to_string())).collect::<Vec<_>>()));
  }
  for j in 0..jobs.len() {
    let id = JobId::new("w", format!("j{}", j));
    h.check(ctx.cancel_job(&id).is_err() && astro.cancel_job(&id).is_err(), || format!("{}: {} can still be cancelled after it completed", what(), id.to_string()));
  }
  h.sample(format!("{}: {} calls", what(), calls.len()));
}

#[cfg(feature = "runner")]
async fn local(h: &mut H) {
  struct L {
    n: usize,
    fail: (bool, bool),
    log: Arc<Mutex<Vec<(usize, bool, String)>>>,
  }
  #[async_trait]
  impl astro_runner::Plugin for L {
    fn name(&self) -> &'static str {
      "l"
    }
    async fn on_before_run(&self, mut c: Context) -> astro_run::Result<Context> {
      self.log.lock().unwrap().push((self.n, true, c.command.run.clone()));
      if self.fail.0 {
        return Err(Error::error("no"));
      }
      c.command.run.push_str(&format!(" {}", self.n));
      Ok(c)
    }
    async fn on_after_run(&self, c: Context) -> HookNoopResult {
      self.log.lock().unwrap().push((self.n, false, c.command.run));
      noop(self.fail.1)
    }
  }
  for mask in 0..256usize {
    let log = Arc::new(Mutex::new(vec![]));
    let n = h.rng.below(5);
    let fail = |i: usize| (mask >> i & 1 == 1, mask >> (i + 4) & 1 == 1);
    let d = astro_runner::PluginDriver::new((0..n).map(|i| Box::new(L { n: i, fail: fail(i), log: log.clone() }) as Box<dyn astro_runner::Plugin>).collect());
    let c = Context { id: StepId::new("w", "j", 0), command: astro_run::Command { run: "x".into(), ..Default::default() }, event: None, signal: AstroRunSignal::new(), payload: None };
    let out = d.on_before_run(c).await;
    let mut exp = vec![];
    let mut cur = "x".to_string();
    for i in 0..n {
      exp.push((i, true, cur.clone()));
      if !fail(i).0 {
        cur.push_str(&format!(" {}", i));
      }
    }
    h.check(out.command.run == cur, || format!("local runner, failing {:b}: the context is {:?} after the before hooks, expected {:?}", mask, out.command.run, cur));
    d.on_after_run(out).await;
    for i in 0..n {
      exp.push((i, false, cur.clone()));
    }
    let got = log.lock().unwrap().clone();
    h.check(got == exp, || format!("local runner, failing {:b}: hooks saw {:?}, expected {:?}", mask, got, exp));
    h.count("local");
  }
}
