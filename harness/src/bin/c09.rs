//! Steps run through the real execution context, with a runner that follows a generated script.
use astro_run::*;
use harness::rec::*;
use harness::H;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
enum I {
  Log(String),
  Err(String),
  /// several lines without a break
  Burst(usize),
  Sleep(u64),
  /// wait for a signal for up to so many ms: silently, writing a line every ms, or writing all the time
  Wait(u64, u8),
  /// cancel job k
  Cancel(usize),
  /// first: the runner takes so many ms to accept the step
  Slow(u64),
}
#[derive(Clone, Debug)]
struct S {
  prog: Vec<I>,
  /// 0 = ok, 1000 = cancelled, 2000 = refused, otherwise failed with this code
  out: i32,
  timeout: u64,
  /// the timeout after the plugin's before hook
  changed: Option<u64>,
}
#[derive(Clone, Default)]
struct Log2(Arc<Mutex<Vec<(String, String, String, bool)>>>); // (step, kind, value, in time)

struct Follow {
  spy: SpyRunner,
  steps: Arc<Mutex<Vec<Vec<S>>>>,
  ctx: Arc<Mutex<Option<ExecutionContext>>>,
  lines: Log2,
}
fn ids(id: &StepId) -> (usize, usize) {
  let t = id.to_string();
  let v: Vec<&str> = t.split('/').collect();
  (v[1][1..].parse().unwrap_or(0), v[2].parse().unwrap_or(0))
}
#[async_trait]
impl Runner for Follow {
  async fn run(&self, c: Context) -> RunResponse {
    let (j, n) = ids(&c.id);
    let s = self.steps.lock().unwrap()[j][n].clone();
    self.spy.book.put("r", "run", c.id.to_string(), js(&c.command));
    self.lines.0.lock().unwrap().push((c.id.to_string(), "cancelled at start".into(), c.signal.is_cancelled().to_string(), true));
    if let Some(I::Slow(ms)) = s.prog.first() {
      tokio::time::sleep(Duration::from_millis(*ms)).await;
    }
    if s.out == 2000 {
      return Err(Error::error("refused"));
    }
    let (tx, rx) = stream();
    let t0 = Instant::now();
    let (lines, ctx) = (self.lines.clone(), self.ctx.clone());
    let limit = s.changed.unwrap_or(s.timeout);
    tokio::spawn(async move {
      let id = c.id.to_string();
      let mut log = |tx: &StreamSender, e: bool, t: &str| {
        lines.0.lock().unwrap().push((id.clone(), if e { "error" } else { "log" }.into(), t.into(), true));
        if e { tx.error(t) } else { tx.log(t) }
      };
      for i in s.prog {
        match i {
          I::Slow(_) => {}
          I::Log(t) => log(&tx, false, &t),
          I::Err(t) => log(&tx, true, &t),
          I::Burst(k) => (0..k).for_each(|k| log(&tx, k % 5 == 4, &format!("burst {}", k))),
          I::Sleep(ms) => tokio::time::sleep(Duration::from_millis(ms)).await,
          I::Cancel(k) => {
            let c = ctx.lock().unwrap().clone();
            if let Some(c) = c {
              let id = JobId::new("w", format!("j{}", k));
              let mut ok = c.cancel_job(&id).is_ok();
              // another job may not have begun yet
              for _ in 0..if k == 1 { 5000 } else { 0 } {
                if ok {
                  break;
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
                ok = c.cancel_job(&id).is_ok();
              }
              lines.0.lock().unwrap().push((format!("j{}", k), "cancelled".into(), ok.to_string(), true));
            }
          }
          I::Wait(ms, how) => {
            let end = Instant::now() + Duration::from_millis(ms);
            let mut got = None;
            let mut k = 0;
            let mut rv = Box::pin(c.signal.recv());
            while got.is_none() && Instant::now() < end {
              let step = match how { 0 => 100, 1 => 1, _ => 0 };
              if how > 0 && k < 2_000_000 {
                log(&tx, k % 7 == 6, &format!("chat {}", k));
                k += 1;
              }
              if step > 0 {
                got = tokio::time::timeout(Duration::from_millis(step), &mut rv).await.ok();
              } else {
                tokio::task::yield_now().await;
                if k % 16 == 0 {
                  got = tokio::time::timeout(Duration::from_millis(1), &mut rv).await.ok();
                }
              }
            }
            let early = t0.elapsed() < Duration::from_millis(limit);
            let v = match got {
              Some(Signal::Cancel) => "cancel",
              Some(Signal::Timeout) => "timeout",
              None => "none",
            };
            let agrees = c.signal.is_cancelled() == (v == "cancel") && c.signal.is_timeout() == (v == "timeout");
            let v = if agrees { v.to_string() } else { format!("{} (but the queries say cancelled {} timeout {})", v, c.signal.is_cancelled(), c.signal.is_timeout()) };
            lines.0.lock().unwrap().push((id.clone(), "signal".into(), v, early));
            if got.is_none() {
              break;
            }
          }
        }
      }
      match s.out {
        0 => tx.end(RunResult::Succeeded),
        1000 => tx.end(RunResult::Cancelled),
        c => tx.end(RunResult::Failed { exit_code: c }),
      }
    });
    Ok(rx)
  }
  async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { self.spy.on_run_step(e).await }
  async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult { self.spy.on_state_change(e).await }
  async fn on_log(&self, e: WorkflowLog) -> HookNoopResult { self.spy.on_log(e).await }
  async fn on_step_completed(&self, e: StepRunResult) -> HookNoopResult { self.spy.on_step_completed(e).await }
}
/// changes the timeout of steps before they run
struct Change(Arc<Mutex<Vec<Vec<S>>>>);
#[async_trait]
impl Plugin for Change {
  fn name(&self) -> &'static str {
    "change"
  }
  async fn on_before_run_step(&self, mut s: Step) -> HookBeforeRunStepResult {
    let (j, n) = ids(&s.id);
    if let Some(ms) = self.0.lock().unwrap()[j][n].changed {
      s.timeout = Duration::from_millis(ms);
    }
    Ok(s)
  }
}

const FAR: u64 = 3_600_000;
const TEXTS: [&str; 9] = ["", " ", "a", "a", "ä€ü \u{1F600}", "two\nlines", "  spaces  ", "{\"x\":1}", "\u{1b}[31mred"];

fn quiet(h: &mut H) -> S {
  let mut prog = vec![];
  for _ in 0..h.rng.below(6) {
    let t = h.rng.pick(&TEXTS).to_string();
    prog.push(match h.rng.below(6) {
      0 => I::Err(t),
      1 => I::Sleep(h.rng.below(3) as u64),
      2 => I::Burst(1 + h.rng.below(60)),
      _ => I::Log(t),
    });
  }
  let out = *h.rng.pick(&[0, 0, 0, 1, 2, 137, -1, 0, 1000, 2000]);
  S { prog, out, timeout: if h.rng.chance(1, 5) { u64::MAX / 1_000_000 } else { FAR }, changed: None }
}
/// a job list and, per job, the signal every step that waits must see
fn case(h: &mut H, n: usize) -> (Vec<Vec<S>>, &'static str, Option<(u64, usize)>) {
  let how = h.rng.below(3) as u8;
  let ms = 20 + h.rng.below(60) as u64;
  // how a step ends after its timeout, and after it was cancelled, is its own business
  let late = *h.rng.pick(&[0, 1, 2, 7, 124, 137, -1, 1000, 2000]);
  let stopped = *h.rng.pick(&[0, 1, 137, 1000, 1000, 1000]);
  let after = *h.rng.pick(&["after", "after", "", " "]);
  let wait = |out: i32, timeout: u64, pre: Vec<I>| S { prog: [pre, vec![I::Wait(15_000, how), I::Log(after.into())]].concat(), out, timeout, changed: None };
  match n % 8 {
    // its timeout passes, perhaps after lines and a change by a plugin
    1 => (vec![vec![wait(late, ms, vec![I::Burst(10), I::Sleep(5)])]], "timeout", None),
    2 => {
      let mut s = wait(late, FAR, vec![]);
      s.changed = Some(ms);
      (vec![vec![s]], "timeout", None)
    }
    // its job is cancelled by someone else while it runs
    3 if h.rng.chance(1, 3) => (vec![vec![wait(stopped, FAR, vec![I::Slow(2 * ms)])]], "cancel", Some((ms, 0))),
    3 => (vec![vec![wait(stopped, FAR, vec![I::Log("x".into())])]], "cancel", Some((ms, 0))),
    // cancelled by the step itself, then the next step of the job is told although it starts later
    4 => {
      let first = S { prog: vec![I::Log("first".into()), I::Cancel(0), I::Wait(15_000, 0)], out: 0, timeout: FAR, changed: None };
      (vec![vec![first, wait(stopped, FAR, vec![])]], "cancel", None)
    }
    // ... where the first step does not look at its signal
    5 => {
      let first = S { prog: vec![I::Cancel(0), I::Sleep(2)], out: 0, timeout: FAR, changed: None };
      let mid = S { prog: vec![I::Log("mid".into())], out: 0, timeout: FAR, changed: None };
      (vec![vec![first, mid, wait(stopped, FAR, vec![])]], "cancel", None)
    }
    // cancelling another job does not signal this one, but its timeout does
    6 => {
      let other = S { prog: vec![I::Sleep(5), I::Cancel(1), I::Cancel(7)], out: 0, timeout: FAR, changed: None };
      (vec![vec![other], vec![wait(1000, FAR, vec![])], vec![wait(5, 150, vec![])]], "mixed", None)
    }
    _ => ((0..1 + h.rng.below(2)).map(|_| (0..1 + h.rng.below(3)).map(|_| quiet(h)).collect()).collect(), "", None),
  }
}

/// what a step does on the paused clock: a line every so many ms, and the time and kind of its signal
#[derive(Clone, Default)]
struct Clock {
  every: Arc<Mutex<u64>>,
  told: Arc<Mutex<Vec<(usize, u128, &'static str)>>>,
}
#[async_trait]
impl Runner for Clock {
  async fn run(&self, c: Context) -> RunResponse {
    let (tx, rx) = stream();
    let me = self.clone();
    let every = *me.every.lock().unwrap();
    let t0 = tokio::time::Instant::now();
    tokio::spawn(async move {
      let mut rv = Box::pin(c.signal.recv());
      let s = loop {
        tokio::select! {
          s = &mut rv => break s,
          _ = tokio::time::sleep(Duration::from_millis(every)) => {
            tx.log("line");
            if t0.elapsed() > Duration::from_secs(200 * 86400) {
              tx.failed(9);
              return;
            }
          }
        }
      };
      let kind = match s { Signal::Cancel => "cancel", Signal::Timeout => "timeout" };
      me.told.lock().unwrap().push((c.id.step_number(), t0.elapsed().as_millis(), kind));
      tx.failed(1);
    });
    Ok(rx)
  }
}
/// the time at which a step is signalled, on a clock that only runs while everything waits
async fn exact(h: &mut H) {
  let me = Clock::default();
  let astro = AstroRun::builder().runner(me.clone()).build();
  for _ in 0..h.n(300, 3000) {
    let scale = *h.rng.pick(&[20usize, 300, 5_000, 90_000, 4_000_000, 900_000_000]);
    let limits: Vec<u64> = (0..1 + h.rng.below(3)).map(|_| 1 + h.rng.below(scale) as u64).collect();
    let every = (limits.iter().max().unwrap() / (1 + h.rng.below(50) as u64)).max(1);
    *me.every.lock().unwrap() = every;
    me.told.lock().unwrap().clear();
    let total: u64 = limits.iter().sum();
    let cancel = if h.rng.chance(1, 3) { Some(h.rng.below(total as usize + 10) as u64) } else { None };
    let steps = limits.iter().enumerate().map(|(i, l)| Step { id: StepId::new("w", "j", i), run: "x".into(), continue_on_error: true, timeout: Duration::from_millis(*l), ..Default::default() }).collect();
    let job = Job { id: JobId::new("w", "j"), name: None, on: None, steps, depends_on: vec![], working_directories: vec![] };
    let ctx = astro.execution_context().build();
    let canceller = cancel.map(|at| {
      let ctx = ctx.clone();
      tokio::spawn(async move {
        tokio::time::sleep(Duration::from_millis(at)).await;
        ctx.cancel_job(&JobId::new("w", "j")).ok();
      })
    });
    job.run(ctx).await;
    if let Some(c) = canceller {
      c.abort();
    }
    let told = me.told.lock().unwrap().clone();
    let what = || format!("steps with timeouts {:?} ms that write a line every {} ms, job cancelled at {:?} ms: signalled (step, ms, kind) {:?}", limits, every, cancel, told);
    h.check(told.len() == limits.len(), || format!("{}: not every step was signalled", what()));
    let mut start = 0u128;
    for (i, l) in limits.iter().enumerate() {
      let Some((_, at, kind)) = told.iter().find(|t| t.0 == i) else { break };
      let by_timeout = (*l as u128, "timeout");
      let want = match cancel.map(u128::from) {
        Some(c) if c + 5 < start + *l as u128 => (c.saturating_sub(start), "cancel"),
        // almost at the same time: either may be first
        Some(c) if c <= start + *l as u128 + 5 && *kind == "cancel" => (*at, "cancel"),
        _ => by_timeout,
      };
      // (the timer has a resolution of a millisecond)
      h.check(*kind == want.1 && *at >= want.0.saturating_sub(4) && *at <= want.0 + 4, || format!("{}: step {} was expected to be signalled {:?}", what(), i, want));
      start += *at;
    }
    h.count("exact");
    if h.failed() {
      return;
    }
  }
}

/// writes lines from a thread of its own so fast that there is always one to deliver, until it is signalled
#[derive(Clone, Default)]
struct Flood {
  out: Arc<Mutex<(usize, &'static str)>>,
}
#[async_trait]
impl Runner for Flood {
  async fn run(&self, c: Context) -> RunResponse {
    let (tx, rx) = stream();
    let me = self.clone();
    std::thread::spawn(move || {
      let t0 = Instant::now();
      let mut sent = 0;
      loop {
        for _ in 0..64 {
          if c.signal.is_timeout() || c.signal.is_cancelled() {
            me.out.lock().unwrap().1 = if c.signal.is_timeout() { "timeout" } else { "cancel" };
            tx.failed(1);
            return;
          }
          if sent < me.out.lock().unwrap().0 + 4000 {
            tx.log("more");
            sent += 1;
          }
        }
        if t0.elapsed() > Duration::from_secs(6) {
          tx.failed(2);
          return;
        }
      }
    });
    Ok(rx)
  }
  async fn on_log(&self, _: WorkflowLog) -> HookNoopResult {
    self.out.lock().unwrap().0 += 1;
    Ok(())
  }
}
/// a step that never stops writing is signalled like any other
async fn flood(h: &mut H) {
  for k in 0..4 {
    let me = Flood::default();
    let astro = AstroRun::builder().runner(me.clone()).build();
    let timeout = if k < 2 { 40 } else { 600_000 };
    let step = Step { id: StepId::new("w", "j", 0), run: "x".into(), timeout: Duration::from_millis(timeout), ..Default::default() };
    let job = Job { id: JobId::new("w", "j"), name: None, on: None, steps: vec![step], depends_on: vec![], working_directories: vec![] };
    let ctx = astro.execution_context().build();
    let c2 = ctx.clone();
    if k >= 2 {
      tokio::spawn(async move {
        tokio::time::sleep(Duration::from_millis(40)).await;
        c2.cancel_job(&JobId::new("w", "j")).ok();
      });
    }
    tokio::spawn(async move { job.run(ctx).await }).await.ok();
    let (lines, kind) = *me.out.lock().unwrap();
    let want = if k < 2 { "timeout" } else { "cancel" };
    h.check(kind == want, || format!("a step that writes all the time (timeout {} ms{}) was not given the {} signal within 6 s, while {} of its lines were delivered", timeout, if k < 2 { "" } else { ", job cancelled after 40 ms" }, want, lines));
    h.count("floods");
  }
}
/// a job that was cancelled and given up by its caller, and is then run again, is not cancelled
async fn given_up(h: &mut H) {
  struct R(Arc<Mutex<Vec<bool>>>);
  #[async_trait]
  impl Runner for R {
    async fn run(&self, c: Context) -> RunResponse {
      let (tx, rx) = stream();
      if c.command.run == "forever" {
        std::mem::forget(tx);
      } else {
        self.0.lock().unwrap().push(c.signal.is_cancelled() || c.signal.is_timeout());
        tokio::spawn(async move {
          tokio::time::sleep(Duration::from_millis(15)).await;
          if c.signal.is_cancelled() || c.signal.is_timeout() { tx.cancelled() } else { tx.succeeded() }
        });
      }
      Ok(rx)
    }
  }
  for k in 0..6 {
    let seen = Arc::new(Mutex::new(vec![]));
    let astro = AstroRun::builder().runner(R(seen.clone())).build();
    let step = |i: usize, run: &str| Step { id: StepId::new("w", "j", i), run: run.into(), timeout: Duration::from_secs(600), ..Default::default() };
    let job = |steps| Job { id: JobId::new("w", "j"), name: None, on: None, steps, depends_on: vec![], working_directories: vec![] };
    let ctx = astro.execution_context().build();
    let (first, c2) = (job(vec![step(0, "forever")]), ctx.clone());
    let t = tokio::spawn(async move { first.run(c2).await });
    tokio::time::sleep(Duration::from_millis(20)).await;
    if k % 2 == 0 {
      ctx.cancel_job(&JobId::new("w", "j")).ok();
      tokio::time::sleep(Duration::from_millis(10)).await;
    }
    t.abort();
    t.await.ok();
    let r = job((0..3).map(|i| step(i, "x")).collect()).run(ctx.clone()).await;
    let seen = seen.lock().unwrap().clone();
    h.check(r.state == WorkflowState::Succeeded && seen == vec![false; 3], || format!("a run of a job was {}given up by its caller; when the job is run again without any cancel, its steps were signalled at their start: {:?}, and it ended {:?}", if k % 2 == 0 { "cancelled and " } else { "" }, seen, r.state));
    h.count("run_again");
  }
}

fn main() {
  let mut h = H::start();
  let clock = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  clock.block_on(async {
    if tokio::time::timeout(Duration::from_secs(40_000_000_000), exact(&mut h)).await.is_err() {
      h.fail("a step with a timeout was never signalled".to_string());
    }
  });
  drop(clock);
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
  let total = h.n(640, 8000);
  let h = rt.block_on(async {
    flood(&mut h).await;
    given_up(&mut h).await;
    let mut n = 0;
    while n < total && !h.failed() {
      let cases: Vec<_> = (0..32).map(|k| case(&mut h, n + k)).collect();
      n += 32;
      let hh = Arc::new(h);
      let ts: Vec<_> = cases.into_iter().map(|c| { let h = hh.clone(); tokio::spawn(async move { one(&h, c.0, c.1, c.2).await }) }).collect();
      for t in ts {
        t.await.ok();
      }
      h = match Arc::try_unwrap(hh) {
        Ok(h) => h,
        Err(_) => panic!("the harness is still in use"),
      };
    }
    h
  });
  h.done()
}

async fn one(h: &H, jobs: Vec<Vec<S>>, sig: &str, cancel: Option<(u64, usize)>) {
  let book = Book::default();
  let steps = Arc::new(Mutex::new(jobs.clone()));
  let ctx_slot = Arc::new(Mutex::new(None));
  let lines = Log2::default();
  let runner = Follow { spy: SpyRunner::new("r", &book), steps: steps.clone(), ctx: ctx_slot.clone(), lines: lines.clone() };
  let astro = AstroRun::builder().runner(runner).plugin(Change(steps)).plugin(Spy::new("p", &book)).build();
  let ctx = astro.execution_context().build();
  *ctx_slot.lock().unwrap() = Some(ctx.clone());
  let mut js_ = std::collections::HashMap::new();
  for (j, l) in jobs.iter().enumerate() {
    let key = format!("j{}", j);
    let steps = l.iter().enumerate().map(|(i, s)| Step { id: StepId::new("w", key.as_str(), i), run: format!("run {} {}", j, i), continue_on_error: true, timeout: Duration::from_millis(s.timeout), ..Default::default() }).collect();
    js_.insert(key.clone(), Job { id: JobId::new("w", key.as_str()), name: None, on: None, steps, depends_on: vec![], working_directories: vec![] });
  }
  let wf = Workflow { id: WorkflowId::new("w"), name: None, on: None, jobs: js_ };
  let what = || format!("jobs {:?}, external cancel {:?}", jobs, cancel);
  let run = tokio::spawn({ let ctx = ctx.clone(); async move { wf.run(ctx).await } });
  if let Some((ms, j)) = cancel {
    // not before the step began to run
    for _ in 0..1000 {
      if book.of("r").iter().any(|c| c.hook == "run") { break; }
      tokio::time::sleep(Duration::from_millis(2)).await;
    }
    tokio::time::sleep(Duration::from_millis(ms)).await;
    h.check(ctx.cancel_job(&JobId::new("w", format!("j{}", j))).is_ok(), || format!("{}: cancelling the running job failed", what()));
  }
  let res = match tokio::time::timeout(Duration::from_secs(60), run).await {
    Ok(Ok(r)) => r,
    Ok(Err(e)) => return h.fail(format!("{}: running panicked: {}", what(), e)),
    Err(_) => return h.fail(format!("{}: did not end within 60 s", what())),
  };
  *ctx_slot.lock().unwrap() = None;
  h.count("workflows");
  let written = lines.0.lock().unwrap().clone();
  for (j, l) in jobs.iter().enumerate() {
    let jr = match res.jobs.get(&format!("j{}", j)) {
      Some(r) => r,
      None => return h.fail(format!("{}: no result of job j{}", what(), j)),
    };
    let mut dead = false;
    for (i, s) in l.iter().enumerate() {
      let id = StepId::new("w", format!("j{}", j), i).to_string();
      let mine: Vec<_> = written.iter().filter(|w| w.0 == id && (w.1 == "log" || w.1 == "error")).map(|w| (w.1.clone(), w.2.clone())).collect();
      let r = &jr.steps[i];
      if dead {
        continue;
      }
      let (state, code) = match s.out {
        0 => ("succeeded", None),
        1000 => ("cancelled", None),
        2000 => ("failed", Some(1)),
        c => ("failed", Some(c)),
      };
      dead = s.out == 1000;
      h.count("steps");
      h.check(state_name(&r.state) == state && r.exit_code == code && r.id.to_string() == id, || format!("{}: step {} ended as {:?}, its runner reported {} {:?}", what(), id, js(r), state, code));
      h.check(r.started_at.is_some() && r.completed_at.is_some() && r.started_at <= r.completed_at, || format!("{}: step {} has times {:?} {:?}", what(), id, r.started_at, r.completed_at));
      for who in ["p", "r"] {
        let mut calls: Vec<Call> = book.of(who).into_iter().filter(|c| c.id == id && c.hook != "before" && c.hook != "run").collect();
        if who == "r" && !calls.iter().any(|c| c.hook == "step") {
          h.fail(format!("{}: the runner did not see step {} start", what(), id));
        }
        let logs: Vec<(String, String)> = calls.iter().filter(|c| c.hook == "log").map(|c| (c.arg["log_type"].as_str().unwrap_or("").to_string(), c.arg["message"].as_str().unwrap_or("").to_string())).collect();
        h.check(logs == mine, || {
          let k = logs.iter().zip(mine.iter()).take_while(|(a, b)| a == b).count();
          format!("{}: step {}: {} got {} lines of {}; first difference at line {}: got {:?}, written {:?}", what(), id, who, logs.len(), mine.len(), k, logs.get(k), mine.get(k))
        });
        let done = calls.iter().position(|c| c.hook == "step_done");
        if let Some(d) = done {
          h.check(calls[d].arg == js(r), || format!("{}: step {}: completion event {} but result {}", what(), id, calls[d].arg, js(r)));
        }
        let n_logs = calls.iter().filter(|c| c.hook == "log").count();
        let pos = calls.iter().position(|c| c.hook == "log");
        if n_logs > 0 {
          let p = pos.unwrap();
          let whole = calls.iter().skip(p).take(n_logs).all(|c| c.hook == "log");
          h.check(whole, || format!("{}: step {}: {} saw another event between the lines", what(), id, who));
          calls.retain(|c| c.hook != "log");
          calls.insert(p.min(calls.len()), Call { who: who.into(), hook: "log", id: id.clone(), arg: serde_json::Value::Null });
        }
        let seen: Vec<String> = calls.iter().map(|c| format!("{}{}", c.hook, if c.state().is_empty() { "".into() } else { format!("={}", c.state()) })).collect();
        let mut exp = vec!["step".to_string(), "state=queued".into()];
        if s.out != 2000 {
          exp.push("state=in_progress".into());
        }
        if n_logs > 0 {
          exp.push("log".into());
        }
        exp.push(format!("state={}", state));
        exp.push(format!("step_done={}", state));
        h.check(seen == exp, || format!("{}: step {}: {} saw {:?}, expected {:?}", what(), id, who, seen, exp));
      }
      // its job was cancelled by a step before it
      if sig == "cancel" && cancel.is_none() && i > 0 {
        let told = written.iter().any(|w| w.0 == id && w.1 == "cancelled at start" && w.2 == "true");
        h.check(told, || format!("{}: step {} was run without being told that its job had been cancelled", what(), id));
      }
      // the signal
      for w in written.iter().filter(|w| w.0 == id && w.1 == "signal") {
        h.count("nontrivial");
        let want = match (sig, j) { ("mixed", 1) => "cancel", ("mixed", _) => "timeout", (s, _) => s };
        h.check(w.2 == want, || format!("{}: step {} was signalled {}, expected {}", what(), id, w.2, want));
        h.check(w.2 != "timeout" || !w.3, || format!("{}: step {} was timed out before its timeout had passed", what(), id));
      }
    }
  }
  h.sample(format!("{:?}: signal {:?}, {} events", jobs.iter().map(|l| l.len()).collect::<Vec<_>>(), sig, book.all().len()));
}
