//! C12: the real client against scripted remote runners over the loopback network.
use astro_run::*;
use astro_run_protocol::ProtocolEvent;
use astro_run_remote_runner::{AstroRunRemoteRunnerClient, RunnerMetadata, Scheduler};
use harness::fake::*;
use harness::rec::js;
use harness::{Rng, H};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// offers the step to the runner named by its step number; records what it is told
#[derive(Clone, Default)]
struct Pick {
  told: Arc<Mutex<Vec<Value>>>,
  offered: Arc<Mutex<Vec<Vec<String>>>>,
  late: bool,
}
impl Pick {
  fn say(&self, k: &str, v: Value) {
    self.told.lock().unwrap().push(json!([k, v]));
  }
}
#[async_trait]
impl Scheduler for Pick {
  fn on_run_workflow(&self, x: Workflow) { self.say("workflow", js(&x)) }
  fn on_run_job(&self, x: Job) { self.say("job", js(&x)) }
  fn on_run_step(&self, x: Step) { self.say("step", js(&x)) }
  fn on_step_completed(&self, x: StepRunResult) { self.say("step_done", js(&x)) }
  fn on_job_completed(&self, x: JobRunResult) { self.say("job_done", js(&x)) }
  fn on_workflow_completed(&self, x: WorkflowRunResult) { self.say("workflow_done", js(&x)) }
  async fn schedule<'a, 'b: 'a>(&'b self, rs: &'a [RunnerMetadata], c: &Context) -> Option<&'a RunnerMetadata> {
    let mut ids: Vec<String> = rs.iter().map(|r| r.id.clone()).collect();
    ids.sort();
    self.offered.lock().unwrap().push(ids.clone());
    if self.late {
      tokio::time::sleep(Duration::from_millis(15)).await;
    }
    let want = ids.get(c.id.step_number())?;
    rs.iter().find(|r| r.id == *want)
  }
}
struct Net {
  client: AstroRunRemoteRunnerClient,
  sched: Pick,
  fakes: Vec<Fake>,
  ports: Vec<u16>,
  rts: Vec<Option<tokio::runtime::Runtime>>,
  start: tokio::task::JoinHandle<()>,
}
/// each fake runs on a runtime of its own, so that it can be stopped as a whole
async fn up(f: &Fake) -> Option<(u16, tokio::runtime::Runtime)> {
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().ok()?;
  let f = f.clone();
  let p = rt.spawn(async move { serve(&f).await.map(|x| x.0) }).await.ok()??;
  Some((p, rt))
}
async fn net(fakes: Vec<Fake>, extra: Vec<String>, sched: Pick) -> Option<Net> {
  let mut ports = vec![];
  let mut rts = vec![];
  for f in &fakes {
    let (p, rt) = up(f).await?;
    ports.push(p);
    rts.push(Some(rt));
  }
  let client = AstroRunRemoteRunnerClient::builder().scheduler(sched.clone()).build().ok()?;
  let mut c2 = client.clone();
  let mut urls: Vec<String> = ports.iter().map(|p| format!("http://127.0.0.1:{}", p)).collect();
  urls.extend(extra);
  let start = tokio::spawn(async move {
    c2.start(urls).await.ok();
  });
  for _ in 0..600 {
    if fakes.iter().all(|f| !f.of("meta").is_empty()) {
      break;
    }
    tokio::time::sleep(Duration::from_millis(5)).await;
  }
  tokio::time::sleep(Duration::from_millis(60)).await;
  Some(Net { client, sched, fakes, ports, rts, start })
}
impl Net {
  fn down(mut self) {
    self.start.abort();
    for r in self.rts.iter_mut() {
      if let Some(r) = r.take() {
        r.shutdown_background();
      }
    }
  }
}
fn fakes(n: usize) -> Vec<Fake> {
  // what a runner can run is the concern of the scheduler only
  (0..n).map(|i| Fake { can: [(true, true, 9), (false, false, 0), (true, false, 1), (false, true, -1)][i % 4], ..Fake::new(&format!("r{}", i)) }).collect()
}
/// what the caller must see of a script: the lines, and the result if the script has one
fn expect(s: &str) -> (Vec<(bool, String)>, Option<RunResult>) {
  let mut l = vec![];
  for p in s.split(';') {
    if p == "B" {
      return (vec![], None);
    }
    let (k, rest) = p.split_at(if p.is_empty() { 0 } else { 1 });
    match k {
      "l" => l.push((false, rest.to_string())),
      "e" => l.push((true, rest.to_string())),
      "o" => return (l, Some(RunResult::Succeeded)),
      "f" => return (l, Some(RunResult::Failed { exit_code: rest.parse().unwrap() })),
      "c" => return (l, Some(RunResult::Cancelled)),
      "X" => return (l, None),
      _ => {}
    }
  }
  (l, None)
}
fn script(rng: &mut Rng, wait: bool) -> String {
  let mut v: Vec<String> = vec![];
  let n = if rng.chance(1, 8) { 40 } else { rng.below(6) };
  let at = rng.below(n + 1);
  for i in 0..n {
    if i == at && wait {
      v.push("w".into());
    }
    match rng.below(5) {
      0 => v.push(format!("d{}", rng.below(6))),
      1 | 2 => v.push(format!("l{}", text(rng).replace(';', ","))),
      _ => v.push(format!("e{}", text(rng).replace(';', ","))),
    }
  }
  if n == 0 && wait || wait && at == n {
    v.push("w".into());
  }
  match rng.below(8) {
    0 => {}
    1 => v.push("X".into()),
    2 if !wait => v.push("B".into()),
    3 => v.push("c".into()),
    4 => v.push("f0".into()),
    5 => v.push(format!("f{}", rng.below(300))),
    _ => v.push("ok".into()),
  }
  v.join(";")
}
fn failed() -> Option<RunResult> {
  Some(RunResult::Failed { exit_code: 1 })
}
fn judge(h: &H, what: &str, script: &str, got: &(Vec<(bool, String)>, Option<RunResult>)) {
  let (l, r) = expect(script);
  let ok = match r {
    Some(r) => got.0 == l && got.1 == Some(r),
    None => got.0.len() == l.len() + 1 && got.0[..l.len()] == l[..] && got.0[l.len()].0 && got.1 == failed(),
  };
  if !ok {
    h.fail(format!("{}: the remote runner did `{}`; the caller saw lines (error?, text) {:?} and result {:?}", what, script, got.0, got.1));
  }
  h.count("steps");
}

async fn relay(h: &H, rng: &mut Rng) {
  let n = 1 + rng.below(3);
  let Some(w) = net(fakes(n), vec![], Pick { late: rng.chance(1, 2), ..Default::default() }).await else { h.count("not_up"); return };
  let mut tasks = vec![];
  for i in 0..12 {
    let to = rng.below(n + 1);
    let sig = rng.chance(1, 2) && to < n;
    let s = script(rng, sig);
    let c = context(StepId::new(format!("w{}", i), "j", to), &s);
    let (cl, signal, ctx) = (w.client.clone(), c.signal.clone(), c.clone());
    let early = rng.chance(1, 4);
    let cancel = rng.chance(1, 2);
    let wait = rng.below(30) as u64;
    tasks.push((s, to, sig, cancel, c, tokio::spawn(async move {
      if sig && early {
        if cancel { signal.cancel().ok(); } else { signal.timeout().ok(); }
      }
      let r = match Runner::run(&cl, ctx).await {
        Ok(mut rx) => {
          if sig && !early {
            tokio::spawn(async move {
              tokio::time::sleep(Duration::from_millis(wait)).await;
              if cancel { signal.cancel().ok(); } else { signal.timeout().ok(); }
            });
          }
          drain(&mut rx, Duration::from_secs(8)).await
        }
        Err(e) => (vec![(true, format!("run was refused: {}", e))], None),
      };
      r
    })));
  }
  for (s, to, sig, cancel, c, t) in tasks {
    let Ok(r) = t.await else { h.fail(format!("running a step panicked: script `{}`", s)); continue };
    if to == n {
      h.check(r.0.len() == 1 && r.0[0].0 && r.1 == failed(), || format!("no runner was chosen for {:?}: lines {:?} result {:?}", c.id, r.0, r.1));
      h.check(w.fakes.iter().all(|f| !f.of("run").iter().any(|v| v["id"] == js(&c.id))), || format!("no runner was chosen for {:?} but one got it", c.id));
      h.count("no_runner");
      continue;
    }
    judge(h, &format!("{} runners, step {:?} on r{}, signal {}", n, c.id, to, if sig { "sent" } else { "none" }), &s, &r);
    for (i, f) in w.fakes.iter().enumerate() {
      let runs: Vec<Value> = f.of("run").into_iter().filter(|v| v["id"] == js(&c.id)).collect();
      h.check(runs.len() == if i == to { 1 } else { 0 } && runs.iter().all(|v| *v == js(&c)), || format!("step {:?} was given to r{}, but r{} got run requests {:?}", c.id, to, i, runs));
      let sigs: Vec<Value> = f.of("event").into_iter().filter(|e| e[0] == "signal" && e[1]["step_id"] == js(&c.id)).collect();
      if i == to && sig {
        let want = json!({"step_id": js(&c.id), "signal": js(&if cancel { Signal::Cancel } else { Signal::Timeout })});
        h.check(sigs.len() == 1 && sigs[0][1] == want, || format!("step {:?} on r{} got {} (script `{}`), but r{} was sent {:?}", c.id, to, want, s, i, sigs));
        h.count("signals");
      } else {
        h.check(sigs.is_empty(), || format!("step {:?} on r{}: r{} was sent signals {:?}", c.id, to, i, sigs));
      }
    }
  }
  let want: Vec<String> = w.fakes.iter().map(|f| f.id.clone()).collect();
  let off = w.sched.offered.lock().unwrap().clone();
  h.check(off.len() == 12 && off.iter().all(|o| *o == want), || format!("connected runners {:?}; the scheduler was offered {:?}", want, off));
  h.count("nontrivial");
  w.down();
}

/// the server goes away before or while the step runs
async fn broken(h: &H, rng: &mut Rng) {
  let Some(mut w) = net(fakes(1), vec![], Pick::default()).await else { h.count("not_up"); return };
  let before = rng.chance(1, 3);
  let k = rng.below(5);
  let lines: Vec<String> = (0..k).map(|i| format!("l{}", i)).collect();
  let s = format!("{};d5000;ok", lines.join(";"));
  if before {
    if let Some(r) = w.rts[0].take() { r.shutdown_background(); }
    tokio::time::sleep(Duration::from_millis(30)).await;
  }
  let c = context(StepId::new("w", "j", 0), &s);
  match Runner::run(&w.client, c).await {
    Ok(mut rx) => {
      let rt = w.rts[0].take();
      tokio::spawn(async move {
        tokio::time::sleep(Duration::from_millis(150)).await;
        if let Some(r) = rt { r.shutdown_background(); }
      });
      let r = drain(&mut rx, Duration::from_secs(8)).await;
      let n = if before { 0 } else { k };
      let want: Vec<(bool, String)> = (0..n).map(|i| (false, i.to_string())).collect();
      h.check(r.0.len() == n + 1 && r.0[..n] == want[..] && r.0[n].0 && r.1 == failed(), || format!("the connection of the runner was lost {} (script `{}`): lines {:?} result {:?}", if before { "before the step" } else { "while the step ran" }, s, r.0, r.1));
    }
    Err(e) => h.fail(format!("the connection was lost: run failed with {} instead of a stream that ends", e)),
  }
  h.count("lost_connections");
  w.down();
}

/// the runner refuses the signal: the stream still ends
async fn bad_signal(h: &H) {
  let mut f = Fake::new("r0");
  f.bad_events = true;
  let Some(w) = net(vec![f], vec![], Pick::default()).await else { h.count("not_up"); return };
  let c = context(StepId::new("w", "j", 0), "la;d300");
  let sig = c.signal.clone();
  if let Ok(mut rx) = Runner::run(&w.client, c).await {
    tokio::time::sleep(Duration::from_millis(50)).await;
    sig.cancel().ok();
    let r = drain(&mut rx, Duration::from_secs(8)).await;
    h.check(r.1 == failed() && r.0.last().map(|l| l.0) == Some(true) && r.0.first() == Some(&(false, "a".to_string())), || format!("the runner refuses a signal and sends no result: lines {:?} result {:?}", r.0, r.1));
  } else {
    h.fail("run failed although a runner is connected");
  }
  h.count("refused_signals");
  w.down();
}

fn told(e: &ProtocolEvent) -> Option<Value> {
  let (k, v) = event_of(e);
  match k {
    "log" | "state" | "signal" => None,
    "step" | "job" | "workflow" => Some(json!([k, v["source"]])),
    _ => Some(json!([k, v])),
  }
}
async fn until(limit: u64, mut f: impl FnMut() -> bool) -> bool {
  for _ in 0..limit / 5 {
    if f() {
      return true;
    }
    tokio::time::sleep(Duration::from_millis(5)).await;
  }
  f()
}
/// events: all of them when the queue is not overflowed, and those after an overflow
async fn events(h: &H, rng: &mut Rng, burst: bool) {
  let n = 1 + rng.below(3);
  let mut fs = fakes(n);
  let bad = if n > 1 && rng.chance(1, 3) { Some(rng.below(n)) } else { None };
  if let Some(b) = bad {
    fs[b].bad_events = true;
  }
  let Some(w) = net(fs, vec![], Pick::default()).await else { h.count("not_up"); return };
  let mut want_told: Vec<Value> = vec![];
  let mut want: Vec<Value> = vec![];
  let mut hooks_ok = true;
  for round in 0..3 {
    let k = if burst && round == 1 { 45 + rng.below(60) } else { 1 + rng.below(25) };
    if burst && round == 1 {
      for f in &w.fakes {
        f.slow.store(4, std::sync::atomic::Ordering::SeqCst);
      }
    }
    for _ in 0..k {
      let e = event(rng);
      want_told.extend(told(&e));
      let (a, b) = event_of(&e);
      want.push(json!([a, b]));
      hooks_ok &= give(&w.client, e).await.is_ok();
    }
    if burst && round == 1 {
      // some were lost, but not the last ones; wait until the queue is empty
      let tail: Vec<Value> = want[want.len() - 4..].to_vec();
      until(8000, || w.fakes.iter().all(|f| f.events().ends_with(&tail))).await;
      let mut last = usize::MAX;
      for _ in 0..200 {
        tokio::time::sleep(Duration::from_millis(120)).await;
        let now: usize = w.fakes.iter().map(|f| f.events().len()).sum();
        if now == last {
          break;
        }
        last = now;
      }
      for f in &w.fakes {
        // the received ones are a subsequence of those that were given
        let got = f.events();
        let mut i = 0;
        for g in &got {
          while i < want.len() && want[i] != *g {
            i += 1;
          }
          i += 1;
        }
        h.check(got.ends_with(&tail), || format!("{} got {} events of a burst that overflowed the queue, and the last ones are not those that were sent last", f.id, got.len()));
        h.check(i <= want.len(), || format!("{} got events that were not sent, or in another order, or twice", f.id));
        f.slow.store(0, std::sync::atomic::Ordering::SeqCst);
        f.book.lock().unwrap().retain(|x| x.0 != "event");
      }
      want.clear();
      h.count("bursts");
    } else {
      until(4000, || w.fakes.iter().all(|f| f.events().len() >= want.len())).await;
      tokio::time::sleep(Duration::from_millis(10)).await;
      for f in &w.fakes {
        let got = f.events();
        let d = got.iter().zip(want.iter()).position(|(a, b)| a != b);
        h.check(got == want, || format!("{} runners ({} refuses events), {}, {} events were sent, {} received {}; first difference at {:?}: sent {} received {}", n, bad.map(|b| format!("r{}", b)).unwrap_or("none".into()), if burst && round == 2 { "after a burst that overflowed the queue" } else { "no overflow" }, want.len(), f.id, got.len(), d, d.map(|i| want[i].to_string()).unwrap_or_default(), d.map(|i| got[i].to_string()).unwrap_or_default()));
        h.count("event_sequences");
      }
    }
  }
  h.check(hooks_ok, || "a hook of the client returned an error".into());
  let got = w.sched.told.lock().unwrap().clone();
  let d = got.iter().zip(want_told.iter()).position(|(a, b)| a != b);
  h.check(got == want_told, || format!("the scheduler must be told {} events and was told {}; first difference {:?}: {} / {}", want_told.len(), got.len(), d, d.map(|i| want_told[i].to_string()).unwrap_or_default(), d.map(|i| got[i].to_string()).unwrap_or_default()));
  h.count("nontrivial");
  w.down();
}

async fn hooks(h: &H, rng: &mut Rng) {
  let n = rng.below(4);
  let mut fs = fakes(n);
  let bad = if n > 0 && rng.chance(1, 3) { Some(rng.below(n)) } else { None };
  if let Some(b) = bad {
    fs[b].bad_hook = true;
  }
  let Some(w) = net(fs, vec![], Pick::default()).await else { h.count("not_up"); return };
  for _ in 0..3 {
    for f in &w.fakes {
      f.book.lock().unwrap().retain(|x| x.0 != "hook");
    }
    let s = step(rng);
    match w.client.on_before_run_step(s.clone()).await {
      Err(e) => {
        h.check(bad.is_some(), || format!("no runner refuses the hook, but it failed: {}", e));
      }
      Ok(got) => {
        h.check(bad.is_none(), || "a runner refused the hook, but it succeeded".into());
        if bad.is_none() {
          // every runner was asked once, and got what the one before returned
          let mut run = s.run.clone();
          let mut seen = vec![];
          for _ in 0..n {
            let nx = w.fakes.iter().find(|f| !seen.contains(&f.id) && f.of("hook").len() == 1 && f.of("hook")[0]["run"] == Value::String(run.clone()));
            match nx {
              Some(f) => {
                run.push_str(&format!("+{}", f.id));
                seen.push(f.id.clone());
              }
              None => break,
            }
          }
          let mut want = s.clone();
          want.run = run;
          for f in &w.fakes {
            want.environments.insert(f.id.clone(), EnvironmentVariable::String("seen".into()));
          }
          h.check(seen.len() == n && js(&got) == js(&want), || format!("{} runners, step {}: hook requests {:?}, returned {}", n, js(&s), w.fakes.iter().map(|f| (f.id.clone(), f.of("hook"))).collect::<Vec<_>>(), js(&got)));
        }
      }
    }
    h.count("hooks");
  }
  w.down();
}

/// duplicate ids, another version and unreachable addresses do not disturb the others
async fn connect(h: &H, rng: &mut Rng) {
  let mut fs = vec![Fake::new("r0"), Fake::new("r0"), Fake::new("r1"), Fake::new("old"), Fake::new("r2")];
  fs[3].version = "0.0.1".into();
  // another order
  let k = rng.below(5);
  fs.rotate_left(k);
  let Some(w) = net(fs, vec![format!("http://127.0.0.1:{}", free_port()), "not a url".into()], Pick::default()).await else { h.count("not_up"); return };
  tokio::time::sleep(Duration::from_millis(150)).await;
  let want: Vec<String> = vec!["r0".into(), "r1".into(), "r2".into()];
  for i in 0..3 {
    let c = context(StepId::new("w", "j", i), "la;ok");
    if let Ok(mut rx) = Runner::run(&w.client, c).await {
      let r = drain(&mut rx, Duration::from_secs(8)).await;
      judge(h, "runners with equal ids, another version, unreachable", "la;ok", &r);
    }
  }
  let off = w.sched.offered.lock().unwrap().clone();
  h.check(off.iter().all(|o| *o == want), || format!("started with ids {:?} (`old` has another version): the scheduler was offered {:?}", w.fakes.iter().map(|f| f.id.clone()).collect::<Vec<_>>(), off));
  let runs: Vec<(String, usize)> = w.fakes.iter().map(|f| (f.id.clone(), f.of("run").len())).collect();
  let mut sum = std::collections::BTreeMap::new();
  for (id, k) in &runs {
    *sum.entry(id.clone()).or_insert(0) += k;
  }
  h.check(want.iter().all(|id| sum.get(id) == Some(&1)) && sum.get("old") == Some(&0), || format!("one step for each of r0, r1, r2: run requests {:?}", runs));
  h.count("connects");
  let _ = &w.ports;
  w.down();
}

#[tokio::main(flavor = "multi_thread", worker_threads = 4)]
async fn main() {
  let h = Arc::new(H::start());
  let seed = h.rng.0;
  let rounds = h.n(18, 90);
  let mut set = tokio::task::JoinSet::new();
  for r in 0..rounds {
    let h2 = h.clone();
    let mut rng = Rng(seed ^ (r as u64 * 0x51ed));
    set.spawn(async move {
      let h = h2;
      relay(&h, &mut rng).await;
      hooks(&h, &mut rng).await;
      events(&h, &mut rng, false).await;
      if r % 2 == 0 {
        broken(&h, &mut rng).await;
        events(&h, &mut rng, true).await;
      } else {
        broken(&h, &mut rng).await;
        bad_signal(&h).await;
        connect(&h, &mut rng).await;
      }
    });
    while set.len() > 2 {
      if let Some(Err(e)) = set.join_next().await {
        if e.is_panic() {
          h.fail(format!("a scenario panicked: {}", e));
        }
      }
    }
  }
  while let Some(x) = set.join_next().await {
    if let Err(e) = x {
      if e.is_panic() {
        h.fail(format!("a scenario panicked: {}", e));
      }
    }
  }
  h.sample("12 concurrent steps with random scripts on 1-3 scripted runners; 45-104 events in a burst; server stopped while a step runs");
  h.done()
}
