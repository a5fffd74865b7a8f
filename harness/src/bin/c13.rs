//! C13: the real server, driven over the loopback network by a plain gRPC client.
use astro_run::*;
use astro_run_protocol::remote_runner::RemoteRunnerClient;
use astro_run_protocol::{Empty, ProtocolEvent, RunResponse, SignalEvent};
use astro_run_remote_runner::AstroRunRemoteRunnerServer;
use harness::fake::*;
use harness::rec::*;
use harness::{Rng, H};
use serde_json::{json, Value};
use std::sync::Arc;
use std::time::Duration;
use tokio_stream::StreamExt;
use tonic::transport::Channel;

struct Srv {
  book: Book,
  client: RemoteRunnerClient<Channel>,
  rt: Option<tokio::runtime::Runtime>,
  plugins: usize,
}
/// hooks fail as the seed says
fn fails(seed: usize) -> Option<Fails> {
  match seed % 3 {
    0 => None,
    1 => Some(Arc::new(|_| true)),
    _ => Some(Arc::new(move |h: &'static str| (h.len() + seed) % 2 == 0)),
  }
}
async fn up(rng: &mut Rng, plugins: usize, plugin_fails: usize, runner_fails: usize, meta: (i32, bool, bool)) -> Option<Srv> {
  let book = Book::default();
  let id = "the-runner";
  for _ in 0..4 {
    let mut r = SpyRunner::new("runner", &book);
    r.fails = fails(runner_fails);
    r.append = Some("+runner".into());
    let mut b = AstroRunRemoteRunnerServer::builder().id(id).runner(r).max_runs(meta.0).support_docker(meta.1).support_host(meta.2);
    for i in 0..plugins {
      let mut s = Spy::new(&format!("p{}", i), &book);
      s.fails = fails(plugin_fails + i);
      s.append = Some(format!("+p{}", i));
      b = b.plugin(s);
    }
    let srv = b.build().ok()?;
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().ok()?;
    let p = free_port();
    rt.spawn(async move {
      srv.serve(&format!("127.0.0.1:{}", p)).await.ok();
    });
    for _ in 0..200 {
      if port_open(p) {
        break;
      }
      tokio::time::sleep(Duration::from_millis(5)).await;
    }
    if let Ok(client) = RemoteRunnerClient::connect(format!("http://127.0.0.1:{}", p)).await {
      return Some(Srv { book, client, rt: Some(rt), plugins });
    }
    rt.shutdown_background();
    rng.next();
  }
  None
}
impl Srv {
  fn down(mut self) {
    if let Some(r) = self.rt.take() {
      r.shutdown_background();
    }
  }
  async fn send(&self, e: ProtocolEvent) -> bool {
    self.client.clone().send_event(e).await.is_ok()
  }
}
async fn collect(mut s: tonic::Streaming<RunResponse>) -> Result<Vec<Value>> {
  let mut v = vec![];
  let r = tokio::time::timeout(Duration::from_secs(8), async {
    while let Some(m) = s.next().await {
      match m {
        Ok(m) => v.push(js(&m)),
        Err(e) => v.push(json!({"error": e.to_string()})),
      }
    }
  })
  .await;
  if r.is_err() {
    v.push(json!("the answer did not end within 8 s"));
  }
  Ok(v)
}
/// the messages a client must get for a script
fn expect(id: &StepId, s: &str) -> Vec<Value> {
  let mut v = vec![];
  for p in s.split(';') {
    let (k, rest) = p.split_at(if p.is_empty() { 0 } else { 1 });
    let res = |r: RunResult| js(&RunResponse::Result { step_id: id.clone(), result: r });
    match k {
      "r" => return vec![],
      "l" => v.push(js(&RunResponse::Log { step_id: id.clone(), log: Log::log(rest) })),
      "e" => v.push(js(&RunResponse::Log { step_id: id.clone(), log: Log::error(rest) })),
      "o" => { v.push(res(RunResult::Succeeded)); return v }
      "f" => { v.push(res(RunResult::Failed { exit_code: rest.parse().unwrap() })); return v }
      "c" => { v.push(res(RunResult::Cancelled)); return v }
      _ => {}
    }
  }
  v
}
fn script(rng: &mut Rng, wait: &str) -> String {
  let mut v: Vec<String> = vec![];
  let n = if rng.chance(1, 6) { 40 + rng.below(60) } else { rng.below(6) };
  let at = rng.below(n + 1);
  for i in 0..n {
    if i == at && !wait.is_empty() {
      v.push(wait.into());
    }
    v.push(match rng.below(7) {
      0 => format!("d{}", rng.below(4)),
      1..=3 => format!("l{}", text(rng).replace(';', ",")),
      _ => format!("e{}", text(rng).replace(';', ",")),
    });
  }
  if at == n && !wait.is_empty() {
    v.push(wait.into());
  }
  v.push(match rng.below(6) {
    0 => "c".into(),
    1 => "f0".into(),
    2 => format!("f{}", rng.below(300)),
    3 if wait.is_empty() => "r".into(),
    _ => "ok".into(),
  });
  v.join(";")
}

async fn runs(h: &H, rng: &mut Rng) {
  let (np, pf, rf) = (rng.below(3), rng.below(6), rng.below(6));
  let Some(s) = up(rng, np, pf, rf, (3, true, true)).await else { h.count("not_up"); return };
  let mut tasks = vec![];
  let mut ids = vec![];
  for i in 0..10 {
    // 0 no signal, 1 a signal while it waits, 2 a signal after it was completed, 3 other steps are signalled
    let kind = rng.below(4);
    let prog = match kind {
      1 => script(rng, "w4000"),
      2 => loop {
        let p = script(rng, "");
        if !p.split(';').any(|x| x == "r") {
          break format!("{};w250", p);
        }
      },
      3 => script(rng, "w200"),
      _ => script(rng, ""),
    };
    let mut c = context(StepId::new(format!("w{}", i % 2), format!("j{}", i / 4), i), &prog);
    c.command.environments = step(rng).environments;
    c.payload = if rng.chance(1, 2) { Some(text(rng)) } else { None };
    ids.push(c.id.clone());
    let cancel = rng.chance(1, 2);
    let mut cl = s.client.clone();
    let book = s.book.clone();
    let delay = rng.below(40) as u64;
    // other steps were completed, here or on another runner
    let done: Vec<StepId> = (0..rng.below(4)).map(|_| {
      let (w, j) = (c.id.workflow_id().inner(), c.id.job_key());
      match rng.below(4) { 0 | 1 => StepId::new(w, j, i + 100), 2 => StepId::new(w, "j99", i), _ => StepId::new("w99", j, i) }
    }).collect();
    let job = async move {
      let id = c.id.clone();
      let r = match cl.run(c.clone()).await {
        Ok(r) => r.into_inner(),
        Err(e) => return (kind, cancel, prog, c, vec![json!({"refused": e.to_string()})]),
      };
      let sig = move |id: StepId| ProtocolEvent::Signal(SignalEvent { step_id: id, signal: if cancel { Signal::Cancel } else { Signal::Timeout } });
      let mut cl2 = cl.clone();
      if kind == 1 {
        let id = id.clone();
        tokio::spawn(async move {
          tokio::time::sleep(Duration::from_millis(delay)).await;
          for id in done {
            cl2.send_event(ProtocolEvent::StepCompleted(StepRunResult { id, state: WorkflowState::Succeeded, exit_code: None, started_at: None, completed_at: None })).await.ok();
          }
          cl2.send_event(sig(id)).await.ok();
        });
      }
      let msgs = collect(r).await.unwrap_or_default();
      if kind == 2 {
        cl.send_event(ProtocolEvent::StepCompleted(StepRunResult { id: id.clone(), state: WorkflowState::Succeeded, exit_code: None, started_at: None, completed_at: None })).await.ok();
        cl.send_event(sig(id.clone())).await.ok();
      }
      // until the runner is through with it
      for _ in 0..200 {
        if prog.split(';').any(|p| p == "r") || book.of("runner").iter().any(|x| x.hook == "end" && x.id == id.to_string()) {
          break;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
      }
      (kind, cancel, prog, c, msgs)
    };
    tasks.push(tokio::spawn(job));
  }
  // signals for steps that do not exist, and for ids that look alike
  for i in 0..6 {
    let id = match i % 3 {
      0 => StepId::new("w9", "j1", 1),
      1 => StepId::new("w0", "j0", 77),
      _ => StepId::new(ids[rng.below(ids.len())].job_id().to_string(), "x", i),
    };
    h.check(s.send(ProtocolEvent::Signal(SignalEvent { step_id: id.clone(), signal: Signal::Cancel })).await, || format!("a signal for the unknown step {} was answered with an error", id.to_string()));
  }
  for t in tasks {
    let (kind, cancel, prog, c, msgs) = match t.await {
      Ok(x) => x,
      Err(e) => { h.fail(format!("running a step panicked: {}", e)); continue }
    };
    let want = expect(&c.id, &prog);
    h.check(msgs == want, || format!("step {} with the script `{}`: the client must get {} but got {}", c.id.to_string(), prog, Value::Array(want.clone()), Value::Array(msgs.clone())));
    let mine: Vec<_> = s.book.of("runner").into_iter().filter(|x| x.id == c.id.to_string()).collect();
    let got: Vec<Value> = mine.iter().filter(|x| x.hook == "run").map(|x| x.arg.clone()).collect();
    let mut given = js(&c.command);
    given["_event"] = js(&c.event);
    given["_payload"] = js(&c.payload);
    h.check(got == vec![given], || format!("the runner was given {:?} for {}", got, js(&c)));
    if prog.split(';').any(|p| p.starts_with('w')) {
      let sig: Vec<Value> = mine.iter().filter(|x| x.hook == "signal").map(|x| x.arg.clone()).collect();
      let want = if kind == 1 { vec![Value::String(cancel.to_string())] } else { vec![] };
      let why = match kind { 1 => "was signalled while it ran", 2 => "was signalled after it was completed", _ => "was not signalled (other steps were)" };
      h.check(sig == want, || format!("step {} {}: signals (is cancel?) seen by the runner {:?}, expected {:?}; script `{}`", c.id.to_string(), why, sig, want, prog));
      h.count("signals");
    }
    h.count("steps");
  }
  h.count("nontrivial");
  s.down();
}

/// a step that is run again under the same id, whether its first run was reported as completed or not
async fn again(h: &H, rng: &mut Rng) {
  let Some(s) = up(rng, 0, 0, 0, (3, true, true)).await else { h.count("not_up"); return };
  for i in 0..3 {
    let id = StepId::new("w0", format!("j{}", i), i);
    let mut cl = s.client.clone();
    if let Ok(r) = cl.run(context(id.clone(), "la;ok")).await {
      collect(r.into_inner()).await.ok();
    }
    let reported = rng.chance(1, 3);
    if reported {
      s.send(ProtocolEvent::StepCompleted(StepRunResult { id: id.clone(), state: WorkflowState::Succeeded, exit_code: None, started_at: None, completed_at: None })).await;
    }
    let cancel = rng.chance(1, 2);
    let signal = if cancel { Signal::Cancel } else { Signal::Timeout };
    match cl.run(context(id.clone(), "lb;w4000;ok")).await {
      Ok(r) => {
        s.send(ProtocolEvent::Signal(SignalEvent { step_id: id.clone(), signal })).await;
        collect(r.into_inner()).await.ok();
      }
      Err(e) => h.fail(format!("the second run of step {} was refused: {}", id.to_string(), e)),
    }
    let sig: Vec<Value> = s.book.of("runner").into_iter().filter(|x| x.id == id.to_string() && x.hook == "signal").map(|x| x.arg).collect();
    h.check(sig == vec![Value::String(cancel.to_string())], || format!("step {} was run twice (the first run reported as completed: {}) and signalled in its second run: signals (is cancel?) seen by the runner {:?}", id.to_string(), reported, sig));
    h.count("second_runs");
  }
  s.down();
}

async fn events(h: &H, rng: &mut Rng) {
  let (np, pf, rf) = (rng.below(4), rng.below(6), rng.below(6));
  let Some(s) = up(rng, np, pf, rf, (3, true, true)).await else { h.count("not_up"); return };
  let mut want = vec![];
  for _ in 0..60 {
    let e = event(rng);
    let (k, v) = event_of(&e);
    want.push((k, v));
    h.check(s.send(e).await, || format!("the event {:?} was answered with an error", want.last()));
  }
  for i in 0..=s.plugins {
    let who = if i == s.plugins { "runner".to_string() } else { format!("p{}", i) };
    let got: Vec<(&str, Value)> = s.book.of(&who).into_iter().map(|c| (c.hook, c.arg)).collect();
    let d = got.iter().zip(want.iter()).position(|(a, b)| a != b);
    h.check(got == want, || format!("{} plugins, 60 events (hooks of the plugins fail: pattern {}, of the runner: {}): {} got {}; first difference at {:?}: sent {:?} got {:?}", s.plugins, pf, rf, who, got.len(), d, d.map(|i| &want[i]), d.map(|i| &got[i])));
    h.count("event_sequences");
  }
  s.down();
}

async fn hook_and_meta(h: &H, rng: &mut Rng) {
  let (np, pf, rf) = (rng.below(4), rng.below(6), rng.below(6));
  let meta = (rng.below(9) as i32 - 1, rng.chance(1, 2), rng.chance(1, 2));
  let Some(s) = up(rng, np, pf, rf, meta).await else { h.count("not_up"); return };
  match s.client.clone().get_runner_metadata(Empty {}).await {
    Ok(m) => {
      let m = m.into_inner();
      h.check((m.max_runs, m.support_docker, m.support_host) == meta && m.id == "the-runner" && m.os == std::env::consts::OS && m.arch == std::env::consts::ARCH && m.version == astro_version(), || format!("server built with {:?}: metadata {}", meta, js(&m)));
    }
    Err(e) => h.fail(format!("metadata: {}", e)),
  }
  for _ in 0..3 {
    s.book.clear();
    let st = step(rng);
    let cmd: Command = st.clone().into();
    let r = s.client.clone().call_before_run_step_hook(cmd).await;
    // plugins in order (a failing one changes nothing), then the runner
    let mut cur = st.clone();
    let mut want = vec![];
    for i in 0..np {
      want.push((format!("p{}", i), js(&cur)));
      if !fails(pf + i).map(|f| f("before")).unwrap_or(false) {
        edit(&mut cur, &format!("+p{}", i));
      }
    }
    want.push(("runner".to_string(), js(&cur)));
    let bad = fails(rf).map(|f| f("before")).unwrap_or(false);
    edit(&mut cur, "+runner");
    let got: Vec<(String, Value)> = s.book.all().into_iter().map(|c| (c.who, c.arg)).collect();
    h.check(got == want, || format!("hook request for {}: calls {:?}, expected {:?}", js(&st), got, want));
    match r {
      Ok(c) => {
        let c = c.into_inner();
        let want: Command = cur.clone().into();
        h.check(!bad && js(&c) == js(&want), || format!("hook request for {} (runner fails: {}): answer {}, expected {}", js(&st), bad, js(&c), js(&want)));
      }
      Err(e) => {
        h.check(bad, || format!("hook request for {}: error {} although the runner's hook succeeds", js(&st), e));
      }
    }
    h.count("hooks");
  }
  s.down();
}

#[tokio::main(flavor = "multi_thread", worker_threads = 4)]
async fn main() {
  let h = Arc::new(H::start());
  let seed = h.rng.0;
  let rounds = h.n(20, 100);
  let mut set = tokio::task::JoinSet::new();
  for r in 0..rounds {
    let h2 = h.clone();
    let mut rng = Rng(seed ^ (r as u64 * 0x51ed));
    set.spawn(async move {
      let h = h2;
      runs(&h, &mut rng).await;
      events(&h, &mut rng).await;
      hook_and_meta(&h, &mut rng).await;
      again(&h, &mut rng).await;
    });
    while set.len() > 2 {
      if let Some(Err(e)) = set.join_next().await {
        if e.is_panic() {
          h.fail(format!("a scenario panicked: {}", e));
        }
      }
    }
  }
  while let Some(x) = set.join_next().await {
    if let Err(e) = x {
      if e.is_panic() {
        h.fail(format!("a scenario panicked: {}", e));
      }
    }
  }
  h.sample("10 concurrent steps with random scripts and signals (own, other, unknown and completed steps); 60 random events to 0-3 plugins and the runner with failing hooks");
  h.done()
}
