//! A scripted remote runner (a gRPC server), and generators of events.
use crate::rec::js;
use crate::Rng;
use astro_run::*;
use astro_run_protocol::remote_runner::{RemoteRunnerExt, RemoteRunnerServer};
use astro_run_protocol::{Empty, ProtocolEvent, RunResponse, RunnerMetadata};
use serde_json::Value;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio_stream::wrappers::ReceiverStream;
use tonic::{Request, Response, Status};
type Result<T, E> = std::result::Result<T, E>;

/// name of the event and what it carries
pub fn event_of(e: &ProtocolEvent) -> (&'static str, Value) {
  match e {
    ProtocolEvent::RunStep(x) => ("step", js(x)),
    ProtocolEvent::RunJob(x) => ("job", js(x)),
    ProtocolEvent::RunWorkflow(x) => ("workflow", js(x)),
    ProtocolEvent::StepCompleted(x) => ("step_done", js(x)),
    ProtocolEvent::JobCompleted(x) => ("job_done", js(x)),
    ProtocolEvent::WorkflowCompleted(x) => ("workflow_done", js(x)),
    ProtocolEvent::StepLog(x) => ("log", js(x)),
    ProtocolEvent::StateChange(x) => ("state", js(x)),
    ProtocolEvent::Signal(x) => ("signal", js(x)),
  }
}
/// The script is the text of the step, instructions separated by `;`: `l<text>` log, `e<text>` error
/// line, `ok` `f<code>` `c` result, `d<ms>` delay, `w` wait for a signal of this step, `X` broken
/// stream, `B` the request is refused; the stream ends after the last one.
#[derive(Clone)]
pub struct Fake {
  pub id: String,
  pub version: String,
  /// (what, value): run, event, hook, meta, nosignal
  pub book: Arc<Mutex<Vec<(String, Value)>>>,
  /// delay of every event that is not a signal
  pub slow: Arc<AtomicUsize>,
  /// answer hook requests with an error
  pub bad_hook: bool,
  /// answer events with an error
  pub bad_events: bool,
  pub os: String,
  /// (support_docker, support_host, max_runs)
  pub can: (bool, bool, i32),
}
impl Fake {
  pub fn new(id: &str) -> Fake {
    Fake { id: id.into(), version: astro_version(), book: Default::default(), slow: Default::default(), bad_hook: false, bad_events: false, os: "linux".into(), can: (true, true, 9) }
  }
  pub fn put(&self, k: &str, v: Value) {
    self.book.lock().unwrap().push((k.into(), v));
  }
  pub fn of(&self, k: &str) -> Vec<Value> {
    self.book.lock().unwrap().iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect()
  }
  pub fn has_signal(&self, step: &Value) -> bool {
    self.of("event").iter().any(|e| e[0] == "signal" && e[1]["step_id"] == *step)
  }
  /// events other than signals, in order
  pub fn events(&self) -> Vec<Value> {
    self.of("event").into_iter().filter(|e| e[0] != "signal").collect()
  }
  pub fn metadata(&self) -> RunnerMetadata {
    RunnerMetadata { id: self.id.clone(), os: self.os.clone(), arch: "x".into(), support_docker: self.can.0, support_host: self.can.1, version: self.version.clone(), max_runs: self.can.2 }
  }
}
pub fn astro_version() -> String {
  astro_run_remote_runner::VERSION.to_string()
}
#[tonic::async_trait]
impl RemoteRunnerExt for Fake {
  type RunStream = ReceiverStream<Result<RunResponse, Status>>;
  async fn get_runner_metadata(&self, _: Request<Empty>) -> Result<Response<RunnerMetadata>, Status> {
    self.put("meta", Value::Null);
    Ok(Response::new(self.metadata()))
  }
  async fn run(&self, r: Request<Context>) -> Result<Response<Self::RunStream>, Status> {
    let c = r.into_inner();
    self.put("run", js(&c));
    let prog: Vec<String> = c.command.run.split(';').map(|s| s.to_string()).collect();
    if prog.iter().any(|p| p == "B") {
      return Err(Status::unavailable("no"));
    }
    let (tx, rx) = tokio::sync::mpsc::channel(64);
    let me = self.clone();
    tokio::spawn(async move {
      let id = c.id.clone();
      for p in prog {
        let (k, rest) = p.split_at(if p.is_empty() { 0 } else { 1 });
        let m = match k {
          "l" => Ok(RunResponse::log(id.clone(), Log::log(rest))),
          "e" => Ok(RunResponse::log(id.clone(), Log::error(rest))),
          "o" => Ok(RunResponse::result(id.clone(), RunResult::Succeeded)),
          "f" => Ok(RunResponse::result(id.clone(), RunResult::Failed { exit_code: rest.parse().unwrap_or(1) })),
          "c" => Ok(RunResponse::result(id.clone(), RunResult::Cancelled)),
          "X" => Err(Status::internal("broken")),
          "d" => {
            tokio::time::sleep(Duration::from_millis(rest.parse().unwrap_or(0))).await;
            continue;
          }
          "w" => {
            let sid = js(&id);
            let mut seen = false;
            for _ in 0..400 {
              if me.has_signal(&sid) {
                seen = true;
                break;
              }
              tokio::time::sleep(Duration::from_millis(5)).await;
            }
            if !seen {
              me.put("nosignal", sid);
            }
            continue;
          }
          _ => continue,
        };
        let stop = m.is_err();
        if tx.send(m).await.is_err() || stop {
          return;
        }
      }
    });
    Ok(Response::new(ReceiverStream::new(rx)))
  }
  async fn send_event(&self, r: Request<ProtocolEvent>) -> Result<Response<Empty>, Status> {
    let (k, v) = event_of(r.get_ref());
    let t = self.slow.load(Ordering::SeqCst);
    if t > 0 && k != "signal" {
      tokio::time::sleep(Duration::from_millis(t as u64)).await;
    }
    self.put("event", serde_json::json!([k, v]));
    if self.bad_events {
      return Err(Status::internal("event refused"));
    }
    Ok(Response::new(Empty {}))
  }
  async fn call_before_run_step_hook(&self, r: Request<Command>) -> Result<Response<Command>, Status> {
    let mut c = r.into_inner();
    self.put("hook", js(&c));
    if self.bad_hook {
      return Err(Status::internal("hook refused"));
    }
    c.run.push_str(&format!("+{}", self.id));
    c.environments.insert(self.id.clone(), EnvironmentVariable::String("seen".into()));
    Ok(Response::new(c))
  }
}
pub fn free_port() -> u16 {
  std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}
pub fn port_open(p: u16) -> bool {
  std::net::TcpStream::connect(("127.0.0.1", p)).is_ok()
}
/// starts the server; None when it does not come up
pub async fn serve(f: &Fake) -> Option<(u16, tokio::task::JoinHandle<()>)> {
  for _ in 0..5 {
    let p = free_port();
    let f2 = f.clone();
    let h = tokio::spawn(async move {
      tonic::transport::Server::builder().add_service(RemoteRunnerServer::new(f2)).serve(([127, 0, 0, 1], p).into()).await.ok();
    });
    for _ in 0..100 {
      if port_open(p) {
        return Some((p, h));
      }
      tokio::time::sleep(Duration::from_millis(5)).await;
    }
    h.abort();
  }
  None
}

// ---- values ----
pub fn text(rng: &mut Rng) -> String {
  let n = rng.below(6);
  (0..n).map(|_| *rng.pick(&['a', 'b', ' ', '"', '\\', '$', 'é', '\u{4e2d}', '\u{1f600}', '\'', '\t', '{', ':', '\n', '\r', '\0', '\u{1b}', 'A', '0'])).collect()
}
fn time(rng: &mut Rng) -> Option<chrono::DateTime<chrono::Utc>> {
  if rng.chance(1, 3) { None } else { chrono::DateTime::from_timestamp(1_700_000_000 + rng.below(100000) as i64, rng.below(1_000_000_000) as u32) }
}
pub fn state(rng: &mut Rng) -> WorkflowState {
  rng.pick(&[WorkflowState::Pending, WorkflowState::Queued, WorkflowState::InProgress, WorkflowState::Succeeded, WorkflowState::Failed, WorkflowState::Cancelled, WorkflowState::Skipped]).clone()
}
pub fn step_id(rng: &mut Rng) -> StepId {
  StepId::new(format!("w{}", rng.below(3)), format!("j{}", rng.below(3)), rng.below(3))
}
pub fn step(rng: &mut Rng) -> Step {
  let mut env = EnvironmentVariables::default();
  for _ in 0..rng.below(3) {
    let v = match rng.below(3) {
      0 => EnvironmentVariable::String(text(rng)),
      1 => EnvironmentVariable::Number(rng.below(100) as f64 / 4.0),
      _ => EnvironmentVariable::Boolean(rng.chance(1, 2)),
    };
    env.insert(format!("E{}", rng.below(4)), v);
  }
  Step {
    id: step_id(rng),
    name: if rng.chance(1, 2) { Some(text(rng)) } else { None },
    on: None,
    container: if rng.chance(1, 2) { Some(ContainerOptions { name: text(rng), volumes: Some(vec![text(rng)]), security_opts: None }) } else { None },
    run: text(rng),
    continue_on_error: rng.chance(1, 2),
    environments: env,
    secrets: (0..rng.below(3)).map(|_| text(rng)).collect(),
    timeout: Duration::new(rng.below(100) as u64, rng.below(1000) as u32),
  }
}
pub fn job(rng: &mut Rng) -> Job {
  Job {
    id: step_id(rng).job_id(),
    name: None,
    on: None,
    steps: (0..rng.below(3)).map(|_| step(rng)).collect(),
    depends_on: (0..rng.below(2)).map(|_| text(rng)).collect(),
    working_directories: vec![],
  }
}
pub fn workflow(rng: &mut Rng) -> Workflow {
  Workflow { id: step_id(rng).workflow_id(), name: Some(text(rng)), on: None, jobs: (0..rng.below(3)).map(|i| (format!("j{}", i), job(rng))).collect() }
}
pub fn step_result(rng: &mut Rng) -> StepRunResult {
  StepRunResult { id: step_id(rng), state: state(rng), exit_code: if rng.chance(1, 2) { Some(rng.below(300) as i32 - 20) } else { None }, started_at: time(rng), completed_at: time(rng) }
}
pub fn job_result(rng: &mut Rng) -> JobRunResult {
  JobRunResult { id: step_id(rng).job_id(), state: state(rng), started_at: time(rng), completed_at: time(rng), steps: (0..rng.below(3)).map(|_| step_result(rng)).collect() }
}
pub fn workflow_result(rng: &mut Rng) -> WorkflowRunResult {
  WorkflowRunResult { id: step_id(rng).workflow_id(), state: state(rng), started_at: time(rng), completed_at: time(rng), jobs: (0..rng.below(3)).map(|i| (format!("j{}", i), job_result(rng))).collect() }
}
pub fn state_event(rng: &mut Rng) -> WorkflowStateEvent {
  let id = step_id(rng);
  let state = state(rng);
  match rng.below(3) {
    0 => WorkflowStateEvent::WorkflowStateUpdated { id: id.workflow_id(), state },
    1 => WorkflowStateEvent::JobStateUpdated { id: id.job_id(), state },
    _ => WorkflowStateEvent::StepStateUpdated { id, state },
  }
}
pub fn log(rng: &mut Rng) -> WorkflowLog {
  WorkflowLog { step_id: step_id(rng), log_type: if rng.chance(1, 2) { WorkflowLogType::Error } else { WorkflowLogType::Log }, message: text(rng), time: time(rng).unwrap_or_default() }
}
fn run_event<T: Clone>(source: T, rng: &mut Rng) -> RunEvent<T> {
  RunEvent { source, trigger_event: if rng.chance(1, 2) { Some(TriggerEvent { sha: text(rng), ..Default::default() }) } else { None }, payload: if rng.chance(1, 2) { Some(ContextPayload::new(crate::rec::load(rng))) } else { None } }
}
/// a random event other than a signal
pub fn event(rng: &mut Rng) -> ProtocolEvent {
  match rng.below(8) {
    0 => { let s = step(rng); ProtocolEvent::RunStep(run_event(s, rng)) }
    1 => { let s = job(rng); ProtocolEvent::RunJob(run_event(s, rng)) }
    2 => { let s = workflow(rng); ProtocolEvent::RunWorkflow(run_event(s, rng)) }
    3 => ProtocolEvent::StepCompleted(step_result(rng)),
    4 => ProtocolEvent::JobCompleted(job_result(rng)),
    5 => ProtocolEvent::WorkflowCompleted(workflow_result(rng)),
    6 => ProtocolEvent::StepLog(log(rng)),
    _ => ProtocolEvent::StateChange(state_event(rng)),
  }
}
/// the runner hook that belongs to an event
pub async fn give<R: Runner>(r: &R, e: ProtocolEvent) -> HookNoopResult {
  match e {
    ProtocolEvent::RunStep(x) => r.on_run_step(x).await,
    ProtocolEvent::RunJob(x) => r.on_run_job(x).await,
    ProtocolEvent::RunWorkflow(x) => r.on_run_workflow(x).await,
    ProtocolEvent::StepCompleted(x) => r.on_step_completed(x).await,
    ProtocolEvent::JobCompleted(x) => r.on_job_completed(x).await,
    ProtocolEvent::WorkflowCompleted(x) => r.on_workflow_completed(x).await,
    ProtocolEvent::StepLog(x) => r.on_log(x).await,
    ProtocolEvent::StateChange(x) => r.on_state_change(x).await,
    ProtocolEvent::Signal(_) => Ok(()),
  }
}
pub fn context(id: StepId, run: &str) -> Context {
  Context { id: id.clone(), signal: AstroRunSignal::new(), command: Command { id, run: run.into(), ..Default::default() }, event: None, payload: None }
}
/// every line of the stream (type, text) and the result; None when it does not end in time
pub async fn drain(rx: &mut StreamReceiver, limit: Duration) -> (Vec<(bool, String)>, Option<RunResult>) {
  use tokio_stream::StreamExt;
  let mut lines = vec![];
  let end = tokio::time::timeout(limit, async {
    while let Some(l) = rx.next().await {
      lines.push((l.log_type == WorkflowLogType::Error, l.message));
    }
  })
  .await;
  let r = if end.is_ok() { rx.result() } else { None };
  (lines, r)
}
