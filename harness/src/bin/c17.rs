//! C17: every kind of message, with all its parts present and absent, sent over the real protocol
//! (loopback gRPC with the real codec) in both directions, and texts that are no message.
use astro_run::typetag;
use astro_run::*;
use astro_run_protocol::remote_runner::{RemoteRunnerClient, RemoteRunnerExt, RemoteRunnerServer};
use astro_run_protocol::{Empty, ProtocolEvent, RunResponse, RunnerMetadata, SignalEvent};
use harness::fake::{free_port, port_open};
use harness::{Rng, H};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::fmt::Debug;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio_stream::StreamExt;
use tonic::codec::{Codec, DecodeBuf, Decoder, EncodeBuf, Encoder};
use tonic::transport::Channel;
use tonic::{Request, Response, Status};
type Res<T> = std::result::Result<T, Status>;

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Pay {
  text: String,
  numbers: Vec<i64>,
  inner: Option<Box<Pay>>,
}
#[typetag::serde]
impl ContextPayloadExt for Pay {
  fn as_any(&self) -> &dyn std::any::Any {
    self
  }
}

// ---- the debug form of a value, with the entries of every map in a fixed order ----
struct P {
  s: Vec<char>,
  i: usize,
}
impl P {
  fn go(&mut self, close: char) -> Vec<String> {
    let (mut items, mut cur) = (vec![], String::new());
    while self.i < self.s.len() {
      let c = self.s[self.i];
      self.i += 1;
      if c == close {
        break;
      }
      match c {
        '"' => {
          cur.push('"');
          while self.i < self.s.len() {
            let d = self.s[self.i];
            self.i += 1;
            cur.push(d);
            if d == '\\' {
              cur.push(self.s[self.i]);
              self.i += 1;
            } else if d == '"' {
              break;
            }
          }
        }
        '{' => {
          let mut v = self.go('}');
          v.sort();
          cur.push_str(&format!("{{{}}}", v.join(", ")));
        }
        '[' => cur.push_str(&format!("[{}]", self.go(']').join(", "))),
        '(' => cur.push_str(&format!("({})", self.go(')').join(", "))),
        ',' => {
          items.push(cur.trim().to_string());
          cur = String::new();
        }
        _ => cur.push(c),
      }
    }
    if !cur.trim().is_empty() {
      items.push(cur.trim().to_string());
    }
    items
  }
}
fn dbg<T: Debug>(t: &T) -> String {
  let s = format!("{:?}", t);
  P { s: s.chars().collect(), i: 0 }.go('\0').join(", ")
}
fn pay(p: &Option<ContextPayload>) -> String {
  match p {
    None => "-".into(),
    Some(p) => format!("{:?}", p.payload::<Pay>()),
  }
}
/// everything that can be seen of an event
fn ev(e: &ProtocolEvent) -> String {
  let p = match e {
    ProtocolEvent::RunStep(x) => pay(&x.payload),
    ProtocolEvent::RunJob(x) => pay(&x.payload),
    ProtocolEvent::RunWorkflow(x) => pay(&x.payload),
    _ => String::new(),
  };
  format!("{} {}", dbg(e), p)
}
/// the signal does not travel
fn cx(c: &Context) -> String {
  let mut c = c.clone();
  c.signal = AstroRunSignal::new();
  dbg(&c)
}

// ---- values ----
struct Gen {
  r: Rng,
  /// 0 everything absent, 1 everything present, 2 at random
  mode: usize,
}
impl Gen {
  fn yes(&mut self) -> bool {
    match self.mode {
      0 => false,
      1 => true,
      _ => self.r.chance(1, 2),
    }
  }
  fn n(&mut self) -> usize {
    match self.mode {
      0 => 0,
      1 => 1 + self.r.below(3),
      _ => self.r.below(4),
    }
  }
  fn text(&mut self) -> String {
    if self.mode == 0 {
      return String::new();
    }
    const W: [&str; 22] = ["", "a", "null", "true", "1", "1.5", "{}", "[]", "\"", "\\", "\n", "\r\n", "\u{0}", "\u{7f}", "é", "日本", "\u{1F600}", "\u{2028}", "/", " ", "Event", "type"];
    let mut s = String::new();
    for _ in 0..1 + self.r.below(4) {
      s.push_str(*self.r.pick(&W));
    }
    if self.mode == 1 && s.is_empty() {
      s.push('x');
    }
    s
  }
  fn texts(&mut self) -> Vec<String> {
    (0..self.n()).map(|_| self.text()).collect()
  }
  fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Option<T> {
    if self.yes() {
      Some(f(self))
    } else {
      None
    }
  }
  /// a number the JSON parser reads back exactly
  fn num(&mut self) -> f64 {
    match self.r.below(8) {
      0 => 0.0,
      1 => -1.0,
      2 => (self.r.next() >> 15) as f64,
      3 => -((self.r.next() >> 15) as f64),
      4 => (self.r.next() >> 40) as f64 / 64.0,
      5 => 0.5,
      6 => 1e14,
      _ => self.r.below(100000) as f64 / 8.0,
    }
  }
  fn env(&mut self) -> EnvironmentVariables {
    (0..self.n())
      .map(|i| {
        let v = match self.r.below(3) {
          0 => EnvironmentVariable::String(self.text()),
          1 => EnvironmentVariable::Number(self.num()),
          _ => EnvironmentVariable::Boolean(self.r.chance(1, 2)),
        };
        (format!("{}{}", self.text(), i), v)
      })
      .collect()
  }
  fn wid(&mut self) -> WorkflowId {
    WorkflowId::new(self.text())
  }
  fn jid(&mut self) -> JobId {
    JobId::new(self.text(), self.text())
  }
  fn sid(&mut self) -> StepId {
    let n = match self.r.below(4) {
      0 => 0,
      1 => usize::MAX,
      _ => self.r.next() as usize >> self.r.below(64),
    };
    StepId::new(self.text(), self.text(), n)
  }
  fn time(&mut self) -> chrono::DateTime<chrono::Utc> {
    let nanos = *self.r.pick(&[0u32, 1, 999_999_999, 500_000_000, 123_000_000, 123_456_000]);
    let secs = (self.r.below(8_000_000_000) as i64) - 2_000_000_000;
    chrono::DateTime::<chrono::Utc>::from_timestamp(secs, nanos).unwrap()
  }
  fn dur(&mut self) -> Duration {
    match self.r.below(4) {
      0 => Duration::ZERO,
      1 => Duration::from_millis(self.r.next() >> 30),
      2 => Duration::MAX,
      _ => Duration::new(self.r.next(), self.r.below(1_000_000_000) as u32),
    }
  }
  fn cond(&mut self) -> Condition {
    if self.r.chance(1, 2) {
      Condition::Event(self.texts())
    } else {
      Condition::Config(ConditionConfig {
        push: self.opt(|g| PushCondition { branches: g.opt(|g| g.texts()), paths: g.opt(|g| g.texts()) }),
        pull_request: self.opt(|g| PullRequestCondition { branches: g.opt(|g| g.texts()), paths: g.opt(|g| g.texts()) }),
      })
    }
  }
  fn container(&mut self) -> ContainerOptions {
    ContainerOptions { name: self.text(), volumes: self.opt(|g| g.texts()), security_opts: self.opt(|g| g.texts()) }
  }
  fn state(&mut self) -> WorkflowState {
    use WorkflowState::*;
    self.r.pick(&[Pending, Queued, InProgress, Succeeded, Failed, Cancelled, Skipped]).clone()
  }
  fn step(&mut self) -> Step {
    Step {
      id: self.sid(),
      name: self.opt(|g| g.text()),
      on: self.opt(|g| g.cond()),
      container: self.opt(|g| g.container()),
      run: self.text(),
      continue_on_error: self.yes(),
      environments: self.env(),
      secrets: self.texts(),
      timeout: self.dur(),
    }
  }
  fn command(&mut self) -> Command {
    self.step().into()
  }
  fn job(&mut self) -> Job {
    Job {
      id: self.jid(),
      name: self.opt(|g| g.text()),
      on: self.opt(|g| g.cond()),
      steps: (0..self.n()).map(|_| self.step()).collect(),
      depends_on: self.texts(),
      working_directories: self.texts(),
    }
  }
  fn workflow(&mut self) -> Workflow {
    Workflow {
      id: self.wid(),
      name: self.opt(|g| g.text()),
      on: self.opt(|g| g.cond()),
      jobs: (0..self.n()).map(|i| (format!("{}{}", self.text(), i), self.job())).collect::<HashMap<_, _>>(),
    }
  }
  fn event(&mut self) -> TriggerEvent {
    TriggerEvent {
      event: self.text(),
      repo_owner: self.text(),
      repo_name: self.text(),
      pr_number: self.opt(|g| g.r.next() as i64 >> g.r.below(64)),
      sha: self.text(),
      branch: self.text(),
      ref_name: self.text(),
    }
  }
  fn payload(&mut self, depth: usize) -> Pay {
    Pay { text: self.text(), numbers: (0..self.n()).map(|_| self.r.next() as i64).collect(), inner: if depth > 0 && self.r.chance(1, 2) { Some(Box::new(self.payload(depth - 1))) } else { None } }
  }
  fn code(&mut self) -> i32 {
    self.r.next() as i32 >> self.r.below(32)
  }
  fn sres(&mut self) -> StepRunResult {
    StepRunResult { id: self.sid(), state: self.state(), exit_code: self.opt(|g| g.code()), started_at: self.opt(|g| g.time()), completed_at: self.opt(|g| g.time()) }
  }
  fn jres(&mut self) -> JobRunResult {
    JobRunResult { id: self.jid(), state: self.state(), started_at: self.opt(|g| g.time()), completed_at: self.opt(|g| g.time()), steps: (0..self.n()).map(|_| self.sres()).collect() }
  }
  fn wres(&mut self) -> WorkflowRunResult {
    WorkflowRunResult {
      id: self.wid(),
      state: self.state(),
      started_at: self.opt(|g| g.time()),
      completed_at: self.opt(|g| g.time()),
      jobs: (0..self.n()).map(|i| (format!("{}{}", self.text(), i), self.jres())).collect(),
    }
  }
  fn kind(&mut self) -> WorkflowLogType {
    if self.r.chance(1, 2) {
      WorkflowLogType::Log
    } else {
      WorkflowLogType::Error
    }
  }
  fn run<T: Clone>(&mut self, source: T) -> RunEvent<T> {
    RunEvent { source, trigger_event: self.opt(|g| g.event()), payload: self.opt(|g| ContextPayload::new(g.payload(2))) }
  }
  fn protocol(&mut self, k: usize) -> ProtocolEvent {
    match k % 11 {
      0 => {
        let s = self.step();
        ProtocolEvent::RunStep(self.run(s))
      }
      1 => {
        let s = self.job();
        ProtocolEvent::RunJob(self.run(s))
      }
      2 => {
        let s = self.workflow();
        ProtocolEvent::RunWorkflow(self.run(s))
      }
      3 => ProtocolEvent::StepCompleted(self.sres()),
      4 => ProtocolEvent::JobCompleted(self.jres()),
      5 => ProtocolEvent::WorkflowCompleted(self.wres()),
      6 => ProtocolEvent::StepLog(WorkflowLog { step_id: self.sid(), log_type: self.kind(), message: self.text(), time: self.time() }),
      7 => ProtocolEvent::StateChange(WorkflowStateEvent::WorkflowStateUpdated { id: self.wid(), state: self.state() }),
      8 => ProtocolEvent::StateChange(WorkflowStateEvent::JobStateUpdated { id: self.jid(), state: self.state() }),
      9 => ProtocolEvent::StateChange(WorkflowStateEvent::StepStateUpdated { id: self.sid(), state: self.state() }),
      _ => ProtocolEvent::Signal(SignalEvent { step_id: self.sid(), signal: if self.r.chance(1, 2) { Signal::Cancel } else { Signal::Timeout } }),
    }
  }
  fn response(&mut self) -> RunResponse {
    match self.r.below(4) {
      0 => RunResponse::log(self.sid(), Log { log_type: self.kind(), message: self.text() }),
      1 => RunResponse::result(self.sid(), RunResult::Succeeded),
      2 => RunResponse::result(self.sid(), RunResult::Cancelled),
      _ => RunResponse::result(self.sid(), RunResult::Failed { exit_code: self.code() }),
    }
  }
  fn context(&mut self) -> Context {
    Context { id: self.sid(), signal: AstroRunSignal::new(), command: self.command(), event: self.opt(|g| g.event()), payload: self.opt(|g| g.text()) }
  }
  fn metadata(&mut self) -> RunnerMetadata {
    RunnerMetadata { id: self.text(), os: self.text(), arch: self.text(), support_docker: self.yes(), support_host: self.yes(), version: self.text(), max_runs: self.code() }
  }
}

// ---- a server that keeps what arrives and answers as it was told ----
#[derive(Default)]
struct Told {
  got: Vec<String>,
  arrived: usize,
  meta: RunnerMetadata,
  answers: Vec<RunResponse>,
  command: Command,
}
#[derive(Clone, Default)]
struct Srv(Arc<Mutex<Told>>);
impl Srv {
  fn put(&self, s: String) {
    let mut t = self.0.lock().unwrap();
    t.got.push(s);
    t.arrived += 1;
  }
  fn take(&self) -> Vec<String> {
    std::mem::take(&mut self.0.lock().unwrap().got)
  }
}
#[tonic::async_trait]
impl RemoteRunnerExt for Srv {
  type RunStream = tokio_stream::Iter<std::vec::IntoIter<Res<RunResponse>>>;
  async fn get_runner_metadata(&self, r: Request<Empty>) -> Res<Response<RunnerMetadata>> {
    self.put(dbg(&r.into_inner()));
    Ok(Response::new(self.0.lock().unwrap().meta.clone()))
  }
  async fn run(&self, r: Request<Context>) -> Res<Response<Self::RunStream>> {
    self.put(cx(&r.into_inner()));
    let a = std::mem::take(&mut self.0.lock().unwrap().answers);
    Ok(Response::new(tokio_stream::iter(a.into_iter().map(Ok).collect::<Vec<_>>())))
  }
  async fn send_event(&self, r: Request<ProtocolEvent>) -> Res<Response<Empty>> {
    self.put(ev(&r.into_inner()));
    Ok(Response::new(Empty {}))
  }
  async fn call_before_run_step_hook(&self, r: Request<Command>) -> Res<Response<Command>> {
    self.put(dbg(&r.into_inner()));
    Ok(Response::new(self.0.lock().unwrap().command.clone()))
  }
}

// ---- bytes as they are ----
#[derive(Clone, Default)]
struct Raw;
impl Codec for Raw {
  type Encode = Vec<u8>;
  type Decode = Vec<u8>;
  type Encoder = Raw;
  type Decoder = Raw;
  fn encoder(&mut self) -> Raw {
    Raw
  }
  fn decoder(&mut self) -> Raw {
    Raw
  }
}
impl Encoder for Raw {
  type Item = Vec<u8>;
  type Error = Status;
  fn encode(&mut self, item: Vec<u8>, buf: &mut EncodeBuf<'_>) -> Res<()> {
    use bytes::BufMut;
    buf.put_slice(&item);
    Ok(())
  }
}
impl Decoder for Raw {
  type Item = Vec<u8>;
  type Error = Status;
  fn decode(&mut self, buf: &mut DecodeBuf<'_>) -> Res<Option<Vec<u8>>> {
    use bytes::Buf;
    let mut v = vec![0; buf.remaining()];
    buf.copy_to_slice(&mut v);
    Ok(Some(v))
  }
}
/// a server that answers every request with the given texts
#[derive(Clone, Default)]
struct RawSrv(Arc<Mutex<Vec<Vec<u8>>>>);
impl<B> tonic::codegen::Service<tonic::codegen::http::Request<B>> for RawSrv
where
  B: tonic::codegen::Body + Send + 'static,
  B::Error: Into<tonic::codegen::StdError> + Send + 'static,
{
  type Response = tonic::codegen::http::Response<tonic::body::BoxBody>;
  type Error = std::convert::Infallible;
  type Future = tonic::codegen::BoxFuture<Self::Response, Self::Error>;
  fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> std::task::Poll<std::result::Result<(), Self::Error>> {
    std::task::Poll::Ready(Ok(()))
  }
  fn call(&mut self, req: tonic::codegen::http::Request<B>) -> Self::Future {
    let me = self.clone();
    Box::pin(async move { Ok(tonic::server::Grpc::new(Raw).server_streaming(me, req).await) })
  }
}
impl tonic::server::NamedService for RawSrv {
  const NAME: &'static str = "remote_runner.RemoteRunner";
}
impl tonic::server::ServerStreamingService<Vec<u8>> for RawSrv {
  type Response = Vec<u8>;
  type ResponseStream = tokio_stream::Iter<std::vec::IntoIter<Res<Vec<u8>>>>;
  type Future = tonic::codegen::BoxFuture<Response<Self::ResponseStream>, Status>;
  fn call(&mut self, _: Request<Vec<u8>>) -> Self::Future {
    let v: Vec<Res<Vec<u8>>> = std::mem::take(&mut *self.0.lock().unwrap()).into_iter().map(Ok).collect();
    Box::pin(async move { Ok(Response::new(tokio_stream::iter(v))) })
  }
}
const METHODS: [&str; 4] = ["GetRunnerMetadata", "Run", "SendEvent", "CallBeforeRunStepHook"];
async fn raw(ch: &Channel, method: &str, body: Vec<u8>) -> Res<Vec<u8>> {
  let mut g = tonic::client::Grpc::new(ch.clone());
  g.ready().await.map_err(|e| Status::unknown(e.to_string()))?;
  let path: tonic::codegen::http::uri::PathAndQuery = format!("/remote_runner.RemoteRunner/{}", method).parse().unwrap();
  if method == "Run" {
    let mut s = g.server_streaming(Request::new(body), path, Raw).await?.into_inner();
    let mut all = vec![];
    while let Some(x) = s.message().await? {
      all.extend(x);
    }
    return Ok(all);
  }
  g.unary(Request::new(body), path, Raw).await.map(|r| r.into_inner())
}

async fn up<S>(s: S) -> Option<Channel>
where
  S: tonic::codegen::Service<tonic::codegen::http::Request<tonic::transport::Body>, Response = tonic::codegen::http::Response<tonic::body::BoxBody>, Error = std::convert::Infallible> + tonic::server::NamedService + Clone + Send + 'static,
  S::Future: Send + 'static,
{
  for _ in 0..6 {
    let p = free_port();
    let s = s.clone();
    tokio::spawn(async move {
      let _ = tonic::transport::Server::builder().add_service(s).serve(format!("127.0.0.1:{}", p).parse().unwrap()).await;
    });
    for _ in 0..300 {
      if port_open(p) {
        break;
      }
      tokio::time::sleep(Duration::from_millis(5)).await;
    }
    if let Ok(c) = Channel::from_shared(format!("http://127.0.0.1:{}", p)).unwrap().connect().await {
      return Some(c);
    }
  }
  None
}
/// what is wrong with a text
fn damage(g: &mut Gen, t: &mut Vec<u8>, other: &[Vec<u8>]) -> usize {
  let how = g.r.below(7);
  match how {
    // cut short
    0 => t.truncate(g.r.below(t.len())),
    // something follows
    1 => t.extend_from_slice(*g.r.pick(&[&b"x"[..], b"{}", b"null", b"]", b"1"])),
    // another kind of message
    2 => *t = g.r.pick(other).clone(),
    // a byte is damaged
    3 => {
      let at = g.r.below(t.len());
      t[at] = g.r.next() as u8;
    }
    // not JSON at all
    4 => *t = (0..g.r.below(20)).map(|_| g.r.next() as u8).collect(),
    // other JSON
    5 => *t = g.r.pick(&[&b"null"[..], b"[]", b"\"x\"", b"1", b"true", b"{\"Unknown\":{}}", b"{\"RunStep\":null}"]).to_vec(),
    _ => {}
  }
  how
}
async fn go(h: &mut H) {
  let srv = Srv::default();
  let raws = RawSrv::default();
  let (ch, ch2) = match (up(RemoteRunnerServer::new(srv.clone())).await, up(raws.clone()).await) {
    (Some(a), Some(b)) => (a, b),
    _ => return,
  };
  let mut c = RemoteRunnerClient::new(ch.clone());
  let mut g = Gen { r: Rng(h.rng.next()), mode: 0 };
  let rounds = h.n(400, 4000);
  for i in 0..rounds {
    g.mode = if i < 24 { i % 2 } else { 2 };
    // events
    for k in 0..11 {
      let e = g.protocol(k);
      let want = ev(&e);
      let text = serde_json::to_string(&e).unwrap_or_default();
      let r = c.send_event(e).await;
      let got = srv.take();
      h.count("events");
      if k == 0 && i < 3 {
        h.sample(format!("event {}", want));
      }
      if r.is_err() || got != vec![want.clone()] {
        h.fail(format!("event sent: {} as text: {} arrived: {:?} answer: {:?}", want, text, got, r.map(|_| ()).map_err(|e| e.to_string())));
      }
    }
    // a run request, and what is answered
    let x = g.context();
    let want = cx(&x);
    let answers: Vec<RunResponse> = (0..g.r.below(6)).map(|_| g.response()).collect();
    let back: Vec<String> = answers.iter().map(dbg).collect();
    srv.0.lock().unwrap().answers = answers;
    let r = c.run(x).await;
    let got = srv.take();
    h.count("runs");
    if got != vec![want.clone()] {
      h.fail(format!("run request sent: {} arrived: {:?}", want, got));
    }
    let mut seen = vec![];
    match r {
      Ok(s) => {
        let mut s = s.into_inner();
        while let Some(m) = s.next().await {
          seen.push(match m {
            Ok(m) => dbg(&m),
            Err(e) => format!("error {}", e),
          });
        }
      }
      Err(e) => seen.push(format!("error {}", e)),
    }
    if seen != back {
      h.fail(format!("answers sent: {:?} arrived: {:?}", back, seen));
    }
    // hook
    let (x, y) = (g.command(), g.command());
    let (want, back) = (dbg(&x), dbg(&y));
    srv.0.lock().unwrap().command = y;
    let r = c.call_before_run_step_hook(x).await.map(|r| dbg(&r.into_inner())).map_err(|e| e.to_string());
    let got = srv.take();
    h.count("hooks");
    if got != vec![want.clone()] || r != Ok(back.clone()) {
      h.fail(format!("hook request sent: {} arrived: {:?}; answer sent: {} arrived: {:?}", want, got, back, r));
    }
    // metadata
    let m = g.metadata();
    let back = dbg(&m);
    srv.0.lock().unwrap().meta = m;
    let r = c.get_runner_metadata(Empty {}).await.map(|r| dbg(&r.into_inner())).map_err(|e| e.to_string());
    srv.take();
    h.count("metadata");
    if r != Ok(back.clone()) {
      h.fail(format!("metadata sent: {} arrived: {:?}", back, r));
    }
  }
  // numbers that the JSON parser does not read back exactly (known findings)
  let number = |v: f64| {
    let mut s = Step::default();
    s.environments.insert("N".into(), EnvironmentVariable::Number(v));
    ProtocolEvent::RunStep(RunEvent { source: s, trigger_event: None, payload: None })
  };
  let e = number(FLOAT);
  let want = ev(&e);
  let _ = c.send_event(e).await;
  if srv.take() != vec![want] {
    println!("KNOWN c17-float-ulp");
  }
  let e = number(f64::INFINITY);
  let want = ev(&e);
  let _ = c.send_event(e).await;
  if srv.take() != vec![want] {
    println!("KNOWN c17-float-nonfinite");
  }
  // texts that are no message
  for i in 0..h.n(400, 4000) {
    g.mode = 1 + i % 2;
    let texts = [
      serde_json::to_vec(&Empty {}).unwrap(),
      serde_json::to_vec(&g.context()).unwrap(),
      serde_json::to_vec(&g.protocol(i)).unwrap(),
      serde_json::to_vec(&g.command()).unwrap(),
    ];
    let m = g.r.below(4);
    let mut t = texts[m].clone();
    let how = damage(&mut g, &mut t, &texts);
    // the oracle is the value the type itself reads from the text
    let want = match m {
      0 => serde_json::from_slice::<Empty>(&t).ok().map(|x| dbg(&x)),
      1 => serde_json::from_slice::<Context>(&t).ok().map(|x| cx(&x)),
      2 => serde_json::from_slice::<ProtocolEvent>(&t).ok().map(|x| ev(&x)),
      _ => serde_json::from_slice::<Command>(&t).ok().map(|x| dbg(&x)),
    };
    if how <= 1 {
      h.check(want.is_none(), || format!("{} reads a damaged text: {}", METHODS[m], String::from_utf8_lossy(&t)));
    }
    // a run request answers in a stream; its answers do not matter here
    let r = raw(&ch, METHODS[m], t.clone()).await;
    let got = srv.take();
    h.count(if want.is_some() { "texts_accepted" } else { "texts_refused" });
    match want {
      Some(w) => {
        h.check(got == vec![w.clone()], || format!("{} was sent {} and got {:?}", METHODS[m], String::from_utf8_lossy(&t), got));
      }
      None => {
        h.check(got.is_empty() && r.is_err(), || format!("{} was sent {:?}, which is no message, and got {:?}, answered {:?}", METHODS[m], String::from_utf8_lossy(&t), got, r.is_ok()));
      }
    }
  }
  // answers that are no message
  let mut c = RemoteRunnerClient::new(ch2.clone());
  for i in 0..h.n(400, 4000) {
    g.mode = 1 + i % 2;
    let texts = [
      serde_json::to_vec(&g.metadata()).unwrap(),
      serde_json::to_vec(&g.response()).unwrap(),
      serde_json::to_vec(&Empty {}).unwrap(),
      serde_json::to_vec(&g.command()).unwrap(),
    ];
    let m = if i % 2 == 0 { 1 } else { g.r.below(4) };
    let mut t = texts[m].clone();
    let how = damage(&mut g, &mut t, &texts);
    let want = match m {
      0 => serde_json::from_slice::<RunnerMetadata>(&t).ok().map(|x| dbg(&x)),
      1 => serde_json::from_slice::<RunResponse>(&t).ok().map(|x| dbg(&x)),
      2 => serde_json::from_slice::<Empty>(&t).ok().map(|x| dbg(&x)),
      _ => serde_json::from_slice::<Command>(&t).ok().map(|x| dbg(&x)),
    };
    if how <= 1 {
      h.check(want.is_none(), || format!("the answer of {} reads a damaged text: {}", METHODS[m], String::from_utf8_lossy(&t)));
    }
    // an answer of no bytes is no message; everything else must be one or be an error
    if t.is_empty() {
      continue;
    }
    let good = g.response();
    let want = match (m, want) {
      // a stream of answers: a good one, the text, nothing
      (1, Some(w)) => vec![dbg(&good), w],
      (1, None) => vec![dbg(&good), "error".into()],
      (_, Some(w)) => vec![w],
      (_, None) => vec!["error".into()],
    };
    let mut list = vec![t.clone()];
    if m == 1 {
      list.insert(0, serde_json::to_vec(&good).unwrap());
    }
    *raws.0.lock().unwrap() = list;
    let mut got = vec![];
    match m {
      0 => got.push(c.get_runner_metadata(Empty {}).await.map(|r| dbg(&r.into_inner())).unwrap_or("error".into())),
      1 => match c.run(g.context()).await {
        Ok(s) => {
          let mut s = s.into_inner();
          while let Some(x) = s.next().await {
            let bad = x.is_err();
            got.push(x.map(|x| dbg(&x)).unwrap_or("error".into()));
            if bad {
              break;
            }
          }
        }
        Err(_) => got.push("error".into()),
      },
      2 => {
        let e = g.protocol(i);
        got.push(c.send_event(e).await.map(|r| dbg(&r.into_inner())).unwrap_or("error".into()));
      }
      _ => got.push(c.call_before_run_step_hook(g.command()).await.map(|r| dbg(&r.into_inner())).unwrap_or("error".into())),
    }
    h.count("answers");
    h.check(got == want, || format!("{} was answered {:?}, expected {:?}, got {:?}", METHODS[m], String::from_utf8_lossy(&t), want, got));
  }
}

/// read back as -4232728186573894.5
const FLOAT: f64 = -4232728186573894.0;

fn main() {
  let mut h = H::start();
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
  rt.block_on(go(&mut h));
  rt.shutdown_background();
  h.done();
}
