//! Plugins and a runner that record every hook call, and a runner driven by the step's text.
use astro_run::typetag;
use astro_run::*;
use serde_json::Value;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// a payload of the user
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone, PartialEq)]
pub struct Load {
  pub text: String,
  pub numbers: Vec<i64>,
  pub inner: Option<Box<Load>>,
}
#[typetag::serde]
impl ContextPayloadExt for Load {
  fn as_any(&self) -> &dyn std::any::Any {
    self
  }
}
pub fn load(rng: &mut crate::Rng) -> Load {
  let text = rng.pick(&["", " ", "a b", "\"q\"", "ä€\u{1F600}", "line\nline ", "null", "{}", "\\"]).to_string();
  Load { text, numbers: (0..rng.below(3)).map(|_| rng.next() as i64).collect(), inner: if rng.chance(1, 3) { Some(Box::new(load(rng))) } else { None } }
}
/// one observed call: who saw it, which hook, and what it was given
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
  pub who: String,
  pub hook: &'static str,
  pub id: String,
  pub arg: Value,
}
impl Call {
  /// `state` of state events and results
  pub fn state(&self) -> String {
    let v = match self.hook {
      "state" => self.arg.as_object().and_then(|o| o.values().next().cloned()).unwrap_or(Value::Null),
      _ => self.arg.clone(),
    };
    v.get("state").and_then(|s| s.as_str()).unwrap_or("").to_string()
  }
  pub fn short(&self) -> String {
    format!("{}:{}({}){}", self.who, self.hook, self.id, if self.state().is_empty() { String::new() } else { format!("={}", self.state()) })
  }
}
#[derive(Clone, Default)]
pub struct Book(pub Arc<Mutex<Vec<Call>>>);
impl Book {
  pub fn put(&self, who: &str, hook: &'static str, id: String, arg: Value) {
    self.0.lock().unwrap().push(Call { who: who.into(), hook, id, arg });
  }
  pub fn all(&self) -> Vec<Call> {
    self.0.lock().unwrap().clone()
  }
  pub fn of(&self, who: &str) -> Vec<Call> {
    self.all().into_iter().filter(|c| c.who == who).collect()
  }
  pub fn clear(&self) {
    self.0.lock().unwrap().clear();
  }
}
pub fn js<T: serde::Serialize>(t: &T) -> Value {
  serde_json::to_value(t).unwrap_or(Value::Null)
}
/// the id of a state event, as text
pub fn state_id(e: &WorkflowStateEvent) -> String {
  match e {
    WorkflowStateEvent::WorkflowStateUpdated { id, .. } => id.to_string(),
    WorkflowStateEvent::JobStateUpdated { id, .. } => id.to_string(),
    WorkflowStateEvent::StepStateUpdated { id, .. } => id.to_string(),
  }
}
/// how a hook ends after it was recorded
pub type Fails = Arc<dyn Fn(&'static str) -> bool + Send + Sync>;
fn end(fails: &Option<Fails>, hook: &'static str) -> HookNoopResult {
  match fails {
    Some(f) if f(hook) => Err(Error::error("hook failed")),
    _ => Ok(()),
  }
}

/// some hooks let others go on before they are done
async fn pause(who: &str, book: &Book) {
  let n = book.0.lock().unwrap().len() + who.bytes().map(|b| b as usize).sum::<usize>();
  if n % 3 == 0 {
    tokio::task::yield_now().await;
  }
}

macro_rules! hooks {
  ($tr:ident for $t:ident { $($rest:tt)* }) => {
#[async_trait]
impl $tr for $t {
  $($rest)*

    async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult {
      pause(&self.who, &self.book).await;
      self.book.put(&self.who, "workflow", e.source.id.to_string(), js(&e));
      end(&self.fails, "workflow")
    }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult {
      pause(&self.who, &self.book).await;
      self.book.put(&self.who, "job", e.source.id.to_string(), js(&e));
      end(&self.fails, "job")
    }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult {
      pause(&self.who, &self.book).await;
      self.book.put(&self.who, "step", e.source.id.to_string(), js(&e));
      end(&self.fails, "step")
    }
    async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
      pause(&self.who, &self.book).await;
      self.book.put(&self.who, "state", state_id(&e), js(&e));
      end(&self.fails, "state")
    }
    async fn on_log(&self, e: WorkflowLog) -> HookNoopResult {
      pause(&self.who, &self.book).await;
      self.book.put(&self.who, "log", e.step_id.to_string(), js(&e));
      end(&self.fails, "log")
    }
    async fn on_step_completed(&self, e: StepRunResult) -> HookNoopResult {
      pause(&self.who, &self.book).await;
      self.book.put(&self.who, "step_done", e.id.to_string(), js(&e));
      end(&self.fails, "step_done")
    }
    async fn on_job_completed(&self, e: JobRunResult) -> HookNoopResult {
      pause(&self.who, &self.book).await;
      self.book.put(&self.who, "job_done", e.id.to_string(), js(&e));
      end(&self.fails, "job_done")
    }
    async fn on_workflow_completed(&self, e: WorkflowRunResult) -> HookNoopResult {
      pause(&self.who, &self.book).await;
      self.book.put(&self.who, "workflow_done", e.id.to_string(), js(&e));
      end(&self.fails, "workflow_done")
    }
    async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult {
      pause(&self.who, &self.book).await;
      self.book.put(&self.who, "before", s.id.to_string(), js(&s));
      end(&self.fails, "before")?;
      let mut s = s;
      if let Some(t) = &self.append {
        edit(&mut s, t);
      }
      Ok(s)
    }
}
  };
}

/// A plugin that records its calls.
#[derive(Clone)]
pub struct Spy {
  pub who: String,
  pub book: Book,
  pub fails: Option<Fails>,
  /// added to the text of a step before it runs
  pub append: Option<String>,
}
impl Spy {
  pub fn new(who: &str, book: &Book) -> Spy {
    Spy { who: who.into(), book: book.clone(), fails: None, append: None }
  }
}
hooks!(Plugin for Spy {
  fn name(&self) -> &'static str {
    "spy"
  }
});

/// A runner that records its calls and does what the text of the step says: instructions
/// separated by `;`: `l<text>` log, `e<text>` error line, `d<ms>` delay, `r` refuse the step,
/// `w<ms>` wait that long for a signal (recorded), `ok`, `f<code>`, `c` the result.
#[derive(Clone)]
pub struct SpyRunner {
  pub who: String,
  pub book: Book,
  pub fails: Option<Fails>,
  pub append: Option<String>,
}
impl SpyRunner {
  pub fn new(who: &str, book: &Book) -> SpyRunner {
    SpyRunner { who: who.into(), book: book.clone(), fails: None, append: None }
  }
}
hooks!(Runner for SpyRunner {
  async fn run(&self, c: Context) -> RunResponse {
    let mut arg = js(&c.command);
    arg["_event"] = js(&c.event);
    arg["_payload"] = js(&c.payload);
    self.book.put(&self.who, "run", c.id.to_string(), arg);
    let prog: Vec<String> = c.command.run.split(';').map(|s| s.to_string()).collect();
    if prog.iter().any(|p| p == "r") {
      return Err(Error::error("refused"));
    }
    let (tx, rx) = stream();
    let book = self.book.clone();
    let who = self.who.clone();
    let go = async move {
      for p in prog {
        let (k, rest) = p.split_at(if p.is_char_boundary(1) && !p.is_empty() { 1 } else { 0 });
        match k {
          "l" => tx.log(rest),
          "e" => tx.error(rest),
          "d" => tokio::time::sleep(Duration::from_millis(rest.parse().unwrap_or(0))).await,
          "w" => {
            let t = Duration::from_millis(rest.parse().unwrap_or(0));
            match tokio::time::timeout(t, c.signal.recv()).await {
              Ok(s) => book.put(&who, "signal", c.id.to_string(), Value::String(format!("{:?}", s == Signal::Cancel))),
              Err(_) => book.put(&who, "no_signal", c.id.to_string(), Value::Null),
            }
          }
          "o" => tx.end(RunResult::Succeeded),
          "f" => tx.end(RunResult::Failed { exit_code: rest.parse().unwrap_or(1) }),
          "c" => tx.end(RunResult::Cancelled),
          _ => {}
        }
      }
      book.put(&who, "end", c.id.to_string(), Value::Null);
    };
    tokio::spawn(go);
    Ok(rx)
  }
});

pub fn state_name(s: &WorkflowState) -> String {
  js(s).as_str().unwrap_or("").to_string()
}

/// what a before hook does with a step: the text is appended, other parts change with its last character
pub fn edit(s: &mut Step, t: &str) {
  s.run.push_str(t);
  match t.chars().last() {
    Some('0') => {
      s.environments.clear();
      s.timeout = std::time::Duration::from_secs(s.timeout.as_secs() / 2);
      s.continue_on_error = !s.continue_on_error;
    }
    Some('1') => {
      s.environments.insert("ADDED".into(), EnvironmentVariable::from(t));
      s.secrets.clear();
    }
    Some('2') => {
      s.name = Some(t.into());
      s.container = None;
    }
    Some('3') => {
      s.timeout = std::time::Duration::from_secs(s.timeout.as_secs() + 7);
      s.environments.insert("K".into(), EnvironmentVariable::from(3.0));
    }
    Some('9') => {
      s.name = None;
      s.timeout = s.timeout + std::time::Duration::from_secs(5000);
      s.on = Some(Condition::Event(vec![t.into()]));
      s.environments.clear();
      s.secrets.push(t.into());
      s.container = Some(ContainerOptions { name: t.into(), volumes: None, security_opts: Some(vec![]) });
    }
    _ => {}
  }
}
