use astro_run::*;
use harness::H;
use std::collections::HashMap;
use std::time::Duration;

struct R;
#[async_trait]
impl Runner for R {
  async fn run(&self, _c: Context) -> RunResponse {
    let (tx, rx) = stream();
    tx.succeeded();
    Ok(rx)
  }
}

/// the action's name says what it does: p = has a pre step, q = has a post step, n = expands to
/// another action, a and z = its pre or post step is an action, f = fails; the prefix says who provides it
#[derive(Clone)]
struct A(String);
fn cmd(run: String, s: &UserActionStep) -> UserStep {
  UserStep::Command(UserCommandStep {
    run: format!("{} with {}", run, serde_json::to_string(&s.with).unwrap()),
    name: s.name.clone(),
    timeout: s.timeout.clone(),
    environments: s.environments.clone(),
    secrets: s.secrets.clone(),
    continue_on_error: s.continue_on_error,
    on: s.on.clone(),
    container: None,
  })
}
/// the three steps of an action differ in all of their settings, as the action pleases
fn vary(step: UserStep, k: usize) -> UserStep {
  let mut c = match step {
    UserStep::Command(c) => c,
    s => return s,
  };
  let mut r = harness::Rng(c.run.bytes().fold(k as u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)));
  match r.below(3) {
    0 => return UserStep::Command(c),
    1 => c.container = Some(Container::Name(format!("image{}", k))),
    _ => c.container = Some(Container::Options(ContainerOptions { name: format!("image{}", k), volumes: Some(vec!["/v:/w".into()]), security_opts: None })),
  }
  c.name = Some(format!("{} of it", k)).filter(|_| r.chance(1, 2));
  c.timeout = Some(format!("{}m", [10, 60][r.below(2)])).filter(|_| r.chance(2, 3));
  c.continue_on_error = [None, Some(true), Some(false)][r.below(3)];
  c.secrets = Some(vec![format!("S{}", k), "S1".into()]).filter(|_| r.chance(1, 2));
  c.environments = Some([(format!("E{}", k), EnvironmentVariable::Boolean(true))].into_iter().collect()).filter(|_| r.chance(1, 2));
  c.on = Some(Condition::Event(vec![["push", "pull_request"][r.below(2)].into()])).filter(|_| r.chance(1, 3));
  UserStep::Command(c)
}
fn expand(who: &str, s: &UserActionStep) -> Option<ActionSteps> {
  let k = s.uses.split('-').next().unwrap_or("").to_string();
  if k.contains('f') {
    return None;
  }
  let nested = UserStep::Action(UserActionStep { uses: "r_p".into(), ..Default::default() });
  let nest = |c| if k.contains(c) { Some(nested.clone()) } else { None };
  Some(ActionSteps {
    pre: nest('a').or(if k.contains('p') { Some(vary(cmd(format!("pre {} {}", who, s.uses), s), 0)) } else { None }),
    run: nest('n').unwrap_or(vary(cmd(format!("run {} {}", who, s.uses), s), 1)),
    post: nest('z').or(if k.contains('q') { Some(vary(cmd(format!("post {} {}", who, s.uses), s), 2)) } else { None }),
  })
}
impl Action for A {
  fn normalize(&self, s: UserActionStep) -> astro_run::Result<ActionSteps> {
    expand(&self.0, &s).ok_or(Error::error("refused"))
  }
}

const KINDS: [&str; 9] = ["o", "p", "q", "pq", "pq", "n", "f", "qa", "pz"];
fn registered() -> Vec<String> {
  KINDS.iter().map(|k| format!("{}-reg", k)).collect()
}
/// plugin k provides the names that end in a digit <= its number; plugin 0 fails for all others
struct P(usize);
#[async_trait]
impl Plugin for P {
  fn name(&self) -> &'static str {
    "p"
  }
  async fn on_resolve_dynamic_action(&self, s: UserActionStep) -> HookResolveActionResult {
    match provides(self.0, &s.uses) {
      1 => Ok(Some(Box::new(A(format!("plugin{}", self.0))))),
      0 => Ok(None),
      _ => Err(Error::error("no")),
    }
  }
}
fn provides(k: usize, name: &str) -> i32 {
  let d: Option<usize> = name.split('-').nth(1).and_then(|x| x.strip_prefix("dyn")).and_then(|x| x.parse().ok());
  match d {
    Some(d) if d <= k => 1,
    _ if k == 0 => 2,
    _ => if name.ends_with("reg") { 1 } else { 0 },
  }
}

/// in milliseconds
const TIMES: [(&str, Option<u64>); 10] = [("10m", Some(600000)), ("1h 30m", Some(5400000)), ("5s", Some(5000)), ("2days", Some(172800000)), ("60m", Some(3600000)), ("0s", Some(0)), ("250ms", Some(250)), ("1ss", None), ("", None), ("ten", None)];

fn opt<T>(h: &mut H, f: impl FnOnce(&mut H) -> T) -> Option<T> {
  if h.rng.chance(1, 2) { Some(f(h)) } else { None }
}
/// some of these, in any order, possibly one of them twice
fn list(h: &mut H, of: &[&str]) -> Vec<String> {
  (0..h.rng.below(5)).map(|_| h.rng.pick(of).to_string()).collect()
}
fn env(h: &mut H) -> EnvironmentVariables {
  let mut m = HashMap::new();
  for _ in 0..h.rng.below(3) {
    let k = h.rng.pick(&["A", "B", "C"]).to_string();
    let v = match h.rng.below(4) {
      0 => EnvironmentVariable::Number(h.rng.below(100) as f64 / 4.0),
      1 => EnvironmentVariable::Boolean(h.rng.chance(1, 2)),
      _ => EnvironmentVariable::String(h.rng.pick(&["x", "true", "1", "a b", "", "$X \"q\""]).to_string()),
    };
    m.insert(k, v);
  }
  m
}
fn cond(h: &mut H) -> Condition {
  if h.rng.chance(1, 3) {
    let words = |h: &mut H| if h.rng.chance(1, 2) { Some(list(h, &["main", "dev/*", "**", "main"])) } else { None };
    let push = opt(h, |h| PushCondition { branches: words(h), paths: words(h) });
    let pull_request = opt(h, |h| PullRequestCondition { branches: words(h), paths: words(h) });
    return Condition::Config(ConditionConfig { push, pull_request });
  }
  Condition::Event(list(h, &["push", "pull_request", "other"]))
}
fn container(h: &mut H) -> Container {
  if h.rng.chance(1, 2) {
    Container::Name(h.rng.pick(&["alpine", "host/linux", "ubuntu:20", "", " "]).to_string())
  } else {
    Container::Options(ContainerOptions { name: h.rng.pick(&["alpine", "node", ""]).to_string(), volumes: opt(h, |h| list(h, &["/a:/b", "/c:/d", "/a:/b:ro", "/a", ""])), security_opts: opt(h, |h| list(h, &["x=y", "z", "x=w", ""])) })
  }
}
fn timeout(h: &mut H) -> Option<String> {
  if h.rng.chance(1, 2) {
    let n = if h.rng.chance(1, 12) { 10 } else { 7 };
    Some(TIMES[h.rng.below(n)].0.to_string())
  } else {
    None
  }
}
fn command(h: &mut H, k: usize) -> UserCommandStep {
  UserCommandStep {
    name: opt(h, |h| if h.rng.chance(1, 6) { h.rng.pick(&["", " ", " a b "]).to_string() } else { format!("name {}", k) }),
    container: opt(h, container),
    run: match h.rng.below(8) {
      0 => h.rng.pick(&["", " ", "  x  ", "x\n\n", "\n x", "true", "7"]).to_string(),
      _ => format!("echo {} \"$X\"\nsecond", k),
    },
    on: opt(h, cond),
    continue_on_error: opt(h, |h| h.rng.chance(1, 2)),
    environments: opt(h, env),
    secrets: opt(h, |h| list(h, &["S2", "S1", "s1", "S10"])),
    timeout: timeout(h),
  }
}
fn action(h: &mut H, k: usize) -> UserActionStep {
  let kind = KINDS[if h.rng.chance(1, 10) { h.rng.below(9) } else { h.rng.below(5) }];
  let src = match h.rng.below(12) {
    0 => "none",
    1 | 2 => "dyn0",
    3 | 4 => "dyn1",
    5 | 6 => "dyn2",
    _ => "reg",
  };
  let mut uses = format!("{}-{}", kind, src);
  // almost the name of an action
  if h.rng.chance(1, 25) {
    uses = match h.rng.below(7) {
      0 => format!("{}@v1", uses),
      1 => format!(" {}", uses),
      2 => uses.to_uppercase(),
      3 => format!("{} ", uses),
      4 => format!("actions/{}", uses),
      5 => format!("{}:latest", uses),
      _ => uses.replace('-', "_"),
    };
  }
  UserActionStep {
    name: opt(h, |_| format!("action {}", k)),
    uses,
    with: opt(h, |h| match h.rng.below(4) {
      0 => serde_yaml::Value::from("text"),
      1 => serde_yaml::Value::from(7),
      2 => serde_yaml::Value::from(vec!["a", "", "b"]),
      _ => serde_yaml::from_str("{a: 1, b: [true, x], c: {d: null}}").unwrap(),
    }),
    on: opt(h, cond),
    continue_on_error: opt(h, |h| h.rng.chance(1, 2)),
    environments: opt(h, env),
    secrets: opt(h, |h| list(h, &["S2", "S1", "s1", "S10"])),
    timeout: timeout(h),
  }
}

/// the documented form of a configuration, without the settings that are not made
fn doc(u: &UserWorkflow) -> serde_json::Value {
  use serde_json::{json, Map, Value};
  fn put(m: &mut Map<String, Value>, k: &str, v: Option<Value>) {
    if let Some(v) = v {
      m.insert(k.into(), v);
    }
  }
  fn words(v: &Option<Vec<String>>) -> Option<Value> {
    v.as_ref().map(|v| json!(v))
  }
  fn text(v: &Option<String>) -> Option<Value> {
    v.as_ref().map(|v| json!(v))
  }
  fn cond(c: &Option<Condition>) -> Option<Value> {
    c.as_ref().map(|c| match c {
      Condition::Event(v) => json!(v),
      Condition::Config(c) => {
        let mut m = Map::new();
        for (k, x) in [("push", c.push.as_ref().map(|p| (&p.branches, &p.paths))), ("pull_request", c.pull_request.as_ref().map(|p| (&p.branches, &p.paths)))] {
          if let Some((b, p)) = x {
            let mut n = Map::new();
            put(&mut n, "branches", words(b));
            put(&mut n, "paths", words(p));
            m.insert(k.into(), Value::Object(n));
          }
        }
        Value::Object(m)
      }
    })
  }
  fn container(c: &Option<Container>) -> Option<Value> {
    c.as_ref().map(|c| match c {
      Container::Name(n) => json!(n),
      Container::Options(o) => {
        let mut m = Map::new();
        m.insert("name".into(), json!(o.name));
        put(&mut m, "volumes", words(&o.volumes));
        put(&mut m, "security-opts", words(&o.security_opts));
        Value::Object(m)
      }
    })
  }
  fn env(e: &Option<EnvironmentVariables>) -> Option<Value> {
    e.as_ref().map(|e| Value::Object(e.iter().map(|(k, v)| (k.clone(), match v {
      EnvironmentVariable::String(s) => json!(s),
      EnvironmentVariable::Number(n) => json!(n),
      EnvironmentVariable::Boolean(b) => json!(b),
    })).collect()))
  }
  let mut jobs = Map::new();
  for (key, j) in &u.jobs {
    let mut m = Map::new();
    put(&mut m, "name", text(&j.name));
    put(&mut m, "container", container(&j.container));
    put(&mut m, "working-directories", words(&j.working_dirs));
    put(&mut m, "on", cond(&j.on));
    put(&mut m, "depends-on", words(&j.depends_on));
    let steps: Vec<Value> = j.steps.iter().map(|s| {
      let mut m = Map::new();
      let (name, on, cont, envs, secrets, timeout) = match s {
        UserStep::Command(c) => {
          m.insert("run".into(), json!(c.run));
          put(&mut m, "container", container(&c.container));
          (&c.name, &c.on, &c.continue_on_error, &c.environments, &c.secrets, &c.timeout)
        }
        UserStep::Action(a) => {
          m.insert("uses".into(), json!(a.uses));
          put(&mut m, "with", a.with.as_ref().map(|w| serde_json::to_value(w).unwrap()));
          (&a.name, &a.on, &a.continue_on_error, &a.environments, &a.secrets, &a.timeout)
        }
      };
      put(&mut m, "name", text(name));
      put(&mut m, "on", cond(on));
      put(&mut m, "continue-on-error", cont.map(|c| json!(c)));
      put(&mut m, "environments", env(envs));
      put(&mut m, "secrets", words(secrets));
      put(&mut m, "timeout", text(timeout));
      Value::Object(m)
    }).collect();
    m.insert("steps".into(), Value::Array(steps));
    jobs.insert(key.clone(), Value::Object(m));
  }
  let mut m = Map::new();
  put(&mut m, "name", text(&u.name));
  put(&mut m, "on", cond(&u.on));
  m.insert("jobs".into(), Value::Object(jobs));
  Value::Object(m)
}

fn expected(u: &UserWorkflow, id: &str) -> Option<serde_json::Value> {
  let mut jobs = HashMap::new();
  for (key, j) in &u.jobs {
    let (mut pre, mut mid, mut post) = (vec![], vec![], vec![]);
    for s in &j.steps {
      match s {
        UserStep::Command(_) => mid.push(s.clone()),
        UserStep::Action(a) => {
          let who = if registered().contains(&a.uses) {
            "registered".to_string()
          } else {
            let k = (0..3).find(|k| provides(*k, &a.uses) == 1)?;
            format!("plugin{}", k)
          };
          let x = expand(&who, a)?;
          pre.extend(x.pre);
          mid.push(x.run);
          if let Some(p) = x.post {
            post.insert(0, p);
          }
        }
      }
    }
    let mut steps = vec![];
    for (n, s) in pre.into_iter().chain(mid).chain(post).enumerate() {
      let c = match s {
        UserStep::Command(c) => c,
        _ => return None,
      };
      let t = c.timeout.clone().unwrap_or("60m".into());
      let ms = TIMES.iter().find(|x| x.0 == t)?.1?;
      let cont = c.container.clone().or(j.container.clone()).map(|c| match c {
        Container::Options(o) => o,
        Container::Name(n) => ContainerOptions { name: n, volumes: None, security_opts: None },
      });
      steps.push(Step {
        id: StepId::new(id, key.as_str(), n),
        name: c.name,
        on: c.on,
        container: cont,
        run: c.run,
        continue_on_error: c.continue_on_error == Some(true),
        environments: c.environments.unwrap_or_default(),
        secrets: c.secrets.unwrap_or_default(),
        timeout: Duration::from_millis(ms),
      });
    }
    jobs.insert(key.clone(), Job { id: JobId::new(id, key.as_str()), name: j.name.clone(), on: j.on.clone(), steps, depends_on: j.depends_on.clone().unwrap_or_default(), working_directories: j.working_dirs.clone().unwrap_or_default() });
  }
  Some(serde_json::to_value(Workflow { id: WorkflowId::new(id), name: u.name.clone(), on: u.on.clone(), jobs }).unwrap())
}

fn main() {
  let mut h = H::start();
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  rt.block_on(async {
    let mut b = AstroRun::builder().runner(R);
    for n in registered() {
      b = b.action(n, A("registered".into()));
    }
    for k in 0..3 {
      b = b.plugin(P(k));
    }
    let astro = b.build();
    let n = h.n(6000, 120000);
    for k in 0..n {
      let nj = 1 + h.rng.below(3);
      let mut jobs = HashMap::new();
      for j in 0..nj {
        let steps = (0..1 + h.rng.below(5)).map(|i| if h.rng.chance(1, 3) { UserStep::Action(action(&mut h, i)) } else { UserStep::Command(command(&mut h, i)) }).collect();
        let mut deps: Vec<String> = (0..j).rev().filter(|_| h.rng.chance(1, 2)).map(|x| format!("job{}", x)).collect();
        if !deps.is_empty() && h.rng.chance(1, 4) {
          deps.push(deps[0].clone());
        }
        jobs.insert(format!("job{}", j), UserJob { name: opt(&mut h, |_| format!("Job {}", j)), container: opt(&mut h, container), working_dirs: opt(&mut h, |h| list(h, &["/w", "/x", "a b", ""])), steps, on: opt(&mut h, cond), depends_on: if deps.is_empty() && j % 2 == 0 { None } else { Some(deps) } });
      }
      let u = UserWorkflow { name: opt(&mut h, |_| "wf".into()), on: opt(&mut h, cond), jobs };
      // as block text, as flow text, or as the library itself writes it
      let y = match k % 4 {
        0 => serde_yaml::to_string(&u).unwrap(),
        1 => doc(&u).to_string(),
        _ => serde_yaml::to_string(&doc(&u)).unwrap(),
      };
      let id = format!("id{}", k);
      let got = Workflow::builder().id(id.clone()).config(y.clone()).build(&astro).await;
      let want = expected(&u, &id);
      let g = got.as_ref().ok().map(|w| serde_json::to_value(w).unwrap());
      h.count("configurations");
      if want.is_some() {
        h.count("nontrivial");
      }
      if !h.check(g == want, || format!("configuration:\n{}\nexpanded to {}\nexpected {}", y, g.map(|x| x.to_string()).unwrap_or("an error".into()), want.map(|x| x.to_string()).unwrap_or("an error".into()))) {
        return;
      }
      h.sample(y.chars().take(400).collect::<String>());
    }
    // without an id the workflow gets a fresh one
    let y = "jobs:\n  a:\n    steps:\n      - run: x\n";
    let a = Workflow::builder().config(y).build(&astro).await.unwrap();
    let b = Workflow::builder().config(y).build(&astro).await.unwrap();
    h.check(a.id != b.id && a.jobs["a"].id.workflow_id() == a.id && a.jobs["a"].steps[0].id.workflow_id() == a.id, || "fresh workflow ids".into());
  });
  h.done()
}
