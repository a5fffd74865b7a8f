//! C16: the real local runner, with processes on the host and a stand-in for docker that runs the
//! mounted script; signals at any point and faults.
use astro_run::*;
use astro_runner::{AstroRunner, Plugin};
use harness::local::*;
use harness::{Rng, H};
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio_stream::StreamExt;

#[derive(Clone, Copy, PartialEq, Debug)]
enum When {
  Never,
  Before,
  Start,
  Later(u64),
  /// when the script has begun, which goes on for much longer
  Running,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
  None,
  /// the path of the entrypoint is taken by a directory
  Entry,
  /// the directory of the job is taken by a file
  File,
  /// the script removes its own directory
  Gone,
  /// the process cannot be started
  Spawn,
}
#[derive(Clone)]
struct Case {
  k: usize,
  ctx: Context,
  /// what a plugin changes the container to
  swap: Option<Option<ContainerOptions>>,
  when: When,
  timeout: bool,
  both: bool,
  fault: Fault,
  code: i32,
}
fn host_names() -> [String; 2] {
  [format!("host/{}", std::env::consts::OS), format!("host/{}-{}", std::env::consts::OS, std::env::consts::ARCH)]
}
fn container(r: &mut Rng) -> Option<ContainerOptions> {
  let [a, b] = host_names();
  let name = match r.below(16) {
    0..=3 => a,
    4..=6 => b,
    7 => "host".into(),
    8 => "host/".into(),
    9 => format!("{}-", a),
    10 => format!("{}x", b),
    11 => r.pick(&["host/windows", "host/macos", "host/windows-x86_64", "host/linux-aarch64", "host/linux-arm", "host/freebsd"]).to_string(),
    12 => r.pick(&[a.to_uppercase(), b.replace("host/", "Host/"), format!("x{}", a), b.replace("host/", ""), format!("{}/x", a), format!("registry/{}", b)]).clone(),
    13 => return None,
    14 => r.pick(&["ubuntu", "host/ubuntu", "node:18", "myhost/linux"]).to_string(),
    _ => format!("host/{}", plain(r, 5)),
  };
  if [0, 1].iter().any(|i| name == host_names()[*i]) && std::env::consts::OS != "linux" {
    return None;
  }
  Some(ContainerOptions { name, volumes: None, security_opts: None })
}
fn on_host(c: &Option<ContainerOptions>) -> bool {
  c.as_ref().map_or(false, |c| host_names().contains(&c.name))
}
fn case(r: &mut Rng, k: usize, wf: &str, ev: Option<TriggerEvent>, slow: bool) -> Case {
  let code = if r.chance(1, 2) { 0 } else { 1 + r.below(200) as i32 };
  let fault = if slow { Fault::None } else { match r.below(12) { 0 => Fault::Entry, 1 => Fault::File, 2 => Fault::Gone, 3 => Fault::Spawn, _ => Fault::None } };
  let when = if slow { When::Running } else { match r.below(8) { 0 => When::Before, 1 => When::Start, 2 | 3 => When::Later(r.below(60) as u64), _ => When::Never } };
  let c = container(r);
  let swap = if r.chance(1, 6) { Some(container(r)) } else { None };
  let host = on_host(swap.as_ref().unwrap_or(&c));
  // a job of these faults has only this step
  let job = if matches!(fault, Fault::File | Fault::Gone) { format!("f{}", k) } else { r.pick(&["a", "b", "data", "caches", "a.b", "1"]).to_string() };
  let id = StepId::new(wf, job, k);
  let mut s = format!("echo x >> \"$VERIF_LAB/out/{}.ran\"\npwd\n", k);
  if slow {
    s.push_str("sleep 6\n");
  } else if r.chance(1, 3) {
    s.push_str(&format!("sleep 0.0{}\n", r.below(8)));
  }
  if r.chance(1, 4) {
    s.push_str("ln -sfn \"$VERIF_LAB/decoy\" link; mkdir -p sub/sub; echo f > sub/sub/f\n");
  }
  if r.chance(1, 8) {
    s.push_str("yes | head -3000\n");
  }
  if fault == Fault::Gone {
    s.push_str(if host { "rm -rf \"$PWD\"\n" } else { "rm -rf \"$(dirname \"$VERIF_ENTRY\")\"\n" });
  }
  s.push_str(&format!("exit {}", code));
  let mut envs: HashMap<String, EnvironmentVariable> = HashMap::new();
  if fault == Fault::Spawn {
    envs.insert("A".into(), EnvironmentVariable::String("x\0y".into()));
  }
  Case { k, ctx: step(id, &s, c, envs, ev), swap, when, timeout: r.chance(1, 2), both: r.chance(1, 6), fault, code }
}

type Seen = Arc<Mutex<HashMap<usize, Vec<&'static str>>>>;
struct P {
  name: &'static str,
  fail: bool,
  swaps: Option<Arc<HashMap<usize, Option<ContainerOptions>>>>,
  seen: Seen,
}
#[astro_run::async_trait]
impl Plugin for P {
  fn name(&self) -> &'static str {
    self.name
  }
  async fn on_before_run(&self, mut ctx: Context) -> Result<Context> {
    if self.fail {
      return Err(Error::error("before"));
    }
    if let Some(s) = &self.swaps {
      if let Some(c) = s.get(&ctx.id.step_number()) {
        ctx.command.container = c.clone();
      }
    }
    Ok(ctx)
  }
  async fn on_after_run(&self, ctx: Context) -> HookNoopResult {
    self.seen.lock().unwrap().entry(ctx.id.step_number()).or_default().push(self.name);
    if self.fail {
      return Err(Error::error("after"));
    }
    Ok(())
  }
}
fn shown(c: &Case) -> String {
  format!(
    "step {}, container {:?}, changed by a plugin to {:?}, signal {:?} ({}), fault {:?}, exit code {}",
    c.ctx.command.id.to_string(), c.ctx.command.container.as_ref().map(|o| &o.name), c.swap.as_ref().map(|s| s.as_ref().map(|o| &o.name)), c.when, if c.timeout { "timeout" } else { "cancel" }, c.fault, c.code
  )
}
fn signal(c: &Case) {
  let s = &c.ctx.signal;
  for (i, t) in [c.timeout, !c.timeout].iter().enumerate() {
    if i == 0 || c.both {
      if *t { s.timeout().ok(); } else { s.cancel().ok(); }
    }
  }
}
async fn one(c: Case, lab: &Lab, runner: &AstroRunner, seen: &Seen, h: &H) {
  let id = c.ctx.command.id.clone();
  let mut root = lab.work();
  if let Some(e) = &c.ctx.event {
    root = root.join(&e.repo_owner).join(&e.repo_name);
  }
  let job = root.join(id.workflow_id().inner()).join(id.job_key());
  let dir = job.join(id.step_number().to_string());
  let host = on_host(c.swap.as_ref().unwrap_or(&c.ctx.command.container));
  match c.fault {
    Fault::Entry => std::fs::create_dir_all(dir.join("entrypoint")).unwrap(),
    Fault::File => {
      std::fs::create_dir_all(job.parent().unwrap()).unwrap();
      std::fs::write(&job, "").unwrap();
    }
    _ => {}
  }
  if c.when == When::Before {
    signal(&c);
  }
  let mut rx = match runner.run(c.ctx.clone()).await {
    Ok(rx) => rx,
    Err(e) => return h.fail(format!("C16 the runner refused the step ({}); {}", e, shown(&c))),
  };
  if c.when == When::Start {
    signal(&c);
  }
  if let When::Later(ms) = c.when {
    let c = c.clone();
    tokio::spawn(async move {
      tokio::time::sleep(Duration::from_millis(ms)).await;
      signal(&c);
    });
  }
  let mut logs = vec![];
  let mut told = false;
  let all = tokio::time::timeout(Duration::from_secs(60), async {
    while let Some(l) = rx.next().await {
      if c.when == When::Running && !told {
        told = true;
        signal(&c);
      }
      logs.push(l.message);
    }
  })
  .await;
  if !h.check(all.is_ok(), || format!("C16 the stream of the step did not end; {}", shown(&c))) {
    return;
  }
  let res = rx.result();
  let by_signal = if c.timeout { RunResult::Failed { exit_code: 123 } } else { RunResult::Cancelled };
  let natural = if c.code == 0 { RunResult::Succeeded } else { RunResult::Failed { exit_code: c.code } };
  // the hooks
  for _ in 0..3000 {
    if seen.lock().unwrap().get(&c.k).map_or(0, |v| v.len()) >= 3 {
      break;
    }
    tokio::time::sleep(Duration::from_millis(10)).await;
  }
  tokio::time::sleep(Duration::from_millis(2)).await;
  let hooks = seen.lock().unwrap().get(&c.k).cloned().unwrap_or_default();
  h.check(hooks == ["first", "failing", "last"], || format!("C16 the after-run hooks that were called are {:?}, expected each of [first, failing, last] once; {}", hooks, shown(&c)));
  let ran = std::fs::read_to_string(lab.out(&format!("{}.ran", c.k))).map_or(0, |s| s.lines().count());
  let name = format!("{}-{}-{}", id.workflow_id().inner(), id.job_key(), id.step_number());
  let in_docker = lab.out(&format!("{}.args", name)).exists();
  if c.when == When::Before {
    h.count("signalled-before");
    h.check(ran == 0 && !in_docker, || format!("C16 a step that was signalled before it started was executed; {}", shown(&c)));
    h.check(res == Some(by_signal.clone()), || format!("C16 a step that was signalled before it started ended with {:?}; {}", res, shown(&c)));
    return;
  }
  h.check(ran <= 1, || format!("C16 the command of a step was run {} times; {}", ran, shown(&c)));
  h.check(ran == 0 || in_docker != host, || format!("C16 the step was run {}; {}", if in_docker { "in a container" } else { "on the host" }, shown(&c)));
  if !host && c.fault != Fault::File && (c.fault != Fault::Entry || c.when == When::Never) {
    h.check(!dir.exists(), || format!("C16 the temporary directory of the step still exists: {:?}; {}", tree(&dir), shown(&c)));
  }
  let failing = match c.fault {
    Fault::Entry => !host,
    Fault::File => true,
    Fault::Spawn => true,
    _ => false,
  };
  let blocked = failing && c.when == When::Never;
  let ok = match &res {
    None => false,
    Some(_) if failing => ran == 0 && matches!(res, Some(RunResult::Failed { .. }) | Some(RunResult::Cancelled)) && (!blocked || !matches!(res, Some(RunResult::Cancelled))),
    Some(r) if c.when == When::Never => *r == natural && ran == 1,
    Some(r) if c.when == When::Running => told && *r == by_signal,
    Some(r) => *r == by_signal || (*r == natural && ran == 1),
  };
  h.check(ok, || format!("C16 the step ended with {:?} (executed {} times, output {:?}); {}", res, ran, logs.iter().take(3).collect::<Vec<_>>(), shown(&c)));
  if c.when == When::Running {
    h.check(host || lab.out(&format!("{}.killed", name)).exists(), || format!("C16 the container of a step that was signalled while it ran was not killed; {}", shown(&c)));
  }
  h.check(c.when != When::Never || !lab.out(&format!("{}.killed", name)).exists(), || format!("C16 the container of a step that was not signalled was killed; {}", shown(&c)));
  if ran == 1 && c.when == When::Never {
    let want = job.join("data");
    h.check(logs.first().map(|s| s.as_str()) == want.to_str(), || format!("C16 the step was run in the directory {:?} and not in {:?}; {}", logs.first(), want, shown(&c)));
  }
  h.count(if host { "on-host" } else { "in-container" });
  h.count(&format!("fault-{:?}", c.fault));
  h.count(&format!("end-{}", match &res { Some(RunResult::Succeeded) => "succeeded", Some(RunResult::Cancelled) => "cancelled", Some(RunResult::Failed { exit_code: 123 }) => "timed-out", Some(RunResult::Failed { .. }) => "failed", None => "none" }));
}
fn main() {
  let mut h = H::start();
  let lab = Arc::new(Lab::new("c16", true));
  std::fs::create_dir_all(lab.dir.join("decoy")).unwrap();
  std::fs::write(lab.dir.join("decoy/keep"), "kept").unwrap();
  let n = h.n(110, 600);
  let mut cases = vec![];
  let mut flows: Vec<(String, Option<TriggerEvent>, bool)> = vec![];
  for w in 0..n {
    // names that are prefixes of each other, and repositories whose names look like directories of others
    let wf = format!("{}{}", h.rng.pick(&["w", "x", "caches", "data-", "w-"]), w);
    let ev = match h.rng.below(4) {
      0 => None,
      1 => Some(event("owner", "repo")),
      2 => Some(event(&wf, "repo")),
      _ => Some(event(&plain(&mut h.rng, 3), &plain(&mut h.rng, 3))),
    };
    let started = w % 9 != 8;
    flows.push((wf.clone(), ev.clone(), started));
    if started {
      for _ in 0..1 + h.rng.below(7) {
        let k = cases.len();
        let slow = k % 90 == 7;
        cases.push(case(&mut h.rng, k, &wf, ev.clone(), slow));
      }
    }
  }
  // where the script of a container lies
  for c in cases.iter_mut() {
    let id = &c.ctx.command.id;
    let mut root = lab.work();
    if let Some(e) = &c.ctx.event {
      root = root.join(&e.repo_owner).join(&e.repo_name);
    }
    let e = root.join(id.workflow_id().inner()).join(id.job_key()).join(id.step_number().to_string()).join("entrypoint");
    c.ctx.command.run = c.ctx.command.run.replace("$VERIF_ENTRY", e.to_str().unwrap());
  }
  let swaps: HashMap<usize, Option<ContainerOptions>> = cases.iter().filter_map(|c| c.swap.clone().map(|s| (c.k, s))).collect();
  let seen: Seen = Default::default();
  let p = |name, fail, swaps: Option<HashMap<usize, Option<ContainerOptions>>>| P { name, fail, swaps: swaps.map(Arc::new), seen: seen.clone() };
  let runner = AstroRunner::builder()
    .plugin(p("first", false, Some(swaps)))
    .plugin(p("failing", true, None))
    .working_directory(lab.work())
    .plugin(p("last", false, None))
    .build()
    .unwrap();
  let h = Arc::new(h);
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
  rt.block_on(async {
    let sem = Arc::new(tokio::sync::Semaphore::new(16));
    let mut ts = vec![];
    for c in cases.clone() {
      let (h, sem, lab, runner, seen) = (h.clone(), sem.clone(), lab.clone(), runner.clone(), seen.clone());
      ts.push(tokio::spawn(async move {
        let _p = sem.acquire_owned().await;
        if !h.failed() {
          one(c, &lab, &runner, &seen, &h).await;
        }
      }));
    }
    for t in ts {
      if t.await.is_err() {
        h.fail("C16 the runner panicked");
      }
    }
    if h.failed() {
      return;
    }
    // a command on the host goes on after its step was signalled
    lab.quiesce();
    // every file lies in the directory of its workflow and job
    let mut allowed: BTreeSet<String> = BTreeSet::new();
    let mut jobs: BTreeSet<String> = BTreeSet::new();
    for c in cases.iter().filter(|c| c.when != When::Before || matches!(c.fault, Fault::Entry | Fault::File)) {
      let id = &c.ctx.command.id;
      let mut parts: Vec<String> = vec![];
      if let Some(e) = &c.ctx.event {
        parts.extend([e.repo_owner.clone(), e.repo_name.clone()]);
      }
      parts.extend([id.workflow_id().inner(), id.job_key()]);
      for i in 1..=parts.len() {
        allowed.insert(parts[..i].join("/"));
      }
      jobs.insert(parts.join("/"));
    }
    for f in tree(&lab.work()) {
      let inside = jobs.iter().any(|j| f.starts_with(&format!("{}/", j)));
      h.check(inside || allowed.contains(&f), || format!("C16 {:?} was created, which is in no directory of a job that was run", f));
    }
    let states = [WorkflowState::Succeeded, WorkflowState::Failed, WorkflowState::Cancelled, WorkflowState::Skipped];
    // the workflows are finished one after the other
    for (wf, _, _) in &flows {
      // a directory of the same name where it does not belong
      for d in [lab.work().join("owner").join(wf), lab.work().join("other").join("repo").join(wf)] {
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("keep"), "x").unwrap();
      }
    }
    for (i, (wf, ev, started)) in flows.iter().enumerate() {
      let recorded = if *started { ev.clone() } else { None };
      if i % 4 == 1 {
        continue;
      }
      let mut dir = std::path::PathBuf::new();
      if let Some(e) = &recorded {
        dir = dir.join(&e.repo_owner).join(&e.repo_name);
        // without its repository
        let d = lab.work().join(wf);
        std::fs::create_dir_all(d.join("decoy")).unwrap();
      }
      let dir = dir.join(wf);
      let dir = dir.to_str().unwrap();
      let before = tree(&lab.work());
      let r = runner.on_workflow_completed(WorkflowRunResult { id: WorkflowId::new(wf.clone()), state: states[(i / 4) % 4].clone(), started_at: None, completed_at: None, jobs: HashMap::new() }).await;
      h.check(r.is_ok(), || format!("C16 finishing the workflow {} failed", wf));
      let after: BTreeSet<String> = tree(&lab.work()).into_iter().collect();
      let want: BTreeSet<String> = before.iter().filter(|f| *f != dir && !f.starts_with(&format!("{}/", dir))).cloned().collect();
      h.check(after == want, || {
        let left: Vec<_> = after.difference(&want).take(3).collect();
        let lost: Vec<_> = want.difference(&after).take(3).collect();
        format!("C16 finishing the workflow {} (recorded repository {:?}): not removed {:?}, removed although it belongs to others {:?}", wf, recorded.as_ref().map(|e| (&e.repo_owner, &e.repo_name)), left, lost)
      });
      h.count("workflow-finished");
      if before.iter().any(|f| f == dir) {
        h.count("workflow-directory-removed");
      }
    }
    // the same workflow is run again and again, for another repository or for none
    let again = h.n(12, 80);
    for w in 0..again {
      let mut r = Rng(w as u64 + 77);
      let wf = format!("again{}", r.below(3));
      for k in 0..2 + r.below(3) {
        let ev = match r.below(3) { 0 => None, 1 => Some(event("owner", "repo")), _ => Some(event("other", "repo")) };
        let mut dir = lab.work();
        if let Some(e) = &ev {
          dir = dir.join(&e.repo_owner).join(&e.repo_name);
        }
        let dir = dir.join(&wf);
        let host = Some(ContainerOptions { name: host_names()[0].clone(), volumes: None, security_opts: None });
        let c = step(StepId::new(wf.as_str(), "j", 10_000), "echo x > file", host, HashMap::new(), ev.clone());
        if let Ok(mut rx) = runner.run(c).await {
          while rx.next().await.is_some() {}
        }
        let what = || format!("workflow {}, run {} in repository {:?}", wf, k, ev.as_ref().map(|e| (&e.repo_owner, &e.repo_name)));
        h.check(dir.join("j/data/file").exists(), || format!("C16 {}: its file is not in its directory", what()));
        let before = tree(&lab.work());
        runner.on_workflow_completed(WorkflowRunResult { id: WorkflowId::new(wf.clone()), state: states[k % 4].clone(), started_at: None, completed_at: None, jobs: HashMap::new() }).await.ok();
        let rel = dir.strip_prefix(lab.work()).unwrap().to_str().unwrap().to_string();
        let after: BTreeSet<String> = tree(&lab.work()).into_iter().collect();
        let want: BTreeSet<String> = before.into_iter().filter(|f| *f != rel && !f.starts_with(&format!("{}/", rel))).collect();
        h.check(after == want, || format!("C16 {}: its directory was not removed, or others were: {:?}", what(), after.symmetric_difference(&want).take(4).collect::<Vec<_>>()));
        h.count("workflow-run-again");
      }
    }
    h.check(std::fs::read_to_string(lab.dir.join("decoy/keep")).is_ok(), || "C16 finishing a workflow removed files outside the working directory (behind a link)".into());
  });
  for c in cases.iter().take(4) {
    h.sample(shown(c));
  }
  lab.done();
  h.done()
}
