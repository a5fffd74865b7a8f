//! C11: random histories of scheduling, completion of steps and of jobs.
use astro_run::{AstroRunSignal, Command, ContainerOptions, Context, JobId, JobRunResult, StepId, StepRunResult, WorkflowState};
use astro_run_scheduler::{DefaultScheduler, RunnerMetadata, Scheduler};
use harness::{Rng, H};
use std::collections::HashMap;

const OSES: [&str; 4] = ["linux", "macos", "linux-x", ""];
const ARCHS: [&str; 4] = ["x64", "arm64", "x", ""];

fn runner(rng: &mut Rng, ids: usize) -> RunnerMetadata {
  RunnerMetadata {
    id: format!("r{}", rng.below(ids)),
    os: rng.pick(&OSES).to_string(),
    arch: rng.pick(&ARCHS).to_string(),
    support_docker: rng.chance(3, 5),
    support_host: rng.chance(1, 2),
    version: "1".into(),
    max_runs: rng.below(4) as i32,
  }
}
fn image(rng: &mut Rng) -> Option<String> {
  match rng.below(9) {
    0 | 1 => None,
    2 | 3 => Some("alpine".into()),
    4 => Some(rng.pick(&["host", "hosts/linux", "Host/linux", "x/host/linux", "/host/linux", ""]).to_string()),
    5 => Some(rng.pick(&["host/", "host/ linux", "host/linux-", "host/linux/x64", "host/linux-x64-x", "host/LINUX", "host/-"]).to_string()),
    6 => Some(format!("host/{}", rng.pick(&OSES))),
    _ => Some(format!("host/{}-{}", rng.pick(&OSES), rng.pick(&ARCHS))),
  }
}
fn context(id: StepId, image: &Option<String>) -> Context {
  Context {
    id: id.clone(),
    signal: AstroRunSignal::new(),
    command: Command { id, container: image.clone().map(|name| ContainerOptions { name, volumes: None, security_opts: None }), ..Default::default() },
    event: None,
    payload: None,
  }
}
fn is_host(image: &Option<String>) -> bool {
  image.as_ref().map(|n| n.starts_with("host/")).unwrap_or(false)
}
fn able(r: &RunnerMetadata, image: &Option<String>) -> bool {
  match image {
    Some(n) if n.starts_with("host/") => r.support_host && (*n == format!("host/{}", r.os) || *n == format!("host/{}-{}", r.os, r.arch)),
    _ => r.support_docker,
  }
}
#[derive(Default, Clone)]
struct Model {
  /// unfinished steps
  steps: HashMap<StepId, String>,
  jobs: HashMap<JobId, String>,
}
impl Model {
  fn load(&self, r: &str) -> usize {
    self.steps.values().filter(|x| *x == r).count()
  }
  fn same(&self, s: &DefaultScheduler) -> Result<(), String> {
    let st = s.state.lock().clone();
    let mut want: HashMap<String, i32> = HashMap::new();
    for r in self.steps.values() {
      *want.entry(r.clone()).or_insert(0) += 1;
    }
    if st.runs_count != want {
      return Err(format!("the loads are {:?}, unfinished steps {:?}", st.runs_count, want));
    }
    if st.step_runners != self.steps {
      return Err(format!("the assigned steps are {:?}, expected {:?}", st.step_runners, self.steps));
    }
    if st.job_runners != self.jobs {
      return Err(format!("the runners of the jobs are {:?}, expected {:?}", st.job_runners, self.jobs));
    }
    Ok(())
  }
}
fn step_result(id: StepId, state: WorkflowState) -> StepRunResult {
  StepRunResult { id, state, exit_code: None, started_at: None, completed_at: None }
}
fn job_result(id: JobId) -> JobRunResult {
  JobRunResult { id, state: WorkflowState::Succeeded, started_at: None, completed_at: None, steps: vec![] }
}
const STATES: [WorkflowState; 4] = [WorkflowState::Succeeded, WorkflowState::Failed, WorkflowState::Cancelled, WorkflowState::Skipped];

async fn history(h: &H, rng: &mut Rng, len: usize) {
  let s = DefaultScheduler::new();
  let mut m = Model::default();
  let mut log: Vec<String> = vec![];
  let ids = 1 + rng.below(6);
  let jobs = 1 + rng.below(3);
  let mut offered: Vec<RunnerMetadata> = (0..rng.below(6)).map(|_| runner(rng, ids)).collect();
  let mut images: Vec<Option<String>> = (0..jobs).map(|_| image(rng)).collect();
  for _ in 0..len {
    if rng.chance(1, 12) {
      offered = (0..rng.below(6)).map(|_| runner(rng, ids)).collect();
      log.push(format!("offer {:?}", offered.iter().map(|r| (&r.id, &r.os, &r.arch, r.support_docker, r.support_host)).collect::<Vec<_>>()));
    }
    let j = rng.below(jobs);
    if rng.chance(1, 5) {
      images[j] = image(rng);
    }
    // ids that differ only in the job, or only in the workflow
    let job = JobId::new(format!("w{}", j / 2), format!("j{}", j % 2));
    let step = StepId::new(format!("w{}", j / 2), format!("j{}", j % 2), rng.below(5));
    match rng.below(10) {
      0..=5 => {
        let img = images[j].clone();
        let last = m.jobs.get(&job).cloned();
        let r = s.schedule(&offered, &context(step.clone(), &img)).await;
        log.push(format!("schedule {} {:?} -> {:?}", step.to_string(), img, r.map(|r| &r.id)));
        h.count("scheduled");
        match r {
          None => {
            h.count("no runner");
            if offered.iter().any(|r| able(r, &img)) {
              h.fail(format!("no runner was chosen although one is able; offered {:?}, history {:?}", offered, log));
              return;
            }
          }
          Some(r) => {
            if !offered.iter().any(|x| std::ptr::eq(x, r)) || !able(r, &img) {
              h.fail(format!("a runner was chosen that is not offered or not able: {:?}; offered {:?}, history {:?}", r, offered, log));
              return;
            }
            if !is_host(&img) {
              let sticky = last.clone().filter(|l| offered.iter().any(|x| x.id == *l && able(x, &img)));
              match sticky {
                Some(l) => {
                  h.count("sticky");
                  if r.id != l {
                    h.fail(format!("the job's runner {} was left for {}; offered {:?}, history {:?}", l, r.id, offered, log));
                    return;
                  }
                }
                None => {
                  let min = offered.iter().filter(|x| able(x, &img)).map(|x| m.load(&x.id)).min().unwrap();
                  if m.load(&r.id) != min {
                    h.fail(format!("{} has {} unfinished steps, another runner only {}; offered {:?}, history {:?}", r.id, m.load(&r.id), min, offered, log));
                    return;
                  }
                }
              }
              m.jobs.insert(job.clone(), r.id.clone());
            } else {
              h.count("host");
            }
            if m.steps.insert(step.clone(), r.id.clone()).is_some() {
              h.count("scheduled again");
            }
          }
        }
      }
      6..=8 => {
        // mostly a step that is running
        let id = if rng.chance(3, 4) && !m.steps.is_empty() {
          let mut k: Vec<&StepId> = m.steps.keys().collect();
          k.sort_by_key(|k| k.to_string());
          (*rng.pick(&k)).clone()
        } else {
          step
        };
        log.push(format!("completed {}", id.to_string()));
        s.on_step_completed(step_result(id.clone(), rng.pick(&STATES).clone()));
        m.steps.remove(&id);
        h.count("completed");
      }
      _ => {
        log.push(format!("job completed {}", job.to_string()));
        s.on_job_completed(job_result(job.clone()));
        m.jobs.remove(&job);
      }
    }
    if let Err(e) = m.same(&s) {
      h.fail(format!("{}; history {:?}", e, log));
      return;
    }
  }
  // everything ends
  for id in m.steps.keys() {
    s.on_step_completed(step_result(id.clone(), WorkflowState::Succeeded));
  }
  for id in m.jobs.keys() {
    s.on_job_completed(job_result(id.clone()));
  }
  if let Err(e) = Model::default().same(&s) {
    h.fail(format!("after everything completed: {}; history {:?}", e, log));
  }
}

/// concurrent use: the loads are exact once everything is quiet
async fn concurrent(h: &H, seed: u64) {
  let s = DefaultScheduler::new();
  let mut rng = Rng(seed);
  let offered: Vec<RunnerMetadata> = (0..4).map(|i| RunnerMetadata { id: format!("r{}", i), os: "linux".into(), arch: "x64".into(), support_docker: true, support_host: true, ..Default::default() }).collect();
  let mut ts = vec![];
  for t in 0..8 {
    let (s, offered, seed) = (s.clone(), offered.clone(), rng.next());
    ts.push(tokio::spawn(async move {
      let mut rng = Rng(seed);
      let mut m: Model = Default::default();
      for _ in 0..60 {
        let step = StepId::new(format!("w{}", t), "j", rng.below(6));
        if rng.chance(2, 3) {
          let img = if rng.chance(1, 3) { Some("host/linux".to_string()) } else { None };
          if let Some(r) = s.schedule(&offered, &context(step.clone(), &img)).await {
            m.steps.insert(step, r.id.clone());
            if !is_host(&img) {
              m.jobs.insert(JobId::new(format!("w{}", t), "j"), r.id.clone());
            }
          }
        } else {
          s.on_step_completed(step_result(step.clone(), WorkflowState::Succeeded));
          m.steps.remove(&step);
        }
      }
      m
    }));
  }
  let mut all = Model::default();
  for t in ts {
    match t.await {
      Ok(m) => {
        all.steps.extend(m.steps);
        all.jobs.extend(m.jobs);
      }
      Err(e) => return h.fail(format!("scheduling panicked: {}", e)),
    }
  }
  h.count("concurrent histories");
  if let Err(e) = all.same(&s) {
    h.fail(format!("after concurrent use (seed {}): {}", seed, e));
  }
}

#[tokio::main]
async fn main() {
  let mut h = H::start();
  let n = h.n(30000, 600000);
  let seeds: Vec<u64> = (0..n).map(|_| h.rng.next()).collect();
  let h = std::sync::Arc::new(h);
  for (i, seed) in seeds.iter().enumerate() {
    let (g, seed) = (h.clone(), *seed);
    let len = if i % 50 == 0 { 400 } else { 5 + i % 40 };
    let t = tokio::spawn(async move {
      let mut rng = Rng(seed);
      history(&g, &mut rng, len).await
    });
    if let Err(e) = t.await {
      h.fail(format!("the scheduler panicked: {} (history seed {})", e, seed));
    }
    if h.failed() {
      break;
    }
  }
  for k in 0..h.n(60, 1500) {
    concurrent(&h, seeds[k]).await;
    if h.failed() {
      break;
    }
  }
  h.done()
}
