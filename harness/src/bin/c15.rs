//! C15: the real runner with a stand-in for docker that records the arguments it is given.
use astro_run::*;
use astro_runner::AstroRunner;
use harness::local::*;
use harness::{Rng, H};
use std::collections::HashMap;
use std::sync::Arc;
use std::time::Duration;
use tokio_stream::StreamExt;

struct Case {
  ctx: Context,
  envs: Vec<(String, String)>,
  name: String,
}
fn case(r: &mut Rng, wf: String) -> Case {
  let mut envs = vec![];
  let mut map: HashMap<String, EnvironmentVariable> = HashMap::new();
  for i in 0..r.below(7) {
    let k = format!("K{}_{}", i, plain(r, 4).replace(['-', '.'], "_"));
    let (v, t) = match r.below(6) {
      0 => {
        let n = *r.pick(&[0.0, 1.0, -2.5, 1e21, 0.1, 123456789.0]);
        (EnvironmentVariable::Number(n), format!("{}", n))
      }
      1 => (EnvironmentVariable::Boolean(i % 2 == 0), (i % 2 == 0).to_string()),
      _ => {
        let t = text(r, 14);
        (EnvironmentVariable::String(t.clone()), t)
      }
    };
    map.insert(k.clone(), v);
    envs.push((k, t));
  }
  let container = if r.chance(1, 5) {
    None
  } else {
    let vols = if r.chance(1, 4) {
      None
    } else {
      Some((0..r.below(4)).map(|_| match r.below(8) {
        4 => format!("/{}/:/{}/", plain(r, 4), plain(r, 4)),
        5 => format!("./{}/../{}:/{}", plain(r, 3), plain(r, 3), plain(r, 4)),
        6 => format!("{}:/{}/{}:rw,z", plain(r, 5), plain(r, 3), plain(r, 3)),
        7 => "/:/host".to_string(),
        0 => format!("/{}:/{}:ro", plain(r, 8), plain(r, 8)),
        1 => format!("/{} with space:/{}", plain(r, 4), plain(r, 8)),
        2 => format!("/{}", plain(r, 4)),
        _ => format!("/{}:/{}", plain(r, 8), plain(r, 8)),
      }).collect())
    };
    let sec = if r.chance(1, 3) { None } else { Some((0..r.below(4)).map(|_| match r.below(6) {
      0 => "no-new-privileges".to_string(),
      1 => format!("label:{}:{}", plain(r, 3), plain(r, 3)),
      2 => format!("seccomp=/{}/{}/{}.json", plain(r, 3), plain(r, 3), plain(r, 3)),
      3 => format!("{}=", plain(r, 3)),
      _ => format!("{}={}", plain(r, 5), plain(r, 5)),
    }).collect()) };
    Some(ContainerOptions { name: format!("{}:{}", plain(r, 6), plain(r, 4)), volumes: vols, security_opts: sec })
  };
  let id = StepId::new(wf.clone(), plain(r, 5), r.below(40));
  let run = match r.below(4) {
    0 => format!("#!/usr/bin/env node\n{}", text(r, 60)),
    1 => text(r, 4000),
    _ => text(r, 40),
  };
  let ev = if r.chance(1, 2) { Some(event(&plain(r, 4), &plain(r, 4))) } else { None };
  let name = format!("{}-{}-{}", wf, id.job_key(), id.step_number());
  Case { ctx: step(id, &run, container, map, ev), envs, name }
}
async fn finish(runner: &AstroRunner, ctx: Context) -> Option<RunResult> {
  let mut rx = runner.run(ctx).await.ok()?;
  tokio::time::timeout(Duration::from_secs(60), async { while rx.next().await.is_some() {} }).await.ok()?;
  rx.result()
}
fn shown(c: &Case) -> String {
  format!("container {:?}, environment {:?}", c.ctx.command.container.as_ref().map(|o| (&o.name, &o.volumes, &o.security_opts)), c.envs)
}
/// options with the number of times they are given, and the words after them
fn parse(args: &[String]) -> Result<(Vec<(String, String)>, Vec<String>)> {
  let mut o = vec![];
  let mut i = 1;
  if args.first().map(|s| s.as_str()) != Some("run") {
    return Err(Error::error("the first word is not run"));
  }
  while i < args.len() && args[i].starts_with('-') {
    let a = args[i].clone();
    i += 1;
    match a.as_str() {
      "--tty" | "-t" | "--rm" => o.push((a, String::new())),
      "--security-opt" | "-v" | "--volume" | "-e" | "--env" | "-w" | "--workdir" | "--entrypoint" | "--name" => {
        if i >= args.len() {
          return Err(Error::error("an option without a value"));
        }
        let k = match a.as_str() { "--volume" => "-v", "--env" => "-e", "--workdir" => "-w", x => x };
        o.push((k.to_string(), args[i].clone()));
        i += 1;
      }
      _ => return Err(Error::error(format!("an option that was not asked for: {}", a))),
    }
  }
  o.sort();
  Ok((o, args[i..].to_vec()))
}
async fn one(c: Case, lab: &Lab, runner: &AstroRunner, h: &H) -> Option<(StepId, String)> {
  let ctx = c.ctx.clone();
  let res = finish(runner, ctx).await;
  h.check(res == Some(RunResult::Succeeded), || format!("C15 the command for the container did not succeed ({:?}); {}", res, shown(&c)));
  let Some(args) = lab.args(&c.name) else {
    h.fail(format!("C15 docker was not called with the name {}; {}", c.name, shown(&c)));
    return None;
  };
  let id = &c.ctx.command.id;
  let mut root = lab.work();
  if let Some(e) = &c.ctx.event {
    root = root.join(&e.repo_owner).join(&e.repo_name);
  }
  let job = root.join(id.workflow_id().inner()).join(id.job_key());
  let (opts, rest) = match parse(&args) {
    Ok(x) => x,
    Err(e) => {
      h.fail(format!("C15 {}: {:?}; {}", e, args, shown(&c)));
      return None;
    }
  };
  let image = c.ctx.command.container.as_ref().map(|x| x.name.clone()).unwrap_or("ubuntu".into());
  h.check(rest == [image.clone()], || format!("C15 after the options stand {:?} and not the image {:?}; {}", rest, image, shown(&c)));
  let mut want: Vec<(String, String)> = vec![("--rm".into(), "".into()), ("--tty".into(), "".into())];
  let mut add = |k: &str, v: String| want.push((k.into(), v));
  add("-w", "/home/runner/work".into());
  add("--entrypoint", "/home/work/runner/entrypoint".into());
  add("--name", c.name.clone());
  for (k, v) in &c.envs {
    add("-e", format!("{}={}", k, v));
  }
  let entry = job.join(id.step_number().to_string()).join("entrypoint");
  add("-v", format!("{}:/home/work/runner/entrypoint", entry.display()));
  add("-v", format!("{}:/home/runner/work", job.join("data").display()));
  add("-v", format!("{}:/home/work/caches", root.join("caches").display()));
  if let Some(o) = &c.ctx.command.container {
    for v in o.volumes.iter().flatten() {
      add("-v", v.clone());
    }
    for s in o.security_opts.iter().flatten() {
      add("--security-opt", s.clone());
    }
  }
  want.sort();
  h.check(opts == want, || {
    let extra: Vec<_> = opts.iter().filter(|x| opts.iter().filter(|y| y == x).count() > want.iter().filter(|y| y == x).count()).collect();
    let missing: Vec<_> = want.iter().filter(|x| want.iter().filter(|y| y == x).count() > opts.iter().filter(|y| y == x).count()).collect();
    format!("C15 the options of the docker command differ: missing {:?}, too many {:?}; {}", missing, extra, shown(&c))
  });
  let run = &c.ctx.command.run;
  let script = if run.starts_with("#!") { run.clone() } else { format!("#!/bin/sh\n{}", run) };
  let got = std::fs::read(lab.out(&format!("{}.script", c.name))).unwrap_or_default();
  h.check(got == script.as_bytes(), || format!("C15 the mounted script is {:?} and not {:?}", String::from_utf8_lossy(&got).chars().take(300).collect::<String>(), script.chars().take(300).collect::<String>()));
  h.check(lab.out(&format!("{}.exec", c.name)).exists(), || format!("C15 the mounted script is not executable; {}", shown(&c)));
  for (_, v) in &c.envs {
    if v.contains(['"', '$', '`', '\\']) {
      h.count("special-environment-value");
    }
  }
  h.count("command");
  let data = opts.iter().filter_map(|o| o.1.strip_suffix(":/home/runner/work")).next().map(|s| s.to_string());
  data.map(|d| (id.clone(), d))
}
fn main() {
  let mut h = H::start();
  let lab = Arc::new(Lab::new("c15", false));
  let runner = AstroRunner::builder().working_directory(lab.work()).build().unwrap();
  let n = h.n(700, 6000);
  let mut cases = vec![];
  for i in 0..n {
    // some workflows have several steps
    let wf = format!("w{}", if i % 3 == 0 { i } else { i + 100000 });
    let c = case(&mut h.rng, wf.clone());
    cases.push(c);
    if i % 3 == 0 {
      let (id, ev) = (cases.last().unwrap().ctx.command.id.clone(), cases.last().unwrap().ctx.event.clone());
      for k in 0..h.rng.below(6) {
        // the same job, and jobs whose keys look alike
        let key = id.job_key();
        let job = match k {
          0 => key,
          1 => format!("{}x", key),
          2 => key.replace(['-', '_', '.'], "-"),
          3 => key.replace(['-', '_', '.'], "_"),
          4 => key.chars().map(|c| if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
          _ => format!("{}.data", key),
        };
        let mut c = case(&mut h.rng, wf.clone());
        let sid = StepId::new(wf.clone(), job.clone(), id.step_number() + k + 1);
        c.name = format!("{}-{}-{}", wf, job, sid.step_number());
        c.ctx.command.id = sid.clone();
        c.ctx.id = sid;
        c.ctx.event = ev.clone();
        cases.push(c);
      }
    }
  }
  let h = Arc::new(h);
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
  rt.block_on(async {
    let sem = Arc::new(tokio::sync::Semaphore::new(16));
    let mut ts = vec![];
    for c in cases {
      let (h, sem, lab, runner) = (h.clone(), sem.clone(), lab.clone(), runner.clone());
      ts.push(tokio::spawn(async move {
        let _p = sem.acquire_owned().await;
        if h.failed() { None } else { one(c, &lab, &runner, &h).await }
      }));
    }
    let mut dirs = vec![];
    for t in ts {
      match t.await {
        Ok(Some(d)) => dirs.push(d),
        Ok(None) => {}
        Err(_) => h.fail("C15 a task panicked"),
      }
    }
    for (a, d) in &dirs {
      for (b, e) in &dirs {
        if a.workflow_id() == b.workflow_id() || d == e {
          h.check((d == e) == (a.job_id() == b.job_id()), || format!("C15 the data directories of {:?} and {:?} are {:?} and {:?}", a, b, d, e));
          if a != b && d == e {
            h.count("shared-data-directory");
          }
        }
      }
    }
  });
  rt.shutdown_background();
  // slow file operations: the script has to be complete when docker is started
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).max_blocking_threads(1).enable_all().build().unwrap();
  rt.block_on(async {
    for i in 0..h.n(6, 40) {
      if h.failed() {
        break;
      }
      let mut r = Rng(i as u64 + 77);
      let c = case(&mut r, format!("slow{}", i));
      let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
      let s2 = stop.clone();
      let t = tokio::spawn(async move {
        while !s2.load(std::sync::atomic::Ordering::SeqCst) {
          tokio::task::spawn_blocking(|| std::thread::sleep(Duration::from_millis(25))).await.ok();
        }
      });
      one(c, &lab, &runner, &h).await;
      stop.store(true, std::sync::atomic::Ordering::SeqCst);
      t.await.ok();
      h.count("slow-files");
    }
  });
  rt.shutdown_background();
  lab.done();
  h.sample("random containers: 0-3 volumes (also with options, spaces, or anonymous), 0-3 security options, 0-6 environment values with quotes, dollars, backslashes, line ends, numbers and booleans; scripts with and without an interpreter line");
  let h = Arc::try_unwrap(h).unwrap_or_else(|_| std::process::exit(0));
  h.done()
}
