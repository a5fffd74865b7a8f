//! C14: real processes, run by the real Command, compared with what the script prints.
use astro_run::{stream, RunResult};
use astro_runner::Command;
use harness::{Rng, H};
use std::path::PathBuf;
use std::time::Duration;
use tokio_stream::StreamExt;

#[derive(Clone, Default, Debug)]
struct Case {
  script: String,
  out: Vec<String>,
  err: Vec<String>,
  code: i32,
  envs: Vec<(String, String)>,
  dir: Option<PathBuf>,
}
fn quote(s: &str) -> String {
  format!("'{}'", s.replace('\'', "'\\''"))
}
fn word(r: &mut Rng) -> String {
  let c: Vec<char> = "abcXYZ019 _-\"'$`\\*?#;|&<>(){}[]!~%=\tüß中😀/:,.".chars().collect();
  (0..r.below(14)).map(|_| *r.pick(&c)).collect()
}
fn case(r: &mut Rng, big: bool) -> Case {
  let mut c = Case::default();
  for i in 0..r.below(4) {
    let v = if r.chance(1, 4) { format!("{}\n{}", word(r), word(r)) } else { word(r) };
    c.envs.push((format!("VERIF_E{}", i), v));
  }
  if r.chance(1, 12) && !c.envs.is_empty() {
    // the same key twice: the later one counts
    c.envs.push(("VERIF_E0".into(), "again".into()));
  }
  let mut open = [true, true];
  let mut s = vec![];
  for k in 0..r.below(10) {
    let e = r.below(2);
    let to = if e == 0 { "" } else { " >&2" };
    match r.below(if big { 14 } else { 11 }) {
      0..=4 if open[e] => {
        let w = word(r);
        s.push(format!("printf '%s\\n' {}{}", quote(&w), to));
        [&mut c.out, &mut c.err][e].push(w);
      }
      5 if open[e] => {
        // one carriage return belongs to the end of a line, others are characters of it
        s.push(format!("printf 'a\\r\\nb\\377c\\n\\nd\\r\\r\\n\\re\\rf\\n\\r\\n \\t\\n\\000n\\000\\n\\033[31mred\\033[0m\\n\\357\\273\\277bom\\n\\013v\\014\\b\\n\\303\\n'{}", to));
        for w in ["a", "b\u{fffd}c", "", "d\r", "\re\rf", "", " \t", "\0n\0", "\u{1b}[31mred\u{1b}[0m", "\u{feff}bom", "\u{b}v\u{c}\u{8}", "\u{fffd}"] {
          [&mut c.out, &mut c.err][e].push(w.into());
        }
      }
      6 if open[e] && !c.envs.is_empty() => {
        let n = c.envs.len();
        let key = c.envs[r.below(n)].0.clone();
        let v = c.envs.iter().rev().find(|x| x.0 == key).unwrap().1.clone();
        s.push(format!("printf '%s\\n' \"${}\"{}", key, to));
        for w in v.split('\n') {
          [&mut c.out, &mut c.err][e].push(w.into());
        }
      }
      7 => s.push(format!("sleep 0.0{}", r.below(4))),
      8 => {
        s.push(format!("exec {}>&-", e + 1));
        open[e] = false;
      }
      9 if open[e] => {
        s.push(format!("seq -f 'n{}-%g' 1 200{}", k, to));
        [&mut c.out, &mut c.err][e].extend((1..=200).map(|i| format!("n{}-{}", k, i)));
      }
      10 if open[e] => {
        // a child of the shell that goes on after the next commands have begun
        s.push(format!("(sleep 0.02; echo child{}){}", k, to));
        [&mut c.out, &mut c.err][e].push(format!("child{}", k));
      }
      11 if open[e] => {
        // more than a pipe holds
        s.push(format!("seq -f 'big{}-%g-xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx' 1 3000{}", k, to));
        [&mut c.out, &mut c.err][e].extend((1..=3000).map(|i| format!("big{}-{}-xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", k, i)));
      }
      12 if open[e] => {
        s.push(format!("printf '\\377\\n'{}; head -c 200000 /dev/zero | tr '\\0' 'z'{}; echo{}", to, to, to));
        [&mut c.out, &mut c.err][e].extend(["\u{fffd}".to_string(), "z".repeat(200000)]);
      }
      _ => s.push(":".into()),
    }
  }
  if r.chance(1, 4) && open[0] {
    s.push("printf 'no end'".into());
    c.out.push("no end".into());
  }
  if r.chance(1, 8) && open[1] {
    s.push("printf 'no end either' >&2".into());
    c.err.push("no end either".into());
  }
  match r.below(6) {
    0 | 1 => {
      s.push("exit 0".into());
    }
    2 | 3 => {
      c.code = 1 + r.below(255) as i32;
      s.push(format!("exit {}", c.code));
    }
    4 => {
      c.code = 1;
      // (a signal that this process was told to ignore is ignored by the shell too)
      s.push(format!("kill -{} $$; sleep 1; exit 1", r.pick(&["KILL", "TERM", "HUP", "PIPE", "ALRM", "USR1", "USR2"])));
    }
    _ => {
      s.push("true".into());
    }
  }
  c.script = s.join("\n");
  c
}
#[derive(Debug, Default)]
struct Got {
  out: Vec<String>,
  err: Vec<String>,
  res: Option<RunResult>,
  ok: Option<bool>,
}
async fn run(c: &Case, h: &H) -> Option<Got> {
  let mut cmd = Command::new(c.script.clone());
  for (k, v) in &c.envs {
    cmd.env(k.clone(), v.clone());
  }
  if let Some(d) = &c.dir {
    cmd.dir(d);
  }
  let (tx, mut rx) = stream();
  let keep = tx.clone();
  let t = tokio::spawn(async move { cmd.run(tx).await.is_ok() });
  let mut g = Got::default();
  let all = tokio::time::timeout(Duration::from_secs(45), async {
    let t = tokio::spawn(async move {
      let ok = t.await;
      if !keep.is_ended() && matches!(ok, Ok(false)) {
        // nothing more will come: end it here, as the executor does
        keep.end(RunResult::Failed { exit_code: -77 });
      }
      ok
    });
    while let Some(l) = rx.next().await {
      if l.is_error() { g.err.push(l.message) } else { g.out.push(l.message) }
    }
    g.res = rx.result();
    match t.await {
      Ok(Ok(ok)) => g.ok = Some(ok),
      _ => h.fail(format!("C14 the command panicked: {:?}", c.script)),
    }
  })
  .await;
  if all.is_err() {
    h.fail(format!("C14 no result within 45 s (got {} output lines, {} error lines, expected {} and {}); script:\n{}", g.out.len(), g.err.len(), c.out.len(), c.err.len(), c.script));
    return None;
  }
  Some(g)
}
fn cut(v: &[String]) -> String {
  let w: Vec<String> = v.iter().take(12).map(|s| if s.len() > 80 { format!("{}..({} bytes)", &s.chars().take(40).collect::<String>(), s.len()) } else { s.clone() }).collect();
  format!("{} lines {:?}", v.len(), w)
}
async fn one(c: Case, h: &H) {
  let Some(g) = run(&c, h).await else { return };
  let at = || format!("script:\n{}\nenvironment {:?}", c.script.chars().take(600).collect::<String>(), c.envs);
  h.check(g.out == c.out, || format!("C14 the log lines are {} and not {}; {}", cut(&g.out), cut(&c.out), at()));
  h.check(g.err == c.err, || format!("C14 the error lines are {} and not {}; {}", cut(&g.err), cut(&c.err), at()));
  let want = if c.code == 0 { RunResult::Succeeded } else { RunResult::Failed { exit_code: c.code } };
  h.check(g.res == Some(want.clone()), || format!("C14 the result is {:?} and not {:?}; {}", g.res, want, at()));
  h.check(g.ok == Some(true), || format!("C14 the command ended with an error; {}", at()));
  h.count(if c.code == 0 { "succeeded" } else { "failed" });
}
extern "C" {
  fn signal(n: i32, handler: usize) -> usize;
}
fn main() {
  // an ignored signal (nohup) would be inherited by the commands
  for n in [1, 15] {
    unsafe { signal(n, 0) };
  }
  let mut h = H::start();
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
  let scratch = std::env::temp_dir().join(format!("verif-c14-{}", std::process::id()));
  std::fs::create_dir_all(&scratch).unwrap();
  let scratch = scratch.canonicalize().unwrap();
  let n = h.n(700, 6000);
  let mut cases: Vec<Case> = vec![];
  for (s, out, err, code) in [
    ("exec 2>&-; sleep 0.1; echo late; exit 3", vec!["late"], vec![], 3),
    ("exec 1>&-; sleep 0.1; echo late >&2; exit 3", vec![], vec!["late"], 3),
    ("exec 1>&- 2>&-; sleep 0.05; exit 4", vec![], vec![], 4),
    ("kill -9 $$", vec![], vec![], 1),
    ("", vec![], vec![], 0),
    ("echo a; exit 255", vec!["a"], vec![], 255),
    // the shell is done, a process it left behind still holds the output
    ("(sleep 0.15; echo behind) & exit 0", vec!["behind"], vec![], 0),
    ("(sleep 0.15; echo behind >&2) & exit 9", vec![], vec!["behind"], 9),
  ] {
    cases.push(Case { script: s.into(), out: out.iter().map(|s| s.to_string()).collect(), err: err.iter().map(|s| s.to_string()).collect(), code, ..Default::default() });
  }
  for i in 0..n {
    let c = case(&mut h.rng, i % 5 == 0);
    cases.push(c);
  }
  let h = std::sync::Arc::new(h);
  rt.block_on(async {
    // directory and environment
    for i in 0..12 {
      let d = scratch.join(["plain", "with space", "a'b\"c$d", "ü中"][i % 4]);
      std::fs::create_dir_all(&d).unwrap();
      let c = Case { script: "pwd".into(), out: vec![d.display().to_string()], dir: Some(d.clone()), ..Default::default() };
      one(c, &h).await;
      h.count("directory");
    }
    {
      let c = Case { script: "pwd".into(), out: vec![std::env::current_dir().unwrap().canonicalize().unwrap().display().to_string()], ..Default::default() };
      one(c, &h).await;
    }
    // values that look special, or like no value
    const VALUES: [&str; 10] = ["", " ", "=", "a=b", "-", "0", "null", "~/x", "$(false)", "\u{fc}\t'"];
    for i in 0..16 {
      let mut envs: Vec<(String, String)> = (0..i % 8).map(|k| (format!("VERIF_K{}", k), format!("v {} $HOME `x` \"", k))).collect();
      if i >= 8 {
        envs.extend(VALUES.iter().enumerate().filter(|(k, _)| (k + i) % 2 == 0 || i == 15).map(|(k, v)| (format!("VERIF_S{}", k), v.to_string())));
        // the last value counts
        envs.push(("VERIF_K0".into(), "first".into()));
        envs.push(("VERIF_K0".into(), if i % 2 == 0 { "last".into() } else { String::new() }));
      }
      let mut c = Case { script: "env -0 | tr '\\0' '\\n'".into(), envs: envs.clone(), ..Default::default() };
      if i == 7 {
        c.envs.push(("HOME".into(), "/changed".into()));
      }
      if i == 14 {
        c.envs.push(("HOME".into(), String::new()));
      }
      if let Some(g) = run(&c, &h).await {
        let skip = |k: &str| ["PWD", "OLDPWD", "SHLVL", "_"].contains(&k);
        let mut want: std::collections::BTreeMap<String, String> = std::env::vars().filter(|(k, v)| !skip(k) && !v.contains('\n')).collect();
        want.extend(c.envs.iter().cloned());
        let mut got: std::collections::BTreeMap<String, String> = Default::default();
        for l in &g.out {
          if let Some((k, v)) = l.split_once('=') {
            if !skip(k) && (want.contains_key(k) || std::env::var(k).is_err()) {
              got.insert(k.into(), v.into());
            }
          }
        }
        h.check(got == want, || {
          let d: Vec<String> = got.iter().filter(|(k, v)| want.get(*k) != Some(v)).map(|(k, _)| format!("+{}", k)).chain(want.iter().filter(|(k, v)| got.get(*k) != Some(v)).map(|(k, _)| format!("-{}", k))).collect();
          format!("C14 the environment of the command differs from the inherited one and {:?}: {:?}", c.envs, d)
        });
        h.count("environment");
      }
    }
    // a command that cannot be started: an error, and no result
    let c = Case { script: "echo x".into(), dir: Some(scratch.join("does-not-exist")), ..Default::default() };
    if let Some(g) = run(&c, &h).await {
      h.check(g.ok == Some(false) && g.res == Some(RunResult::Failed { exit_code: -77 }) && g.out.is_empty() && g.err.is_empty(), || format!("C14 a command in a directory that does not exist: {:?}", g));
      h.count("not-started");
    }
    // exec
    for i in 0..12 {
      let code = [0, 1, 7, 0, 255, 0, 0, 0][i % 8];
      let (script, want) = [("echo '  some text '; echo err >&2", "some text"), ("echo 'a'; echo; echo ' b'; echo", "a\n\n b"), ("true", ""), ("printf '\\n x\\r\\ny'", "x\r\ny")][i % 4];
      let r = Command::new(format!("{}; exit {}", script, code)).exec().await;
      h.check(r.is_ok() == (code == 0) && r.as_ref().map(|s| s == want).unwrap_or(true), || format!("C14 exec of `{}` with exit code {}: {:?}", script, code, r.as_ref().map_err(|e| e.to_string())));
    }
    let sem = std::sync::Arc::new(tokio::sync::Semaphore::new(24));
    let mut ts = vec![];
    for c in cases {
      let (h, sem) = (h.clone(), sem.clone());
      ts.push(tokio::spawn(async move {
        let _p = sem.acquire_owned().await;
        if !h.failed() {
          one(c, &h).await;
        }
      }));
    }
    for t in ts {
      if t.await.is_err() {
        h.fail("C14 a task panicked");
      }
    }
  });
  h.sample("random scripts: lines, bursts beyond the pipe size, early closes, invalid UTF-8, missing line ends, children left behind, exit codes 0-255, signals");
  std::fs::remove_dir_all(&scratch).ok();
  rt.shutdown_background();
  let h = std::sync::Arc::try_unwrap(h).unwrap_or_else(|_| std::process::exit(0));
  h.done()
}
