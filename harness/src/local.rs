//! A scratch directory for the local runner with a stand-in for docker on the PATH: it records its
//! arguments and, if asked to, runs the mounted script. It never touches anything outside.
use crate::Rng;
use astro_run::*;
use std::collections::HashMap;
use std::path::{Path, PathBuf};

pub struct Lab {
  pub dir: PathBuf,
  /// a pipe that all processes started from here inherit
  pipe: [i32; 2],
}
extern "C" {
  fn pipe(fds: *mut i32) -> i32;
  fn close(fd: i32) -> i32;
  fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
}
const DOCKER: &str = r#"#!/bin/sh
# stand-in for docker: records its arguments under $VERIF_LAB/out
out="$VERIF_LAB/out"
if [ "$1" = kill ]; then
  : > "$out/$2.killed"
  if [ -e "$out/$2.pid" ]; then kill -9 "$(cat "$out/$2.pid")" 2>/dev/null; fi
  exit 0
fi
name=unnamed; entry=; data=; prev=
for a in "$@"; do
  if [ "$prev" = --name ]; then name="$a"; fi
  if [ "$prev" = -v ]; then
    case "$a" in
      *:/home/work/runner/entrypoint) entry="${a%:/home/work/runner/entrypoint}";;
      *:/home/runner/work) data="${a%:/home/runner/work}";;
    esac
  fi
  prev="$a"
done
for a in "$@"; do printf '%s\0' "$a"; done > "$out/$name.args"
cat "$entry" > "$out/$name.script"
if [ -x "$entry" ]; then echo yes > "$out/$name.exec"; fi
if [ -e "$VERIF_LAB/run" ]; then
  mkdir -p "$data"; cd "$data" || exit 99
  sh "$entry" &
  echo $! > "$out/$name.pid"
  wait $!
  exit $?
fi
exit 0
"#;
impl Lab {
  /// to be called first: changes the environment of this process
  pub fn new(tag: &str, run: bool) -> Lab {
    let dir = std::env::temp_dir().join(format!("verif-{}-{}", tag, std::process::id()));
    std::fs::create_dir_all(dir.join("bin")).unwrap();
    let dir = dir.canonicalize().unwrap();
    std::fs::create_dir_all(dir.join("out")).unwrap();
    std::fs::create_dir_all(dir.join("work")).unwrap();
    if run {
      std::fs::write(dir.join("run"), "").unwrap();
    }
    let p = dir.join("bin/docker");
    std::fs::write(&p, DOCKER).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
    std::env::set_var("PATH", format!("{}:{}", dir.join("bin").display(), std::env::var("PATH").unwrap_or_default()));
    std::env::set_var("VERIF_LAB", &dir);
    std::env::set_var("HOME", dir.join("home"));
    // whatever a wrongly quoted command does, it does it here
    std::fs::create_dir_all(dir.join("cwd")).unwrap();
    std::env::set_current_dir(dir.join("cwd")).unwrap();
    let mut fds = [0i32; 2];
    assert!(unsafe { pipe(fds.as_mut_ptr()) } == 0);
    Lab { dir, pipe: fds }
  }
  pub fn out(&self, name: &str) -> PathBuf {
    self.dir.join("out").join(name)
  }
  pub fn args(&self, name: &str) -> Option<Vec<String>> {
    let b = std::fs::read(self.out(&format!("{}.args", name))).ok()?;
    let mut v: Vec<String> = b.split(|c| *c == 0).map(|s| String::from_utf8_lossy(s).into_owned()).collect();
    v.pop();
    Some(v)
  }
  pub fn work(&self) -> PathBuf {
    self.dir.join("work")
  }
  /// waits until every process that was started has ended
  pub fn quiesce(&self) {
    unsafe {
      close(self.pipe[1]);
      let mut b = [0u8; 1];
      while read(self.pipe[0], b.as_mut_ptr(), 1) > 0 {}
    }
  }
  pub fn done(&self) {
    std::fs::remove_dir_all(&self.dir).ok();
  }
}
pub fn step(id: StepId, run: &str, container: Option<ContainerOptions>, environments: HashMap<String, EnvironmentVariable>, event: Option<TriggerEvent>) -> Context {
  let mut command = Command::default();
  command.id = id.clone();
  command.run = run.into();
  command.container = container;
  command.environments = environments;
  Context { id, signal: AstroRunSignal::new(), command, event, payload: None }
}
pub fn event(owner: &str, name: &str) -> TriggerEvent {
  let mut e = TriggerEvent::default();
  e.repo_owner = owner.into();
  e.repo_name = name.into();
  e
}
/// files and directories under a directory, relative to it
pub fn tree(d: &Path) -> Vec<String> {
  fn walk(d: &Path, top: &Path, v: &mut Vec<String>) {
    if let Ok(r) = std::fs::read_dir(d) {
      for e in r.flatten() {
        v.push(e.path().strip_prefix(top).unwrap().display().to_string());
        if e.file_type().map_or(false, |t| t.is_dir()) {
          walk(&e.path(), top, v);
        }
      }
    }
  }
  let mut v = vec![];
  walk(d, d, &mut v);
  v.sort();
  v
}
pub fn text(r: &mut Rng, n: usize) -> String {
  let c: Vec<char> = "abcXYZ019 _-\"\"'$$``\\\\*?#;|&<>(){}[]!~%=\t\n\nüß中😀:,.\r\u{1b}@^+".chars().collect();
  (0..r.below(n)).map(|_| *r.pick(&c)).collect()
}
pub fn plain(r: &mut Rng, n: usize) -> String {
  let c: Vec<char> = "abcXYZ019_-.".chars().collect();
  let mut s = String::from("w");
  s.extend((0..r.below(n)).map(|_| *r.pick(&c)));
  s
}
