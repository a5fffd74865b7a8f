use astro_run::*;
use harness::github::{self, Github};
use harness::H;
use std::time::Duration;

struct R;
#[async_trait]
impl Runner for R {
  async fn run(&self, _c: Context) -> RunResponse {
    let (tx, rx) = stream();
    tx.succeeded();
    Ok(rx)
  }
}

fn file(h: &mut H, k: usize) -> String {
  let seg = ["src", "a b", "ü", "[x]", "docs", "{a,b}", "*", "?", "日本", "lib.rs", "%41", "a\\b", "\"q\"", "#1", ".git"];
  let mut s: Vec<String> = (0..h.rng.below(3)).map(|_| h.rng.pick(&seg).to_string()).collect();
  s.push(format!("{}{}", h.rng.pick(&seg), k));
  s.join("/")
}
fn files(h: &mut H, n: usize) -> Vec<String> {
  (0..n).map(|k| file(h, k)).collect()
}

fn asks(event: &str, pattern: &str) -> Condition {
  let paths = Some(vec![pattern.to_string()]);
  Condition::Config(ConditionConfig {
    push: (event == "push").then(|| PushCondition { branches: None, paths: paths.clone() }),
    pull_request: (event == "pull_request").then(|| PullRequestCondition { branches: None, paths }),
  })
}
/// does a job run that is to run when `pattern` was changed?
async fn runs(c: &astro_run::ExecutionContext, event: &str, pattern: &str) -> bool {
  let j = Job { id: JobId::new("w", "j"), name: None, on: Some(asks(event, pattern)), steps: vec![], depends_on: vec![], working_directories: vec![] };
  !j.should_skip(c).await
}

struct Owner {
  name: String,
  repo: String,
}

async fn one(h: &mut H, g: &Github, key: &str, n: usize, k: usize) {
  let event = if h.rng.chance(1, 2) { "push" } else { "pull_request" };
  let o = Owner { name: h.rng.pick(&["panghu-huang", "a", "x.y", "astro-run-x", "Mixed"]).to_string(), repo: h.rng.pick(&["astro-run", "b.c", "panghu-huang-x", "r_1", "Mixed-Case", "x.git", "a.github.io"]).to_string() };
  let list = files(h, n);
  let other = vec!["other/file".to_string()];
  let app = h.rng.chance(1, 3);
  let sha = format!("{:040x}", h.rng.next());
  let number = 1 + h.rng.below(99999) as i64;
  let token = format!("ghp_{}", h.rng.next());
  // 0: everything works; 1: bad credentials; 2: unknown commit or pull request; 3: a request breaks; 4: no number
  let mode = if h.rng.chance(3, 4) { 0 } else { 1 + h.rng.below(4) };
  {
    let mut w = g.lock().unwrap();
    w.commits.clear();
    w.pulls.clear();
    w.tokens.clear();
    w.installs.clear();
    w.seen.clear();
    w.broken = None;
    let (a, b) = (o.name.clone(), o.repo.clone());
    if mode != 2 || event != "push" {
      w.commits.insert((a.clone(), b.clone(), sha.clone()), if event == "push" { list.clone() } else { other.clone() });
    }
    if mode != 2 || event == "push" {
      w.pulls.insert((a.clone(), b.clone(), number), if event == "push" { other.clone() } else { list.clone() });
    }
    w.pulls.insert((a.clone(), b.clone(), number + 1), vec!["other/number".into()]);
    w.commits.insert((b.clone(), a.clone(), sha.clone()), vec!["other/repo".into()]);
    w.pulls.insert((b.clone(), a.clone(), number), vec!["other/repo".into()]);
    w.tokens.push(if mode == 1 { "another".into() } else { token.clone() });
    if app && mode != 1 {
      w.installs.insert((a, b), 40 + h.rng.below(1000) as i64);
    }
  }
  let builder = AstroRun::builder().runner(R);
  let astro = if app { builder.github_app(77, key) } else { builder.github_personal_token(token) }.build();
  let requests = n / 100 + 1 + if app { 2 } else { 0 };
  if mode == 3 {
    let at = h.rng.below(requests);
    let how = h.rng.below(4) as u8;
    g.lock().unwrap().broken = Some((at, how));
  }
  let pr_number = if mode == 4 { None } else { Some(number) };
  let c = astro.execution_context().event(TriggerEvent { event: event.into(), repo_owner: o.name.clone(), repo_name: o.repo.clone(), pr_number, sha: sha.clone(), branch: "main".into(), ref_name: "refs/heads/main".into() }).build();
  let unknown = mode == 1 || mode == 2 || mode == 3 || (mode == 4 && event == "pull_request");
  let what = format!("{} {}/{} {} with {} changed files, mode {}, {}", event, o.name, o.repo, if event == "push" { sha } else { number.to_string() }, n, mode, if app { "app" } else { "token" });
  let broke = |g: &Github| {
    let w = g.lock().unwrap();
    mode != 3 || w.broken.map_or(false, |(k, _)| w.seen.len() > k)
  };
  // every changed file is known, nothing else is
  let mut asked: Vec<(String, bool)> = vec![("**".into(), n > 0)];
  for x in ["other/file", "other/number", "other/repo", "previous/**", "nothing", "src", "o/r"] {
    asked.push((x.into(), glob::Pattern::new(x).map_or(false, |p| list.iter().any(|f| p.matches(f)))));
  }
  for (i, f) in list.iter().enumerate() {
    if n <= 60 || i % 7 == k % 7 || i % 100 >= 97 || i % 100 < 3 || i % 30 == 0 || i + 3 > n {
      asked.push((glob::Pattern::escape(f), true));
    }
  }
  for (p, want) in &asked {
    let got = runs(&c, event, p).await;
    // (an error that was not met leaves the list complete)
    let want = if unknown && broke(g) { true } else { *want };
    if !h.check(got == want, || format!("C18 {}: a condition on {:?} {}, requests {:?}", what, p, if got { "matches" } else { "does not match" }, g.lock().unwrap().seen)) {
      return;
    }
  }
  h.count(if unknown { "not_determined" } else { "determined" });
  if n > 30 && !unknown {
    h.count("several_pages");
    h.count("nontrivial");
  }
  h.sample(what);
}

fn main() {
  let mut h = H::start();
  let scratch = std::env::temp_dir().join(format!("verif-c18-{}", std::process::id()));
  std::fs::create_dir_all(&scratch).unwrap();
  let g = github::start(&scratch);
  let key = github::key();
  g.lock().unwrap().app = Some((77, openssl::pkey::PKey::public_key_from_pem(&key.public_key_to_pem().unwrap()).unwrap()));
  let pem = String::from_utf8(key.rsa().unwrap().private_key_to_pem().unwrap()).unwrap();
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  let sizes = [0, 1, 2, 5, 29, 30, 31, 60, 99, 100, 101, 102, 199, 200, 201, 299, 300, 301, 302, 450, 600, 601, 999, 1000];
  let rounds = h.n(120, 1200);
  for k in 0..rounds {
    let n = if k < sizes.len() * 2 { sizes[k / 2] } else if h.rng.chance(1, 20) { *h.rng.pick(&[2999, 3000, 2900, 1501]) } else { h.rng.below(320) };
    rt.block_on(async { tokio::time::timeout(Duration::from_secs(60), one(&mut h, &g, &pem, n, k)).await.is_err().then(|| println!("FAIL C18 no answer within a minute")) });
    if h.failed() {
      break;
    }
  }
  std::fs::remove_dir_all(&scratch).ok();
  h.done()
}
