use astro_run::*;
use harness::{Rng, H};

struct R;
#[async_trait]
impl Runner for R {
  async fn run(&self, _c: Context) -> RunResponse {
    let (tx, rx) = stream();
    tx.succeeded();
    Ok(rx)
  }
}

/// jobs: (steps, dependencies by index; NONE names no job)
type G = Vec<(usize, Option<Vec<usize>>)>;

const NONE: usize = 9999;
fn name(k: usize) -> String {
  if k == NONE { "nowhere".into() } else { format!("j{}", k) }
}
/// the configuration, with other settings that make no difference
fn yaml(g: &G, rng: &mut Rng) -> String {
  let mut s = String::new();
  if rng.chance(1, 4) {
    s.push_str("name: a workflow\n");
  }
  if rng.chance(1, 8) {
    s.push_str("on: [push]\n");
  }
  s.push_str("jobs:");
  if g.is_empty() {
    s.push_str(" {}");
  }
  s.push('\n');
  for (k, (n, d)) in g.iter().enumerate() {
    s.push_str(&format!("  {}:\n", name(k)));
    for t in ["name: a job", "container: alpine", "working-directories: [src]", "on: [push, pull_request]", "container:\n      name: alpine\n      volumes: []"] {
      if rng.chance(1, 8) && !s.rsplit_once("  j").map_or(false, |x| x.1.contains("container") && t.starts_with("container")) {
        s.push_str(&format!("    {}\n", t));
      }
    }
    if let Some(d) = d {
      s.push_str(&format!("    depends-on: [{}]\n", d.iter().map(|x| name(*x)).collect::<Vec<_>>().join(", ")));
    }
    if *n == 0 {
      s.push_str("    steps: []\n");
    } else {
      s.push_str("    steps:\n");
      for i in 0..*n {
        s.push_str(&format!("      - run: echo {}\n", i));
        for t in ["name: a step", "container: alpine", "continue-on-error: true", "timeout: 10m"] {
          if rng.chance(1, 8) {
            s.push_str(&format!("        {}\n", t));
          }
        }
      }
    }
  }
  s
}
fn deps(g: &G, k: usize) -> Vec<usize> {
  g[k].1.clone().unwrap_or_default()
}
fn cyclic(g: &G) -> bool {
  let n = g.len();
  let mut reach = vec![vec![false; n]; n];
  for a in 0..n {
    for b in deps(g, a) {
      if b < n {
        reach[a][b] = true;
      }
    }
  }
  for k in 0..n {
    for a in 0..n {
      for b in 0..n {
        if reach[a][k] && reach[k][b] {
          reach[a][b] = true;
        }
      }
    }
  }
  (0..n).any(|a| reach[a][a])
}
fn oracle(g: &G) -> bool {
  !g.is_empty() && g.iter().all(|j| j.0 > 0) && (0..g.len()).all(|k| deps(g, k).iter().all(|d| *d < g.len())) && !cyclic(g)
}

async fn one(h: &mut H, astro: &AstroRun, g: &G, build: bool) -> bool {
  let y = yaml(g, &mut h.rng);
  let want = oracle(g);
  let a = UserWorkflow::try_from(y.as_str());
  let b = UserWorkflow::try_from(y.clone());
  h.check(a.is_ok() == want, || format!("configuration accepted={} expected {}:\n{}", a.is_ok(), want, y));
  h.check(b.is_ok() == want, || format!("configuration (as String) accepted={} expected {}:\n{}", b.is_ok(), want, y));
  if build {
    let w = Workflow::builder().config(y.clone()).build(astro).await;
    h.check(w.is_ok() == want, || format!("workflow built={} expected {}:\n{}", w.is_ok(), want, y));
    h.count("builds");
    if let Ok(w) = w {
      // accepted means: it runs to completion
      let ctx = astro.execution_context().build();
      let r = tokio::time::timeout(std::time::Duration::from_secs(20), w.run(ctx)).await;
      h.check(r.map(|r| r.jobs.len() == g.len()).unwrap_or(false), || format!("the accepted workflow does not run to completion:\n{}", y));
      h.count("runs");
    }
  }
  h.count("configurations");
  if want {
    h.count("nontrivial");
  }
  h.sample(format!("{} -> {}", y, want));
  !h.failed()
}

fn main() {
  let mut h = H::start();
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
  rt.block_on(async {
    let astro = AstroRun::builder().runner(R).build();
    if !one(&mut h, &astro, &vec![], true).await {
      return;
    }
    // every graph of up to three jobs (four when thorough)
    let top = if h.thorough() { 4 } else { 3 };
    for n in 1..=top {
      for bits in 0..(1usize << (n * n)) {
        let g: G = (0..n).map(|a| {
          let d: Vec<usize> = (0..n).filter(|b| bits >> (a * n + b) & 1 == 1).collect();
          (1, if d.is_empty() { None } else { Some(d) })
        }).collect();
        if !one(&mut h, &astro, &g, bits % 37 == 5).await {
          return;
        }
      }
    }
    let rounds = h.n(3000, 40000);
    for k in 0..rounds {
      let n = 1 + h.rng.below(7);
      let style = h.rng.below(4);
      let mut g: G = vec![];
      for a in 0..n {
        let mut d = vec![];
        for b in 0..n {
          let p = match style { 0 => b < a && h.rng.chance(1, 2), 1 => h.rng.chance(1, n + 2), 2 => b + 1 == a || (a == 0 && b + 1 == n && h.rng.chance(1, 2)), _ => b > a && h.rng.chance(1, 3) };
          if p {
            d.push(b);
          }
        }
        if h.rng.chance(1, 40) { d.push(NONE) }
        if h.rng.chance(1, 40) { d.push(a) }
        if d.len() > 1 && h.rng.chance(1, 6) { let x = d[0]; d.push(x) }
        let d = if d.is_empty() { if h.rng.chance(1, 2) { None } else { Some(vec![]) } } else { Some(d) };
        g.push((if h.rng.chance(1, 30) { 0 } else { 1 + h.rng.below(2) }, d));
      }
      if !one(&mut h, &astro, &g, k % 10 == 0).await {
        return;
      }
    }
    // long chains and wide graphs, some of them closed to a cycle far from their start
    let large = h.n(60, 600);
    for k in 0..large {
      let n = [12, 25, 40, 70, 130][h.rng.below(5)];
      let mut at: Vec<usize> = (0..n).collect();
      for i in (1..n).rev() {
        at.swap(i, h.rng.below(i + 1));
      }
      let mut g: Vec<(usize, Option<Vec<usize>>)> = vec![(1, None); n];
      for i in 1..n {
        let mut d = vec![at[i - 1]];
        if h.rng.chance(1, 5) {
          d = vec![];
          let many = [4, 4, 4, 14, 40][h.rng.below(5)];
          for _ in 0..h.rng.below(many) {
            d.push(at[h.rng.below(i)]);
          }
        }
        g[at[i]].1 = Some(d);
      }
      if k % 2 == 0 {
        let (a, b) = (h.rng.below(n), h.rng.below(n));
        let (a, b) = (a.min(b), a.max(b));
        // the earlier job depends on the later one: mostly a cycle
        let d = g[at[a]].1.get_or_insert_with(Vec::new);
        if h.rng.chance(1, 2) {
          // among many others
          for _ in 0..h.rng.below(30) {
            d.push(at[h.rng.below(a + 1)]);
          }
          let (i, j) = (d.len(), h.rng.below(d.len() + 1));
          d.push(at[b]);
          d.swap(i, j);
        } else {
          d.push(at[b]);
        }
      }
      if !one(&mut h, &astro, &g, k % 6 == 1).await {
        return;
      }
    }
    for bad in ["", "jobs", "jobs: 1", "name: x", "jobs:\n  a: {}\n", "jobs:\n  a:\n    steps: 3\n", "- a", "\t", "jobs:\n  a:\n    steps:\n      - run: 1\n    depends-on: b\n"] {
      h.check(UserWorkflow::try_from(bad).is_err(), || format!("accepted: {:?}", bad));
      h.check(Workflow::builder().config(bad).build(&astro).await.is_err(), || format!("built: {:?}", bad));
      h.count("malformed");
    }
    h.check(Workflow::builder().build(&astro).await.is_err(), || "built without a configuration".into());
  });
  h.done()
}
