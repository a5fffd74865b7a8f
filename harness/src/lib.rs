//! Bounded stand-ins and replay: drives the real crates with generated inputs and compares with
//! an oracle written from the property's statement. Never counted as proof.
#[cfg(feature = "remote")]
pub mod fake;
#[cfg(feature = "github")]
pub mod github;
pub mod local;
pub mod rec;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Wake, Waker};

pub struct Rng(pub u64);
impl Rng {
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    if n == 0 { 0 } else { (self.next() % n as u64) as usize }
  }
  pub fn chance(&mut self, num: usize, den: usize) -> bool {
    self.below(den) < num
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    &v[self.below(v.len())]
  }
}

pub struct H {
  pub tier: String,
  pub rng: Rng,
  pub out: std::path::PathBuf,
  fails: Mutex<usize>,
  cover: Mutex<BTreeMap<String, u64>>,
  samples: Mutex<usize>,
}
static PROGRESS: AtomicUsize = AtomicUsize::new(0);
/// A case of a harness takes at most a few seconds.
const STUCK: u64 = 60;

/// Two ways to break a property without a wrong answer: the code under test panics, or it never answers.
fn watch() {
  let hook = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |i| {
    let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    if at.starts_with(&format!("{}/crates/", repo)) {
      let why = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
      println!("FAIL the code under test panicked at {}: {} (after case {})", at, why.replace('\n', "\\n"), PROGRESS.load(Ordering::SeqCst));
    }
    hook(i)
  }));
  std::thread::spawn(|| {
    let (mut last, mut since) = (0, std::time::Instant::now());
    let mut gap = std::time::Duration::ZERO;
    loop {
      std::thread::sleep(std::time::Duration::from_millis(200));
      let p = PROGRESS.load(Ordering::SeqCst);
      if p != last {
        last = p;
        since = std::time::Instant::now();
      }
      if std::env::var("VERIF_GAP").is_ok() && since.elapsed() > gap {
        gap = since.elapsed();
        println!("GAP {:?} after {}", gap, p);
      }
      if since.elapsed().as_secs() > STUCK {
        println!("FAIL the code under test does not answer: nothing happened for {} s after case {}", STUCK, p);
        use std::io::Write;
        std::io::stdout().flush().ok();
        std::process::exit(1);
      }
    }
  });
}

impl H {
  pub fn start() -> H {
    watch();
    let a: Vec<String> = std::env::args().collect();
    let tier = a.get(1).cloned().unwrap_or("quick".into());
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = std::path::PathBuf::from(a.get(3).cloned().unwrap_or(".".into()));
    H { tier, rng: Rng(seed.wrapping_mul(7919)), out, fails: Mutex::new(0), cover: Default::default(), samples: Mutex::new(0) }
  }
  pub fn thorough(&self) -> bool {
    self.tier == "thorough"
  }
  pub fn n(&self, quick: usize, thorough: usize) -> usize {
    if self.thorough() { thorough } else { quick }
  }
  /// a violation: the concrete input and what was observed
  pub fn fail(&self, what: impl AsRef<str>) {
    PROGRESS.fetch_add(1, Ordering::SeqCst);
    let mut f = self.fails.lock().unwrap();
    *f += 1;
    if *f <= 12 {
      println!("FAIL {}", what.as_ref().replace('\n', "\\n"));
    }
  }
  pub fn check(&self, ok: bool, what: impl FnOnce() -> String) -> bool {
    PROGRESS.fetch_add(1, Ordering::SeqCst);
    if !ok {
      self.fail(what());
    }
    ok
  }
  pub fn count(&self, k: &str) {
    PROGRESS.fetch_add(1, Ordering::SeqCst);
    *self.cover.lock().unwrap().entry(k.into()).or_insert(0) += 1;
  }
  pub fn sample(&self, s: impl AsRef<str>) {
    PROGRESS.fetch_add(1, Ordering::SeqCst);
    let mut n = self.samples.lock().unwrap();
    if *n < 6 {
      *n += 1;
      println!("SAMPLE {}", s.as_ref().replace('\n', "\\n"));
    }
  }
  pub fn failed(&self) -> bool {
    *self.fails.lock().unwrap() > 0
  }
  pub fn done(&self) -> ! {
    for (k, v) in self.cover.lock().unwrap().iter() {
      println!("COVER {} {}", k, v);
    }
    println!("DONE");
    use std::io::Write;
    std::io::stdout().flush().ok();
    std::process::exit(if self.failed() { 1 } else { 0 })
  }
}

/// A waker that counts how often it was woken.
pub struct CountWaker(pub AtomicUsize);
impl Wake for CountWaker {
  fn wake(self: Arc<Self>) {
    self.0.fetch_add(1, Ordering::SeqCst);
  }
  fn wake_by_ref(self: &Arc<Self>) {
    self.0.fetch_add(1, Ordering::SeqCst);
  }
}
pub fn count_waker() -> (Arc<CountWaker>, Waker) {
  let c = Arc::new(CountWaker(AtomicUsize::new(0)));
  (c.clone(), Waker::from(c))
}
impl CountWaker {
  pub fn get(&self) -> usize {
    self.0.load(Ordering::SeqCst)
  }
}
