use astro_run::{JobId, StepId, WorkflowId};
use harness::H;

const PARTS: [&str; 16] = ["a", "b", "job", "0", "7", "", " ", "a b", "ä漢", "-", "..", "w\n", "00", "x:y", "\\", "a.b"];

fn part(h: &mut H) -> String {
  if h.rng.chance(1, 3) {
    let n = h.rng.below(12);
    let cs = ['a', 'b', '0', '1', '-', '_', '.', ' ', '\t', 'é', '\u{1F600}', '%', '\\', ':', '\'', '"'];
    (0..n).map(|_| *h.rng.pick(&cs)).collect()
  } else {
    h.rng.pick(&PARTS).to_string()
  }
}

fn number(h: &mut H) -> usize {
  match h.rng.below(5) {
    0 => 0,
    1 => usize::MAX,
    2 => h.rng.next() as usize,
    3 => h.rng.below(10),
    _ => h.rng.below(100000),
  }
}

fn main() {
  let mut h = H::start();
  let n = h.n(300000, 4000000);
  for _ in 0..n {
    let (w, j, s) = (part(&mut h), part(&mut h), number(&mut h));
    let wid = WorkflowId::new(w.clone());
    let jid = JobId::new(w.clone(), j.clone());
    let sid = StepId::new(w.clone(), j.clone(), s);
    h.check(wid.inner() == w, || format!("WorkflowId::new({:?}).inner() = {:?}", w, wid.inner()));
    h.check(sid.job_id() == jid && sid.workflow_id() == wid && sid.job_key() == j && sid.step_number() == s, || format!("projections of StepId({:?}, {:?}, {})", w, j, s));
    h.check(jid.workflow_id() == wid && jid.job_key() == j, || format!("projections of JobId({:?}, {:?})", w, j));
    if !w.is_empty() {
      let t = wid.to_string();
      h.check(WorkflowId::try_from(t.as_str()).map(|x| x == wid).unwrap_or(false), || format!("WorkflowId {:?} does not survive its text {:?}", w, t));
    }
    let t = jid.to_string();
    h.check(JobId::try_from(t.as_str()).map(|x| x == jid).unwrap_or(false), || format!("JobId({:?}, {:?}) does not survive its text {:?}", w, j, t));
    let t = sid.to_string();
    h.check(StepId::try_from(t.as_str()).map(|x| x == sid).unwrap_or(false), || format!("StepId({:?}, {:?}, {}) does not survive its text {:?}", w, j, s, t));
    h.count("roundtrips");
    if h.failed() {
      break;
    }
  }
  // arbitrary text: either refused, or the id whose text it is
  for _ in 0..n {
    let k = h.rng.below(5);
    let mut ps: Vec<String> = vec![];
    for i in 0..=k {
      ps.push(if i >= 2 && h.rng.chance(2, 3) {
        match h.rng.below(9) {
          0 => "".into(),
          1 => "-1".into(),
          2 => "+5".into(),
          3 => "1x".into(),
          4 => "18446744073709551616".into(),
          5 => " 3".into(),
          6 => "007".into(),
          7 => "٣".into(),
          _ => number(&mut h).to_string(),
        }
      } else {
        part(&mut h)
      });
    }
    let t = ps.join("/");
    let p: Vec<&str> = t.split('/').collect();
    let j = JobId::try_from(t.as_str());
    match (&j, p.len() == 2) {
      (Ok(x), true) => {
        h.check(x.workflow_id().inner() == p[0] && x.job_key() == p[1], || format!("JobId::try_from({:?}) gives {:?}", t, x));
      }
      (Err(_), false) => {}
      _ => h.fail(format!("JobId::try_from({:?}) gives {:?}", t, j)),
    }
    let s = StepId::try_from(t.as_str());
    let want = if p.len() == 3 { p[2].parse::<usize>().ok() } else { None };
    match (&s, want) {
      (Ok(x), Some(n)) => {
        h.check(x.workflow_id().inner() == p[0] && x.job_key() == p[1] && x.step_number() == n, || format!("StepId::try_from({:?}) gives {:?}", t, x));
      }
      (Err(_), None) => {}
      _ => h.fail(format!("StepId::try_from({:?}) gives {:?}", t, s)),
    }
    let w = WorkflowId::try_from(t.as_str());
    match &w {
      Ok(x) => {
        h.check(!t.is_empty() && x.inner() == t, || format!("WorkflowId::try_from({:?}) gives {:?}", t, x));
      }
      Err(_) => {
        h.check(t.is_empty(), || format!("WorkflowId::try_from({:?}) is refused", t));
      }
    }
    h.count("parses");
    h.count("nontrivial");
    h.sample(format!("{:?} -> {:?} / {:?}", t, j.ok(), s.ok()));
    if h.failed() {
      break;
    }
  }
  h.done()
}
