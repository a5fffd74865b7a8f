use astro_run::{stream, RunResult, StreamReceiver, WorkflowLogType};
use harness::{count_waker, H};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Barrier, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use tokio_stream::Stream;

fn poll(r: &mut StreamReceiver, w: &Waker) -> Poll<Option<(bool, String)>> {
  match Pin::new(r).poll_next(&mut Context::from_waker(w)) {
    Poll::Ready(Some(l)) => Poll::Ready(Some((l.log_type == WorkflowLogType::Error, l.message))),
    Poll::Ready(None) => Poll::Ready(None),
    Poll::Pending => Poll::Pending,
  }
}

fn text(h: &mut H, n: usize) -> String {
  match h.rng.below(8) {
    6 => h.rng.pick(&["\0", "\r", "\u{1b}[31mred\u{1b}[0m", "\u{feff}", " ", "\t", "\n", "null", "0", "::group::x", "##[error]x"]).to_string(),
    0 => String::new(),
    1 => format!("{}\nsecond line", n),
    2 => "x".repeat(h.rng.below(300)),
    3 => "  äö 漢 ".to_string(),
    _ => format!("line {}", n),
  }
}

fn result(k: usize) -> (u8, i32) {
  [(0, 0), (1, 0), (2, 0), (2, 1), (2, 123), (2, -7), (3, 123)][k % 7]
}

fn sequences(h: &mut H) {
  let n = h.n(20000, 400000);
  for _ in 0..n {
    let (tx, mut rx) = stream();
    // some senders come and go while the stream goes on
    let mut senders = vec![tx.clone(), tx];
    let mut lines: Vec<(bool, String)> = vec![];
    let mut read = 0;
    let mut res: Option<RunResult> = None;
    let mut waiting = None;
    let mut log: Vec<String> = vec![];
    for k in 0..(1 + h.rng.below(12)) {
      if h.rng.chance(1, 4) && senders.len() > 1 {
        let i = h.rng.below(senders.len());
        drop(senders.swap_remove(i));
        log.push("a sender is dropped".into());
      }
      if h.rng.chance(1, 4) {
        senders.push(senders[0].clone());
      }
      let tx = senders[h.rng.below(senders.len())].clone();
      match h.rng.below(8) {
        0 | 1 | 2 => {
          let t = text(h, k);
          let err = h.rng.chance(1, 3);
          if err { tx.error(t.clone()) } else { tx.log(t.clone()) }
          log.push(format!("{}({:?})", if err { "error" } else { "log" }, t));
          lines.push((err, t));
          if let Some((c, n0)) = waiting.take() {
            let c: Arc<harness::CountWaker> = c;
            h.check(c.get() > n0, || format!("{:?}: the waiting receiver was not woken by the line", log));
          }
        }
        3 => {
          let (kind, code) = result(h.rng.below(7));
          let want = match kind {
            0 => RunResult::Succeeded,
            1 => RunResult::Cancelled,
            2 => RunResult::Failed { exit_code: code },
            _ => RunResult::Failed { exit_code: 123 },
          };
          match (kind, h.rng.below(2)) {
            (3, _) => tx.timeout(),
            (_, 0) => tx.end(want.clone()),
            (0, _) => tx.succeeded(),
            (1, _) => tx.cancelled(),
            _ => tx.failed(code),
          }
          log.push(format!("end({:?})", want));
          if res.is_none() {
            res = Some(want);
            if let Some((c, n0)) = waiting.take() {
              let c: Arc<harness::CountWaker> = c;
              h.check(c.get() > n0, || format!("{:?}: the waiting receiver was not woken by the result", log));
            }
          }
        }
        4 => {
          h.check(rx.result() == res && tx.is_ended() == res.is_some(), || format!("{:?}: result() = {:?}, is_ended() = {}, the first result was {:?}", log, rx.result(), tx.is_ended(), res));
        }
        _ => {
          let (c, w) = count_waker();
          let r = poll(&mut rx, &w);
          log.push(format!("poll -> {:?}", r));
          let want = if read < lines.len() {
            read += 1;
            Poll::Ready(Some(lines[read - 1].clone()))
          } else if res.is_some() {
            Poll::Ready(None)
          } else {
            Poll::Pending
          };
          h.check(r == want, || format!("{:?}: expected {:?}", log, want));
          waiting = if r.is_pending() { let n0 = c.get(); Some((c, n0)) } else { None };
        }
      }
      if h.failed() {
        return;
      }
    }
    h.check(rx.result() == res, || format!("{:?}: result() = {:?}, the first result was {:?}", log, rx.result(), res));
    h.count("sequences");
    if !lines.is_empty() && res.is_some() {
      h.count("nontrivial");
    }
    h.sample(format!("{:?}", log));
  }
}

/// many lines, written and received in bursts of all sizes
fn long(h: &mut H) {
  for round in 0..h.n(12, 60) {
    let (tx, mut rx) = stream();
    let total = [70, 130, 300, 1100, 2200, 4500][round % 6];
    let (_, w) = count_waker();
    let (mut wrote, mut read) = (0, 0);
    let line = |i: usize| (i % 3 == 1, format!("{}", i));
    while read < total {
      let size = 1usize << h.rng.below(12);
      for _ in 0..(1 + h.rng.below(size)).min(total - wrote) {
        let (err, t) = line(wrote);
        if err { tx.error(t) } else { tx.log(t) }
        wrote += 1;
      }
      if wrote == total {
        tx.failed(2);
      }
      let size = 1usize << h.rng.below(11);
      for _ in 0..1 + h.rng.below(size) {
        let p = poll(&mut rx, &w);
        let want = if read < wrote { Poll::Ready(Some(line(read))) } else if wrote == total { Poll::Ready(None) } else { Poll::Pending };
        h.check(p == want, || format!("after {} lines written and {} received: poll gave {:?} instead of {:?}", wrote, read, p, want));
        if h.failed() {
          return;
        }
        if read == wrote {
          break;
        }
        read += 1;
      }
    }
    h.check(poll(&mut rx, &w) == Poll::Ready(None), || format!("no end after {} lines", total));
    h.count("long");
  }
}

/// several threads write and report results while the receiver reads to the end
fn races(h: &mut H) {
  let n = h.n(600, 12000);
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  for round in 0..n {
    let (tx, mut rx) = stream();
    let k = 3;
    let b = Arc::new(Barrier::new(k + 1));
    let hs: Vec<_> = (0..k)
      .map(|i| {
        let (tx, b) = (tx.clone(), b.clone());
        std::thread::spawn(move || {
          b.wait();
          for j in 0..20 {
            if j % 3 == 0 { tx.error(format!("{} {}", i, j)) } else { tx.log(format!("{} {}", i, j)) }
          }
        })
      })
      .collect();
    let ender = {
      let (tx, b) = (tx.clone(), b.clone());
      std::thread::spawn(move || {
        b.wait();
        for h in hs {
          h.join().unwrap();
        }
        let go = Arc::new(Barrier::new(3));
        let es: Vec<_> = (0..3)
          .map(|i| {
            let (tx, go) = (tx.clone(), go.clone());
            std::thread::spawn(move || {
              go.wait();
              match i { 0 => tx.succeeded(), 1 => tx.failed(7), _ => tx.cancelled() }
            })
          })
          .collect();
        for e in es {
          e.join().unwrap();
        }
      })
    };
    let got = rt.block_on(async {
      tokio::time::timeout(std::time::Duration::from_secs(20), async {
        let mut got = vec![];
        while let Some(l) = tokio_stream::StreamExt::next(&mut rx).await {
          got.push((l.log_type == WorkflowLogType::Error, l.message));
        }
        (got, rx.result())
      })
      .await
    });
    ender.join().unwrap();
    match got {
      Err(_) => h.fail(format!("race round {}: the receiver never saw the end", round)),
      Ok((got, res)) => {
        h.check(res.is_some(), || format!("race round {}: end without a result", round));
        h.check(rx.result() == res, || format!("race round {}: the result changed from {:?} to {:?}", round, res, rx.result()));
        h.check(got.len() == 3 * 20, || format!("race round {}: {} of 60 lines received", round, got.len()));
        for i in 0..3 {
          let mine: Vec<_> = got.iter().filter(|l| l.1.starts_with(&format!("{} ", i))).cloned().collect();
          let want: Vec<_> = (0..20).map(|j| (j % 3 == 0, format!("{} {}", i, j))).collect();
          h.check(mine == want, || format!("race round {}: lines of writer {} received as {:?}", round, i, mine));
        }
      }
    }
    h.count("races");
    if h.failed() {
      return;
    }
  }
}

/// many rounds of racing result reports only: the result never changes once seen
fn result_races(h: &mut H) {
  let n = h.n(4000, 60000);
  for round in 0..n {
    let (tx, rx) = stream();
    let go = Arc::new(Barrier::new(3));
    let es: Vec<_> = (0..2)
      .map(|i| {
        let (tx, go) = (tx.clone(), go.clone());
        std::thread::spawn(move || {
          go.wait();
          if i == 0 { tx.succeeded() } else { tx.failed(7) }
        })
      })
      .collect();
    go.wait();
    let mut first = None;
    loop {
      let r = rx.result();
      if first.is_none() {
        first = r.clone();
      }
      if let Some(f) = &first {
        h.check(r.as_ref() == Some(f), || format!("result race {}: the result changed from {:?} to {:?}", round, f, r));
        if es.iter().all(|e| e.is_finished()) {
          break;
        }
      }
      std::hint::spin_loop();
    }
    for e in es {
      e.join().unwrap();
    }
    h.check(rx.result() == first, || format!("result race {}: the result changed from {:?} to {:?}", round, first, rx.result()));
    h.count("result_races");
    if h.failed() {
      return;
    }
  }
}

/// a waker that lets a sender act while the receiver is cloning it, that is in the middle of a poll
struct Meddler {
  woken: AtomicUsize,
  clones: AtomicUsize,
  act: Mutex<Option<mpsc::Sender<()>>>,
  done: Mutex<mpsc::Receiver<()>>,
}

fn raw(p: *const ()) -> RawWaker {
  fn clone(p: *const ()) -> RawWaker {
    let m = unsafe { &*(p as *const Meddler) };
    m.clones.fetch_add(1, Ordering::SeqCst);
    let act = m.act.lock().unwrap().take();
    if let Some(act) = act {
      act.send(()).unwrap();
      // the sender may have to wait for the poll to end
      m.done.lock().unwrap().recv_timeout(std::time::Duration::from_micros(300)).ok();
    }
    unsafe { Arc::increment_strong_count(p as *const Meddler) };
    raw(p)
  }
  fn wake(p: *const ()) {
    wake_by_ref(p);
    drop_(p);
  }
  fn wake_by_ref(p: *const ()) {
    unsafe { &*(p as *const Meddler) }.woken.fetch_add(1, Ordering::SeqCst);
  }
  fn drop_(p: *const ()) {
    unsafe { Arc::decrement_strong_count(p as *const Meddler) };
  }
  static VTABLE: RawWakerVTable = RawWakerVTable::new(clone, wake, wake_by_ref, drop_);
  RawWaker::new(p, &VTABLE)
}

fn during_a_poll(h: &mut H) {
  let n = h.n(300, 3000);
  for round in 0..n {
    let (tx, mut rx) = stream();
    let before = h.rng.below(3);
    for i in 0..before {
      tx.log(format!("{}", i));
    }
    let what = h.rng.below(3);
    let (act, on_act) = mpsc::channel();
    let (on_done, done) = mpsc::channel();
    let m = Arc::new(Meddler { woken: AtomicUsize::new(0), clones: AtomicUsize::new(0), act: Mutex::new(None), done: Mutex::new(done) });
    let w = unsafe { Waker::from_raw(raw(Arc::into_raw(m.clone()) as *const ())) };
    for _ in 0..before {
      poll(&mut rx, &w);
    }
    let helper = std::thread::spawn(move || {
      if on_act.recv().is_ok() {
        match what {
          0 => tx.log("late"),
          1 => tx.error("late"),
          _ => tx.failed(3),
        }
        on_done.send(()).ok();
      }
    });
    *m.act.lock().unwrap() = Some(act.clone());
    let woken = m.woken.load(Ordering::SeqCst);
    let p = poll(&mut rx, &w);
    // where the poll made no copy of the waker, the sender acts after it
    if m.act.lock().unwrap().take().is_some() {
      act.send(()).ok();
    }
    helper.join().unwrap();
    let woken = m.woken.load(Ordering::SeqCst) > woken;
    let event = ["log", "error", "failed"][what];
    h.check(!p.is_pending() || woken, || format!("poll race {}: {:?} during a poll that returned Pending did not wake the receiver", round, event));
    h.count("during_a_poll");
    if h.failed() {
      return;
    }
  }
}

/// one poll against one event, at all kinds of distances in time
fn poll_races(h: &mut H) {
  let n = h.n(30000, 600000);
  let (jobs, on_job) = mpsc::channel::<(astro_run::StreamSender, usize, usize)>();
  let ready = Arc::new(AtomicUsize::new(0));
  let finished = Arc::new(AtomicUsize::new(0));
  let (r, f) = (ready.clone(), finished.clone());
  let worker = std::thread::spawn(move || {
    for (tx, what, delay) in on_job {
      r.fetch_add(1, Ordering::SeqCst);
      for _ in 0..delay {
        std::hint::spin_loop();
      }
      match what {
        0 => tx.log("late"),
        1 => tx.error("late"),
        _ => tx.succeeded(),
      }
      f.fetch_add(1, Ordering::SeqCst);
    }
  });
  for round in 0..n {
    let (tx, mut rx) = stream();
    let what = h.rng.below(3);
    let (c, w) = count_waker();
    jobs.send((tx, what, h.rng.below(60))).unwrap();
    while ready.load(Ordering::SeqCst) <= round {
      std::hint::spin_loop();
    }
    for _ in 0..h.rng.below(60) {
      std::hint::spin_loop();
    }
    let p = poll(&mut rx, &w);
    let mut spins = 0usize;
    while finished.load(Ordering::SeqCst) <= round {
      spins += 1;
      if spins % 1000 == 0 {
        std::thread::yield_now();
      }
    }
    h.check(!p.is_pending() || c.get() > 0, || format!("poll race {}: {:?} around a poll that returned Pending did not wake the receiver", round, ["log", "error", "succeeded"][what]));
    h.count("poll_races");
    if h.failed() {
      break;
    }
  }
  drop(jobs);
  worker.join().unwrap();
}

fn main() {
  let mut h = H::start();
  sequences(&mut h);
  long(&mut h);
  during_a_poll(&mut h);
  poll_races(&mut h);
  races(&mut h);
  result_races(&mut h);
  h.done()
}
