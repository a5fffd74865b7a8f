use astro_run::{AstroRunSignal, JobId, Signal, SignalManager};
use harness::{count_waker, H};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Barrier};
use std::task::{Context, Poll, Waker};

fn poll(s: &AstroRunSignal, w: &Waker) -> Poll<Signal> {
  let mut r = s.recv();
  Pin::new(&mut r).poll(&mut Context::from_waker(w))
}

/// sequences of operations against the oracle: first request wins, delivered once
fn sequences(h: &mut H) {
  let n = h.n(3000, 60000);
  for _ in 0..n {
    let s = AstroRunSignal::new();
    let mut winner: Option<Signal> = None;
    let mut delivered = false;
    let mut waiting: Option<(Arc<harness::CountWaker>, usize)> = None;
    let len = 1 + h.rng.below(7);
    let mut log = vec![];
    for _ in 0..len {
      let op = h.rng.below(6);
      let before = winner.clone();
      match op {
        0 | 1 => {
          let sig = if op == 0 { Signal::Cancel } else { Signal::Timeout };
          let r = if op == 0 { s.cancel() } else { s.timeout() };
          log.push(format!("{:?}->{}", sig, r.is_ok()));
          h.check(r.is_ok() == winner.is_none(), || format!("signal requests {:?}: accepted={} but earlier winner={:?}", log, r.is_ok(), before));
          if winner.is_none() {
            winner = Some(sig);
            if let Some((c, n0)) = waiting.take() {
              h.check(c.get() > n0, || format!("{:?}: the waiting receiver was not woken", log));
            }
          }
        }
        2 => {
          let (c, w) = count_waker();
          let n0 = c.get();
          let r = poll(&s, &w);
          log.push(format!("poll->{:?}", r.is_ready()));
          let want = if delivered { None } else { winner.clone() };
          match (r, want) {
            (Poll::Ready(a), Some(b)) => {
              delivered = true;
              h.check(a == b, || format!("{:?}: received another signal than the winner", log));
            }
            (Poll::Pending, None) => {
              if winner.is_none() {
                waiting = Some((c, n0));
              }
            }
            (r, want) => h.fail(format!("{:?}: poll gave ready={} but expected {}", log, r.is_ready(), want.is_some())),
          }
        }
        3 => {
          // another receiver that does not wait
          drop(s.recv());
          log.push("recv".to_string());
        }
        _ => {
          h.check(s.is_cancelled() == (winner == Some(Signal::Cancel)) && s.is_timeout() == (winner == Some(Signal::Timeout)), || {
            format!("{:?}: cancelled={} timeout={} but winner is {:?}", log, s.is_cancelled(), s.is_timeout(), before)
          });
        }
      }
    }
    h.check(s.is_cancelled() == (winner == Some(Signal::Cancel)) && s.is_timeout() == (winner == Some(Signal::Timeout)), || {
      format!("{:?}: cancelled={} timeout={} at the end", log, s.is_cancelled(), s.is_timeout())
    });
    h.count("sequences");
    if winner.is_some() {
      h.count("nontrivial");
    }
    h.sample(format!("{:?}", log));
    if h.failed() {
      return;
    }
  }
}

/// concurrent requests and receivers: exactly one succeeds, and exactly one receives it
fn races(h: &mut H) {
  let n = h.n(1500, 20000);
  for round in 0..n {
    let s = AstroRunSignal::new();
    let b = Arc::new(Barrier::new(4));
    let hs: Vec<_> = (0..4)
      .map(|k| {
        let (s, b) = (s.clone(), b.clone());
        std::thread::spawn(move || {
          let (_, w) = count_waker();
          b.wait();
          match k {
            0 => (s.cancel().is_ok() as usize, 0, None),
            1 => (s.timeout().is_ok() as usize * 2, 0, None),
            _ => {
              let mut got = None;
              let mut times = 0;
              for _ in 0..40 {
                if let Poll::Ready(x) = poll(&s, &w) {
                  times += 1;
                  got = Some(x);
                }
              }
              (0, times, got)
            }
          }
        })
      })
      .collect();
    let rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let wins: usize = rs.iter().map(|r| (r.0 > 0) as usize).sum();
    let winner = if rs[0].0 > 0 { Signal::Cancel } else { Signal::Timeout };
    let mut times: usize = rs.iter().map(|r| r.1).sum();
    let (_, w) = count_waker();
    if let Poll::Ready(x) = poll(&s, &w) {
      times += 1;
      h.check(x == winner, || format!("race round {}: late receiver got {:?}", round, x));
    }
    for r in &rs {
      if let Some(x) = &r.2 {
        h.check(*x == winner, || format!("race round {}: received {:?} but the winner is {:?}", round, x, winner));
      }
    }
    h.check(wins == 1, || format!("race round {}: {} concurrent requests succeeded", round, wins));
    h.check(times == 1, || format!("race round {}: the signal was delivered {} times", round, times));
    h.check(s.is_cancelled() == (winner == Signal::Cancel), || format!("race round {}: the winner changed", round));
    h.count("races");
    if h.failed() {
      return;
    }
  }
}

fn manager(h: &mut H) {
  let n = h.n(400, 5000);
  for _ in 0..n {
    let m = SignalManager::new();
    let ids: Vec<JobId> = (0..4).map(|k| JobId::new(format!("w{}", k / 2), ["a", "b"][k % 2])).collect();
    let mut sigs: Vec<Option<AstroRunSignal>> = vec![None; 4];
    let mut done = vec![false; 4];
    let mut log = vec![];
    for _ in 0..8 {
      let k = h.rng.below(4);
      match h.rng.below(4) {
        0 => {
          let s = AstroRunSignal::new();
          m.register_signal(ids[k].clone(), s.clone());
          sigs[k] = Some(s);
          done[k] = false;
          log.push(format!("register {}", k));
        }
        1 => {
          m.unregister_signal(&ids[k]);
          sigs[k] = None;
          done[k] = false;
          log.push(format!("unregister {}", k));
        }
        _ => {
          let r = m.cancel_job(&ids[k]);
          log.push(format!("cancel {} -> {}", k, r.is_ok()));
          let want = sigs[k].is_some() && !done[k];
          h.check(r.is_ok() == want, || format!("{:?}: cancel_job accepted={} expected {}", log, r.is_ok(), want));
          if want {
            done[k] = true;
          }
        }
      }
      for i in 0..4 {
        if let Some(s) = &sigs[i] {
          h.check(s.is_cancelled() == done[i] && !s.is_timeout(), || format!("{:?}: signal of job {} cancelled={} expected {}", log, i, s.is_cancelled(), done[i]));
        }
        h.check(m.get_signal(&ids[i]).is_some() == sigs[i].is_some(), || format!("{:?}: registration of job {} wrong", log, i));
      }
    }
    h.count("manager_histories");
    if h.failed() {
      return;
    }
  }
}

fn main() {
  let mut h = H::start();
  sequences(&mut h);
  races(&mut h);
  manager(&mut h);
  h.done()
}
