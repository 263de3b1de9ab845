//! P39: Mono, Flux, their receivers, the channels and the maps below them.
use std::collections::{HashMap, VecDeque};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

use futures::future::poll_fn;
use futures::task::noop_waker;
use futures::{Future, FutureExt, Stream, StreamExt};
use wasmrs_runtime::{oneshot, unbounded_channel, Entry, OptionalMut, SafeMap};
use wasmrs_rx::*;

use crate::v::{self, Rng, R};

type Fx = Flux<u64, String>;
type Rx = FluxReceiver<u64, String>;

/// What a receiver said.
#[derive(Clone, Debug, PartialEq)]
enum Got {
  Item(u64),
  Err(String),
  End,
  Pending,
  Gone,
}

fn from_poll(p: Poll<Option<Result<u64, String>>>) -> Got {
  match p {
    Poll::Pending => Got::Pending,
    Poll::Ready(None) => Got::End,
    Poll::Ready(Some(Ok(x))) => Got::Item(x),
    Poll::Ready(Some(Err(e))) => Got::Err(e),
  }
}

fn from_recv(p: Poll<Result<Option<Result<u64, String>>, wasmrs_rx::Error>>) -> Got {
  match p {
    Poll::Pending => Got::Pending,
    Poll::Ready(Err(_)) => Got::Gone,
    Poll::Ready(Ok(o)) => from_poll(Poll::Ready(o)),
  }
}

fn poll_next<S: Stream<Item = Result<u64, String>> + Unpin>(s: &mut S) -> Got {
  let w = noop_waker();
  from_poll(Pin::new(s).poll_next(&mut Context::from_waker(&w)))
}

/// One step of the single-threaded model check.
fn single(g: &mut Rng) {
  let joined = g.p(50);
  let mut senders: Vec<Fx> = Vec::new();
  let mut receiver: Option<Rx>;
  if joined {
    senders.push(Flux::new());
    receiver = None; // still inside the flux
  } else {
    let (tx, rx) = Flux::new_channels();
    senders.push(tx);
    receiver = Some(rx);
  }
  let mut inside = joined;
  let mut queue: VecDeque<Got> = VecDeque::new();
  let mut completed = false;
  let mut gone = false; // the receiver was dropped
  let mut next = 0u64;
  let mut trace = String::new();
  let steps = 5 + g.n(60);
  for _ in 0..steps {
    match g.n(14) {
      0..=3 if !completed && !senders.is_empty() => {
        let i = g.n(senders.len());
        next += 1;
        trace += &format!(" send{}", next);
        let r = if g.p(50) { senders[i].send(next) } else { senders[i].send_result(Ok(next)) };
        check_send(r.is_ok(), gone, &trace);
        if !gone {
          queue.push_back(Got::Item(next));
        }
      }
      4 if !completed && !senders.is_empty() => {
        let i = g.n(senders.len());
        next += 1;
        let m = format!("e{}", next);
        trace += &format!(" err{}", next);
        let r = match g.n(3) {
          0 => senders[i].error(m.clone()),
          1 => senders[i].send_result(Err(m.clone())),
          _ => senders[i].send_signal(Signal::Err(m.clone())),
        };
        check_send(r.is_ok(), gone, &trace);
        if !gone {
          queue.push_back(Got::Err(m));
        }
      }
      5 if !completed && !senders.is_empty() && g.p(30) => {
        trace += " complete";
        let i = g.n(senders.len());
        senders[i].complete();
        completed = true;
        if !gone {
          queue.push_back(Got::End);
        }
      }
      6 if !senders.is_empty() && senders.len() < 5 => {
        trace += " clone";
        let i = g.n(senders.len());
        let c = senders[i].clone();
        senders.push(c);
      }
      7 if senders.len() > 1 || (!inside && g.p(10) && !senders.is_empty()) => {
        trace += " drop";
        let i = g.n(senders.len());
        let _ = senders.swap_remove(i);
      }
      8 if inside && !senders.is_empty() => {
        trace += " take";
        let i = g.n(senders.len());
        match senders[i].take_rx() {
          Ok(r) => receiver = Some(r),
          Err(e) => v::fail("take", format!("take_rx failed ({}) after{}", e, trace)),
        }
        inside = false;
        // it cannot be taken twice, and what is left behind is at its end
        for s in senders.iter_mut() {
          if s.take_rx().is_ok() {
            v::fail("take", format!("take_rx worked twice after{}", trace));
          }
          if poll_next(s) != Got::End {
            v::fail("take", format!("a flux without receiver polled other than at its end after{}", trace));
          }
        }
      }
      9 if receiver.is_some() && g.p(40) => {
        trace += " eject";
        let r = receiver.take().unwrap();
        let e = r.eject();
        if r.eject().is_some() {
          v::fail("eject", format!("ejected twice after{}", trace));
        }
        match e {
          Some(n) => receiver = Some(n),
          None => {
            v::fail("eject", format!("nothing to eject after{}", trace));
            return;
          }
        }
      }
      10 if receiver.is_some() && g.p(8) => {
        trace += " gone";
        receiver = None;
        queue.clear();
        gone = true;
        for s in &senders {
          if !s.is_closed() || !s.is_complete() {
            v::fail("closed", format!("not closed although the receiver is gone after{}", trace));
          }
        }
      }
      _ if !gone => {
        // one attempt to receive, in one of the ways there are
        let all_gone = senders.is_empty();
        let want = match queue.front() {
          Some(x) => x.clone(),
          None if all_gone => Got::End,
          None => Got::Pending,
        };
        let w = noop_waker();
        let mut cx = Context::from_waker(&w);
        let how;
        let got = if let Some(rx) = receiver.as_mut() {
          match g.n(4) {
            0 => {
              how = "poll";
              poll_next(rx)
            }
            1 => {
              how = "recv";
              let mut f = rx.recv();
              from_recv(f.as_mut().poll(&mut cx))
            }
            2 => {
              how = "unpolled";
              drop(rx.recv());
              poll_next(rx)
            }
            _ => {
              how = "clone";
              let mut c = rx.clone();
              poll_next(&mut c)
            }
          }
        } else if inside && !senders.is_empty() {
          let i = g.n(senders.len());
          match g.n(2) {
            0 => {
              how = "fpoll";
              poll_next(&mut senders[i])
            }
            _ => {
              how = "frecv";
              let mut f = senders[i].recv();
              from_recv(f.as_mut().poll(&mut cx))
            }
          }
        } else {
          continue;
        };
        trace += &format!(" {}", how);
        if got != want {
          v::fail("receive", format!("got {:?}, want {:?} after{}", got, want, trace));
          return;
        }
        v::count(if got == Got::Pending { "pending" } else { "received" }, 1);
        queue.pop_front();
        if !gone && receiver.is_some() && senders.iter().any(|s| s.is_closed()) {
          v::fail("closed", format!("closed although the receiver is there after{}", trace));
        }
      }
      _ => {}
    }
  }
  v::count("sequences", 1);
  v::distinct(&[trace.as_bytes()]);
}

fn check_send(ok: bool, gone: bool, trace: &str) {
  if ok == gone {
    v::fail("send", format!("send returned ok={} with receiver gone={} after{}", ok, gone, trace));
  }
}

/// Producers on threads, one consumer which receives in every way there is.
fn threads(g: &mut Rng) {
  let producers = 1 + g.n(4);
  let each = 1 + g.n(200);
  let way = g.n(4);
  let complete = g.p(50);
  let with_errors = g.p(30);
  let (tx, rx) = Flux::<u64, u64>::new_channels();
  if way == 2 {
    // nothing can have come yet: these receives are abandoned for certain
    for _ in 0..3 {
      let mut f = rx.recv();
      let w = noop_waker();
      if f.as_mut().poll(&mut Context::from_waker(&w)).is_ready() {
        v::fail("recv", "recv was ready although nothing has been sent".to_owned());
      }
      drop(f);
      v::count("abandoned", 1);
    }
  }
  let left = Arc::new(AtomicUsize::new(producers));
  let mut hs = Vec::new();
  for p in 0..producers {
    let tx = tx.clone();
    let left = left.clone();
    let mut g = Rng::new(g.u64());
    hs.push(std::thread::spawn(move || {
      for i in 0..each {
        let x = ((p as u64) << 32) | i as u64;
        let r = if with_errors && i % 7 == 3 { tx.error(x) } else { tx.send(x) };
        if r.is_err() {
          v::fail("send", "send failed although the receiver is there".to_owned());
        }
        if g.p(10) {
          std::thread::yield_now();
        }
      }
      if left.fetch_sub(1, Ordering::SeqCst) == 1 && complete {
        tx.complete();
      }
    }));
  }
  drop(tx);
  let mut g2 = Rng::new(g.u64());
  let consumer = async move {
    let mut rx = rx;
    let mut seen: Vec<(bool, u64)> = Vec::new();
    loop {
      let item = match way {
        0 => rx.next().await,
        1 => match rx.recv().await {
          Ok(i) => i,
          Err(e) => {
            v::fail("recv", format!("recv failed: {}", e));
            return seen;
          }
        },
        2 => {
          // receives which are abandoned before anything came, then one which is not
          for _ in 0..g2.n(3) {
            let mut f = rx.recv();
            let w = noop_waker();
            if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) {
              match r {
                Ok(Some(Ok(x))) => seen.push((true, x)),
                Ok(Some(Err(x))) => seen.push((false, x)),
                Ok(None) => return seen,
                Err(e) => {
                  v::fail("recv", format!("recv failed: {}", e));
                  return seen;
                }
              }
            } else {
              v::count("abandoned", 1);
            }
          }
          match rx.recv().await {
            Ok(i) => i,
            Err(e) => {
              v::fail("recv", format!("recv failed after an abandoned one: {}", e));
              return seen;
            }
          }
        }
        _ => {
          // the receiver moves on to a clone, or to an ejected one, now and then
          match g2.n(20) {
            0 => rx = rx.clone(),
            1 => match rx.eject() {
              Some(n) => rx = n,
              None => {
                v::fail("eject", "nothing to eject".to_owned());
                return seen;
              }
            },
            _ => {}
          }
          poll_fn(|cx| rx.poll_recv(cx)).await
        }
      };
      match item {
        Some(Ok(x)) => seen.push((true, x)),
        Some(Err(x)) => seen.push((false, x)),
        None => return seen,
      }
    }
  };
  let seen = futures::executor::block_on(consumer);
  for h in hs {
    let _ = h.join();
  }
  let mut at = vec![0u64; producers];
  for (ok, x) in &seen {
    let (p, i) = ((x >> 32) as usize, x & 0xffff_ffff);
    if i != at[p] {
      v::fail("order", format!("item {} of producer {} came when {} was due (way {})", i, p, at[p], way));
      return;
    }
    if *ok == (with_errors && i % 7 == 3) {
      v::fail("kind", format!("item {} came as ok={}", i, ok));
    }
    at[p] += 1;
  }
  if at.iter().any(|n| *n != each as u64) {
    v::fail("lost", format!("the flux ended with {:?} of {} items received (way {})", at, each, way));
  }
  v::count("threaded_items", seen.len() as u64);
  let order: Vec<u8> = seen.iter().map(|(_, x)| (x >> 32) as u8).collect();
  v::distinct(&[&order]);
}

fn monos(g: &mut Rng) {
  let w = noop_waker();
  let mut cx = Context::from_waker(&w);
  let x = g.u64();
  let e = format!("e{}", x);
  let mut m: Mono<u64, String> = match g.n(6) {
    0 => Mono::new_success(x),
    1 => Mono::new_error(e.clone()),
    2 => {
      let mut m = if g.p(50) { Mono::new() } else { Mono::default() };
      for _ in 0..g.n(3) {
        if Pin::new(&mut m).poll(&mut cx).is_ready() {
          v::fail("mono", "an empty mono is ready".to_owned());
        }
      }
      m.success(x);
      m
    }
    3 => {
      let mut m = Mono::new();
      for _ in 0..g.n(3) {
        if Pin::new(&mut m).poll(&mut cx).is_ready() {
          v::fail("mono", "an empty mono is ready".to_owned());
        }
      }
      m.error(e.clone());
      m
    }
    k => {
      // a future which something else finishes later, on another thread or this one
      let (tx, rx) = oneshot::<Result<u64, String>>();
      let fail = k == 5;
      let val = if fail { Err(e.clone()) } else { Ok(x) };
      let mut m = Mono::from_future(async move { rx.await.map_err(|_| "lost".to_owned())? });
      if Pin::new(&mut m).poll(&mut cx).is_ready() {
        v::fail("mono", "ready before its future".to_owned());
      }
      let h = std::thread::spawn(move || {
        if tx.is_closed() {
          v::fail("oneshot", "closed although the receiver is there".to_owned());
        }
        tx.send(val).is_ok()
      });
      let r = futures::executor::block_on(m);
      if r != (if fail { Err(e.clone()) } else { Ok(x) }) {
        v::fail("mono", format!("future mono gave {:?}", r));
      }
      if !h.join().unwrap_or(false) {
        v::fail("oneshot", "send failed".to_owned());
      }
      v::count("monos", 1);
      return;
    }
  };
  let r = match Pin::new(&mut m).poll(&mut cx) {
    Poll::Ready(r) => r,
    Poll::Pending => {
      v::fail("mono", "a filled mono is not ready".to_owned());
      return;
    }
  };
  if r != Ok(x) && r != Err(e) {
    v::fail("mono", format!("gave {:?}", r));
  }
  v::count("monos", 1);
}

/// A Mono somebody waits for gets its value although it was empty at first.
fn mono_wait(g: &mut Rng) {
  let x = g.u64();
  let m = Arc::new(std::sync::Mutex::new(Mono::<u64, String>::new()));
  let m2 = m.clone();
  let h = std::thread::spawn(move || {
    std::thread::yield_now();
    m2.lock().unwrap().success(x);
  });
  let r = futures::executor::block_on(poll_fn(|cx| Pin::new(&mut *m.lock().unwrap()).poll(cx)));
  if r != Ok(x) {
    v::fail("mono", format!("gave {:?}", r));
  }
  let _ = h.join();
  v::count("monos", 1);
}

fn channels(g: &mut Rng) {
  let (tx, mut rx) = unbounded_channel::<u64>();
  let producers = 1 + g.n(3);
  let each = g.n(100) as u64;
  let mut hs = Vec::new();
  for p in 0..producers as u64 {
    let tx = tx.clone();
    hs.push(std::thread::spawn(move || {
      for i in 0..each {
        if tx.send(p << 32 | i).is_err() {
          v::fail("channel", "send failed".to_owned());
        }
      }
    }));
  }
  drop(tx);
  let mut at = vec![0u64; producers];
  futures::executor::block_on(async {
    loop {
      let x = if g.p(50) { rx.recv().await } else { poll_fn(|cx| rx.poll_recv(cx)).await };
      let Some(x) = x else { break };
      let p = (x >> 32) as usize;
      if x & 0xffff_ffff != at[p] {
        v::fail("channel", format!("item {} of producer {} when {} was due", x & 0xffff_ffff, p, at[p]));
      }
      at[p] += 1;
    }
  });
  if at.iter().any(|n| *n != each) {
    v::fail("channel", format!("ended after {:?} of {} items", at, each));
  }
  for h in hs {
    let _ = h.join();
  }
  let (tx, rx) = unbounded_channel::<u64>();
  let tx2 = tx.clone();
  if tx.is_closed() {
    v::fail("channel", "closed".to_owned());
  }
  drop(rx);
  if !tx.is_closed() || tx2.send(1).is_ok() {
    v::fail("channel", "open without receiver".to_owned());
  }
  let (tx, rx) = oneshot::<u64>();
  if g.p(50) {
    drop(tx);
    if !matches!(rx.recv().now_or_never(), Some(Err(_))) {
      v::fail("oneshot", "no error although the sender is gone".to_owned());
    }
  } else if g.p(50) {
    drop(rx);
    if !tx.is_closed() || tx.send(1).is_ok() {
      v::fail("oneshot", "open without receiver".to_owned());
    }
  } else {
    let _ = tx.send(7);
    if !matches!(rx.recv().now_or_never(), Some(Ok(7))) {
      v::fail("oneshot", "value lost".to_owned());
    }
  }
  v::count("channels", 1);
}

fn maps(g: &mut Rng) {
  let m: SafeMap<u32, u64> = SafeMap::default();
  let mut model: HashMap<u32, u64> = HashMap::new();
  for _ in 0..100 {
    let k = g.n(12) as u32;
    let bad = match g.n(5) {
      0 | 1 => {
        let x = g.u64();
        m.insert(k, x);
        model.insert(k, x);
        false
      }
      2 => m.remove(&k) != model.remove(&k),
      3 => m.cloned(&k) != model.get(&k).copied(),
      _ => match (m.entry(k), model.get(&k).copied()) {
        (Entry::Occupied(o), Some(x)) => {
          let bad = *o.get() != x;
          if g.p(50) {
            let b2 = o.remove() != x;
            model.remove(&k);
            bad || b2
          } else {
            bad
          }
        }
        (Entry::Vacant(_), None) => false,
        _ => true,
      },
    };
    if bad || m.len() != model.len() || m.is_empty() != model.is_empty() {
      v::fail("map", format!("key {}: map of {} against model of {}", k, m.len(), model.len()));
      return;
    }
  }
  // of those who take the same thing at once, one gets it
  let o = if g.p(50) { OptionalMut::new(5u64) } else {
    let o = OptionalMut::none();
    o.insert(5u64);
    o
  };
  let m = Arc::new(m);
  m.insert(99, 1);
  let wins: usize = std::thread::scope(|s| {
    let hs: Vec<_> = (0..4)
      .map(|_| {
        let (o, m) = (o.clone(), m.clone());
        s.spawn(move || usize::from(o.take().is_some()) + usize::from(m.remove(&99).is_some()))
      })
      .collect();
    hs.into_iter().map(|h| h.join().unwrap_or(100)).sum()
  });
  if wins != 2 {
    v::fail("once", format!("two things were taken {} times", wins));
  }
  v::count("map_steps", 100);
}

fn pipes(g: &mut Rng) {
  let (tx, rx) = Flux::<u64, String>::new_channels();
  let mut p = rx.pipe(Flux::new());
  let n = g.n(20);
  let mut want = Vec::new();
  for i in 0..n as u64 {
    if g.p(20) {
      let _ = tx.error(i.to_string());
      want.push(Got::Err(i.to_string()));
    } else {
      let _ = tx.send(i);
      want.push(Got::Item(i));
    }
    if g.p(40) {
      let got = poll_next(&mut p);
      let w = want.remove(0);
      if got != w {
        v::fail("pipe", format!("got {:?}, want {:?}", got, w));
      }
    }
  }
  if g.p(50) {
    tx.complete();
  } else {
    drop(tx);
  }
  want.push(Got::End);
  for w in want {
    let got = poll_next(&mut p);
    if got != w {
      v::fail("pipe", format!("got {:?}, want {:?}", got, w));
    }
  }
  let mut none: Rx = FluxReceiver::none();
  if poll_next(&mut none) != Got::End || !matches!(none.recv().now_or_never(), Some(Err(_))) {
    v::fail("none", "an empty receiver is not at its end".to_owned());
  }
  v::count("pipes", 1);
}

pub fn check(r: &mut R) {
  let k = if r.thorough { 300 } else { 5 };
  r.cases("single", 4000 * k, single);
  r.cases("threads", 300 * k, threads);
  r.cases("monos", 600 * k, monos);
  r.cases("mono_wait", 60 * k, mono_wait);
  r.cases("channels", 200 * k, channels);
  r.cases("maps", 100 * k, maps);
  r.cases("pipes", 300 * k, pipes);
}
