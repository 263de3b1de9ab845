//! P40: what requests leave behind, in bytes. Every request allocates; when it
//! is over, everything has to be given back, however it ended.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, AtomicU32, Ordering};
use std::sync::Arc;
use std::time::Duration;

use futures::StreamExt;
use wasmrs::{Frame, Payload, PayloadError, RSocket, SocketSide, WasmSocket};
use wasmrs_runtime::UnboundedReceiver;
use wasmrs_rx::*;

use crate::frames::{build, Ref};
use crate::v::{self, Rng};

/// The system's allocator with the bytes in use counted.
pub struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    LIVE.fetch_add(l.size() as isize, Ordering::Relaxed);
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed);
    System.dealloc(p, l)
  }
}

struct Plain;

fn item(n: u8) -> Payload {
  Payload::new_data(Some(vec![n; 4].into()), Some(vec![n; 40].into()))
}

fn failure() -> PayloadError {
  PayloadError::application_error("no")
}

impl RSocket for Plain {
  fn fire_and_forget(&self, _: Payload) -> Mono<(), PayloadError> {
    Mono::new_success(())
  }
  fn request_response(&self, p: Payload) -> Mono<Payload, PayloadError> {
    match p.data.map_or(0, |d| d[0]) {
      0 => Mono::new_success(item(1)),
      1 => Mono::new_error(failure()),
      2 => Mono::from_future(async {
        tokio::time::sleep(Duration::from_millis(1)).await;
        Ok(item(2))
      }),
      _ => Mono::from_future(async {
        tokio::time::sleep(Duration::from_millis(1)).await;
        Err(failure())
      }),
    }
  }
  fn request_stream(&self, p: Payload) -> FluxReceiver<Payload, PayloadError> {
    let (tx, rx) = Flux::new_channels();
    let how = p.data.map_or(0, |d| d[0]);
    wasmrs_runtime::spawn(async move {
      for i in 0u32.. {
        if how < 8 && i == u32::from(how / 4) * 3 {
          match how % 4 {
            0 => tx.complete(),
            1 => {
              let _ = tx.error(failure());
            }
            _ => {}
          }
          return;
        }
        if tx.send(item(i as u8)).is_err() {
          return;
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
      }
    });
    rx
  }
  fn request_channel(&self, mut input: FluxReceiver<Payload, PayloadError>) -> FluxReceiver<Payload, PayloadError> {
    let (tx, rx) = Flux::new_channels();
    wasmrs_runtime::spawn(async move {
      let mut how = None;
      let mut n = 0;
      while let Some(x) = input.next().await {
        let x = match x {
          Ok(x) => x,
          Err(e) => {
            let _ = tx.error(e);
            return;
          }
        };
        let h = *how.get_or_insert(x.data.as_ref().map_or(0, |d| d[0]));
        n += 1;
        if h == 1 && n == 2 {
          let _ = tx.error(failure());
          return;
        }
        if h == 2 && n == 2 {
          // leaves its input
          tx.complete();
          return;
        }
        if tx.send(x).is_err() {
          return;
        }
      }
      tx.complete();
    });
    rx
  }
}

async fn carry(mut rx: UnboundedReceiver<Frame>, to: Arc<WasmSocket>) {
  while let Some(f) = rx.recv().await {
    if let Ok(f) = Frame::decode(f.encode()) {
      let _ = to.process_once(f);
    }
  }
}

fn ask(how: u8) -> Payload {
  Payload::new_data(Some(vec![0; 8].into()), Some(vec![how; 30].into()))
}

/// Streams opened by frames of the harness.
static FOREIGN: AtomicU32 = AtomicU32::new(0x100_0000);

/// One request of kind number k, taken to its end.
async fn one(k: usize, s: &WasmSocket, other: &WasmSocket, parity: u32) {
  match k {
    0..=3 => {
      let _ = s.request_response(ask(k as u8)).await;
    }
    // the caller leaves at once
    4..=7 => drop(s.request_response(ask(k as u8 - 4))),
    8 => {
      let _ = s.fire_and_forget(ask(0)).await;
    }
    9..=16 => {
      let mut f = s.request_stream(ask(k as u8 - 9));
      while f.next().await.is_some() {}
    }
    // the caller leaves early, or at once
    17 | 18 => {
      let mut f = s.request_stream(ask(9));
      for _ in 0..(k - 17) * 3 {
        let _ = f.next().await;
      }
    }
    19..=27 => {
      let (tx, rx) = Flux::new_channels();
      let how = (k - 19) as u8 % 3;
      let n = 4;
      wasmrs_runtime::spawn(async move {
        for _ in 0..n {
          if tx.send(ask(how)).is_err() {
            return;
          }
          tokio::time::sleep(Duration::from_millis(1)).await;
        }
        match (k - 19) / 3 {
          0 => tx.complete(),
          1 => {
            let _ = tx.error(failure());
          }
          _ => {}
        }
      });
      let mut f = s.request_channel(rx);
      while f.next().await.is_some() {}
    }
    28 => {
      let (tx, rx) = Flux::new_channels();
      let _ = tx.send(ask(0));
      drop(s.request_channel(rx));
      tokio::time::sleep(Duration::from_millis(1)).await;
      for _ in 0..3 {
        let _ = tx.send(ask(0));
        tokio::time::sleep(Duration::from_millis(1)).await;
      }
    }
    29 => {
      let (tx, rx) = Flux::new_channels();
      tx.complete();
      let mut f = s.request_channel(rx);
      while f.next().await.is_some() {}
    }
    // requests of a peer of which nobody else knows
    30..=36 => {
      let sid = FOREIGN.fetch_add(2, Ordering::SeqCst) + parity;
      let f = |kind, flags, n, data: Vec<u8>| build(&Ref { kind, sid, flags, n, metadata: vec![], data });
      const NEXT: u16 = 1 << 5;
      const COMPLETE: u16 = 1 << 6;
      let how = if k == 33 { vec![2; 30] } else { vec![0; 30] };
      let _ = other.process_once(f(7, if k == 30 { COMPLETE | NEXT } else { NEXT }, 100, how.clone()));
      if k != 36 {
        tokio::time::sleep(Duration::from_millis(1)).await;
      }
      let _ = other.process_once(f(8, 0, 7, vec![]));
      if k > 31 {
        let _ = other.process_once(f(10, NEXT, 0, how));
      }
      let _ = match k {
        30 => Ok(()),
        31 | 33 => other.process_once(f(10, COMPLETE, 0, vec![])),
        32 => other.process_once(f(10, COMPLETE | NEXT, 0, vec![0; 30])),
        34 => other.process_once(f(11, 0, 0x201, b"no".to_vec())),
        _ => other.process_once(f(9, 0, 0, vec![])),
      };
    }
    // frames for nobody
    _ => {
      for kind in [8u8, 9, 10, 11] {
        let f = Ref { kind, sid: 900_000 + kind as u32, flags: if kind == 10 { 1 << 5 } else { 0 }, n: 3, metadata: vec![], data: vec![1] };
        let _ = other.process_once(build(&f));
      }
    }
  }
  // virtual time: everything else has rested before
  tokio::time::sleep(Duration::from_millis(20)).await;
}

pub const KINDS: usize = 38;

/// Repeats requests of one kind and compares what is in use.
pub async fn grow(mut g: Rng, k: usize) {
  let mut host = WasmSocket::new(Plain, SocketSide::Host);
  let mut guest = WasmSocket::new(Plain, SocketSide::Guest);
  let (hrx, grx) = (host.take_rx().expect("rx"), guest.take_rx().expect("rx"));
  let (host, guest) = (Arc::new(host), Arc::new(guest));
  let p1 = tokio::spawn(carry(hrx, guest.clone()));
  let p2 = tokio::spawn(carry(grx, host.clone()));
  // parity is the one of the streams which s opens
  let (s, o, parity) = if g.p(50) { (&host, &guest, 0) } else { (&guest, &host, 1) };
  // what tables and queues keep for later use has been allocated then
  for _ in 0..100 {
    one(k, s, o, parity).await;
  }
  let before = LIVE.load(Ordering::Relaxed);
  const N: isize = 1000;
  for _ in 0..N {
    one(k, s, o, parity).await;
  }
  let left = LIVE.load(Ordering::Relaxed) - before;
  if left >= N * 8 {
    v::fail("memory", format!("{} requests of kind {} have left {} bytes behind", N, k, left));
  }
  v::count("memory_kinds", 1);
  v::count("memory_requests", 100 + N as u64);
  v::distinct(&[b"mem", &[k as u8], &(left / 1000).to_be_bytes()]);
  p1.abort();
  p2.abort();
}
