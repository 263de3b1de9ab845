//! P40: two sockets joined by a wire the monitors listen to, and one socket
//! against a scripted peer.
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

use bytes::Bytes;
use futures::task::noop_waker;
use futures::{FutureExt, StreamExt};
use wasmrs::{Frame, Payload, PayloadError, RSocket, SocketSide, WasmSocket};
use wasmrs_runtime::UnboundedReceiver;
use wasmrs_rx::*;

use crate::frames::{build, ref_decode, Ref};
use crate::v::{self, Rng, R};

const NEXT: u16 = 1 << 5;
const COMPLETE: u16 = 1 << 6;
const METADATA: u16 = 1 << 8;
/// Streams with these ids and above belong to injected noise.
const NOISE: u32 = 1_000_000;

/// What a request asks its responder to do; it travels in the request's data.
#[derive(Clone, Debug, PartialEq)]
struct Script {
  id: u64,
  mode: u8,
  items: usize,
  /// 0 completes, 1 fails, 2 goes away without a word (streams).
  end: u8,
  stop: usize,
  size: usize,
  yields: usize,
}

impl Script {
  fn text(&self) -> String {
    format!("{},{},{},{},{},{},{}", self.id, self.mode, self.items, self.end, self.stop, self.size, self.yields)
  }
  fn parse(d: &[u8]) -> Option<Script> {
    let s = std::str::from_utf8(d).ok()?;
    let p: Vec<u64> = s.split(',').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    if p.len() != 7 {
      return None;
    }
    Some(Script {
      id: p[0],
      mode: p[1] as u8,
      items: p[2] as usize,
      end: p[3] as u8,
      stop: p[4] as usize,
      size: p[5] as usize,
      yields: p[6] as usize,
    })
  }
  fn message(&self) -> String {
    format!("failure of {} ü", self.id)
  }
}

const FOREVER: usize = 1 << 40;

fn body(id: u64, what: &str, j: usize, size: usize) -> (Vec<u8>, Vec<u8>) {
  let mut d = format!("{}{}:{}:", what, id, j).into_bytes();
  for k in 0..size {
    d.push((k as u64 ^ id ^ j as u64) as u8);
  }
  let m = if (id + j as u64) % 3 == 0 { vec![] } else { format!("m{}", j).into_bytes() };
  (m, d)
}

fn payload(id: u64, what: &str, j: usize, size: usize) -> Payload {
  let (m, d) = body(id, what, j, size);
  Payload::new_data(if m.is_empty() && j % 2 == 0 { None } else { Some(m.into()) }, Some(d.into()))
}

fn parts(p: &Payload) -> (Vec<u8>, Vec<u8>) {
  (
    p.metadata.as_ref().map(|b| b.to_vec()).unwrap_or_default(),
    p.data.as_ref().map(|b| b.to_vec()).unwrap_or_default(),
  )
}

async fn pause(n: usize) {
  for _ in 0..n {
    tokio::task::yield_now().await;
  }
}

/// What the responders saw.
#[derive(Default)]
struct Seen {
  requests: Mutex<HashMap<u64, usize>>,
  /// Inputs of a channel and how they ended.
  inputs: Mutex<HashMap<u64, (Vec<(Vec<u8>, Vec<u8>)>, String)>>,
  /// Producers which noticed that nobody listens any more.
  stopped: Mutex<HashMap<u64, usize>>,
  running: AtomicUsize,
}

struct Running(Arc<Seen>);
impl Running {
  fn new(s: &Arc<Seen>) -> Self {
    s.running.fetch_add(1, Ordering::SeqCst);
    Running(s.clone())
  }
}
impl Drop for Running {
  fn drop(&mut self) {
    self.0.running.fetch_sub(1, Ordering::SeqCst);
  }
}

struct App {
  seen: Arc<Seen>,
}

impl App {
  fn note(&self, s: &Script) {
    *self.seen.requests.lock().unwrap().entry(s.id).or_insert(0) += 1;
  }
}

fn bad_script(p: &Payload) -> PayloadError {
  v::fail("request", format!("a request arrived damaged: {:?}", parts(p)));
  PayloadError::application_error("damaged")
}

fn script_of(p: &Payload) -> Option<Script> {
  Script::parse(p.data.as_ref()?)
}

impl RSocket for App {
  fn fire_and_forget(&self, p: Payload) -> Mono<(), PayloadError> {
    let Some(s) = script_of(&p) else { return Mono::new_error(bad_script(&p)) };
    self.note(&s);
    match s.end {
      0 => Mono::new_success(()),
      _ => Mono::from_future(async move {
        pause(s.yields).await;
        Ok(())
      }),
    }
  }

  fn request_response(&self, p: Payload) -> Mono<Payload, PayloadError> {
    let Some(s) = script_of(&p) else { return Mono::new_error(bad_script(&p)) };
    self.note(&s);
    let r = if s.end == 1 {
      Err(PayloadError::application_error(s.message()))
    } else {
      Ok(payload(s.id, "r", 0, s.size))
    };
    match (s.mode, r) {
      (0, Ok(p)) => Mono::new_success(p),
      (0, Err(e)) => Mono::new_error(e),
      (_, r) => {
        let run = Running::new(&self.seen);
        Mono::from_future(async move {
          let _run = run;
          pause(s.yields).await;
          r
        })
      }
    }
  }

  fn request_stream(&self, p: Payload) -> FluxReceiver<Payload, PayloadError> {
    let (tx, rx) = Flux::new_channels();
    let Some(s) = script_of(&p) else {
      let _ = tx.error(bad_script(&p));
      return rx;
    };
    self.note(&s);
    let seen = self.seen.clone();
    let run = Running::new(&seen);
    let work = async move {
      let _run = run;
      produce(&seen, &s, &tx).await;
    };
    if s_sync(&p) {
      // everything is there before the socket looks
      let _ = work.now_or_never();
    } else {
      wasmrs_runtime::spawn(work);
    }
    rx
  }

  fn request_channel(&self, mut input: FluxReceiver<Payload, PayloadError>) -> FluxReceiver<Payload, PayloadError> {
    let (tx, rx) = Flux::new_channels();
    let seen = self.seen.clone();
    let run = Running::new(&seen);
    wasmrs_runtime::spawn(async move {
      let _run = run;
      let first = match input.next().await {
        Some(Ok(p)) => p,
        x => {
          v::fail("request", format!("the first input of a channel is {:?}", x));
          return;
        }
      };
      let Some(s) = script_of(&first) else {
        let _ = tx.error(bad_script(&first));
        return;
      };
      *seen.requests.lock().unwrap().entry(s.id).or_insert(0) += 1;
      let mut got = vec![parts(&first)];
      let mut end = String::from("left");
      match s.mode {
        // echo every input
        0 => {
          let _ = tx.send(first);
          loop {
            pause(s.yields).await;
            match input.next().await {
              Some(Ok(p)) => {
                got.push(parts(&p));
                let _ = tx.send(p);
              }
              Some(Err(e)) => {
                end = format!("error {}", e.msg);
                let _ = tx.error(e);
                break;
              }
              None => {
                end = "end".to_owned();
                tx.complete();
                break;
              }
            }
          }
          record(&seen, s.id, got, end);
        }
        // read everything, then answer
        1 => {
          loop {
            match input.next().await {
              Some(Ok(p)) => got.push(parts(&p)),
              Some(Err(e)) => {
                end = format!("error {}", e.msg);
                break;
              }
              None => {
                end = "end".to_owned();
                break;
              }
            }
            pause(s.yields).await;
          }
          record(&seen, s.id, got, end);
          produce(&seen, &s, &tx).await;
        }
        // read a part, drop the input, answer
        2 => {
          while got.len() < s.stop {
            match input.next().await {
              Some(Ok(p)) => got.push(parts(&p)),
              Some(Err(e)) => {
                end = format!("error {}", e.msg);
                break;
              }
              None => {
                end = "end".to_owned();
                break;
              }
            }
          }
          drop(input);
          record(&seen, s.id, got, end);
          produce(&seen, &s, &tx).await;
        }
        // read and answer side by side
        _ => {
          let seen2 = seen.clone();
          let s2 = s.clone();
          let run2 = Running::new(&seen);
          wasmrs_runtime::spawn(async move {
            let _run = run2;
            loop {
              pause(s2.yields).await;
              match input.next().await {
                Some(Ok(p)) => got.push(parts(&p)),
                Some(Err(e)) => {
                  end = format!("error {}", e.msg);
                  break;
                }
                None => {
                  end = "end".to_owned();
                  break;
                }
              }
            }
            record(&seen2, s2.id, got, end);
          });
          produce(&seen, &s, &tx).await;
        }
      }
    });
    rx
  }
}

fn s_sync(p: &Payload) -> bool {
  script_of(p).is_some_and(|s| s.mode == 9)
}

fn record(seen: &Seen, id: u64, got: Vec<(Vec<u8>, Vec<u8>)>, end: String) {
  seen.inputs.lock().unwrap().insert(id, (got, end));
}

async fn produce(seen: &Seen, s: &Script, tx: &Flux<Payload, PayloadError>) {
  for j in 0..s.items {
    if s.mode != 9 {
      pause(s.yields).await;
      if s.items == FOREVER {
        pause(1).await;
        // Threads may be held up for as long as the machine likes: from here on
        // it is time which counts, not items.
        if j > 20_000 {
          tokio::time::sleep(Duration::from_millis(1)).await;
        }
        if j > 40_000 {
          v::fail("cancel", format!("a producer went on for {} items although its consumer had left", j));
          break;
        }
      }
    }
    if tx.send(payload(s.id, "s", j, s.size)).is_err() {
      seen.stopped.lock().unwrap().insert(s.id, j);
      return;
    }
  }
  match s.end {
    0 => tx.complete(),
    1 => {
      let _ = tx.error(PayloadError::application_error(s.message()));
      if s.id % 2 == 0 {
        // what comes after an error must not get through
        let _ = tx.send(payload(s.id, "late", 0, 1));
        tx.complete();
      }
    }
    _ => {}
  }
}

// ---------------------------------------------------------------------------
// the wire

#[derive(Debug, Default, Clone)]
struct Stream {
  opener: usize,
  kind: u8,
  /// Per side: nothing but frames of flow control may follow.
  ended: [bool; 2],
  cancels: [u32; 2],
  granted: u64,
  sent: u64,
}

struct Wire {
  streams: Mutex<BTreeMap<u32, Stream>>,
  frames: AtomicUsize,
  order: Mutex<Vec<u8>>,
}

impl Wire {
  fn new() -> Self {
    Wire {
      streams: Default::default(),
      frames: Default::default(),
      order: Default::default(),
    }
  }

  /// side 0 is the host (even ids), side 1 the guest.
  fn frame(&self, side: usize, b: &[u8]) {
    self.frames.fetch_add(1, Ordering::SeqCst);
    let Some(f) = ref_decode(b) else {
      v::fail("wire", format!("side {} sent {:?}, which is no frame", side, &b[..b.len().min(60)]));
      return;
    };
    if f.sid >= NOISE {
      return;
    }
    {
      let mut o = self.order.lock().unwrap();
      if o.len() < 4000 {
        o.push((side as u8) << 7 | f.kind);
      }
    }
    let known = match f.kind {
      7 => METADATA | COMPLETE | NEXT,
      10 => METADATA | COMPLETE | NEXT,
      _ => METADATA,
    };
    if f.flags & !known != 0 {
      v::fail("wire", format!("side {} set the flags {:#x} on a frame of type {}", side, f.flags, f.kind));
    }
    let mut st = self.streams.lock().unwrap();
    if matches!(f.kind, 4..=7) {
      if f.sid == 0 || (f.sid % 2 == 0) != (side == 0) {
        v::fail("wire", format!("side {} opened stream {}", side, f.sid));
      }
      if st.contains_key(&f.sid) {
        v::fail("wire", format!("side {} opened stream {} again", side, f.sid));
      }
      if matches!(f.kind, 6 | 7) && (f.n == 0 || f.n > 0x7fff_ffff) {
        v::fail("wire", format!("stream {} requested with an initial demand of {}", f.sid, f.n));
      }
      st.insert(f.sid, Stream { opener: side, kind: f.kind, ..Default::default() });
      return;
    }
    let Some(s) = st.get_mut(&f.sid) else {
      v::fail("wire", format!("side {} sent a frame of type {} on the unknown stream {}", side, f.kind, f.sid));
      return;
    };
    let opener = s.opener == side;
    let bad = |why: &str, s: &Stream| v::fail("wire", format!("side {} on stream {}: {} (type {}, flags {:#x}): {:?}", side, f.sid, why, f.kind, f.flags, s));
    match f.kind {
      10 => {
        if s.ended[side] {
          bad("a payload after the end", s);
        }
        if f.flags & (NEXT | COMPLETE) == 0 {
          bad("a payload which is neither item nor end", s);
        }
        if opener && s.kind != 7 || s.kind == 5 {
          bad("a payload nobody asked for", s);
        }
        if s.kind == 4 && f.flags & (NEXT | COMPLETE) != NEXT | COMPLETE {
          bad("a response which is not the last one", s);
        }
        if opener && f.flags & NEXT != 0 {
          s.sent += 1;
          if s.sent > s.granted {
            bad("more input than granted", s);
          }
        }
        if f.flags & COMPLETE != 0 {
          s.ended[side] = true;
        }
      }
      11 => {
        if s.ended[side] {
          bad("an error after the end", s);
        }
        s.ended[side] = true;
      }
      9 => {
        s.cancels[side] += 1;
        if s.cancels[side] > 1 {
          bad("cancelled twice", s);
        }
      }
      8 => {
        if f.n == 0 || f.n > 0x7fff_ffff {
          bad("demand out of range", s);
        }
        if opener {
          bad("demand", s);
        } else if s.kind != 7 {
          bad("demand by the responder", s);
        } else {
          s.granted += f.n as u64;
        }
      }
      _ => bad("a frame type of no use", s),
    }
  }
}

type Rx = Arc<futures::lock::Mutex<UnboundedReceiver<Frame>>>;

async fn pump(rx: Rx, side: usize, wire: Arc<Wire>, to: Arc<WasmSocket>, mut g: Rng, slow: usize) {
  let mut held: Vec<Bytes> = Vec::new();
  let mut rx = rx.lock().await;
  loop {
    let f = if held.is_empty() {
      match rx.recv().await {
        Some(f) => Some(f),
        None => return,
      }
    } else {
      rx.recv().now_or_never().flatten()
    };
    if let Some(f) = f {
      let b = f.encode();
      wire.frame(side, &b);
      held.push(b);
      if slow > 0 && g.n(slow + 1) > 0 && held.len() < 40 {
        pause(1).await;
        continue;
      }
    }
    // deliver a batch
    for b in held.drain(..) {
      if slow > 0 {
        pause(g.n(slow)).await;
      }
      match Frame::decode(b.clone()) {
        Ok(f) => {
          if let Err(e) = to.process_once(f) {
            v::fail("process", format!("processing {:?} failed: {}", &b[..b.len().min(60)], e));
          }
        }
        Err(e) => v::fail("decode", format!("{:?} refused: {:?}", &b[..b.len().min(60)], e)),
      }
    }
  }
}

// ---------------------------------------------------------------------------
// the callers

#[derive(Clone, Debug)]
struct Ask {
  s: Script,
  kind: u8,
  from: usize,
  /// How many outputs the caller takes before it leaves; FOREVER for all.
  take: usize,
  inputs: usize,
  /// 0 completes, 1 fails, 2 drops the sender.
  in_end: u8,
  in_yields: usize,
}

fn ask(g: &mut Rng, id: u64) -> Ask {
  let kind = *g.pick(&[4u8, 4, 5, 6, 6, 6, 7, 7, 7]);
  let mut s = Script {
    id,
    mode: g.n(4) as u8,
    items: g.n(12),
    end: if g.p(60) { 0 } else { 1 + g.n(2) as u8 },
    stop: 1 + g.n(5),
    size: if g.p(5) { 5000 } else { g.n(40) },
    yields: g.n(4),
  };
  let mut take = FOREVER;
  if matches!(kind, 6 | 7) && g.p(25) {
    take = g.n(6);
    if g.p(60) {
      s.items = FOREVER;
    }
  }
  if kind == 6 && g.p(20) && s.items != FOREVER {
    s.mode = 9;
  }
  if kind == 6 && s.mode < 9 {
    s.mode = 5;
  }
  if kind == 7 && s.items == FOREVER && s.mode == 0 {
    s.items = 3;
  }
  Ask {
    kind,
    from: g.n(2),
    take,
    inputs: if g.p(8) { 0 } else { 1 + g.n(14) },
    in_end: if g.p(70) { 0 } else { 1 + g.n(2) as u8 },
    in_yields: g.n(4),
    s,
  }
}

/// The inputs of a channel: the first one carries the script.
fn input(a: &Ask, j: usize) -> Payload {
  if j == 0 {
    Payload::new_data(Some(Bytes::from_static(b"op")), Some(a.s.text().into()))
  } else {
    payload(a.s.id, "i", j, a.s.size)
  }
}

fn input_message(a: &Ask) -> String {
  format!("input of {} failed", a.s.id)
}

async fn call(a: Ask, sock: Arc<WasmSocket>, seen: Arc<Seen>) {
  let req = Payload::new_data(Some(Bytes::from_static(b"op")), Some(a.s.text().into()));
  let say = |class: &str, m: String| v::fail(class, format!("{}; {:?}", m, a));
  match a.kind {
    5 => {
      if let Err(e) = sock.fire_and_forget(req).await {
        say("fnf", format!("failed: {}", e.msg));
      }
      v::count("fnf", 1);
    }
    4 => {
      let r = sock.request_response(req);
      if a.in_end == 2 && a.in_yields == 0 {
        drop(r); // a caller which does not wait
        v::count("abandoned", 1);
        return;
      }
      pause(a.in_yields).await;
      match (r.await, a.s.end) {
        (Err(e), 1) if e.msg == a.s.message() && e.code == 0x201 => v::count("errors", 1),
        (Ok(p), x) if x != 1 && parts(&p) == body(a.s.id, "r", 0, a.s.size) => v::count("responses", 1),
        (x, _) => say("response", format!("got {:?}", x.map(|p| parts(&p)))),
      }
    }
    6 => {
      let rx = sock.request_stream(req);
      outputs(&a, rx, a.s.items, a.s.end, "s").await;
    }
    _ => {
      let (tx, rx) = Flux::new_channels();
      let out = sock.request_channel(rx);
      let a2 = a.clone();
      let feeder = async move {
        for j in 0..a2.inputs {
          pause(a2.in_yields).await;
          if tx.send(input(&a2, j)).is_err() {
            return; // nobody takes input any more
          }
        }
        pause(a2.in_yields).await;
        match a2.in_end {
          0 => tx.complete(),
          1 => {
            let _ = tx.error(PayloadError::application_error(input_message(&a2)));
          }
          _ => drop(tx),
        }
      };
      if a.inputs == 0 {
        // there is nothing to open the channel with: it ends at once
        feeder.await;
        let (items, err) = collect(out, FOREVER).await;
        let want = if a.in_end == 1 { Some(input_message(&a)) } else { None };
        if !items.is_empty() || err != want {
          say("channel", format!("an empty channel gave {:?} and ended with {:?}", items, err));
        }
        v::count("empty_channels", 1);
        return;
      }
      let (items, end) = match a.s.mode {
        0 => (a.inputs, if a.in_end == 1 { 3 } else { 0 }),
        _ => (a.s.items, a.s.end),
      };
      futures::join!(feeder, outputs(&a, out, items, end, if a.s.mode == 0 { "i" } else { "s" }));
      // what the responder saw of the input
      for _ in 0..200_000 {
        if seen.inputs.lock().unwrap().contains_key(&a.s.id) {
          break;
        }
        pause(1).await;
        if a.take != FOREVER {
          break;
        }
      }
      let rec = seen.inputs.lock().unwrap().get(&a.s.id).cloned();
      if let Some((got, end)) = rec {
        for (j, g) in got.iter().enumerate() {
          if *g != parts(&input(&a, j)) {
            say("input", format!("input {} arrived as {:?}", j, g));
          }
        }
        let whole = match a.in_end {
          1 => end == format!("error {}", input_message(&a)),
          _ => end == "end",
        };
        let all = got.len() == a.inputs;
        let ok = match a.s.mode {
          2 => (got.len() == a.s.stop.min(a.inputs) && (end == "left" || whole && all)) || a.take != FOREVER,
          _ if a.take != FOREVER => true,
          // an error of the responder may end the channel before all input is there
          3 if a.s.end == 1 => true,
          _ => all && whole,
        };
        if !ok {
          say("input", format!("the responder saw {} of {} inputs and then {:?}", got.len(), a.inputs, end));
        }
        v::count("inputs", got.len() as u64);
      } else if a.take == FOREVER {
        say("input", "the responder's input never ended".to_owned());
      }
    }
  }
}

async fn collect(mut rx: FluxReceiver<Payload, PayloadError>, take: usize) -> (Vec<(Vec<u8>, Vec<u8>)>, Option<String>) {
  let mut items = Vec::new();
  let mut err = None;
  while items.len() < take {
    match rx.next().await {
      Some(Ok(p)) => {
        if let Some(e) = &err {
          v::fail("after-error", format!("an item after the error {:?}", e));
        }
        items.push(parts(&p));
      }
      Some(Err(e)) => {
        if err.is_some() {
          v::fail("after-error", "a second error".to_owned());
        }
        err = Some(e.msg);
      }
      None => break,
    }
  }
  (items, err)
}

/// end: 0 and 2 complete, 1 the script's error, 3 the input's error.
async fn outputs(a: &Ask, rx: FluxReceiver<Payload, PayloadError>, items: usize, end: u8, what: &str) {
  let (got, err) = collect(rx, a.take).await;
  let want = items.min(a.take);
  for (j, g) in got.iter().enumerate() {
    let w = if what == "i" { parts(&input(a, j)) } else { body(a.s.id, "s", j, a.s.size) };
    if *g != w {
      v::fail("items", format!("item {} is {:?}, want {:?}; {:?}", j, String::from_utf8_lossy(&g.1), String::from_utf8_lossy(&w.1), a));
      return;
    }
  }
  if got.len() != want {
    v::fail("items", format!("{} items instead of {}, error {:?}; {:?}", got.len(), want, err, a));
    return;
  }
  v::count("items", got.len() as u64);
  if got.len() == a.take {
    v::count("left_early", 1);
    return;
  }
  let want = match end {
    1 => Some(a.s.message()),
    3 => Some(input_message(a)),
    _ => None,
  };
  if err != want {
    v::fail("end", format!("ended with {:?}, want {:?}; {:?}", err, want, a));
  }
  v::count(if err.is_some() { "ends_error" } else { "ends_complete" }, 1);
}

fn pending(s: &WasmSocket) -> Option<usize> {
  let d = format!("{:?}", s);
  let at = d.find("pending streams: ")? + "pending streams: ".len();
  d[at..].split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
}

fn socket(side: SocketSide) -> (Arc<WasmSocket>, UnboundedReceiver<Frame>, Arc<Seen>) {
  let seen = Arc::new(Seen::default());
  let mut s = WasmSocket::new(App { seen: seen.clone() }, side);
  let rx = s.take_rx().expect("receiver");
  if s.take_rx().is_ok() {
    v::fail("take", "the receiver was given away twice".to_owned());
  }
  (Arc::new(s), rx, seen)
}

/// Gives back the queues of both sockets: a task may be about to send when all is
/// done, and finds no queue if it is gone before the task is.
async fn pair(mut g: Rng) -> [Rx; 2] {
  let wire = Arc::new(Wire::new());
  let (host, hrx, hseen) = socket(SocketSide::Host);
  let (guest, grx, gseen) = socket(SocketSide::Guest);
  let (hrx, grx) = (Rx::new(hrx.into()), Rx::new(grx.into()));
  let slow = if g.p(50) { g.n(6) } else { 0 };
  let p1 = tokio::spawn(pump(hrx.clone(), 0, wire.clone(), guest.clone(), Rng::new(g.u64()), slow));
  let p2 = tokio::spawn(pump(grx.clone(), 1, wire.clone(), host.clone(), Rng::new(g.u64()), slow));
  let n = 1 + g.n(10);
  let asks: Vec<Ask> = (0..n).map(|i| ask(&mut g, i as u64 + 1)).collect();
  let mut tasks = Vec::new();
  for a in &asks {
    let (sock, seen) = if a.from == 0 { (host.clone(), gseen.clone()) } else { (guest.clone(), hseen.clone()) };
    let a = a.clone();
    let wait = g.n(20);
    tasks.push(tokio::spawn(async move {
      pause(wait).await;
      call(a, sock, seen).await;
    }));
  }
  if g.p(40) {
    // frames which belong to nothing
    let (h, gu) = (host.clone(), guest.clone());
    let mut g = Rng::new(g.u64());
    tasks.push(tokio::spawn(async move {
      for _ in 0..30 {
        pause(g.n(10)).await;
        let to = if g.p(50) { &h } else { &gu };
        let f = Ref {
          kind: *g.pick(&[8, 9, 10, 11]),
          sid: NOISE + g.n(1000) as u32,
          flags: (g.n(8) as u16) << 5,
          n: g.n(3) as u32,
          metadata: vec![],
          data: b"noise".to_vec(),
        };
        let _ = to.process_once(build(&f));
        v::count("noise", 1);
      }
    }));
  }
  let joined = async {
    for t in tasks {
      let _ = t.await;
    }
    // let everything come to rest: all of it has to end by itself
    loop {
      let busy = hseen.running.load(Ordering::SeqCst) + gseen.running.load(Ordering::SeqCst);
      let p = pending(&host).unwrap_or(0) + pending(&guest).unwrap_or(0);
      // a fire-and-forget request may still be on its way
      let under_way = asks.iter().any(|a| {
        let seen = if a.from == 0 { &gseen } else { &hseen };
        a.kind == 5 && !seen.requests.lock().unwrap().contains_key(&a.s.id)
      });
      if busy == 0 && p == 0 && !under_way {
        break;
      }
      tokio::time::sleep(Duration::from_millis(1)).await;
    }
  };
  if tokio::time::timeout(Duration::from_secs(120), joined).await.is_err() {
    v::fail(
      "stuck",
      format!(
        "not finished: {:?} and {:?}, {} and {} tasks of the responders; {:?}\n{:?}",
        host,
        guest,
        hseen.running.load(Ordering::SeqCst),
        gseen.running.load(Ordering::SeqCst),
        asks,
        wire.streams.lock().unwrap().iter().filter(|(_, s)| !s.ended[1 - s.opener]).collect::<Vec<_>>()
      ),
    );
    return [hrx, grx];
  }
  for a in &asks {
    let seen = if a.from == 0 { &gseen } else { &hseen };
    let n = seen.requests.lock().unwrap().get(&a.s.id).copied().unwrap_or(0);
    let empty = a.kind == 7 && a.inputs == 0;
    if n != usize::from(!empty) {
      v::fail("once", format!("the request reached the responder {} times: {:?}", n, a));
    }
  }
  let total: usize = [&hseen, &gseen].iter().map(|s| s.requests.lock().unwrap().len()).sum();
  v::count("requests", total as u64);
  v::count("frames", wire.frames.load(Ordering::SeqCst) as u64);
  v::count(
    "stopped_producers",
    (hseen.stopped.lock().unwrap().len() + gseen.stopped.lock().unwrap().len()) as u64,
  );
  v::distinct(&[&wire.order.lock().unwrap()]);
  p1.abort();
  p2.abort();
  [hrx, grx]
}

// ---------------------------------------------------------------------------
// one socket and a scripted peer

struct Peer {
  sock: Arc<WasmSocket>,
  rx: UnboundedReceiver<Frame>,
  seen: Arc<Seen>,
  out: Vec<Ref>,
  own: u32,
}

impl Peer {
  fn new(g: &mut Rng) -> Peer {
    let host = g.p(50);
    let (sock, rx, seen) = socket(if host { SocketSide::Host } else { SocketSide::Guest });
    // the peer's own streams
    Peer { sock, rx, seen, out: vec![], own: if host { 1 } else { 2 } }
  }
  fn send(&mut self, f: Ref) {
    let b = Bytes::from(crate::frames::ref_encode(&f));
    match Frame::decode(b) {
      Ok(f) => {
        let _ = self.sock.process_once(f);
      }
      Err(e) => v::fail("decode", format!("{:?} refused: {:?}", f, e)),
    }
  }
  fn frame(&mut self, kind: u8, sid: u32, flags: u16, n: u32, data: &[u8]) {
    self.send(Ref { kind, sid, flags, n, metadata: vec![], data: data.to_vec() });
  }
  /// Lets the socket work until it rests and collects what it sent.
  async fn rest(&mut self) {
    // virtual time only passes when nothing can run
    tokio::time::sleep(Duration::from_millis(1)).await;
    while let Some(Some(f)) = self.rx.recv().now_or_never() {
      let b = f.encode();
      match ref_decode(&b) {
        Some(r) => self.out.push(r),
        None => v::fail("wire", format!("{:?} is no frame", b)),
      }
    }
  }
  fn take(&mut self, sid: u32) -> Vec<Ref> {
    let (a, b): (Vec<Ref>, Vec<Ref>) = self.out.drain(..).partition(|f| f.sid == sid);
    self.out = b;
    a
  }
}

fn script(g: &mut Rng, mode: u8, items: usize, end: u8) -> Script {
  Script { id: 1 + g.n(1000) as u64, mode, items, end, stop: 1, size: g.n(30), yields: g.n(3) }
}

async fn peer(mut g: Rng) {
  let mut p = Peer::new(&mut g);
  let sid = p.own + 2 * g.n(5) as u32;
  let which = g.n(9);
  match which {
    // a served stream whose consumer asks for more, at any time
    0 => {
      let items = g.n(12);
      let s = script(&mut g, if items % 2 == 0 { 5 } else { 9 }, items, g_end(items));
      p.frame(6, sid, 0, 1 + g.n(3) as u32, s.text().as_bytes());
      for _ in 0..g.n(6) {
        if g.p(50) {
          p.rest().await;
        }
        p.frame(8, sid, 0, 1 + g.n(5) as u32, b"");
      }
      p.rest().await;
      p.frame(8, sid, 0, 0x7fff_ffff, b"");
      p.rest().await;
      let fs = p.take(sid);
      check_served(&s, &fs, items, "a stream with later demand");
      v::count("demands", 1);
    }
    // a stream which is cancelled
    1 => {
      let kind = if g.p(50) { 6 } else { 7 };
      let mode = if kind == 6 { 5 } else { *g.pick(&[0u8, 2, 3]) };
      let s = script(&mut g, mode, FOREVER, 0);
      let flags = if kind == 7 && mode != 0 && g.p(30) { COMPLETE } else { 0 };
      p.frame(kind, sid, flags, 100, s.text().as_bytes());
      let at_once = g.p(20);
      if !at_once {
        for _ in 0..g.n(30) {
          pause(1).await;
          if kind == 7 && flags == 0 && g.p(20) {
            p.frame(10, sid, NEXT, 0, b"more");
          }
        }
      }
      p.frame(9, sid, 0, 0, b"");
      p.rest().await;
      let fs = p.take(sid);
      if fs.iter().any(|f| !(f.kind == 10 && f.flags & (NEXT | COMPLETE) == NEXT || kind == 7 && (f.kind == 8 || f.kind == 9))) {
        v::fail("cancel", format!("a cancelled request of type {} ended with {:?}", kind, fs.last()));
      }
      if p.seen.running.load(Ordering::SeqCst) != 0 {
        v::fail("cancel", format!("the producer of a cancelled request of type {} goes on", kind));
      }
      p.rest().await;
      if !p.take(sid).is_empty() {
        v::fail("cancel", "a cancelled stream goes on".to_owned());
      }
      v::count("cancelled", 1);
    }
    // a channel opened by the socket, paced by the peer
    2 => {
      let mut a = ask(&mut g, 7);
      a.inputs = 1 + g.n(20);
      a.in_end = g.n(3) as u8;
      let (tx, rx) = Flux::new_channels();
      let _out = p.sock.request_channel(rx);
      for j in 0..a.inputs {
        let _ = tx.send(input(&a, j));
      }
      match a.in_end {
        0 => tx.complete(),
        1 => {
          let _ = tx.error(PayloadError::application_error(input_message(&a)));
        }
        _ => drop(tx),
      }
      p.rest().await;
      let sid = match p.out.first() {
        Some(f) if f.kind == 7 => f.sid,
        x => {
          v::fail("channel", format!("a channel was opened with {:?}", x));
          return;
        }
      };
      let mut got = p.take(sid);
      let mut granted = 0usize;
      let whole = g.p(30);
      while granted < a.inputs - 1 {
        let items = got.len() - 1;
        if items != granted.min(a.inputs - 1) || got.iter().any(|f| f.flags & COMPLETE != 0 || f.kind == 11) {
          v::fail("demand", format!("{} inputs sent with {} granted: {:?}; {:?}", items, granted, got.last(), a));
          return;
        }
        let n = if whole { a.inputs - 1 - granted } else { 1 + g.n(4) };
        granted += n;
        if n > 1 && g.p(50) {
          p.frame(8, sid, 0, 1, b"");
          p.frame(8, sid, 0, n as u32 - 1, b"");
        } else {
          p.frame(8, sid, 0, n as u32, b"");
        }
        p.rest().await;
        got.extend(p.take(sid));
      }
      // everything was granted: input and its end are there
      let n = got.len() - 1;
      let end = got.last().cloned().unwrap();
      let ok = match a.in_end {
        1 => end.kind == 11 && end.data == input_message(&a).into_bytes(),
        _ => end.kind == 10 && end.flags & (NEXT | COMPLETE) == COMPLETE,
      };
      if !ok || n != a.inputs {
        v::fail("demand", format!("{} frames after all demand was granted, the last one {:?}; {:?}", got.len(), end, a));
        return;
      }
      for (j, f) in got[..n].iter().enumerate() {
        if (f.metadata.clone(), f.data.clone()) != parts(&input(&a, j)) || f.flags & COMPLETE != 0 {
          v::fail("demand", format!("input {} was sent as {:?}", j, f));
        }
      }
      v::count("paced_channels", 1);
    }
    // a channel request which is complete
    3 => {
      let items = g.n(6);
      let s = script(&mut g, 1, items, 0);
      p.frame(7, sid, COMPLETE, 100, s.text().as_bytes());
      p.rest().await;
      let fs: Vec<Ref> = p.take(sid).into_iter().filter(|f| f.kind != 8).collect();
      check_served(&s, &fs, items, "a complete channel request");
      let rec = p.seen.inputs.lock().unwrap().get(&s.id).cloned();
      if !matches!(&rec, Some((l, e)) if l.len() == 1 && e == "end") {
        v::fail("channel", format!("a complete channel request gave its handler {:?}", rec));
      }
      v::count("complete_requests", 1);
    }
    // errors and cancellations reach the callers
    4 => {
      let code = *g.pick(&[1u32, 0x101, 0x201, 0x202, 0x203, 0x204, 77, 0]);
      let msg = if g.p(20) { String::new() } else { g.string(40) };
      let kind = *g.pick(&[4u8, 6, 7]);
      let cancel = kind == 4 && g.p(30);
      let items = if kind == 4 { 0 } else { g.n(4) };
      let (tx, inp) = Flux::new_channels();
      let _ = tx.send(Payload::new(Bytes::new(), Bytes::from_static(b"x")));
      let mut mono = None;
      let mut flux = None;
      match kind {
        4 => mono = Some(p.sock.request_response(Payload::empty())),
        6 => flux = Some(p.sock.request_stream(Payload::empty())),
        _ => flux = Some(p.sock.request_channel(inp)),
      }
      p.rest().await;
      let Some(sid) = p.out.first().map(|f| f.sid) else {
        v::fail("request", format!("no request of type {} was sent", kind));
        return;
      };
      for j in 0..items {
        p.send(Ref { kind: 10, sid, flags: NEXT, n: 0, metadata: vec![], data: vec![j as u8] });
      }
      let leave = g.p(30);
      if leave {
        mono = None;
        flux = None;
      }
      if cancel {
        p.frame(9, sid, 0, 0, b"");
      } else {
        p.frame(11, sid, 0, code, msg.as_bytes());
      }
      // whatever comes late for it is of no consequence
      for _ in 0..g.n(3) {
        let k = *g.pick(&[8u8, 9, 10, 11]);
        p.frame(k, sid, NEXT, 1, b"late");
      }
      let check = |e: PayloadError| {
        let ok = if cancel { e.code == 0x203 } else { e.code == code && (msg.is_empty() || e.msg == msg) };
        if !ok {
          v::fail("error", format!("error {} {:?} arrived as {} {:?}", code, msg, e.code, e.msg));
        }
        v::count("peer_errors", 1);
      };
      if let Some(m) = mono {
        match tokio::time::timeout(Duration::from_secs(60), m).await {
          Ok(Err(e)) => check(e),
          x => v::fail("error", format!("a failed request gave {:?}", x.map(|r| r.map(|p| parts(&p))))),
        }
      } else if let Some(mut f) = flux {
        for j in 0..items {
          match f.next().now_or_never() {
            Some(Some(Ok(x))) if parts(&x).1 == [j as u8] => {}
            x => v::fail("error", format!("item {} before the error is {:?}", j, x)),
          }
        }
        match f.next().now_or_never() {
          Some(Some(Err(e))) => check(e),
          x => v::fail("error", format!("a failed stream gave {:?}", x)),
        }
        if !matches!(f.next().now_or_never(), Some(None)) {
          v::fail("error", "a failed stream does not end".to_owned());
        }
      } else {
        v::count("errors_for_nobody", 1);
      }
    }
    // responses of every shape
    5 => {
      let m = p.sock.request_response(Payload::new(Bytes::from_static(b"m"), Bytes::from_static(b"d")));
      p.rest().await;
      let f = p.out.first().cloned();
      let Some(f) = f.filter(|f| f.kind == 4 && f.metadata == b"m" && f.data == b"d") else {
        v::fail("request", format!("a request was sent as {:?}", p.out.first()));
        return;
      };
      let flags = *g.pick(&[NEXT | COMPLETE, NEXT, COMPLETE]);
      let n = g.n(20);
      let data = g.bytes(n);
      p.frame(10, f.sid, flags, 0, &data);
      match (tokio::time::timeout(Duration::from_secs(60), m).await, flags & NEXT != 0) {
        (Ok(Ok(x)), true) if parts(&x).1 == data => {}
        // a response without an item is an error, not a wait
        (Ok(_), false) => {}
        (x, _) => v::fail("response", format!("a response with flags {:#x} gave {:?}", flags, x.map(|r| r.map(|p| parts(&p))))),
      }
      v::count("shapes", 1);
    }
    // a caller which leaves: one cancel frame, and what comes later goes nowhere
    6 => {
      let kind = *g.pick(&[6u8, 7]);
      let (tx, inp) = Flux::new_channels();
      let _ = tx.send(Payload::empty());
      let f = if kind == 6 { p.sock.request_stream(Payload::empty()) } else { p.sock.request_channel(inp) };
      p.rest().await;
      let Some(sid) = p.out.first().map(|f| f.sid) else {
        v::fail("request", "no request was sent".to_owned());
        return;
      };
      p.take(sid);
      drop(f);
      for _ in 0..1 + g.n(4) {
        p.frame(10, sid, NEXT, 0, b"late");
      }
      p.rest().await;
      let fs = p.take(sid);
      let cancels = fs.iter().filter(|f| f.kind == 9).count();
      if cancels != 1 {
        v::fail("cancel", format!("{} cancel frames for a stream whose caller has left: {:?}", cancels, fs));
      }
      p.frame(10, sid, COMPLETE, 0, b"");
      p.frame(11, sid, 0, 1, b"");
      v::count("left", 1);
    }
    // a responder which drops its input: its output still arrives
    7 => {
      let (tx, inp) = Flux::new_channels();
      let _ = tx.send(Payload::empty());
      let mut f = p.sock.request_channel(inp);
      p.rest().await;
      let Some(sid) = p.out.first().map(|f| f.sid) else {
        v::fail("request", "no request was sent".to_owned());
        return;
      };
      p.frame(9, sid, 0, 0, b"");
      let n = g.n(5);
      for j in 0..n {
        let _ = tx.send(Payload::empty());
        p.frame(10, sid, NEXT, 0, &[j as u8]);
      }
      p.frame(10, sid, COMPLETE, 0, b"");
      p.rest().await;
      for j in 0..n {
        match f.next().now_or_never() {
          Some(Some(Ok(x))) if parts(&x).1 == [j as u8] => {}
          x => v::fail("half", format!("output {} of a channel whose input was cancelled is {:?}", j, x)),
        }
      }
      if !matches!(f.next().now_or_never(), Some(None)) {
        v::fail("half", "the output of a channel whose input was cancelled does not end".to_owned());
      }
      v::count("half_closed", 1);
    }
    // frames without sense
    _ => {
      for _ in 0..60 {
        let f = Ref {
          kind: *g.pick(&[8, 9, 10, 11]),
          sid: g.n(40) as u32,
          flags: (g.n(8) as u16) << 5,
          n: g.n(4) as u32,
          metadata: vec![],
          data: vec![b'n'; g.n(5)],
        };
        p.send(f);
        if g.p(10) {
          p.rest().await;
        }
        v::count("noise", 1);
      }
      p.rest().await;
      p.out.clear();
      let s = script(&mut g, 5, 3, 0);
      p.frame(6, 50 + p.own, 0, 100, s.text().as_bytes());
      p.rest().await;
      let fs = p.take(50 + p.own);
      check_served(&s, &fs, 3, "a stream after noise");
    }
  }
  v::distinct(&[&[which as u8], &g.u64().to_be_bytes()]);
  v::count("peers", 1);
}

fn g_end(items: usize) -> u8 {
  (items % 3 == 1) as u8
}

fn check_served(s: &Script, fs: &[Ref], items: usize, what: &str) {
  let ok = fs.len() == items + 1
    && fs[..items]
      .iter()
      .enumerate()
      .all(|(j, f)| f.kind == 10 && f.flags & (NEXT | COMPLETE) == NEXT && (f.metadata.clone(), f.data.clone()) == body(s.id, "s", j, s.size))
    && match s.end {
      1 => fs[items].kind == 11 && fs[items].data == s.message().into_bytes(),
      _ => fs[items].kind == 10 && fs[items].flags & (NEXT | COMPLETE) == COMPLETE,
    };
  if !ok {
    v::fail("served", format!("{}: {:?} was answered with {:?}", what, s, fs));
  }
}

/// Threads which make requests on one socket at the same time: every one of
/// them gets a stream of its own.
fn ids(g: &mut Rng) {
  let host = g.p(50);
  let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
  let (sock, mut rx, _seen) = socket(if host { SocketSide::Host } else { SocketSide::Guest });
  const THREADS: usize = 4;
  const EACH: usize = 100;
  let start = Arc::new(std::sync::Barrier::new(THREADS));
  let hs: Vec<_> = (0..THREADS)
    .map(|i| {
      let (sock, start, rt) = (sock.clone(), start.clone(), rt.handle().clone());
      std::thread::spawn(move || {
        let _rt = rt.enter();
        let mut fluxes = Vec::new();
        start.wait();
        for j in 0..EACH {
          if (i + j) % 3 == 0 {
            fluxes.push(sock.request_stream(Payload::empty()));
          } else {
            drop(sock.fire_and_forget(Payload::empty()));
          }
        }
        fluxes.len()
      })
    })
    .collect();
  let open: usize = hs.into_iter().map(|h| h.join().unwrap_or(0)).sum();
  let mut seen = std::collections::HashSet::new();
  while let Some(Some(f)) = rx.recv().now_or_never() {
    let sid = f.stream_id();
    if !seen.insert(sid) || (sid % 2 == 0) != host || sid == 0 {
      v::fail("ids", format!("stream {} was opened twice, or is of the wrong parity", sid));
    }
  }
  if seen.len() != THREADS * EACH || pending(&sock) != Some(open) {
    v::fail("ids", format!("{} streams for {} requests, {:?} of {} pending", seen.len(), THREADS * EACH, pending(&sock), open));
  }
  v::count("parallel_requests", seen.len() as u64);
}

/// A peer on another thread which answers as soon as the request can be seen.
fn prompt(g: &mut Rng) {
  let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
  let (sock, mut rx, _seen) = socket(if g.p(50) { SocketSide::Host } else { SocketSide::Guest });
  let kind = g.n(2);
  const EACH: usize = 2000;
  let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
  let peer = {
    let (sock, done) = (sock.clone(), done.clone());
    std::thread::spawn(move || {
      let w = noop_waker();
      let mut cx = Context::from_waker(&w);
      loop {
        let last = done.load(Ordering::SeqCst);
        let mut any = false;
        while let Poll::Ready(Some(f)) = rx.poll_recv(&mut cx) {
          any = true;
          let answer = Frame::new_payload(f.stream_id(), Payload::empty(), NEXT | COMPLETE);
          let _ = sock.process_once(answer);
        }
        if last && !any {
          return rx;
        }
        std::hint::spin_loop();
      }
    })
  };
  let _rt = rt.enter();
  let mut monos = Vec::new();
  let mut fluxes = Vec::new();
  for _ in 0..EACH {
    if kind == 0 {
      monos.push(sock.request_response(Payload::empty()));
    } else {
      fluxes.push(sock.request_stream(Payload::empty()));
    }
    for _ in 0..g.n(200) {
      std::hint::spin_loop();
    }
  }
  done.store(true, Ordering::SeqCst);
  let _rx = peer.join().expect("peer");
  let unanswered = monos.into_iter().map(|m| m.now_or_never()).filter(|r| !matches!(r, Some(Ok(_)))).count()
    + fluxes
      .iter_mut()
      .map(|f| (f.next().now_or_never(), f.next().now_or_never()))
      .filter(|r| !matches!(r, (Some(Some(Ok(_))), Some(None))))
      .count();
  if unanswered > 0 || pending(&sock) != Some(0) {
    v::fail("prompt", format!("{} of {} requests got nothing of their answers, {:?} are pending", unanswered, EACH, pending(&sock)));
  }
  v::count("prompt_answers", EACH as u64);
}

/// Handlers which wait for each other: none may hold up another one.
#[derive(Default)]
struct Meeting {
  here: Mutex<usize>,
  all: std::sync::Condvar,
  missed: AtomicUsize,
}

struct Meet(Arc<Meeting>, usize);

impl Meet {
  fn meet(&self) {
    let m = &self.0;
    let mut here = m.here.lock().unwrap();
    *here += 1;
    m.all.notify_all();
    let (_here, r) = m.all.wait_timeout_while(here, Duration::from_secs(60), |h| *h < self.1).unwrap();
    if r.timed_out() {
      m.missed.fetch_add(1, Ordering::SeqCst);
    }
  }
}

impl RSocket for Meet {
  fn fire_and_forget(&self, _: Payload) -> Mono<(), PayloadError> {
    self.meet();
    Mono::new_success(())
  }
  fn request_response(&self, p: Payload) -> Mono<Payload, PayloadError> {
    self.meet();
    Mono::new_success(p)
  }
  fn request_stream(&self, _: Payload) -> FluxReceiver<Payload, PayloadError> {
    self.meet();
    let (tx, rx) = Flux::new_channels();
    tx.complete();
    rx
  }
  fn request_channel(&self, _: FluxReceiver<Payload, PayloadError>) -> FluxReceiver<Payload, PayloadError> {
    self.meet();
    let (tx, rx) = Flux::new_channels();
    tx.complete();
    rx
  }
}

fn blocking(g: &mut Rng) {
  let n = 2 + g.n(3);
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(n + 1).build().expect("runtime");
  let m = Arc::new(Meeting::default());
  let mut sock = WasmSocket::new(Meet(m.clone(), n), SocketSide::Host);
  let queue = sock.take_rx().expect("rx");
  let sock = Arc::new(sock);
  let mut kinds = Vec::new();
  let hs: Vec<_> = (0..n)
    .map(|i| {
      let (sock, rt, kind) = (sock.clone(), rt.handle().clone(), 4 + g.n(4) as u8);
      kinds.push(kind);
      std::thread::spawn(move || {
        let _rt = rt.enter();
        let f = Ref { kind, sid: 2 * i as u32 + 1, flags: 0, n: 10, metadata: vec![], data: vec![] };
        let _ = sock.process_once(crate::frames::build(&f));
      })
    })
    .collect();
  for h in hs {
    let _ = h.join();
  }
  let mut here = m.here.lock().unwrap();
  while *here < n && m.missed.load(Ordering::SeqCst) == 0 {
    here = m.all.wait_timeout(here, Duration::from_millis(100)).unwrap().0;
  }
  drop(here);
  if m.missed.load(Ordering::SeqCst) > 0 {
    v::fail("blocking", format!("handlers of types {:?} wait for each other in vain", kinds));
  }
  drop(rt);
  drop(queue);
  v::count("meetings", 1);
}

pub fn check(r: &mut R) {
  let k = if r.thorough { 300 } else { 5 };
  r.cases("pair", 1500 * k, |g| {
    // one thread, virtual time: the interleaving is the seed's
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
    let queues = rt.block_on(pair(Rng::new(g.u64())));
    drop(rt);
    drop(queues);
  });
  r.cases("peer", 2000 * k, |g| {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
    rt.block_on(peer(Rng::new(g.u64())));
  });
  r.cases("ids", 100 * k, ids);
  r.cases("prompt", 40 * k, prompt);
  r.cases("blocking", 20 * k, blocking);
  for kind in 0..crate::mem::KINDS {
    r.cases(&format!("memory{}", kind), if r.thorough { 20 } else { 2 }, |g| {
      let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime");
      rt.block_on(crate::mem::grow(Rng::new(g.u64()), kind));
    });
  }
  r.cases("parallel", 150 * k, |g| {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_time().build().expect("runtime");
    let queues = rt.block_on(pair(Rng::new(g.u64())));
    drop(rt);
    drop(queues);
    v::count("parallel", 1);
  });
}
