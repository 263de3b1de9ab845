//! A guest made of the real Rust guest crate, compiled to WebAssembly. What its
//! operations do is told by their requests (see gguest for the one in Go).
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

use wasmrs_guest::*;

const RR: u32 = 1;
const FNF: u32 = 0;
const RS: u32 = 1;
const RC: u32 = 0;

#[no_mangle]
extern "C" fn __wasmrs_init(guest: u32, host: u32, max: u32) {
  init(guest, host, max);
  add_import(0, OperationType::RequestResponse, "host", "unused");
  add_import(RR, OperationType::RequestResponse, "host", "rr");
  add_import(FNF, OperationType::RequestFnF, "host", "fnf");
  add_import(0, OperationType::RequestStream, "host", "unused");
  add_import(RS, OperationType::RequestStream, "host", "rs");
  add_import(RC, OperationType::RequestChannel, "host", "rc");
  register_request_response("wasm", "rr", rr);
  register_request_response("wasm", "echo", echo);
  register_fire_and_forget("wasm", "fnf", fnf);
  register_request_stream("wasm", "rs", rs);
  register_request_channel("wasm", "rc", rc);
  register_request_response("wasm", "no", |_| Err("refused".into()));
  register_fire_and_forget("wasm", "no", |_| Err("refused".into()));
  register_request_stream("wasm", "no", |_| Err("refused".into()));
  register_request_channel("wasm", "no", |_| Err("refused".into()));
}

type Answer = Result<Payload, PayloadError>;

thread_local! {
  static DEFERRED: RefCell<HashMap<u32, runtime::OneShotSender<Answer>>> = RefCell::new(HashMap::new());
}

#[derive(Clone)]
struct Plan {
  mode: u8,
  n: i32,
  fail_at: i32,
  size: usize,
  id: u32,
  rest: Vec<u8>,
}

impl Plan {
  fn parse(d: &[u8]) -> Option<Plan> {
    if d.len() < 17 {
      return None;
    }
    let at = |i: usize| i32::from_be_bytes([d[i], d[i + 1], d[i + 2], d[i + 3]]);
    Some(Plan {
      mode: d[0],
      n: at(1),
      fail_at: at(5),
      size: at(9) as usize,
      id: at(13) as u32,
      rest: d[17..].to_vec(),
    })
  }

  fn item(&self, i: i32) -> Payload {
    let mut b: Vec<u8> = (0..self.size).map(|k| (self.id as usize + i as usize * 7 + k) as u8).collect();
    b.extend_from_slice(&(i as u32).to_be_bytes());
    Payload::new(Bytes::from(vec![i as u8, self.id as u8]), b.into())
  }

  fn failure(&self) -> PayloadError {
    PayloadError::application_error(format!("failure {} of {}", self.fail_at, self.id))
  }

  fn tell(&self, event: u8) {
    let mut d = vec![event];
    d.extend_from_slice(&self.id.to_be_bytes());
    let m = Host::default().fire_and_forget(call(FNF, d));
    spawn(async move {
      let _ = m.await;
    });
  }
}

fn call(index: u32, data: Vec<u8>) -> Payload {
  let mut md = index.to_be_bytes().to_vec();
  md.extend_from_slice(&[0, 0, 0, 0, 1, 2, 3]);
  Payload::new(md.into(), data.into())
}

fn bad() -> PayloadError {
  PayloadError::application_error("bad plan")
}

fn with(prefix: &[u8], p: Payload) -> Payload {
  let mut d = prefix.to_vec();
  d.extend_from_slice(&p.data.unwrap_or_default());
  Payload::new_data(p.metadata, Some(d.into()))
}

fn ask(data: Vec<u8>) -> Mono<Payload, PayloadError> {
  Host::default().request_response(call(RR, data))
}

struct Yield(bool);
impl Future for Yield {
  type Output = ();
  fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
    if self.0 {
      return Poll::Ready(());
    }
    self.0 = true;
    cx.waker().wake_by_ref();
    Poll::Pending
  }
}

fn echo(input: IncomingMono) -> Result<OutgoingMono, GenericError> {
  Ok(Mono::from_future(async move { Ok(Payload::new_data(None, Some(input.await?.data))) }))
}

fn rr(input: IncomingMono) -> Result<OutgoingMono, GenericError> {
  Ok(Mono::from_future(async move {
    let p = Plan::parse(&input.await?.data).ok_or_else(bad)?;
    match p.mode {
      // at once
      0 if p.fail_at >= 0 => Err(p.failure()),
      0 => Ok(p.item(p.n)),
      // by asking the host
      1 => {
        let r = ask(p.rest.clone()).await?;
        if p.fail_at >= 0 {
          return Err(p.failure());
        }
        Ok(with(b"asked ", r))
      }
      // later
      2 => {
        let (tx, rx) = runtime::oneshot();
        DEFERRED.with(|d| d.borrow_mut().insert(p.id, tx));
        rx.await.map_err(|_| PayloadError::application_error("deferred forever"))?
      }
      // in steps which ask the host
      3 => {
        let mut sum = Vec::new();
        for i in 0..p.n {
          if i == p.fail_at {
            return Err(p.failure());
          }
          let group = (0..=i % 3).map(|k| {
            let mut d = vec![b's', i as u8, k as u8];
            d.extend_from_slice(&p.rest);
            ask(d)
          });
          for r in futures_util::future::join_all(group).await {
            sum.extend_from_slice(&r?.data.unwrap_or_default());
            sum.push(b'|');
          }
        }
        Ok(Payload::new_data(None, Some(sum.into())))
      }
      // asks the host with much data
      4 => {
        let mut d = vec![b'x'; p.size];
        d.extend_from_slice(&p.rest);
        let r = ask(d).await?;
        Ok(Payload::new_data(None, Some((r.data.unwrap_or_default().len() as u32).to_be_bytes().to_vec().into())))
      }
      _ => Err(bad()),
    }
  }))
}

fn fnf(input: IncomingMono) -> Result<(), GenericError> {
  spawn(async move {
    let Ok(input) = input.await else { return };
    let Some(p) = Plan::parse(&input.data) else { return };
    match p.mode {
      0 => p.tell(b'f'),
      _ => match DEFERRED.with(|d| d.borrow_mut().remove(&p.id)) {
        None => p.tell(b'?'),
        Some(tx) => {
          let _ = tx.send(if p.fail_at >= 0 { Err(p.failure()) } else { Ok(p.item(p.n)) });
        }
      },
    }
  });
  Ok(())
}

type Out = Flux<Payload, PayloadError>;

async fn produce(p: &Plan, tx: &Out) {
  for i in 0..p.n {
    if i == p.fail_at {
      let _ = tx.error(p.failure());
      return;
    }
    if p.mode == 3 {
      // paced by the host
      let _ = ask(vec![b'p', i as u8, 200 + (i % 4) as u8, 0, 0, 0]).await;
    } else {
      Yield(p.id % 2 == 0).await;
    }
    if tx.send(p.item(i)).is_err() {
      p.tell(b'c');
      return;
    }
  }
  if p.fail_at == p.n {
    let _ = tx.error(p.failure());
  } else {
    tx.complete();
  }
}

async fn relay(p: &Plan, mut from: FluxReceiver<Payload, PayloadError>, tx: &Out) {
  let mut i = 0;
  loop {
    match from.next().await {
      Some(Ok(x)) => {
        if i == p.fail_at {
          let _ = tx.error(p.failure());
          return;
        }
        i += 1;
        if tx.send(with(b"mapped ", x)).is_err() {
          return;
        }
      }
      Some(Err(e)) => {
        let _ = tx.error(e);
        return;
      }
      None => {
        tx.complete();
        return;
      }
    }
  }
}

fn rs(input: IncomingMono) -> Result<OutgoingStream, GenericError> {
  let (tx, rx) = Flux::new_channels();
  spawn(async move {
    let p = match input.await.map(|x| Plan::parse(&x.data)) {
      Ok(Some(p)) => p,
      _ => {
        let _ = tx.error(bad());
        return;
      }
    };
    match p.mode {
      2 => relay(&p, Host::default().request_stream(call(RS, p.rest.clone())), &tx).await,
      _ => produce(&p, &tx).await,
    }
  });
  Ok(rx)
}

fn rc(mut input: IncomingStream) -> Result<OutgoingStream, GenericError> {
  let (tx, rx) = Flux::new_channels();
  spawn(async move {
    let p = match input.next().await.map(|r| r.map(|x| Plan::parse(&x.data))) {
      Some(Ok(Some(p))) => p,
      _ => {
        let _ = tx.error(bad());
        return;
      }
    };
    match p.mode {
      0 => {
        let (itx, irx) = Flux::new_channels();
        forward(input, itx);
        relay(&p, irx, &tx).await;
      }
      // everything at the end
      1 => {
        let mut all = Vec::new();
        loop {
          match input.next().await {
            Some(Ok(x)) => all.push(x.data),
            Some(Err(e)) => {
              let _ = tx.error(PayloadError::application_error(format!("input: {}", e.msg)));
              return;
            }
            None => break,
          }
        }
        for d in all {
          let _ = tx.send(Payload::new_data(None, Some(d)));
        }
        tx.complete();
      }
      // through the host
      2 => {
        let (itx, irx) = Flux::new_channels();
        let _ = itx.send(call(RC, p.rest.clone()));
        forward(input, itx);
        relay(&p, Host::default().request_channel(irx), &tx).await;
      }
      // independent of the input
      3 => {
        let q = p.clone();
        spawn(async move {
          loop {
            match input.next().await {
              Some(Ok(_)) => {}
              Some(Err(_)) => return q.tell(b'E'),
              None => return q.tell(b'C'),
            }
          }
        });
        produce(&p, &tx).await;
      }
      // takes some of the input
      _ => {
        let mut i = 0;
        loop {
          match input.next().await {
            Some(Ok(x)) => {
              i += 1;
              let _ = tx.send(Payload::new_data(None, Some(x.data)));
              if i == p.n {
                drop(input);
                tx.complete();
                return;
              }
            }
            Some(Err(e)) => {
              let _ = tx.error(PayloadError::application_error(format!("input: {}", e.msg)));
              return;
            }
            None => {
              tx.complete();
              return;
            }
          }
        }
      }
    }
  });
  Ok(rx)
}

fn forward(mut input: IncomingStream, tx: Out) {
  spawn(async move {
    while let Some(x) = input.next().await {
      let r = match x {
        Ok(x) => tx.send(Payload::new_data(None, Some(x.data))),
        Err(e) => {
          let _ = tx.error(e);
          return;
        }
      };
      if r.is_err() {
        return;
      }
    }
    tx.complete();
  });
}
