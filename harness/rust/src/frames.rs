//! P37: the frame codec against the RSocket layout, written down here once more.
use bytes::Bytes;
use wasmrs::frames::{ErrorCode, FrameType};
use wasmrs::{Frame, Metadata, Payload};

use crate::v::{self, Rng, R};

const NEXT: u16 = 1 << 5;
const COMPLETE: u16 = 1 << 6;
const FOLLOWS: u16 = 1 << 7;
const METADATA: u16 = 1 << 8;

/// A frame as the layout defines it.
#[derive(Clone, Debug, PartialEq)]
pub struct Ref {
  pub kind: u8,
  pub sid: u32,
  pub flags: u16,
  /// Initial n, n or the error code.
  pub n: u32,
  pub metadata: Vec<u8>,
  pub data: Vec<u8>,
}

fn has_n(kind: u8) -> bool {
  matches!(kind, 6 | 7)
}

pub fn ref_encode(f: &Ref) -> Vec<u8> {
  let mut flags = f.flags & !METADATA;
  let payload = matches!(f.kind, 4..=7 | 10);
  if payload && !f.metadata.is_empty() {
    flags |= METADATA;
  }
  let mut b = f.sid.to_be_bytes().to_vec();
  b.extend_from_slice(&(((f.kind as u16) << 10) | flags).to_be_bytes());
  if has_n(f.kind) || f.kind == 8 || f.kind == 11 {
    b.extend_from_slice(&f.n.to_be_bytes());
  }
  if payload && !f.metadata.is_empty() {
    b.extend_from_slice(&(f.metadata.len() as u32).to_be_bytes()[1..]);
    b.extend_from_slice(&f.metadata);
  }
  b.extend_from_slice(&f.data);
  b
}

/// What a decoder has to make of the bytes: None when they are no frame.
pub fn ref_decode(b: &[u8]) -> Option<Ref> {
  if b.len() < 6 {
    return None;
  }
  let sid = u32::from_be_bytes([b[0] & 0x7f, b[1], b[2], b[3]]);
  let kind = b[4] >> 2;
  let flags = u16::from_be_bytes([b[4] & 3, b[5]]);
  let mut rest = &b[6..];
  let mut f = Ref { kind, sid, flags, n: 0, metadata: vec![], data: vec![] };
  match kind {
    4..=8 | 9 | 10 | 11 => {}
    _ => return None,
  }
  if has_n(kind) || kind == 8 || kind == 11 {
    if rest.len() < 4 {
      return None;
    }
    f.n = u32::from_be_bytes([rest[0], rest[1], rest[2], rest[3]]);
    rest = &rest[4..];
  }
  if matches!(kind, 4..=7 | 10) && flags & METADATA != 0 {
    if rest.len() < 3 {
      return None;
    }
    let l = u32::from_be_bytes([0, rest[0], rest[1], rest[2]]) as usize;
    rest = &rest[3..];
    if rest.len() < l {
      return None;
    }
    f.metadata = rest[..l].to_vec();
    rest = &rest[l..];
  }
  if kind == 11 && std::str::from_utf8(rest).is_err() {
    return None;
  }
  if !matches!(kind, 8 | 9) {
    f.data = rest.to_vec();
  }
  Some(f)
}

/// Builds the repository's frame.
pub fn build(f: &Ref) -> Frame {
  let md = if f.metadata.is_empty() && f.sid % 3 == 0 { None } else { Some(Bytes::from(f.metadata.clone())) };
  let d = if f.data.is_empty() && f.sid % 5 == 0 { None } else { Some(Bytes::from(f.data.clone())) };
  let p = Payload::new_data(md, d);
  match f.kind {
    4 => Frame::new_request_response(f.sid, p, f.flags),
    5 => Frame::new_request_fnf(f.sid, p, f.flags),
    6 => Frame::new_request_stream(f.sid, p, f.flags),
    7 => Frame::new_request_channel(f.sid, p, f.flags, f.n),
    8 => Frame::new_request_n(f.sid, f.n, 0),
    9 => Frame::new_cancel(f.sid),
    10 => Frame::new_payload(f.sid, p, f.flags),
    11 => Frame::new_error(f.sid, f.n, String::from_utf8(f.data.clone()).unwrap()),
    k => panic!("kind {}", k),
  }
}

/// Reads the repository's frame back: fields, and the flags it keeps.
pub fn fields(f: &Frame) -> (Ref, bool, bool, bool) {
  let req = |k: u8, sid: u32, n: u32, m: &Bytes, d: &Bytes| Ref {
    kind: k,
    sid,
    flags: 0,
    n,
    metadata: m.to_vec(),
    data: d.to_vec(),
  };
  match f {
    Frame::RequestResponse(f) => {
      (req(4, f.0.stream_id, f.0.initial_n, &f.0.metadata, &f.0.data), f.0.follows, f.0.complete, false)
    }
    Frame::RequestFnF(f) => {
      (req(5, f.0.stream_id, f.0.initial_n, &f.0.metadata, &f.0.data), f.0.follows, f.0.complete, false)
    }
    Frame::RequestStream(f) => {
      (req(6, f.0.stream_id, f.0.initial_n, &f.0.metadata, &f.0.data), f.0.follows, f.0.complete, false)
    }
    Frame::RequestChannel(f) => {
      (req(7, f.0.stream_id, f.0.initial_n, &f.0.metadata, &f.0.data), f.0.follows, f.0.complete, false)
    }
    Frame::RequestN(f) => (req(8, f.stream_id, f.n, &Bytes::new(), &Bytes::new()), false, false, false),
    Frame::Cancel(f) => (req(9, f.stream_id, 0, &Bytes::new(), &Bytes::new()), false, false, false),
    Frame::PayloadFrame(f) => (req(10, f.stream_id, 0, &f.metadata, &f.data), f.follows, f.complete, f.next),
    Frame::ErrorFrame(f) => {
      (req(11, f.stream_id, f.code, &Bytes::new(), &Bytes::from(f.data.clone().into_bytes())), false, false, false)
    }
  }
}

pub fn kind_of(t: FrameType) -> u8 {
  let n: u32 = t.into();
  n as u8
}

fn random(g: &mut Rng, max: usize) -> Ref {
  let kind = *g.pick(&[4u8, 5, 6, 7, 8, 9, 10, 10, 11]);
  let sid = match g.n(4) {
    0 => *g.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fff_fffe, 0x7fff_ffff]),
    1 => g.n(50) as u32,
    _ => g.u64() as u32 & 0x7fff_ffff,
  };
  let mut f = Ref { kind, sid, flags: 0, n: 0, metadata: vec![], data: vec![] };
  if kind == 7 || kind == 8 || kind == 11 {
    f.n = match g.n(3) {
      0 => *g.pick(&[0, 1, 2, 0xff, 0x100, 0xffff, 0x1_0000, 0x7fff_ffff]),
      _ => g.u64() as u32 & 0x7fff_ffff,
    };
    if kind == 11 && g.p(50) {
      f.n = *g.pick(&[1, 2, 3, 4, 257, 258, 513, 514, 515, 516, 0xffff_ffff]);
    }
  }
  if matches!(kind, 4..=7 | 10) {
    let n = g.size(max);
    f.metadata = g.bytes(n);
    let n = g.size(max);
    f.data = g.bytes(n);
  }
  if kind == 11 {
    f.data = g.string(max).into_bytes();
  }
  if kind == 7 && g.p(50) {
    f.flags |= COMPLETE;
  }
  if kind == 10 {
    for fl in [NEXT, COMPLETE, FOLLOWS] {
      if g.p(50) {
        f.flags |= fl;
      }
    }
  }
  f
}

/// Decodes and compares with the reference. Returns whether it was a frame.
fn decode_like_ref(b: &[u8], what: &str) -> bool {
  let want = ref_decode(b);
  let got = Frame::decode(Bytes::copy_from_slice(b));
  match (&want, &got) {
    (None, Err(_)) => false,
    (Some(w), Ok(f)) => {
      let (g, follows, complete, next) = fields(f);
      let same = g.kind == w.kind
        && g.sid == w.sid
        && g.n == w.n
        && g.metadata == w.metadata
        && g.data == w.data
        && (!matches!(w.kind, 4..=7 | 10) || (follows == (w.flags & FOLLOWS != 0) && complete == (w.flags & COMPLETE != 0)))
        && (w.kind != 10 || next == (w.flags & NEXT != 0));
      if !same || f.stream_id() != w.sid || kind_of(f.frame_type()) != w.kind {
        v::fail("decode", format!("{}: {:?} decoded as {:?}, want {:?}", what, short(b), f, w));
      }
      if w.kind == 10 {
        let fl = f.get_flag();
        if fl & (NEXT | COMPLETE | FOLLOWS) != w.flags & (NEXT | COMPLETE | FOLLOWS) {
          v::fail("flags", format!("{}: {:?} decoded with flags {:#x}", what, short(b), fl));
        }
      }
      true
    }
    (None, Ok(f)) => {
      v::fail("accepted", format!("{}: {:?} is no frame but decoded as {:?}", what, short(b), f));
      false
    }
    (Some(w), Err(e)) => {
      v::fail("refused", format!("{}: {:?} is {:?} but refused: {:?}", what, short(b), w, e));
      true
    }
  }
}

fn short(b: &[u8]) -> &[u8] {
  &b[..b.len().min(80)]
}

pub fn check(r: &mut R) {
  let k = if r.thorough { 200 } else { 5 };

  // encoding gives the layout, decoding gives the fields back
  r.cases("round", 400 * k, |g| {
    for i in 0..25 {
      let max = if i == 0 { 70_000 } else { 600 };
      let f = random(g, max);
      let want = ref_encode(&f);
      let frame = build(&f);
      if frame.stream_id() != f.sid || kind_of(frame.frame_type()) != f.kind {
        v::fail("build", format!("{:?} built as {:?}", f, frame));
      }
      let got = frame.encode();
      if got[..] != want[..] {
        v::fail("encode", format!("{:?} encoded as {:?}, want {:?}", f, short(&got), short(&want)));
      }
      decode_like_ref(&got, "round trip");
      // encoding the decoded frame gives the same bytes
      if let Ok(d) = Frame::decode(got.clone()) {
        let again = d.encode();
        if again != got {
          v::fail("re-encode", format!("{:?} re-encoded as {:?}", short(&got), short(&again)));
        }
      }
      v::count("frames_encoded", 1);
      v::distinct(&[&want[..want.len().min(200)], &(want.len() as u64).to_be_bytes()]);
    }
  });

  // frames of any layout-conforming peer, and everything which is none
  r.cases("hostile", 600 * k, |g| {
    for _ in 0..40 {
      let mut f = random(g, 300);
      f.flags |= g.u64() as u16 & 0x3ff;
      let mut b = f.sid.to_be_bytes().to_vec();
      b.extend_from_slice(&(((f.kind as u16) << 10) | f.flags).to_be_bytes());
      let body = ref_encode(&Ref { flags: 0, ..f.clone() });
      b.extend_from_slice(&body[6..]);
      match g.n(8) {
        0 => {
          let n = g.n(b.len() + 1);
          b.truncate(n);
        }
        1 => {
          let n = 1 + g.n(4);
          for _ in 0..n {
            let i = g.n(b.len());
            b[i] = g.u64() as u8;
          }
        }
        2 => b[4] = (g.u64() as u8 & 0xfc) | (b[4] & 3),
        3 => {
          let n = g.n(64);
          b = g.bytes(n);
        }
        4 => {
          let n = g.n(12);
          b = g.bytes(n);
          if b.len() > 4 {
            b[4] = (*g.pick(&[4u8, 5, 6, 7, 8, 9, 10, 11]) << 2) | (b[4] & 3);
          }
        }
        5 => b[0] |= 0x80,
        6 => {
          let n = g.n(20);
          b.extend(g.bytes(n));
        }
        _ => {}
      }
      if decode_like_ref(&b, "hostile") {
        v::count("accepted", 1);
      } else {
        v::count("rejected", 1);
      }
      v::distinct(&[&b]);
    }
  });

  // every truncation of a frame, and each of the 64 types
  r.cases("cuts", 100 * k, |g| {
    let f = random(g, 60);
    let b = ref_encode(&f);
    for n in 0..b.len() {
      decode_like_ref(&b[..n], "cut");
      v::count("cuts", 1);
    }
    for t in 0..64u8 {
      let mut c = b.clone();
      c[4] = (t << 2) | (c[4] & 3);
      decode_like_ref(&c, "type");
    }
  });

  // streams of length-prefixed frames
  r.cases("prefixed", 200 * k, |g| {
    let n = 1 + g.n(8);
    let mut stream = Vec::new();
    let mut want = Vec::new();
    for _ in 0..n {
      let m = g.size(70_000);
      let f = g.bytes(m);
      stream.extend_from_slice(&wasmrs::util::to_u24_bytes(f.len() as u32));
      let l = f.len();
      if stream[stream.len() - 3..] != [(l >> 16) as u8, (l >> 8) as u8, l as u8] {
        v::fail("u24", format!("to_u24_bytes({}) = {:?}", l, &stream[stream.len() - 3..]));
      }
      stream.extend_from_slice(&f);
      want.push(f);
    }
    let cut = if g.p(50) { stream.len() } else { g.n(stream.len() + 1) };
    let mut rd = Chunked { b: &stream[..cut], g: g.clone() };
    let mut at = 0;
    for w in &want {
      let whole = at + 3 + w.len() <= cut;
      match wasmrs::util::read_frame(&mut rd) {
        Ok(f) if !whole => {
          v::fail("read_frame", format!("{} bytes left, {} needed, read {}", cut - at, w.len() + 3, f.len()));
          return;
        }
        Ok(f) if f[..] != w[..] => {
          v::fail("read_frame", format!("frame of {} bytes read as {} bytes", w.len(), f.len()));
          return;
        }
        Ok(_) => v::count("frames_read", 1),
        Err(e) if whole => {
          v::fail("read_frame", format!("frame of {} bytes not read: {}", w.len(), e));
          return;
        }
        Err(_) => {
          v::count("cut_streams", 1);
          break;
        }
      }
      at += 3 + w.len();
    }
  });

  // metadata, codes, types
  r.cases("small", 40 * k, |g| {
    for _ in 0..50 {
      let idx = match g.n(3) {
        0 => *g.pick(&[0, 1, 0xff, 0x100, 0xffff, 0x1_0000, 0x7fff_ffff, 0xffff_ffff]),
        _ => g.u64() as u32,
      };
      let e = Metadata::new(idx).encode();
      if e.len() != 8 || e[..4] != idx.to_be_bytes() || e[4..] != [0, 0, 0, 0] {
        v::fail("metadata", format!("operation {} encoded as {:?}", idx, e));
      }
      let n = g.n(16);
      let tail = g.bytes(n);
      let mut m = idx.to_be_bytes().to_vec();
      m.extend_from_slice(&tail);
      match Payload::new(Bytes::from(m), Bytes::new()).parse_metadata() {
        Ok(p) if p.index == idx => {}
        x => v::fail("metadata", format!("operation {} parsed as {:?}", idx, x)),
      }
      let n = g.n(4);
      if Payload::new(Bytes::from(g.bytes(n)), Bytes::new()).parse_metadata().is_ok() {
        v::fail("metadata", format!("{} bytes accepted", n));
      }
      if Payload::empty().parse_metadata().is_ok() {
        v::fail("metadata", "no metadata accepted".to_owned());
      }
      v::count("metadata", 1);
    }
    for (c, n) in [
      (ErrorCode::InvalidSetup, 1u32),
      (ErrorCode::UnsupportedSetup, 2),
      (ErrorCode::RejectedSetup, 3),
      (ErrorCode::RejectedResume, 4),
      (ErrorCode::ConnectionError, 0x101),
      (ErrorCode::ConnectionClose, 0x102),
      (ErrorCode::ApplicationError, 0x201),
      (ErrorCode::Rejected, 0x202),
      (ErrorCode::Canceled, 0x203),
      (ErrorCode::Invalid, 0x204),
      (ErrorCode::Reserved, 0xffff_ffff),
    ] {
      let got: u32 = c.into();
      let back = ErrorCode::try_from(n).map(|b| -> u32 { b.into() });
      if got != n || back != Ok(n) {
        v::fail("codes", format!("{:?}: {} and back {:?}, want {}", c, got, back, n));
      }
    }
    for _ in 0..20 {
      let n = g.u64() as u32;
      if ![1, 2, 3, 4, 0x101, 0x102, 0x201, 0x202, 0x203, 0x204, u32::MAX].contains(&n) && ErrorCode::try_from(n).is_ok() {
        v::fail("codes", format!("{} accepted", n));
      }
    }
    for t in 0..=255u8 {
      let known = t <= 14 || t == 63;
      match FrameType::try_from(t) {
        Ok(x) if !known => v::fail("types", format!("{} accepted as {:?}", t, x)),
        Ok(x) if t != 0 && kind_of(x) != t => v::fail("types", format!("{} taken for {:?}", t, x)),
        Err(e) if known => v::fail("types", format!("{} refused: {}", t, e)),
        _ => {}
      }
    }
  });
}

/// Hands a byte stream out in random pieces.
struct Chunked<'a> {
  b: &'a [u8],
  g: Rng,
}
impl std::io::Read for Chunked<'_> {
  fn read(&mut self, to: &mut [u8]) -> std::io::Result<usize> {
    if to.is_empty() || self.b.is_empty() {
      return Ok(0);
    }
    let max = to.len().min(self.b.len());
    let n = if self.g.p(30) { max } else { 1 + self.g.n(max) };
    to[..n].copy_from_slice(&self.b[..n]);
    self.b = &self.b[n..];
    Ok(n)
  }
}
