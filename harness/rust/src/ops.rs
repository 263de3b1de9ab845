//! P38: operation lists.
use bytes::Bytes;
use wasmrs::{OperationList, OperationType};

use crate::v::{self, Rng, R};

#[derive(Clone, Debug)]
struct Op {
  kind: u8,
  dir: u8,
  index: u32,
  ns: Vec<u8>,
  op: Vec<u8>,
  reserved: Vec<u8>,
}

fn encode(ops: &[Op]) -> Vec<u8> {
  let mut b = vec![0, b'w', b'r', b's', 0, 1];
  b.extend_from_slice(&(ops.len() as u32).to_be_bytes());
  for o in ops {
    b.push(o.kind);
    b.push(o.dir);
    b.extend_from_slice(&o.index.to_be_bytes());
    for s in [&o.ns, &o.op, &o.reserved] {
      b.extend_from_slice(&(s.len() as u16).to_be_bytes());
      b.extend_from_slice(s);
    }
  }
  b
}

/// What the bytes mean; None when they are no list. Bytes behind it are ignored.
fn parse(b: &[u8]) -> Option<Vec<Op>> {
  let mut at = 0usize;
  let mut take = |n: usize| -> Option<&[u8]> {
    let r = b.get(at..at.checked_add(n)?)?;
    at += n;
    Some(r)
  };
  if take(4)? != [0, b'w', b'r', b's'] || take(2)? != [0, 1] {
    return None;
  }
  let n = u32::from_be_bytes(take(4)?.try_into().ok()?);
  let mut ops = Vec::new();
  for _ in 0..n {
    let h = take(2)?;
    let (kind, dir) = (h[0], h[1]);
    if !(1..=4).contains(&kind) {
      return None;
    }
    let index = u32::from_be_bytes(take(4)?.try_into().ok()?);
    let mut parts = Vec::new();
    for _ in 0..3 {
      let l = u16::from_be_bytes(take(2)?.try_into().ok()?);
      parts.push(take(l as usize)?.to_vec());
    }
    let reserved = parts.pop()?;
    let op = parts.pop()?;
    let ns = parts.pop()?;
    std::str::from_utf8(&ns).ok()?;
    std::str::from_utf8(&op).ok()?;
    ops.push(Op { kind, dir, index, ns, op, reserved });
  }
  Some(ops)
}

fn kind(k: u8) -> OperationType {
  match k {
    1 => OperationType::RequestResponse,
    2 => OperationType::RequestFnF,
    3 => OperationType::RequestStream,
    _ => OperationType::RequestChannel,
  }
}

fn random(g: &mut Rng, n: usize, max: usize) -> Vec<Op> {
  let mut ops: Vec<Op> = Vec::new();
  for _ in 0..n {
    let (mut ns, mut op) = (g.string(max).into_bytes(), g.string(max).into_bytes());
    if !ops.is_empty() && g.p(30) {
      // namespaces and operations which differ in one part only, or where the boundary differs
      let o = ops[g.n(ops.len())].clone();
      match g.n(4) {
        0 => ns = o.ns,
        1 => op = o.op,
        2 => {
          ns = o.ns;
          op = o.op;
        }
        _ => {
          let s = [&o.ns[..], &o.op[..]].concat();
          if let Ok(t) = std::str::from_utf8(&s) {
            let mut i = g.n(s.len() + 1);
            while !t.is_char_boundary(i) {
              i += 1;
            }
            ns = s[..i].to_vec();
            op = s[i..].to_vec();
          }
        }
      }
    }
    ops.push(Op {
      kind: 1 + g.n(4) as u8,
      dir: 1 + g.n(2) as u8,
      index: if g.p(30) { *g.pick(&[0, 1, 255, 256, 65535, 65536, u32::MAX]) } else { g.u64() as u32 },
      ns,
      op,
      reserved: vec![],
    });
  }
  ops
}

fn first(ops: &[Op], dir: u8, ns: &[u8], op: &[u8]) -> Option<u32> {
  ops.iter().find(|o| (o.dir == 1) == (dir == 1) && o.ns == ns && o.op == op).map(|o| o.index)
}

fn lookups(g: &mut Rng, l: &OperationList, ops: &[Op], what: &str) {
  let mut names: Vec<(Vec<u8>, Vec<u8>)> = ops.iter().map(|o| (o.ns.clone(), o.op.clone())).collect();
  for _ in 0..4 {
    names.push((g.string(8).into_bytes(), g.string(8).into_bytes()));
  }
  if let Some(o) = ops.first() {
    names.push((o.op.clone(), o.ns.clone()));
    names.push((vec![], o.op.clone()));
    names.push((o.ns.clone(), vec![]));
  }
  for (ns, op) in names {
    let (n, o) = (String::from_utf8(ns.clone()).unwrap(), String::from_utf8(op.clone()).unwrap());
    let (we, wi) = (first(ops, 1, &ns, &op), first(ops, 2, &ns, &op));
    let (ge, gi) = (l.get_export(&n, &o), l.get_import(&n, &o));
    if we != ge || wi != gi {
      v::fail("lookup", format!("{}: {:?}/{:?} found as export {:?} and import {:?}, want {:?} and {:?}", what, n, o, ge, gi, we, wi));
    }
    v::count("lookups", 1);
  }
}

fn canonical(ops: &[Op]) -> Vec<Op> {
  let mut c: Vec<Op> = ops.iter().filter(|o| o.dir == 1).cloned().collect();
  c.extend(ops.iter().filter(|o| o.dir != 1).cloned().map(|o| Op { dir: 2, ..o }));
  for o in &mut c {
    o.reserved.clear();
  }
  c
}

fn decode_like_ref(g: &mut Rng, b: &[u8], what: &str) -> bool {
  let want = parse(b);
  if want.as_ref().is_some_and(|l| l.iter().any(|o| o.dir != 1 && o.dir != 2)) {
    let _ = OperationList::decode(Bytes::copy_from_slice(b)); // unspecified, but no panic
    return true;
  }
  let got = OperationList::decode(Bytes::copy_from_slice(b));
  match (want, got) {
    (None, Err(_)) => false,
    (Some(ops), Ok(l)) => {
      lookups(g, &l, &ops, what);
      let e = l.encode();
      let w = encode(&canonical(&ops));
      if e[..] != w[..] {
        v::fail("decode", format!("{}: {:?} decoded and encoded as {:?}, want {:?}", what, short(b), short(&e), short(&w)));
      }
      true
    }
    (None, Ok(l)) => {
      v::fail("accepted", format!("{}: {:?} accepted as {:?}", what, short(b), l));
      false
    }
    (Some(_), Err(e)) => {
      v::fail("refused", format!("{}: {:?} refused: {}", what, short(b), e));
      true
    }
  }
}

fn short(b: &[u8]) -> &[u8] {
  &b[..b.len().min(120)]
}

pub fn check(r: &mut R) {
  let k = if r.thorough { 200 } else { 5 };
  r.cases("lists", 500 * k, |g| {
    let (n, max) = if g.p(10) { (g.n(4), 65535) } else { (g.n(24), 30) };
    let ops = random(g, n, max);
    let mut l = OperationList::default();
    for o in &ops {
      let (ns, op) = (std::str::from_utf8(&o.ns).unwrap(), std::str::from_utf8(&o.op).unwrap());
      if o.dir == 1 {
        l.add_export(o.index, kind(o.kind), ns, op);
      } else {
        l.add_import(o.index, kind(o.kind), ns, op);
      }
    }
    lookups(g, &l, &ops, "built");
    let e = l.encode();
    let w = encode(&canonical(&ops));
    if e[..] != w[..] {
      v::fail("encode", format!("{:?} encoded as {:?}", ops, short(&e)));
    }
    decode_like_ref(g, &e, "round trip");
    v::count("lists", 1);
    v::count("operations", ops.len() as u64);
    v::distinct(&[&e]);
  });
  r.cases("foreign", 300 * k, |g| {
    let n = g.n(10);
    let mut ops = random(g, n, 20);
    for o in &mut ops {
      if g.p(60) {
        let n = g.size(300);
        o.reserved = g.bytes(n);
        v::count("reserved", 1);
      }
    }
    let mut b = encode(&ops);
    if g.p(20) {
      let n = g.n(30);
      b.extend(g.bytes(n));
    }
    if decode_like_ref(g, &b, "foreign") {
      v::count("accepted", 1);
    }
    v::distinct(&[&b]);
  });
  r.cases("hostile", 500 * k, |g| {
    for _ in 0..20 {
      let n = g.n(5);
      let mut ops = random(g, n, 12);
      for o in &mut ops {
        if g.p(20) {
          let n = g.n(9);
          o.reserved = g.bytes(n);
        }
      }
      let mut b = encode(&ops);
      match g.n(7) {
        0 => {
          let n = g.n(b.len() + 1);
          b.truncate(n);
        }
        1 => {
          for _ in 0..1 + g.n(3) {
            let i = g.n(b.len());
            b[i] = g.u64() as u8;
          }
        }
        2 => {
          let c = *g.pick(&[0u32, 1, 2, 100, 65536, u32::MAX]);
          b[6..10].copy_from_slice(&c.to_be_bytes());
        }
        3 if b.len() > 10 => b[10] = *g.pick(&[0, 5, 6, 127, 255]),
        4 => {
          let n = g.n(40);
          let mut t = vec![0, b'w', b'r', b's', 0, 1];
          t.extend(g.bytes(n));
          b = t;
        }
        5 => {
          let i = g.n(6);
          b[i] ^= 1 << g.n(8);
        }
        _ => {
          let n = g.n(60);
          b = g.bytes(n);
        }
      }
      if decode_like_ref(g, &b, "hostile") {
        v::count("accepted", 1);
      } else {
        v::count("rejected", 1);
      }
      v::distinct(&[&b]);
    }
  });
  r.cases("cuts", 60 * k, |g| {
    let n = 1 + g.n(4);
    let ops = random(g, n, 10);
    let b = encode(&ops);
    for n in 0..b.len() {
      decode_like_ref(g, &b[..n], "cut");
      v::count("cuts", 1);
    }
  });
}
