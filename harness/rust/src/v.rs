//! Monitor runtime: hands out deterministic cases, records what the monitors
//! observed and writes it where check.py finds it (same protocol as the Go
//! harnesses: environment in, one JSON document out).
use std::collections::{BTreeMap, BTreeSet};
use std::hash::Hasher;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, OnceLock};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
    r.u64();
    r
  }
  pub fn u64(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
  }
  pub fn n(&mut self, n: usize) -> usize {
    if n == 0 {
      0
    } else {
      (self.u64() % n as u64) as usize
    }
  }
  pub fn p(&mut self, percent: usize) -> bool {
    self.n(100) < percent
  }
  pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
    &l[self.n(l.len())]
  }
  pub fn bytes(&mut self, n: usize) -> Vec<u8> {
    (0..n).map(|_| self.u64() as u8).collect()
  }
  /// A size which is often at a limit.
  pub fn size(&mut self, max: usize) -> usize {
    let edges = [0, 1, 2, 3, 4, 5, 7, 8, 127, 128, 255, 256, 65535, 65536];
    match self.n(10) {
      0..=3 => (*self.pick(&edges)).min(max),
      4..=8 => self.n(40).min(max),
      _ => self.n(max + 1),
    }
  }
  pub fn string(&mut self, max: usize) -> String {
    let n = self.size(max);
    let mut s = String::new();
    let pool = ['a', 'b', 'Z', '0', '.', '-', ':', '/', '\0', ' ', 'é', 'ß', '€', '𝄞', '\u{7f}', '\u{ffff}'];
    let mut left = n;
    while left > 0 {
      let c = *self.pick(&pool);
      if c.len_utf8() > left {
        s.push('x');
        left -= 1;
        continue;
      }
      left -= c.len_utf8();
      s.push(c);
    }
    s
  }
}

#[derive(Clone)]
struct Violation {
  case: String,
  class: String,
  message: String,
}

#[derive(Default)]
struct State {
  evals: u64,
  distinct: BTreeSet<u64>,
  counts: BTreeMap<String, u64>,
  samples: Vec<String>,
  violations: Vec<Violation>,
  cur: String,
}

static STATE: OnceLock<Mutex<State>> = OnceLock::new();

fn state() -> std::sync::MutexGuard<'static, State> {
  match STATE.get_or_init(Default::default).lock() {
    Ok(g) => g,
    Err(p) => p.into_inner(),
  }
}

pub struct R {
  pub prop: String,
  pub thorough: bool,
  pub seed: u64,
  shard: usize,
  shards: usize,
  only: Option<String>,
  counter: usize,
}

pub fn env(k: &str, d: &str) -> String {
  match std::env::var(k) {
    Ok(v) if !v.is_empty() => v,
    _ => d.to_owned(),
  }
}

pub fn count(k: &str, n: u64) {
  *state().counts.entry(k.to_owned()).or_insert(0) += n;
}

pub fn distinct(parts: &[&[u8]]) {
  let mut h = Fnv(0xcbf2_9ce4_8422_2325);
  for p in parts {
    h.write(p);
    h.write(&[0xff, 0xfe]);
  }
  let v = h.finish();
  let mut s = state();
  if s.distinct.len() < 400_000 {
    s.distinct.insert(v);
  }
}

pub fn sample(s: String) {
  let mut st = state();
  if st.samples.len() < 4 {
    st.samples.push(s);
  }
}

pub fn fail(class: &str, message: String) {
  let mut s = state();
  let same = s.violations.iter().filter(|v| v.class == class).count();
  if same >= 4 || s.violations.len() >= 20 {
    return;
  }
  let case = s.cur.clone();
  let mut message = message;
  if message.len() > 3000 {
    let mut i = 3000;
    while !message.is_char_boundary(i) {
      i -= 1;
    }
    message.truncate(i);
  }
  s.violations.push(Violation { case, class: class.to_owned(), message });
  drop(s);
  flush(false);
}

pub fn failed() -> bool {
  !state().violations.is_empty()
}

struct Fnv(u64);
impl Hasher for Fnv {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, b: &[u8]) {
    for x in b {
      self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
  }
}

fn q(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

pub fn flush(done: bool) {
  let out = env("VERIF_OUT", "");
  if out.is_empty() {
    return;
  }
  let prop = env("VERIF_PROP", "");
  let s = state();
  let mut j = String::from("{");
  j += &format!("\"done\":{},\"evaluations\":{},", done, s.evals);
  j += &format!("\"distinct\":[{}],", s.distinct.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(","));
  j += &format!(
    "\"counts\":{{{}}},",
    s.counts.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(",")
  );
  j += &format!("\"samples\":[{}],", s.samples.iter().map(|x| q(x)).collect::<Vec<_>>().join(","));
  j += &format!(
    "\"violations\":[{}]}}",
    s.violations
      .iter()
      .map(|v| {
        format!(
          "{{\"property\":{},\"case\":{},\"class\":{},\"message\":{}}}",
          q(&prop),
          q(&v.case),
          q(&v.class),
          q(&v.message)
        )
      })
      .collect::<Vec<_>>()
      .join(",")
  );
  let tmp = format!("{}.tmp", out);
  if std::fs::write(&tmp, j).is_ok() {
    let _ = std::fs::rename(&tmp, &out);
  }
}

impl R {
  pub fn from_env() -> R {
    let sh = env("VERIF_SHARD", "0/1");
    let (a, b) = sh.split_once('/').unwrap_or(("0", "1"));
    let only = env("VERIF_ONLY", "");
    // A panic anywhere in the repository's code, in whatever task, is seen here.
    std::panic::set_hook(Box::new(|info| {
      let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
      let msg = info
        .payload()
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| info.payload().downcast_ref::<String>().cloned())
        .unwrap_or_default();
      let bt = std::backtrace::Backtrace::force_capture().to_string();
      let own: Vec<&str> =
        bt.lines().filter(|l| l.contains("/rust/crates/") || l.contains("wasmrs")).map(|l| l.trim()).take(12).collect();
      let class = if own.is_empty() && !loc.contains("/rust/crates/") { "harness-panic" } else { "panic" };
      fail(class, format!("panicked at {}: {}\n{}", loc, msg, own.join("\n")));
    }));
    R {
      prop: env("VERIF_PROP", ""),
      thorough: env("VERIF_TIER", "quick") == "thorough",
      seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
      shard: a.parse().unwrap_or(0),
      shards: b.parse().unwrap_or(1),
      only: if only.is_empty() { None } else { Some(only) },
      counter: 0,
    }
  }

  /// Runs the cases name/0.. name/n-1 which belong to this shard.
  pub fn cases(&mut self, name: &str, n: usize, mut f: impl FnMut(&mut Rng)) {
    for i in 0..n {
      let id = format!("{}/{}", name, i);
      self.counter += 1;
      match &self.only {
        Some(o) if *o != id => continue,
        None if self.counter % self.shards != self.shard => continue,
        _ => {}
      }
      let mut h = Fnv(self.seed.wrapping_mul(0x2545_f491_4f6c_dd1d));
      h.write(id.as_bytes());
      let mut rng = Rng::new(h.finish());
      {
        let mut s = state();
        s.cur = id.clone();
        s.evals += 1;
      }
      let out = env("VERIF_OUT", "");
      if !out.is_empty() {
        if let Ok(mut fl) = std::fs::File::create(format!("{}.cur", out)) {
          let _ = fl.write_all(id.as_bytes());
        }
      }
      let _ = catch_unwind(AssertUnwindSafe(|| f(&mut rng)));
    }
  }
}
