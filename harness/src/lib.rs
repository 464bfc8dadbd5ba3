//! Recording side of the conformance checks: runs calls of the code under test, catches panics,
//! watches for hangs, and writes one ndjson event per call.
pub mod int;
pub mod container;
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random input
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 { (self.next() as u128) << 64 | self.next() as u128 }
    /// 0 <= x < n
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n.max(1) as u64)) as usize }
    /// lo <= x <= hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn uniform(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    /// Byte strings with structure: carries, all-ones, sparse bits, runs, as well as uniform ones.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        match self.below(12) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => { let mut v = vec![0; n]; if n > 0 { let i = self.below(n); v[i] = 1 << self.below(8); } v }
            3 => { let mut v = vec![0xff; n]; if n > 0 { let i = self.below(n); v[i] = !(1u8 << self.below(8)); } v }
            4 => { let b = self.next() as u8; vec![b; n] }
            5 => (0..n).map(|i| i as u8).collect(),
            6 => { let p = self.below(n + 1); let mut v = self.uniform(n); for i in p..n { v[i] = 0 } v }
            7 => { let p = self.below(n + 1); let mut v = self.uniform(n); for i in p..n { v[i] = 0xff } v }
            _ => self.uniform(n),
        }
    }
}

// ---------------------------------------------------------------- JSON values
pub enum J { I(i64), S(String), B(Vec<u8>), L(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    pub fn put(&self, o: &mut String) {
        use std::fmt::Write;
        match self {
            J::I(x) => { assert!(x.abs() < 1 << 31, "TLC integers are 32 bit"); write!(o, "{}", x).unwrap() }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c { '"' | '\\' => { o.push('\\'); o.push(c) } c if (c as u32) < 32 || (c as u32) > 126 => o.push('?'), c => o.push(c) }
                }
                o.push('"')
            }
            J::B(b) => {
                o.push('[');
                for (i, x) in b.iter().enumerate() { if i > 0 { o.push(',') } write!(o, "{}", x).unwrap() }
                o.push(']')
            }
            J::L(l) => {
                o.push('[');
                for (i, x) in l.iter().enumerate() { if i > 0 { o.push(',') } x.put(o) }
                o.push(']')
            }
            J::O(l) => {
                o.push('{');
                for (i, (k, x)) in l.iter().enumerate() { if i > 0 { o.push(',') } write!(o, "\"{}\":", k).unwrap(); x.put(o) }
                o.push('}')
            }
        }
    }
}
impl From<Vec<u8>> for J { fn from(x: Vec<u8>) -> J { J::B(x) } }
impl From<&Vec<u8>> for J { fn from(x: &Vec<u8>) -> J { J::B(x.clone()) } }
impl From<&[u8]> for J { fn from(x: &[u8]) -> J { J::B(x.to_vec()) } }
impl<const N: usize> From<[u8; N]> for J { fn from(x: [u8; N]) -> J { J::B(x.to_vec()) } }
impl From<Vec<Vec<u8>>> for J { fn from(x: Vec<Vec<u8>>) -> J { J::L(x.into_iter().map(J::B).collect()) } }
impl From<Vec<J>> for J { fn from(x: Vec<J>) -> J { J::L(x) } }
impl From<usize> for J { fn from(x: usize) -> J { J::I(x as i64) } }
impl From<u32> for J { fn from(x: u32) -> J { J::I(x as i64) } }
impl From<u8> for J { fn from(x: u8) -> J { J::I(x as i64) } }
impl From<i32> for J { fn from(x: i32) -> J { J::I(x as i64) } }
impl From<i64> for J { fn from(x: i64) -> J { J::I(x) } }
impl From<bool> for J { fn from(x: bool) -> J { J::I(x as i64) } }
impl From<&str> for J { fn from(x: &str) -> J { J::S(x.to_string()) } }
impl From<String> for J { fn from(x: String) -> J { J::S(x) } }
impl From<()> for J { fn from(_: ()) -> J { J::L(vec![]) } }
impl<A: Into<J>, B: Into<J>> From<(A, B)> for J { fn from(x: (A, B)) -> J { J::L(vec![x.0.into(), x.1.into()]) } }
impl<A: Into<J>, B: Into<J>, C: Into<J>> From<(A, B, C)> for J { fn from(x: (A, B, C)) -> J { J::L(vec![x.0.into(), x.1.into(), x.2.into()]) } }
#[macro_export]
macro_rules! args { ($($k:ident : $v:expr),* $(,)?) => { vec![$((stringify!($k), $crate::J::from($v))),*] } }

// ---------------------------------------------------------------- trace
pub type Args = Vec<(&'static str, J)>;
struct Pending { line: String, since: Instant }
pub struct Trace {
    out: Arc<Mutex<BufWriter<File>>>,
    pending: Arc<Mutex<Option<Pending>>>,
    seg: usize,
    inseg: usize,
    pub total: usize,
    safe: bool,
    pub seed: u64,
    pub thorough: bool,
    pub scale: usize,
}
thread_local!(static QUIET: RefCell<bool> = RefCell::new(false));

impl Trace {
    /// `seg` events per independent segment; 0: segments are opened by hand with `begin`.
    pub fn open(seg: usize) -> Trace {
        let path = std::env::var("TRACE").expect("TRACE");
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let scale = std::env::var("HARNESS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let limit = std::env::var("HARNESS_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
        let safe = std::env::var("HARNESS_SAFE").is_ok();
        std::panic::set_hook(Box::new(|info| {
            if !QUIET.with(|q| *q.borrow()) { eprintln!("{}", info) }
        }));
        let out = Arc::new(Mutex::new(BufWriter::new(File::create(&path).unwrap())));
        let pending: Arc<Mutex<Option<Pending>>> = Arc::new(Mutex::new(None));
        let (o2, p2) = (out.clone(), pending.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let g = p2.lock().unwrap();
            if let Some(p) = &*g {
                if p.since.elapsed() > Duration::from_secs(limit) {
                    let mut f = o2.lock().unwrap();
                    writeln!(f, "{},\"p\":2,\"r\":[]}}", p.line).unwrap();
                    f.flush().unwrap();
                    std::process::exit(0);
                }
            }
        });
        Trace { out, pending, seg, inseg: 0, total: 0, safe, seed, thorough, scale }
    }
    pub fn rng(&self, stream: u64) -> Rng { Rng::new(self.seed.wrapping_mul(1000003).wrapping_add(stream)) }
    /// quick size, enlarged in the thorough tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize { (if self.thorough { thorough } else { quick }) * self.scale }
    fn emit(&mut self, line: &str) {
        let mut f = self.out.lock().unwrap();
        f.write_all(line.as_bytes()).unwrap();
        f.write_all(b"\n").unwrap();
        self.total += 1;
    }
    pub fn begin(&mut self, args: Args) {
        let mut s = String::from("{\"op\":\"begin\"");
        put_args(&mut s, &args);
        s.push('}');
        self.emit(&s);
        self.inseg = 0;
    }
    /// Record one call. Panics of the call are data.
    pub fn call<R: Into<J>>(&mut self, op: &str, args: Args, f: impl FnOnce() -> R) -> bool {
        self.call_v(op, args, || { let r = f(); ((), r) }).is_some()
    }
    /// As `call`, and hand back a value for further use (None if the call panicked).
    pub fn call_v<V, R: Into<J>>(&mut self, op: &str, args: Args, f: impl FnOnce() -> (V, R)) -> Option<V> {
        if self.seg > 0 && (self.total == 0 || self.inseg >= self.seg) { self.begin(vec![]) }
        self.inseg += 1;
        let mut line = format!("{{\"op\":\"{}\"", op);
        put_args(&mut line, &args);
        if self.safe {
            // the runner repeats a run that died in this mode, to learn which call killed it
            std::fs::write(std::env::var("TRACE").unwrap() + ".pending", line.as_bytes()).unwrap();
            self.out.lock().unwrap().flush().unwrap();
        }
        *self.pending.lock().unwrap() = Some(Pending { line: line.clone(), since: Instant::now() });
        QUIET.with(|q| *q.borrow_mut() = true);
        let r = catch_unwind(AssertUnwindSafe(|| { let (v, r) = f(); let j: J = r.into(); (v, j) }));
        QUIET.with(|q| *q.borrow_mut() = false);
        *self.pending.lock().unwrap() = None;
        let (v, j, p) = match r { Ok((v, j)) => (Some(v), j, 0), Err(_) => (None, J::L(vec![]), 1) };
        line.push_str(&format!(",\"p\":{},\"r\":", p));
        j.put(&mut line);
        line.push('}');
        self.emit(&line);
        v
    }
    pub fn close(self) {
        self.out.lock().unwrap().flush().unwrap();
        println!("TRACE-COMPLETE {}", self.total);
    }
}
fn put_args(s: &mut String, args: &Args) {
    for (k, v) in args { s.push_str(&format!(",\"{}\":", k)); v.put(s); }
}

// ---------------------------------------------------------------- hacspec helpers
use hacspec::prelude::*;
pub fn sec(v: &[u8]) -> Seq<U8> { Seq::<U8>::from_public_slice(v) }
pub fn pubv<'a, I: IntoIterator<Item = &'a U8>>(it: I) -> Vec<u8> { it.into_iter().map(|x| x.declassify()).collect() }
pub fn seqv(s: &Seq<U8>) -> Vec<u8> { (0..s.len()).map(|i| s[i].declassify()).collect() }
/// Declassify any array of secret bytes, element by element.
#[macro_export]
macro_rules! arrv { ($a:expr) => {{ let a = $a; (0..a.len()).map(|i| a[i].declassify()).collect::<Vec<u8>>() }} }

/// Message lengths worth visiting for a construction working on `block`-byte blocks.
pub fn block_lengths(block: usize, blocks: usize) -> Vec<usize> {
    let mut v = vec![];
    for b in 0..=blocks { for d in -2i64..=2 { let n = (b * block) as i64 + d; if n >= 0 { v.push(n as usize) } } }
    v.sort(); v.dedup();
    v
}

/// Places of interest in something long, `step` apart; the last one reaches to the end.
pub fn windows(n: usize, step: usize) -> Vec<(usize, usize, bool)> {
    let mut at: Vec<usize> = [0usize, 1, 127, 255, 256, 4095, 4096, 32767, 32768, 65534, 65535, 65536].iter().map(|i| i * step).filter(|i| i + step < n).collect();
    at.push((n - 1) / step * step);
    at.sort(); at.dedup();
    at.into_iter().map(|i| (i, (i + step).min(n), i + step >= n)).collect()
}
