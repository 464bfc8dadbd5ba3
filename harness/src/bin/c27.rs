//! C27: test vectors read from JSON files, written here from documents the specification generates.
#![allow(non_snake_case)]
use hacspec_dev::*;
use harness::{args, Rng, Trace, J};
use serde_json::Value as V;

create_test_vectors!(Leaf, x: u32, s: String);
create_test_vectors!(Node, info: String, flag: bool, bytes: Vec<u8>, tests: Vec<Leaf>);
create_test_vectors!(Wide, a: u64, b: i16, c: u128, d: Vec<Vec<u16>>, e: Vec<String>, f: i64, g: Vec<Node>);
create_test_vectors!(Case, tcId: u32, X: u32, x: u32, msg: String, ct: String);

// texts as lists of character codes
fn tx(x: impl ToString) -> J { J::L(x.to_string().chars().map(|c| J::I(c as i64)).collect()) }
fn leaf(l: &Leaf) -> J { J::L(vec![tx(l.x), tx(&l.s)]) }
fn node(n: &Node) -> J { J::L(vec![tx(&n.info), tx(n.flag), J::L(n.bytes.iter().map(tx).collect()), J::L(n.tests.iter().map(leaf).collect())]) }
fn case(c: &Case) -> J { J::L(vec![tx(c.tcId), tx(c.X), tx(c.x), tx(&c.msg), tx(&c.ct)]) }
fn wide(w: &Wide) -> J {
    J::L(vec![tx(w.a), tx(w.b), tx(w.c), J::L(w.d.iter().map(|l| J::L(l.iter().map(tx).collect())).collect()),
        J::L(w.e.iter().map(tx).collect()), tx(w.f), J::L(w.g.iter().map(node).collect())])
}

// documents of the generator's form
fn doc(t: &str, v: String, l: Vec<V>, o: Vec<V>) -> V { serde_json::json!({"t": t, "v": v, "l": l, "o": o}) }
fn num<T: ToString>(x: T) -> V { doc("num", x.to_string(), vec![], vec![]) }
fn strv(x: String) -> V { doc("str", x, vec![], vec![]) }
fn arr(l: Vec<V>) -> V { doc("arr", String::new(), l, vec![]) }
fn obj(o: Vec<(&str, V)>) -> V { doc("obj", String::new(), vec![], o.into_iter().map(|(k, x)| serde_json::json!([k, x])).collect()) }
struct Gen { r: Rng, wrong: usize, max: usize }
impl Gen {
    fn text(&mut self) -> String {
        let n = match self.r.below(12) { 0 => 0, 1 => 1, 2 => 20 * self.max, _ => self.r.below(20) };
        (0..n).map(|_| *self.r.pick(&['a', 'B', '0', '9', 'f', ' ', '"', '\\', '/', '\n', '\t', '{', ',', ':', ']', '\u{e9}', '\u{6f22}', '\u{1f600}', '\u{0}', '\u{7f}', '\u{ffff}'])).collect()
    }
    /// a number next to a bound of the type, or anything
    fn int(&mut self, bits: u32, signed: bool) -> V {
        let top = bits - signed as u32;
        if self.slip() {
            // just outside the type, far outside, or not an integer
            let max = if top == 128 { u128::MAX } else { (1 << top) - 1 };
            return match self.r.below(4) { 0 if top < 128 => num(max + 1), 1 if signed => num(format!("-{}", max + 2)), 1 => num("-1"), 2 => num(format!("{}9", max)), _ => self.other(true) }
        }
        let k = if self.r.chance(3) { top } else { self.r.range(0, top as usize) as u32 };
        let max: u128 = if k == 128 { u128::MAX } else { (1 << k) - 1 };
        let x = match self.r.below(3) { 0 => max, 1 => max.saturating_sub(1), _ => if k == 128 { self.r.u128() } else { self.r.u128() % (max + 1) } };
        if signed && self.r.chance(2) { num(format!("-{}", x + 1)) } else { num(x) }
    }
    fn slip(&mut self) -> bool { self.wrong > 0 && self.r.chance(self.wrong) }
    /// a value of some other type
    fn other(&mut self, number: bool) -> V {
        match self.r.below(5) { 0 => doc("null", String::new(), vec![], vec![]), 1 => doc("num", "2.5".into(), vec![], vec![]), 2 if !number => num(7), 2 => strv("7".into()), 3 => obj(vec![("x", num(1))]), _ => doc("num", "-0.0".into(), vec![], vec![]) }
    }
    fn str(&mut self) -> V { if self.slip() { self.other(false) } else { strv(self.text()) } }
    fn list(&mut self, m: usize, mut f: impl FnMut(&mut Gen) -> V) -> V {
        if self.slip() { return self.other(false) }
        let n = match self.r.below(6) { 0 => 0, 1 => 1, 2 => m, _ => self.r.below(m) };
        arr((0..n).map(|_| f(self)).collect())
    }
    /// the entries in any order, with entries that are not declared, or one missing or doubled
    fn rec(&mut self, mut es: Vec<(&str, V)>) -> V {
        for i in (1..es.len()).rev() { let j = self.r.below(i + 1); es.swap(i, j) }
        for k in ["comment", "A", "x ", "", "\u{e9}"] { if self.r.chance(8) && !es.iter().any(|e| e.0 == k) {
            let v = match self.r.below(4) { 0 => strv(self.text()), 1 => arr(vec![num(1), obj(vec![("a", num(2)), ("a", arr(vec![]))])]), 2 => self.other(true), _ => num("99999999999999999999") };
            let at = self.r.below(es.len() + 1);
            es.insert(at, (k, v.clone()));
            if self.r.chance(4) { es.push((k, v)) }
        } }
        if self.slip() { let i = self.r.below(es.len()); if self.r.chance(2) { es.remove(i); } else { let e = es[i].clone(); let at = self.r.below(es.len() + 1); es.insert(at, e) } }
        obj(es)
    }
    fn leaf(&mut self) -> V { let es = vec![("x", self.int(32, false)), ("s", self.str())]; self.rec(es) }
    fn node(&mut self) -> V {
        let b = if self.slip() { num(1) } else { doc("bool", (if self.r.chance(2) { "true" } else { "false" }).into(), vec![], vec![]) };
        let m = self.max;
        let es = vec![("info", self.str()), ("flag", b), ("bytes", self.list(4 * m, |g| g.int(8, false))), ("tests", self.list(m, |g| g.leaf()))];
        self.rec(es)
    }
    fn wide(&mut self) -> V {
        let m = self.max / 4 + 2;
        let es = vec![("a", self.int(64, false)), ("b", self.int(16, true)), ("c", self.int(128, false)), ("d", self.list(m, |g| g.list(m, |g| g.int(16, false)))),
            ("e", self.list(m, |g| g.str())), ("f", self.int(64, true)), ("g", self.list(3, |g| g.node()))];
        self.rec(es)
    }
}

/// a text, or the codes of one
fn s(v: &V) -> String { match v { V::Array(l) => l.iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect(), _ => v.as_str().unwrap().to_string() } }
fn get<'a>(d: &'a V, k: &str) -> &'a V { &d[k] }
fn list(v: &V) -> &[V] { v.as_array().unwrap() }
/// The document as JSON text, with the freedoms JSON leaves: white space, escaped characters.
fn string(o: &mut String, t: &str, r: &mut Rng) {
    o.push('"');
    for c in t.chars() {
        if c < ' ' || c == '"' || c == '\\' || r.chance(6) {
            let mut u = [0; 2];
            match c { '\n' if r.chance(2) => o.push_str("\\n"), '"' if r.chance(2) => o.push_str("\\\""), '\\' if r.chance(2) => o.push_str("\\\\"), '/' if r.chance(2) => o.push_str("\\/"),
                _ => for x in c.encode_utf16(&mut u) { o.push_str(&if r.chance(2) { format!("\\u{:04x}", x) } else { format!("\\u{:04X}", x) }) } }
        } else { o.push(c) }
    }
    o.push('"')
}
fn gap(o: &mut String, r: &mut Rng, loose: bool) { if loose || r.chance(5) { o.push_str([" ", "\n", "\t", "\r\n", "  "][r.below(5)]) } }
fn write(o: &mut String, d: &V, r: &mut Rng, loose: bool) {
    let t = s(get(d, "t"));
    let v = s(get(d, "v"));
    match &t[..] {
        "num" | "bool" => o.push_str(&v),
        "null" => o.push_str("null"),
        "str" => string(o, &v, r),
        "arr" => { o.push('['); for (i, x) in list(get(d, "l")).iter().enumerate() { if i > 0 { o.push(',') } gap(o, r, loose); write(o, x, r, loose); gap(o, r, loose) } o.push(']') }
        _ => { o.push('{'); for (i, kv) in list(get(d, "o")).iter().enumerate() {
            if i > 0 { o.push(',') }
            let kv = list(kv);
            gap(o, r, loose); string(o, &s(&kv[0]), r); gap(o, r, loose); o.push(':'); gap(o, r, loose); write(o, &kv[1], r, loose); gap(o, r, loose)
        } o.push('}') }
    }
}
// what is put into or over a text, to see where the reader draws the line
const BITS: [&[u8]; 58] = [b"//x\n", b"\n//x\n", b"/* x */", b"# x\n", b",", b",,", b"\xef\xbb\xbf", b"\xc2\xa0", b"\x0b", b"\x0c", b"\x00", b"\x1f", b"\x7f", b"\x80", b"\xff", b"\xc0\xaf", b"\xed\xa0\x80",
    b"\xf4\x90\x80\x80", b"\xe2\x82", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"NaN", b"Infinity", b"-", b"+1", b"0x1", b".5", b"1.", b"01", b"-0", b"1e3", b"1E+2", b"00", b"\"", b"'", b"\\", b"\\x41", b"\\u12",
    b"\\ud83d", b"\\ude00", b"\\ud83d\\ude00", b"\\u0000", b"\\U0041", b"\\'", b"\\/", b"True", b"true", b"nul", b"null", b"[", b"]", b"{", b"}", b":", b"\r", b"\n", b"\t", b" "];
fn mutate(text: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..[1, 1, 1, 2, 3][r.below(5)] {
        let n = text.len();
        let mut at = r.below(n + 1);
        // often between two tokens
        if r.chance(2) { while at > 0 && at < n && !b"[]{},:".contains(&text[at - 1]) && !b"[]{},:".contains(&text[at]) { at += 1 } }
        match r.below(8) {
            0 if n > 0 => text[at % n] ^= 1 << r.below(8),
            1 if n > 0 => { text.remove(at % n); }
            2 => text.truncate(at),
            3 if n > 0 => text[at % n] = r.next() as u8,
            4 => { let x = BITS[r.below(BITS.len())].to_vec(); let end = if r.chance(2) { 0 } else { n }; text.splice(end..end, x); }
            5 if n > 0 => { let to = (at + r.below(4)).min(n); let x = BITS[r.below(BITS.len())].to_vec(); text.splice(at..to, x); }
            6 if n > 1 => text.swap(at % n, (at + 1) % n),
            _ => { let x = BITS[r.below(BITS.len())].to_vec(); text.splice(at..at, x); }
        }
    }
}
fn main() {
    let mut t = Trace::open(40);
    let mut r = t.rng(27);
    let lines = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let dir = std::path::PathBuf::from(std::env::var("TRACE").unwrap() + ".files");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir(&dir).unwrap();
    let path: &'static str = Box::leak(dir.join("vectors.json").to_str().unwrap().to_string().into_boxed_str());
    let absent: &'static str = Box::leak(dir.join("absent.json").to_str().unwrap().to_string().into_boxed_str());
    for line in lines.lines() {
        let b: V = serde_json::from_str(line).unwrap();
        let b = list(&b);
        one(&mut t, &mut r, path, absent, &s(&b[0]), &b[1], &s(&b[2]));
    }
    // random documents, right ones and ones with slips; some larger than any buffer
    let n = t.n(500, 6000);
    for i in 0..n {
        let mut g = Gen { r: Rng::new(r.next()), wrong: [0, 0, 40, 120, 400][r.below(5)], max: if i % 100 == 7 { 100 } else { [3, 6, 12][r.below(3)] } };
        let (kind, d) = match i % 5 { 0 => ("leaf", g.leaf()), 1 => ("node", g.node()), 2 => ("wide", g.wide()), 3 => ("leafs", g.list(if i % 100 == 8 { 400 } else { 8 }, |g| g.leaf())), _ => ("wides", g.list(3, |g| g.wide())) };
        let damage = if r.chance(6) { ["cut", "trail", "absent", "spaces", "spaces"][r.below(5)] } else { "none" };
        // a number is complete at any length
        one(&mut t, &mut r, path, absent, kind, &d, if damage == "cut" && s(&d["t"]) == "num" { "none" } else { damage });
    }
    // texts that are almost documents
    let n = t.n(6000, 60000);
    for i in 0..n {
        let mut g = Gen { r: Rng::new(r.next()), wrong: [0, 0, 40][r.below(3)], max: [1, 2][r.below(2)] };
        let (kind, d) = match i % 8 { 0 => ("node", g.node()), 1 => ("leafs", g.list(3, |g| g.leaf())), 2 => ("wide", g.wide()), _ => ("leaf", g.leaf()) };
        let mut text = String::new();
        write(&mut text, &d, &mut r, i % 3 == 0);
        let mut text = text.into_bytes();
        mutate(&mut text, &mut r);
        load(&mut t, path, kind, &text);
    }
    std::fs::remove_dir_all(&dir).unwrap();
    t.close()
}
fn one(t: &mut Trace, r: &mut Rng, path: &'static str, absent: &'static str, kind: &str, doc: &V, damage: &str) {
    let mut text = String::new();
    write(&mut text, doc, r, damage == "spaces");
    match damage { "cut" => { text.pop(); } "trail" => text.push_str([" x", "{}", "]", "}", ",", " 0"][r.below(6)]), "spaces" => { text.insert_str(0, " \n"); text.push('\n') } _ => {} }
    load(t, if damage == "absent" { absent } else { path }, kind, text.as_bytes());
    // a list of them
    if kind == "node" && damage == "none" && r.chance(8) { load(t, path, "nodes", format!("[{},{}]", text, text).as_bytes()) }
}
fn load(t: &mut Trace, p: &'static str, kind: &str, text: &[u8]) {
    let there = !p.ends_with("absent.json");
    if there { std::fs::write(p, text).unwrap() }
    let a = || args! {kind: kind, text: text, there: there};
    match kind {
        "leaf" => { t.call("load", a(), || leaf(&Leaf::new(p))); }
        "wide" => { t.call("load", a(), || wide(&Wide::new(p))); }
        "node" => { t.call("load", a(), || node(&Node::new(p))); }
        "case" => { t.call("load", a(), || case(&Case::new(p))); }
        "nodes" => { t.call("load", a(), || Node::new_array(p).iter().map(node).collect::<Vec<J>>()); }
        "wides" => { t.call("load", a(), || Wide::new_array(p).iter().map(wide).collect::<Vec<J>>()); }
        _ => { t.call("load", a(), || Leaf::new_array(p).iter().map(leaf).collect::<Vec<J>>()); }
    }
}
