//! The container machine on the real types: registers 1..3 are sequences, 4..5 fixed-size arrays.
use crate::J;
use hacspec::prelude::*;

#[derive(Clone, Debug)]
pub enum V { I(i64), S(String), L(Vec<V>) }
impl V {
    pub fn parse(s: &str) -> V { let b = s.trim().as_bytes(); let mut i = 0; let v = V::go(b, &mut i); assert!(i == b.len()); v }
    fn go(b: &[u8], i: &mut usize) -> V {
        match b[*i] {
            b'[' => {
                *i += 1;
                let mut v = vec![];
                while b[*i] != b']' { if b[*i] == b',' || b[*i] == b' ' { *i += 1 } else { v.push(V::go(b, i)) } }
                *i += 1;
                V::L(v)
            }
            b'"' => { let p = *i + 1; *i = p; while b[*i] != b'"' { *i += 1 } *i += 1; V::S(String::from_utf8(b[p..*i - 1].to_vec()).unwrap()) }
            _ => { let p = *i; while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) { *i += 1 } V::I(std::str::from_utf8(&b[p..*i]).unwrap().parse().unwrap()) }
        }
    }
    pub fn j(&self) -> J { match self { V::I(x) => J::I(*x), V::S(s) => J::S(s.clone()), V::L(l) => J::L(l.iter().map(|x| x.j()).collect()) } }
    pub fn int(&self) -> i64 { match self { V::I(x) => *x, _ => panic!("step format") } }
    pub fn s(&self) -> &str { match self { V::S(x) => x, _ => panic!("step format") } }
    pub fn list(&self) -> &[V] { match self { V::L(x) => x, _ => panic!("step format") } }
    pub fn bytes(&self) -> Vec<u8> { self.list().iter().map(|x| x.int() as u8).collect() }
    /// an index of the specification: 2000000000 is the largest machine index
    pub fn idx(&self) -> usize { if self.int() == 2000000000 { usize::MAX } else { self.int() as usize } }
}
pub fn step(name: &str, rest: Vec<V>) -> V { let mut v = vec![V::S(name.to_string())]; v.extend(rest); V::L(v) }
#[macro_export]
macro_rules! step { ($name:expr $(, $x:expr)*) => { $crate::container::step($name, vec![$( $crate::container::V::from($x) ),*]) } }
impl From<usize> for V { fn from(x: usize) -> V { V::I(if x == usize::MAX { 2000000000 } else { x as i64 }) } }
impl From<i32> for V { fn from(x: i32) -> V { V::I(x as i64) } }
impl From<&str> for V { fn from(x: &str) -> V { V::S(x.to_string()) } }
impl From<&[u8]> for V { fn from(x: &[u8]) -> V { V::L(x.iter().map(|b| V::I(*b as i64)).collect()) } }
impl From<&Vec<u8>> for V { fn from(x: &Vec<u8>) -> V { V::from(&x[..]) } }

/// Elements carry one byte, spread over the whole width so that a mangled element shows.
pub trait Elem: Copy { type Pub: Copy; fn mk(b: u8) -> Self; fn un(self) -> i64; fn mkp(b: u8) -> Self::Pub; }
macro_rules! elems { ($($t:ident $p:ident;)*) => { $( impl Elem for $t {
    type Pub = $p;
    fn mk(b: u8) -> $t { <$t as Integer>::from_literal((b as u128 * 0x01010101010101010101010101010101u128) & (u128::MAX >> (128 - <$t as Integer>::NUM_BITS))) }
    fn un(self) -> i64 { let l = crate::int::M::le(self); if l.iter().all(|x| *x == l[0]) { l[0] as i64 } else { -1 } }
    fn mkp(b: u8) -> $p { <$p as Integer>::from_literal((b as u128 * 0x01010101010101010101010101010101u128) & (u128::MAX >> (128 - <$p as Integer>::NUM_BITS))) }
} )* } }
elems!(u8 u8; u16 u16; u32 u32; u64 u64; u128 u128; U8 u8; U16 u16; U32 u32; U64 u64; U128 u128;);

pub fn un<T: Elem>(v: impl IntoIterator<Item = T>) -> J { J::L(v.into_iter().map(|x| J::I(x.un())).collect()) }

pub trait Machine {
    fn al(&self) -> usize;
    /// run one step; the reply is the value and all register contents
    fn step(&mut self, o: &V) -> J;
    fn name(&self) -> &'static str;
}

/// `$pub_s` / `$pub_a`: how a public list is classified into a sequence / an array.
#[macro_export]
macro_rules! machine {
    ($m:ident, $seq:ty, $arr:ty, $al:expr, $t:ty, $pubs:expr, $puba:expr) => {
        pub struct $m { s: [$seq; 3], a: [$arr; 2] }
        impl $m {
            pub fn new() -> $m { $m { s: [<$seq>::new(0), <$seq>::new(0), <$seq>::new(0)], a: [<$arr>::new(), <$arr>::new()] } }
            fn all(&self) -> $crate::J {
                use $crate::container::un;
                $crate::J::L(vec![
                    un::<$t>(self.s[0].iter().cloned()), un::<$t>(self.s[1].iter().cloned()), un::<$t>(self.s[2].iter().cloned()),
                    un::<$t>(self.a[0].iter().cloned()), un::<$t>(self.a[1].iter().cloned())])
            }
        }
        impl $crate::container::Machine for $m {
            fn al(&self) -> usize { $al }
            fn name(&self) -> &'static str { stringify!($m) }
            fn step(&mut self, o: &$crate::container::V) -> $crate::J {
                #[allow(unused)]
                use $crate::{J, container::{un, Elem}};
                let o = o.list();
                let op = o[0].s();
                let int = |k: usize| o[k].int();
                let idx = |k: usize| o[k].idx();
                let elems = |k: usize| -> Vec<$t> { o[k].bytes().iter().map(|b| <$t as Elem>::mk(*b)).collect() };
                // run $e with $x bound to a copy of register $r
                macro_rules! src { ($r:expr, $x:ident, $e:expr) => { if $r <= 3 { let $x = self.s[$r as usize - 1].clone(); $e } else { let $x = self.a[$r as usize - 4].clone(); $e } } }
                // assign to register $r the result of $fs (a sequence) or $fa (an array)
                macro_rules! put { ($r:expr, $fs:expr, $fa:expr) => {{ if $r <= 3 { let v: $seq = $fs; self.s[$r as usize - 1] = v } else { let v: $arr = $fa; self.a[$r as usize - 4] = v } J::I(0) }} }
                macro_rules! upd { ($r:expr, $x:ident, $e:expr) => {{ if $r <= 3 { let $x = self.s[$r as usize - 1].clone(); let v: $seq = $e; self.s[$r as usize - 1] = v } else { let $x = self.a[$r as usize - 4].clone(); let v: $arr = $e; self.a[$r as usize - 4] = v } J::I(0) }} }
                macro_rules! seq { ($e:expr) => { <$seq>::from_vec($e.iter().cloned().collect::<Vec<$t>>()) } }
                let d = int(1);
                let v = match op {
                    "new" => put!(d, <$seq>::new(idx(2)), <$arr>::new()),
                    "create" => put!(d, <$seq as SeqTrait<$t>>::create(idx(2)), <$arr as SeqTrait<$t>>::create(idx(2))),
                    "from_slice" => put!(d, <$seq>::from_slice(&elems(2)), <$arr>::from_slice(&elems(2))),
                    "from_vec" => put!(d, <$seq>::from_vec(elems(2)), <$arr>::from_vec(elems(2))),
                    "from_array" => { let mut x = [<$t>::default(); $al]; x.copy_from_slice(&elems(2)); put!(d, panic!(), <$arr>::from_array(x)) }
                    "from_public" => { let p: Vec<<$t as Elem>::Pub> = o[2].bytes().iter().map(|b| <$t as Elem>::mkp(*b)).collect(); put!(d, ($pubs)(&p[..]), ($puba)(&p[..])) }
                    "default" => put!(d, <$seq>::default(), <$arr>::default()),
                    "capacity" => J::I(<$arr>::capacity() as i64),
                    "full" => un::<$t>(self.a[d as usize - 4][..].iter().cloned()),
                    "from_seq" => src!(int(2), x, put!(d, <$seq>::from_seq(&x), <$arr>::from_seq(&x))),
                    "from_sub" => src!(int(2), x, put!(d, <$seq>::from_sub(&x, idx(3), idx(4)), <$arr>::from_sub(&x, idx(3), idx(4)))),
                    "from_sub_range" => src!(int(2), x, put!(d, <$seq>::from_sub_range(&x, idx(3)..idx(4)), <$arr>::from_sub_range(&x, idx(3)..idx(4)))),
                    "sub" => src!(int(2), x, put!(d, seq!((&x).sub(idx(3), idx(4))), panic!())),
                    "subr" => src!(int(2), x, put!(d, seq!((&x).subr(idx(3)..idx(4))), panic!())),
                    "range" => un::<$t>(self.s[d as usize - 1][idx(2)..idx(3)].iter().cloned()),
                    "clone" => { let s = int(2); put!(d, self.s[s as usize - 1].clone(), self.a[s as usize - 4].clone()) }
                    "len" => src!(d, x, { let a = x.len(); assert!(a == SeqTrait::<$t>::len(&x), "len"); J::I(a as i64) }),
                    "iter" => src!(d, x, un::<$t>(SeqTrait::<$t>::iter(&x).cloned())),
                    "get" => src!(d, x, { let i = int(2); J::I(match o[3].s() { "usize" => x[i as usize], "u8" => x[i as u8], "u32" => x[i as u32], "i32" => x[i as i32], _ => panic!() }.un()) }),
                    "set" => {
                        let (i, e) = (int(2), <$t as Elem>::mk(int(3) as u8));
                        macro_rules! go { ($x:expr) => { match o[4].s() { "usize" => $x[i as usize] = e, "u8" => $x[i as u8] = e, "u32" => $x[i as u32] = e, "i32" => $x[i as i32] = e, _ => panic!() } } }
                        if d <= 3 { go!(self.s[d as usize - 1]) } else { go!(self.a[d as usize - 4]) }
                        J::I(0)
                    }
                    "update_sub" => src!(int(3), y, upd!(d, x, x.update_sub(idx(2), &y, idx(4), idx(5)))),
                    "update" => src!(int(3), y, upd!(d, x, x.update(idx(2), &y))),
                    "update_start" => src!(int(2), y, upd!(d, x, x.update_start(&y))),
                    "num_chunks" => src!(d, x, J::I(x.num_chunks(idx(2)) as i64)),
                    "get_chunk" => src!(d, x, { let (n, c) = x.get_chunk(idx(2), idx(3)); J::L(vec![J::I(n as i64), un::<$t>(c.iter().cloned())]) }),
                    "chunk_len" => J::I(self.a[d as usize - 4].get_chunk_len(idx(2), idx(3)) as i64),
                    "set_chunk" => src!(int(4), y, upd!(d, x, x.set_chunk(idx(2), idx(3), &y))),
                    _ => panic!("unknown step"),
                };
                J::L(vec![v, self.all()])
            }
        }
    };
}

/// Replay one history.
pub fn replay(t: &mut crate::Trace, m: &mut dyn Machine, steps: &[V]) {
    t.begin(crate::args! {al: m.al(), t: m.name()});
    for o in steps { run(t, m, o) }
}
pub fn run(t: &mut crate::Trace, m: &mut dyn Machine, o: &V) {
    let name = m.name();
    t.call(o.list()[0].s(), crate::args! {o: o.j(), t: name}, || m.step(o));
}

/// One step on containers of many elements: the registers are filled by a rule, the reply is the value and
/// the elements that are different afterwards (position from 1, value).
pub fn wide(t: &mut crate::Trace, m: &mut dyn Machine, n: usize, n2: usize, c: &[u8], o: &V) {
    let al = m.al();
    let fill = |n: usize, k: usize| -> Vec<u8> { (1..=n).map(|i| ((i * 7 + i / 251 + k) % 256) as u8).collect() };
    let before = [fill(n, 1), fill(n2, 2), c.to_vec(), fill(al, 4), fill(al, 5)];
    t.call("wide", crate::args! {al: al, n: n, m: n2, c: c, o: o.j(), t: m.name()}, || {
        for (d, x) in before.iter().enumerate() { m.step(&step!("from_vec", d + 1, x)); }
        let J::L(r) = m.step(o) else { panic!() };
        let J::L(regs) = &r[1] else { panic!() };
        let num = |j: &J| match j { J::I(x) => *x, _ => panic!() };
        let delta = regs.iter().zip(&before).map(|(y, x)| {
            let J::L(y) = y else { panic!() };
            if y.len() != x.len() { return J::L(vec![J::I(1), J::L(vec![]), J::L(y.iter().map(|v| J::I(num(v))).collect())]) }
            let ps: Vec<usize> = (0..x.len()).filter(|i| num(&y[*i]) != x[*i] as i64).collect();
            J::L(vec![J::I(0), J::L(ps.iter().map(|i| J::I(*i as i64 + 1)).collect()), J::L(ps.iter().map(|i| J::I(num(&y[*i]))).collect())])
        }).collect();
        let mut r = r.into_iter();
        J::L(vec![r.next().unwrap(), J::L(delta)])
    });
}
/// threads for containers that do not fit on the usual stack
pub fn roomy(f: impl FnOnce() + Send) { std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(s, f).unwrap().join().unwrap()) }
