//! C23: programs over secret integers, generated from spec/MC_Secrecy.tla, are offered to the
//! compiler; and what the operations on secret integers write to the outside is recorded.
#![allow(dead_code)]
use harness::*;
use hacspec::prelude::*;
use std::fmt::Write as _;
use std::process::Command;

fn bounded(t: &str) -> bool { ["Big", "SBig", "Nat"].contains(&t) }
/// The program of a form with its holes filled, on one line.
fn program(f: &str, a: &str, b: &str, i: usize) -> String {
    let cont = |k: &str| -> String {
        // k uses c (the container) and b (the index)
        format!("fn p{i}(mut c: {a}, b: {b}) {{ {k} }}")
    };
    let two = |k: &str| format!("fn p{i}(mut a: {a}, b: {b}) {{ {k} }}");
    let to = |k: &str| format!("fn p{i}(a: {a}) {{ {} }}", k.replace("B", b));
    let one = |k: &str| format!("fn p{i}(mut a: {a}, b: {a}) {{ {} }}", k.replace("A", a));
    match f {
        "div" => two("let _ = a / b;"), "rem" => two("let _ = a % b;"),
        "eq" => two("let _ = a == b;"), "ne" => two("let _ = a != b;"),
        "lt" => two("let _ = a < b;"), "le" => two("let _ = a <= b;"), "gt" => two("let _ = a > b;"), "ge" => two("let _ = a >= b;"),
        "and" => two("let _ = a && b;"), "or" => two("let _ = a || b;"),
        "div_assign" => two("a /= b;"), "rem_assign" => two("a %= b;"),
        "div_trait" => two(&format!("let _ = <{a} as std::ops::Div<{b}>>::div(a, b);")),
        "rem_trait" => two(&format!("let _ = <{a} as std::ops::Rem<{b}>>::rem(a, b);")),
        "eq_trait" => two(&format!("let _ = <{a} as std::cmp::PartialEq<{b}>>::eq(&a, &b);")),
        "ord_trait" => two(&format!("let _ = <{a} as std::cmp::PartialOrd<{b}>>::partial_cmp(&a, &b);")),
        "div_ref" => two("let _ = &a / &b;"), "rem_ref" => two("let _ = a % &b;"), "eq_ref" => two("let _ = &a == &b;"), "lt_ref" => two("let _ = &a < &b;"),
        "shl" => two("let _ = a << b;"), "shr" => two("let _ = a >> b;"),
        "shl_assign" => two("a <<= b;"), "shr_assign" => two("a >>= b;"), "shl_ref" => two("let _ = a << &b;"), "shr_ref" => two("let _ = &a >> b;"),
        "rotate_left" => two("let _ = a.rotate_left(b);"), "rotate_right" => two("let _ = a.rotate_right(b);"),
        "rotate_left_trait" => two("let _ = Integer::rotate_left(a, b);"), "rotate_right_trait" => two("let _ = Integer::rotate_right(a, b);"),
        "get_bit" => two("let _ = a.get_bit(b);"), "get_bit_trait" => two("let _ = Integer::get_bit(a, b);"),
        "set_bit" => two("let _ = a.set_bit(a, b);"), "get_byte" => two("let _ = a.get_byte(b);"),
        "add" => one("let _: A = a + b;"), "sub" => one("let _: A = a - b;"), "mul" => one("let _: A = a * b;"),
        "bitand" => one("let _: A = a & b;"), "bitor" => one("let _: A = a | b;"), "bitxor" => one("let _: A = a ^ b;"),
        "not" => one("let _: A = !a;"), "neg" => one("let _: A = -a;"), "add_assign" => one("a += b;"), "xor_assign" => one("a ^= b;"),
        "shl_u32" => one("let _: A = a << 1u32;"), "shr_u32" => one("let _: A = a >> 1u32;"),
        "add_to" => to("let _: B = a + a;"), "sub_to" => to("let _: B = a - a;"), "mul_to" => to("let _: B = a * a;"),
        "bitand_to" => to("let _: B = a & a;"), "bitor_to" => to("let _: B = a | a;"), "bitxor_to" => to("let _: B = a ^ a;"),
        "not_to" => to("let _: B = !a;"), "neg_to" => to("let _: B = -a;"), "shl_to" => to("let _: B = a << 1;"),
        "comp_eq_to" => to("let _: B = a.comp_eq(a);"), "comp_gte_to" => to("let _: B = a.comp_gte(a);"), "equal_bm_to" => to("let _: B = a.equal_bm(a);"),
        "if" => one("if a {}"), "while" => one("while a {}"), "if_not" => one("if !a {}"), "assert" => one("assert!(a);"),
        "match_int" => one("match a { 0 => (), _ => () }"), "match_bool" => one("match a { true => (), false => () }"), "then" => one("let _ = (!a).then(|| ());"),
        "index" => cont("let _ = c[b];"), "index_mut" => cont("c[b] = c[0usize];"),
        "index_trait" => cont(&format!("let _ = <{a} as std::ops::Index<{b}>>::index(&c, b);")),
        "index_range" => cont("let _ = &c[b..b];"), "index_to" => cont("let _ = &c[..b];"), "range_loop" => cont("for i in b..b { let _ = c[i]; }"),
        "subseq" => cont(&format!("let _ = <{a}>::sub(&c, b, b);")), "subr" => cont(&format!("let _ = <{a}>::subr(&c, b..b);")), "from_sub" => cont(&format!("let _ = <{a}>::from_sub(&c, b, b);")),
        "from_sub_range" => cont(&format!("let _ = <{a}>::from_sub_range(&c, b..b);")), "update_sub" => cont("let d = c.clone(); let _ = c.update_sub(b, &d, b, b);"),
        "num_chunks" => cont("let _ = c.num_chunks(b);"),
        "get_chunk" => cont("let _ = c.get_chunk(b, b);"), "new" => format!("fn p{i}(b: {b}) {{ let _ = <{a}>::new(b); }}"),
        "update_start_at" => cont("let d = c.clone(); let _ = c.update(b, &d);"), "set_chunk" => cont("let d = c.clone(); let _ = c.set_chunk(b, b, &d);"),
        "let" => to("let _: B = a;"), "argument" => to("fn g(_: B) {} g(a);"), "as" => to("let _ = a as B;"),
        "deref" => to("let _: B = *a;"), "deref_let" => to("let _: &B = &a;"),
        "as_ref" => to("let _: &B = AsRef::<B>::as_ref(&a);"), "borrow" => format!("fn p{i}(a: {a}) {{ let _: &{b} = std::borrow::Borrow::<{b}>::borrow(&a); }}"),
        "array_size" => to("let v: Vec<B> = vec![a]; let _ = v;"), "mix" => to("let b: B = Default::default(); let _: B = a + b;"),
        "mix_left" => to("let b: B = Default::default(); let _: B = b + a;"),
        "into" => to("let _: B = a.into();"), "from" => to("let _ = <B as From<A>>::from(a);".replace('A', a).as_str()),
        "try_into" => to("let _: Result<B, _> = std::convert::TryInto::<B>::try_into(a);"),
        "try_from" => to("let _ = <B as std::convert::TryFrom<A>>::try_from(a);".replace('A', a).as_str()),
        "from_ref" => to("let _ = <B as From<&A>>::from(&a);".replace('A', a).as_str()),
        "signum" => one("let _ = public(a.signum());"),
        "leading_zeros" | "trailing_zeros" | "count_ones" | "count_zeros" | "leading_ones" | "trailing_ones" | "is_power_of_two" | "is_positive" | "is_negative"
        | "is_zero" | "is_one" | "to_usize" | "to_u8" | "to_u64" | "as_u8" | "as_usize" | "unsigned_abs" | "ilog2" => one(&format!("let _ = public(a.{f}());")),
        "abs_diff" | "div_euclid" | "rem_euclid" | "checked_div" | "checked_rem" | "wrapping_div" | "wrapping_rem"
        | "overflowing_add" | "overflowing_sub" | "overflowing_mul" => one(&format!("let _ = a.{f}(b);")),
        "cmp" => one("let _ = a.cmp(&b);"), "partial_cmp" => one("let _ = a.partial_cmp(&b);"),
        "eq_m" => one("let _ = a.eq(&b);"), "ne_m" => one("let _ = a.ne(&b);"), "lt_m" => one("let _ = a.lt(&b);"), "le_m" => one("let _ = a.le(&b);"),
        "gt_m" => one("let _ = a.gt(&b);"), "ge_m" => one("let _ = a.ge(&b);"),
        "max_m" => one("let _ = std::cmp::max(a, b);"), "min_m" => one("let _ = std::cmp::min(a, b);"), "clamp_m" => one("let _ = a.clamp(a, b);"),
        "hash" => one("fn h<T: std::hash::Hash>(_: T) {} h(a);"),
        "hashset" => one("let mut s = std::collections::HashSet::new(); s.insert(a);"),
        "btreeset" => one("let mut s = std::collections::BTreeSet::new(); s.insert(a);"),
        "sort" => one("let mut v = vec![a, b]; v.sort();"), "contains" => one("let v = vec![a]; let _ = v.contains(&b);"),
        "assert_eq" => one("assert_eq!(a, b);"), "assert_ne" => one("assert_ne!(a, b);"),
        "starts_with" => one("let _ = [a].starts_with(&[b]);"), "binary_search" => one("let _ = [a].binary_search(&b);"),
        "position" => one("let _ = [a].iter().position(|x| *x == b);"), "iter_max" => one("let _ = vec![a, b].into_iter().max();"),
        "sum_pub" => one("let _: u64 = vec![a, b].into_iter().sum();"),
        "cont_let" => to("let _: B = a;"), "cont_argument" => to("fn g(_: B) {} g(a);"), "cont_into" => to("let _: B = a.into();"),
        "cont_from" => format!("fn p{i}(a: {a}) {{ let _ = <{b} as From<{a}>>::from(a); }}"),
        "cont_from_ref" => format!("fn p{i}(a: &{a}) {{ let _ = <{b} as From<&{a}>>::from(a); }}"),
        "cont_try_into" => to("let _: Result<B, _> = std::convert::TryInto::<B>::try_into(a);"),
        "cont_deref" => to("let _: &B = &*a;"), "cont_as_ref" => to("let _: &B = AsRef::<B>::as_ref(&a);"),
        "cont_borrow" => format!("fn p{i}(a: {a}) {{ let _: &{b} = std::borrow::Borrow::<{b}>::borrow(&a); }}"),
        "cont_from_seq" => to("let _ = <B>::from_seq(&a);"), "cont_collect" => to("let _: B = a.iter().cloned().collect();"), "cont_eq_pub" => two("let _ = a == b;"),
        "publicseq" => to("fn g(_: PublicSeq<B>) {} let _ = PublicSeq::<B>::new(1);"),
        "public_bound" => to("fn g<T: PublicInteger>(_: T) {} g(a);"), "unsigned_public_bound" => to("fn g<T: UnsignedPublicInteger>(_: T) {} g(a);"),
        "declassify" => to("let _: B = a.declassify();"), "display" => to("let _: String = format!(\"{}\", a);"), "debug" => to("let _: String = format!(\"{:?}\", a);"),
        "lowerhex" => to("let _: String = format!(\"{:x}\", a);"),
        _ => panic!("unknown program form {f}"),
    }
}
const HEAD: &str = r#"#![allow(unused, non_camel_case_types)]
use hacspec::prelude::*;
unsigned_integer!(Big, 128);
signed_integer!(SBig, 128);
nat_mod!(Nat, NatCanvas, 127, "7fffffffffffffffffffffffffffff61");
bytes!(SecArr, 4);
array!(SecWords, 2, U32);
public_bytes!(PubArr, 4);
pub trait Pub {}
impl Pub for bool {} impl Pub for u8 {} impl Pub for u16 {} impl Pub for u32 {} impl Pub for u64 {} impl Pub for u128 {} impl Pub for usize {}
impl Pub for i8 {} impl Pub for i16 {} impl Pub for i32 {} impl Pub for i64 {} impl Pub for i128 {} impl Pub for isize {}
impl<T: Pub> Pub for Option<T> {}
pub fn public<T: Pub>(_: T) {}
"#;

/// Offers the programs to the compiler; which of them does it accept?
fn compile(dir: &std::path::Path, programs: &[(String, String, String)]) -> Vec<bool> {
    let base = HEAD.lines().count();
    let mut src = String::from(HEAD);
    for (i, (f, a, b)) in programs.iter().enumerate() { writeln!(src, "{}", program(f, a, b, i)).unwrap() }
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::write(dir.join("src/lib.rs"), src).unwrap();
    let harness = env!("CARGO_MANIFEST_DIR");
    let manifest = std::fs::read_to_string(format!("{harness}/Cargo.toml")).unwrap().replace("name = \"harness\"", "name = \"programs\"");
    std::fs::write(dir.join("Cargo.toml"), manifest).unwrap();
    let lock = std::fs::read_to_string(format!("{harness}/Cargo.lock")).unwrap().replace("name = \"harness\"", "name = \"programs\"");
    std::fs::write(dir.join("Cargo.lock"), lock).unwrap();
    let out = Command::new("cargo").args(["build", "--offline", "--lib", "--message-format=short"]).current_dir(dir).output().expect("cargo");
    let text = String::from_utf8_lossy(&out.stderr).to_string() + &String::from_utf8_lossy(&out.stdout);
    let mut accepted = vec![true; programs.len()];
    let mut errors = 0;
    for l in text.lines() {
        // src/lib.rs:LINE:COL: error...
        let mut parts = l.splitn(4, ':');
        if let (Some(file), Some(n), Some(_), Some(rest)) = (parts.next(), parts.next(), parts.next(), parts.next()) {
            if file.ends_with("src/lib.rs") && !file.contains("repo") && rest.trim_start().starts_with("error") {
                let n: usize = n.parse().unwrap();
                assert!(n > base, "the programs' common part does not compile: {l}");
                accepted[n - base - 1] = false;
                errors += 1;
            }
        }
    }
    if errors == 0 { eprintln!("{}", &text[text.len().saturating_sub(3000)..]); panic!("the compiler refused no program") }
    accepted
}

macro_rules! silent_ops { ($($t:ident $p:ident)*) => {
    /// Runs one family of operations on secret values; whatever they write is a leak.
    fn operations(ty: &str) {
        $( if ty == stringify!($t) {
            let xs: Vec<$t> = [0u8, 1, 2, 3, 77, 127].iter().map(|x| $t::classify(*x as $p)).collect();
            let quiet = |f: &dyn Fn()| { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)); };
            for &a in &xs { for &b in &xs {
                quiet(&|| { let _ = a + b; }); quiet(&|| { let _ = a - b; }); quiet(&|| { let _ = a * b; });
                quiet(&|| { let _ = a & b; }); quiet(&|| { let _ = a | b; }); quiet(&|| { let _ = a ^ b; });
                quiet(&|| { let _ = !a; }); quiet(&|| { let _ = -a; }); quiet(&|| { let _ = a << 1; }); quiet(&|| { let _ = a >> 1; });
                quiet(&|| { let _ = a.checked_add(b); }); quiet(&|| { let _ = a.checked_sub(b); }); quiet(&|| { let _ = a.checked_mul(b); });
                quiet(&|| { let _ = a.rotate_left(3); }); quiet(&|| { let _ = a.rotate_right(3); });
                quiet(&|| { let _ = Integer::rotate_left(a, 3); }); quiet(&|| { let _ = Integer::rotate_right(a, 3); });
                quiet(&|| { let _ = a.get_bit(1); }); quiet(&|| { let _ = a.set_bit($t::ONE, 1); }); quiet(&|| { let _ = a.set(1, b, 2); });
                quiet(&|| { let _ = a.comp_eq(b); }); quiet(&|| { let _ = a.comp_ne(b); }); quiet(&|| { let _ = a.comp_gte(b); });
                quiet(&|| { let _ = a.comp_gt(b); }); quiet(&|| { let _ = a.comp_lte(b); }); quiet(&|| { let _ = a.comp_lt(b); });
                quiet(&|| { let _ = a.equal(b); }); quiet(&|| { let _ = a.greater_than(b); }); quiet(&|| { let _ = a.greater_than_or_qual(b); });
                quiet(&|| { let _ = a.less_than(b); }); quiet(&|| { let _ = a.less_than_or_equal(b); });
                quiet(&|| { let _ = a.equal_bm(b); }); quiet(&|| { let _ = a.not_equal_bm(b); }); quiet(&|| { let _ = a.greater_than_bm(b); });
                quiet(&|| { let _ = a.less_than_bm(b); }); quiet(&|| { let _ = a.less_than_or_equal_bm(b); }); quiet(&|| { let _ = a.greater_than_or_qual_bm(b); });
                quiet(&|| { let _ = a.wrap_add(b); }); quiet(&|| { let _ = a.wrap_sub(b); }); quiet(&|| { let _ = a.wrap_mul(b); });
                quiet(&|| { let _ = a.pow(3); }); quiet(&|| { let _ = NumericBase::div(a, b); });
                for &n in &xs[1..] {
                    quiet(&|| { let _ = a.add_mod(b, n); }); quiet(&|| { let _ = a.sub_mod(b, n); }); quiet(&|| { let _ = a.mul_mod(b, n); });
                    quiet(&|| { let _ = a.pow_mod(b, n); }); quiet(&|| { let _ = a.modulo(n); });
                    if b.declassify() != 0 { quiet(&|| { let _ = NumericBase::inv(a, n); }); }
                }
                quiet(&|| { let _ = $t::classify(5 as $p); }); quiet(&|| { let _ = $t::from_literal(5); }); quiet(&|| { let _ = $t::max_val(); });
                quiet(&|| { let v = $t::to_le_bytes(&[a, b]); let _ = $t::from_le_bytes(&v); }); quiet(&|| { let v = $t::to_be_bytes(&[a, b]); let _ = $t::from_be_bytes(&v); });
                quiet(&|| { let s = Seq::<$t>::from_vec(xs.clone()); let _ = s.sub(1, 2); let _ = s.clone().update(1, &s.sub(0, 2)); let _ = s.get_chunk(2, 1); });
                quiet(&|| { let s = SecretSeq::<$t>::from_vec(xs.clone()); let _ = s.len(); let _ = s.clone().update_start(&s); });
            } }
        } )*
    }
} }
silent_ops!(U8 u8 U16 u16 U32 u32 U64 u64 U128 u128 I8 i8 I16 i16 I32 i32 I64 i64 I128 i128);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "--operations" {
        std::panic::set_hook(Box::new(|_| {}));
        operations(&args[2]);
        return;
    }
    let mut t = Trace::open(0);
    let text = std::fs::read_to_string(&args[1]).expect("behaviours");
    let words: Vec<String> = text.split('"').enumerate().filter(|(i, _)| i % 2 == 1).map(|(_, w)| w.to_string()).collect();
    let mut programs: Vec<(String, String, String)> = words.chunks(3).map(|c| (c[0].clone(), c[1].clone(), c[2].clone())).collect();
    programs.sort();
    let dir = std::path::PathBuf::from(&args[1]).parent().unwrap().join("programs");
    let accepted = compile(&dir, &programs);
    let mut last = String::new();
    for (p, ok) in programs.iter().zip(accepted) {
        if p.0 != last { last = p.0.clone(); t.begin(args! {}); }
        t.call("program", args! {f: p.0.as_str(), a: p.1.as_str(), b: p.2.as_str()}, || ok);
    }
    t.begin(args! {});
    for ty in ["U8", "U16", "U32", "U64", "U128", "I8", "I16", "I32", "I64", "I128"] {
        let out = Command::new(&args[0]).args(["--operations", ty]).output().expect("self");
        let mut seen = out.stdout; seen.extend(out.stderr); seen.truncate(200);
        if !out.status.success() { seen = b"died".to_vec() }
        t.call("silence", args! {a: ty}, || seen.clone());
    }
}
