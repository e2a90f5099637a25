//! C19: the combinator library. Every constructor of `doodle::helper`, over a complete bounded
//! space of constructor arguments and inputs, against its documented meaning written out
//! independently. The constructed formats go through the type checker, the compiler and both
//! interpreters, the constructed expressions through the evaluator.
use crate::report::{Ctx, Tier, guarded};
use crate::rv::{RV, from_value};
use doodle::bounds::Bounds;
use doodle::decoder::{Compiler, Scope};
use doodle::helper::{self as h, BitFieldKind};
use doodle::loc_decoder::LocScope;
use doodle::numeric::{MachineRep, helper as num};
use doodle::read::ReadCtxt;
use doodle::{BaseKind, BaseType, Endian, Expr, Format, FormatModule, Label, Pattern, StyleHint, ValueType};
use std::cell::Cell;
use std::collections::BTreeSet;

/// value, consumed bytes, soft errors recorded
type Out = Option<(RV, usize, bool)>;

fn same(a: &RV, b: &RV) -> bool {
    match (a, b) {
        (RV::Int(w, x), RV::Int(v, y)) => x == y && (*w == 0 || *v == 0 || w == v),
        (RV::Opt(Some(x)), RV::Opt(Some(y))) => same(x, y),
        (RV::Tup(x), RV::Tup(y)) | (RV::Seq(x), RV::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (RV::Rec(x), RV::Rec(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1)),
        (RV::Var(l, x), RV::Var(m, y)) => l == m && same(x, y),
        _ => a == b,
    }
}
fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some((v, n, s)), Some((w, m, t))) => same(v, w) && n == m && s == t,
        _ => false,
    }
}

fn int(n: i128) -> RV {
    RV::Int(0, n)
}
fn i8b(n: u8) -> RV {
    RV::Int(8, n as i128)
}
fn bytes(b: &[u8]) -> RV {
    RV::Seq(b.iter().map(|x| i8b(*x)).collect())
}
fn some(v: RV) -> RV {
    RV::Opt(Some(Box::new(v)))
}
fn none() -> RV {
    RV::Opt(None)
}
fn unit() -> RV {
    RV::Tup(vec![])
}
fn rec(fs: Vec<(&str, RV)>) -> RV {
    RV::Rec(fs.into_iter().map(|(l, v)| (l.to_string(), v)).collect())
}
fn va(l: &str, v: RV) -> RV {
    RV::Var(l.to_string(), Box::new(v))
}
fn ok(v: RV, n: usize) -> Out {
    Some((v, n, false))
}
fn any() -> Format {
    h::ANY_BYTE
}
fn u8t() -> ValueType {
    ValueType::Base(BaseType::U8)
}
fn seq_e(xs: &[u8]) -> Expr {
    if xs.is_empty() {
        // a typed empty sequence
        h::sub_seq(h::singleton(Expr::U8(0)), Expr::U32(0), Expr::U32(0))
    } else {
        h::expr_lift_seq(xs.iter().copied(), Expr::U8)
    }
}
fn opt_e(o: Option<u8>) -> Expr {
    match o {
        Some(n) => h::expr_some(Expr::U8(n)),
        None => h::expr_none(),
    }
}

pub struct Cx<'a> {
    ctx: &'a Ctx,
    ins: Vec<Vec<u8>>,
    names: std::cell::RefCell<BTreeSet<String>>,
    reported: std::cell::RefCell<BTreeSet<String>>,
    formats: Cell<u64>,
    exprs: Cell<u64>,
    runs: Cell<u64>,
}

impl Cx<'_> {
    fn bad(&self, name: &str, what: &str, detail: String) {
        // one report per helper and kind of failure
        if !self.reported.borrow_mut().insert(format!("{name}/{what}")) {
            return;
        }
        self.ctx.violation(&format!("{name}/{what}"), &format!("helper {name}: {what}\n{detail}"));
    }
    fn seen(&self, name: &str) {
        let root = name.split(['(', ' ']).next().unwrap().to_string();
        self.names.borrow_mut().insert(root);
    }

    /// `f` must be accepted and behave as `want` on each input, in both interpreters
    fn fmt_on(&self, name: &str, mk: impl FnOnce() -> Format, ins: &[Vec<u8>], want: impl Fn(&[u8]) -> Out) {
        self.fmt_mod(name, |_| mk(), ins, want)
    }
    /// the same for a format that needs definitions of its own
    fn fmt_mod(&self, name: &str, mk: impl FnOnce(&mut FormatModule) -> Format, ins: &[Vec<u8>], want: impl Fn(&[u8]) -> Out) {
        if self.ctx.too_many() {
            return;
        }
        self.seen(name);
        self.ctx.begin(0, || name.to_string());
        self.formats.set(self.formats.get() + 1);
        self.ctx.add_states(1);
        let built = guarded(|| {
            let mut m = FormatModule::new();
            let f = mk(&mut m);
            let f = m.define_format("main", f).call();
            Compiler::compile_program(&m, &f).map_err(|e| e.to_string())
        });
        let p = match built {
            Ok(Ok(p)) => p,
            Ok(Err(e)) | Err(e) => {
                self.bad(name, "refused", e);
                self.ctx.end(0);
                return;
            }
        };
        for i in ins {
            self.runs.set(self.runs.get() + 1);
            let w = want(i);
            if w.is_some() {
                self.ctx.add_nontrivial(1);
            }
            let plain: Result<Out, String> = guarded(|| {
                p.decoders[0].0.parse(&p, &Scope::Empty, ReadCtxt::new(i)).ok().map(|r| {
                    let soft = r.iter_errs().count() > 0;
                    let (v, rest) = r.into_inner();
                    (from_value(&v), rest.offset, soft)
                })
            });
            let loc: Result<Out, String> = guarded(|| {
                p.decoders[0].0.parse_with_loc(&p, &LocScope::Empty, ReadCtxt::new(i)).ok().map(|r| {
                    let soft = r.iter_errs().count() > 0;
                    let (v, rest) = r.into_inner();
                    (from_value(&v.clone_into_value()), rest.offset, soft)
                })
            });
            for (who, got) in [("interpreter", plain), ("located interpreter", loc)] {
                match got {
                    Ok(g) if same_out(&g, &w) => {}
                    g => self.bad(name, who, format!("input {i:02x?}\nexpected {w:?}\ngot      {g:?}")),
                }
            }
        }
        self.ctx.end(0);
    }
    fn fmt(&self, name: &str, mk: impl FnOnce() -> Format, want: impl Fn(&[u8]) -> Out) {
        self.fmt_on(name, mk, &self.ins, want)
    }

    /// a closed expression: `None` when it must have no value
    fn ex(&self, name: &str, mk: impl FnOnce() -> Expr, want: Option<RV>) {
        if self.ctx.too_many() {
            return;
        }
        self.seen(name);
        self.exprs.set(self.exprs.get() + 1);
        self.ctx.add_states(1);
        self.ctx.begin(0, || name.to_string());
        let e = match guarded(mk) {
            Ok(e) => e,
            Err(x) => {
                self.bad(name, "constructor panicked", x);
                self.ctx.end(0);
                return;
            }
        };
        let got = guarded(|| from_value(&e.eval_value(&Scope::Empty)));
        let good = match (&got, &want) {
            (Ok(g), Some(w)) => same(g, w),
            (Err(_), None) => true,
            _ => false,
        };
        if !good {
            self.bad(name, "value", format!("expression {e:?}\nexpected {want:?}\ngot      {got:?}"));
        } else if want.is_some() {
            self.ctx.add_nontrivial(1);
        }
        self.ctx.end(0);
    }
}

fn take(i: &[u8], n: usize) -> Option<&[u8]> {
    i.get(..n)
}

/// every constant array length up to eight
macro_rules! with_array {
    ($v:expr, $a:ident => $e:expr) => {{
        let v = $v;
        match v.len() {
            1 => { let Ok($a) = <[_; 1]>::try_from(v) else { unreachable!() }; $e }
            2 => { let Ok($a) = <[_; 2]>::try_from(v) else { unreachable!() }; $e }
            3 => { let Ok($a) = <[_; 3]>::try_from(v) else { unreachable!() }; $e }
            4 => { let Ok($a) = <[_; 4]>::try_from(v) else { unreachable!() }; $e }
            5 => { let Ok($a) = <[_; 5]>::try_from(v) else { unreachable!() }; $e }
            6 => { let Ok($a) = <[_; 6]>::try_from(v) else { unreachable!() }; $e }
            7 => { let Ok($a) = <[_; 7]>::try_from(v) else { unreachable!() }; $e }
            8 => { let Ok($a) = <[_; 8]>::try_from(v) else { unreachable!() }; $e }
            n => panic!("array of {n}"),
        }
    }};
}

const FIELD: [&str; 8] = ["a", "b", "c", "d", "e", "f", "g", "i"];

#[derive(Clone, Copy, PartialEq)]
enum K {
    Flag,
    Bits,
    Skip,
    Zero,
}

fn compositions(n: u8, parts: usize) -> Vec<Vec<u8>> {
    if n == 0 {
        return vec![vec![]];
    }
    if parts == 0 {
        return vec![];
    }
    let mut out = vec![];
    for first in 1..=n {
        for mut rest in compositions(n - first, parts - 1) {
            rest.insert(0, first);
            out.push(rest);
        }
    }
    out
}

fn kinds(widths: &[u8], all: bool) -> Vec<Vec<K>> {
    let opts = |w: u8| if w == 1 { vec![K::Bits, K::Flag, K::Skip, K::Zero] } else { vec![K::Bits, K::Skip, K::Zero] };
    if all {
        let mut out = vec![vec![]];
        for w in widths {
            out = out.iter().flat_map(|p: &Vec<K>| opts(*w).into_iter().map(move |k| [p.clone(), vec![k]].concat())).collect();
        }
        return out;
    }
    // one deviation at a time from "all fields", plus one at a time from "all must be zero"
    let mut out = vec![];
    for base in [K::Bits, K::Zero] {
        out.push(vec![base; widths.len()]);
        for i in 0..widths.len() {
            for k in opts(widths[i]) {
                if k != base {
                    let mut v = vec![base; widths.len()];
                    v[i] = k;
                    out.push(v);
                }
            }
        }
    }
    out
}

fn kind_list(widths: &[u8], ks: &[K]) -> Vec<BitFieldKind> {
    widths
        .iter()
        .zip(ks)
        .enumerate()
        .map(|(i, (w, k))| match k {
            K::Flag => BitFieldKind::FlagBit(FIELD[i]),
            K::Bits => BitFieldKind::BitsField { field_name: FIELD[i], bit_width: *w },
            K::Skip => BitFieldKind::Reserved { bit_width: *w, check_zero: false },
            K::Zero => BitFieldKind::Reserved { bit_width: *w, check_zero: true },
        })
        .collect()
}

/// reads the fields from the most significant bit down
fn unpack(total: u32, width: u8, widths: &[u8], ks: &[K], v: u64) -> (RV, bool) {
    let mut left = total;
    let mut fs = vec![];
    let mut soft = false;
    for (i, (w, k)) in widths.iter().zip(ks).enumerate() {
        left -= *w as u32;
        let x = (v / (1u64 << left)) % (1u64 << *w);
        match k {
            K::Flag => fs.push((FIELD[i], RV::Bool(x == 1))),
            K::Bits => fs.push((FIELD[i], RV::Int(width, x as i128))),
            K::Skip => {}
            K::Zero => soft |= x != 0,
        }
    }
    (if fs.is_empty() { unit() } else { rec(fs) }, soft)
}

fn bit_fields(c: &Cx, thorough: bool) {
    let every: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).chain([vec![]]).collect();
    for w in compositions(8, 8) {
        for ks in kinds(&w, w.len() <= if thorough { 6 } else { 4 }) {
            let name = "bit_fields_u8";
            c.fmt_on(
                name,
                || with_array!(kind_list(&w, &ks), a => h::bit_fields_u8(a)),
                &every,
                |i| i.first().map(|b| unpack(8, 8, &w, &ks, *b as u64)).map(|(v, s)| (v, 1, s)),
            );
        }
    }
    c.fmt_on("u4_pair", || h::u4_pair("hi", "lo"), &every, |i| ok(rec(vec![("hi", i8b(*i.first()? >> 4)), ("lo", i8b(i[0] & 15))]), 1));
    let mut wide: Vec<u16> = vec![0, 0xffff, 0x1234, 0xa5c3, 0x00ff, 0xff00];
    for s in 0..16 {
        wide.push(1 << s);
        wide.push(!(1 << s));
    }
    let wide: Vec<Vec<u8>> = wide.iter().map(|x| x.to_be_bytes().to_vec()).chain([vec![], vec![1]]).collect();
    for w in compositions(16, if thorough { 5 } else { 4 }) {
        for ks in kinds(&w, w.len() <= if thorough { 3 } else { 2 }) {
            c.fmt_on(
                "bit_fields_u16",
                || with_array!(kind_list(&w, &ks), a => h::bit_fields_u16(a)),
                &wide,
                |i| {
                    let b = take(i, 2)?;
                    let (v, s) = unpack(16, 16, &w, &ks, u16::from_be_bytes([b[0], b[1]]) as u64);
                    Some((v, 2, s))
                },
            );
        }
    }
}

fn byte_formats(c: &Cx) {
    let every: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).chain([vec![]]).collect();
    let one = |name: &str, f: Format, p: &dyn Fn(u8) -> bool| {
        c.fmt_on(name, || f, &every, |i| i.first().filter(|b| p(**b)).and_then(|b| ok(i8b(*b), 1)));
    };
    for b in 0..=255u8 {
        one("is_byte", h::is_byte(b), &|x| x == b);
        one("not_byte", h::not_byte(b), &|x| x != b);
        one("byte_in", h::byte_in(b.saturating_sub(3)..=b), &|x| x <= b && x >= b.saturating_sub(3));
        one("byte_in", h::byte_in([b, 0, 64]), &|x| x == b || x == 0 || x == 64);
    }
    one("u8", h::u8(), &|_| true);
    one("ANY_BYTE", h::ANY_BYTE, &|_| true);
    one("ascii_char", h::ascii_char(), &|_| true);
    one("ascii_alpha", h::ascii_alpha(), &|x| x.is_ascii_alphabetic());
    one("ascii_octal_digit", h::ascii_octal_digit(), &|x| (b'0'..=b'7').contains(&x));
    one("ascii_decimal_digit", h::ascii_decimal_digit(), &|x| x.is_ascii_digit());
    one("ascii_hex_lower", h::ascii_hex_lower(), &|x| x.is_ascii_digit() || (b'a'..=b'f').contains(&x));
    one("ascii_hex_upper", h::ascii_hex_upper(), &|x| x.is_ascii_digit() || (b'A'..=b'F').contains(&x));
    one("ascii_hex_any", h::ascii_hex_any(), &|x| x.is_ascii_hexdigit());
    one("VALID_ASCII", Format::Byte(h::VALID_ASCII), &|x| x < 128);
    one("ASCII_CHAR_STRICT", Format::Byte(h::ascii::ASCII_CHAR_STRICT), &|x| (32..128).contains(&x) || x == 9 || x == 10 || x == 13);

    for n in 0..4usize {
        for b in [0u8, 1, 255] {
            c.fmt("repeat_byte", || h::repeat_byte(n as u32, b), |i| take(i, n).filter(|x| x.iter().all(|y| *y == b)).and_then(|x| ok(bytes(x), n)));
        }
        c.fmt("seq_repeat", || h::seq_repeat(n, h::not_byte(2)), |i| {
            // a sequence of no parts has no element type of its own but still decodes to nothing
            take(i, n).filter(|x| x.iter().all(|y| *y != 2)).and_then(|x| ok(bytes(x), n))
        });
        c.fmt("tuple_repeat", || h::tuple_repeat(n, h::not_byte(2)), |i| {
            take(i, n).filter(|x| x.iter().all(|y| *y != 2)).and_then(|x| ok(RV::Tup(x.iter().map(|b| i8b(*b)).collect()), n))
        });
        c.fmt("fixed_len_string", || h::fixed_len_string(h::byte_in([0u8, 1]), n as u32), |i| {
            take(i, n).filter(|x| x.iter().all(|y| *y < 2)).and_then(|x| ok(bytes(x), n))
        });
    }
    for s in c.ins.iter().filter(|s| (1..=3).contains(&s.len())) {
        let near: Vec<Vec<u8>> = c.ins.iter().filter(|i| i.len() <= s.len() + 1).cloned().collect();
        c.fmt_on("is_bytes", || h::is_bytes(s), &near, |i| if i.starts_with(s) { ok(RV::Tup(s.iter().map(|b| i8b(*b)).collect()), s.len()) } else { None });
        c.fmt_on("byte_seq", || h::byte_seq(s), &near, |i| if i.starts_with(s) { ok(bytes(s), s.len()) } else { None });
        let mut m = vec![];
        for t in near.iter().filter(|t| !t.is_empty()) {
            m.push((t.clone(), t == s));
        }
        for (t, w) in m {
            c.ex("pattern_bytestring", || h::expr_match(seq_e(&t), [(h::pattern_bytestring(s), Expr::Bool(true)), (Pattern::Wildcard, Expr::Bool(false))]), Some(RV::Bool(w)));
        }
    }
    c.fmt("asciiz_string", || h::asciiz_string(), |i| i.iter().position(|b| *b == 0).and_then(|n| ok(bytes(&i[..n]), n + 1)));
    c.fmt("string_of", || h::string_of(h::not_byte(2)), |i| {
        let n = i.iter().position(|b| *b == 2).unwrap_or(i.len());
        ok(bytes(&i[..n]), n)
    });
    c.fmt("opaque_bytes", || h::opaque_bytes(), |i| ok(bytes(i), i.len()));
    c.fmt("mk_ascii_string", || h::mk_ascii_string(h::repeat1(h::not_byte(2))), |i| {
        let n = i.iter().position(|b| *b == 2).unwrap_or(i.len());
        if n == 0 { None } else { ok(bytes(&i[..n]), n) }
    });
}

fn fixed_width(c: &Cx) {
    let strings = |n: usize| -> Vec<Vec<u8>> {
        let mut out = crate::gen_::inputs(if n <= 2 { &[0, 1, 0x7f, 0x80, 0xff] } else if n <= 4 { &[0, 0x7f, 0x80, 0xff] } else { &[0, 0x80, 0xff] }, n);
        out.retain(|x| x.len() + 1 >= n);
        out.push((1..=n as u8 + 1).collect());
        out
    };
    let be = |b: &[u8]| b.iter().fold(0u64, |a, x| a << 8 | *x as u64);
    let le = |b: &[u8]| b.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
    let list: [(&str, fn() -> Format, usize, bool); 6] = [
        ("u16be", h::u16be, 2, true),
        ("u16le", h::u16le, 2, false),
        ("u32be", h::u32be, 4, true),
        ("u32le", h::u32le, 4, false),
        ("u64be", h::u64be, 8, true),
        ("u64le", h::u64le, 8, false),
    ];
    for (name, f, n, big) in list {
        c.fmt_on(name, f, &strings(n), |i| take(i, n).and_then(|b| ok(RV::Int(8 * n as u8, if big { be(b) } else { le(b) } as i128), n)));
    }
    let signed: [(&str, fn() -> Format, usize); 4] = [("i8", h::i8, 1), ("i16be", h::i16be, 2), ("i32be", h::i32be, 4), ("i64be", h::i64be, 8)];
    for (name, f, n) in signed {
        c.fmt_on(name, f, &strings(n), |i| {
            let b = take(i, n)?;
            let u = be(b) as i128;
            let top = 1i128 << (8 * n - 1);
            ok(int(if u >= top { u - 2 * top } else { u }), n)
        });
    }
    c.fmt("mk_numeric", || h::mk_numeric(h::u16be()), |i| take(i, 2).and_then(|b| ok(int(be(b) as i128), 2)));
    c.fmt("map_numeric", || h::map_numeric(h::u8(), |x| num::cast(MachineRep::U32, x)), |i| take(i, 1).and_then(|b| ok(int(b[0] as i128), 1)));
    for n in [0u8, 7, 255] {
        c.fmt("compute_numeric", || h::compute_numeric(num::cast(MachineRep::U16, num::lift_const(n))), |_| ok(int(n as i128), 0));
        c.ex("poly_const", || h::poly_const::<u8>(n), Some(int(n as i128)));
    }
    c.ex("poly_zero", h::poly_zero, Some(int(0)));
    // bits, most significant last: a byte of bits read one at a time from the least significant end
    c.fmt_on("bit", || Format::Bits(Box::new(h::tuple_repeat(8, h::bit()))), &(0..=255u8).map(|b| vec![b]).collect::<Vec<_>>(), |i| {
        ok(RV::Tup((0..8).map(|s| i8b(i[0] >> s & 1)).collect()), 1)
    });
}

fn conditions(c: &Cx) {
    let every: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).chain([vec![]]).collect();
    let ends: [u64; 9] = [0, 1, 2, 3, 127, 128, 200, 254, 255];
    let judge = |strict: bool, w: usize, p: &dyn Fn(u64) -> bool, i: &[u8]| -> Out {
        let b = take(i, w)?;
        let n = b.iter().fold(0u64, |a, x| a << 8 | *x as u64);
        match (p(n), strict) {
            (true, _) => ok(RV::Int(8 * w as u8, n as i128), w),
            (false, true) => None,
            (false, false) => Some((RV::Int(8 * w as u8, n as i128), w, true)),
        }
    };
    for lo in ends {
        for hi in ends.into_iter().filter(|x| *x >= lo) {
            let inside = move |n: u64| n >= lo && n <= hi;
            c.fmt_on("where_between_u8", || h::where_between_u8(h::u8(), lo as u8, hi as u8), &every, |i| judge(true, 1, &inside, i));
            c.fmt_on("expect_between_u8", || h::expect_between_u8(h::u8(), lo as u8, hi as u8), &every, |i| judge(false, 1, &inside, i));
            c.fmt_on("where_within", || h::where_within(h::u8(), lo as u8..=hi as u8), &every, |i| judge(true, 1, &inside, i));
            c.fmt_on("expect_within", || h::expect_within(h::u8(), lo as u8..=hi as u8), &every, |i| judge(false, 1, &inside, i));
            // two ranges, one value and one half-open range
            c.fmt_on("where_within_any", || h::where_within_any(h::u8(), [Bounds::from(lo as u8), Bounds::from(hi as u8..)]), &every, |i| {
                judge(true, 1, &|n| n == lo || n >= hi, i)
            });
            for n in ends {
                c.ex("is_within", || h::is_within(Expr::U8(n as u8), Bounds::new(lo as usize, hi as usize)), Some(RV::Bool(inside(n))));
                c.ex("is_within_any", || h::is_within_any(Expr::U8(n as u8), [lo as u8..=lo as u8, hi as u8..=hi as u8]), Some(RV::Bool(n == lo || n == hi)));
            }
        }
        c.fmt_on("where_within", || h::where_within(h::u8(), lo as u8..), &every, |i| judge(true, 1, &|n| n >= lo, i));
        c.fmt_on("where_within", || h::where_within(h::u8(), lo as u8), &every, |i| judge(true, 1, &|n| n == lo, i));
        c.fmt_on("expect_eq", || h::expect_eq(h::u8(), Expr::U8(lo as u8)), &every, |i| judge(true, 1, &|n| n == lo, i));
        c.ex("is_within_any", || h::is_within_any(Expr::U8(lo as u8), Vec::<u8>::new()), Some(RV::Bool(false)));
        c.fmt_on("where_lambda", || h::where_lambda(h::u8(), "y", h::expr_lt(h::var("y"), Expr::U8(lo as u8))), &every, |i| judge(true, 1, &|n| n < lo, i));
        c.fmt_on("expect_lambda", || h::expect_lambda(h::u8(), "y", h::expr_lt(h::var("y"), Expr::U8(lo as u8))), &every, |i| judge(false, 1, &|n| n < lo, i));
    }
    let b16: [u64; 8] = [0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff];
    let b32: [u64; 8] = [0, 1, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
    let i16: Vec<Vec<u8>> = b16.iter().map(|n| (*n as u16).to_be_bytes().to_vec()).collect();
    let i32: Vec<Vec<u8>> = b32.iter().map(|n| (*n as u32).to_be_bytes().to_vec()).collect();
    for a in 0..8 {
        for b in a..8 {
            let (lo, hi) = (b16[a], b16[b]);
            let p = move |n: u64| n >= lo && n <= hi;
            c.fmt_on("where_between_u16", || h::where_between_u16(h::u16be(), lo as u16, hi as u16), &i16, |i| judge(true, 2, &p, i));
            c.fmt_on("expect_between_u16", || h::expect_between_u16(h::u16be(), lo as u16, hi as u16), &i16, |i| judge(false, 2, &p, i));
            let (lo, hi) = (b32[a], b32[b]);
            let p = move |n: u64| n >= lo && n <= hi;
            c.fmt_on("where_between_u32", || h::where_between_u32(h::u32be(), lo as u32, hi as u32), &i32, |i| judge(true, 4, &p, i));
            c.fmt_on("expect_between_u32", || h::expect_between_u32(h::u32be(), lo as u32, hi as u32), &i32, |i| judge(false, 4, &p, i));
            c.fmt_on("where_within", || h::where_within(h::u32be(), lo as u32..=hi as u32), &i32, |i| judge(true, 4, &p, i));
        }
    }
    let nz = |n: u64| n != 0;
    c.fmt_on("where_nonzero", || h::where_nonzero::<h::U8>(h::u8()), &every, |i| judge(true, 1, &nz, i));
    c.fmt_on("expect_nonzero", || h::expect_nonzero::<h::U8>(h::u8()), &every, |i| judge(false, 1, &nz, i));
    c.fmt_on("where_nonzero", || h::where_nonzero::<h::U16>(h::u16be()), &i16, |i| judge(true, 2, &nz, i));
    c.fmt_on("expect_nonzero", || h::expect_nonzero::<h::U16>(h::u16be()), &i16, |i| judge(false, 2, &nz, i));
    c.fmt_on("where_nonzero", || h::where_nonzero::<h::U32>(h::u32be()), &i32, |i| judge(true, 4, &nz, i));
    for n in [0u64, 1, 255, 256, 65535, 65536, u32::MAX as u64] {
        let w = Some(RV::Bool(n != 0));
        if n < 256 {
            c.ex("is_nonzero_u8", || h::is_nonzero_u8(Expr::U8(n as u8)), w.clone());
            c.ex("is_nonzero", || h::is_nonzero::<h::U8>(Expr::U8(n as u8)), w.clone());
        }
        if n < 65536 {
            c.ex("is_nonzero_u16", || h::is_nonzero_u16(Expr::U16(n as u16)), w.clone());
            c.ex("is_nonzero", || h::is_nonzero::<h::U16>(Expr::U16(n as u16)), w.clone());
        }
        c.ex("is_nonzero_u32", || h::is_nonzero_u32(Expr::U32(n as u32)), w.clone());
        c.ex("is_nonzero", || h::is_nonzero::<h::U32>(Expr::U32(n as u32)), w.clone());
        c.ex("is_nonzero", || h::is_nonzero::<h::U64>(Expr::U64(n << 20)), w.clone());
    }
}

/// what becomes of the bytes of a record whose fields are single bytes
fn records(c: &Cx) {
    // kind of each field, by label
    let lab = |k: usize, i: usize| -> String {
        match k {
            0 => FIELD[i].to_string(),
            1 => format!("_{}", FIELD[i]),
            2 => format!("__{}", FIELD[i]),
            3 => format!("#_{}", FIELD[i]),
            _ => format!("#__{}", FIELD[i]),
        }
    };
    let kept = |k: usize, i: usize| -> Option<String> {
        match k {
            0 => Some(FIELD[i].to_string()),
            3 => Some(format!("_{}", FIELD[i])),
            4 => Some(format!("__{}", FIELD[i])),
            _ => None,
        }
    };
    let value = |ks: &[usize], vs: &[RV]| -> RV {
        let fs: Vec<(String, RV)> = ks.iter().enumerate().filter_map(|(i, k)| kept(*k, i).map(|l| (l, vs[i].clone()))).collect();
        if fs.is_empty() { unit() } else { RV::Rec(fs) }
    };
    // fields are told apart by what they accept: the i-th accepts the i-th byte and everything smaller
    let part = |i: usize| h::byte_in(0u8..=[255u8, 1, 255, 0, 255][i]);
    let fits = |n: usize, b: &[u8]| (0..n).all(|i| b[i] <= [255u8, 1, 255, 0, 255][i]);
    for n in 0..=4usize {
        for code in 0..5usize.pow(n as u32) {
            let ks: Vec<usize> = (0..n).map(|i| code / 5usize.pow(i as u32) % 5).collect();
            let near: Vec<Vec<u8>> = c.ins.iter().filter(|i| i.len() <= n && i.len() + 1 >= n).cloned().collect();
            let want = |b: &[u8]| take(b, n).filter(|b| fits(n, b)).and_then(|b| ok(value(&ks, &b.iter().map(|x| i8b(*x)).collect::<Vec<_>>()), n));
            c.fmt_on("record_auto", || h::record_auto((0..n).map(|i| (lab(ks[i], i), part(i)))), &near, want);
            c.fmt_on(
                "record_ext",
                || {
                    h::record_ext((0..n).map(|i| {
                        let l: Option<(Label, bool)> = match ks[i] {
                            0 | 3 | 4 => Some((kept(ks[i], i).unwrap().into(), true)),
                            1 => Some((FIELD[i].to_string().into(), false)),
                            _ => None,
                        };
                        (l, part(i))
                    }))
                },
                &near,
                want,
            );
            // the preliminary fields feed a computed value
            let last = (0..n).rev().find(|i| ks[*i] != 2);
            c.fmt_on(
                "pseudo_record",
                || {
                    let body = match last {
                        Some(i) => h::compute(h::var(match ks[i] {
                            1 => lab(1, i),
                            k => kept(k, i).unwrap(),
                        })),
                        None => h::compute(Expr::U8(9)),
                    };
                    h::pseudo_record((0..n).map(|i| (lab(ks[i], i), part(i))), body)
                },
                &near,
                |b| take(b, n).filter(|b| fits(n, b)).and_then(|b| ok(i8b(last.map(|i| b[i]).unwrap_or(9)), n)),
            );
        }
        if n > 0 {
            let names: Vec<&'static str> = FIELD[..n].to_vec();
            c.fmt("record", || h::record((0..n).map(|i| (FIELD[i], part(i)))), |b| {
                take(b, n).filter(|b| fits(n, b)).and_then(|b| ok(rec((0..n).map(|i| (FIELD[i], i8b(b[i]))).collect()), n))
            });
            c.fmt("record_repeat", || with_array!(names.clone(), a => h::record_repeat(a, h::not_byte(2))), |b| {
                take(b, n).filter(|b| b.iter().all(|x| *x != 2)).and_then(|b| ok(rec((0..n).map(|i| (FIELD[i], i8b(b[i]))).collect()), n))
            });
        }
    }
    // a kept or temporary field governs a later one
    for name in ["a", "_a", "#_a"] {
        let v: &'static str = if name == "a" { "a" } else { "_a" };
        c.fmt("record_auto", || h::record_auto([(name, h::byte_in(0u8..=2)), ("__p", any()), ("b", h::repeat_count(h::var(v), any()))]), |i| {
            let n = *i.first().filter(|x| **x <= 2)? as usize;
            let b = take(i, 2 + n)?;
            let mut fs = vec![("b", bytes(&b[2..]))];
            if name != "_a" {
                fs.insert(0, (v, i8b(b[0])));
            }
            ok(rec(fs), 2 + n)
        });
    }
    // fusing: every pair of records of up to two fields (at least one kept), labels distinct across the two
    let shapes: Vec<Vec<usize>> = (0..3usize).map(|k| vec![k]).chain((0..9).map(|x| vec![x / 3, x % 3])).filter(|s| s.contains(&0)).collect();
    for s in &shapes {
        for t in &shapes {
            let n = s.len() + t.len();
            let ks: Vec<usize> = [s.clone(), t.clone()].concat();
            let near: Vec<Vec<u8>> = c.ins.iter().filter(|i| i.len() <= n && i.len() + 1 >= n).cloned().collect();
            c.fmt_on(
                "merge_records",
                || {
                    let one = |from: usize, to: usize| h::record_auto((from..to).map(|i| (lab(ks[i], i), part(i))).collect::<Vec<_>>());
                    h::merge_records([one(0, s.len()), one(s.len(), n)])
                },
                &near,
                |b| take(b, n).filter(|b| fits(n, b)).and_then(|b| ok(value(&ks, &b.iter().map(|x| i8b(*x)).collect::<Vec<_>>()), n)),
            );
        }
    }
    // a field of the first record governs a field of the second
    c.fmt("merge_records", || h::merge_records([h::record_auto([("_n", h::byte_in(0u8..=2)), ("a", any())]), h::record([("b", h::repeat_count(h::var("_n"), any()))])]), |i| {
        let n = *i.first().filter(|x| **x <= 2)? as usize;
        let b = take(i, 2 + n)?;
        ok(rec(vec![("a", i8b(b[1])), ("b", bytes(&b[2..]))]), 2 + n)
    });
    // remapping: each field in turn, and a name that is not there
    for n in 1..=3usize {
        for code in 0..3usize.pow(n as u32) {
            let ks: Vec<usize> = (0..n).map(|i| code / 3usize.pow(i as u32) % 3).collect();
            for j in 0..=n {
                if j < n && ks[j] == 2 {
                    continue;
                }
                let near: Vec<Vec<u8>> = c.ins.iter().filter(|i| i.len() <= n + 1 && i.len() + 1 >= n).cloned().collect();
                let target = if j < n { lab(ks[j], j) } else { "zz".to_string() };
                c.fmt_on(
                    "remap_field",
                    || h::remap_field(&target, |f| h::tuple([f, h::not_byte(2)]), h::record_auto((0..n).map(|i| (lab(ks[i], i), part(i))).collect::<Vec<_>>())),
                    &near,
                    |i| {
                        let mut at = 0;
                        let mut vs = vec![];
                        for f in 0..n {
                            let b = *i.get(at)?;
                            at += 1;
                            if b > [255u8, 1, 255][f] {
                                return None;
                            }
                            if f == j {
                                let d = *i.get(at).filter(|x| **x != 2)?;
                                at += 1;
                                vs.push(RV::Tup(vec![i8b(b), i8b(d)]));
                            } else {
                                vs.push(i8b(b));
                            }
                        }
                        ok(value(&ks, &vs), at)
                    },
                );
            }
        }
    }
}

fn control(c: &Cx) {
    let t = |b: bool| Expr::Bool(b);
    for b in [false, true] {
        c.fmt("cond_maybe", || h::cond_maybe(t(b), h::not_byte(2)), |i| match b {
            false => ok(none(), 0),
            true => i.first().filter(|x| **x != 2).and_then(|x| ok(some(i8b(*x)), 1)),
        });
        c.fmt("if_then_else", || h::if_then_else(t(b), h::is_byte(1), h::is_byte(2)), |i| i.first().filter(|x| **x == if b { 1 } else { 2 }).and_then(|x| ok(i8b(*x), 1)));
        c.fmt("if_then_else_variant", || h::if_then_else_variant(t(b), ("y", h::is_byte(1)), ("n", h::tuple([any(), any()]))), |i| match b {
            true => i.first().filter(|x| **x == 1).and_then(|x| ok(va("y", i8b(*x)), 1)),
            false => take(i, 2).and_then(|x| ok(va("n", RV::Tup(vec![i8b(x[0]), i8b(x[1])])), 2)),
        });
    }
    c.fmt("optional", || h::optional(h::is_byte(1)), |i| if i.first() == Some(&1) { ok(some(i8b(1)), 1) } else { ok(none(), 0) });
    c.fmt("void", || h::void(h::not_byte(2)), |i| i.first().filter(|x| **x != 2).and_then(|_| ok(unit(), 1)));
    for n in 0..4u8 {
        let excl = |f: Format| h::excluding(f, h::tuple([any(), any()]));
        c.fmt("excluding", || excl(h::is_byte(n)), |i| if i.first() == Some(&n) { None } else { take(i, 2).and_then(|b| ok(RV::Tup(vec![i8b(b[0]), i8b(b[1])]), 2)) });
        c.fmt("excluding", || excl(h::is_bytes(&[1, n])), |i| if i.starts_with(&[1, n]) { None } else { take(i, 2).and_then(|b| ok(RV::Tup(vec![i8b(b[0]), i8b(b[1])]), 2)) });
    }
    c.fmt("any_of", || h::any_of([h::is_bytes(&[1, 1]), h::is_byte(1), h::seq_repeat(3, h::is_byte(2))]), |i| {
        if i.starts_with(&[1, 1]) {
            ok(unit(), 2)
        } else if i.starts_with(&[1]) {
            ok(unit(), 1)
        } else if i.starts_with(&[2, 2, 2]) {
            ok(unit(), 3)
        } else {
            None
        }
    });
    let run = |p: &dyn Fn(u8) -> bool, i: &[u8]| i.iter().take_while(|b| p(**b)).count();
    c.fmt("repeat", || h::repeat(h::not_byte(2)), |i| {
        let n = run(&|b| b != 2, i);
        ok(bytes(&i[..n]), n)
    });
    c.fmt("repeat1", || h::repeat1(h::not_byte(2)), |i| {
        let n = run(&|b| b != 2, i);
        if n == 0 { None } else { ok(bytes(&i[..n]), n) }
    });
    for n in 0..4usize {
        c.fmt("repeat_count", || h::repeat_count(Expr::U8(n as u8), h::not_byte(2)), |i| take(i, n).filter(|b| b.iter().all(|x| *x != 2)).and_then(|b| ok(bytes(b), n)));
        for m in n..4usize {
            c.fmt("repeat_between", || h::repeat_between(Expr::U32(n as u32), Expr::U32(m as u32), h::is_byte(1)), |i| {
                let k = run(&|b| b == 1, i).min(m);
                if k < n { None } else { ok(bytes(&i[..k]), k) }
            });
        }
        c.fmt("repeat_until_last", || h::repeat_until_last(h::lambda("q", h::expr_gte(h::var("q"), Expr::U8(n as u8))), any()), |i| {
            let k = i.iter().position(|b| *b >= n as u8)? + 1;
            ok(bytes(&i[..k]), k)
        });
        c.fmt("repeat_until_seq", || h::repeat_until_seq(h::lambda("q", h::expr_gte(h::seq_length(h::var("q")), Expr::U32(n as u32))), any()), |i| {
            // the condition is first asked after an element was read
            let n = n.max(1);
            take(i, n).and_then(|b| ok(bytes(b), n))
        });
        c.fmt("slice", || h::slice(Expr::U8(n as u8), h::repeat(any())), |i| take(i, n).and_then(|b| ok(bytes(b), n)));
        c.fmt("slice", || h::slice(Expr::U8(n as u8), h::is_byte(1)), |i| take(i, n).filter(|b| b.first() == Some(&1)).and_then(|_| ok(i8b(1), n)));
        // the running total of the bytes read so far
        c.fmt("accum_until", || {
            h::accum_until(
                h::lambda_tuple(["acc", "xs"], h::expr_gte(h::var("acc"), Expr::U16(n as u16))),
                h::lambda_tuple(["acc", "x"], h::add(h::var("acc"), h::as_u16(h::var("x")))),
                Expr::U16(0),
                ValueType::Base(BaseType::U16),
                any(),
            )
        }, |i| {
            let (mut acc, mut k) = (0i128, 0);
            while acc < n as i128 {
                acc += *i.get(k)? as i128;
                k += 1;
            }
            ok(RV::Tup(vec![int(acc), bytes(&i[..k])]), k)
        });
        c.fmt("capture_bytes_from_here", || h::capture_bytes_from_here(Expr::U8(n as u8)), |i| take(i, n).and_then(|b| ok(bytes(b), 0)));
        c.fmt("from_here", || h::tuple([any(), h::from_here(h::capture_bytes(Expr::U32(n as u32)))]), |i| {
            let b = take(i, n + 1)?;
            ok(RV::Tup(vec![i8b(b[0]), bytes(&b[1..])]), 1)
        });
        c.fmt("read_array", || h::tuple([any(), h::from_here(h::read_array(Expr::U32(n as u32 / 2), BaseKind::U16BE))]), |i| {
            let b = take(i, 1 + n / 2 * 2)?;
            ok(RV::Tup(vec![i8b(b[0]), RV::Seq(b[1..].chunks(2).map(|x| int(x[0] as i128 * 256 + x[1] as i128)).collect())]), 1)
        });
        c.fmt("parse_from_view", || h::chain(any(), "k", h::let_view("v", h::chain(any(), "m", h::parse_from_view(h::vvar("v"), h::repeat_count(Expr::U8(n as u8), any()))))), |i| {
            let b = take(i, (1 + n).max(2))?;
            ok(bytes(&b[1..1 + n]), 2)
        });
        // n elements, each governing one read
        for xs in c.ins.iter().filter(|x| x.len() == n && x.iter().all(|b| *b < 3)) {
            let near: Vec<Vec<u8>> = c.ins.iter().filter(|i| i.len() <= 4 && i.len() + 1 >= n).cloned().collect();
            c.fmt_on("for_each", || h::for_each(seq_e(xs), "e", h::expect_eq(any(), h::var("e"))), &near, |i| if i.starts_with(xs) { ok(bytes(xs), xs.len()) } else { None });
            c.fmt_on("decode_bytes", || h::decode_bytes(seq_e(xs), h::repeat(h::not_byte(2))), &[vec![], vec![1]], |_| {
                // what is left undecoded is noted as a soft error
                let k = run(&|b| b != 2, xs);
                Some((bytes(&xs[..k]), 0, k < xs.len()))
            });
        }
    }
    c.fmt("match_variant", || {
        h::chain(any(), "t", h::match_variant(h::var("t"), [(Pattern::U8(0), "z", Format::EMPTY), (Pattern::U8(1), "o", h::is_byte(2)), (Pattern::Wildcard, "w", h::tuple([any(), any()]))]))
    }, |i| match i.first()? {
        0 => ok(va("z", unit()), 1),
        1 => i.get(1).filter(|x| **x == 2).and_then(|_| ok(va("o", i8b(2)), 2)),
        _ => take(i, 3).and_then(|b| ok(va("w", RV::Tup(vec![i8b(b[1]), i8b(b[2])])), 3)),
    });
    c.fmt("fmt_match", || h::chain(any(), "t", h::fmt_match(h::var("t"), [(Pattern::U8(1), h::is_byte(1)), (h::bind("o"), h::compute(h::var("o")))])), |i| match i.first()? {
        1 => i.get(1).filter(|x| **x == 1).and_then(|_| ok(i8b(1), 2)),
        o => ok(i8b(*o), 1),
    });
    c.fmt("alts", || h::alts([("p", h::is_byte(1)), ("q", h::byte_in([0u8, 2]))]), |i| match i.first()? {
        1 => ok(va("p", i8b(1)), 1),
        b @ (0 | 2) => ok(va("q", i8b(*b)), 1),
        _ => None,
    });
    c.fmt("alts_nondet", || h::alts_nondet([("p", h::tuple([h::is_byte(1), h::is_byte(1)])), ("q", h::tuple([h::is_byte(1), any()])), ("r", h::tuple([any(), any()]))]), |i| {
        let b = take(i, 2)?;
        let l = if b == [1, 1] { "p" } else if b[0] == 1 { "q" } else { "r" };
        ok(va(l, RV::Tup(vec![i8b(b[0]), i8b(b[1])])), 2)
    });
    c.fmt("union", || h::union([h::is_byte(1), h::map(h::is_byte(2), h::lambda("v", h::succ(h::var("v"))))]), |i| match i.first()? {
        1 => ok(i8b(1), 1),
        2 => ok(i8b(3), 1),
        _ => None,
    });
    c.fmt("union_nondet", || h::union_nondet::<Label>([h::map(h::is_bytes(&[1, 2]), h::lambda("v", h::tuple_proj(h::var("v"), 1))), any()]), |i| {
        if i.starts_with(&[1, 2]) { ok(i8b(2), 2) } else { i.first().and_then(|b| ok(i8b(*b), 1)) }
    });
    c.fmt("fmt_variant", || h::fmt_variant("V", any()), |i| i.first().and_then(|b| ok(va("V", i8b(*b)), 1)));
    c.fmt("fmt_some", || h::fmt_some(any()), |i| i.first().and_then(|b| ok(some(i8b(*b)), 1)));
    c.fmt("fmt_none", || h::tuple([h::fmt_none(), h::fmt_some(any())].map(|f| h::void(f))), |i| i.first().and_then(|_| ok(RV::Tup(vec![unit(), unit()]), 1)));
    c.fmt("chain", || h::chain(any(), "p", h::chain(any(), "q", h::compute(h::pair(h::var("q"), h::var("p"))))), |i| take(i, 2).and_then(|b| ok(RV::Tup(vec![i8b(b[1]), i8b(b[0])]), 2)));
    c.fmt("monad_seq", || h::monad_seq(h::is_byte(1), h::not_byte(2)), |i| take(i, 2).filter(|b| b[0] == 1 && b[1] != 2).and_then(|b| ok(i8b(b[1]), 2)));
    c.fmt("fmt_let", || h::fmt_let("p", Expr::U8(2), h::repeat_count(h::var("p"), any())), |i| take(i, 2).and_then(|b| ok(bytes(b), 2)));
    c.fmt("with_tuple", || h::with_tuple(Expr::Tuple(vec![Expr::U8(1), Expr::U8(2), Expr::U8(3)]), ["p", "q", "r"], h::tuple([any(), h::compute(h::var("q")), h::compute(h::var("p")), h::compute(h::var("r"))])), |i| {
        i.first().and_then(|b| ok(RV::Tup(vec![i8b(*b), i8b(2), i8b(1), i8b(3)]), 1))
    });
    c.fmt("seq", || h::seq([h::is_byte(1), any()]), |i| take(i, 2).filter(|b| b[0] == 1).and_then(|b| ok(bytes(b), 2)));
    c.fmt("hint", || h::hint(StyleHint::AsciiChar, any()), |i| i.first().and_then(|b| ok(i8b(*b), 1)));
    c.fmt("phantom", || h::tuple([h::phantom(h::is_byte(1)), any()]), |i| i.first().and_then(|b| ok(RV::Tup(vec![RV::Phantom, i8b(*b)]), 1)));
    c.fmt("permit", || h::permit(h::is_byte(1), Expr::U8(7)), |i| if i.first() == Some(&1) { ok(i8b(1), 1) } else { Some((i8b(7), 0, true)) });
    for k in 0..4usize {
        c.fmt("pos32", || h::monad_seq(h::repeat_count(Expr::U8(k as u8), any()), h::pos32()), |i| take(i, k).and_then(|_| ok(int(k as i128), k)));
    }
    for a in [1usize, 2, 3, 4, 8] {
        for k in 0..5usize {
            let up = k.div_ceil(a) * a;
            let long: Vec<Vec<u8>> = (0..=10u8).map(|n| (1..=n).collect()).collect();
            let lead = |f: Format| h::monad_seq(h::repeat_count(Expr::U8(k as u8), any()), f);
            c.fmt_on("align_then", || lead(h::align_then(a, any())), &long, |i| take(i, up + 1).and_then(|b| ok(i8b(b[up]), up + 1)));
            c.fmt_on("then_align", || h::then_align(h::repeat_count(Expr::U8(k as u8), any()), a), &long, |i| take(i, up).and_then(|b| ok(bytes(&b[..k]), up)));
            match a {
                1 => c.fmt_on("align_to_size", || lead(h::align_to_size::<u8>()), &long, |i| take(i, up).and_then(|_| ok(unit(), up))),
                2 => c.fmt_on("align_to_size", || lead(h::align_to_size::<u16>()), &long, |i| take(i, up).and_then(|_| ok(unit(), up))),
                4 => c.fmt_on("align_to_size", || lead(h::align_to_size::<u32>()), &long, |i| take(i, up).and_then(|_| ok(unit(), up))),
                8 => c.fmt_on("align_to_size", || lead(h::align_to_size::<u64>()), &long, |i| take(i, up).and_then(|_| ok(unit(), up))),
                _ => {}
            }
            for off in 0..4usize {
                c.fmt_on("with_relative_offset", || lead(h::with_relative_offset(None, Expr::U32(off as u32), any())), &long, |i| {
                    take(i, k + off + 1).and_then(|b| ok(i8b(b[k + off]), k))
                });
                c.fmt_on("with_relative_offset", || lead(h::with_relative_offset(Some(Expr::U32(a as u32 - 1)), Expr::U32(off as u32), any())), &long, |i| {
                    take(i, k)?;
                    take(i, a + off).and_then(|b| ok(i8b(b[a - 1 + off]), k))
                });
            }
        }
    }
    for o in [None, Some(0u8), Some(1), Some(2)] {
        let typed = || h::expr_if_else(Expr::Bool(o.is_some()), h::expr_some(Expr::U8(o.unwrap_or(0))), h::expr_none());
        c.fmt("map_option", || h::map_option(typed(), "p", |p| h::repeat_count(p, any())), |i| match o {
            None => ok(none(), 0),
            Some(n) => take(i, n as usize).and_then(|b| ok(some(bytes(b)), n as usize)),
        });
        c.fmt("bind_option", || h::bind_option(typed(), "p", |p| h::cond_maybe(h::expr_gt(p, Expr::U8(0)), any())), |i| match o {
            None | Some(0) => ok(none(), 0),
            _ => i.first().and_then(|b| ok(some(i8b(*b)), 1)),
        });
    }
}

/// named formats with value and view parameters
fn modules(c: &Cx) {
    let u8v = || ValueType::Base(BaseType::U8);
    let two = |p: u8, q: u8| RV::Tup(vec![i8b(p), i8b(q)]);
    for (a, b) in [(0u8, 1u8), (1, 0), (1, 2), (2, 1)] {
        // arguments are bound in order
        c.fmt_mod("call_args", |m| {
            let f = m.define_format_args("f", vec![("p".into(), u8v()), ("q".into(), u8v())], h::tuple([h::repeat_count(h::var("p"), any()), h::repeat_count(h::var("q"), any())]));
            let g = m.define_format("other", h::is_byte(9));
            assert!(g.get_level() != f.get_level());
            f.call_args(vec![Expr::U8(a), Expr::U8(b)])
        }, &c.ins, |i| {
            let x = take(i, (a + b) as usize)?;
            ok(RV::Tup(vec![bytes(&x[..a as usize]), bytes(&x[a as usize..])]), x.len())
        });
        // the caller's variables are not visible by the parameter's name
        c.fmt_mod("call_args", |m| {
            let f = m.define_format_args("f", vec![("p".into(), u8v())], h::compute(h::var("p")));
            h::chain(any(), "p", h::chain(any(), "r", h::tuple([f.call_args(vec![h::var("r")]), f.call_args(vec![h::var("p")])])))
        }, &c.ins, |i| take(i, 2).and_then(|x| ok(two(x[1], x[0]), 2)));
        c.fmt_mod("call_views", |m| {
            let f = m.define_format_views("f", vec!["v".into(), "w".into()], h::tuple([h::parse_from_view(h::vvar("v"), any()), h::parse_from_view(h::vvar("w"), any())]));
            let f = f.call_views(vec![h::vvar("x").offset(Expr::U8(a)), h::vvar("y").offset(Expr::U8(b))]);
            h::let_view("x", h::chain(any(), "k", h::let_view("y", f)))
        }, &c.ins, |i| {
            let x = take(i, 1 + (a.max(b + 1)) as usize)?;
            ok(two(x[a as usize], x[b as usize + 1]), 1)
        });
        c.fmt_mod("call_view", |m| {
            let f = m.define_format_views("f", vec!["v".into()], h::with_view(h::vvar("v"), h::capture_bytes(Expr::U8(a))));
            h::monad_seq(any(), h::let_view("x", f.call_view(h::vvar("x").offset(Expr::U8(b)))))
        }, &c.ins, |i| take(i, 1 + (a + b) as usize).and_then(|x| ok(bytes(&x[1 + b as usize..]), 1)));
        c.fmt_mod("call_args_views", |m| {
            let f = m.define_format_args_views("f", vec![("n".into(), u8v())], vec!["v".into()], h::with_view(h::vvar("v"), h::capture_bytes(h::var("n"))));
            h::let_view("x", f.call_args_views(vec![Expr::U8(b)], vec![h::vvar("x").offset(Expr::U8(a))]))
        }, &c.ins, |i| take(i, (a + b) as usize).and_then(|x| ok(bytes(&x[a as usize..]), 0)));
        c.fmt_mod("call", |m| {
            let f = m.define_format("f", h::is_byte(a));
            let g = m.define_format("g", h::tuple([f.call(), h::is_byte(b)]));
            g.call()
        }, &c.ins, |i| if i.starts_with(&[a, b]) { ok(two(a, b), 2) } else { None });
        c.ex("from_bytes", || h::expr_match(seq_e(&[a, b]), [(Pattern::from_bytes(&[1, 0]), Expr::U8(1)), (Pattern::Wildcard, Expr::U8(0))]), Some(i8b((a == 1 && b == 0) as u8)));
        c.ex("pattern_variant", || h::expr_match(h::variant("V", Expr::U8(a)), [(Pattern::variant("V", Pattern::U8(1)), Expr::U8(1)), (Pattern::variant("V", h::bind("o")), h::pair(h::var("o"), h::var("o")))].map(|(p, e)| (p, h::pair(e, Expr::U8(b))))),
            Some(RV::Tup(vec![if a == 1 { i8b(1) } else { two(a, a) }, i8b(b)])));
    }
    c.fmt("Format::alts", || Format::alts([("p", h::is_byte(1)), ("q", h::is_byte(2))]), |i| match i.first()? {
        1 => ok(va("p", i8b(1)), 1),
        2 => ok(va("q", i8b(2)), 1),
        _ => None,
    });
}

fn expressions(c: &Cx, thorough: bool) {
    let ns: [u8; 7] = [0, 1, 2, 7, 8, 254, 255];
    let u = Expr::U8;
    let fit = |n: i128| if (0..256).contains(&n) { Some(RV::Int(8, n)) } else { None };
    for a in ns {
        for b in ns {
            let (x, y) = (a as i128, b as i128);
            for (name, f, w) in [
                ("expr_eq", h::expr_eq as fn(Expr, Expr) -> Expr, a == b),
                ("expr_ne", h::expr_ne, a != b),
                ("expr_lt", h::expr_lt, a < b),
                ("expr_lte", h::expr_lte, a <= b),
                ("expr_gt", h::expr_gt, a > b),
                ("expr_gte", h::expr_gte, a >= b),
            ] {
                c.ex(name, || f(u(a), u(b)), Some(RV::Bool(w)));
            }
            for (name, f, w) in [
                ("add", h::add as fn(Expr, Expr) -> Expr, fit(x + y)),
                ("sub", h::sub, fit(x - y)),
                ("mul", h::mul, fit(x * y)),
                ("div", h::div, if b == 0 { None } else { fit(x / y) }),
                ("rem", h::rem, if b == 0 { None } else { fit(x % y) }),
                ("bit_or", h::bit_or, fit(x | y)),
                ("bit_and", h::bit_and, fit(x & y)),
                ("expr_max", h::expr_max, fit(x.max(y))),
            ] {
                c.ex(name, || f(u(a), u(b)), w);
            }
            if b < 8 {
                c.ex("shr", || h::shr(u(a), u(b)), fit(x >> y));
                c.ex("shl", || h::shl(Expr::U32(a as u32), Expr::U32(b as u32)), Some(RV::Int(32, x << y)));
            }
            c.ex("pair", || h::pair(u(a), u(b)), Some(RV::Tup(vec![i8b(a), i8b(b)])));
            for (p, q) in [(Some(a), Some(b)), (None, Some(b)), (Some(a), None), (None, None)] {
                c.ex("expr_option_unwrap_first", || h::expr_option_unwrap_first(opt_e(p), opt_e(q)), p.or(q).map(i8b));
            }
            c.ex("enum_from_to", || h::enum_from_to(u(a.min(9)), u(b.min(9))), if a.min(9) <= b.min(9) { Some(RV::Seq((a.min(9)..b.min(9)).map(|n| int(n as i128)).collect())) } else { Some(RV::Seq(vec![])) });
            c.ex("record_lens", || {
                let inner = Expr::Record(vec![("p".into(), u(a)), ("q".into(), u(b))]);
                let mid = Expr::Record(vec![("q".into(), inner), ("p".into(), u(77))]);
                h::record_lens(mid, &["q", "p"])
            }, Some(i8b(a)));
            c.ex("tuple_proj", || h::tuple_proj(Expr::Tuple(vec![u(a), u(9), u(b)]), 2), Some(i8b(b)));
            c.ex("record_proj", || h::record_proj(Expr::Record(vec![("p".into(), u(a)), ("q".into(), u(b))]), "q"), Some(i8b(b)));
            c.ex("prepend_field", || h::prepend_field(("n", u(5)), (Expr::Record(vec![("p".into(), u(a)), ("q".into(), u(b)), ("r".into(), u(6))]), ["r", "p"])), Some(rec(vec![("n", i8b(5)), ("r", i8b(6)), ("p", i8b(a))])));
            c.ex("subset_fields", || h::subset_fields(Expr::Record(vec![("p".into(), u(a)), ("q".into(), u(b)), ("r".into(), u(6))]), ["q", "p"]), Some(rec(vec![("q", i8b(b)), ("p", i8b(a))])));
            c.ex("dup", || h::dup(u(a.min(5)), u(b)), Some(RV::Seq(vec![i8b(b); a.min(5) as usize])));
        }
        c.ex("pred", || h::pred(u(a)), fit(a as i128 - 1));
        c.ex("succ", || h::succ(u(a)), fit(a as i128 + 1));
        c.ex("as_u8", || h::as_u8(Expr::U32(a as u32)), Some(i8b(a)));
        c.ex("as_u16", || h::as_u16(u(a)), Some(RV::Int(16, a as i128)));
        c.ex("as_u32", || h::as_u32(u(a)), Some(RV::Int(32, a as i128)));
        c.ex("as_u64", || h::as_u64(u(a)), Some(RV::Int(64, a as i128)));
        c.ex("as_char", || h::as_char(u(a)), Some(RV::Char(a as char)));
        c.ex("expr_unwrap", || h::expr_unwrap(opt_e(Some(a))), Some(i8b(a)));
        c.ex("expr_some", || h::expr_some(u(a)), Some(some(i8b(a))));
        c.ex("singleton", || h::singleton(u(a)), Some(bytes(&[a])));
        c.ex("variant", || h::variant("V", u(a)), Some(va("V", i8b(a))));
        c.ex("expr_option_map_or", || h::expr_option_map_or(u(3), |v| h::pred(v), opt_e(Some(a))), fit(a as i128 - 1));
        for m in 0..4u8 {
            let map: Vec<(Pattern, &'static str)> = (0..m).map(|k| (Pattern::U8([1u8, 7, 255][k as usize]), ["p", "q", "r"][k as usize])).collect();
            let hit = (0..m as usize).find(|k| [1u8, 7, 255][*k] == a);
            if m > 0 {
                for other in [None, Some("o")] {
                    let map = map.clone();
                    let w = match (hit, other) {
                        (Some(k), _) => Some(va(["p", "q", "r"][k], unit())),
                        (None, Some(o)) => Some(va(o, i8b(a))),
                        _ => None,
                    };
                    c.ex("interpret_as_enum", || with_array!(map, arr => h::interpret_as_enum(u(a), arr, other)), w);
                }
            }
        }
    }
    c.ex("expr_none", h::expr_none, Some(none()));
    c.ex("expr_unwrap", || h::expr_unwrap(opt_e(None)), None);
    c.ex("expr_option_map_or", || h::expr_option_map_or(u(3), |v| h::pred(v), opt_e(None)), Some(i8b(3)));
    c.ex("seq_empty", h::seq_empty, Some(RV::Seq(vec![])));
    for p in [false, true] {
        for q in [false, true] {
            c.ex("and", || h::and(Expr::Bool(p), Expr::Bool(q)), Some(RV::Bool(p && q)));
            c.ex("or", || h::or(Expr::Bool(p), Expr::Bool(q)), Some(RV::Bool(p || q)));
        }
        c.ex("expr_not", || h::expr_not(Expr::Bool(p)), Some(RV::Bool(!p)));
        c.ex("expr_if_else", || h::expr_if_else(Expr::Bool(p), u(1), u(2)), Some(i8b(if p { 1 } else { 2 })));
        c.ex("expr_opt_if", || h::expr_opt_if(Expr::Bool(p), u(1)), Some(if p { some(i8b(1)) } else { none() }));
        // the branch not taken is not evaluated
        c.ex("expr_opt_if", || h::expr_opt_if(Expr::Bool(p), h::div(u(1), u(p as u8))), Some(if p { some(i8b(1)) } else { none() }));
    }
    // sequences
    let seqs = crate::gen_::inputs(&[0, 1, 2, 5], if thorough { 5 } else { 4 });
    for s in &seqs {
        let n = s.len();
        let e = || seq_e(s);
        c.ex("seq_length", || h::seq_length(e()), Some(RV::Int(32, n as i128)));
        c.ex("seq_last_checked", || h::seq_last_checked(e()), Some(s.last().map(|b| some(i8b(*b))).unwrap_or(none())));
        c.ex("seq_last_unchecked", || h::seq_last_unchecked(e()), s.last().map(|b| i8b(*b)));
        c.ex("unwrap_singleton", || h::unwrap_singleton(e()), if n == 1 { Some(i8b(s[0])) } else { None });
        for i in 0..=n + 2 {
            c.ex("index_checked", || h::index_checked(e(), Expr::U32(i as u32)), Some(s.get(i).map(|b| some(i8b(*b))).unwrap_or(none())));
            c.ex("index_unchecked", || h::index_unchecked(e(), Expr::U32(i as u32)), s.get(i).map(|b| i8b(*b)));
            c.ex("seq_proj", || h::seq_proj(e(), i), s.get(i).map(|b| i8b(*b)));
            for l in 0..=n - i.min(n) {
                if i <= n {
                    c.ex("sub_seq", || h::sub_seq(e(), Expr::U32(i as u32), Expr::U32(l as u32)), Some(bytes(&s[i..i + l])));
                }
            }
            if i < n {
                for l in 0..=n + 2 {
                    // LZ77: the window goes on with what it has just produced
                    let mut out: Vec<u8> = vec![];
                    for k in 0..l {
                        out.push(if i + k < n { s[i + k] } else { out[i + k - n] });
                    }
                    c.ex("sub_seq_inflate", || h::sub_seq_inflate(e(), Expr::U32(i as u32), Expr::U32(l as u32)), Some(bytes(&out)));
                }
            }
        }
        for q in [0u8, 1, 5, 9] {
            c.ex("seq_any", || h::seq_any(|x| h::expr_eq(x, u(q)), e()), Some(RV::Bool(s.contains(&q))));
            let keyed = || {
                if n == 0 {
                    h::sub_seq(h::singleton(h::pair(u(0), u(0))), Expr::U32(0), Expr::U32(0))
                } else {
                    Expr::Seq(s.iter().enumerate().map(|(i, b)| h::pair(u(*b), u(i as u8))).collect())
                }
            };
            let w = s.iter().position(|b| *b == q).map(|i| some(RV::Tup(vec![i8b(q), i8b(i as u8)]))).unwrap_or(none());
            c.ex("find_by_key", || h::find_by_key(false, |x| h::tuple_proj(x, 0), u(q), keyed()), Some(w.clone()));
            if s.windows(2).all(|w| w[0] < w[1]) {
                c.ex("find_by_key", || h::find_by_key(true, |x| h::tuple_proj(x, 0), u(q), keyed()), Some(w));
            }
        }
        if n > 0 {
            c.ex("balanced_bitor", || h::balanced_bitor(s.iter().enumerate().map(|(i, b)| u((*b) << i)).collect()), Some(i8b(s.iter().enumerate().fold(0, |a, (i, b)| a | b << i))));
        }
        c.ex("left_fold", || h::left_fold(h::lambda_tuple(["acc", "y"], h::add(h::mul(h::var("acc"), Expr::U16(6)), h::as_u16(h::var("y")))), Expr::U16(0), ValueType::Base(BaseType::U16), e()), Some(int(s.iter().fold(0, |a, b| a * 6 + *b as i128))));
        c.ex("flat_map", || h::flat_map(h::lambda("y", h::dup(h::var("y"), h::var("y"))), e()), Some(bytes(&s.iter().flat_map(|b| vec![*b; *b as usize]).collect::<Vec<_>>())));
        c.ex("flat_map_accum", || {
            h::flat_map_accum(h::lambda_tuple(["acc", "y"], h::pair(h::var("y"), h::singleton(h::pair(h::var("acc"), h::var("y"))))), u(9), u8t(), e())
        }, Some(RV::Seq((0..n).map(|i| RV::Tup(vec![i8b(if i == 0 { 9 } else { s[i - 1] }), i8b(s[i])])).collect())));
        c.ex("flat_map_list", || {
            h::flat_map_list(h::lambda_tuple(["l", "y"], h::dup(h::succ(h::var("y")), h::as_u8(h::seq_length(h::var("l"))))), u8t(), e())
        }, {
            let mut out: Vec<u8> = vec![];
            for b in s {
                out.extend(vec![out.len() as u8; *b as usize + 1]);
            }
            Some(bytes(&out))
        });
        // concatenation of the rows 0..b
        let rows = || Expr::Seq(s.iter().map(|b| h::expr_lift_seq(0..*b, Expr::U8)).collect());
        let flat: Vec<u8> = s.iter().flat_map(|b| 0..*b).collect();
        c.ex("concat", || h::concat(rows()), Some(bytes(&flat)));
        if !flat.is_empty() {
            c.fmt_on("f_concat", || h::map(h::compute(rows()), h::f_concat()), &[vec![]], |_| ok(bytes(&flat), 0));
        }
        c.fmt_on("f_id", || h::map(h::compute(e()), h::f_id()), &[vec![]], |_| ok(bytes(s), 0));
    }
    for n in 1..=40usize {
        // no reordering or loss, whatever the tree
        c.ex("balance_merge", || h::balance_merge(n, |n| (0..n).map(|i| h::singleton(u(i as u8))).collect(), |l, r| h::concat(Expr::Seq(vec![l, r]))), Some(bytes(&(0..n as u8).collect::<Vec<_>>())));
    }
    for i in 0..64u32 {
        c.ex("balanced_bitor", || h::balanced_bitor((0..=i).map(|k| Expr::U64(1u64 << k)).collect()), Some(int(((1i128 << (i + 1)) - 1) as i128)));
    }
    c.ex("expr_destruct", || h::expr_destruct(h::pair(u(1), u(2)), Pattern::Tuple(vec![h::bind("p"), h::bind("q")]), h::sub(h::var("q"), h::var("p"))), Some(i8b(1)));
    c.ex("expr_match", || h::expr_match(u(3), [(Pattern::U8(2), u(1)), (Pattern::Wildcard, u(4))]), Some(i8b(4)));
    for o in [None, Some(4u8)] {
        c.ex("pat_some", || h::expr_match(opt_e(o), [(h::pat_some(Pattern::U8(4)), u(1)), (h::pat_none(), u(0))]), Some(i8b(o.is_some() as u8)));
    }
}

pub fn run(ctx: &Ctx) {
    let thorough = ctx.tier == Tier::Thorough;
    let c = Cx {
        ctx,
        ins: crate::gen_::inputs(&[0, 1, 2, 0xff], if thorough { 6 } else { 5 }),
        names: Default::default(),
        reported: Default::default(),
        formats: Cell::new(0),
        exprs: Cell::new(0),
        runs: Cell::new(0),
    };
    byte_formats(&c);
    fixed_width(&c);
    conditions(&c);
    records(&c);
    control(&c);
    modules(&c);
    expressions(&c, thorough);
    bit_fields(&c, thorough);
    ctx.add_transitions(c.runs.get() * 2 + c.exprs.get());
    ctx.add_traces(c.runs.get() * 2 + c.exprs.get());
    ctx.count("helpers", c.names.borrow().len() as u64);
    ctx.count("formats", c.formats.get());
    ctx.count("expressions", c.exprs.get());
    let names: Vec<String> = c.names.borrow().iter().cloned().collect();
    ctx.sample(|| names.join(" "));
    ctx.note("constructor arguments: complete within the stated bounds; inputs: all strings over {00,01,02,ff}, every byte, or boundary words");
}
