//! C12: typed numeric expressions. Three layers, each enumerated completely within its bounds:
//! the arithmetic back-end generated code calls, the expression evaluator, and the value-level
//! operations (patterns, comparisons, coercions) on typed numbers. The reference is exact
//! arbitrary-precision arithmetic over (value, representation) pairs.
use crate::report::{Ctx, Tier, guarded};
use doodle::decoder::{Compiler, MultiScope, Scope, Value};
use doodle::loc_decoder::{LocMultiScope, LocScope};
use doodle::read::ReadCtxt;
use doodle::numeric::core as nc;
use doodle::numeric::core::{
    BasicBinOp, BasicUnaryOp, BinOp, CastOp, Expr as NE, MachineRep, NumRep, TypedConst, UnaryOp, VOID,
};
use doodle::numeric::eval::{Eval, EvalError, eval_fallback, eval_unary_fallback};
use doodle::{Expr, Format, FormatModule, IntRel, Pattern};
use num_bigint::BigInt;
use std::sync::atomic::{AtomicU64, Ordering};

pub trait Prim: Copy + 'static {
    const NAME: &'static str;
    fn big(self) -> BigInt;
    fn domain() -> Vec<Self>;
}
const POINTS: [i128; 40] = [
    i64::MIN as i128,
    i64::MIN as i128 + 1,
    i32::MIN as i128 - 1,
    i32::MIN as i128,
    i32::MIN as i128 + 1,
    i16::MIN as i128 - 1,
    i16::MIN as i128,
    i16::MIN as i128 + 1,
    -256,
    -181,
    -129,
    -128,
    -127,
    -3,
    -2,
    -1,
    0,
    1,
    2,
    3,
    7,
    127,
    128,
    181,
    255,
    256,
    32767,
    32768,
    46341,
    65535,
    65536,
    65537,
    i32::MAX as i128,
    i32::MAX as i128 + 1,
    u32::MAX as i128,
    u32::MAX as i128 + 1,
    3037000500,
    i64::MAX as i128,
    i64::MAX as i128 + 1,
    u64::MAX as i128,
];
macro_rules! prim {
    ($($t:ident),*) => { $(impl Prim for $t {
        const NAME: &'static str = stringify!($t);
        fn big(self) -> BigInt { BigInt::from(self) }
        fn domain() -> Vec<Self> {
            if std::mem::size_of::<$t>() == 1 { ($t::MIN..=$t::MAX).collect() }
            else { POINTS.iter().filter_map(|p| $t::try_from(*p).ok()).collect() }
        }
    })* };
}
prim!(u8, u16, u32, u64, i8, i16, i32, i64);

pub struct Acc {
    ctx: &'static Ctx,
    w: usize,
    n: usize,
    pub evals: u64,
}
impl Acc {
    fn mine(&mut self) -> bool {
        self.n += 1;
        self.n % crate::report::WORKERS == self.w
    }
}

fn bounds(t: &str) -> (BigInt, BigInt) {
    let w: u32 = t[1..].parse().unwrap();
    if t.starts_with('i') {
        (-(BigInt::from(1) << (w - 1)), (BigInt::from(1) << (w - 1)) - 1)
    } else {
        (BigInt::from(0), (BigInt::from(1) << w) - 1)
    }
}
fn fits(v: &BigInt, t: &str) -> bool {
    let (lo, hi) = bounds(t);
    lo <= *v && *v <= hi
}
fn zero() -> BigInt {
    BigInt::from(0)
}

/// truncating division from the non-negative one, so that the sign rule is ours
fn tdiv(a: &BigInt, b: &BigInt) -> BigInt {
    let (am, bm) = (BigInt::from(a.magnitude().clone()), BigInt::from(b.magnitude().clone()));
    let q = am / bm;
    if (*a < zero()) != (*b < zero()) { -q } else { q }
}
enum M {
    NaN,
    V(BigInt),
    /// the documented language gives no meaning (remainder by a negative number)
    Free,
}
fn math(op: &str, a: &BigInt, b: &BigInt) -> M {
    match op {
        "add" => M::V(a + b),
        "sub" => M::V(a - b),
        "mul" => M::V(a * b),
        "div" if *b == zero() => M::NaN,
        "div" => M::V(tdiv(a, b)),
        "rem" if *b == zero() => M::NaN,
        "rem" if *b < zero() => M::Free,
        "rem" => M::V(a - tdiv(a, b) * b),
        _ => unreachable!(),
    }
}
fn show<O: Prim>(e: &Eval<O>) -> String {
    match e {
        Eval::NaN => "NaN".into(),
        Eval::Direct(x) => format!("Direct({})", x.big()),
        Eval::Indirect(_) => match e.eval() {
            Err(EvalError::Indirect(v)) => format!("Indirect({v})"),
            _ => "Indirect(?)".into(),
        },
    }
}
fn want(m: &M, o: &str) -> Option<String> {
    match m {
        M::NaN => Some("NaN".into()),
        M::V(v) if fits(v, o) => Some(format!("Direct({v})")),
        M::V(v) => Some(format!("Indirect({v})")),
        M::Free => None,
    }
}
fn judge<O: Prim>(a: &mut Acc, name: &str, args: &str, got: Result<Eval<O>, String>, m: M, o: &str) {
    a.evals += 1;
    let Some(w) = want(&m, o) else { return };
    let g = match &got {
        Err(p) => format!("panic {p}"),
        Ok(e) => {
            // the coercion into the machine type must follow the shown state
            let coerced = match e.eval() {
                Ok(x) => format!("Direct({})", x.big()),
                Err(EvalError::NotANumber) => "NaN".into(),
                Err(EvalError::Indirect(v)) => format!("Indirect({v})"),
            };
            let s = show(e);
            if s != coerced || e.is_nan() != (s == "NaN") { format!("{s} but coerces to {coerced}") } else { s }
        }
    };
    if g != w {
        a.ctx.violation(&format!("{name}({args})"), &format!("{name}({args}): expected {w}, got {g}"));
    }
}

pub fn b<L: Prim, R: Prim, O: Prim>(a: &mut Acc, name: &str, op: &str, l: &str, r: &str, o: &str, f: fn(L, R) -> Eval<O>) {
    if !a.mine() {
        return;
    }
    if (L::NAME, R::NAME, O::NAME) != (l, r, o) {
        a.ctx.violation(name, &format!("{name} has signature ({}, {}) -> {}", L::NAME, R::NAME, O::NAME));
        return;
    }
    a.ctx.begin(a.w, || name.to_string());
    for x in L::domain() {
        for y in R::domain() {
            let (bx, by) = (x.big(), y.big());
            let got = guarded(|| f(x, y));
            judge(a, name, &format!("{bx}, {by}"), got, math(op, &bx, &by), o);
        }
    }
    a.ctx.end(a.w);
}
pub fn u<L: Prim, O: Prim>(a: &mut Acc, name: &str, op: &str, l: &str, o: &str, f: fn(L) -> Eval<O>) {
    if !a.mine() {
        return;
    }
    if (L::NAME, O::NAME) != (l, o) {
        a.ctx.violation(name, &format!("{name} has signature {} -> {}", L::NAME, O::NAME));
        return;
    }
    a.ctx.begin(a.w, || name.to_string());
    for x in L::domain() {
        let bx = x.big();
        let m = match op {
            "neg" => -bx.clone(),
            "abs" => BigInt::from(bx.magnitude().clone()),
            _ => bx.clone(),
        };
        let got = guarded(|| f(x));
        judge(a, name, &format!("{bx}"), got, M::V(m), o);
    }
    a.ctx.end(a.w);
}

unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// the fallback routines announce themselves on stderr: silence it while they run
struct Quiet(i32);
impl Quiet {
    fn new() -> Quiet {
        use std::os::fd::AsRawFd;
        let f = std::fs::File::options().write(true).open("/dev/null").unwrap();
        unsafe {
            let s = dup(2);
            dup2(f.as_raw_fd(), 2);
            Quiet(s)
        }
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe {
            dup2(self.0, 2);
            close(self.0);
        }
    }
}

macro_rules! each_prim {
    ($m:ident $($x:tt)*) => { $m!(u8 $($x)*); $m!(u16 $($x)*); $m!(u32 $($x)*); $m!(u64 $($x)*);
                    $m!(i8 $($x)*); $m!(i16 $($x)*); $m!(i32 $($x)*); $m!(i64 $($x)*); };
}
fn few<P: Prim>() -> Vec<P> {
    let d = P::domain();
    let k = d.len();
    let mid = d.iter().position(|x| x.big() == zero()).unwrap();
    let mut ix = vec![0, mid, mid + 1, mid + 2, k / 2 + 3, k - 2, k - 1];
    if mid > 0 {
        ix.push(mid - 1);
    }
    ix.sort();
    ix.dedup();
    ix.into_iter().map(|i| d[i]).collect()
}
fn fallbacks(a: &mut Acc) {
    use num_bigint::TryFromBigIntError as E;
    fn tri<L: Prim, R: Prim, O: Prim>(a: &mut Acc)
    where
        BigInt: From<L> + From<R>,
        O: TryFrom<BigInt, Error = E<BigInt>>,
    {
        if !a.mine() {
            return;
        }
        for x in few::<L>() {
            for y in few::<R>() {
                let (bx, by) = (x.big(), y.big());
                for op in ["add", "sub", "mul", "div", "rem"] {
                    let got = guarded(|| {
                        eval_fallback::<L, R, O>(x, y, "h", |p, q| match math(op, p, q) {
                            M::V(v) => Some(v),
                            _ => None,
                        })
                    });
                    let name = format!("eval_fallback<{},{},{}> {op}", L::NAME, R::NAME, O::NAME);
                    judge(a, &name, &format!("{bx}, {by}"), got, math(op, &bx, &by), O::NAME);
                }
            }
        }
    }
    fn duo<L: Prim, O: Prim>(a: &mut Acc)
    where
        BigInt: From<L>,
        O: TryFrom<BigInt, Error = E<BigInt>>,
    {
        if !a.mine() {
            return;
        }
        for x in L::domain() {
            let bx = x.big();
            for neg in [true, false] {
                let f = |p: &BigInt| if neg || *p < zero() { -p.clone() } else { p.clone() };
                let got = guarded(|| eval_unary_fallback::<L, O>(x, "h", f));
                let name = format!("eval_unary_fallback<{},{}>", L::NAME, O::NAME);
                judge(a, &name, &format!("{bx}"), got, M::V(f(&bx)), O::NAME);
            }
        }
    }
    macro_rules! m3 { ($o:ident $l:ident $r:ident) => { tri::<$l, $r, $o>(a); }; }
    macro_rules! m2 { ($r:ident $l:ident) => { each_prim!(m3 $l $r); }; }
    macro_rules! m1 { ($l:ident) => { each_prim!(m2 $l); }; }
    each_prim!(m1);
    macro_rules! d2 { ($o:ident $l:ident) => { duo::<$l, $o>(a); }; }
    macro_rules! d1 { ($l:ident) => { each_prim!(d2 $l); }; }
    each_prim!(d1);
}

// ---------------------------------------------------------------- expressions

const REPS: [(MachineRep, &str); 8] = [
    (MachineRep::U8, "u8"),
    (MachineRep::U16, "u16"),
    (MachineRep::U32, "u32"),
    (MachineRep::U64, "u64"),
    (MachineRep::I8, "i8"),
    (MachineRep::I16, "i16"),
    (MachineRep::I32, "i32"),
    (MachineRep::I64, "i64"),
];
fn rname(r: MachineRep) -> &'static str {
    REPS.iter().find(|x| x.0 == r).unwrap().1
}
type Rep = Option<&'static str>; // None = automatic
fn nrep(r: Rep) -> NumRep {
    match r {
        None => NumRep::Auto,
        Some(n) => NumRep::Concrete(REPS.iter().find(|x| x.1 == n).unwrap().0),
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct RVal {
    v: BigInt,
    rep: Rep,
    valid: bool,
}
#[derive(Clone, PartialEq, Debug)]
enum RR {
    Ok(RVal),
    Err,
    /// outside what is specified (bitwise cast of an unrepresentable number)
    Free,
}
fn ok(v: BigInt, rep: Rep, valid: bool) -> RR {
    let here = rep.map(|r| fits(&v, r)).unwrap_or(true);
    RR::Ok(RVal { v, rep, valid: valid && here })
}
fn r_bin(op: BasicBinOp, out: Option<MachineRep>, a: &RR, b: &RR) -> RR {
    let (a, b) = match (a, b) {
        (RR::Free, _) => return RR::Free,
        (RR::Err, _) => return RR::Err,
        (_, RR::Free) => return RR::Free,
        (_, RR::Err) => return RR::Err,
        (RR::Ok(a), RR::Ok(b)) => (a, b),
    };
    let name = match op {
        BasicBinOp::Add => "add",
        BasicBinOp::Sub => "sub",
        BasicBinOp::Mul => "mul",
        BasicBinOp::Div => "div",
        BasicBinOp::Rem => "rem",
    };
    let v = match math(name, &a.v, &b.v) {
        M::V(v) => v,
        _ => return RR::Err,
    };
    let rep = match (out, a.rep, b.rep) {
        (Some(o), _, _) => Some(rname(o)),
        (None, None, r) => r,
        (None, r, None) => r,
        (None, Some(x), Some(y)) if x == y => Some(x),
        _ => return RR::Err,
    };
    ok(v, rep, a.valid && b.valid)
}
fn r_un(op: BasicUnaryOp, out: Option<MachineRep>, a: &RR) -> RR {
    let RR::Ok(a) = a else { return a.clone() };
    let v = match op {
        BasicUnaryOp::Negate => -a.v.clone(),
        BasicUnaryOp::AbsVal => BigInt::from(a.v.magnitude().clone()),
        BasicUnaryOp::IntSucc => &a.v + 1,
        BasicUnaryOp::IntPred => &a.v - 1,
    };
    ok(v, out.map(rname).or(a.rep), a.valid)
}
fn r_cast(out: MachineRep, bitwise: bool, a: &RR) -> RR {
    let RR::Ok(a) = a else { return a.clone() };
    let o = rname(out);
    let v = if !bitwise {
        a.v.clone()
    } else {
        match a.rep {
            None => a.v.clone(),
            Some(r) if !fits(&a.v, r) => return RR::Free,
            Some(_) => {
                // reduce modulo 2^width into the target's range
                let w: u32 = o[1..].parse().unwrap();
                let m = BigInt::from(1) << w;
                let mut x = &a.v % &m;
                if x < zero() {
                    x += &m;
                }
                if !fits(&x, o) {
                    x -= &m;
                }
                x
            }
        }
    };
    ok(v, Some(o), a.valid)
}

const BOPS: [BasicBinOp; 5] =
    [BasicBinOp::Add, BasicBinOp::Sub, BasicBinOp::Mul, BasicBinOp::Div, BasicBinOp::Rem];
const UOPS: [BasicUnaryOp; 4] =
    [BasicUnaryOp::Negate, BasicUnaryOp::AbsVal, BasicUnaryOp::IntSucc, BasicUnaryOp::IntPred];

type Node = (NE, RR);
fn leaf(v: BigInt, rep: Rep) -> Node {
    (NE::Const(TypedConst(v.clone(), nrep(rep))), ok(v, rep, true))
}
fn leaves(reps: &[Rep], rich: bool) -> Vec<Node> {
    let mut out = vec![];
    for r in reps {
        let (lo, hi) = match r {
            None => (BigInt::from(-300), BigInt::from(70000)),
            Some(r) => bounds(r),
        };
        let mut vs = vec![lo.clone(), BigInt::from(0), BigInt::from(1), BigInt::from(3), hi.clone()];
        if rich {
            vs.extend([&lo + 1, BigInt::from(2), BigInt::from(-1), &hi - 1, &hi / 2 + 1, &hi + 1]);
        } else if lo < zero() {
            vs.push(BigInt::from(-1));
        }
        vs.retain(|v| rich && *v == &hi + 1 || *v >= lo && *v <= hi);
        vs.sort();
        vs.dedup();
        out.extend(vs.into_iter().map(|v| leaf(v, *r)));
    }
    out
}
fn mk_bin(op: BasicBinOp, o: Option<MachineRep>, a: &Node, b: &Node) -> Node {
    (
        NE::BinOp(BinOp { op, out_rep: o }, Box::new(a.0.clone()), Box::new(b.0.clone())),
        r_bin(op, o, &a.1, &b.1),
    )
}
fn mk_un(op: BasicUnaryOp, o: Option<MachineRep>, a: &Node) -> Node {
    (NE::UnaryOp(UnaryOp { op, out_rep: o }, Box::new(a.0.clone())), r_un(op, o, &a.1))
}
fn mk_cast(o: MachineRep, bit: bool, a: &Node) -> Node {
    let c = if bit { CastOp::bitwise(o) } else { CastOp::arith(o) };
    (NE::Cast(c, Box::new(a.0.clone())), r_cast(o, bit, &a.1))
}

struct Stats {
    evals: AtomicU64,
    states: AtomicU64,
    errs: AtomicU64,
    invalid: AtomicU64,
}

fn same(got: &nc::Value, r: &RVal) -> bool {
    let Some(c) = got.as_const() else { return false };
    *c.as_raw_value() == r.v && c.get_rep() == nrep(r.rep)
}
fn check(ctx: &Ctx, st: &Stats, n: &Node) {
    let (e, r) = n;
    st.states.fetch_add(1, Ordering::Relaxed);
    if *r == RR::Free {
        return;
    }
    st.evals.fetch_add(2, Ordering::Relaxed);
    let bad = |how: &str, got: String| {
        ctx.violation(&format!("{how} {e:?}"), &format!("{e:?}: {how} gave {got}, expected {r:?}"));
    };
    match (guarded(|| e.eval(VOID)), r) {
        (Err(p), _) => bad("eval", format!("panic {p}")),
        (Ok(Ok(v)), RR::Ok(w)) if same(&v, w) => {}
        (Ok(Err(_)), RR::Err) => {
            st.errs.fetch_add(1, Ordering::Relaxed);
        }
        (Ok(x), _) => bad("eval", format!("{x:?}")),
    }
    match (guarded(|| e.eval_strict(VOID)), r) {
        (Err(p), _) => bad("eval_strict", format!("panic {p}")),
        (Ok(Ok(v)), RR::Ok(w)) if same(&v.value, w) && v.is_valid() == w.valid && v.is_valid == w.valid => {
            if !w.valid {
                st.invalid.fetch_add(1, Ordering::Relaxed);
            }
        }
        (Ok(Err(_)), RR::Err) => {}
        (Ok(x), _) => bad("eval_strict", format!("{x:?}")),
    }
}

fn all_outs() -> Vec<Option<MachineRep>> {
    std::iter::once(None).chain(REPS.iter().map(|r| Some(r.0))).collect()
}

fn exprs(ctx: &'static Ctx, st: &Stats) {
    let rich: Vec<Rep> = std::iter::once(None).chain(REPS.iter().map(|r| Some(r.1))).collect();
    // depth 1, complete
    ctx.workers(|w| {
        let ls = leaves(&rich, true);
        let outs = all_outs();
        let mut k = 0usize;
        for a in &ls {
            ctx.begin(w, || format!("{:?}", a.0));
            k += 1;
            if k % crate::report::WORKERS != w {
                continue;
            }
            check(ctx, st, a);
            for o in &outs {
                for u in UOPS {
                    check(ctx, st, &mk_un(u, *o, a));
                }
                if let Some(o) = o {
                    check(ctx, st, &mk_cast(*o, false, a));
                    check(ctx, st, &mk_cast(*o, true, a));
                }
                for b in &ls {
                    for op in BOPS {
                        check(ctx, st, &mk_bin(op, *o, a, b));
                    }
                }
            }
        }
        ctx.end(w);
    });
    // depth 2 (and unary towers of depth 3) over a narrower leaf set
    let (reps, outs): (Vec<Rep>, Vec<Option<MachineRep>>) = if ctx.tier == Tier::Quick {
        (
            vec![None, Some("u8"), Some("i8"), Some("u64")],
            vec![None, Some(MachineRep::U8), Some(MachineRep::I8), Some(MachineRep::I64)],
        )
    } else {
        (
            vec![None, Some("u8"), Some("i8"), Some("i16"), Some("u64"), Some("i64")],
            vec![None, Some(MachineRep::U8), Some(MachineRep::I8), Some(MachineRep::U16), Some(MachineRep::I64), Some(MachineRep::U64)],
        )
    };
    ctx.workers(|w| {
        let ls = leaves(&reps, false);
        let mut k = 0usize;
        let mut visit = |n: &Node| {
            k += 1;
            if k % crate::report::WORKERS != w || ctx.too_many() {
                return;
            }
            ctx.begin(w, || format!("{:?}", n.0));
            for o in &outs {
                for u in UOPS {
                    let m = mk_un(u, *o, n);
                    check(ctx, st, &m);
                    for u2 in UOPS {
                        check(ctx, st, &mk_un(u2, None, &m));
                    }
                }
                for b in &ls {
                    for op in BOPS {
                        check(ctx, st, &mk_bin(op, *o, n, b));
                        check(ctx, st, &mk_bin(op, *o, b, n));
                    }
                }
            }
            for (r, _) in REPS {
                for bit in [false, true] {
                    let m = mk_cast(r, bit, n);
                    check(ctx, st, &m);
                    for (r2, _) in REPS {
                        check(ctx, st, &mk_cast(r2, true, &m));
                    }
                }
            }
        };
        for a in &ls {
            for o in &outs {
                for u in UOPS {
                    visit(&mk_un(u, *o, a));
                }
                for b in &ls {
                    for op in BOPS {
                        visit(&mk_bin(op, *o, a, b));
                    }
                }
            }
            for (r, _) in REPS {
                for bit in [false, true] {
                    visit(&mk_cast(r, bit, a));
                }
            }
        }
        ctx.end(w);
    });
}

// ---------------------------------------------------------------- values

fn int_value(w: &str, v: &BigInt) -> Value {
    match w {
        "u8" => Value::U8(u8::try_from(v).unwrap()),
        "u16" => Value::U16(u16::try_from(v).unwrap()),
        "u32" => Value::U32(u32::try_from(v).unwrap()),
        "u64" => Value::U64(u64::try_from(v).unwrap()),
        _ => Value::Usize(usize::try_from(v).unwrap()),
    }
}

fn pmatch(v: &Value, p: Pattern) -> bool {
    let e = Expr::Match(
        Box::new(Expr::Var("x".into())),
        vec![(p, Expr::Bool(true)), (Pattern::Wildcard, Expr::Bool(false))],
    );
    let mut ms = MultiScope::with_capacity(&Scope::Empty, 1);
    ms.push("x", v);
    matches!(e.eval_value(&Scope::Multi(&ms)), Value::Bool(true))
}

fn values(ctx: &Ctx, st: &Stats) {
    let tick = || {
        st.evals.fetch_add(1, Ordering::Relaxed);
    };
    // representations
    for (a, an) in REPS {
        let (lo, hi) = bounds(an);
        let b = a.as_bounds();
        tick();
        if (b.min, b.max) != (lo.clone(), hi.clone()) || a.is_signed() != an.starts_with('i') {
            ctx.violation(&format!("bounds {an}"), &format!("{an}: bounds of the representation are wrong"));
        }
        for (b, bn) in REPS {
            let (l2, h2) = bounds(bn);
            let sup = lo <= l2 && h2 <= hi;
            tick();
            if a.is_superset(b) != sup || a.encompasses(b) != sup {
                ctx.violation(
                    &format!("superset {an} {bn}"),
                    &format!("{an} superset of {bn}: is_superset={} encompasses={} expected {sup}", a.is_superset(b), a.encompasses(b)),
                );
            }
            if NumRep::from(a).as_bounds() != Some(a.as_bounds()) {
                ctx.violation(&format!("numrep bounds {an}"), "NumRep::as_bounds differs from MachineRep::as_bounds");
            }
        }
    }
    // constants of every representation, in and out of range
    let mut cs: Vec<(BigInt, Rep)> = vec![];
    for rep in std::iter::once(None).chain(REPS.iter().map(|r| Some(r.1))) {
        for p in POINTS {
            cs.push((BigInt::from(p), rep));
        }
        cs.push((BigInt::from(u64::MAX) + 1, rep));
        cs.push((BigInt::from(i64::MIN) - 1, rep));
    }
    let bad = |k: String, d: String| ctx.violation(&k, &format!("{k}: {d}"));
    for (v, rep) in &cs {
        let tc = TypedConst(v.clone(), nrep(*rep));
        let nm = format!("{v}:{}", rep.unwrap_or("auto"));
        ctx.begin(crate::report::WORKERS, || nm.clone());
        st.states.fetch_add(1, Ordering::Relaxed);
        let repr = rep.map(|r| fits(v, r)).unwrap_or(true);
        tick();
        if tc.is_representable() != repr {
            bad(format!("representable {nm}"), format!("got {}", tc.is_representable()));
        }
        if tc.as_usize().ok() != usize::try_from(v).ok() {
            bad(format!("as_usize {nm}"), format!("got {:?}", tc.as_usize().ok()));
        }
        macro_rules! uns {
            ($t:ident, $m:ident, $pat:ident) => {{
                tick();
                let name = stringify!($t);
                let exp = match rep {
                    None => $t::try_from(v).ok(),
                    Some(r) if *r == name => $t::try_from(v).ok(),
                    _ => None,
                };
                let got = tc.get_as_unsized::<$t>().ok();
                if got != exp {
                    bad(format!("get_as_{name} {nm}"), format!("got {got:?} expected {exp:?}"));
                }
                // patterns: exactly the constant of exactly that representation
                for p in [0 as $t, 1, 3, $t::MAX, $t::MAX - 1] {
                    tick();
                    let exp = *rep == Some(name) && *v == BigInt::from(p);
                    let val = Value::from(nc::Value::Const(tc.clone()));
                    let got = pmatch(&val, Pattern::$pat(p));
                    if tc.$m(p) != exp || got != exp {
                        bad(format!("pattern {name} {p} on {nm}"), format!("matches={got} expected {exp}"));
                    }
                }
            }};
        }
        uns!(u8, matches_u8, U8);
        uns!(u16, matches_u16, U16);
        uns!(u32, matches_u32, U32);
        uns!(u64, matches_u64, U64);
        let exp8 = match rep {
            None | Some("u8") => u8::try_from(v).ok(),
            _ => None,
        };
        if tc.get_as_u8().ok() != exp8 {
            bad(format!("get_as_u8 {nm}"), format!("got {:?} expected {exp8:?}", tc.get_as_u8().ok()));
        }
        let val = Value::from(nc::Value::Const(tc.clone()));
        // range patterns compare mathematically
        for lo in [0usize, 1, 128, 256, 65536] {
            for hi in [None, Some(lo), Some(lo + 1), Some(lo + 70000)] {
                tick();
                let b = match hi {
                    None => doodle::bounds::Bounds::at_least(lo),
                    Some(h) => doodle::bounds::Bounds::new(lo, h),
                };
                let exp = *v >= BigInt::from(lo) && hi.map(|h| *v <= BigInt::from(h)).unwrap_or(true);
                let got = pmatch(&val, Pattern::Int(b));
                if got != exp {
                    bad(format!("range {lo}..={hi:?} on {nm}"), format!("matches={got} expected {exp}"));
                }
            }
        }
        // comparisons between numbers of any representation are mathematical
        for (v2, rep2) in &cs {
            let val2 = Value::from(nc::Value::Const(TypedConst(v2.clone(), nrep(*rep2))));
            for (rel, exp) in rels(v, v2) {
                tick();
                match guarded(|| Value::int_rel(rel, val.clone(), val2.clone())) {
                    Ok(Value::Bool(b)) if b == exp => {}
                    g => bad(
                        format!("{rel:?} {nm} {v2}:{}", rep2.unwrap_or("auto")),
                        format!("got {g:?} expected {exp}"),
                    ),
                }
            }
        }
        // and against plain machine integers, where the number has (or may take) that type
        for t in ["u8", "u16", "u32", "u64"] {
            for p in POINTS {
                let p = BigInt::from(p);
                if !fits(&p, t) {
                    continue;
                }
                let plain = int_value(t, &p);
                let usable = (rep.is_none() || *rep == Some(t)) && fits(v, t);
                for flip in [false, true] {
                    for (rel, exp) in if flip { rels(&p, v) } else { rels(v, &p) } {
                        tick();
                        let (l, r) = if flip { (plain.clone(), val.clone()) } else { (val.clone(), plain.clone()) };
                        match (guarded(|| Value::int_rel(rel, l, r)), usable) {
                            (Ok(Value::Bool(b)), true) if b == exp => {}
                            (Err(_), false) => {}
                            // a mathematically right answer is never an error
                            (Ok(Value::Bool(b)), false) if b == exp => {}
                            (g, _) => bad(format!("{rel:?} {nm} vs {p}:{t} flip={flip}"), format!("got {g:?} expected {exp}")),
                        }
                    }
                }
            }
        }
    }
    ctx.end(crate::report::WORKERS);
}
fn rels(a: &BigInt, b: &BigInt) -> [(IntRel, bool); 6] {
    [
        (IntRel::Eq, a == b),
        (IntRel::Ne, a != b),
        (IntRel::Lt, a < b),
        (IntRel::Gt, a > b),
        (IntRel::Lte, a <= b),
        (IntRel::Gte, a >= b),
    ]
}

/// Variables: every kind of decoded value a numeric variable can be bound to, in both evaluators.
fn variables(ctx: &Ctx, st: &Stats) {
    let comp = |e: Expr| Format::Compute(Box::new(e));
    let mapped = |f: Format| Format::Map(Box::new(f), Box::new(Expr::Lambda("m".into(), Box::new(Expr::Var("m".into())))));
    let branch = |f: Format| Format::UnionNondet(vec![f]);
    let mut binds: Vec<(String, Format, RR)> = vec![];
    let mut lits: Vec<(String, Expr, RR)> = vec![];
    for t in ["u8", "u16", "u32", "u64"] {
        for p in POINTS {
            let p = BigInt::from(p);
            if !fits(&p, t) {
                continue;
            }
            let n = u64::try_from(&p).unwrap();
            let e = crate::exprs::lit(t[1..].parse().unwrap(), n);
            lits.push((format!("{p}:{t}"), e, ok(p, Some(t), true)));
        }
    }
    for (n, rep) in REPS.iter().map(|r| (r.1, Some(r.1))).chain([("auto", None)]) {
        for p in [-1i128, 0, 1, 127, 200, 40000] {
            let v = BigInt::from(p);
            let e = Expr::Numeric(Box::new(NE::Const(TypedConst(v.clone(), nrep(rep)))));
            lits.push((format!("num {p}:{n}"), e, ok(v, rep, true)));
        }
    }
    for (n, e, r) in lits {
        let f = comp(e.clone());
        for (k, x) in [
            ("", f.clone()),
            ("branch ", branch(f.clone())),
            ("mapped ", mapped(f.clone())),
            ("branch mapped ", branch(mapped(f.clone()))),
            ("permitted ", Format::Permit(Box::new(f.clone()), Box::new(e.clone()))),
            ("fallback ", Format::Permit(Box::new(Format::Fail), Box::new(e.clone()))),
        ] {
            binds.push((format!("{k}{n}"), x, r.clone()));
        }
    }
    binds.push(("position".into(), Format::Pos, ok(zero(), Some("u64"), true)));
    for (n, f) in [
        ("bool", comp(Expr::Bool(true))),
        ("char", comp(Expr::AsChar(Box::new(Expr::U8(65))))),
        ("tuple", comp(Expr::Tuple(vec![Expr::U8(1)]))),
        ("seq", comp(Expr::Seq(vec![Expr::U8(1)]))),
        ("none", comp(Expr::LiftOption(None))),
        ("some", comp(Expr::LiftOption(Some(Box::new(Expr::U8(1)))))),
        ("variant", comp(Expr::Variant("A".into(), Box::new(Expr::U8(1))))),
        ("mapped bool", mapped(comp(Expr::Bool(true)))),
    ] {
        binds.push((n.into(), f, RR::Err));
    }
    let module = FormatModule::new();
    for (n, f, r) in &binds {
        ctx.begin(crate::report::WORKERS, || n.clone());
        let d = guarded(|| {
            let p = Compiler::compile_program(&module, f).ok()?;
            let a = p.decoders[0].0.parse(&p, &Scope::Empty, ReadCtxt::new(&[])).ok()?.into_inner().0;
            let b = p.decoders[0].0.parse_with_loc(&p, &LocScope::Empty, ReadCtxt::new(&[])).ok()?.into_inner().0;
            Some((a, b))
        });
        let Ok(Some((v, lv))) = d else {
            ctx.violation(&format!("bind {n}"), &format!("value format {f:?} does not decode: {:?}", d.err()));
            continue;
        };
        let c = leaf(BigInt::from(2), None);
        let var: Node = (NE::NumVar("x".into()), r.clone());
        let mut es: Vec<Node> = vec![var.clone(), mk_cast(MachineRep::I16, true, &var), mk_cast(MachineRep::U8, true, &var)];
        for op in BOPS {
            es.push(mk_bin(op, None, &var, &c));
            es.push(mk_bin(op, None, &c, &var));
            es.push(mk_bin(op, Some(MachineRep::I64), &var, &var));
        }
        for u in UOPS {
            es.push(mk_un(u, None, &var));
        }
        for (e, r) in es {
            st.states.fetch_add(1, Ordering::Relaxed);
            st.evals.fetch_add(2, Ordering::Relaxed);
            let x = Expr::Numeric(Box::new(e.clone()));
            let mut ms = MultiScope::with_capacity(&Scope::Empty, 1);
            ms.push("x", &v);
            let g1 = guarded(|| x.eval_value(&Scope::Multi(&ms)));
            let mut lm = LocMultiScope::with_capacity(&LocScope::Empty, 1);
            lm.push("x", lv.clone());
            let g2 = guarded(|| x.eval_value_with_loc(&LocScope::Multi(&lm)));
            for (how, g) in [("plain", g1), ("loc", g2)] {
                let good = match (&g, &r) {
                    (_, RR::Free) => true,
                    (Err(_), RR::Err) => true,
                    (Ok(Value::Numeric(tc)), RR::Ok(w)) => *tc.as_raw_value() == w.v && tc.get_rep() == nrep(w.rep),
                    _ => false,
                };
                if !good {
                    ctx.violation(&format!("{how} {e:?} x={n}"), &format!("{how} evaluation of {e:?} with x = {n}: got {g:?}, expected {r:?}"));
                }
            }
        }
    }
    ctx.end(crate::report::WORKERS);
}

pub fn run(ctx: &'static Ctx) {
    ctx.note("back end: every generated-code arithmetic function x all 8-bit values / 40 boundary points per wider type; fallbacks over all type triples");
    ctx.note("expressions: all depth-1 expressions over 9 representations x boundary constants x all output representations; all depth-2 expressions and depth-3 unary/cast towers over a narrower set");
    ctx.note("values: representability, coercions, patterns and comparisons for every representation x boundary value pair; variables bound to every kind of decoded value, both evaluators");
    let st = Stats {
        evals: AtomicU64::new(0),
        states: AtomicU64::new(0),
        errs: AtomicU64::new(0),
        invalid: AtomicU64::new(0),
    };
    let back = AtomicU64::new(0);
    {
        ctx.workers(|w| {
            let mut a = Acc { ctx, w, n: 0, evals: 0 };
            crate::c12_fns::all(&mut a);
            back.fetch_add(a.evals, Ordering::Relaxed);
        });
        let _q = Quiet::new();
        ctx.workers(|w| {
            let mut a = Acc { ctx, w, n: 0, evals: 0 };
            fallbacks(&mut a);
            back.fetch_add(a.evals, Ordering::Relaxed);
        });
    }
    values(ctx, &st);
    variables(ctx, &st);
    exprs(ctx, &st);
    let ev = st.evals.load(Ordering::Relaxed) + back.load(Ordering::Relaxed);
    ctx.add_states(st.states.load(Ordering::Relaxed) + back.load(Ordering::Relaxed));
    ctx.add_transitions(ev);
    ctx.add_traces(ev);
    ctx.count("backend_calls", back.load(Ordering::Relaxed));
    ctx.count("expressions_without_value", st.errs.load(Ordering::Relaxed));
    ctx.count("expressions_out_of_range", st.invalid.load(Ordering::Relaxed));
    ctx.sample(|| "add_i16_i8_i16(-32768, -128) -> Indirect(-32896)".into());
    ctx.sample(|| "(255u8 +i8 -1i8): value 254, representation i8, flagged unrepresentable".into());
}
