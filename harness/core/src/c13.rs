//! C13: what the type checkers say. Every well-typed format the enumeration builds is accepted by
//! both checkers with the type it has by construction, and every value it decodes inhabits that
//! type; every operator and every format context is offered an argument of every type, and whatever
//! is accepted must be free of type confusion when run.
use crate::exprs::{self, T, bo, points, v};
use crate::gen_::{G, Gen, Ty, any, chains, inputs, long_inputs, stream};
use crate::refsem::{E, Ref, Win, eval};
use crate::report::{Ctx, Tier, WORKERS, guarded};
use crate::rv::{RV, from_value};
use doodle::decoder::{Compiler, Program, Scope};
use doodle::read::ReadCtxt;
use doodle::{
    BaseKind, BaseType, DynFormat, Expr, Format, FormatModule, Label, Pattern, TypeHint, ValueType, ViewExpr,
    ViewFormat,
};
use std::collections::BTreeMap;

/// does a decoded value belong to a type
pub fn inhabits(x: &RV, t: &ValueType) -> bool {
    match (t, x) {
        (ValueType::Any, _) => true,
        (ValueType::Empty, _) => false,
        (ValueType::ViewObj, RV::View(_)) => true,
        (ValueType::PhantomData(_), RV::Phantom) => true,
        (ValueType::NumericHole, RV::Int(..)) => true,
        (ValueType::Base(BaseType::Bool), RV::Bool(_)) => true,
        (ValueType::Base(BaseType::Char), RV::Char(_)) => true,
        (ValueType::Base(b), RV::Int(w, n)) => {
            let bits = match b {
                BaseType::U8 => 8,
                BaseType::U16 => 16,
                BaseType::U32 => 32,
                BaseType::U64 => 64,
                _ => return false,
            };
            (*w == 0 || *w == bits) && *n >= 0 && *n < 1i128 << bits
        }
        (ValueType::Signed(_), RV::Int(0, _)) => true,
        (ValueType::Tuple(ts), RV::Tup(xs)) => ts.len() == xs.len() && ts.iter().zip(xs).all(|(t, x)| inhabits(x, t)),
        (ValueType::Record(ts), RV::Rec(xs)) => {
            ts.len() == xs.len() && ts.iter().zip(xs).all(|((l, t), (m, x))| l.as_ref() == m && inhabits(x, t))
        }
        (ValueType::Union(m), RV::Var(l, x)) => m.get(l.as_str()).is_some_and(|t| inhabits(x, t)),
        (ValueType::Seq(t), RV::Seq(xs)) => xs.iter().all(|x| inhabits(x, t)),
        (ValueType::Option(_), RV::Opt(None)) => true,
        (ValueType::Option(t), RV::Opt(Some(x))) => inhabits(x, t),
        _ => false,
    }
}

fn numeric(t: &ValueType) -> bool {
    matches!(
        t,
        ValueType::NumericHole
            | ValueType::Signed(_)
            | ValueType::Base(BaseType::U8 | BaseType::U16 | BaseType::U32 | BaseType::U64)
    )
}

/// a type without values, as far as it is known
fn void(t: &ValueType) -> bool {
    match t {
        ValueType::Any | ValueType::Empty => true,
        ValueType::Union(m) => m.values().all(void),
        ValueType::Tuple(ts) => ts.iter().any(void),
        ValueType::Record(ts) => ts.iter().any(|t| void(&t.1)),
        _ => false,
    }
}

/// no value that one of the types has is ruled out by the other, up to the holes left open in either
fn compat(a: &ValueType, b: &ValueType, widen: bool) -> bool {
    let compatible = |a: &ValueType, b: &ValueType| compat(a, b, widen);
    use ValueType::*;
    match (a, b) {
        (Any | Empty, _) | (_, Any | Empty) => true,
        (NumericHole, t) | (t, NumericHole) => numeric(t),
        (PhantomData(a), PhantomData(b)) => compatible(a, b),
        (Tuple(x), Tuple(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| compatible(a, b)),
        (Record(x), Record(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.0 == b.0 && compatible(&a.1, &b.1)),
        (Union(x), Union(y)) => {
            // an alternative that cannot arise need not be listed
            let covers = |x: &BTreeMap<Label, ValueType>, y: &BTreeMap<Label, ValueType>| {
                x.iter().all(|(l, t)| y.get(l).map_or(void(t), |u| compatible(t, u)))
            };
            covers(x, y) && (widen || covers(y, x))
        }
        (Seq(a), Seq(b)) | (Option(a), Option(b)) => compatible(a, b),
        _ => a == b,
    }
}

pub fn compatible(a: &ValueType, b: &ValueType) -> bool {
    compat(a, b, false)
}

/// as `compatible`, but the unions of `b` may have been widened by alternatives of other places
/// they are unified with
pub fn widened(a: &ValueType, b: &ValueType) -> bool {
    compat(a, b, true)
}

/// a union with fewer alternatives, each of the type it should have
fn part_of(a: &ValueType, b: &ValueType) -> bool {
    match (a, b) {
        (ValueType::Union(x), ValueType::Union(y)) => x.iter().all(|(l, t)| y.get(l).is_some_and(|u| compatible(t, u))),
        _ => false,
    }
}

fn vt(t: &Ty) -> ValueType {
    match t {
        Ty::Bool => ValueType::BOOL,
        Ty::U8 => ValueType::U8,
        Ty::U16 => ValueType::U16,
        Ty::U32 => ValueType::U32,
        Ty::U64 => ValueType::U64,
        Ty::Num => ValueType::NumericHole,
        Ty::Opt(t) => ValueType::Option(Box::new(vt(t))),
        Ty::Seq(t) => ValueType::Seq(Box::new(vt(t))),
        Ty::Tup(ts) => ValueType::Tuple(ts.iter().map(vt).collect()),
        Ty::Rec(ts) => ValueType::Record(ts.iter().map(|(l, t)| (Label::Owned(l.clone()), vt(t))).collect()),
        Ty::Var(m) => ValueType::Union(m.iter().map(|(l, t)| (Label::Owned(l.clone()), vt(t))).collect::<BTreeMap<_, _>>()),
        Ty::Phantom => ValueType::PhantomData(Box::new(ValueType::Any)),
        Ty::View => ValueType::ViewObj,
        Ty::Any => ValueType::Any,
    }
}

/// what the two checkers say of a format
pub struct Said {
    pub plain: Result<ValueType, String>,
    pub unifying: Result<Option<ValueType>, String>,
    pub module: FormatModule,
    pub top: Option<Format>,
}

fn module_of(g: &Gen, desc: &str) -> FormatModule {
    let mut m = FormatModule::new();
    if desc.contains("ItemVar(") {
        for (l, it) in g.items.iter().enumerate() {
            m.define_format_args_views(
                g.module.get_name(l).to_string(),
                it.args.iter().map(|(l, t)| (Label::Owned(l.clone()), t.clone())).collect(),
                it.views.iter().map(|l| Label::Owned(l.clone())).collect(),
                g.module.get_format(l).clone(),
            );
        }
    }
    m
}

pub fn ask(g: &Gen, f: &Format, desc: &str) -> Said {
    let mut m = module_of(g, desc);
    let r = guarded(|| m.define_format("top", f.clone()));
    let (plain, top) = match r {
        Ok(r) => (Ok(m.get_format_type(r.get_level()).clone()), Some(r.call())),
        Err(e) => (Err(e), None),
    };
    let m = if top.is_some() { m } else { module_of(g, desc) };
    let unifying = match guarded(|| doodle::typecheck(&m, f)) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(format!("{e}")),
        Err(e) => Err(format!("panic: {e}")),
    };
    Said { plain, unifying, module: m, top }
}

fn short(s: &str) -> String {
    s.lines().next().unwrap_or("").chars().take(300).collect()
}

impl Said {
    fn describe(&self) -> String {
        let p = match &self.plain {
            Ok(t) => format!("accepts as {t:?}"),
            Err(e) => format!("refuses ({})", short(e)),
        };
        let u = match &self.unifying {
            Ok(t) => format!("accepts as {t:?}"),
            Err(e) => format!("refuses ({})", short(e)),
        };
        format!("plain checker {p}\n  unifying checker {u}")
    }
    /// accepted by both, with one type
    fn agreed(&self, ctx: &Ctx, desc: &str) -> Option<ValueType> {
        match (&self.plain, &self.unifying) {
            (Ok(t), Ok(u)) => {
                if let Some(u) = u {
                    if !compatible(t, u) {
                        ctx.violation(&format!("types {desc}"), &format!("THE CHECKERS INFER DIFFERENT TYPES for {desc}\n  {}", self.describe()));
                        return None;
                    }
                }
                Some(t.clone())
            }
            // (every definition passes the plain checker first; the other may be more liberal in widths)
            (Err(_), _) => None,
            _ => {
                ctx.violation(&format!("disagree {desc}"), &format!("THE UNIFYING CHECKER REFUSES WHAT THE PLAIN ONE ACCEPTS: {desc}\n  {}", self.describe()));
                None
            }
        }
    }
}

fn run_program(p: &Program, input: &[u8]) -> Option<RV> {
    match guarded(|| p.decoders[0].0.parse(p, &Scope::Empty, ReadCtxt::new(input)).ok().map(|x| from_value(&x.into_inner().0))) {
        Ok(r) => r,
        Err(_) => None,
    }
}

#[derive(Default)]
struct Local {
    formats: u64,
    runs: u64,
    values: u64,
    well: u64,
    ill: u64,
    ill_accepted: u64,
}

fn well_typed(ctx: &Ctx, g: &Gen, x: &G, ins: &[Vec<u8>], loc: &mut Local) {
    let desc = format!("{:?}", x.f);
    loc.formats += 1;
    let said = ask(g, &x.f, &desc);
    let want = vt(&x.ty);
    for (who, t) in [
        ("plain", said.plain.as_ref().map(|t| Some(t.clone())).map_err(|e| e.clone())),
        ("unifying", said.unifying.clone()),
    ] {
        match t {
            Ok(Some(t)) if compatible(&t, &want) => {}
            Ok(None) => {}
            Ok(Some(t)) => ctx.violation(
                &format!("{who} {desc}"),
                &format!("WRONG TYPE: {desc}\n  the {who} checker says {t:?}\n  its values are {want:?}"),
            ),
            Err(e) => ctx.violation(
                &format!("{who} {desc}"),
                &format!("WELL-TYPED FORMAT REFUSED by the {who} checker: {desc}\n  of type {want:?}\n  {}", short(&e)),
            ),
        }
    }
    loc.well += 1;
    let (Ok(t), Some(top)) = (&said.plain, &said.top) else { return };
    let p = match guarded(|| Compiler::compile_program(&said.module, top)) {
        Ok(Ok(p)) => p,
        _ => return,
    };
    for i in ins {
        loc.runs += 1;
        if let Some(v) = run_program(&p, i) {
            loc.values += 1;
            if !inhabits(&v, t) {
                ctx.violation(
                    &format!("value {desc}"),
                    &format!("A DECODED VALUE IS NOT OF THE INFERRED TYPE: {desc} on {}\n  value {v}\n  type {t:?}", crate::c01::hex(i)),
                );
                return;
            }
        }
    }
}

/// the ways in which evaluation shows that a value has the wrong type
fn confused(s: &str) -> bool {
    matches!(
        s,
        "not a bool"
            | "not a byte"
            | "not a lambda"
            | "not a record"
            | "not a sequence"
            | "not a tuple"
            | "not an integer"
            | "tuple index"
            | "no such field"
            | "unbound variable"
            | "unbound view"
            | "unbound format"
            | "width mismatch"
            | "byte tuple arity"
            | "accumulator pair"
            | "bare lambda"
    )
}

fn pool() -> Vec<T> {
    vec![
        T::B,
        T::I(8),
        T::I(16),
        T::I(32),
        T::I(64),
        T::C,
        T::S(Box::new(T::I(8))),
        T::S(Box::new(T::I(16))),
        T::S(Box::new(T::P(vec![T::I(8), T::I(16)]))),
        T::P(vec![T::I(8), T::I(16)]),
        T::P(vec![T::I(8), T::I(8)]),
        T::R,
        T::V,
        T::O(Box::new(T::I(8))),
    ]
}

fn point(e: Expr) -> exprs::Pt {
    let rv = eval(&e, &None).expect("closed literal");
    exprs::Pt { e, rv }
}

/// a few points of a type, from its first to its last, among them a non-empty sequence
fn few(t: &T) -> Vec<exprs::Pt> {
    let sp = exprs::Space { len: 2, alpha: 2, ix: 2 };
    let mut all = points(t, &sp);
    if let T::I(w) = t {
        all = [0u64, 1, 2, 97].iter().map(|n| point(exprs::lit(*w, *n))).collect();
    }
    // one value alone may not show its whole type
    let other = match t {
        T::V | T::O(_) => all[1].e.clone(),
        T::S(_) => all.iter().find(|p| matches!(&p.rv, RV::Seq(x) if !x.is_empty())).unwrap().e.clone(),
        _ => all[0].e.clone(),
    };
    if let T::V = t {
        let b = all[2].e.clone();
        let c = all[0].e.clone();
        for p in &mut all {
            let alts = [p.e.clone(), b.clone(), c.clone(), other.clone()];
            p.e = Expr::Match(
                bo(Expr::U8(0)),
                alts.into_iter().enumerate().map(|(i, e)| (if i < 3 { Pattern::U8(i as u8) } else { Pattern::Wildcard }, e)).collect(),
            );
        }
    }
    if let T::O(_) | T::S(_) = t {
        for p in &mut all {
            if matches!(&p.rv, RV::Seq(x) if x.is_empty()) || matches!(p.rv, RV::Opt(None)) {
                p.e = Expr::Match(bo(Expr::Bool(true)), vec![(Pattern::Bool(true), p.e.clone()), (Pattern::Wildcard, other.clone())]);
            }
        }
    }
    let n = all.len();
    let mut ix: Vec<usize> = vec![0, 1, n / 2, n.saturating_sub(1)];
    if let T::S(_) = t {
        ix.push(2.min(n - 1));
    }
    if let T::V = t {
        ix = (0..n).collect();
    }
    ix.sort();
    ix.dedup();
    ix.into_iter().filter(|i| *i < n).map(|i| all[i].clone()).collect()
}

/// every operator, each of its arguments in turn of every type (at thorough: every pair in turn)
fn operators(ctx: &Ctx, w: usize, loc: &mut Local, two: bool) {
    let g = Gen::new();
    let names = ["a0", "a1", "a2", "a3"];
    let pool = pool();
    let mut k = 0usize;
    for op in exprs::ops() {
        let n = op.args.len();
        let mut tuples: Vec<(Vec<T>, bool)> = vec![(op.args.clone(), true)];
        for i in 0..n {
            for t in &pool {
                // (whether a number no value of the type equals may be written as a pattern is left open)
                let narrower = match (t, &op.args[i]) {
                    (T::I(t), T::I(u)) => op.name.starts_with("match-z") && t < u,
                    _ => false,
                };
                if *t != op.args[i] && !narrower {
                    let mut a = op.args.clone();
                    a[i] = t.clone();
                    tuples.push((a.clone(), false));
                    if two {
                        for j in i + 1..n {
                            for u in &pool {
                                if *u != op.args[j] {
                                    let mut b = a.clone();
                                    b[j] = u.clone();
                                    tuples.push((b, false));
                                }
                            }
                        }
                    }
                }
            }
        }
        for (args, well) in tuples {
            k += 1;
            if k % WORKERS != w || ctx.too_many() {
                continue;
            }
            let body = (op.build)(&names[..n].iter().map(|n| v(n)).collect::<Vec<_>>());
            let sets: Vec<_> = args.iter().map(few).collect();
            let mut pick = vec![0usize; n];
            'points: loop {
                let mut f = Format::Compute(bo(body.clone()));
                for i in (0..n).rev() {
                    f = Format::Let(names[i].into(), bo(sets[i][pick[i]].e.clone()), Box::new(f));
                }
                ctx.begin(w, || format!("{f:?}"));
                one_expr(ctx, &g, &f, if well { Some(op.out.vt()) } else { None }, loc);
                let mut d = n;
                loop {
                    if d == 0 {
                        break 'points;
                    }
                    d -= 1;
                    pick[d] += 1;
                    if pick[d] < sets[d].len() {
                        break;
                    }
                    pick[d] = 0;
                }
            }
        }
    }
}

fn one_expr(ctx: &Ctx, g: &Gen, f: &Format, want: Option<ValueType>, loc: &mut Local) {
    let desc = format!("{f:?}");
    loc.formats += 1;
    let said = ask(g, f, &desc);
    let r = Ref::new(&g.module, &g.items);
    let out = r.parse(f, &None, Win::new(&[]));
    loc.runs += 1;
    if let Some(want) = want {
        loc.well += 1;
        for (who, t) in [
            ("plain", said.plain.as_ref().map(|t| Some(t.clone())).map_err(|e| e.clone())),
            ("unifying", said.unifying.clone()),
        ] {
            match t {
                Ok(Some(t)) if !compatible(&t, &want) && !part_of(&t, &want) => ctx.violation(
                    &format!("{who} {desc}"),
                    &format!("WRONG TYPE: {desc}\n  the {who} checker says {t:?}\n  its values are {want:?}"),
                ),
                Ok(_) => {}
                Err(e) => ctx.violation(
                    &format!("{who} {desc}"),
                    &format!("WELL-TYPED EXPRESSION REFUSED by the {who} checker: {desc}\n  of type {want:?}\n  {}", short(&e)),
                ),
            }
        }
    } else {
        loc.ill += 1;
    }
    for (who, ok) in [("plain", said.plain.is_ok()), ("unifying", said.unifying.is_ok())] {
        if ok {
            if let Err(E::Stuck(s)) = &out {
                if confused(s) {
                    ctx.violation(
                        &format!("{who} {desc}"),
                        &format!("ILL-TYPED EXPRESSION ACCEPTED by the {who} checker: {desc}\n  evaluation: {s}\n  {}", said.describe()),
                    );
                    return;
                }
            }
        }
    }
    let Some(t) = said.agreed(ctx, &desc) else { return };
    loc.ill_accepted += 1;
    if let Ok((x, _, _)) = &out {
        loc.values += 1;
        if !inhabits(x, &t) {
            ctx.violation(
                &format!("value {desc}"),
                &format!("THE VALUE OF AN ACCEPTED EXPRESSION IS NOT OF ITS TYPE: {desc}\n  value {x}\n  type {t:?}"),
            );
            return;
        }
    }
    let Some(top) = &said.top else { return };
    if let Ok(Ok(p)) = guarded(|| Compiler::compile_program(&said.module, top)) {
        if let Some(x) = run_program(&p, &[]) {
            if !inhabits(&x, &t) {
                ctx.violation(
                    &format!("decoded {desc}"),
                    &format!("A DECODED VALUE IS NOT OF THE INFERRED TYPE: {desc}\n  value {x}\n  type {t:?}"),
                );
            }
        }
    }
}

type Hole = (&'static str, Box<dyn Fn(Expr) -> Format>, Box<dyn Fn(&T) -> bool>);

fn lam(n: &'static str, e: Expr) -> Box<Expr> {
    bo(Expr::Lambda(n.into(), bo(e)))
}

/// every position of a format that holds an expression, and which types belong there
fn holes() -> Vec<Hole> {
    let num = |t: &T| matches!(t, T::I(_) | T::Ix);
    let boolean = |t: &T| *t == T::B;
    let u8_ = |t: &T| *t == T::I(8);
    let s8 = |t: &T| *t == T::S(Box::new(T::I(8)));
    let view = || ViewExpr::Var("v".into());
    let mut o: Vec<Hole> = vec![];
    macro_rules! h {
        ($n:expr, $ok:expr, $b:expr) => {
            o.push(($n, Box::new($b), Box::new($ok)))
        };
    }
    h!("count", num, |e| Format::RepeatCount(bo(e), Box::new(any())));
    h!("least count", num, |e| Format::RepeatBetween(bo(e.clone()), bo(e), Box::new(any())));
    h!("slice length", num, |e| Format::Slice(bo(e), Box::new(Format::EMPTY)));
    // (the address and the offset from it are numbers of one type)
    h!("both addresses", num, |e| Format::WithRelativeOffset(bo(e.clone()), bo(e), Box::new(Format::EMPTY)));
    h!("base address", |t| *t == T::I(32), |e| Format::WithRelativeOffset(bo(e), bo(Expr::U32(0)), Box::new(Format::EMPTY)));
    h!("relative offset", |t| *t == T::I(32), |e| Format::WithRelativeOffset(bo(Expr::U32(0)), bo(e), Box::new(Format::EMPTY)));
    h!("presence", boolean, |e| Format::Maybe(bo(e), Box::new(any())));
    h!("bytes", s8, |e| Format::DecodeBytes(bo(e), Box::new(Format::EMPTY)));
    h!("each", |t| matches!(t, T::S(_)), |e| Format::ForEach(bo(e), "x".into(), Box::new(Format::Compute(bo(v("x"))))));
    h!("filter", boolean, |e| doodle::helper::where_lambda(any(), "x", e));
    h!("until last", boolean, |e| Format::RepeatUntilLast(lam("x", e), Box::new(any())));
    h!("until all", boolean, |e| Format::RepeatUntilSeq(lam("x", e), Box::new(any())));
    let acc = |p: Expr, u: Expr, i: Expr| {
        Format::AccumUntil(lam("p", p), lam("q", u), bo(i), TypeHint::from(ValueType::U8), Box::new(any()))
    };
    h!("accumulate until", boolean, move |e| acc(e, Expr::U8(0), Expr::U8(0)));
    h!("accumulator step", u8_, move |e| acc(Expr::Bool(true), e, Expr::U8(0)));
    h!("accumulator start", u8_, move |e| acc(Expr::Bool(true), Expr::U8(0), e));
    h!("fallback", u8_, |e| Format::Permit(Box::new(any()), bo(e)));
    h!("alternative", u8_, |e| Format::Union(vec![Format::Byte([0u8].into_iter().collect()), Format::Compute(bo(e))]));
    h!("sequence element", u8_, |e| Format::Sequence(vec![any(), Format::Compute(bo(e))]));
    h!("captured bytes", num, move |e| Format::LetView("v".into(), Box::new(Format::WithView(view(), ViewFormat::CaptureBytes(bo(e))))));
    h!("array length", num, move |e| Format::LetView(
        "v".into(),
        Box::new(Format::WithView(view(), ViewFormat::ReadArray(bo(e), BaseKind::U16BE)))
    ));
    h!("view offset", num, move |e| Format::LetView(
        "v".into(),
        Box::new(Format::ParseFromView(ViewExpr::Offset(Box::new(view()), bo(e)), Box::new(Format::EMPTY)))
    ));
    let code = |ls: Expr, vs: Option<Expr>| {
        Format::Dynamic("c".into(), DynFormat::Huffman(bo(ls), vs.map(bo)), Box::new(Format::Bits(Box::new(Format::Apply("c".into())))))
    };
    let s816 = |t: &T| matches!(t, T::S(t) if matches!(**t, T::I(8) | T::I(16)));
    h!("code lengths", s816, move |e| code(e, None));
    h!("code symbols", s816, move |e| code(Expr::Seq(vec![Expr::U8(1), Expr::U8(1)]), Some(e)));
    // matching: the pattern fixes the type of what is matched
    let m = |e: Expr, p: Pattern| Format::Match(bo(e), vec![(p, any()), (Pattern::Wildcard, any())]);
    h!("match bool", boolean, move |e| m(e, Pattern::Bool(true)));
    h!("match u8", u8_, move |e| m(e, Pattern::U8(1)));
    h!("match u16", |t| *t == T::I(16), move |e| m(e, Pattern::U16(1)));
    h!("match u32", |t| *t == T::I(32), move |e| m(e, Pattern::U32(1)));
    h!("match u64", |t| *t == T::I(64), move |e| m(e, Pattern::U64(1)));
    h!("match char", |t| *t == T::C, move |e| m(e, Pattern::Char('a')));
    h!("match pair", |t| matches!(t, T::P(ts) if ts.len() == 2), move |e| m(e, Pattern::Tuple(vec![Pattern::Wildcard, Pattern::Wildcard])));
    h!("match pair of numbers", |t| *t == T::P(vec![T::I(8), T::I(16)]), move |e| m(
        e,
        Pattern::Tuple(vec![Pattern::U8(1), Pattern::U16(1)])
    ));
    h!("match sequence", |t| matches!(t, T::S(_)), move |e| m(e, Pattern::Seq(vec![Pattern::Wildcard])));
    h!("match sequence of bytes", s8, move |e| m(e, Pattern::Seq(vec![Pattern::U8(0), Pattern::Wildcard])));
    h!("match option", |t| matches!(t, T::O(_)), move |e| m(e, Pattern::Option(None)));
    h!("match option of byte", |t| matches!(t, T::O(_)), move |e| m(e, Pattern::Option(Some(Box::new(Pattern::U8(0))))));
    o
}

fn contexts(ctx: &Ctx, w: usize, loc: &mut Local, deep: bool) {
    let pool = pool();
    let mut k = 0usize;
    for (name, build, ok) in holes() {
        for t in &pool {
            k += 1;
            if k % WORKERS != w || ctx.too_many() {
                continue;
            }
            let fits = ok(t);
            // an empty sequence or option has no element to be of the wrong type
            let pts: Vec<_> = few(t)
                .into_iter()
                .filter(|p| !matches!(&p.rv, RV::Seq(x) if x.is_empty()) && !matches!(p.rv, RV::Opt(None)))
                .collect();
            for p in pts.iter().take(if deep { 8 } else { 2 }) {
                // given directly, and through a variable
                for f in [
                    build(p.e.clone()),
                    Format::Let("a".into(), bo(p.e.clone()), Box::new(build(v("a")))),
                ] {
                    ctx.begin(w, || format!("{f:?}"));
                    let g = Gen::new();
                    hole(ctx, &g, name, &f, fits, loc);
                }
            }
            if !fits {
                // an ill-typed part spoils every whole
                let f = build(pts[0].e.clone());
                let mut g = Gen::new();
                let mut out = vec![];
                g.unary(&G { f: f.clone(), ty: Ty::U8 }, &mut out);
                g.binary(&G { f: f.clone(), ty: Ty::U8 }, &G { f: any(), ty: Ty::U8 }, &mut out);
                g.binary(&G { f: any(), ty: Ty::U8 }, &G { f, ty: Ty::U8 }, &mut out);
                for x in &out {
                    ctx.begin(w, || format!("{:?}", x.f));
                    hole(ctx, &g, name, &x.f, false, loc);
                }
            }
        }
    }
}

/// names are visible exactly where they are bound, and projections name something that exists
fn names(ctx: &Ctx, w: usize, loc: &mut Local) {
    let mut k = 0;
    let mut mine = || {
        k += 1;
        k % WORKERS == w
    };
    let x8 = || Expr::U8(1);
    let pair = || Expr::Tuple(vec![Expr::U8(1), Expr::U16(1)]);
    let rec = || Expr::Record(vec![("a".into(), Expr::U8(1)), ("b".into(), Expr::U16(1))]);
    // an expression with no type, in every position that holds one
    let bad: Vec<(&str, Expr)> = vec![
        ("unbound variable", v("zz")),
        ("no such component", Expr::TupleProj(bo(pair()), 2)),
        ("component of a number", Expr::TupleProj(bo(x8()), 0)),
        ("no such field", Expr::RecordProj(bo(rec()), "c".into())),
        ("field of a pair", Expr::RecordProj(bo(pair()), "a".into())),
        ("mixed sequence", Expr::Seq(vec![Expr::U8(1), Expr::U16(1)])),
        ("mixed branches", Expr::Match(bo(Expr::Bool(true)), vec![(Pattern::Bool(true), Expr::U8(1)), (Pattern::Wildcard, Expr::Bool(true))])),
        ("a function where a value is needed", *lam("x", v("x"))),
    ];
    for (name, build, _) in holes() {
        for (what, e) in &bad {
            if mine() && !ctx.too_many() {
                let g = Gen::new();
                let f = build(e.clone());
                ctx.begin(w, || format!("{f:?}"));
                hole(ctx, &g, &format!("{name}: {what}"), &f, false, loc);
            }
        }
    }
    for (what, e) in &bad {
        for f in [
            Format::Compute(bo(e.clone())),
            Format::Let("u".into(), bo(e.clone()), Box::new(any())),
            Format::Map(Box::new(any()), lam("u", e.clone())),
            Format::Compute(bo(Expr::Tuple(vec![Expr::U8(0), e.clone()]))),
            Format::Compute(bo(Expr::Record(vec![("a".into(), e.clone())]))),
            Format::Compute(bo(Expr::Variant("A".into(), bo(e.clone())))),
            Format::Compute(bo(Expr::LiftOption(Some(bo(e.clone()))))),
        ] {
            if mine() {
                let g = Gen::new();
                ctx.begin(w, || format!("{f:?}"));
                hole(ctx, &g, what, &f, false, loc);
            }
        }
    }
    // a name, used within its scope and after it
    let seq2 = || Expr::Seq(vec![Expr::U8(1), Expr::U8(1)]);
    let n1 = || v("n");
    let yes = |e: Expr| Expr::IntRel(doodle::IntRel::Lte, bo(Expr::U8(0)), bo(e));
    let acc = |p: Expr, u: Expr, i: Expr| Format::AccumUntil(lam("n", p), lam("q", u), bo(i), TypeHint::from(ValueType::U8), Box::new(any()));
    let acc2 = |p: Expr, u: Expr, i: Expr| Format::AccumUntil(lam("q", p), lam("n", u), bo(i), TypeHint::from(ValueType::U8), Box::new(any()));
    let within: Vec<Format> = vec![
        Format::Let("n".into(), bo(x8()), Box::new(Format::Compute(bo(n1())))),
        Format::LetFormat(Box::new(any()), "n".into(), Box::new(Format::Compute(bo(n1())))),
        Format::Map(Box::new(any()), lam("n", n1())),
        doodle::helper::where_lambda(any(), "n", yes(n1())),
        Format::RepeatUntilLast(lam("n", yes(n1())), Box::new(any())),
        Format::RepeatUntilSeq(lam("n", yes(Expr::SeqIx(bo(n1()), bo(Expr::U32(0))))), Box::new(any())),
        acc(yes(Expr::TupleProj(bo(n1()), 0)), Expr::U8(0), Expr::U8(0)),
        acc2(Expr::Bool(true), Expr::TupleProj(bo(n1()), 1), Expr::U8(0)),
        Format::ForEach(bo(seq2()), "n".into(), Box::new(Format::Compute(bo(n1())))),
        Format::Match(bo(x8()), vec![(Pattern::Binding("n".into()), Format::Compute(bo(n1())))]),
        Format::Compute(bo(Expr::Match(bo(x8()), vec![(Pattern::Binding("n".into()), n1())]))),
        Format::Compute(bo(Expr::Destructure(bo(x8()), Pattern::Binding("n".into()), bo(n1())))),
        Format::Compute(bo(Expr::FlatMap(lam("n", Expr::Seq(vec![n1()])), bo(seq2())))),
    ];
    let uses = |f: Format| Format::Tuple(vec![f, Format::Compute(bo(v("n")))]);
    let stray: Vec<Format> = vec![
        // the parts of a binder outside the scope of its name
        Format::Let("n".into(), bo(n1()), Box::new(any())),
        Format::LetFormat(Box::new(Format::Compute(bo(n1()))), "n".into(), Box::new(any())),
        Format::Map(Box::new(Format::Compute(bo(n1()))), lam("n", n1())),
        doodle::helper::where_lambda(Format::Compute(bo(n1())), "n", Expr::Bool(true)),
        Format::ForEach(bo(n1()), "n".into(), Box::new(any())),
        Format::RepeatUntilLast(lam("n", Expr::Bool(true)), Box::new(Format::MonadSeq(Box::new(any()), Box::new(Format::Compute(bo(n1())))))),
        Format::Match(bo(n1()), vec![(Pattern::Binding("n".into()), any())]),
        Format::Match(bo(x8()), vec![(Pattern::Binding("n".into()), any()), (Pattern::Wildcard, Format::Compute(bo(n1())))]),
        Format::Compute(bo(Expr::Match(bo(x8()), vec![(Pattern::Binding("n".into()), x8()), (Pattern::Wildcard, n1())]))),
        Format::Compute(bo(Expr::Destructure(bo(n1()), Pattern::Binding("n".into()), bo(x8())))),
        Format::Compute(bo(Expr::FlatMap(lam("n", Expr::Seq(vec![x8()])), bo(n1())))),
        acc(Expr::Bool(true), Expr::U8(0), n1()),
        acc(Expr::Bool(true), Expr::TupleProj(bo(n1()), 0), Expr::U8(0)),
        acc2(yes(Expr::TupleProj(bo(n1()), 0)), Expr::U8(0), Expr::U8(0)),
        acc2(Expr::Bool(true), Expr::U8(0), n1()),
        // names of one kind used as another
        Format::Let("n".into(), bo(x8()), Box::new(Format::Apply("n".into()))),
        Format::Let("n".into(), bo(x8()), Box::new(Format::ParseFromView(ViewExpr::Var("n".into()), Box::new(any())))),
        Format::LetView("n".into(), Box::new(Format::Compute(bo(n1())))),
        Format::LetView("n".into(), Box::new(Format::Apply("n".into()))),
        Format::Dynamic("n".into(), DynFormat::Huffman(bo(seq2()), None), Box::new(Format::Compute(bo(n1())))),
        Format::Apply("n".into()),
        Format::ParseFromView(ViewExpr::Var("n".into()), Box::new(any())),
        Format::WithView(ViewExpr::Var("n".into()), ViewFormat::ReifyView),
        Format::Tuple(vec![Format::LetView("n".into(), Box::new(any())), Format::ParseFromView(ViewExpr::Var("n".into()), Box::new(any()))]),
        Format::Tuple(vec![
            Format::Dynamic("n".into(), DynFormat::Huffman(bo(seq2()), None), Box::new(any())),
            Format::Bits(Box::new(Format::Apply("n".into()))),
        ]),
    ];
    for (f, ok) in within
        .iter()
        .map(|f| (f.clone(), true))
        .chain(within.iter().map(|f| (uses(f.clone()), false)))
        .chain(within.iter().map(|f| (Format::LetFormat(Box::new(f.clone()), "m".into(), Box::new(Format::Compute(bo(n1())))), false)))
        .chain(within.iter().map(|f| (Format::Map(Box::new(f.clone()), lam("m", n1())), false)))
        .chain(stray.into_iter().map(|f| (f, false)))
    {
        if mine() && !ctx.too_many() {
            let g = Gen::new();
            ctx.begin(w, || format!("{f:?}"));
            hole(ctx, &g, "scope", &f, ok, loc);
        }
    }
    // the type an accumulator, a folded value or a list is declared to have
    let hints = [ValueType::U8, ValueType::U16, ValueType::BOOL, ValueType::Seq(Box::new(ValueType::U8))];
    for (i, h) in hints.iter().enumerate() {
        for (j, e) in [Expr::U8(1), Expr::U16(1), Expr::Bool(true), Expr::Seq(vec![Expr::U8(1)])].iter().enumerate() {
            let h = || TypeHint::from(h.clone());
            for (ok, x) in [
                (i == j, Expr::LeftFold(lam("q", e.clone()), bo(e.clone()), h(), bo(seq2()))),
                (i == j, Expr::FlatMapList(lam("q", Expr::Seq(vec![e.clone()])), h(), bo(seq2()))),
                (
                    i == j,
                    Expr::FlatMapAccum(lam("q", Expr::Tuple(vec![e.clone(), Expr::Seq(vec![Expr::U8(0)])])), bo(e.clone()), h(), bo(seq2())),
                ),
            ] {
                if mine() {
                    let g = Gen::new();
                    let f = Format::Compute(bo(x));
                    ctx.begin(w, || format!("{f:?}"));
                    hole(ctx, &g, "declared type", &f, ok, loc);
                }
            }
        }
    }
}

fn hole(ctx: &Ctx, g: &Gen, name: &str, f: &Format, fits: bool, loc: &mut Local) {
    let desc = format!("{f:?}");
    loc.formats += 1;
    if fits {
        loc.well += 1;
    } else {
        loc.ill += 1;
    }
    let said = ask(g, f, &desc);
    for (who, ok) in [("plain", said.plain.is_ok()), ("unifying", said.unifying.is_ok())] {
        if ok != fits {
            ctx.violation(
                &format!("{who} {desc}"),
                &format!(
                    "{} ({name}) {} by the {who} checker: {desc}\n  {}",
                    if fits { "WELL-TYPED FORMAT" } else { "ILL-TYPED FORMAT" },
                    if ok { "ACCEPTED" } else { "REFUSED" },
                    said.describe()
                ),
            );
            return;
        }
    }
    said.agreed(ctx, &desc);
}

pub fn run(ctx: &'static Ctx) {
    let thorough = ctx.tier == Tier::Thorough;
    let mut ins = inputs(&[0, 1, 2], if thorough { 4 } else { 3 });
    ins.extend(long_inputs());
    let few = inputs(&[0, 1, 2], 2);
    let (ins, few) = (&ins, &few);
    ctx.note(format!(
        "every format of nesting level <= 2 over {} atoms, and every chain of {} wrappers: both checkers accept it with the type it has by construction and every value decoded from {} inputs inhabits it; every operator with each argument in turn of each of {} types; every expression position of every format context with each of them, alone and inside every other context",
        crate::gen_::atoms().len(), if thorough { 4 } else { 3 }, ins.len(), pool().len()
    ));
    ctx.workers(|w| {
        let mut loc = Local::default();
        names(ctx, w, &mut loc);
        contexts(ctx, w, &mut loc, thorough);
        ctx.end(w);
        operators(ctx, w, &mut loc, thorough);
        ctx.end(w);
        let mut gen_ = Gen::new();
        stream(&mut gen_, 2, if thorough { 16 } else { 4 }, &mut |gen_, n, x| {
            if n % WORKERS != w || ctx.too_many() {
                return;
            }
            ctx.begin(w, || format!("{:?}", x.f));
            well_typed(ctx, gen_, x, if gen_.level < 2 || thorough { ins } else { few }, &mut loc);
        });
        chains(&mut gen_, if thorough { 4 } else { 3 }, &mut |gen_, n, x| {
            if n % WORKERS != w || ctx.too_many() {
                return;
            }
            ctx.begin(w, || format!("{:?}", x.f));
            well_typed(ctx, gen_, x, few, &mut loc);
        });
        ctx.end(w);
        ctx.add_states(loc.formats);
        ctx.add_transitions(loc.runs);
        ctx.add_traces(loc.formats);
        ctx.add_nontrivial(loc.values);
        ctx.count("well_typed", loc.well);
        ctx.count("wrongly_typed_arguments", loc.ill);
        ctx.count("accepted_with_agreed_type", loc.ill_accepted);
        ctx.count("values_checked", loc.values);
    });
}
