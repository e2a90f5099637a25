//! C16: the helper functions generated decoders call, on complete bounded argument spaces, against
//! an independent definition and against evaluating the corresponding expression in the interpreter.
use crate::report::{Ctx, Tier, WORKERS, guarded};
use crate::rv::{RV, from_value};
use doodle::decoder::Scope;
use doodle::prelude as p;
use doodle::prelude::ParseError;
use doodle::{Expr, TypeHint, UnaryOp, ValueType};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};

fn e8(xs: &[u8]) -> Box<Expr> {
    Box::new(Expr::Seq(xs.iter().map(|x| Expr::U8(*x)).collect()))
}
fn u32e(n: usize) -> Box<Expr> {
    Box::new(Expr::U32(n as u32))
}
fn v(s: &str) -> Box<Expr> {
    Box::new(Expr::Var(s.to_string().into()))
}
fn lam(b: Expr) -> Box<Expr> {
    Box::new(Expr::Lambda("x".into(), Box::new(b)))
}
fn proj(i: usize) -> Box<Expr> {
    Box::new(Expr::TupleProj(v("x"), i))
}
fn hint() -> TypeHint {
    TypeHint::from(ValueType::U8)
}
fn n8(x: u8) -> RV {
    RV::Int(8, x as i128)
}
fn seq(xs: &[u8]) -> RV {
    RV::Seq(xs.iter().map(|x| n8(*x)).collect())
}

struct K<'a> {
    ctx: &'a Ctx,
    n: AtomicU64,
}

impl K<'_> {
    /// `got` must be `want` (None: the operation has no value, so no value may be produced), and
    /// so must the interpreter's value of `expr`, where the expression language has the operation.
    fn check(&self, what: impl Fn() -> String, got: Result<Option<RV>, String>, want: Option<RV>, expr: Option<Expr>) {
        self.n.fetch_add(1, Ordering::Relaxed);
        // an undefined operation may be reported as an error or as a panic, but never yields a value
        let g = got.clone().unwrap_or(None);
        if g != want || (got.is_err() && want.is_some()) {
            let k = what();
            self.ctx.violation(&k, &format!("{k}: helper gives {got:?}, expected {want:?}"));
        }
        if let Some(e) = expr {
            let i = guarded(|| from_value(&e.eval_value(&Scope::Empty)));
            if i.clone().ok() != want {
                let k = format!("interpreter: {}", what());
                self.ctx.violation(&k, &format!("{k}: interpreter gives {i:?}, expected {want:?}"));
            }
        }
    }
    /// like `check`, but an undefined operation must be an orderly error
    fn strict(&self, what: impl Fn() -> String, got: Result<Option<RV>, String>, want: Option<RV>, expr: Option<Expr>) {
        if let Err(e) = &got {
            let k = what();
            self.ctx.violation(&k, &format!("{k}: panic {e}, expected {want:?}"));
        }
        self.check(what, got, want, expr)
    }
}

/// all words up to `max` over 0..base
fn words(max: usize, base: u8) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..max {
        last = last.iter().flat_map(|s| (0..base).map(move |a| [s.clone(), vec![a]].concat())).collect();
        all.extend(last.clone());
    }
    all
}

/// window expansion: reading past the end continues into what was already produced
fn inflate(xs: &[u8], start: usize, len: usize) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    for i in start..start + len {
        let b = if i < xs.len() { xs[i] } else { *out.get(i - xs.len())? };
        out.push(b);
    }
    Some(out)
}

fn windows(k: &K, q: bool) {
    let n = if q { 5 } else { 8 };
    for len0 in 0..=n {
        let xs: Vec<u8> = (0..len0).map(|i| 10 + i as u8).collect();
        for start in 0..len0 + 3 {
            for len in 0..=3 * len0 + 4 {
                let name = || format!("{xs:?} start {start} length {len}");
                k.ctx.begin(WORKERS, name);
                // an empty piece beyond the end is left open
                let open = len == 0 && start > len0;
                let want = inflate(&xs, start, len);
                let expr = Expr::SubSeqInflate(e8(&xs), u32e(start), u32e(len));
                if !open {
                    k.check(
                        || format!("slice_ext {}", name()),
                        guarded(|| Some(seq(&p::slice_ext(&xs, start..start + len)))),
                        want.as_ref().map(|w| seq(w)),
                        Some(expr),
                    );
                    let ext = want.map(|w| [xs.clone(), w].concat());
                    k.check(
                        || format!("extend_from_within_ext {}", name()),
                        guarded(|| {
                            let mut y = xs.clone();
                            p::extend_from_within_ext(&mut y, start..start + len);
                            Some(seq(&y))
                        }),
                        ext.map(|w| seq(&w)),
                        None,
                    );
                }
            }
        }
    }
}

fn dups(k: &K) {
    for n in 0..20usize {
        for x in [0u8, 7, 255] {
            let want = Some(seq(&vec![x; n]));
            k.strict(|| format!("dup32({n}, {x})"), guarded(|| Some(seq(&p::dup32(n as u32, x)))), want, Some(Expr::Dup(u32e(n), Box::new(Expr::U8(x)))));
        }
        let inner = vec![1u8, 2];
        let want = RV::Seq((0..n).map(|_| seq(&inner)).collect());
        k.strict(
            || format!("dup32({n}, {inner:?})"),
            guarded(|| Some(RV::Seq(p::dup32(n as u32, inner.clone()).iter().map(|x| seq(x)).collect()))),
            Some(want),
            Some(Expr::Dup(u32e(n), e8(&inner))),
        );
    }
}

fn finds(k: &K, q: bool) {
    let pairs = |ws: &[u8]| -> Vec<(u8, u8)> { ws.iter().enumerate().map(|(i, x)| (*x, i as u8)).collect() };
    for ws in words(if q { 5 } else { 7 }, 4) {
        let ps = pairs(&ws);
        let expr_seq = Box::new(Expr::Seq(ps.iter().map(|(a, b)| Expr::Tuple(vec![Expr::U8(*a), Expr::U8(*b)])).collect()));
        let sorted = ws.windows(2).all(|w| w[0] <= w[1]);
        let unique = ws.windows(2).all(|w| w[0] < w[1]);
        for t in 0..=4u8 {
            k.ctx.begin(WORKERS, || format!("find {t} in {ws:?}"));
            let rv = |o: Option<&(u8, u8)>| RV::Opt(o.map(|x| Box::new(RV::Tup(vec![n8(x.0), n8(x.1)]))));
            let first = rv(ps.iter().find(|x| x.0 == t));
            let expr = |s: bool| {
                (!ps.is_empty()).then(|| Expr::FindByKey(s, lam(*proj(0)), Box::new(Expr::U8(t)), expr_seq.clone()))
            };
            let seen = RefCell::new(vec![]);
            k.strict(
                || format!("find_by_key_unsorted {t} in {ps:?}"),
                guarded(|| {
                    Some(rv(p::find_by_key_unsorted(
                        |x| {
                            seen.borrow_mut().push(x.1);
                            x.0
                        },
                        t,
                        &ps,
                    )))
                }),
                Some(first.clone()),
                expr(false),
            );
            // documented: stops at the first match
            let upto = ps.iter().position(|x| x.0 == t).map(|i| i + 1).unwrap_or(ps.len());
            if *seen.borrow() != (0..upto as u8).collect::<Vec<_>>() {
                let key = format!("find_by_key_unsorted {t} in {ps:?}: visited {:?}", seen.borrow());
                k.ctx.violation(&key, &key);
            }
            if sorted {
                if unique {
                    k.strict(
                        || format!("find_by_key_sorted {t} in {ps:?}"),
                        guarded(|| Some(rv(p::find_by_key_sorted(|x| x.0, t, &ps)))),
                        Some(first),
                        expr(true),
                    );
                } else {
                    // any of the equal items is an answer
                    let got = guarded(|| p::find_by_key_sorted(|x| x.0, t, &ps).copied());
                    let int = expr(true).map(|e| guarded(|| from_value(&e.eval_value(&Scope::Empty))));
                    let legal: Vec<RV> = {
                        let l: Vec<RV> = ps.iter().filter(|x| x.0 == t).map(|x| rv(Some(x))).collect();
                        if l.is_empty() { vec![rv(None)] } else { l }
                    };
                    k.n.fetch_add(1, Ordering::Relaxed);
                    let ok = |r: Option<RV>| r.map(|r| legal.contains(&r)).unwrap_or(false);
                    if !ok(got.clone().ok().map(|g| rv(g.as_ref()))) {
                        let key = format!("find_by_key_sorted {t} in {ps:?}");
                        k.ctx.violation(&key, &format!("{key}: got {got:?}"));
                    }
                    if let Some(i) = int {
                        if !ok(i.clone().ok()) {
                            let key = format!("interpreter: find sorted {t} in {ps:?}");
                            k.ctx.violation(&key, &format!("{key}: got {i:?}"));
                        }
                    }
                }
            }
        }
    }
}

fn ints(k: &K) {
    macro_rules! width {
        ($t:ty, $con:path, $vals:expr) => {
            for x in $vals {
                let x: $t = x;
                let num = |n: Option<$t>| n.map(|n| RV::Int(0, n as i128));
                k.check(|| format!("pred({x}: {})", stringify!($t)), guarded(|| num(Some(p::pred(x)))), num(x.checked_sub(1)), Some(Expr::Unary(UnaryOp::IntPred, Box::new($con(x)))));
                k.check(|| format!("succ({x}: {})", stringify!($t)), guarded(|| num(Some(p::succ(x)))), num(x.checked_add(1)), Some(Expr::Unary(UnaryOp::IntSucc, Box::new($con(x)))));
                for y in $vals {
                    let y: $t = y;
                    fn sub(x: $t, y: $t) -> Result<$t, ParseError> {
                        let z = doodle::try_sub!(x, y, 77);
                        Ok(z)
                    }
                    k.strict(
                        || format!("try_sub!({x}, {y}: {})", stringify!($t)),
                        guarded(|| num(sub(x, y).ok())),
                        num(x.checked_sub(y)),
                        Some(Expr::Arith(doodle::Arith::Sub, Box::new($con(x)), Box::new($con(y)))),
                    );
                }
            }
        };
    }
    k.ctx.begin(WORKERS, || "integers".into());
    width!(u8, Expr::U8, 0..=255u8);
    width!(u16, Expr::U16, [0, 1, 2, 254, 255, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff]);
    width!(u32, Expr::U32, [0, 1, 2, 255, 256, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX]);
    width!(u64, Expr::U64, [0, 1, 2, 255, 256, 0xffff_ffff, 0x1_0000_0000, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX]);
    // byte orders: every value of every byte over three backgrounds
    let le = |b: &[u8]| b.iter().rev().fold(0i128, |n, x| n * 256 + *x as i128);
    let be = |b: &[u8]| b.iter().fold(0i128, |n, x| n * 256 + *x as i128);
    let tup = |b: &[u8]| Box::new(Expr::Tuple(b.iter().map(|x| Expr::U8(*x)).collect()));
    for fill in [0u8, 0xff, 0x81] {
        for x in 0..=255u8 {
            for pos in 0..8 {
                let mut b = [fill; 8];
                for (i, y) in b.iter_mut().enumerate() {
                    *y = y.wrapping_add(i as u8);
                }
                b[pos] = x;
                let n = |x: i128| Some(RV::Int(0, x));
                let t2 = (b[0], b[1]);
                let t4 = (b[0], b[1], b[2], b[3]);
                let t8 = (b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]);
                if pos < 2 {
                    k.strict(|| format!("u16le{t2:?}"), guarded(|| n(p::u16le(t2) as i128)), n(le(&b[..2])), Some(Expr::U16Le(tup(&b[..2]))));
                    k.strict(|| format!("u16be{t2:?}"), guarded(|| n(p::u16be(t2) as i128)), n(be(&b[..2])), Some(Expr::U16Be(tup(&b[..2]))));
                }
                if pos < 4 {
                    k.strict(|| format!("u32le{t4:?}"), guarded(|| n(p::u32le(t4) as i128)), n(le(&b[..4])), Some(Expr::U32Le(tup(&b[..4]))));
                    k.strict(|| format!("u32be{t4:?}"), guarded(|| n(p::u32be(t4) as i128)), n(be(&b[..4])), Some(Expr::U32Be(tup(&b[..4]))));
                }
                k.strict(|| format!("u64le{t8:?}"), guarded(|| n(p::u64le(t8) as i128)), n(le(&b)), Some(Expr::U64Le(tup(&b))));
                k.strict(|| format!("u64be{t8:?}"), guarded(|| n(p::u64be(t8) as i128)), n(be(&b)), Some(Expr::U64Be(tup(&b))));
            }
        }
    }
}

fn folds(k: &K, q: bool) {
    // element 9 stands for a failing step; calls are recorded to see order and short-circuiting
    let max = if q { 4 } else { 6 };
    for ws in words(max, 4) {
        for fail in [false, true] {
            if fail && !ws.contains(&3) {
                continue;
            }
            k.ctx.begin(WORKERS, || format!("folds over {ws:?}"));
            let bad = |x: u8| fail && x == 3;
            let upto = ws.iter().position(|x| bad(*x)).map(|i| i + 1).unwrap_or(ws.len());
            let failed = fail;
            let calls = RefCell::new(vec![]);
            let order = |name: &str, calls: &RefCell<Vec<u8>>| {
                if calls.borrow()[..] != ws[..upto] {
                    let key = format!("{name} over {ws:?}: applied to {:?}", calls.borrow());
                    k.ctx.violation(&key, &key);
                }
                calls.borrow_mut().clear();
            };
            let note = |x: u8| -> Result<(), String> {
                calls.borrow_mut().push(x);
                if bad(x) { Err(format!("step {x}")) } else { Ok(()) }
            };
            // which error comes out matters too
            let done = |r: Result<RV, String>| -> Option<RV> {
                match r {
                    Ok(x) => Some(x),
                    Err(e) if e == "step 3" => None,
                    Err(e) => Some(RV::Bad(e)),
                }
            };
            let live = |e: Expr| if fail || ws.is_empty() { None } else { Some(e) };
            let want = |x: RV| if failed { None } else { Some(x) };
            let xs = e8(&ws);
            let as32 = |e: Box<Expr>| Box::new(Expr::AsU32(e));
            // flat map: x copies of x
            let flat: Vec<u8> = ws.iter().flat_map(|x| vec![*x; *x as usize]).collect();
            k.strict(
                || format!("try_flat_map_vec over {ws:?} failing {fail}"),
                guarded(|| done(p::try_flat_map_vec(ws.iter().cloned(), |x| note(x).map(|_| vec![x; x as usize])).map(|x| seq(&x)))),
                want(seq(&flat)),
                live(Expr::FlatMap(lam(Expr::Dup(as32(v("x")), v("x"))), xs.clone())),
            );
            order("try_flat_map_vec", &calls);
            // list: appends (length so far) once per element, then x
            let mut list: Vec<u8> = vec![];
            for x in &ws {
                let l = list.len() as u8;
                list.extend([l, *x]);
            }
            k.strict(
                || format!("try_flat_map_append_vec over {ws:?} failing {fail}"),
                guarded(|| done(p::try_flat_map_append_vec(ws.iter().cloned(), |(acc, x): (&[u8], u8)| note(x).map(|_| vec![acc.len() as u8, x])).map(|x| seq(&x)))),
                want(seq(&list)),
                live(Expr::FlatMapList(lam(Expr::Seq(vec![Expr::AsU8(Box::new(Expr::SeqLength(proj(0)))), *proj(1)])), hint(), xs.clone())),
            );
            order("try_flat_map_append_vec", &calls);
            // fold: acc * 5 + x, order matters
            let fold = ws.iter().fold(7u32, |a, x| a * 5 + *x as u32);
            let ar = |o, a: Box<Expr>, b: Box<Expr>| Box::new(Expr::Arith(o, a, b));
            let step = ar(doodle::Arith::Add, ar(doodle::Arith::Mul, proj(0), Box::new(Expr::U32(5))), as32(proj(1)));
            k.strict(
                || format!("try_fold_left_curried over {ws:?} failing {fail}"),
                guarded(|| done(p::try_fold_left_curried(ws.iter().cloned(), 7u32, |(a, x)| note(x).map(|_| a * 5 + x as u32)).map(|x| RV::Int(0, x as i128)))),
                want(RV::Int(0, fold as i128)),
                live(Expr::LeftFold(lam(*step.clone()), Box::new(Expr::U32(7)), TypeHint::from(ValueType::U32), xs.clone())),
            );
            order("try_fold_left_curried", &calls);
            // fold-map: accumulate the same way, emit the previous accumulator x times
            let mut acc = 7u32;
            let mut out = vec![];
            for x in &ws {
                out.extend(vec![RV::Int(0, acc as i128); *x as usize]);
                acc = acc * 5 + *x as u32;
            }
            k.strict(
                || format!("try_fold_map_curried over {ws:?} failing {fail}"),
                guarded(|| {
                    done(
                        p::try_fold_map_curried(ws.iter().cloned(), 7u32, |(a, x)| note(x).map(|_| (a * 5 + x as u32, vec![a; x as usize])))
                            .map(|x| RV::Seq(x.iter().map(|y| RV::Int(0, *y as i128)).collect())),
                    )
                }),
                want(RV::Seq(out)),
                live(Expr::FlatMapAccum(
                    lam(Expr::Tuple(vec![*step, Expr::Dup(as32(proj(1)), proj(0))])),
                    Box::new(Expr::U32(7)),
                    TypeHint::from(ValueType::U32),
                    xs.clone(),
                )),
            );
            order("try_fold_map_curried", &calls);
        }
    }
    let short = words(3, 3);
    for a in &short {
        for b in &short {
            let both = [a.clone(), b.clone()].concat();
            k.strict(
                || format!("seq_append({a:?}, {b:?})"),
                guarded(|| Some(seq(&p::seq_append::<u8>(a, b)))),
                Some(seq(&both)),
                Some(Expr::Append(e8(a), e8(b))),
            );
        }
        k.strict(|| format!("slice_all({a:?})"), guarded(|| Some(seq(p::slice_all(a)))), Some(seq(a)), None);
    }
}

fn repeats(k: &K) {
    for out in [false, true] {
        for max in 0..6usize {
            for min in 0..=max {
                for len in 0..=max {
                    let got = guarded(|| p::repeat_between_finished(out, len, min, max).ok().map(RV::Bool));
                    // no further item: enough or an error; otherwise stop exactly at the maximum
                    let want = if out { (len >= min).then_some(RV::Bool(true)) } else { Some(RV::Bool(len == max)) };
                    k.strict(|| format!("repeat_between_finished({out}, {len}, {min}, {max})"), got, want, None);
                }
            }
        }
    }
}

pub fn run(ctx: &'static Ctx) {
    let q = ctx.tier == Tier::Quick;
    ctx.note("each helper on a complete bounded argument space, against an independent definition and the interpreter's value of the corresponding expression; order of evaluation and short-circuiting observed through recording closures");
    let k = K { ctx, n: AtomicU64::new(0) };
    windows(&k, q);
    dups(&k);
    finds(&k, q);
    ints(&k);
    folds(&k, q);
    repeats(&k);
    ctx.end(WORKERS);
    let n = k.n.load(Ordering::Relaxed);
    ctx.add_states(n);
    ctx.add_transitions(n);
    ctx.add_traces(n);
    ctx.sample(|| format!("slice_ext [10,11] 1..6 -> {:?}", inflate(&[10, 11], 1, 5)));
}
