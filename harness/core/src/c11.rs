//! C11: every operator of the expression language, on the complete bounded value space of its
//! argument types and in every representation those values can reach an expression in
//! (literal, lazily duplicated, integer range, mapped, branch-tagged, permitted, fallback,
//! wrapped elements), evaluates in both real evaluators to what the reference evaluator says;
//! and is undefined only where the operation itself is. Two-level compositions are evaluated
//! as closed expressions.
use crate::exprs::{Op, Pt, Space, T, bo, bx, ops, points, v};
use crate::refsem::{self, Bind, E};
use crate::report::{Ctx, Tier, WORKERS, guarded};
use crate::rv::{RV, from_value};
use doodle::decoder::{Compiler, MultiScope, Scope, Value};
use doodle::loc_decoder::{LocMultiScope, LocScope, ParsedValue};
use doodle::read::ReadCtxt;
use doodle::{Expr, Format, FormatModule};
use std::collections::HashMap;

#[derive(Clone)]
pub struct Rep {
    kind: &'static str,
    val: Value,
    loc: ParsedValue,
}

fn compute(e: Expr) -> Format {
    Format::Compute(bx(e))
}
fn mapped(f: Format) -> Format {
    Format::Map(bx(f), bx(Expr::Lambda("m".into(), bo(v("m")))))
}
fn elem_wrapped(e: &Expr, wrap: &dyn Fn(Format) -> Format) -> Option<Format> {
    let w = |x: &Expr| wrap(compute(x.clone()));
    Some(match e {
        Expr::Seq(xs) => Format::Sequence(xs.iter().map(w).collect()),
        Expr::Tuple(xs) => Format::Tuple(xs.iter().map(w).collect()),
        Expr::Record(fs) => Format::record(fs.iter().map(|(l, x)| (l.clone(), w(x))).collect::<Vec<_>>()),
        Expr::Variant(l, x) => Format::Variant(l.clone(), bx(w(x))),
        Expr::LiftOption(Some(x)) => Format::Maybe(bx(Expr::Bool(true)), bx(w(x))),
        _ => return None,
    })
}

/// every way the point can be represented when an expression receives it from a format
fn reps(ctx: &Ctx, e: &Expr) -> Vec<Rep> {
    let base = compute(e.clone());
    let permit = |f: Format| Format::Permit(bx(f), bx(e.clone()));
    let mut fs: Vec<(&'static str, Format)> = vec![
        ("plain", base.clone()),
        ("mapped", mapped(base.clone())),
        ("branch", Format::UnionNondet(vec![base.clone()])),
        ("permitted", permit(base.clone())),
        ("fallback", permit(Format::Fail)),
        ("deep", Format::UnionNondet(vec![mapped(permit(mapped(base.clone())))])),
    ];
    if let Some(f) = elem_wrapped(e, &mapped) {
        fs.push(("elements-mapped", f));
    }
    if let Some(f) = elem_wrapped(e, &|f| Format::UnionNondet(vec![f])) {
        fs.push(("elements-branch", mapped(f)));
    }
    let module = FormatModule::new();
    let mut out = vec![];
    for (kind, f) in fs {
        let r = guarded(|| {
            let p = Compiler::compile_program(&module, &f).ok()?;
            let a = p.decoders[0].0.parse(&p, &Scope::Empty, ReadCtxt::new(&[])).ok()?.into_inner().0;
            let b = p.decoders[0].0.parse_with_loc(&p, &LocScope::Empty, ReadCtxt::new(&[])).ok()?.into_inner().0;
            Some((a, b))
        });
        match r {
            Ok(Some((val, loc))) => out.push(Rep { kind, val, loc }),
            Ok(None) => ctx.violation(&format!("repr {kind} {e:?}"), &format!("value format {f:?} does not decode the empty input")),
            Err(m) => ctx.violation(&format!("repr {kind} {e:?}"), &format!("value format {f:?} panics: {m}")),
        }
    }
    out
}

/// the reference declines to say (not an undefined operation)
fn unmodelled(s: &str) -> bool {
    matches!(
        s,
        "keys not sorted" | "ambiguous key" | "huge range" | "huge dup" | "int pattern range" | "width mismatch"
    )
}

pub fn same(real: &RV, want: &RV) -> bool {
    match (real, want) {
        (RV::Int(a, x), RV::Int(b, y)) => x == y && (*a == *b || *a == 0 || *b == 0),
        (RV::Opt(Some(a)), RV::Opt(Some(b))) => same(a, b),
        (RV::Tup(a), RV::Tup(b)) | (RV::Seq(a), RV::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (RV::Rec(a), RV::Rec(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((l, x), (m, y))| l == m && same(x, y))
        }
        (RV::Var(l, a), RV::Var(m, b)) => l == m && same(a, b),
        (a, b) => a == b,
    }
}

#[derive(Default)]
struct Local {
    evals: u64,
    defined: u64,
    undefined: u64,
    skipped: u64,
    nested: u64,
    tuples: u64,
}

fn judge(ctx: &Ctx, loc: &mut Local, key: &dyn Fn() -> String, want: &Result<RV, E>, got: impl FnOnce() -> Result<RV, String>, who: &str) {
    if matches!(want, Err(E::Stuck(s)) if unmodelled(s)) {
        loc.skipped += 1;
        return;
    }
    loc.evals += 1;
    match (want, got()) {
        (Ok(w), Ok(g)) if same(&g, w) => loc.defined += 1,
        (Err(_), Err(_)) => loc.undefined += 1,
        (Ok(w), Ok(g)) => ctx.violation(&format!("{who} {}", key()), &format!("{who} evaluates {} to {g}, should be {w}", key())),
        (Ok(w), Err(m)) => {
            ctx.violation(&format!("{who} {}", key()), &format!("{who} panics on {}, should be {w}: {m}", key()))
        }
        (Err(e), Ok(g)) => ctx.violation(
            &format!("{who} {}", key()),
            &format!("{who} evaluates {} to {g}, but the operation is undefined ({e:?})", key()),
        ),
    }
}

fn eval_plain(e: &Expr, s: &Scope) -> Result<RV, String> {
    guarded(|| from_value(&e.eval_value(s)))
}
fn eval_loc(e: &Expr, s: &LocScope) -> Result<RV, String> {
    guarded(|| from_value(&e.eval_value_with_loc(s)))
}

const NAMES: [&str; 3] = ["x0", "x1", "x2"];

struct Tab {
    pts: Vec<Pt>,
    reps: Vec<Vec<Rep>>,
}

pub fn run(ctx: &Ctx) {
    let (sp, few) = match ctx.tier {
        Tier::Quick => (Space { len: 4, alpha: 3, ix: 6 }, 5usize),
        Tier::Thorough => (Space { len: 5, alpha: 3, ix: 8 }, 9usize),
    };
    ctx.note(format!(
        "{} operator instances x every argument tuple of the bounded value space (U8 sequences of length <= {} over {} values, lazy and range forms, boundary integers, indices <= {}) x every representation; two-level closed compositions over {} values per argument; plain and located evaluators vs reference evaluator",
        ops().len(), sp.len, sp.alpha, sp.ix, few
    ));
    ctx.workers(|w| {
        crate::rv::EXPAND.with(|c| c.set(300));
        let all = ops();
        let mut tabs: HashMap<T, Tab> = HashMap::new();
        let mut loc = Local::default();
        let mut n = 0usize;
        ctx.begin(w, || "building representations".into());
        for op in &all {
            for t in &op.args {
                if !tabs.contains_key(t) {
                    let pts = points(t, &sp);
                    let reps = pts.iter().map(|p| reps(ctx, &p.e)).collect();
                    tabs.insert(t.clone(), Tab { pts, reps });
                }
            }
        }
        for op in &all {
            let vars: Vec<Expr> = (0..op.args.len()).map(|i| v(NAMES[i])).collect();
            let e = (op.build)(&vars);
            let ts: Vec<&Tab> = op.args.iter().map(|t| &tabs[t]).collect();
            let mut ix = vec![0usize; ts.len()];
            loop {
                if n % WORKERS == w && !ctx.too_many() {
                    one(ctx, w, op, &e, &ts, &ix, &mut loc);
                }
                n += 1;
                let mut k = 0;
                while k < ix.len() {
                    ix[k] += 1;
                    if ix[k] < ts[k].pts.len() {
                        break;
                    }
                    ix[k] = 0;
                    k += 1;
                }
                if k == ix.len() {
                    break;
                }
            }
        }
        // closed two-level compositions
        for a in &all {
            for (i, t) in a.args.iter().enumerate() {
                for b in &all {
                    let fits = b.out == *t || (*t == T::Ix && b.out == T::I(32));
                    if !fits {
                        continue;
                    }
                    let mut slots: Vec<&Tab> = vec![];
                    for (j, u) in a.args.iter().enumerate() {
                        if j != i {
                            slots.push(&tabs[u]);
                        }
                    }
                    let na = slots.len();
                    for u in &b.args {
                        slots.push(&tabs[u]);
                    }
                    let lens: Vec<usize> = slots.iter().map(|s| s.pts.len().min(few)).collect();
                    let mut ix = vec![0usize; slots.len()];
                    loop {
                        if n % WORKERS == w && !ctx.too_many() {
                            let pick = |k: usize| {
                                // spread over the space rather than its first points
                                let s = slots[k];
                                let step = (s.pts.len() / lens[k]).max(1);
                                s.pts[(ix[k] * step + k) % s.pts.len()].e.clone()
                            };
                            let inner: Vec<Expr> = (0..b.args.len()).map(|k| pick(na + k)).collect();
                            let eb = (b.build)(&inner);
                            let ok = *t != T::Ix
                                || matches!(refsem::eval(&eb, &None), Ok(RV::Int(_, m)) if m <= 64)
                                || refsem::eval(&eb, &None).is_err();
                            if ok {
                                let mut outer: Vec<Expr> = (0..na).map(pick).collect();
                                outer.insert(i, eb);
                                let e = (a.build)(&outer);
                                let key = || format!("{e:?}");
                                ctx.begin(w, key);
                                let want = refsem::eval(&e, &None);
                                judge(ctx, &mut loc, &key, &want, || eval_plain(&e, &Scope::Empty), "plain");
                                judge(ctx, &mut loc, &key, &want, || eval_loc(&e, &LocScope::Empty), "located");
                                loc.nested += 1;
                            }
                        }
                        n += 1;
                        let mut k = 0;
                        while k < ix.len() {
                            ix[k] += 1;
                            if ix[k] < lens[k] {
                                break;
                            }
                            ix[k] = 0;
                            k += 1;
                        }
                        if k == ix.len() {
                            break;
                        }
                    }
                }
            }
        }
        ctx.end(w);
        if w == 0 {
            ctx.add_states(tabs.values().map(|t| t.reps.iter().map(|r| r.len() as u64).sum::<u64>()).sum());
        }
        ctx.add_states(loc.tuples + loc.nested);
        ctx.add_transitions(loc.evals);
        ctx.add_traces(loc.evals);
        ctx.add_nontrivial(loc.defined);
        ctx.count("defined_evaluations", loc.defined);
        ctx.count("undefined_evaluations", loc.undefined);
        ctx.count("not_judged", loc.skipped);
        ctx.count("nested_expressions", loc.nested);
    });
}

fn one(ctx: &Ctx, w: usize, op: &Op, e: &Expr, ts: &[&Tab], ix: &[usize], loc: &mut Local) {
    loc.tuples += 1;
    let k = ix.len();
    let mut env = None;
    for i in 0..k {
        env = refsem::push(&env, NAMES[i], Bind::Val(ts[i].pts[ix[i]].rv.clone()));
    }
    let want = refsem::eval(e, &env);
    let closed = (op.build)(&(0..k).map(|i| ts[i].pts[ix[i]].e.clone()).collect::<Vec<_>>());
    let key = || format!("{} {closed:?}", op.name);
    ctx.begin(w, key);
    judge(ctx, loc, &key, &want, || eval_plain(&closed, &Scope::Empty), "plain");
    judge(ctx, loc, &key, &want, || eval_loc(&closed, &LocScope::Empty), "located");
    let all: Vec<&Vec<Rep>> = (0..k).map(|i| &ts[i].reps[ix[i]]).collect();
    let widest = all.iter().map(|r| r.len()).max().unwrap_or(0);
    let mut combos: Vec<Vec<usize>> = vec![];
    for r in 0..widest {
        combos.push(all.iter().map(|a| if r < a.len() { r } else { 0 }).collect());
        if r > 0 && k > 1 {
            for i in 0..k {
                if r < all[i].len() {
                    let mut c = vec![0; k];
                    c[i] = r;
                    combos.push(c);
                }
            }
        }
    }
    for c in combos {
        let key = || {
            format!("{} {closed:?} as {:?}", op.name, (0..k).map(|i| all[i][c[i]].kind).collect::<Vec<_>>())
        };
        let root = Scope::Empty;
        let mut ms = MultiScope::with_capacity(&root, k);
        let lroot = LocScope::Empty;
        let mut ls = LocMultiScope::with_capacity(&lroot, k);
        for i in 0..k {
            ms.push(NAMES[i], &all[i][c[i]].val);
            ls.push(NAMES[i], all[i][c[i]].loc.clone());
        }
        judge(ctx, loc, &key, &want, || eval_plain(e, &Scope::Multi(&ms)), "plain");
        judge(ctx, loc, &key, &want, || eval_loc(e, &LocScope::Multi(&ls)), "located");
    }
}
