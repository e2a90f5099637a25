//! C10: static bounds contain every execution.
//! (a) interval arithmetic: every operation on every interval of a small range and on every
//!     interval between machine-word boundary values, against every pair of members;
//! (b) expression bounds: every integer expression up to a depth over boundary constants and
//!     unknowns, against the value the interpreter computes for every assignment;
//! (c) format bounds: every enumerated format, against the bytes consumed by every parse of
//!     every input, and the furthest byte read (reading through views aside), for both the
//!     compiler's and the code generator's analysis.
use doodle::bounds::Bounds;
use doodle::decoder::{Compiler, Scope, Value};
use doodle::read::ReadCtxt;
use doodle::{Arith, Expr, UnaryOp};
use vcore::analysis::{TOP, clean};
use vcore::exprs::{bo, lit};
use vcore::gen_::{G, Gen, chains, inputs, long_inputs, stream};
use vcore::refsem::{Bind, E, Ref, Win, eval, push};
use vcore::report::{Ctx, Tier, WORKERS, guarded};
use vcore::rv::RV;

pub fn run(ctx: &'static Ctx) {
    ctx.note("interval arithmetic on all intervals of a small range and of boundary values; expression bounds against every assignment; format bounds against consumption and reach of every parse");
    intervals(ctx);
    exprs(ctx);
    formats(ctx);
}

// ---------------------------------------------------------------- (a) intervals

fn members(b: &Bounds, pool: &[usize]) -> Vec<usize> {
    pool.iter().copied().filter(|x| b.contains(*x)).collect()
}

type Conc = fn(usize, usize) -> Option<usize>;
type Abst = fn(Bounds, Bounds) -> Bounds;

fn intervals(ctx: &'static Ctx) {
    let n = if ctx.tier == Tier::Quick { 15 } else { 40 };
    let small: Vec<usize> = (0..=n).collect();
    let mut big: Vec<usize> = vec![0, 1, 2, 3, 7, 8, 63, 64, 65, 127, 128, 255, 256, 65535, 65536];
    big.extend([
        1 << 31,
        (1 << 32) - 1,
        1 << 32,
        (1 << 62) + 1,
        (1 << 63) - 1,
        1 << 63,
        (1 << 63) + 1,
    ]);
    big.extend([usize::MAX - 255, usize::MAX - 1, usize::MAX]);
    let ops: Vec<(&str, Abst, Conc)> = vec![
        ("+", |a, b| a + b, |x, y| x.checked_add(y)),
        ("-", |a, b| a - b, |x, y| x.checked_sub(y)),
        ("*", |a, b| a * b, |x, y| x.checked_mul(y)),
        ("/", |a, b| a / b, |x, y| x.checked_div(y)),
        ("|", |a, b| a | b, |x, y| Some(x | y)),
        ("&", |a, b| a & b, |x, y| Some(x & y)),
        (
            "<<",
            |a, b| a << b,
            |x, y| {
                let s = u32::try_from(y).ok().filter(|s| *s < 64)?;
                let r = (x as u128) << s;
                usize::try_from(r).ok()
            },
        ),
        (
            ">>",
            |a, b| a >> b,
            |x, y| u32::try_from(y).ok().and_then(|s| x.checked_shr(s)),
        ),
    ];
    for (name, pool, vals) in [("small", &small, &small), ("boundary", &big, &big)] {
        let mut all: Vec<Bounds> = vec![];
        for (i, a) in pool.iter().enumerate() {
            for b in &pool[i..] {
                all.push(Bounds::new(*a, *b));
            }
            all.push(Bounds::at_least(*a));
        }
        let all = &all;
        let ops = &ops;
        let mems: Vec<Vec<usize>> = all.iter().map(|b| members(b, vals)).collect();
        let mems = &mems;
        ctx.count("intervals", all.len() as u64);
        ctx.par(all.len(), |w, i| {
            let a = all[i];
            let mut n = 0u64;
            for (j, b) in all.iter().enumerate() {
                for (op, abs, conc) in ops {
                    let what = format_args!("{a} {op} {b}").to_string();
                    ctx.begin(w, || what.clone());
                    let r = match guarded(|| abs(a, *b)) {
                        Ok(r) => r,
                        Err(e) => {
                            ctx.violation(&format!("interval {op} panic"), &format!("PANIC {name}: {what}: {e}"));
                            continue;
                        }
                    };
                    'p: for x in &mems[i] {
                        for y in &mems[j] {
                            n += 1;
                            if let Some(z) = conc(*x, *y)
                                && !r.contains(z)
                            {
                                ctx.violation(
                                    &format!("interval {op}"),
                                    &format!("UNSOUND {what} = {r} misses {x} {op} {y} = {z}"),
                                );
                                break 'p;
                            }
                        }
                    }
                }
                // union covers both, clamp is the intersection
                let u = Bounds::union(a, *b);
                for x in mems[i].iter().chain(&mems[j]) {
                    if !u.contains(*x) {
                        ctx.violation("interval union", &format!("UNSOUND union {a} {b} = {u} misses {x}"));
                    }
                }
                if let Some(hi) = b.max() {
                    let c = a.clamp(b.min(), hi);
                    for x in vals {
                        let want = a.contains(*x) && b.contains(*x);
                        if c.is_some_and(|c| c.contains(*x)) != want {
                            ctx.violation("interval clamp", &format!("WRONG clamp {a} to {b} = {c:?} on {x}"));
                        }
                    }
                }
            }
            let k = a.bits_to_bytes();
            for x in &mems[i] {
                if !k.contains(x.div_ceil(8)) {
                    ctx.violation(
                        "interval bits_to_bytes",
                        &format!("UNSOUND bits_to_bytes {a} = {k} misses {x} bits"),
                    );
                }
            }
            if a.as_exact() != (if a.max() == Some(a.min()) { a.max() } else { None }) {
                ctx.violation("interval as_exact", &format!("WRONG as_exact {a}"));
            }
            ctx.end(w);
            ctx.add_transitions(n);
            ctx.add_states(all.len() as u64 * 8);
        });
    }
}

// ---------------------------------------------------------------- (b) expressions

fn pool(w: u8) -> Vec<u64> {
    let max = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let mut v = vec![0, 1, 2, 3, 6, (w - 1) as u64, w as u64, max / 2, max / 2 + 1, max];
    v.dedup();
    v
}

fn var(w: u8, k: usize) -> (&'static str, Expr) {
    let n: &'static str = match (w, k) {
        (8, 0) => "x8",
        (8, _) => "y8",
        (16, 0) => "x16",
        (16, _) => "y16",
        (32, 0) => "x32",
        (32, _) => "y32",
        (_, 0) => "x64",
        _ => "y64",
    };
    (n, Expr::Var(n.into()))
}

const OPS: [Arith; 9] = [
    Arith::Add,
    Arith::Sub,
    Arith::Mul,
    Arith::Div,
    Arith::Rem,
    Arith::BitAnd,
    Arith::BitOr,
    Arith::Shl,
    Arith::Shr,
];

fn ar(a: Arith, x: &Expr, y: &Expr) -> Expr {
    Expr::Arith(a, bo(x.clone()), bo(y.clone()))
}
fn cast(w: u8, e: Expr) -> Expr {
    match w {
        8 => Expr::AsU8(bo(e)),
        16 => Expr::AsU16(bo(e)),
        32 => Expr::AsU32(bo(e)),
        _ => Expr::AsU64(bo(e)),
    }
}

/// leaves and interval-valued small expressions of width `w`
fn basis(w: u8, thorough: bool) -> (Vec<Expr>, Vec<Expr>) {
    let mut leaves: Vec<Expr> = pool(w).into_iter().map(|n| lit(w, n)).collect();
    leaves.push(var(w, 0).1);
    let x = var(w, 0).1;
    let y = var(w, 1).1;
    let mut iv = vec![];
    let ks: &[u64] = if thorough {
        &[0, 1, 2, 3, 5, 6, 7, 12, 100, 128, 255]
    } else {
        &[0, 1, 3, 6, 12, 255]
    };
    for k in ks {
        for v in [&x, &y] {
            iv.push(ar(Arith::BitAnd, v, &lit(w, *k)));
            iv.push(ar(Arith::BitOr, v, &lit(w, *k)));
            iv.push(ar(Arith::Rem, v, &lit(w, *k)));
        }
        iv.push(ar(Arith::Add, &cast(w, ar(Arith::BitAnd, &x, &lit(w, 3))), &lit(w, *k)));
        iv.push(ar(Arith::Sub, &lit(w, *k), &ar(Arith::BitAnd, &y, &lit(w, 3))));
    }
    for o in [8u8, 16, 32, 64] {
        if o != w {
            iv.push(cast(w, var(o, 0).1));
            iv.push(cast(w, ar(Arith::Sub, &var(o, 1).1, &lit(o, 1))));
            iv.push(cast(w, ar(Arith::Shl, &var(o, 1).1, &lit(o, 3))));
        } else {
            iv.push(cast(w, x.clone()));
            iv.push(y.clone());
        }
    }
    for u in [UnaryOp::IntPred, UnaryOp::IntSucc] {
        iv.push(Expr::Unary(u, bo(x.clone())));
        iv.push(Expr::Unary(u, bo(ar(Arith::BitAnd, &y, &lit(w, 7)))));
    }
    iv.push(Expr::SeqLength(bo(Expr::Seq(vec![lit(8, 1)]))));
    if w != 32 {
        iv.pop();
    }
    (leaves, iv)
}

fn vars_of(e: &Expr, out: &mut Vec<&'static str>) {
    match e {
        Expr::Var(n) => {
            for k in ["x8", "y8", "x16", "y16", "x32", "y32", "x64", "y64"] {
                if n == k && !out.contains(&k) {
                    out.push(k);
                }
            }
        }
        Expr::Arith(_, a, b) => {
            vars_of(a, out);
            vars_of(b, out);
        }
        Expr::Unary(_, a) | Expr::AsU8(a) | Expr::AsU16(a) | Expr::AsU32(a) | Expr::AsU64(a) => vars_of(a, out),
        _ => {}
    }
}

fn width(n: &str) -> u8 {
    n[1..].parse().unwrap()
}

fn val(w: u8, n: u64) -> Value {
    match w {
        8 => Value::U8(n as u8),
        16 => Value::U16(n as u16),
        32 => Value::U32(n as u32),
        _ => Value::U64(n),
    }
}

fn as_num(v: &Value) -> Option<u64> {
    Some(match v {
        Value::U8(n) => *n as u64,
        Value::U16(n) => *n as u64,
        Value::U32(n) => *n as u64,
        Value::U64(n) => *n,
        _ => return None,
    })
}

fn check_expr(ctx: &'static Ctx, e: &Expr, full: bool, n: &mut [u64; 3]) {
    n[0] += 1;
    let b = match guarded(|| doodle::verif_hooks::expr_bounds(e)) {
        Ok(b) => b,
        Err(m) => {
            ctx.violation(&format!("expr {e:?}"), &format!("PANIC in bounds of {e:?}: {m}"));
            return;
        }
    };
    if b == Bounds::any() {
        return;
    }
    let mut vs = vec![];
    vars_of(e, &mut vs);
    let choices: Vec<Vec<u64>> = vs
        .iter()
        .map(|v| {
            let w = width(v);
            if full {
                let mut p = pool(w);
                if w == 8 {
                    p = (0..=255).collect();
                } else {
                    p.extend([4, 5, 7, 8, 9, 12, 13, 96, 100, 127, 128, 200, 255, 256, 300]);
                    p.retain(|x| w == 64 || *x < (1 << w));
                }
                p
            } else {
                pool(w)
            }
        })
        .collect();
    let total: usize = choices.iter().map(|c| c.len()).product();
    for mut k in 0..total {
        let mut env = None;
        let mut binds: Vec<(&'static str, u64)> = vec![];
        for (v, c) in vs.iter().zip(&choices) {
            let x = c[k % c.len()];
            k /= c.len();
            env = push(&env, v, Bind::Val(RV::Int(width(v), x as i128)));
            binds.push((v, x));
        }
        // the reference decides whether the expression has a value here
        if eval(e, &env).is_err() {
            n[2] += 1;
            continue;
        }
        n[1] += 1;
        let got = guarded(|| {
            fn go(e: &Expr, binds: &[(&'static str, u64)], scope: &Scope<'_>) -> Value {
                match binds.split_first() {
                    None => e.eval_value(scope),
                    Some(((n, x), rest)) => {
                        let v = val(width(n), *x);
                        let s = Scope::Single(doodle::decoder::SingleScope::new(scope, n, &v));
                        go(e, rest, &s)
                    }
                }
            }
            go(e, &binds, &Scope::Empty)
        });
        if let Ok(v) = got
            && let Some(x) = as_num(&v)
            && !b.contains(x as usize)
        {
            ctx.violation(
                &format!("expr {e:?}"),
                &format!("UNSOUND bounds {b} of {e:?} miss {x} (at {binds:?})"),
            );
            return;
        }
    }
}

fn exprs(ctx: &'static Ctx) {
    let thorough = ctx.tier == Tier::Thorough;
    ctx.workers(|wk| {
        let mut jobs: Vec<(u8, Expr)> = vec![];
        let mut inner: Vec<(u8, Vec<Expr>, Vec<Expr>)> = vec![];
        for w in [8u8, 16, 32, 64] {
            let (l, iv) = basis(w, thorough);
            for e in l.iter().chain(&iv) {
                jobs.push((w, e.clone()));
            }
            inner.push((w, l, iv));
        }
        for (i, (w, a)) in jobs.iter().enumerate() {
            if i % WORKERS != wk || ctx.too_many() {
                continue;
            }
            let (_, l, iv) = inner.iter().find(|x| x.0 == *w).unwrap();
            let mut n = [0u64; 3];
            ctx.begin(wk, || format!("{a:?}"));
            check_expr(ctx, a, true, &mut n);
            // one operation over the basis
            let mut mid = vec![];
            for o in OPS {
                for b in l.iter().chain(iv) {
                    ctx.begin(wk, || format!("{a:?} {o:?} {b:?}"));
                    let e = ar(o, a, b);
                    check_expr(ctx, &e, true, &mut n);
                    mid.push(e);
                }
            }
            for u in [UnaryOp::IntPred, UnaryOp::IntSucc] {
                let e = Expr::Unary(u, bo(a.clone()));
                check_expr(ctx, &e, true, &mut n);
                mid.push(e);
            }
            for c in [8u8, 16, 32, 64] {
                check_expr(ctx, &cast(c, a.clone()), true, &mut n);
            }
            // and one more over every result
            for m in &mid {
                ctx.begin(wk, || format!("{m:?}"));
                for c in [8u8, 16, 32, 64] {
                    check_expr(ctx, &cast(c, m.clone()), false, &mut n);
                }
                let ks: Vec<Expr> = if thorough {
                    l.clone()
                } else {
                    [1, 3, *w as u64 - 1].map(|k| lit(*w, k)).to_vec()
                };
                for o in OPS {
                    for k in &ks {
                        check_expr(ctx, &ar(o, m, k), false, &mut n);
                        check_expr(ctx, &ar(o, k, m), false, &mut n);
                    }
                }
            }
            ctx.end(wk);
            ctx.add_states(n[0]);
            ctx.add_transitions(n[1]);
            ctx.add_traces(n[1]);
            ctx.count("expressions", n[0]);
            ctx.count("evaluations", n[1]);
            ctx.count("evaluations_without_value", n[2]);
        }
    });
}

// ---------------------------------------------------------------- (c) formats

#[derive(Default)]
struct Local {
    formats: u64,
    typed: bool,
    elaborated: u64,
    untyped: u64,
    runs: u64,
    accepted: u64,
    refused: u64,
    nontrivial: u64,
}

fn formats(ctx: &'static Ctx) {
    let (level, partners, chain, len) = match ctx.tier {
        Tier::Quick => (2, 4, 3, 3),
        Tier::Thorough => (2, 16, 4, 5),
    };
    let mut ins = inputs(&[0, 1, 2], len);
    ins.extend(long_inputs());
    let ins = &ins;
    // the code generator's analysis covers the whole module each time: named formats are
    // only combined with it at the first level
    for (items, level, partners, chain, typed) in [
        (true, level, partners, chain, false),
        (false, level, partners, chain, true),
        (true, 1, partners, 0, true),
    ] {
        ctx.workers(|w| {
            let mut gen_ = Gen::new();
            gen_.with_items = items;
            let mut loc = Local {
                typed,
                ..Local::default()
            };
            stream(&mut gen_, level, partners, &mut |g, n, x| {
                if n % WORKERS != w || ctx.too_many() {
                    return;
                }
                ctx.begin(w, || format!("{:?}", x.f));
                one(ctx, g, x, ins, &mut loc);
            });
            if chain > 0 {
                chains(&mut gen_, chain, &mut |g, n, x| {
                    if n % WORKERS != w || ctx.too_many() {
                        return;
                    }
                    ctx.begin(w, || format!("{:?}", x.f));
                    one(ctx, g, x, ins, &mut loc);
                });
            }
            ctx.end(w);
            ctx.add_states(loc.formats);
            ctx.add_transitions(loc.runs);
            ctx.add_traces(loc.runs);
            ctx.add_nontrivial(loc.nontrivial);
            ctx.count("formats", loc.formats);
            ctx.count("formats_refused", loc.refused);
            ctx.count("formats_elaborated", loc.elaborated);
            ctx.count("formats_not_elaborated", loc.untyped);
            ctx.count("accepted_runs", loc.accepted);
        });
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn one(ctx: &'static Ctx, g: &Gen, x: &G, ins: &[Vec<u8>], loc: &mut Local) {
    loc.formats += 1;
    let m = &g.module;
    let f = &x.f;
    let mut claims: Vec<(&str, Bounds, Bounds)> = vec![];
    match guarded(|| {
        (
            doodle::verif_hooks::match_bounds(m, f),
            doodle::verif_hooks::lookahead_bounds(m, f),
        )
    }) {
        Ok((a, b)) => claims.push(("compiler", a, b)),
        Err(e) => {
            ctx.violation(&format!("format {f:?}"), &format!("PANIC in bounds of {f:?}: {e}"));
            return;
        }
    }
    if loc.typed {
        match guarded(|| doodle::codegen::verif_hooks::typed_bounds(m, f)) {
            Ok(Ok((a, b))) => {
                claims.push(("code generator", a, b));
                loc.elaborated += 1;
            }
            _ => loc.untyped += 1,
        }
    }
    let p = match guarded(|| Compiler::compile_program(m, f)) {
        Ok(Ok(p)) => Some(p),
        _ => {
            loc.refused += 1;
            None
        }
    };
    let is_clean = clean(m, f, TOP);
    if p.is_none() && !is_clean {
        return;
    }
    if claims.iter().any(|c| c.1 != Bounds::any() || c.2 != Bounds::any()) {
        loc.nontrivial += 1;
    }
    let r = Ref::new(m, &g.items);
    for i in ins {
        loc.runs += 1;
        let mut used = vec![];
        if is_clean {
            r.reach.set(0);
            match r.parse(f, &None, Win::new(i)) {
                Ok((_, w, _)) => used.push(w.off),
                Err(E::Fail) => {}
                Err(E::Stuck(_)) => continue,
            }
            let reach = r.reach.get();
            for (who, _, look) in &claims {
                if look.max().is_some_and(|mx| mx < reach) {
                    ctx.violation(
                        &format!("format {f:?}"),
                        &format!(
                            "UNSOUND lookahead bounds {look} ({who}) of {f:?}: reads {reach} bytes on {}",
                            hex(i)
                        ),
                    );
                    return;
                }
            }
        }
        if let Some(p) = &p
            && let Ok(Ok(n)) = guarded(|| {
                p.decoders[0]
                    .0
                    .parse(p, &Scope::Empty, ReadCtxt::new(i))
                    .map(|o| o.into_inner().1.offset)
            })
        {
            used.push(n);
            loc.accepted += 1;
        }
        for u in used {
            for (who, mb, _) in &claims {
                if !mb.contains(u) {
                    ctx.violation(
                        &format!("format {f:?}"),
                        &format!(
                            "UNSOUND match bounds {mb} ({who}) of {f:?}: consumes {u} bytes of {}",
                            hex(i)
                        ),
                    );
                    return;
                }
            }
        }
    }
}
