//! C17: repetition always makes progress.
//! Every enumerated format is placed under unbounded repetition. If any execution of the
//! format succeeds without consuming input, the repetition has to be refused (by the compiler
//! and by the code generator); if the repetition is accepted it has to end on every input,
//! with no more elements than bytes (bits, in bit mode). Formats cannot be defined in terms
//! of themselves, and deep nestings of repetition and choice compile and run within budget.
use crate::analysis::{TOP, clean};
use crate::c01::hex;
use crate::gen_::{G, Gen, any, byte, chains, inputs, long_inputs, stream};
use crate::refsem::{Ref, Win};
use crate::report::{Ctx, Tier, WORKERS, guarded};
use crate::rv::{RV, from_value};
use doodle::decoder::{Compiler, Program, Scope};
use doodle::read::ReadCtxt;
use doodle::{Format, FormatModule, Label};

#[derive(Default)]
struct Local {
    formats: u64,
    witnesses: u64,
    refused: u64,
    accepted: u64,
    runs: u64,
    generated: u64,
    skipped: u64,
}

fn cpu() -> f64 {
    // CPU time of this thread, so that a busy machine is not mistaken for a slow decoder
    let s = std::fs::read_to_string("/proc/thread-self/schedstat").unwrap_or_default();
    s.split_whitespace().next().and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) / 1e9
}

const BUDGET: f64 = 10.0;

fn compile(m: &FormatModule, f: &Format) -> Option<Program> {
    match guarded(|| Compiler::compile_program(m, f)) {
        Ok(Ok(p)) => Some(p),
        _ => None,
    }
}

fn consumed(p: &Program, i: &[u8]) -> Option<(RV, usize)> {
    guarded(|| {
        p.decoders[0].0.parse(p, &Scope::Empty, ReadCtxt::new(i)).ok().map(|x| {
            let (v, r) = x.into_inner();
            (from_value(&v), r.offset)
        })
    })
    .ok()
    .flatten()
}

fn bx<T>(t: T) -> Box<T> {
    Box::new(t)
}

/// number of places where the compiler has to look ahead to decide
fn branching(m: &FormatModule, f: &Format) -> usize {
    match f {
        Format::ItemVar(l, ..) => branching(m, m.get_format(*l)),
        Format::Repeat(a) | Format::Repeat1(a) | Format::RepeatBetween(_, _, a) => 1 + branching(m, a),
        Format::Union(fs) | Format::UnionNondet(fs) => 1 + fs.iter().map(|f| branching(m, f)).sum::<usize>(),
        Format::Tuple(fs) | Format::Sequence(fs) => fs.iter().map(|f| branching(m, f)).sum(),
        Format::Match(_, bs) => bs.len() + bs.iter().map(|(_, f)| branching(m, f)).sum::<usize>(),
        Format::LetFormat(a, _, b) | Format::MonadSeq(a, b) => branching(m, a) + branching(m, b),
        Format::RepeatCount(_, a)
        | Format::RepeatUntilLast(_, a)
        | Format::RepeatUntilSeq(_, a)
        | Format::AccumUntil(_, _, _, _, a)
        | Format::ForEach(_, _, a)
        | Format::Maybe(_, a) => 1 + branching(m, a),
        Format::Variant(_, a)
        | Format::Peek(a)
        | Format::PeekNot(a)
        | Format::Slice(_, a)
        | Format::Bits(a)
        | Format::WithRelativeOffset(_, _, a)
        | Format::Map(a, _)
        | Format::Where(a, _)
        | Format::Let(_, _, a)
        | Format::LetView(_, a)
        | Format::Dynamic(_, _, a)
        | Format::DecodeBytes(_, a)
        | Format::ParseFromView(_, a)
        | Format::Hint(_, a)
        | Format::LiftedOption(Some(a))
        | Format::Permit(a, _) => branching(m, a),
        _ => 0,
    }
}

fn longs(n: usize) -> Vec<Vec<u8>> {
    vec![
        vec![0; n],
        vec![1; n],
        (0..n).map(|i| (i % 2) as u8).collect(),
        (0..n).map(|i| (i % 3) as u8).collect(),
        (0..n).map(|i| (i * 7 + i / 256) as u8).collect(),
    ]
}

pub fn run(ctx: &'static Ctx) {
    let thorough = ctx.tier == Tier::Thorough;
    let mut ins = inputs(&[0, 1, 2], if thorough { 4 } else { 2 });
    ins.extend(long_inputs());
    let long = longs(if thorough { 4096 } else { 512 });
    ctx.note(format!(
        "every format of nesting level <= 2 under Repeat and Repeat1, {} inputs searched for an empty success, {} long inputs through every accepted repetition",
        ins.len(),
        long.len()
    ));
    let (ins, long) = (&ins, &long);
    for (items, gen_level) in [(true, 0usize), (false, 1)] {
        ctx.workers(|w| {
            let mut gen_ = Gen::new();
            gen_.with_items = items;
            let mut loc = Local::default();
            let (level, partners) = match (items, thorough) {
                (true, false) => (2, 2),
                (true, true) => (2, 16),
                _ => (1, 16),
            };
            stream(&mut gen_, level, partners, &mut |g, n, x| {
                if n % WORKERS != w || ctx.too_many() {
                    return;
                }
                ctx.begin(w, || format!("{:?}", x.f));
                one(ctx, g, x, ins, long, gen_level > 0, &mut loc);
            });
            if items {
                chains(&mut gen_, if thorough { 4 } else { 3 }, &mut |g, n, x| {
                    if n % WORKERS != w || ctx.too_many() {
                        return;
                    }
                    ctx.begin(w, || format!("{:?}", x.f));
                    one(ctx, g, x, ins, long, false, &mut loc);
                });
            }
            ctx.end(w);
            ctx.add_states(loc.formats);
            ctx.add_transitions(loc.runs);
            ctx.add_traces(loc.runs);
            ctx.add_nontrivial(loc.witnesses + loc.accepted);
            ctx.count("formats", loc.formats);
            ctx.count("formats_that_can_be_empty", loc.witnesses);
            ctx.count("repetitions_refused", loc.refused);
            ctx.count("repetitions_accepted", loc.accepted);
            ctx.count("formats_not_repeated_lookahead_cost", loc.skipped);
            ctx.count("code_generations", loc.generated);
        });
    }
    nests(ctx, long);
    recursion(ctx);
}

fn one(ctx: &'static Ctx, g: &Gen, x: &G, ins: &[Vec<u8>], long: &[Vec<u8>], generate: bool, loc: &mut Local) {
    let m = &g.module;
    let f = &x.f;
    loc.formats += 1;
    // an execution that succeeds without consuming anything, in the implementation or in the
    // reference semantics
    let p = compile(m, f);
    let r = if clean(m, f, TOP) { Some(Ref::new(m, &g.items)) } else { None };
    let mut empty: Option<&[u8]> = None;
    for i in ins {
        loc.runs += 1;
        let a = p.as_ref().and_then(|p| consumed(p, i)).is_some_and(|x| x.1 == 0);
        let b = r.as_ref().is_some_and(|r| matches!(r.parse(f, &None, Win::new(i)), Ok((_, w, _)) if w.off == 0));
        if a || b {
            empty = Some(i);
            break;
        }
    }
    if empty.is_some() {
        loc.witnesses += 1;
    }
    let reps = [
        ("Repeat", Format::Repeat(bx(f.clone()))),
        ("Repeat1", Format::Repeat1(bx(f.clone()))),
        ("Repeat in Bits", Format::Bits(bx(Format::Repeat(bx(f.clone()))))),
        ("Repeat in a choice", Format::UnionNondet(vec![
            Format::Variant("A".into(), bx(Format::Tuple(vec![Format::Repeat(bx(f.clone())), byte(&[3])]))),
            Format::Variant("B".into(), bx(any())),
        ])),
    ];
    for (k, (name, rep)) in reps.iter().enumerate() {
        if k > 1 && g.level > 1 {
            break;
        }
        if empty.is_none() && branching(m, f) > usize::from(k < 2) {
            // building lookahead across several open-ended parts can take exponential time;
            // nothing here has to be refused
            loc.skipped += 1;
            break;
        }
        let t0 = cpu();
        let c = compile(m, rep);
        let t = cpu() - t0;
        if t > BUDGET {
            ctx.violation(&format!("{name} {f:?}"), &format!("SLOW compiling {name} over {f:?}: {t:.1} s"));
            return;
        }
        match (&c, empty) {
            (Some(_), Some(i)) => {
                ctx.violation(
                    &format!("{name} {f:?}"),
                    &format!("ACCEPTED {name} over {f:?}, which consumes nothing on {}", hex(i)),
                );
                return;
            }
            (None, _) => loc.refused += 1,
            (Some(p), None) => {
                loc.accepted += 1;
                for i in long {
                    loc.runs += 1;
                    let t0 = cpu();
                    let out = consumed(p, i);
                    let t = cpu() - t0;
                    if t > BUDGET {
                        ctx.violation(
                            &format!("{name} {f:?}"),
                            &format!("SLOW {name} over {f:?} took {t:.1} s on {} bytes", i.len()),
                        );
                        return;
                    }
                    if k < 2
                        && let Some((RV::Seq(vs), used)) = out
                        && vs.len() > used
                    {
                        ctx.violation(
                            &format!("{name} {f:?}"),
                            &format!("NO-PROGRESS {name} over {f:?}: {} elements from {used} bytes", vs.len()),
                        );
                        return;
                    }
                }
            }
        }
        if generate && k < 2 && empty.is_some() {
            loc.generated += 1;
            let ok = guarded(|| {
                let _ = doodle::codegen::generate_code(m, rep);
            });
            if ok.is_ok() {
                ctx.violation(
                    &format!("generate {name} {f:?}"),
                    &format!("GENERATED code for {name} over {f:?}, which can be empty"),
                );
                return;
            }
        }
    }
}

/// every nesting of repetition and choice to a depth: compiling and running stay within budget
fn nests(ctx: &'static Ctx, long: &[Vec<u8>]) {
    let depth = if ctx.tier == Tier::Thorough { 5 } else { 4 };
    type Step = fn(Format) -> Format;
    let steps: Vec<Step> = vec![
        |f| Format::Repeat(bx(f)),
        |f| Format::Repeat1(bx(f)),
        |f| Format::RepeatCount(bx(doodle::Expr::U8(2)), bx(f)),
        |f| Format::Tuple(vec![f, byte(&[2])]),
        |f| Format::Tuple(vec![byte(&[1]), f]),
        |f| {
            Format::Union(vec![
                Format::Variant("A".into(), bx(f)),
                Format::Variant("B".into(), bx(byte(&[3]))),
            ])
        },
        |f| {
            Format::UnionNondet(vec![
                Format::Variant("A".into(), bx(Format::Tuple(vec![f.clone(), byte(&[9])]))),
                Format::Variant("B".into(), bx(Format::Tuple(vec![f]))),
            ])
        },
        |f| Format::Bits(bx(f)),
        |f| Format::Slice(bx(doodle::Expr::U8(6)), bx(f)),
    ];
    let n = steps.len().pow(depth as u32);
    let steps = &steps;
    ctx.par(n, |w, mut k| {
        let mut f = byte(&[0]);
        for _ in 0..depth {
            f = steps[k % steps.len()](f);
            k /= steps.len();
        }
        ctx.begin(w, || format!("{f:?}"));
        let m = FormatModule::new();
        let t0 = cpu();
        let p = compile(&m, &f);
        let t = cpu() - t0;
        if t > BUDGET {
            ctx.violation(&format!("compile {f:?}"), &format!("SLOW compiling {f:?}: {t:.1} s"));
        }
        ctx.add_states(1);
        ctx.count("nestings", 1);
        if let Some(p) = p {
            ctx.count("nestings_compiled", 1);
            for i in long {
                let t0 = cpu();
                let _ = consumed(&p, i);
                let t = cpu() - t0;
                ctx.add_transitions(1);
                if t > BUDGET {
                    ctx.violation(&format!("run {f:?}"), &format!("SLOW {f:?}: {t:.1} s on {} bytes", i.len()));
                }
            }
        }
        ctx.end(w);
    });
}

/// a format cannot refer to itself or to a later format
fn recursion(ctx: &'static Ctx) {
    let wraps: Vec<(&str, fn(Format) -> Format)> = vec![
        ("bare", |f| f),
        ("after a byte", |f| Format::Tuple(vec![any(), f])),
        ("in a choice", |f| {
            Format::Union(vec![Format::Variant("A".into(), bx(f)), Format::Variant("B".into(), bx(byte(&[2])))])
        }),
        ("repeated", |f| Format::Repeat(bx(f))),
        ("peeked", |f| Format::Peek(bx(f))),
        ("phantom", |f| Format::Phantom(bx(f))),
    ];
    for before in 0..3usize {
        for ahead in 0..3usize {
            for (name, wrap) in &wraps {
                ctx.add_states(1);
                ctx.add_transitions(1);
                let r = guarded(|| {
                    let mut m = FormatModule::new();
                    for i in 0..before {
                        m.define_format(Label::Owned(format!("f{i}")), any());
                    }
                    m.define_format("self", wrap(Format::ItemVar(before + ahead, vec![], vec![])));
                });
                if r.is_ok() && *name != "phantom" {
                    ctx.violation(
                        &format!("recursion {name} {before} {ahead}"),
                        &format!("ACCEPTED definition {before} refers to format {} ({name})", before + ahead),
                    );
                }
            }
        }
    }
}
