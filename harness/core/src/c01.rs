//! C01: on every format the enumeration builds and every input up to a length, the
//! interpreter accepts exactly what the combinators mean, with the same value, the same
//! remaining input and the same number of tolerated faults.
use crate::analysis::{TOP, clean};
use crate::gen_::{Gen, G, chains, inputs, long_inputs, stream};
use crate::refsem::{E, Ref, Win};
use crate::report::{Ctx, Tier, WORKERS, guarded};
use crate::rv::{RV, from_value};
use doodle::decoder::{Compiler, Program, Scope};
use doodle::read::ReadCtxt;
use std::collections::HashMap;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join("")
}

#[derive(Debug, PartialEq)]
pub enum Out {
    Ok(RV, usize, usize),
    Fail,
}

pub fn run_impl(p: &Program, input: &[u8]) -> Out {
    match p.decoders[0].0.parse(p, &Scope::Empty, ReadCtxt::new(input)) {
        Ok(x) => {
            let n = x.iter_errs().count();
            let (v, r) = x.into_inner();
            Out::Ok(from_value(&v), r.offset, n)
        }
        Err(_) => Out::Fail,
    }
}

pub fn run_ref(r: &Ref, f: &doodle::Format, input: &[u8]) -> Result<Out, &'static str> {
    match r.parse(f, &None, Win::new(input)) {
        Ok((v, w, n)) => Ok(Out::Ok(v, w.off, n)),
        Err(E::Fail) => Ok(Out::Fail),
        Err(E::Stuck(s)) => Err(s),
    }
}

#[derive(Default)]
struct Local {
    formats: u64,
    clean: u64,
    refused: u64,
    runs: u64,
    accepted: u64,
    stuck: u64,
    other: HashMap<&'static str, u64>,
}

pub struct Bounds {
    pub level: usize,
    pub partners: usize,
    pub alphabet: Vec<u8>,
    pub len: usize,
    /// length bound for the wide alphabet on formats of level <= 1
    pub wide: usize,
    pub chain: usize,
}

pub fn bounds(t: Tier) -> Bounds {
    match t {
        Tier::Quick => Bounds { level: 2, partners: 4, alphabet: vec![0, 1, 2], len: 4, wide: 4, chain: 4 },
        Tier::Thorough => Bounds { level: 2, partners: 16, alphabet: vec![0, 1, 2, 0xff], len: 5, wide: 5, chain: 5 },
    }
}

pub fn run(ctx: &Ctx) {
    let b = bounds(ctx.tier);
    let mut ins = inputs(&b.alphabet, b.len);
    ins.extend(long_inputs());
    let mut wide = inputs(&[0, 1, 2, 3, 0x7f, 0x80, 0xff], b.wide);
    wide.extend(long_inputs());
    let mut few = inputs(&[0, 1, 2], 3);
    few.extend(long_inputs());
    ctx.note(format!(
        "every format of nesting level <= {} over {} atoms x {} inputs ({:?} up to length {}, and longer runs); level <= 1 x {} inputs; every chain of {} wrappers over 6 seeds x {} inputs; interpreter vs reference semantics",
        b.level, crate::gen_::atoms().len(), ins.len(), b.alphabet, b.len, wide.len(), b.chain, few.len()
    ));
    ctx.workers(|w| {
        let mut gen_ = Gen::new();
        let mut loc = Local::default();
        stream(&mut gen_, b.level, b.partners, &mut |gen_, n, x| {
            if n % WORKERS != w || ctx.too_many() {
                return;
            }
            ctx.begin(w, || format!("{:?}", x.f));
            one(ctx, gen_, x, if gen_.level < 2 { &wide } else { &ins }, &mut loc, n);
        });
        chains(&mut gen_, b.chain, &mut |gen_, n, x| {
            if n % WORKERS != w || ctx.too_many() {
                return;
            }
            ctx.begin(w, || format!("{:?}", x.f));
            one(ctx, gen_, x, &few, &mut loc, n);
        });
        ctx.end(w);
        if w == 0 {
            for (f, e) in &gen_.refused {
                ctx.violation(&format!("define {f}"), &format!("well-typed definition refused: {f}: {e}"));
            }
        }
        ctx.add_states(loc.formats);
        ctx.add_transitions(loc.runs);
        ctx.add_traces(loc.runs);
        ctx.add_nontrivial(loc.accepted);
        ctx.count("formats_compared", loc.clean);
        ctx.count("formats_refused_by_compiler", loc.refused);
        ctx.count("accepted_runs", loc.accepted);
        ctx.count("runs_without_defined_meaning", loc.stuck);
        for (k, v) in loc.other {
            ctx.count(k, v);
        }
    });
}

fn one(ctx: &Ctx, gen_: &Gen, x: &G, ins: &[Vec<u8>], loc: &mut Local, n: usize) {
    loc.formats += 1;
    if !clean(&gen_.module, &x.f, TOP) {
        *loc.other.entry("formats_outside_one_byte_lookahead").or_default() += 1;
        return;
    }
    loc.clean += 1;
    let p = match guarded(|| Compiler::compile_program(&gen_.module, &x.f).map_err(|e| format!("{e}"))) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => {
            if crate::analysis::may_refuse(&gen_.module, &x.f) {
                loc.refused += 1;
                return;
            }
            ctx.violation(
                &format!("compile {:?}", x.f),
                &format!("MUSTCOMPILE refused: {:?}\n  type {:?}\n  error: {e}", x.f, x.ty),
            );
            return;
        }
        Err(e) => {
            ctx.violation(
                &format!("compile {:?}", x.f),
                &format!("PANIC compiling {:?}\n  {e}", x.f),
            );
            return;
        }
    };
    let r = Ref::new(&gen_.module, &gen_.items);
    for i in ins {
        let want = match run_ref(&r, &x.f, i) {
            Ok(o) => o,
            Err(_) => {
                loc.stuck += 1;
                continue;
            }
        };
        loc.runs += 1;
        match guarded(|| run_impl(&p, i)) {
            Ok(got) => {
                if got != want {
                    ctx.violation(
                        &format!("{:?} on {}", x.f, hex(i)),
                        &format!("DIFF format {:?}\n  input {}\n  interpreter {}\n  reference   {}", x.f, hex(i), show(&got), show(&want)),
                    );
                    return;
                }
                if let Out::Ok(..) = got {
                    loc.accepted += 1;
                    if n % 60013 == 17 {
                        ctx.sample(|| format!("{:?} on {} -> {}", x.f, hex(i), show(&got)));
                    }
                }
            }
            Err(e) => {
                ctx.violation(
                    &format!("{:?} on {}", x.f, hex(i)),
                    &format!("PANIC {e}\n  format {:?}\n  input {}\n  reference {}", x.f, hex(i), show(&want)),
                );
                return;
            }
        }
    }
}

pub fn show(o: &Out) -> String {
    match o {
        Out::Ok(v, off, n) => format!("value {v}, consumed {off}, {n} warnings"),
        Out::Fail => "rejects".into(),
    }
}
