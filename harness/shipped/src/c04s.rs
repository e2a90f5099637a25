//! C04 over the shipped formats: the decoder generated from the current definitions by the
//! current generator, compiled afresh, against the interpreter.
use crate::damage::{Damage, Set, apply, seeds};
use std::rc::Rc;
use std::sync::Mutex;
use vcore::c04::{Builder, Case, Exp, Local, generate, run_interp};
use vcore::report::{Ctx, Tier};

pub fn run(ctx: &'static Ctx) {
    vcore::c04::run(ctx);
    let thorough = ctx.tier == Tier::Thorough;
    let mut ins: Vec<Vec<u8>> = vec![];
    for s in seeds() {
        let n = s.data.len();
        let mut ds = vec![Damage::None];
        if n <= if thorough { 2000 } else { 300 } {
            ds.extend((0..n).map(Damage::Cut));
        }
        if n <= if thorough { 700 } else { 120 } {
            for i in 0..n {
                ds.push(Damage::Set(i, s.data[i] ^ 1));
                ds.push(Damage::Set(i, 0xff));
                ds.push(Damage::Delete(i));
            }
        }
        ins.extend(ds.into_iter().filter_map(|d| apply(&s.data, d)));
    }
    let ins: &'static Vec<Vec<u8>> = Box::leak(Box::new(ins));
    let exp: Mutex<Vec<(usize, Exp)>> = Mutex::new(vec![]);
    ctx.par_with(ins.len(), Set::new, |set, w, n| {
        let Some(p) = set.get("main") else { return };
        ctx.begin(w, || format!("main {}", vcore::c01::hex(&ins[n])));
        let e = run_interp(&p.program, &ins[n]);
        ctx.end(w);
        exp.lock().unwrap().push((n, e));
    });
    let mut exp = exp.into_inner().unwrap();
    exp.sort_by_key(|x| x.0);
    let (m, main) = crate::eng::module();
    if exp.len() != ins.len() {
        ctx.violation("shipped", "the choice of all shipped formats cannot be compiled");
        return;
    }
    let code = match generate(&m, &main) {
        Ok(c) => c,
        Err(e) => {
            ctx.violation("generate shipped formats", &format!("code generation fails for the shipped formats: {e}"));
            return;
        }
    };
    let mut loc = Local::default();
    let b = Builder::new("shipped");
    let case = Case { desc: "shipped formats".into(), code, ins: Rc::new(ins.clone()), exp: exp.into_iter().map(|x| x.1).collect(), judge_compile: true };
    b.batch(ctx, 0, vec![case], &mut loc);
    ctx.add_states(ins.len() as u64);
    ctx.add_transitions(loc.runs);
    ctx.add_traces(loc.runs);
    ctx.add_nontrivial(loc.accepted);
    ctx.count("shipped_inputs", ins.len() as u64);
    ctx.count("shipped_accepted", loc.accepted);
    ctx.count("shipped_undefined", loc.undefined);
}
