//! C13 over the shipped formats: both checkers agree on the type of every definition, and what the
//! interpreter decodes from the seed files and their damaged variants inhabits the inferred type.
use crate::damage::{Damage, apply, damages, seeds};
use crate::eng;
use doodle::decoder::{Compiler, Program};
use doodle::read::ReadCtxt;
use doodle::{Format, FormatModule, ValueType};
use std::collections::HashMap;
use vcore::c13::{inhabits, widened};
use vcore::report::{Ctx, Tier, guarded};
use vcore::rv::from_value;

struct Set {
    m: FormatModule,
    progs: HashMap<String, Option<(Program, ValueType)>>,
}

fn level(m: &FormatModule, label: &str) -> Option<usize> {
    let name = if label == "main" { "main" } else { eng::NAMES.iter().find(|x| x.0 == label)?.1 };
    m.iter_formats().find(|(l, _)| m.get_name(*l) == name).map(|x| x.0)
}

impl Set {
    fn new() -> Set {
        Set { m: eng::module().0, progs: HashMap::new() }
    }
    fn get(&mut self, label: &str) -> Option<&(Program, ValueType)> {
        if !self.progs.contains_key(label) {
            let p = level(&self.m, label).and_then(|l| {
                let f = Format::ItemVar(l, vec![], vec![]);
                let p = guarded(|| Compiler::compile_program(&self.m, &f)).ok()?.ok()?;
                Some((p, self.m.get_format_type(l).clone()))
            });
            self.progs.insert(label.to_string(), p);
        }
        self.progs[label].as_ref()
    }
}

pub fn run(ctx: &'static Ctx) {
    vcore::c13::run(ctx);
    let thorough = ctx.tier == Tier::Thorough;
    let n = eng::module().0.iter_formats().count();
    ctx.par_with(n, || eng::module().0, |m, w, i| {
        let Some((l, f)) = m.iter_formats().nth(i) else { return };
        let name = m.get_name(l).to_string();
        ctx.begin(w, || format!("type of {name}"));
        let t = m.get_format_type(l).clone();
        match guarded(|| doodle::typecheck(m, &f)) {
            Ok(Ok(u)) => {
                if let Some(u) = u {
                    if !widened(&t, &u) {
                        ctx.violation(&format!("shipped {name}"), &format!("THE CHECKERS INFER DIFFERENT TYPES for {name}\n  plain {t:?}\n  unifying {u:?}"));
                    }
                }
            }
            Ok(Err(e)) => ctx.violation(&format!("shipped {name}"), &format!("THE UNIFYING CHECKER REFUSES the shipped definition {name}: {e}")),
            Err(e) => ctx.violation(&format!("shipped {name}"), &format!("THE UNIFYING CHECKER PANICS on the shipped definition {name}: {e}")),
        }
        ctx.end(w);
        ctx.add_states(1);
    });
    let mut jobs: Vec<(String, String, Vec<u8>)> = vec![];
    for s in seeds() {
        let n = s.data.len();
        let mut ds = vec![Damage::None];
        if n <= if thorough { 4000 } else { 400 } {
            ds = damages(&s.data, thorough as usize);
        }
        for d in ds {
            if let Some(v) = apply(&s.data, d) {
                if d == Damage::None {
                    jobs.push(("main".into(), format!("{} {d:?}", s.name), v.clone()));
                }
                jobs.push((s.label.clone(), format!("{} {d:?}", s.name), v));
            }
        }
    }
    let jobs = &jobs;
    ctx.par_with(jobs.len(), Set::new, |set, w, i| {
        let (label, what, data) = &jobs[i];
        let Some((p, t)) = set.get(label) else { return };
        ctx.begin(w, || format!("{label} {what} {}", vcore::c01::hex(data)));
        let r = guarded(|| p.run(ReadCtxt::new(data)).ok().map(|x| from_value(&x.0)));
        if let Ok(Some(v)) = r {
            ctx.count("shipped_values", 1);
            if !inhabits(&v, t) {
                ctx.violation(&format!("shipped value {label}"), &format!("A VALUE OF {label} IS NOT OF ITS TYPE ({what})\n  input {}", vcore::c01::hex(data)));
            }
            ctx.add_nontrivial(1);
        }
        ctx.end(w);
        ctx.add_states(1);
        ctx.add_transitions(1);
    });
}
