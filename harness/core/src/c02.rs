//! C02: formats made of bytes, sequencing, alternation and repetition. When the compiler takes
//! one, whole-input acceptance is membership in its regular language, the parse tree spells the
//! input, and no input has two derivations.
use crate::c01::hex;
use crate::gen_::{byte, inputs};
use crate::report::{Ctx, Tier, WORKERS, guarded};
use crate::rv::{RV, from_value};
use doodle::byte_set::ByteSet;
use doodle::decoder::{Compiler, Scope};
use doodle::read::ReadCtxt;
use doodle::{Expr, Format, FormatModule, Label, Pattern};
use doodle::helper::where_lambda;

fn konst(e: &Expr) -> usize {
    match e {
        Expr::U8(n) => *n as usize,
        Expr::U32(n) => *n as usize,
        _ => unreachable!(),
    }
}

/// ways[j] = number of derivations (capped) of input[i..j] from f
pub struct Lang<'a> {
    pub module: &'a FormatModule,
}
type Ways = Vec<u32>;
const CAP: u32 = 1000;

impl Lang<'_> {
    fn seq(&self, a: &Ways, f: impl Fn(usize) -> Ways) -> Ways {
        let mut out = vec![0; a.len()];
        for (m, &c) in a.iter().enumerate() {
            if c > 0 {
                for (j, d) in f(m).into_iter().enumerate() {
                    out[j] = CAP.min(out[j] + c.saturating_mul(d));
                }
            }
        }
        out
    }
    fn one(&self, i: usize, n: usize) -> Ways {
        let mut w = vec![0; n + 1];
        w[i] = 1;
        w
    }
    fn star(&self, f: &Format, s: &[u8], i: usize, lo: usize, hi: Option<usize>) -> Ways {
        // repetitions of something that consumes; empty repetitions are counted once
        let n = s.len();
        let mut cur = self.one(i, n);
        let mut out = vec![0; n + 1];
        let mut k = 0;
        loop {
            if k >= lo {
                for j in 0..=n {
                    out[j] = CAP.min(out[j] + cur[j]);
                }
            }
            if hi == Some(k) || k > n + 1 + lo || cur.iter().all(|c| *c == 0) {
                return out;
            }
            cur = self.seq(&cur, |m| self.ways(f, s, m));
            k += 1;
        }
    }
    pub fn ways(&self, f: &Format, s: &[u8], i: usize) -> Ways {
        let n = s.len();
        match f {
            Format::ItemVar(l, _, _) => self.ways(self.module.get_format(*l), s, i),
            Format::Byte(bs) => {
                let mut w = vec![0; n + 1];
                if i < n && bs.contains(s[i]) {
                    w[i + 1] = 1;
                }
                w
            }
            Format::Fail => vec![0; n + 1],
            Format::Variant(_, f) => self.ways(f, s, i),
            Format::Tuple(fs) => {
                let mut w = self.one(i, n);
                for f in fs {
                    w = self.seq(&w, |m| self.ways(f, s, m));
                }
                w
            }
            Format::Union(fs) => {
                let mut w = vec![0; n + 1];
                for f in fs {
                    for (j, d) in self.ways(f, s, i).into_iter().enumerate() {
                        w[j] = CAP.min(w[j] + d);
                    }
                }
                w
            }
            Format::Repeat(f) => self.star(f, s, i, 0, None),
            Format::Repeat1(f) => self.star(f, s, i, 1, None),
            Format::RepeatCount(k, f) => self.star(f, s, i, konst(k), Some(konst(k))),
            Format::RepeatBetween(a, b, f) => self.star(f, s, i, konst(a), Some(konst(b))),
            // constructs that pass the bytes through
            Format::Map(f, _) | Format::Where(f, _) | Format::Hint(_, f) => self.ways(f, s, i),
            Format::Let(_, _, f) | Format::LetView(_, f) => self.ways(f, s, i),
            Format::LetFormat(f, _, g) | Format::MonadSeq(f, g) => {
                let w = self.ways(f, s, i);
                self.seq(&w, |m| self.ways(g, s, m))
            }
            Format::Sequence(fs) => self.ways(&Format::Tuple(fs.clone()), s, i),
            Format::LiftedOption(Some(f)) => self.ways(f, s, i),
            // (always decided for the first branch here, and always present)
            Format::Match(_, bs) => self.ways(&bs[0].1, s, i),
            Format::Maybe(_, f) => self.ways(f, s, i),
            Format::ForEach(_, _, f) => self.star(f, s, i, 2, Some(2)),
            Format::Compute(_) | Format::Pos => self.one(i, n),
            Format::Slice(k, f) => {
                let e = i + konst(k);
                let mut w = vec![0; n + 1];
                if e <= n {
                    // what the slice leaves unread is skipped
                    w[e] = self.ways(f, &s[..e], i).iter().sum();
                }
                w
            }
            Format::Peek(f) => {
                let mut w = vec![0; n + 1];
                w[i] = self.ways(f, s, i).iter().any(|c| *c > 0) as u32;
                w
            }
            Format::PeekNot(f) => {
                let mut w = vec![0; n + 1];
                w[i] = self.ways(f, s, i).iter().all(|c| *c == 0) as u32;
                w
            }
            Format::EndOfInput => {
                let mut w = vec![0; n + 1];
                w[i] = (i == n) as u32;
                w
            }
            _ => unreachable!("{f:?}"),
        }
    }
    fn nullable(&self, f: &Format) -> bool {
        self.ways(f, &[], 0)[0] > 0
    }
    /// repeating something that may be empty: outside this property (see C17)
    fn loops(&self, f: &Format) -> bool {
        match f {
            Format::ItemVar(l, _, _) => self.loops(self.module.get_format(*l)),
            Format::Repeat(f) | Format::Repeat1(f) | Format::RepeatCount(_, f) | Format::RepeatBetween(_, _, f) => {
                self.nullable(f) || self.loops(f)
            }
            Format::ForEach(_, _, f) => self.nullable(f) || self.loops(f),
            Format::Variant(_, f)
            | Format::Map(f, _)
            | Format::Where(f, _)
            | Format::Hint(_, f)
            | Format::Let(_, _, f)
            | Format::LetView(_, f)
            | Format::LiftedOption(Some(f))
            | Format::Maybe(_, f)
            | Format::Slice(_, f) => self.loops(f),
            Format::LetFormat(f, _, g) | Format::MonadSeq(f, g) => self.loops(f) || self.loops(g),
            Format::Match(_, bs) => self.loops(&bs[0].1),
            Format::Tuple(fs) | Format::Union(fs) | Format::Sequence(fs) => fs.iter().any(|f| self.loops(f)),
            _ => false,
        }
    }
}

fn spell(v: &RV, out: &mut Vec<u8>) {
    match v {
        RV::Int(8, b) => out.push(*b as u8),
        RV::Tup(vs) | RV::Seq(vs) => vs.iter().for_each(|v| spell(v, out)),
        RV::Var(_, v) => spell(v, out),
        RV::Opt(Some(v)) => spell(v, out),
        _ => {}
    }
}

fn v(i: usize, f: &Format) -> Format {
    Format::Variant(Label::Borrowed(["A", "B", "C"][i]), Box::new(f.clone()))
}

struct Bld {
    module: FormatModule,
    n: usize,
}
impl Bld {
    fn item(&mut self, f: &Format) -> Format {
        self.n += 1;
        self.module.define_format(format!("r{}", self.n), f.clone()).call()
    }
}

fn unary(b: &mut Bld, x: &Format, items: bool, out: &mut Vec<Format>) {
    out.push(Format::Repeat(Box::new(x.clone())));
    out.push(Format::Repeat1(Box::new(x.clone())));
    out.push(Format::RepeatCount(Box::new(Expr::U8(2)), Box::new(x.clone())));
    out.push(Format::Union(vec![v(0, x), v(1, &Format::EMPTY)]));
    if items {
        out.push(b.item(x));
    }
}
fn binary(x: &Format, y: &Format, out: &mut Vec<Format>) {
    out.push(Format::Tuple(vec![x.clone(), y.clone()]));
    out.push(Format::Union(vec![v(0, x), v(1, y)]));
}

fn stream(b: &mut Bld, l3: bool, visit: &mut dyn FnMut(&FormatModule, &Format)) {
    let l0 = vec![byte(&[0]), byte(&[1]), byte(&[0, 1]), Format::Byte(!ByteSet::from_iter([0u8])), Format::EMPTY];
    let mut l1 = vec![];
    for x in &l0 {
        unary(b, x, false, &mut l1);
        for y in &l0 {
            binary(x, y, &mut l1);
        }
    }
    let small: Vec<Format> = l0.iter().chain(&l1).cloned().collect();
    let mut l2 = vec![];
    for x in &l1 {
        unary(b, x, true, &mut l2);
    }
    for x in &small {
        for y in &small {
            binary(x, y, &mut l2);
        }
    }
    let items: Vec<Format> = l1.iter().chain(l2.iter().filter(|_| l3)).map(|x| b.item(x)).collect();

    for x in small.iter().chain(&l2) {
        visit(&b.module, x);
    }
    // level 3: every level-2 format in every one-step context with the small formats
    let partners: &[Format] = if l3 { &small } else { &l0 };
    let mut tmp = vec![];
    for x in &l2 {
        tmp.clear();
        unary(b, x, false, &mut tmp);
        for y in partners {
            binary(x, y, &mut tmp);
            binary(y, x, &mut tmp);
        }
        tmp.iter().for_each(|x| visit(&b.module, x));
    }
    for x in &items {
        tmp.clear();
        for y in partners {
            binary(x, y, &mut tmp);
            binary(y, x, &mut tmp);
            tmp.push(Format::Tuple(vec![y.clone(), x.clone(), y.clone()]));
            tmp.push(Format::Tuple(vec![x.clone(), y.clone(), x.clone()]));
        }
        tmp.iter().for_each(|x| visit(&b.module, x));
    }
}

/// the length of every word, where they all have one
fn exact_len(f: &Format) -> Option<usize> {
    match f {
        Format::Byte(_) => Some(1),
        Format::Variant(_, f) => exact_len(f),
        Format::Tuple(fs) => fs.iter().map(exact_len).sum(),
        Format::Union(fs) => {
            let ls: Option<Vec<usize>> = fs.iter().map(exact_len).collect();
            let ls = ls?;
            ls.iter().all(|l| *l == ls[0]).then(|| ls[0])
        }
        Format::RepeatCount(k, f) => Some(konst(k) * exact_len(f)?),
        _ => None,
    }
}

fn choiceless(f: &Format) -> bool {
    match f {
        Format::Byte(_) => true,
        Format::Tuple(fs) => fs.iter().all(choiceless),
        _ => false,
    }
}

/// `f` inside each construct that passes the bytes through, or restricts them by looking ahead
fn wrapped(f: &Format) -> Vec<Format> {
    let b = |f: &Format| Box::new(f.clone());
    let var = |n: &'static str| Expr::Var(Label::Borrowed(n));
    let mut v = vec![
        Format::Map(b(f), Box::new(Expr::Lambda("m".into(), Box::new(var("m"))))),
        where_lambda(f.clone(), "m", Expr::Bool(true)),
        Format::Let("n".into(), Box::new(Expr::U8(1)), b(f)),
        Format::LetView("v".into(), b(f)),
        Format::LetFormat(b(f), "x".into(), Box::new(Format::Compute(Box::new(var("x"))))),
        Format::LetFormat(Box::new(Format::EMPTY), "x".into(), b(f)),
        Format::MonadSeq(Box::new(Format::EMPTY), b(f)),
        Format::Sequence(vec![f.clone()]),
        Format::Sequence(vec![f.clone(), f.clone()]),
        Format::LiftedOption(Some(b(f))),
        Format::Match(Box::new(Expr::U8(0)), vec![(Pattern::U8(0), f.clone())]),
        Format::ForEach(Box::new(Expr::Seq(vec![Expr::U8(0), Expr::U8(1)])), "e".into(), b(f)),
        Format::RepeatBetween(Box::new(Expr::U8(0)), Box::new(Expr::U8(2)), b(f)),
        Format::RepeatBetween(Box::new(Expr::U8(1)), Box::new(Expr::U8(2)), b(f)),
        Format::RepeatBetween(Box::new(Expr::U8(2)), Box::new(Expr::U8(3)), b(f)),
        Format::Tuple(vec![Format::Pos, f.clone()]),
        Format::Tuple(vec![f.clone(), Format::Pos]),
        Format::Tuple(vec![f.clone(), Format::EndOfInput]),
        Format::Tuple(vec![Format::Compute(Box::new(Expr::Bool(true))), f.clone()]),
    ];
    for p in [byte(&[0]), byte(&[1]), Format::Tuple(vec![byte(&[0]), byte(&[1])]), Format::Tuple(vec![byte(&[0, 1]), byte(&[0])])] {
        // (looking ahead at no more than the construct reads: further than that lookahead forgets)
        if choiceless(f) && exact_len(f) >= exact_len(&p) {
            v.push(Format::MonadSeq(Box::new(Format::Peek(b(&p))), b(f)));
            v.push(Format::Tuple(vec![Format::PeekNot(b(&p)), f.clone()]));
            v.push(Format::Tuple(vec![f.clone(), Format::PeekNot(b(&p))]));
        }
    }
    if let Some(n) = exact_len(f) {
        // what a slice leaves unread is skipped
        v.push(Format::Slice(Box::new(Expr::U8(n as u8 + 1)), Box::new(Format::Tuple(vec![f.clone(), byte(&[0, 1])]))));
        v.push(Format::Slice(Box::new(Expr::U8(n as u8)), b(f)));
    }
    if choiceless(f) {
        for k in 1..=2 {
            v.push(Format::Slice(Box::new(Expr::U32((exact_len(f).unwrap() + k) as u32)), b(f)));
        }
        v.push(Format::Maybe(Box::new(Expr::Bool(true)), b(f)));
    }
    v
}

/// choices and repetitions decided through such constructs
fn through(l3: bool, visit: &mut dyn FnMut(&FormatModule, &Format)) {
    let mut b = Bld { module: FormatModule::new(), n: 0 };
    let l0 = vec![byte(&[0]), byte(&[1]), byte(&[0, 1]), Format::Byte(!ByteSet::from_iter([0u8])), Format::EMPTY];
    let mut l1 = vec![];
    for x in &l0 {
        unary(&mut b, x, false, &mut l1);
        for y in &l0 {
            binary(x, y, &mut l1);
        }
    }
    let small: Vec<Format> = l0.iter().chain(&l1).cloned().collect();
    let ys: Vec<Format> = if l3 { small.clone() } else { small.iter().filter(|x| !matches!(x, Format::Repeat1(_) | Format::RepeatCount(..))).cloned().collect() };
    let m = &b.module;
    for x in &small {
        for w in wrapped(x) {
            visit(m, &w);
            visit(m, &Format::Repeat(Box::new(w.clone())));
            for y in &ys {
                visit(m, &Format::Union(vec![v(0, &w), v(1, y)]));
                visit(m, &Format::Tuple(vec![w.clone(), y.clone()]));
                visit(m, &Format::Tuple(vec![y.clone(), w.clone()]));
                for z in &l0[..if l3 { 4 } else { 2 }] {
                    visit(m, &Format::Tuple(vec![Format::Union(vec![v(0, &w), v(1, y)]), z.clone()]));
                    visit(m, &Format::Tuple(vec![Format::Repeat(Box::new(w.clone())), y.clone(), z.clone()]));
                }
            }
        }
    }
    // three alternatives
    for x in &small {
        for y in &small {
            for z in if l3 { &small } else { &l0 } {
                visit(m, &Format::Union(vec![v(0, x), v(1, y), v(2, z)]));
                visit(m, &Format::Union(vec![v(0, z), v(1, x), v(2, y)]));
            }
        }
    }
}

/// a part of the above, for the generated decoders
pub fn some(wide: bool, visit: &mut dyn FnMut(&Format)) {
    let l0 = vec![byte(&[0]), byte(&[1]), byte(&[0, 1])];
    let mut xs = l0.clone();
    let pair = |x: &Format, y: &Format| Format::Tuple(vec![x.clone(), y.clone()]);
    for x in &l0 {
        for y in &l0 {
            xs.push(pair(x, y));
            if wide {
                xs.push(Format::Union(vec![v(0, x), v(1, y)]));
            }
        }
        xs.push(Format::Repeat1(Box::new(x.clone())));
        xs.push(Format::Union(vec![v(0, &pair(x, &l0[0])), v(1, &Format::EMPTY)]));
    }
    let ys = if wide { xs.clone() } else { vec![l0[0].clone(), l0[1].clone(), pair(&l0[0], &l0[1]), pair(&l0[2], &l0[0]), pair(&l0[1], &l0[1])] };
    for x in &xs {
        let mut ws = wrapped(x);
        ws.push(x.clone());
        for w in ws {
            for y in &ys {
                visit(&Format::Union(vec![v(0, &Format::Tuple(vec![w.clone(), Format::Compute(Box::new(Expr::U8(0)))])), v(1, y)]));
                visit(&Format::Tuple(vec![Format::Repeat(Box::new(w.clone())), y.clone()]));
                // what follows a choice
                visit(&Format::Tuple(vec![Format::Repeat(Box::new(y.clone())), w.clone(), l0[2].clone()]));
                visit(&Format::MonadSeq(Box::new(Format::Union(vec![v(0, &Format::Tuple(vec![y.clone(), l0[1].clone()])), v(1, &Format::EMPTY)])), Box::new(w.clone())));
                if wide {
                    visit(&Format::Tuple(vec![Format::Union(vec![v(0, &Format::Tuple(vec![w.clone(), Format::Compute(Box::new(Expr::U8(0)))])), v(1, y)]), l0[0].clone()]));
                    visit(&Format::Tuple(vec![w.clone(), y.clone()]));
                }
            }
        }
    }
}

/// Alternatives that share a long prefix: the choice has to look that far, and does.
fn long_prefixes(ctx: &Ctx, max: usize) {
    let z = |k: usize, last: u8| {
        let mut fs: Vec<Format> = (0..k).map(|_| byte(&[0])).collect();
        fs.push(byte(&[last]));
        Format::Tuple(fs)
    };
    for k in 0..=max {
        let union = Format::Union(vec![v(0, &z(k, 1)), v(1, &z(k, 2))]);
        let rep = Format::Tuple(vec![Format::Repeat(Box::new(z(k, 1))), z(k, 2)]);
        let rep1 = Format::Tuple(vec![Format::Repeat1(Box::new(z(k, 1))), z(k, 2)]);
        let mut module = FormatModule::new();
        let it = module.define_format("u", union.clone()).call();
        let item = Format::Tuple(vec![it.clone(), it]);
        let word = |ls: &[u8]| {
            let mut w = vec![];
            for l in ls {
                w.extend(std::iter::repeat_n(0, k));
                w.push(*l);
            }
            w
        };
        let mut ins = vec![];
        for n in 0..=3 {
            for ls in inputs(&[0, 1, 2, 3], n).into_iter().filter(|x| x.len() == n) {
                let w = word(&ls);
                for cut in 0..=w.len() {
                    ins.push(w[..cut].to_vec());
                }
            }
        }
        ins.sort();
        ins.dedup();
        for f in [&union, &rep, &rep1, &item] {
            ctx.begin(0, || format!("long prefix {k}: {f:?}"));
            ctx.add_states(1);
            let lang = Lang { module: &module };
            let p = match guarded(|| Compiler::compile_program(&module, f).map_err(|e| e.to_string())) {
                Ok(Ok(p)) => p,
                e => {
                    ctx.violation(
                        &format!("long prefix {k}"),
                        &format!("OVERREFUSED choice settled by {} bytes: {f:?} {:?}", k + 1, e.map(|r| r.map(|_| ()))),
                    );
                    continue;
                }
            };
            for i in &ins {
                ctx.add_transitions(1);
                ctx.add_traces(1);
                let want = lang.ways(f, i, 0)[i.len()] > 0;
                let got = guarded(|| match p.decoders[0].0.parse(&p, &Scope::Empty, ReadCtxt::new(i)) {
                    Ok(x) => x.into_inner().1.offset == i.len(),
                    Err(_) => false,
                });
                if got != Ok(want) {
                    ctx.violation(
                        &format!("{f:?} on {}", hex(i)),
                        &format!("LONG want {want} got {got:?}\n  format {f:?}\n  input {}", hex(i)),
                    );
                    break;
                }
            }
        }
    }
    ctx.end(0);
}

pub fn run(ctx: &Ctx) {
    long_prefixes(ctx, if ctx.tier == Tier::Quick { 12 } else { 40 });
    let (l3, len) = match ctx.tier {
        Tier::Quick => (false, 5),
        Tier::Thorough => (true, 5),
    };
    let ins = inputs(&[0, 1, 2], len);
    ctx.note(format!(
        "every regular format of nesting level <= 3 (level 3: one level-2 part and {}) x {} inputs over {{0,1,2}} of length <= {len}: acceptance vs language membership, derivation counts, yield",
        if l3 { "one level-1 part" } else { "one atom" }, ins.len()
    ));
    ctx.note("every choice, sequence and repetition of a small regular format inside each construct that passes bytes through or looks ahead (map, condition, local definition, view, option, match, for-each, bounded repetition, slices exact and with a rest, peeks)");
    ctx.workers(|w| {
        let mut b = Bld { module: FormatModule::new(), n: 0 };
        let mut n = 0usize;
        let mut finite = 0u64;
        let (mut states, mut runs, mut acc, mut refused, mut looping) = (0u64, 0u64, 0u64, 0u64, 0u64);
        let mut visit = |module: &FormatModule, f: &Format| {
            n += 1;
            if n % WORKERS != w || ctx.too_many() {
                return;
            }
            ctx.begin(w, || format!("{f:?}"));
            let lang = Lang { module };
            if lang.loops(f) {
                looping += 1;
                return;
            }
            states += 1;
            let p = match guarded(|| Compiler::compile_program(module, f).map_err(|e| e.to_string())) {
                Ok(Ok(p)) => p,
                Ok(Err(e)) => {
                    refused += 1;
                    // finite languages: every choice can be settled by reading on, so only real
                    // ambiguity is a reason to refuse
                    if finite_len(module, f).is_some_and(|n| n <= len) {
                        finite += 1;
                        if ins.iter().all(|i| lang.ways(f, i, 0)[i.len()] <= 1) {
                            ctx.violation(
                                &format!("compile {f:?}"),
                                &format!("OVERREFUSED unambiguous finite format refused: {f:?}\n  items {}\n  error: {e}", names(module, f)),
                            );
                        }
                    }
                    return;
                }
                Err(e) => {
                    ctx.violation(&format!("compile {f:?}"), &format!("PANIC compiling {f:?}: {e}"));
                    return;
                }
            };
            let mut nacc = 0;
            let skips = format!("{f:?}").contains("Slice(U32");
            for i in &ins {
                runs += 1;
                let ways = lang.ways(f, i, 0)[i.len()];
                let got = guarded(|| match p.decoders[0].0.parse(&p, &Scope::Empty, ReadCtxt::new(i)) {
                    Ok(x) => {
                        let (v, r) = x.into_inner();
                        if r.offset == i.len() { Some(from_value(&v)) } else { None }
                    }
                    Err(_) => None,
                });
                let bad = match got {
                    Err(e) => format!("PANIC {e}"),
                    Ok(None) if ways > 0 => "LOST input of the language not accepted as a whole".into(),
                    Ok(Some(v)) if ways == 0 => format!("EXTRA input outside the language accepted: {v}"),
                    Ok(Some(_)) if ways > 1 => format!("AMBIGUOUS accepted format has {ways} derivations"),
                    Ok(Some(v)) => {
                        nacc += 1;
                        let mut s = vec![];
                        spell(&v, &mut s);
                        if s == *i || skips {
                            continue;
                        }
                        format!("SPELL parse tree spells {}: {v}", hex(&s))
                    }
                    Ok(None) => continue,
                };
                ctx.violation(
                    &format!("{f:?} on {}", hex(i)),
                    &format!("{bad}\n  format {f:?}\n  items {}\n  input {}", names(module, f), hex(i)),
                );
                return;
            }
            acc += nacc;
            if n % 10007 == 5 {
                ctx.sample(|| format!("{f:?}: {nacc} of {} inputs accepted, all as the language says", ins.len()));
            }
        };
        stream(&mut b, l3, &mut visit);
        through(l3, &mut visit);
        ctx.end(w);
        ctx.add_states(states);
        ctx.add_transitions(runs);
        ctx.add_traces(runs);
        ctx.count("formats_refused_by_compiler", refused);
        ctx.count("formats_repeating_the_empty_string_skipped", looping);
        ctx.count("accepted_runs", acc);
        ctx.count("refused_finite_formats_shown_ambiguous", finite);
    });
}

/// longest word, for formats without repetition
fn finite_len(m: &FormatModule, f: &Format) -> Option<usize> {
    match f {
        Format::ItemVar(l, _, _) => finite_len(m, m.get_format(*l)),
        Format::Byte(_) => Some(1),
        Format::Variant(_, f) => finite_len(m, f),
        Format::Map(f, _) | Format::Where(f, _) | Format::Let(_, _, f) | Format::LetView(_, f) | Format::LiftedOption(Some(f)) => finite_len(m, f),
        Format::Compute(_) | Format::Pos => Some(0),
        Format::MonadSeq(f, g) | Format::LetFormat(f, _, g) => Some(finite_len(m, f)? + finite_len(m, g)?),
        // (what follows a part inside a counted repetition is approximated, so choices in there may be refused)
        Format::RepeatCount(k, f) | Format::RepeatBetween(_, k, f) if choiceless(f) => Some(konst(k) * finite_len(m, f)?),
        Format::Tuple(fs) | Format::Sequence(fs) => fs.iter().map(|f| finite_len(m, f)).sum(),
        Format::Union(fs) => fs.iter().map(|f| finite_len(m, f)).try_fold(0, |a, x| Some(a.max(x?))),
        _ => None,
    }
}

fn names(m: &FormatModule, f: &Format) -> String {
    let s = format!("{f:?}");
    let mut out = String::new();
    let mut rest = s.as_str();
    while let Some(i) = rest.find("ItemVar(") {
        rest = &rest[i + 8..];
        let n: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(l) = n.parse::<usize>() {
            out += &format!("{l} = {:?}; ", m.get_format(l));
        }
    }
    out
}
