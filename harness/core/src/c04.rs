//! C04: generated decoders behave like the interpreter.
//! For every enumerated format the Rust source is generated by the code generator of the
//! current tree, compiled with rustc against the current runtime, and run on every input of
//! the bounded space; acceptance, value and position are compared with the interpreter's.
use crate::c01::hex;
use crate::dbgtree;
use crate::gen_::{G, Gen, Ty, atoms, chain_seeds, inputs, long_inputs};
use crate::report::{Ctx, Tier, WORKERS, guarded};
use crate::rv::{RV, from_value};
use doodle::codegen::ToFragment;
use doodle::decoder::{Compiler, Program, Scope};
use doodle::read::ReadCtxt;
use doodle::helper::record;
use doodle::{Expr, Format, FormatModule, IntRel, Label, Pattern};
use doodle::byte_set::ByteSet;
use crate::exprs::{Space, T, ops, points};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub enum Exp {
    Ok(RV, usize),
    Fail,
    Panic(String),
}

pub struct Case {
    pub desc: String,
    pub code: String,
    pub ins: Rc<Vec<Vec<u8>>>,
    pub exp: Vec<Exp>,
    /// whether a source that does not compile is judged
    pub judge_compile: bool,
}

#[derive(Default)]
pub struct Local {
    pub formats: u64,
    pub compiler_refused: u64,
    pub generator_refused: u64,
    pub runs: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub undefined: u64,
    pub lines: u64,
    pub programs: u64,
    pub uncompilable: u64,
    pub out_of_scope: u64,
}

pub fn run_interp(p: &Program, i: &[u8]) -> Exp {
    match guarded(|| {
        p.decoders[0].0.parse(p, &Scope::Empty, ReadCtxt::new(i)).ok().map(|x| {
            let (v, r) = x.into_inner();
            (from_value(&v), r.offset)
        })
    }) {
        Ok(Some((v, o))) => Exp::Ok(v, o),
        Ok(None) => Exp::Fail,
        Err(e) => Exp::Panic(e),
    }
}

/// the generated source as the body of a module
pub fn generate(m: &FormatModule, f: &Format) -> Result<String, String> {
    let text = guarded(|| format!("{}", doodle::codegen::generate_code(m, f).to_fragment()))?;
    let mut out = String::with_capacity(text.len());
    let mut top = None;
    let mut marked = false;
    for l in text.lines() {
        let t = l.trim_start();
        if t.starts_with("#![") || t.starts_with("mod codegen_tests") || t.starts_with("pub mod api_helper") {
            continue;
        }
        if t.trim_end() == "/// d#0" {
            marked = true;
        } else if marked {
            if let Some(r) = t.strip_prefix("pub fn ").or_else(|| t.strip_prefix("fn ")) {
                top.get_or_insert(r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>());
                marked = false;
            }
        }
        out.push_str(l);
        out.push('\n');
    }
    let top = top.ok_or_else(|| "no entry point in generated source".to_string())?;
    let _ = writeln!(
        out,
        "pub fn __run(p: &mut doodle::prelude::Parser<'_>) -> Result<String, String> {{ {top}(p).map(|x| format!(\"{{:?}}\", x)).map_err(|e| format!(\"{{}}\", e)) }}"
    );
    Ok(out)
}

const MAIN: &str = r#"
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut sets: std::collections::BTreeMap<usize, Vec<Vec<u8>>> = Default::default();
    for l in std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap().lines() {
        let (k, l) = l.split_once(' ').unwrap();
        sets.entry(k.parse().unwrap()).or_default()
            .push((0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect());
    }
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    use std::io::Write;
    for (k, s, f) in FNS {
        for (i, inp) in sets[s].iter().enumerate() {
            let r = std::panic::catch_unwind(|| {
                let mut p = doodle::prelude::Parser::new(inp);
                let r = f(&mut p);
                let o = if r.is_ok() { p.get_offset_u64() } else { 0 };
                (r, o)
            });
            match r {
                Ok((Ok(s), o)) => writeln!(out, "{k} {i} O {o} {}", s.replace('\n', " ")).unwrap(),
                Ok((Err(e), _)) => writeln!(out, "{k} {i} E {}", e.replace('\n', " ")).unwrap(),
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    writeln!(out, "{k} {i} P {}", m.replace('\n', " ")).unwrap()
                }
            }
        }
    }
}
"#;

pub struct Builder {
    pub dir: String,
    pub rlib: String,
    pub log: String,
    pub deps: String,
}

impl Builder {
    pub fn new(tag: &str) -> Builder {
        let dir = format!("{}/{tag}", std::env::var("VERIF_C04_DIR").unwrap_or_else(|_| "/verif/scratch/c04".into()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let rlib = std::env::var("VERIF_DOODLE_RLIB").expect("VERIF_DOODLE_RLIB names the built library");
        let deps = std::path::Path::new(&rlib).parent().unwrap().to_str().unwrap().to_string();
        Builder { dir, rlib, log: std::env::var("VERIF_LOG_RLIB").expect("VERIF_LOG_RLIB"), deps }
    }

    /// Runs rustc; `Err` holds the diagnostics.
    pub fn rustc(&self, src: &str, bin: &str, opt: u8) -> Result<(), String> {
        let o = Command::new("rustc")
            .args(["--edition", "2024", "--crate-type", "bin", "--cap-lints", "allow", "--error-format", "short"])
            .args(["-C", &format!("opt-level={opt}"), "-C", "debuginfo=0", "-C", "debug-assertions=on", "-C", "codegen-units=2"])
            .args(["--extern", &format!("doodle={}", self.rlib), "--extern", &format!("log={}", self.log), "-L", &format!("dependency={}", self.deps)])
            .args(["-o", bin, src])
            .env_remove("RUSTC_WRAPPER")
            .output()
            .map_err(|e| format!("cannot run rustc: {e}"))?;
        if o.status.success() { Ok(()) } else { Err(String::from_utf8_lossy(&o.stderr).into_owned()) }
    }

    /// Compiles and runs a batch against `ins`, comparing with the expectations.
    pub fn batch(&self, ctx: &Ctx, n: usize, cases: Vec<Case>, loc: &mut Local) {
        if cases.is_empty() {
            return;
        }
        let src = format!("{}/b{n}.rs", self.dir);
        let bin = format!("{}/b{n}", self.dir);
        let inf = format!("{}/b{n}.in", self.dir);
        let mut live: Vec<usize> = (0..cases.len()).collect();
        // input sets shared between cases are written once
        let mut sets: Vec<Rc<Vec<Vec<u8>>>> = vec![];
        let set_of: Vec<usize> = cases
            .iter()
            .map(|c| {
                sets.iter().position(|s| Rc::ptr_eq(s, &c.ins)).unwrap_or_else(|| {
                    sets.push(c.ins.clone());
                    sets.len() - 1
                })
            })
            .collect();
        let mut ok = false;
        for _ in 0..8 {
            if live.is_empty() {
                break;
            }
            let mut text = String::from("#![allow(warnings)]\n");
            let mut starts = vec![];
            let mut line = 2;
            for k in &live {
                starts.push((line, *k));
                let body = format!("mod m{k} {{\n{}\n}}\n", cases[*k].code);
                line += body.matches('\n').count();
                text.push_str(&body);
            }
            text.push_str("static FNS: &[(usize, usize, for<'a, 'b> fn(&'a mut doodle::prelude::Parser<'b>) -> Result<String, String>)] = &[\n");
            for k in &live {
                let _ = writeln!(text, "({k}, {}, m{k}::__run),", set_of[*k]);
            }
            text.push_str("];\n");
            text.push_str(MAIN);
            std::fs::write(&src, &text).unwrap();
            match self.rustc(&src, &bin, 0) {
                Ok(()) => {
                    ok = true;
                    break;
                }
                Err(e) => {
                    let mut bad: std::collections::BTreeMap<usize, String> = Default::default();
                    for l in e.lines().filter(|l| l.contains(": error")) {
                        let Some(rest) = l.strip_prefix(&format!("{src}:")) else { continue };
                        let ln: usize = rest.split(':').next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        if let Some((st, k)) = starts.iter().rev().find(|(s, _)| *s <= ln) {
                            let at = text.lines().nth(ln - 1).unwrap_or("");
                            let _ = st;
                            bad.entry(*k).or_insert_with(|| format!("{}\n  at: {at}", rest.splitn(3, ':').nth(2).unwrap_or(rest)));
                        }
                    }
                    if bad.is_empty() {
                        ctx.violation(&format!("batch {n}"), &format!("generated sources do not compile:\n{e}"));
                        return;
                    }
                    for (k, e) in &bad {
                        let c = &cases[*k];
                        loc.uncompilable += 1;
                        if !c.judge_compile {
                            continue;
                        }
                        ctx.violation(&format!("compile {}", c.desc), &format!("GENERATED SOURCE DOES NOT COMPILE for {}\n {e}\n{}", c.desc, c.code));
                    }
                    live.retain(|k| !bad.contains_key(k));
                }
            }
        }
        if !ok {
            return;
        }
        loc.programs += 1;
        let mut lines = String::new();
        for (j, s) in sets.iter().enumerate() {
            for i in s.iter() {
                let _ = writeln!(lines, "{j} {}", hex(i));
            }
        }
        std::fs::write(&inf, lines).expect("input file");
        let outp = format!("{}/b{n}.out", self.dir);
        let t0 = Instant::now();
        let mut ch = Command::new(&bin)
            .arg(&inf)
            .stdout(Stdio::from(std::fs::File::create(&outp).unwrap()))
            .stderr(Stdio::null())
            .spawn()
            .expect("run generated decoders");
        let status = loop {
            if let Some(s) = ch.try_wait().unwrap() {
                break Some(s);
            }
            if t0.elapsed() > Duration::from_secs(120) {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        let got = String::from_utf8_lossy(&std::fs::read(&outp).unwrap_or_default()).into_owned();
        let want: usize = live.iter().map(|k| cases[*k].ins.len()).sum();
        let lines: Vec<&str> = got.lines().collect();
        if !status.is_some_and(|s| s.success()) || lines.len() != want {
            let mut at = lines.len();
            let mut k = live[0];
            for j in &live {
                k = *j;
                if at < cases[k].ins.len() {
                    break;
                }
                at -= cases[k].ins.len();
            }
            let c = &cases[k];
            ctx.violation(
                &format!("crash {}", c.desc),
                &format!("generated decoder crashed or did not finish ({status:?}) at or after {}\n  input {}", c.desc, c.ins.get(at).map(|i| hex(i)).unwrap_or_default()),
            );
            return;
        }
        let mut reported = std::collections::BTreeSet::new();
        for l in &lines {
            let mut it = l.splitn(4, ' ');
            let k: usize = it.next().unwrap().parse().unwrap();
            let i: usize = it.next().unwrap().parse().unwrap();
            let tag = it.next().unwrap();
            let rest = it.next().unwrap_or("");
            let c = &cases[k];
            loc.runs += 1;
            let bad = match (&c.exp[i], tag) {
                (Exp::Ok(v, off), "O") => {
                    loc.accepted += 1;
                    let (o, dbg) = rest.split_once(' ').unwrap_or((rest, ""));
                    match dbgtree::parse(dbg) {
                        Err(e) => Some(format!("cannot read generated value: {e}: {dbg}")),
                        Ok(t) => match dbgtree::diff(v, &t) {
                            Some(d) => Some(format!("values differ at {d}\n  interpreter {v}\n  generated   {dbg}")),
                            None if o.parse::<usize>().ok() != Some(*off) => Some(format!("interpreter stops at {off}, generated decoder at {o}")),
                            None => None,
                        },
                    }
                }
                (Exp::Fail, "E") => {
                    loc.rejected += 1;
                    None
                }
                (Exp::Panic(_), _) => {
                    loc.undefined += 1;
                    None
                }
                (e, _) => {
                    let a = match e {
                        Exp::Ok(v, o) => format!("accepts with {v} up to {o}"),
                        Exp::Fail => "rejects".into(),
                        Exp::Panic(e) => format!("panics ({e})"),
                    };
                    let b = match tag {
                        "O" => format!("accepts with {rest}"),
                        "E" => format!("rejects ({rest})"),
                        _ => format!("panics ({rest})"),
                    };
                    Some(format!("interpreter {a}\n  generated decoder {b}"))
                }
            };
            if let Some(b) = bad {
                if reported.insert(k) {
                    ctx.violation(&format!("{} on {}", c.desc, hex(&c.ins[i])), &format!("format {}\n  input {}\n  {b}", c.desc, hex(&c.ins[i])));
                }
            }
        }
        if n % 7 == 3 {
            let c = &cases[live[0]];
            ctx.sample(|| format!("{}: {} inputs, {} lines of generated source", c.desc, c.ins.len(), c.code.lines().count()));
        }
        for f in [&src, &bin, &inf, &outp] {
            let _ = std::fs::remove_file(f);
        }
    }
}

/// Inside `Bits`, positions, seeking, views and further `Bits` are documented as unsupported by
/// the runtime of generated decoders.
pub fn unsupported_in_bits(desc: &str) -> bool {
    let b = desc.as_bytes();
    let mut from = 0;
    while let Some(i) = desc[from..].find("Bits(") {
        let st = from + i + 5;
        let mut depth = 1;
        let mut j = st;
        while j < b.len() && depth > 0 {
            match b[j] {
                b'(' => depth += 1,
                b')' => depth -= 1,
                _ => {}
            }
            j += 1;
        }
        let body = &desc[st..j];
        if ["Pos", "Bits(", "WithRelativeOffset(", "LetView("].iter().any(|w| body.contains(w)) {
            return true;
        }
        from = st;
    }
    false
}

/// A view starts a buffer of its own in the runtime of generated decoders: there is nothing before
/// its start to seek back to.
pub fn seeks_in_view(desc: &str) -> bool {
    desc.find("ParseFromView(").is_some_and(|i| desc[i..].contains("WithRelativeOffset("))
}

pub struct Stage<'a> {
    pub b: &'a Builder,
    pub ins: Rc<Vec<Vec<u8>>>,
    pub judge_compile: bool,
    pub buf: Vec<Case>,
    pub n: usize,
    pub size: usize,
}

impl Stage<'_> {
    pub fn push(&mut self, ctx: &Ctx, w: usize, g: &Gen, f: &Format, loc: &mut Local) {
        loc.formats += 1;
        let desc = format!("{f:?}");
        // the named formats are part of what it means
        let mut whole = desc.clone();
        while let Some(i) = whole.find("ItemVar(") {
            let n: String = whole[i + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
            let body = n.parse().ok().map(|l: usize| format!("{:?}", g.module.get_format(l))).unwrap_or_default();
            whole.replace_range(i..i + 8, &format!("Item[{body}]("));
        }
        if unsupported_in_bits(&whole) || seeks_in_view(&whole) {
            loc.out_of_scope += 1;
            return;
        }
        // a named entry point, as every generated program has
        let mut m = FormatModule::new();
        if desc.contains("ItemVar(") {
            for (l, it) in g.items.iter().enumerate() {
                m.define_format_args_views(
                    g.module.get_name(l).to_string(),
                    it.args.iter().map(|(l, t)| (Label::Owned(l.clone()), t.clone())).collect(),
                    it.views.iter().map(|l| Label::Owned(l.clone())).collect(),
                    g.module.get_format(l).clone(),
                );
            }
        }
        let f = match guarded(|| m.define_format("top", f.clone()).call()) {
            Ok(f) => f,
            Err(_) => {
                loc.compiler_refused += 1;
                return;
            }
        };
        let (m, f) = (&m, &f);
        let p = match guarded(|| Compiler::compile_program(m, f)) {
            Ok(Ok(p)) => p,
            _ => {
                loc.compiler_refused += 1;
                return;
            }
        };
        let code = match generate(m, f) {
            Ok(c) => c,
            Err(e) => {
                loc.generator_refused += 1;
                if !self.judge_compile {
                    return;
                }
                ctx.violation(&format!("generate {desc}"), &format!("CODE GENERATION FAILS for a format the interpreter accepts: {desc}\n  {e}"));
                return;
            }
        };
        loc.lines += code.lines().count() as u64;
        let exp = self.ins.iter().map(|i| run_interp(&p, i)).collect();
        self.buf.push(Case { desc, code, ins: self.ins.clone(), exp, judge_compile: self.judge_compile });
        if self.buf.len() >= self.size {
            ctx.end(w);
            self.flush(ctx, loc);
        }
    }
    pub fn flush(&mut self, ctx: &Ctx, loc: &mut Local) {
        let n = self.n;
        self.n += WORKERS;
        let cs = std::mem::take(&mut self.buf);
        self.b.batch(ctx, n, cs, loc);
    }
}

fn variant(l: &'static str, f: Format) -> Format {
    Format::Variant(l.into(), Box::new(f))
}

/// formats of distinct types that have no name of their own
fn nameless() -> Vec<Format> {
    let b = |x: u8| Format::Byte(ByteSet::from_iter([x]));
    vec![
        Format::Union(vec![variant("A", b(0)), variant("B", b(1))]),
        Format::Union(vec![variant("A", b(0)), variant("B", Format::Tuple(vec![b(1), b(0)]))]),
        doodle::helper::record([("a", b(0))]),
        doodle::helper::record([("a", b(0)), ("b", Format::Tuple(vec![b(1), b(2)]))]),
    ]
}

/// two parts under one construct
fn combine(a: &Format, b: &Format) -> Vec<Format> {
    let bx = |f: &Format| Box::new(f.clone());
    let x = || Expr::Var("x".into());
    vec![
        Format::Tuple(vec![a.clone(), b.clone()]),
        Format::MonadSeq(bx(a), bx(b)),
        Format::LetFormat(bx(a), "x".into(), bx(b)),
        Format::LetFormat(bx(a), "x".into(), Box::new(Format::Tuple(vec![b.clone(), Format::Compute(Box::new(x()))]))),
        doodle::helper::record([("f", a.clone()), ("g", b.clone())]),
        Format::Union(vec![
            variant("L", Format::Tuple(vec![Format::Byte(ByteSet::from_iter([2u8])), a.clone()])),
            variant("R", Format::Tuple(vec![b.clone(), Format::Compute(Box::new(Expr::U8(0)))])),
        ]),
        Format::MonadSeq(Box::new(Format::Peek(bx(a))), bx(b)),
        Format::MonadSeq(Box::new(Format::Map(bx(a), Box::new(Expr::Lambda("x".into(), Box::new(Expr::U8(0)))))), bx(b)),
    ]
}

/// one part under a construct whose result has another type, or the same
fn enclose(a: &Format) -> Vec<Format> {
    let bx = |f: &Format| Box::new(f.clone());
    let x = || Expr::Var("x".into());
    let map = |e: Expr| Format::Map(bx(a), Box::new(Expr::Lambda("x".into(), Box::new(e))));
    vec![
        map(x()),
        map(Expr::Record(vec![("r".into(), x())])),
        map(Expr::Tuple(vec![x(), Expr::U8(7)])),
        Format::Repeat1(bx(a)),
        doodle::helper::where_lambda(a.clone(), "x", Expr::Bool(true)),
        Format::Let("x".into(), Box::new(Expr::U8(1)), bx(a)),
    ]
}

/// Names that a format may give its variables, and that generated code also uses for itself.
const NAMES: &[&str] = &[
    "_input", "accum", "next_elem", "reps_left", "seq", "acc", "elem", "matching_ix", "tmp_cond", "sz", "ret", "tgt_offset", "_is_advance", "res",
    "_bits_read", "ix0", "arg0", "ix", "tree_index", "inner", "_e", "buf_bytes", "buf_parser", "buf_input", "view_parser", "view_input", "is_valid",
    "err", "b", "byte", "x", "xs", "totlen", "acc_x", "tuple_var", "lookahead", "some", "none", "data", "view", "succ", "pred", "type", "self", "Self", "super", "crate", "input",
];

/// A byte bound to `n`, and every construct around parts that use it.
fn hygiene(n: &'static str, g: &mut Gen) -> Vec<Format> {
    let any = || Format::Byte(ByteSet::full());
    let var = || Expr::Var(n.into());
    let tup = |e: Expr| Format::Tuple(vec![any(), Format::Compute(Box::new(e))]);
    let bind = |f: Format| Format::LetFormat(Box::new(any()), n.into(), Box::new(f));
    let x = G { f: tup(var()), ty: Ty::Tup(vec![Ty::U8, Ty::U8]) };
    let mut l1 = vec![];
    g.unary(&x, &mut l1);
    let mut out: Vec<Format> = l1.into_iter().map(|y| bind(y.f)).collect();
    // the name in the parameters of a construct
    let lam = |e: Expr| Box::new(Expr::Lambda(n.into(), Box::new(e)));
    let lt2 = |e: Expr| Expr::IntRel(IntRel::Lt, Box::new(e), Box::new(Expr::U8(2)));
    let pair = |a: Expr, b: Expr| Expr::Tuple(vec![a, b]);
    let seq = || Expr::Seq(vec![var(), Expr::U8(2)]);
    let rc = || Format::RepeatCount(Box::new(var()), Box::new(any()));
    out.extend([
        bind(rc()),
        Format::Let(n.into(), Box::new(Expr::U8(2)), Box::new(Format::Tuple(vec![rc(), tup(var())]))),
        bind(Format::Slice(Box::new(var()), Box::new(Format::Repeat(Box::new(tup(var())))))),
        bind(Format::RepeatBetween(Box::new(Expr::U8(0)), Box::new(var()), Box::new(tup(var())))),
        bind(Format::WithRelativeOffset(Box::new(Expr::U8(0)), Box::new(var()), Box::new(tup(var())))),
        bind(Format::Map(Box::new(tup(var())), Box::new(Expr::Lambda("y".into(), Box::new(pair(Expr::Var("y".into()), var())))))),
        Format::Map(Box::new(any()), lam(pair(var(), var()))),
        Format::Map(Box::new(tup(Expr::U8(1))), lam(pair(var(), var()))),
        doodle::helper::where_lambda(any(), n, lt2(var())),
        bind(doodle::helper::where_lambda(any(), "y", Expr::IntRel(IntRel::Eq, Box::new(var()), Box::new(Expr::Var("y".into()))))),
        record([(n, any()), ("q", rc()), ("r", Format::Compute(Box::new(var())))]),
        record([("q", any()), (n, tup(Expr::Var("q".into()))), ("r", Format::Compute(Box::new(var())))]),
        Format::Union(vec![variant("A", record([(n, Format::Byte(ByteSet::from_iter([0u8])))])), variant("B", record([(n, Format::Byte(ByteSet::from_iter([1u8]))), ("r", rc())]))]),
        Format::ForEach(Box::new(Expr::Seq(vec![Expr::U8(1), Expr::U8(2)])), n.into(), Box::new(tup(var()))),
        bind(Format::ForEach(Box::new(seq()), "y".into(), Box::new(tup(pair(var(), Expr::Var("y".into())))))),
        bind(Format::ForEach(Box::new(seq()), n.into(), Box::new(tup(var())))),
        bind(Format::Maybe(Box::new(lt2(var())), Box::new(tup(var())))),
        bind(Format::DecodeBytes(Box::new(seq()), Box::new(Format::Tuple(vec![any(), tup(var())])))),
        bind(Format::Match(Box::new(var()), vec![(Pattern::U8(1), tup(Expr::U8(9))), (Pattern::Binding(n.into()), tup(var()))])),
        bind(Format::Match(Box::new(pair(var(), Expr::U8(3))), vec![(Pattern::Tuple(vec![Pattern::U8(1), Pattern::Wildcard]), tup(Expr::U8(9))), (Pattern::Tuple(vec![Pattern::Wildcard, Pattern::Binding(n.into())]), tup(var()))])),
        bind(Format::Compute(Box::new(Expr::Match(Box::new(var()), vec![(Pattern::U8(1), Expr::U8(9)), (Pattern::Binding(n.into()), var())])))),
        bind(Format::Compute(Box::new(Expr::FlatMap(lam(Expr::Seq(vec![var(), var()])), Box::new(seq()))))),
        bind(Format::Compute(Box::new(Expr::FlatMap(Box::new(Expr::Lambda("y".into(), Box::new(Expr::Seq(vec![var(), Expr::Var("y".into())])))), Box::new(seq()))))),
        bind(Format::Compute(Box::new(doodle::helper::left_fold(
            Expr::Lambda("y".into(), Box::new(Expr::Arith(doodle::Arith::BitOr, Box::new(var()), Box::new(Expr::TupleProj(Box::new(Expr::Var("y".into())), 0))))),
            Expr::U8(0),
            doodle::ValueType::U8,
            seq(),
        )))),
        bind(Format::Compute(Box::new(doodle::helper::left_fold(
            Expr::Lambda(n.into(), Box::new(Expr::Arith(doodle::Arith::BitOr, Box::new(Expr::TupleProj(Box::new(var()), 1)), Box::new(Expr::TupleProj(Box::new(var()), 0))))),
            Expr::U8(0),
            doodle::ValueType::U8,
            seq(),
        )))),
        bind(Format::AccumUntil(
            Box::new(Expr::Lambda("y".into(), Box::new(Expr::IntRel(IntRel::Gte, Box::new(Expr::TupleProj(Box::new(Expr::Var("y".into())), 0)), Box::new(var()))))),
            Box::new(Expr::Lambda("y".into(), Box::new(Expr::Unary(doodle::UnaryOp::IntSucc, Box::new(Expr::TupleProj(Box::new(Expr::Var("y".into())), 0)))))),
            Box::new(Expr::U8(0)),
            doodle::ValueType::U8.into(),
            Box::new(tup(var())),
        )),
        bind(Format::AccumUntil(
            Box::new(Expr::Lambda("y".into(), Box::new(Expr::IntRel(IntRel::Gte, Box::new(Expr::SeqLength(Box::new(Expr::TupleProj(Box::new(Expr::Var("y".into())), 1)))), Box::new(Expr::U32(2)))))),
            Box::new(Expr::Lambda("y".into(), Box::new(Expr::Arith(doodle::Arith::BitOr, Box::new(Expr::TupleProj(Box::new(Expr::Var("y".into())), 0)), Box::new(var()))))),
            Box::new(Expr::U8(0)),
            doodle::ValueType::U8.into(),
            Box::new(any()),
        )),
        bind(Format::Compute(Box::new(Expr::SubSeq(Box::new(Expr::Seq(vec![Expr::U8(5), var(), Expr::U8(6)])), Box::new(Expr::U32(1)), Box::new(Expr::AsU32(Box::new(var()))))))),
        bind(Format::Compute(Box::new(Expr::SeqIx(Box::new(Expr::Seq(vec![Expr::U8(5), var(), Expr::U8(6)])), Box::new(Expr::AsU32(Box::new(var()))))))),
        bind(Format::Compute(Box::new(Expr::Dup(Box::new(Expr::AsU32(Box::new(var()))), Box::new(var()))))),
        bind(Format::Compute(Box::new(Expr::Append(Box::new(seq()), Box::new(seq()))))),
        bind(Format::Compute(Box::new(Expr::U16Be(Box::new(pair(var(), var())))))),
        bind(Format::Compute(Box::new(Expr::Unary(doodle::UnaryOp::IntSucc, Box::new(var()))))),
        bind(Format::RepeatUntilLast(
            Box::new(Expr::Lambda("y".into(), Box::new(Expr::IntRel(IntRel::Eq, Box::new(Expr::Var("y".into())), Box::new(var()))))),
            Box::new(any()),
        )),
        Format::RepeatUntilLast(lam(Expr::IntRel(IntRel::Eq, Box::new(var()), Box::new(Expr::U8(1)))), Box::new(any())),
        bind(Format::RepeatUntilSeq(
            Box::new(Expr::Lambda("y".into(), Box::new(Expr::IntRel(IntRel::Gte, Box::new(Expr::SeqLength(Box::new(Expr::Var("y".into())))), Box::new(Expr::AsU32(Box::new(var()))))))),
            Box::new(any()),
        )),
        bind(Format::UnionNondet(vec![variant("A", Format::Tuple(vec![any(), tup(var())])), variant("B", tup(var()))])),
        bind(Format::Union(vec![
            variant("A", Format::Tuple(vec![Format::Byte(ByteSet::from_iter([0u8])), tup(var())])),
            variant("B", Format::Tuple(vec![Format::Byte(ByteSet::from_iter([1u8])), tup(var())])),
        ])),
        bind(Format::Permit(Box::new(tup(var())), Box::new(pair(var(), var())))),
    ]);
    // as a view, and as the argument of a named format
    let view = || doodle::ViewExpr::Var(n.into());
    out.push(Format::LetView(n.into(), Box::new(Format::Tuple(vec![any(), Format::ParseFromView(view(), Box::new(tup(Expr::U8(1))))]))));
    g.with_items = true;
    if let Some(l) = g.define(vec![(n, doodle::ValueType::U8)], vec![], &Format::Tuple(vec![tup(var()), rc()])) {
        out.push(Format::ItemVar(l, vec![Expr::U8(2)], vec![]));
        out.push(bind(Format::ItemVar(l, vec![var()], vec![])));
    }
    out
}

pub fn run(ctx: &'static Ctx) {
    let thorough = ctx.tier == Tier::Thorough;
    let mut ins = inputs(&[0, 1, 2], if thorough { 4 } else { 3 });
    ins.extend(long_inputs());
    let b = Builder::new("enum");
    let (ins, b) = (&ins, &b);
    ctx.workers(|w| {
        let mut loc = Local::default();
        let short = Rc::new(ins.clone());
        let mut st = Stage { b, ins: short.clone(), judge_compile: true, buf: vec![], n: w, size: 150 };
        let atoms = atoms();
        let mut k = 0;
        // every one-step context around every atom
        for x in &atoms {
            let mut g = Gen::new();
            g.with_items = x.ty != Ty::Any;
            let mut l1 = vec![x.clone()];
            g.unary(x, &mut l1);
            for y in &l1 {
                k += 1;
                if k % WORKERS == w && !ctx.too_many() {
                    ctx.begin(w, || format!("{:?}", y.f));
                    st.push(ctx, w, &g, &y.f, &mut loc);
                }
            }
        }
        // every two-part combination of atoms
        let mut g = Gen::new();
        for x in &atoms {
            for y in &atoms {
                let mut l1 = vec![];
                g.binary(x, y, &mut l1);
                for y in &l1 {
                    k += 1;
                    if k % WORKERS == w && !ctx.too_many() {
                        ctx.begin(w, || format!("{:?}", y.f));
                        st.push(ctx, w, &g, &y.f, &mut loc);
                    }
                }
            }
        }
        ctx.end(w);
        st.flush(ctx, &mut loc);
        // choices and repetitions that need more than one byte of lookahead
        st.judge_compile = true;
        st.ins = Rc::new(inputs(&[0, 1, 2], 4));
        let g = Gen::new();
        crate::c02::some(thorough, &mut |f| {
            k += 1;
            if k % WORKERS == w && !ctx.too_many() {
                ctx.begin(w, || format!("{f:?}"));
                st.push(ctx, w, &g, f, &mut loc);
            }
        });
        ctx.end(w);
        st.flush(ctx, &mut loc);
        st.ins = short.clone();
        // several types without a name of their own, in every arrangement of the constructs that hold parts
        st.judge_compile = true;
        {
            let ls = nameless();
            let mut fs = vec![];
            for a in &ls {
                fs.extend(enclose(a));
                for b in &ls {
                    for f in combine(a, b) {
                        for c in &ls {
                            fs.extend(combine(&f, c));
                            fs.extend(combine(c, &f));
                        }
                        if thorough {
                            fs.extend(enclose(&f).iter().flat_map(|f| ls.iter().flat_map(|c| [combine(f, c), combine(c, f)].concat())));
                        }
                        fs.extend(enclose(&f));
                        fs.push(f);
                    }
                }
            }
            for f in &fs {
                k += 1;
                if k % WORKERS == w && !ctx.too_many() {
                    ctx.begin(w, || format!("{f:?}"));
                    st.push(ctx, w, &g, f, &mut loc);
                }
            }
        }
        ctx.end(w);
        st.flush(ctx, &mut loc);
        // names of the format's own that generated code also uses for itself
        st.ins = Rc::new(inputs(&[0, 1, 2], 3));
        for n in NAMES {
            k += 1;
            if k % WORKERS == w && !ctx.too_many() {
                let mut g = Gen::new();
                g.with_items = false;
                for f in hygiene(n, &mut g) {
                    ctx.begin(w, || format!("{f:?}"));
                    st.push(ctx, w, &g, &f, &mut loc);
                }
            }
        }
        ctx.end(w);
        st.flush(ctx, &mut loc);
        st.ins = short.clone();
        // every one-step context, followed by more (what follows steers its lookahead), and repeated
        st.judge_compile = false;
        for x in &atoms {
            let mut g = Gen::new();
            g.with_items = x.ty != Ty::Any;
            let mut l1 = vec![];
            g.unary(x, &mut l1);
            for y in &l1 {
                k += 1;
                if k % WORKERS == w && !ctx.too_many() {
                    ctx.begin(w, || format!("{:?}", y.f));
                    let followed = || Format::Tuple(vec![y.f.clone(), Format::Byte(ByteSet::full())]);
                    for f in [followed(), Format::Repeat1(Box::new(followed())), Format::Repeat(Box::new(followed()))] {
                        st.push(ctx, w, &g, &f, &mut loc);
                    }
                }
            }
        }
        ctx.end(w);
        st.flush(ctx, &mut loc);
        // every chain of wrappers
        // (of the deeper ones, those the generator does not cover are only counted)
        for depth in if thorough { 2..4 } else { 2..3 } {
        st.judge_compile = depth == 2;
        for seed in chain_seeds() {
            let mut path = vec![0usize; depth];
            'paths: loop {
                let mut g = Gen::new();
                let mut x = seed.clone();
                let mut over = None;
                for (d, i) in path.iter().enumerate() {
                    let mut next = vec![];
                    g.wraps(&x, d + 1 < depth, &mut next);
                    match next.get(*i) {
                        Some(y) => x = y.clone(),
                        None => {
                            over = Some(d);
                            break;
                        }
                    }
                }
                let d = match over {
                    Some(0) => break 'paths,
                    Some(d) => d - 1,
                    None => {
                        k += 1;
                        if k % WORKERS == w && !ctx.too_many() {
                            ctx.begin(w, || format!("{:?}", x.f));
                            st.push(ctx, w, &g, &x.f, &mut loc);
                        }
                        depth - 1
                    }
                };
                path[d] += 1;
                for j in &mut path[d + 1..] {
                    *j = 0;
                }
            }
        }
        }
        ctx.end(w);
        st.flush(ctx, &mut loc);
        if thorough {
            // every two-step nesting
            st.judge_compile = false;
            for x in &atoms {
                let mut g = Gen::new();
                g.with_items = x.ty != Ty::Any;
                let mut l1 = vec![];
                g.unary(x, &mut l1);
                for y in &l1 {
                    let mut l2 = vec![];
                    g.unary(y, &mut l2);
                    for z in &l2 {
                        k += 1;
                        if k % WORKERS == w && !ctx.too_many() {
                            ctx.begin(w, || format!("{:?}", z.f));
                            st.push(ctx, w, &g, &z.f, &mut loc);
                        }
                    }
                }
            }
            ctx.end(w);
            st.flush(ctx, &mut loc);
        }
        // every operator of the expression language over parsed arguments
        expressions(ctx, w, &mut st, &mut loc);
        ctx.end(w);
        st.flush(ctx, &mut loc);
        ctx.add_states(loc.formats);
        ctx.add_transitions(loc.runs);
        ctx.add_traces(loc.runs);
        ctx.add_nontrivial(loc.accepted);
        ctx.count("formats_refused_by_compiler", loc.compiler_refused);
        ctx.count("accepted_runs", loc.accepted);
        ctx.count("rejected_runs", loc.rejected);
        ctx.count("runs_without_defined_meaning", loc.undefined);
        ctx.count("sources_not_compiling", loc.uncompilable);
        ctx.count("formats_outside_scope", loc.out_of_scope);
        ctx.count("generated_lines", loc.lines);
        ctx.count("programs_compiled", loc.programs);
    });
}

/// a format that decodes any value of a type from its encoding by `enc`
fn reader(t: &T) -> Format {
    let any = || Format::Byte(ByteSet::full());
    let map = |f: Format, e: Expr| Format::Map(Box::new(f), Box::new(Expr::Lambda("r".into(), Box::new(e))));
    let var = |n: &str| Expr::Var(Label::Owned(n.to_string()));
    let bytes = |n: usize| Format::Tuple((0..n).map(|_| any()).collect());
    match t {
        T::B => map(any(), Expr::IntRel(IntRel::Eq, Box::new(var("r")), Box::new(Expr::U8(1)))),
        T::I(8) => any(),
        T::I(16) => map(bytes(2), Expr::U16Be(Box::new(var("r")))),
        T::I(64) => map(bytes(8), Expr::U64Be(Box::new(var("r")))),
        T::I(_) => map(bytes(4), Expr::U32Be(Box::new(var("r")))),
        T::Ix => map(any(), Expr::AsU32(Box::new(var("r")))),
        T::C => map(map(bytes(4), Expr::U32Be(Box::new(var("r")))), Expr::AsChar(Box::new(var("r")))),
        T::S(t) => Format::LetFormat(Box::new(any()), "n".into(), Box::new(Format::RepeatCount(Box::new(var("n")), Box::new(reader(t))))),
        T::O(t) => Format::LetFormat(
            Box::new(any()),
            "n".into(),
            Box::new(Format::Maybe(Box::new(Expr::IntRel(IntRel::Eq, Box::new(var("n")), Box::new(Expr::U8(1)))), Box::new(reader(t)))),
        ),
        T::P(ts) => Format::Tuple(ts.iter().map(reader).collect()),
        T::R => record([("a", reader(&T::I(8))), ("b", reader(&T::I(16)))]),
        T::V => {
            let br = |n: u8, l: &'static str, f: Format| {
                Format::Variant(l.into(), Box::new(Format::MonadSeq(Box::new(Format::Byte(ByteSet::from([n]))), Box::new(f))))
            };
            Format::Union(vec![
                br(0, "A", reader(&T::I(8))),
                br(1, "B", Format::Tuple(vec![reader(&T::I(8)), reader(&T::I(16))])),
                br(2, "C", Format::Tuple(vec![])),
            ])
        }
    }
}

fn enc(t: &T, v: &RV, out: &mut Vec<u8>) -> bool {
    match (t, v) {
        (T::B, RV::Bool(b)) => out.push(*b as u8),
        (T::Ix, RV::Int(_, n)) => match u8::try_from(*n) {
            Ok(n) => out.push(n),
            Err(_) => return false,
        },
        (T::I(w), RV::Int(_, n)) => {
            for k in (0..*w / 8).rev() {
                out.push((*n >> (8 * k)) as u8);
            }
        }
        (T::C, RV::Char(c)) => out.extend((*c as u32).to_be_bytes()),
        (T::S(t), RV::Seq(es)) => {
            out.push(es.len() as u8);
            return es.len() < 200 && es.iter().all(|e| enc(t, e, out));
        }
        (T::O(_), RV::Opt(None)) => out.push(0),
        (T::O(t), RV::Opt(Some(e))) => {
            out.push(1);
            return enc(t, e, out);
        }
        (T::P(ts), RV::Tup(es)) => return ts.len() == es.len() && ts.iter().zip(es).all(|(t, e)| enc(t, e, out)),
        (T::R, RV::Rec(fs)) => return enc(&T::I(8), &fs[0].1, out) && enc(&T::I(16), &fs[1].1, out),
        (T::V, RV::Var(l, e)) => match l.as_str() {
            "A" => {
                out.push(0);
                return enc(&T::I(8), e, out);
            }
            "B" => {
                out.push(1);
                return enc(&T::P(vec![T::I(8), T::I(16)]), e, out);
            }
            _ => out.push(2),
        },
        _ => return false,
    }
    true
}

const ARGS: [&str; 6] = ["a0", "a1", "a2", "a3", "a4", "a5"];

/// the argument tuples as encoded inputs: every combination of `few` points per argument,
/// spread over the value space
fn encoded(ts: &[&T], sp: &Space, small: bool, total: usize) -> Vec<Vec<u8>> {
    let mut encs: Vec<Vec<Vec<u8>>> = vec![];
    for t in ts {
        let mut seen = vec![];
        for p in points(t, sp) {
            if small && matches!(p.rv, RV::Int(_, n) if n > 64) {
                continue;
            }
            let mut o = vec![];
            if enc(t, &p.rv, &mut o) && !seen.contains(&o) {
                seen.push(o);
            }
        }
        encs.push(seen);
    }
    let mut few = 1;
    while encs.iter().map(|e| e.len().min(few + 1)).product::<usize>() <= total && encs.iter().any(|e| e.len() > few) {
        few += 1;
    }
    let mut out = vec![vec![]];
    for e in &encs {
        let n = e.len().min(few);
        let pick: Vec<&Vec<u8>> = (0..n).map(|i| if n < 2 { &e[0] } else { &e[i * (e.len() - 1) / (n - 1)] }).collect();
        out = out
            .iter()
            .flat_map(|o: &Vec<u8>| pick.iter().map(move |p| { let mut o = o.clone(); o.extend_from_slice(p); o }))
            .collect();
    }
    out
}

fn closed(args: &[&T], e: Expr) -> Format {
    let mut f = Format::Compute(Box::new(e));
    for (i, t) in args.iter().enumerate().rev() {
        f = Format::LetFormat(Box::new(reader(t)), ARGS[i].into(), Box::new(f));
    }
    f
}

/// operators whose result is as long as an argument says
fn sized(name: &str) -> bool {
    name.starts_with("EnumFromTo") || name.starts_with("dup") || name.starts_with("inflate") || name.starts_with("flatmap")
}

fn expressions(ctx: &Ctx, w: usize, st: &mut Stage<'_>, loc: &mut Local) {
    let thorough = ctx.tier == Tier::Thorough;
    let sp = Space { len: 3, alpha: 3, ix: 5 };
    let all = ops();
    let g = Gen::new();
    let mut k = 0;
    for op in &all {
        k += 1;
        if k % WORKERS != w || ctx.too_many() {
            continue;
        }
        let ts: Vec<&T> = op.args.iter().collect();
        let vars: Vec<Expr> = (0..ts.len()).map(|i| Expr::Var(ARGS[i].into())).collect();
        let f = closed(&ts, (op.build)(&vars));
        st.ins = Rc::new(encoded(&ts, &sp, sized(&op.name), if thorough { 4000 } else { 600 }));
        // (the generator does not cover the whole expression language; where it fails, it fails loudly)
        st.judge_compile = false;
        ctx.begin(w, || op.name.clone());
        st.push(ctx, w, &g, &f, loc);
    }
    // compositions: every operator as an argument of every other
    let mut sets: HashMap<(bool, Vec<T>), Rc<Vec<Vec<u8>>>> = HashMap::new();
    for a in &all {
        for (i, t) in a.args.iter().enumerate() {
            for b in &all {
                // (a length computed by another operator may not fit into memory)
                if sized(&a.name) || sized(&b.name) && b.name.contains("range") && !b.name.ends_with('8') {
                    continue;
                }
                if b.out != *t && !(*t == T::Ix && b.out == T::I(32)) {
                    continue;
                }
                // quick: one representative width of each pair of operators
                let wide = |n: &str| n.ends_with("16") || n.ends_with("64");
                if !thorough && (wide(&a.name) || wide(&b.name)) {
                    continue;
                }
                k += 1;
                if k % WORKERS != w || ctx.too_many() {
                    continue;
                }
                let mut ts: Vec<&T> = vec![];
                let mut outer = vec![];
                let mut inner = vec![];
                for (j, u) in a.args.iter().enumerate() {
                    if j == i {
                        for u in &b.args {
                            inner.push(Expr::Var(ARGS[ts.len()].into()));
                            ts.push(u);
                        }
                        outer.push(Expr::U8(0));
                    } else {
                        outer.push(Expr::Var(ARGS[ts.len()].into()));
                        ts.push(u);
                    }
                }
                outer[i] = (b.build)(&inner);
                let f = closed(&ts, (a.build)(&outer));
                let small = sized(&a.name) || sized(&b.name);
                let key: (bool, Vec<T>) = (small, ts.iter().map(|t| (*t).clone()).collect());
                st.ins = sets.entry(key).or_insert_with(|| Rc::new(encoded(&ts, &sp, small, if thorough { 200 } else { 40 }))).clone();
                ctx.begin(w, || format!("{} of {}", a.name, b.name));
                st.push(ctx, w, &g, &f, loc);
            }
        }
    }
}
