//! C14: canonical prefix codes. Every length list within the bounds x every bit string within
//! the bounds, through the three decoders built from a length list (plain interpreter,
//! position-tracking interpreter, generated-code runtime). The reference assigns codewords by
//! sorting symbols on (length, symbol) and counting.
use crate::report::{Ctx, Tier, WORKERS, guarded};
use crate::rv::RV;
use doodle::byte_set::ByteSet;
use doodle::decoder::{Compiler, Program, Scope};
use doodle::loc_decoder::LocScope;
use doodle::prelude::{Parser, parse_huffman};
use doodle::read::ReadCtxt;
use doodle::{DynFormat, Expr, Format, FormatModule};
use std::sync::atomic::{AtomicU64, Ordering};

/// codewords per symbol, or None when the lengths describe no prefix code
fn canonical(lens: &[u8]) -> Option<Vec<(u16, Vec<u8>)>> {
    let mut syms: Vec<(u8, usize)> = lens.iter().enumerate().filter(|x| *x.1 > 0).map(|x| (*x.1, x.0)).collect();
    syms.sort();
    // Kraft sum over 2^-32
    let k: u64 = syms.iter().map(|s| 1u64 << (32 - s.0)).sum();
    if k > 1u64 << 32 {
        return None;
    }
    let mut out = vec![];
    let mut code: u64 = 0;
    let mut len = syms.first().map(|s| s.0).unwrap_or(0);
    for (i, (l, s)) in syms.iter().enumerate() {
        if i > 0 {
            code += 1;
        }
        code <<= l - len;
        len = *l;
        out.push((*s as u16, (0..len).rev().map(|r| ((code >> r) & 1) as u8).collect()));
    }
    Some(out)
}

/// the symbol whose codeword is a prefix of `w`, and its length
fn expect(code: &Option<Vec<(u16, Vec<u8>)>>, w: &[u8]) -> Option<(u16, usize)> {
    code.as_ref()?.iter().find(|(_, c)| w.starts_with(c)).map(|(s, c)| (*s, c.len()))
}

fn seq8(xs: &[u8]) -> Box<Expr> {
    Box::new(Expr::Seq(xs.iter().map(|x| Expr::U8(*x)).collect()))
}
/// the same list written in the four ways a description can
fn lengths_expr(form: usize, xs: &[u8]) -> Box<Expr> {
    if xs.is_empty() {
        return Box::new(Expr::SubSeq(seq8(&[1]), Box::new(Expr::U32(0)), Box::new(Expr::U32(0))));
    }
    match form {
        2 | 3 => Box::new(Expr::Var("lens".into())),
        1 => Box::new(Expr::Seq(xs.iter().map(|x| Expr::U16(*x as u16)).collect())),
        _ => seq8(xs),
    }
}
fn dynamic(form: usize, lens: &[u8], values: Option<&[u8]>, inner: Format) -> Format {
    let f = Format::Dynamic("h".into(), DynFormat::Huffman(lengths_expr(form, lens), values.map(seq8)), Box::new(inner));
    if form < 2 || lens.is_empty() {
        return f;
    }
    let read = Format::RepeatCount(Box::new(Expr::U32(lens.len() as u32)), Box::new(Format::Byte(ByteSet::full())));
    let read = match form {
        2 => read,
        _ => Format::Map(Box::new(read), Box::new(Expr::Lambda("x".into(), Box::new(Expr::Var("x".into()))))),
    };
    Format::LetFormat(Box::new(read), "lens".into(), Box::new(f))
}
fn apply() -> Format {
    Format::Apply("h".into())
}

type Got = Option<(Vec<u16>, usize)>;

fn syms_of(v: &RV) -> Vec<u16> {
    match v {
        RV::Int(_, n) => vec![*n as u16],
        RV::Seq(xs) => xs.iter().flat_map(syms_of).collect(),
        _ => vec![u16::MAX],
    }
}
fn plain(p: &Program, w: &[u8]) -> Result<Got, String> {
    guarded(|| {
        p.decoders[0].0.parse(p, &Scope::Empty, ReadCtxt::new(w)).ok().map(|r| {
            let (v, rest) = r.into_inner();
            (syms_of(&crate::rv::from_value(&v)), rest.offset)
        })
    })
}
fn loc(p: &Program, w: &[u8]) -> Result<Got, String> {
    guarded(|| {
        p.decoders[0].0.parse_with_loc(p, &LocScope::Empty, ReadCtxt::new(w)).ok().map(|r| {
            let (v, rest) = r.into_inner();
            (syms_of(&crate::rv::from_value(&v.clone_into_value())), rest.offset)
        })
    })
}

struct Counters {
    lists: AtomicU64,
    none: AtomicU64,
    runs: AtomicU64,
}

struct Case<'a> {
    ctx: &'a Ctx,
    c: &'a Counters,
    lens: Vec<u8>,
    values: Option<Vec<u8>>,
    form: usize,
}

impl Case<'_> {
    fn key(&self) -> String {
        match &self.values {
            None => format!("lengths {:?} form {}", self.lens, self.form),
            Some(v) => format!("lengths {:?} symbols {v:?}", self.lens),
        }
    }
    fn bad(&self, who: &str, w: &[u8], got: String, want: String) {
        let k = format!("{who} {} on {w:?}", self.key());
        self.ctx.violation(&k, &format!("{k}: got {got}, expected {want}"));
    }
    /// `count` codewords in a row
    fn run(&self, words: &mut dyn Iterator<Item = Vec<u8>>, counts: &[usize]) {
        let natural = match &self.values {
            None => self.lens.clone(),
            Some(v) => {
                let mut n = vec![0; v.len()];
                for (i, l) in self.lens.iter().enumerate() {
                    n[v[i] as usize] = *l;
                }
                n
            }
        };
        let code = canonical(&natural);
        self.c.lists.fetch_add(1, Ordering::Relaxed);
        if code.is_none() {
            self.c.none.fetch_add(1, Ordering::Relaxed);
        }
        let module = FormatModule::new();
        let mut progs = vec![];
        for n in counts {
            let f = if *n == 1 {
                apply()
            } else {
                Format::RepeatCount(Box::new(Expr::U32(*n as u32)), Box::new(apply()))
            };
            let f = dynamic(self.form, &self.lens, self.values.as_deref(), f);
            match guarded(|| Compiler::compile_program(&module, &f)) {
                Ok(Ok(p)) => progs.push((*n, p)),
                Ok(Err(e)) => return self.bad("compile", &[], format!("{e}"), "a program".into()),
                Err(e) => return self.bad("compile", &[], format!("panic {e}"), "a program".into()),
            }
        }
        let rt = match guarded(|| parse_huffman(&self.lens, self.values.clone())) {
            Ok(f) => f,
            Err(e) => return self.bad("runtime", &[], format!("panic {e}"), "a decoder".into()),
        };
        let pre: &[u8] = if self.form < 2 { &[] } else { &self.lens };
        for w in words {
            let full = [pre, &w[..]].concat();
            let less = |g: Result<Got, String>| g.map(|g| g.map(|(s, at)| (s, at - pre.len())));
            for (n, p) in &progs {
                let mut want: Got = Some((vec![], 0));
                for _ in 0..*n {
                    want = match want {
                        None => None,
                        Some((mut ss, at)) => expect(&code, &w[at..]).map(|(s, l)| {
                            ss.push(s);
                            (ss, at + l)
                        }),
                    };
                }
                let r = guarded(|| {
                    let mut ps = Parser::new(&w);
                    let mut ss = vec![];
                    for _ in 0..*n {
                        match rt(&mut ps) {
                            Ok(s) => ss.push(s),
                            Err(_) => return None,
                        }
                    }
                    Some((ss, ps.get_offset_u64() as usize))
                });
                for (who, got) in [("interpreter", less(plain(p, &full))), ("tracking interpreter", less(loc(p, &full))), ("runtime", r)] {
                    self.c.runs.fetch_add(1, Ordering::Relaxed);
                    match got {
                        Ok(g) if g == want => {}
                        Ok(g) => self.bad(who, &w, format!("{g:?}"), format!("{want:?}")),
                        Err(e) => self.bad(who, &w, format!("panic {e}"), format!("{want:?}")),
                    }
                }
            }
        }
    }
}

fn lists(n: usize, max: u8) -> impl Iterator<Item = Vec<u8>> {
    let base = max as u64 + 1;
    (0..base.pow(n as u32)).map(move |mut k| {
        (0..n)
            .map(|_| {
                let d = (k % base) as u8;
                k /= base;
                d
            })
            .collect()
    })
}
fn words(max: usize) -> Vec<Vec<u8>> {
    (0..=max).flat_map(|n| lists(n, 1)).collect()
}
fn perms(n: usize) -> Vec<Vec<u8>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n as u8 - 1);
            out.push(q);
        }
    }
    out
}

pub fn run(ctx: &'static Ctx) {
    let q = ctx.tier == Tier::Quick;
    ctx.note("all length lists (valid, incomplete, over-subscribed, empty) within the bounds x all bit strings, one and two codewords in a row; all symbol permutations; long skewed codes and the fixed DEFLATE tables");
    let c = Counters { lists: AtomicU64::new(0), none: AtomicU64::new(0), runs: AtomicU64::new(0) };
    // (symbols, max length, bit-string length)
    let shapes: &[(usize, u8, usize)] = if q {
        &[(0, 0, 3), (1, 5, 6), (2, 5, 6), (3, 5, 6), (4, 5, 6), (5, 4, 5), (6, 3, 4)]
    } else {
        &[(0, 0, 3), (1, 8, 9), (2, 8, 9), (3, 7, 8), (4, 6, 7), (5, 5, 6), (6, 4, 5), (7, 3, 4), (8, 3, 4)]
    };
    for (n, max, len) in shapes {
        let ws = words(*len);
        ctx.workers(|w| {
            for (i, lens) in lists(*n, *max).enumerate() {
                if i % WORKERS != w || ctx.too_many() {
                    continue;
                }
                ctx.begin(w, || format!("{lens:?}"));
                Case { ctx, c: &c, lens, values: None, form: 0 }.run(&mut ws.iter().cloned(), &[1, 2]);
            }
            ctx.end(w);
        });
    }
    // the list given as 16-bit integers, read from the input, or read and mapped; words of arbitrary bytes
    ctx.workers(|w| {
        let ws = words(4);
        let any: Vec<Vec<u8>> = (0..=3).flat_map(|n| lists(n, 3)).map(|x| x.iter().map(|b| if *b == 3 { 255 } else { *b }).collect()).collect();
        for (i, lens) in (0..=if q { 3 } else { 4 }).flat_map(|n| lists(n, 3)).enumerate() {
            if i % WORKERS != w || ctx.too_many() {
                continue;
            }
            ctx.begin(w, || format!("{lens:?}"));
            for form in 1..4 {
                Case { ctx, c: &c, lens: lens.clone(), values: None, form }.run(&mut ws.iter().cloned(), &[1, 2]);
            }
            Case { ctx, c: &c, lens, values: None, form: 0 }.run(&mut any.iter().cloned(), &[1]);
        }
        ctx.end(w);
    });
    // reordered symbols: lengths may stop before the table of symbols does
    let pn = if q { 4 } else { 5 };
    ctx.workers(|w| {
        let ws = words(4);
        let mut i = 0;
        for n in 1..=pn {
            for p in perms(n) {
                for k in 0..=n {
                    for lens in lists(k, if n == 5 { 2 } else { 3 }) {
                        i += 1;
                        if i % WORKERS != w || ctx.too_many() {
                            continue;
                        }
                        ctx.begin(w, || format!("{lens:?} {p:?}"));
                        Case { ctx, c: &c, lens, values: Some(p.clone()), form: 0 }.run(&mut ws.iter().cloned(), &[1]);
                    }
                }
            }
        }
        ctx.end(w);
    });
    // long codes: skewed ladders up to length 15 in every rotation, and DEFLATE's own tables
    let mut long: Vec<(Vec<u8>, Option<Vec<u8>>)> = vec![];
    for top in [9u8, 15, 20] {
        let mut l: Vec<u8> = (1..=top).collect();
        l.push(top);
        for r in 0..l.len() {
            let mut x = l.clone();
            x.rotate_left(r);
            long.push((x.clone(), None));
            x.pop(); // incomplete
            long.push((x, None));
        }
    }
    let mut fixed = vec![8u8; 144];
    fixed.extend(vec![9u8; 112]);
    fixed.extend(vec![7u8; 24]);
    fixed.extend(vec![8u8; 8]);
    long.push((fixed, None));
    long.push((vec![5u8; 30], None));
    long.push((vec![8u8; 256], None));
    let order = vec![16u8, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
    for used in [4usize, 12, 17, 18, 19] {
        for pat in [[3u8, 4, 5, 4], [5, 5, 5, 5], [0, 4, 0, 4], [7, 0, 0, 4]] {
            let lens: Vec<u8> = (0..used).map(|i| pat[i % 4]).collect();
            long.push((lens, Some(order.clone())));
        }
    }
    ctx.workers(|w| {
        for (i, (lens, values)) in long.iter().enumerate() {
            if i % WORKERS != w {
                continue;
            }
            ctx.begin(w, || format!("{lens:?}"));
            let natural = match values {
                None => lens.clone(),
                Some(v) => {
                    let mut n = vec![0; v.len()];
                    for (i, l) in lens.iter().enumerate() {
                        n[v[i] as usize] = *l;
                    }
                    n
                }
            };
            let mut ws: Vec<Vec<u8>> = vec![vec![], vec![0; 24], vec![1; 24]];
            for (_, cw) in canonical(&natural).unwrap_or_default() {
                for tail in [vec![], vec![0], vec![1], vec![1, 0]] {
                    ws.push([cw.clone(), tail].concat());
                }
                ws.push(cw[..cw.len() - 1].to_vec());
                for j in 0..cw.len() {
                    let mut x = cw.clone();
                    x[j] ^= 1;
                    ws.push(x);
                }
            }
            Case { ctx, c: &c, lens: lens.clone(), values: values.clone(), form: 0 }.run(&mut ws.into_iter(), &[1]);
        }
        ctx.end(w);
    });
    let lists = c.lists.load(Ordering::Relaxed);
    let runs = c.runs.load(Ordering::Relaxed);
    ctx.add_states(lists);
    ctx.add_transitions(runs);
    ctx.add_traces(runs);
    ctx.count("over_subscribed_lists", c.none.load(Ordering::Relaxed));
    ctx.sample(|| format!("lengths [2,1,3,3] -> {:?}", canonical(&[2, 1, 3, 3])));
    ctx.sample(|| format!("lengths [1,1,1] -> {:?}", canonical(&[1, 1, 1])));
}
