//! C03: the location-tracking decoder agrees with the plain decoder on every format and input,
//! and the spans it attaches are the bytes each part was read from.
use crate::analysis::{TOP, clean};
use crate::c01::{Out, hex, run_impl, show};
use crate::gen_::{G, Gen, inputs, stream};
use crate::report::{Ctx, Tier, WORKERS, guarded};
use crate::rv::from_value;
use doodle::decoder::seq_kind::SeqKind;
use doodle::decoder::{Compiler, Program, Value};
use doodle::loc_decoder::{LocScope, ParseLoc, ParsedValue};
use doodle::read::ReadCtxt;
use doodle::{Expr, Format, FormatModule};

pub fn run_loc(p: &Program, input: &[u8]) -> Option<(ParsedValue, usize, usize)> {
    match p.decoders[0].0.parse_with_loc(p, &LocScope::Empty, ReadCtxt::new(input)) {
        Ok(x) => {
            let n = x.iter_errs().count();
            let (v, r) = x.into_inner();
            Some((v, r.offset, n))
        }
        Err(_) => None,
    }
}

pub struct Spans<'a> {
    pub module: &'a FormatModule,
    pub input: &'a [u8],
    pub checked: u64,
}

fn loc(v: &ParsedValue) -> Option<(usize, usize)> {
    match v.get_loc() {
        ParseLoc::InBuffer { offset, length } => Some((offset, length)),
        ParseLoc::Synthesized => None,
    }
}

type R = Result<Option<usize>, String>;

impl Spans<'_> {
    /// every in-buffer span lies within the input
    pub fn in_bounds(&self, v: &ParsedValue, limit: usize) -> Result<(), String> {
        if let ParsedValue::Record(p) = v {
            // a record assembled from variables: its span is the hull of adjacent fields, and
            // is documented to be only indicative when the fields are not adjacent
            let mut hull: Option<(usize, usize)> = None;
            let mut adjacent = true;
            for (_, x) in p.as_ref() {
                if let Some((o, l)) = loc(x) {
                    match hull {
                        None => hull = Some((o, l)),
                        Some((a, n)) if a + n == o => hull = Some((a, n + l)),
                        _ => adjacent = false,
                    }
                }
            }
            if adjacent && hull.is_some() && loc(v) != hull {
                return Err(format!("record of adjacent fields {hull:?} located at {:?}: {v:?}", loc(v)));
            }
        } else if let Some((o, l)) = loc(v) {
            if o.checked_add(l).map(|e| e > limit).unwrap_or(true) {
                return Err(format!("span {o}+{l} outside {limit} in {v:?}"));
            }
        }
        match v {
            ParsedValue::Flat(_) => Ok(()),
            ParsedValue::Tuple(p) => p.as_ref().iter().try_for_each(|x| self.in_bounds(x, limit)),
            ParsedValue::Record(p) => p.as_ref().iter().try_for_each(|x| self.in_bounds(&x.1, limit)),
            ParsedValue::Seq(p) => elems(p.as_ref()).into_iter().try_for_each(|x| self.in_bounds(x, limit)),
            ParsedValue::Variant(_, x) | ParsedValue::Branch(_, x) => self.in_bounds(x, limit),
            ParsedValue::Mapped(a, b) => {
                self.in_bounds(a, limit)?;
                self.in_bounds(b, limit)
            }
            ParsedValue::Permit(Ok(x)) | ParsedValue::Permit(Err(Some(x))) => self.in_bounds(x, limit),
            ParsedValue::Option(Some(x)) => self.in_bounds(x, limit),
            _ => Ok(()),
        }
    }

    fn span(&mut self, v: &ParsedValue, start: Option<usize>, consumed: Option<usize>) -> R {
        self.checked += 1;
        let Some((o, l)) = loc(v) else {
            return Err(format!("no span on a value read from the input: {v:?}"));
        };
        if let Some(s) = start {
            if s != o {
                return Err(format!("span starts at {o} but was read at {s}: {v:?}"));
            }
        }
        if let Some(c) = consumed {
            if c != l {
                return Err(format!("span length {l} but {c} bytes were read: {v:?}"));
            }
        }
        Ok(Some(l))
    }

    fn parts(&mut self, fs: &[&Format], vs: &[&ParsedValue], v: &ParsedValue, start: Option<usize>) -> R {
        if fs.len() != vs.len() {
            return Err(format!("{} parts for {} formats: {v:?}", vs.len(), fs.len()));
        }
        let o = loc(v).map(|x| x.0);
        if start.is_some() && o != start {
            return Err(format!("span starts at {o:?} but was read at {start:?}: {v:?}"));
        }
        let mut at = o;
        let mut total = Some(0);
        for (f, x) in fs.iter().zip(vs) {
            let c = self.walk(f, x, at)?;
            at = at.and_then(|a| c.map(|c| a + c));
            total = total.and_then(|t| c.map(|c| t + c));
        }
        self.span(v, start, total)
    }

    fn items(&mut self, f: &Format, v: &ParsedValue, start: Option<usize>) -> R {
        let ParsedValue::Seq(p) = v else {
            return Err(format!("not a sequence: {v:?}"));
        };
        let vs = elems(p.as_ref());
        let fs: Vec<&Format> = vs.iter().map(|_| f).collect();
        self.parts(&fs, &vs, v, start)
    }

    /// Walks format and located value together; the result is the number of bytes consumed,
    /// where that can be told from the two alone.
    pub fn walk(&mut self, f: &Format, v: &ParsedValue, start: Option<usize>) -> R {
        match f {
            Format::ItemVar(l, _, _) => self.walk(self.module.get_format(*l), v, start),
            Format::Hint(_, f) | Format::Let(_, _, f) | Format::LetView(_, f) | Format::Dynamic(_, _, f) => {
                self.walk(f, v, start)
            }
            Format::Where(f, _) => self.walk(f, v, start),
            Format::Byte(_) => {
                let ParsedValue::Flat(p) = v else {
                    return Err(format!("a byte is located as {v:?}"));
                };
                self.span(v, start, Some(1))?;
                let (o, _) = loc(v).unwrap();
                let Value::U8(b) = p.as_ref() else {
                    return Err(format!("a byte has value {v:?}"));
                };
                if self.input.get(o) != Some(b) {
                    return Err(format!("span of byte {b:#x} points at {:?}", self.input.get(o)));
                }
                Ok(Some(1))
            }
            Format::Tuple(fs) => {
                let ParsedValue::Tuple(p) = v else {
                    return Err(format!("not a tuple: {v:?}"));
                };
                self.parts(&fs.iter().collect::<Vec<_>>(), &p.as_ref().iter().collect::<Vec<_>>(), v, start)
            }
            Format::Sequence(fs) => {
                let ParsedValue::Seq(p) = v else {
                    return Err(format!("not a sequence: {v:?}"));
                };
                self.parts(&fs.iter().collect::<Vec<_>>(), &elems(p.as_ref()), v, start)
            }
            Format::Repeat(a)
            | Format::Repeat1(a)
            | Format::RepeatCount(_, a)
            | Format::RepeatBetween(_, _, a)
            | Format::RepeatUntilLast(_, a)
            | Format::RepeatUntilSeq(_, a)
            | Format::ForEach(_, _, a) => self.items(a, v, start),
            Format::AccumUntil(.., a) => {
                let ParsedValue::Tuple(p) = v else {
                    return Err(format!("not a pair: {v:?}"));
                };
                let c = self.items(a, &p.as_ref()[1], start)?;
                self.span(v, start, c)?;
                Ok(c)
            }
            Format::Variant(_, f) => match v {
                ParsedValue::Variant(_, v) => self.walk(f, v, start),
                _ => Err(format!("not a variant: {v:?}")),
            },
            Format::Map(f, _) => match v {
                ParsedValue::Mapped(orig, image) => {
                    if let ParsedValue::Option(None) = **image {
                    } else if has_own_loc(image) && image.get_loc() != orig.get_loc() {
                        return Err(format!("mapped value located apart from what it was mapped from: {v:?}"));
                    }
                    self.walk(f, orig, start)
                }
                _ => Err(format!("not a mapped value: {v:?}")),
            },
            Format::Union(fs) | Format::UnionNondet(fs) => match v {
                ParsedValue::Branch(i, v) => self.walk(&fs[*i], v, start),
                _ => Err(format!("not a branch: {v:?}")),
            },
            Format::Match(_, bs) => match v {
                ParsedValue::Branch(i, v) => self.walk(&bs[*i].1, v, start),
                _ => Err(format!("not a branch: {v:?}")),
            },
            Format::Maybe(_, f) => match v {
                ParsedValue::Option(None) => Ok(Some(0)),
                ParsedValue::Option(Some(v)) => self.walk(f, v, start),
                _ => Err(format!("not an option: {v:?}")),
            },
            Format::LiftedOption(Some(f)) => match v {
                ParsedValue::Option(Some(v)) => self.walk(f, v, start),
                _ => Err(format!("not an option: {v:?}")),
            },
            Format::LiftedOption(None) => Ok(Some(0)),
            Format::Permit(f, _) => match v {
                ParsedValue::Permit(Ok(v)) => self.walk(f, v, start),
                ParsedValue::Permit(Err(_)) => Ok(Some(0)),
                _ => Err(format!("not a permit: {v:?}")),
            },
            Format::Peek(f) => {
                self.walk(f, v, start)?;
                Ok(Some(0))
            }
            Format::PeekNot(_) | Format::EndOfInput => self.span(v, start, Some(0)),
            Format::Align(n) => {
                let c = self.span(v, start, None)?;
                let s = loc(v).unwrap();
                if (s.0 + s.1) % n != 0 || s.1 >= *n {
                    return Err(format!("alignment padding located at {s:?}"));
                }
                Ok(c)
            }
            Format::SkipRemainder => self.span(v, start, None),
            Format::Compute(_) | Format::Pos | Format::Phantom(_) => Ok(Some(0)),
            Format::Slice(k, f) => {
                self.walk(f, v, start)?;
                Ok(const_usize(k))
            }
            Format::MonadSeq(a, b) => {
                let s = start.and_then(|s| fixed(a).map(|n| s + n));
                let c = self.walk(b, v, s)?;
                Ok(fixed(a).and_then(|n| c.map(|c| c + n)))
            }
            Format::LetFormat(a, _, b) => {
                let s = start.and_then(|s| fixed(a).map(|n| s + n));
                let c = self.walk(b, v, s)?;
                Ok(fixed(a).and_then(|n| c.map(|c| c + n)))
            }
            Format::WithRelativeOffset(b, o, f) => {
                let at = const_usize(b).and_then(|b| const_usize(o).map(|o| b + o));
                self.walk(f, v, at)?;
                Ok(Some(0))
            }
            Format::ParseFromView(_, f) => {
                self.walk(f, v, None)?;
                Ok(Some(0))
            }
            Format::DecodeBytes(..) => Ok(Some(0)),
            _ => Ok(None),
        }
    }
}

fn has_own_loc(v: &ParsedValue) -> bool {
    match v {
        ParsedValue::Flat(_) | ParsedValue::Tuple(_) | ParsedValue::Record(_) | ParsedValue::Seq(_) => true,
        ParsedValue::Variant(_, x) => has_own_loc(x),
        ParsedValue::Option(Some(x)) => has_own_loc(x),
        _ => false,
    }
}

fn elems(s: &SeqKind<ParsedValue>) -> Vec<&ParsedValue> {
    match s {
        SeqKind::Strict(v) => v.iter().collect(),
        SeqKind::Dup(n, v) => (0..*n).map(|_| &**v).collect(),
    }
}

fn const_usize(e: &Expr) -> Option<usize> {
    match e {
        Expr::U8(n) => Some(*n as usize),
        Expr::U16(n) => Some(*n as usize),
        Expr::U32(n) => Some(*n as usize),
        Expr::U64(n) => Some(*n as usize),
        _ => None,
    }
}

/// bytes consumed by a format whose width is evident
fn fixed(f: &Format) -> Option<usize> {
    match f {
        Format::Byte(_) => Some(1),
        Format::Compute(_) | Format::Pos | Format::Peek(_) | Format::PeekNot(_) => Some(0),
        Format::Tuple(fs) | Format::Sequence(fs) => fs.iter().map(fixed).sum(),
        Format::Map(f, _) | Format::Variant(_, f) | Format::Hint(_, f) => fixed(f),
        Format::Where(f, _) => fixed(f),
        Format::RepeatCount(k, f) => Some(const_usize(k)? * fixed(f)?),
        Format::MonadSeq(a, b) | Format::LetFormat(a, _, b) => Some(fixed(a)? + fixed(b)?),
        _ => None,
    }
}

pub fn dead_end(m: &FormatModule, f: &Format) -> bool {
    let s = format!("{f:?}");
    s.contains("Fail") && s.contains("Repeat") && !clean(m, f, TOP)
}

fn relative(f: &Format, m: &FormatModule) -> bool {
    // positions below these are relative to a sub-buffer
    let s = format!("{f:?}");
    let _ = m;
    s.contains("Bits(") || s.contains("DecodeBytes(") || s.contains("ItemVar(") && m.decls_mention_sub(f)
}

trait Mention {
    fn decls_mention_sub(&self, f: &Format) -> bool;
}
impl Mention for FormatModule {
    fn decls_mention_sub(&self, f: &Format) -> bool {
        // conservative: look through the items a format names
        fn go(m: &FormatModule, f: &Format) -> bool {
            let s = format!("{f:?}");
            if s.contains("Bits(") || s.contains("DecodeBytes(") {
                return true;
            }
            let mut rest = s.as_str();
            while let Some(i) = rest.find("ItemVar(") {
                rest = &rest[i + 8..];
                let n: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(l) = n.parse::<usize>() {
                    if go(m, m.get_format(l)) {
                        return true;
                    }
                }
            }
            false
        }
        go(self, f)
    }
}

pub fn compare(
    ctx: &Ctx,
    module: &FormatModule,
    f: &Format,
    p: &Program,
    i: &[u8],
    sub: bool,
    spans: &mut u64,
) -> Option<bool> {
    let plain = match guarded(|| run_impl(p, i)) {
        Ok(o) => o,
        Err(_) => return None, // crashes of the plain decoder are not this property's subject
    };
    match guarded(|| run_loc(p, i)) {
        Err(e) => {
            ctx.violation(
                &format!("{f:?} on {}", hex(i)),
                &format!("PANIC {e}\n  format {f:?}\n  input {}\n  plain decoder {}", hex(i), show(&plain)),
            );
            None
        }
        Ok(r) => {
            let got = match &r {
                None => Out::Fail,
                Some((v, o, n)) => Out::Ok(from_value(&Value::from(v.clone())), *o, *n),
            };
            if got != plain {
                ctx.violation(
                    &format!("{f:?} on {}", hex(i)),
                    &format!("DIFF format {f:?}\n  input {}\n  loc   {}\n  plain {}", hex(i), show(&got), show(&plain)),
                );
                return None;
            }
            let Some((v, consumed, _)) = r else { return Some(false) };
            let mut s = Spans { module, input: i, checked: 0 };
            let limit = if sub { 64 * i.len().max(4) } else { i.len() };
            let res = s.in_bounds(&v, limit).and_then(|_| if sub { Ok(None) } else { s.walk(f, &v, Some(0)) });
            *spans += s.checked;
            match res {
                Err(e) => {
                    ctx.violation(
                        &format!("{f:?} on {}", hex(i)),
                        &format!("SPAN {e}\n  format {f:?}\n  input {}", hex(i)),
                    );
                    None
                }
                Ok(Some(c)) if c != consumed => {
                    ctx.violation(
                        &format!("{f:?} on {}", hex(i)),
                        &format!("SPANTOTAL parts cover {c} bytes, {consumed} consumed\n  format {f:?}\n  input {}", hex(i)),
                    );
                    None
                }
                Ok(_) => Some(true),
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    let (partners, alpha, len): (usize, Vec<u8>, usize) = match ctx.tier {
        Tier::Quick => (4, vec![0, 1, 2], 3),
        Tier::Thorough => (16, vec![0, 1, 2, 255], 4),
    };
    let ins = inputs(&alpha, len);
    ctx.note(format!(
        "every compiling format of nesting level <= 2 x {} inputs over {alpha:?} of length <= {len}; located decoder vs plain decoder, spans vs input bytes",
        ins.len()
    ));
    ctx.workers(|w| {
        let mut gen_ = Gen::new();
        let (mut formats, mut runs, mut acc, mut spans, mut refused) = (0u64, 0u64, 0u64, 0u64, 0u64);
        stream(&mut gen_, 2, partners, &mut |gen_, n, x: &G| {
            if n % WORKERS != w || ctx.too_many() {
                return;
            }
            ctx.begin(w, || format!("{:?}", x.f));
            formats += 1;
            // ambiguous nested repetition before something that never succeeds makes lookahead
            // construction explode; nothing could ever be decoded with it
            if dead_end(&gen_.module, &x.f) {
                refused += 1;
                return;
            }
            let Ok(Ok(p)) = guarded(|| Compiler::compile_program(&gen_.module, &x.f)) else {
                refused += 1;
                return;
            };
            let sub = relative(&x.f, &gen_.module);
            for i in &ins {
                runs += 1;
                match compare(ctx, &gen_.module, &x.f, &p, i, sub, &mut spans) {
                    Some(true) => {
                        acc += 1;
                        if n % 60013 == 17 {
                            ctx.sample(|| format!("{:?} on {} agrees with its spans", x.f, hex(i)));
                        }
                    }
                    Some(false) => {}
                    None => return,
                }
            }
        });
        ctx.end(w);
        ctx.add_states(formats);
        ctx.add_transitions(runs);
        ctx.add_traces(runs);
        ctx.count("formats_refused_by_compiler", refused);
        ctx.count("accepted_runs", acc);
        ctx.count("spans_checked", spans);
    });
}
