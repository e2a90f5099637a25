//! C05: the runtime `Parser`/`View` of generated code against a model of nested windows.
//!
//! Two explorations: every operation sequence up to a depth (no merging of states), and a
//! breadth-first walk over merged model states (which reaches far deeper sequences), each edge
//! being replayed on a fresh real `Parser`.
use crate::report::{Ctx, Tier, WORKERS, guarded};
use doodle::parser::offset::ByteOffset;
use doodle::parser::{Parser, View};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Pos {
    /// absolute position in bits from the start of the parser's buffer
    at: usize,
    /// the bit position at which bits-mode was entered
    bits: Option<usize>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum L {
    Slice(Pos),
    Peek(Pos),
    Seek(Pos),
    Not(Pos),
    Alts(Pos),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct M {
    pos: Pos,
    stack: Vec<L>,
    /// lens depth at which bits-mode was entered
    bits_depth: usize,
    /// a seek failed: only a recovery makes sense next
    failed: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Read,
    Adv(usize),
    Align(usize),
    SkipRest,
    Enter,
    Escape,
    Slice(usize),
    EndSlice,
    Peek,
    ClosePeek,
    PeekNot,
    CloseNot,
    Alt,
    Next(bool),
    EndAlt,
    Seek(usize),
}

/// What an operation is expected to return; `None` = error.
type Out = Option<usize>;

struct Env<'a> {
    buf: &'a [u8],
    /// offset of `buf` in the entire buffer
    base: usize,
}

enum Step {
    /// result and whether the sequence may go on
    Did(Out, bool),
    /// not a legal use (documented panic or meaningless nesting)
    Skip,
}

impl M {
    fn new() -> M {
        M { pos: Pos { at: 0, bits: None }, stack: vec![], bits_depth: 0, failed: false }
    }
    fn limit(&self, e: &Env) -> usize {
        self.stack
            .iter()
            .rev()
            .find_map(|l| if let L::Slice(p) = l { Some(p.at) } else { None })
            .unwrap_or(e.buf.len() * 8)
    }
    fn unit(&self) -> usize {
        if self.pos.bits.is_some() { 1 } else { 8 }
    }
    fn moved(&self, n: usize, e: &Env) -> Option<usize> {
        let to = n.checked_mul(self.unit())?.checked_add(self.pos.at)?;
        if to <= self.limit(e) { Some(to) } else { None }
    }
    fn step(&mut self, op: Op, e: &Env) -> Step {
        if self.failed && !matches!(op, Op::CloseNot | Op::Next(_)) {
            return Step::Skip;
        }
        match op {
            Op::Read => match self.moved(1, e) {
                None => Step::Did(None, true),
                Some(to) => {
                    let b = e.buf[self.pos.at / 8];
                    let v = if self.pos.bits.is_some() { (b >> (self.pos.at % 8)) & 1 } else { b };
                    self.pos.at = to;
                    Step::Did(Some(v as usize), true)
                }
            },
            Op::Adv(n) => self.advance(n, e),
            Op::Align(n) => {
                let p = match self.pos.bits {
                    Some(start) => self.pos.at - start,
                    None => e.base + self.pos.at / 8,
                };
                let d = (n - p % n) % n;
                self.advance(d, e)
            }
            Op::SkipRest => {
                self.pos.at = self.limit(e);
                Step::Did(Some(0), true)
            }
            Op::Enter => {
                if self.pos.bits.is_some() {
                    return Step::Did(None, true);
                }
                self.pos.bits = Some(self.pos.at);
                self.bits_depth = self.solid();
                Step::Did(Some(0), true)
            }
            Op::Escape => {
                let Some(start) = self.pos.bits else { return Step::Did(None, true) };
                if self.solid() != self.bits_depth {
                    return Step::Skip;
                }
                let n = self.pos.at - start;
                self.pos = Pos { at: self.pos.at.div_ceil(8) * 8, bits: None };
                Step::Did(Some(n), true)
            }
            Op::Slice(n) => match self.moved(n, e) {
                None => Step::Did(None, true),
                Some(to) => {
                    self.stack.push(L::Slice(Pos { at: to, bits: self.pos.bits }));
                    Step::Did(Some(0), true)
                }
            },
            Op::EndSlice => {
                while let Some(L::Alts(_)) = self.stack.last() {
                    self.stack.pop();
                }
                match self.stack.pop() {
                    Some(L::Slice(p)) => {
                        self.pos = p;
                        self.fix_depth();
                        Step::Did(Some(0), true)
                    }
                    None => Step::Did(None, false),
                    _ => Step::Skip,
                }
            }
            Op::Peek => {
                self.stack.push(L::Peek(self.pos));
                Step::Did(Some(0), true)
            }
            Op::PeekNot => {
                self.stack.push(L::Not(self.pos));
                Step::Did(Some(0), true)
            }
            Op::Alt => {
                self.stack.push(L::Alts(self.pos));
                Step::Did(Some(0), true)
            }
            Op::ClosePeek => {
                let hit = |l: &L| match l {
                    L::Peek(p) | L::Seek(p) => Some(*p),
                    _ => None,
                };
                self.unwind(hit)
            }
            Op::CloseNot => self.recover(),
            Op::Next(last) => match self.recover() {
                Step::Did(Some(_), _) => {
                    if !last {
                        self.stack.push(L::Alts(self.pos));
                    }
                    Step::Did(Some(0), true)
                }
                s => s,
            },
            Op::EndAlt => match self.stack.pop() {
                Some(L::Alts(_)) => Step::Did(Some(0), true),
                _ => Step::Did(None, false),
            },
            Op::Seek(d) => {
                if self.pos.bits.is_some() {
                    return Step::Skip;
                }
                if d < e.base {
                    self.failed = true;
                    return Step::Did(None, true);
                }
                let to = (d - e.base).saturating_mul(8);
                if to >= self.pos.at {
                    self.stack.push(L::Peek(self.pos));
                    if to > self.limit(e) {
                        self.failed = true;
                        return Step::Did(None, true);
                    }
                    self.pos.at = to;
                    Step::Did(Some(1), true)
                } else {
                    self.stack.push(L::Seek(self.pos));
                    self.pos.at = to;
                    Step::Did(Some(0), true)
                }
            }
        }
    }
    fn solid(&self) -> usize {
        self.stack.iter().filter(|l| !matches!(l, L::Alts(_))).count()
    }
    fn fix_depth(&mut self) {
        // the lens depth only matters while in bits-mode entered below the remaining lenses
        if self.pos.bits.is_none() {
            self.bits_depth = 0;
        } else {
            self.bits_depth = self.bits_depth.min(self.solid());
        }
    }
    fn advance(&mut self, n: usize, e: &Env) -> Step {
        match self.moved(n, e) {
            None => Step::Did(None, true),
            Some(to) => {
                self.pos.at = to;
                Step::Did(Some(0), true)
            }
        }
    }
    fn recover(&mut self) -> Step {
        let hit = |l: &L| match l {
            L::Not(p) | L::Alts(p) => Some(*p),
            _ => None,
        };
        self.unwind(hit)
    }
    fn unwind(&mut self, hit: impl Fn(&L) -> Option<Pos>) -> Step {
        while let Some(l) = self.stack.pop() {
            if let Some(p) = hit(&l) {
                self.pos = p;
                self.failed = false;
                self.fix_depth();
                return Step::Did(Some(0), true);
            }
        }
        Step::Did(None, false)
    }
}

fn real(p: &mut Parser<'_>, op: Op) -> Out {
    match op {
        Op::Read => p.read_byte().ok().map(|b| b as usize),
        Op::Adv(n) => p.advance_by(n).ok().map(|_| 0),
        Op::Align(n) => p.skip_align(n).ok().map(|_| 0),
        Op::SkipRest => {
            p.skip_remainder();
            Some(0)
        }
        Op::Enter => p.enter_bits_mode().ok().map(|_| 0),
        Op::Escape => p.escape_bits_mode().ok(),
        Op::Slice(n) => p.start_slice(n).ok().map(|_| 0),
        Op::EndSlice => p.end_slice().ok().map(|_| 0),
        Op::Peek => {
            p.open_peek_context();
            Some(0)
        }
        Op::ClosePeek => p.close_peek_context().ok().map(|_| 0),
        Op::PeekNot => {
            p.open_peek_not_context();
            Some(0)
        }
        Op::CloseNot => p.close_peek_not_context().ok().map(|_| 0),
        Op::Alt => {
            p.start_alt();
            Some(0)
        }
        Op::Next(last) => p.next_alt(last).ok().map(|_| 0),
        Op::EndAlt => p.end_alt().ok().map(|_| 0),
        Op::Seek(d) => p.advance_or_seek(d).ok().map(|b| b as usize),
    }
}

fn check_view(v: View<'_>, from: usize, to: usize, e: &Env) -> Result<(), String> {
    let win = &e.buf[from..to];
    for k in 0..=win.len() + 1 {
        let r = v.read_len(k).ok();
        let w = win.get(..k);
        if r != w {
            return Err(format!("view.read_len({k}) = {r:?}, window holds {w:?}"));
        }
        let r = v.read_array_u8(k).ok().map(|a| a.iter().collect::<Vec<u8>>());
        if r.as_deref() != w {
            return Err(format!("view.read_array_u8({k}) = {r:?}, window holds {w:?}"));
        }
        let o = v.offset(k);
        match (&o, k <= win.len()) {
            (Ok(v2), true) => {
                let p2 = Parser::from(*v2);
                let here = (e.base + from + k) as u64;
                if p2.get_offset_u64() != here || p2.remaining() != win.len() - k {
                    return Err(format!(
                        "view.offset({k}): position {} with {} bytes left, expected {here} with {}",
                        p2.get_offset_u64(),
                        p2.remaining(),
                        win.len() - k
                    ));
                }
                let mut p2 = p2;
                let b = p2.read_byte().ok();
                if b != win.get(k).copied() {
                    return Err(format!("view.offset({k}): first byte {b:?}, expected {:?}", win.get(k)));
                }
            }
            (Err(_), false) => {}
            _ => return Err(format!("view.offset({k}) is_ok={} for a window of {}", o.is_ok(), win.len())),
        }
    }
    let w16 = win.get(..2).map(|b| (b[0] as u16) << 8 | b[1] as u16);
    if v.read_u16be().ok() != w16 {
        return Err(format!("view.read_u16be() = {:?}, expected {w16:?}", v.read_u16be().ok()));
    }
    for huge in [usize::MAX, usize::MAX / 2 + 1] {
        if v.read_len(huge).is_ok() || v.offset(huge).is_ok() {
            return Err("view accepts a huge length".into());
        }
    }
    Ok(())
}

/// Compares everything observable.
fn observe(p: &Parser<'_>, m: &M, e: &Env) -> Result<(), String> {
    let off = p.get_current_offset();
    let got = match off {
        ByteOffset::Bytes(n) => Pos { at: n * 8, bits: None },
        ByteOffset::Bits { starting_byte, bits_advanced } => {
            Pos { at: starting_byte * 8 + bits_advanced, bits: Some(starting_byte * 8) }
        }
    };
    if got != m.pos {
        return Err(format!("position {got:?}, expected {:?}", m.pos));
    }
    let nbits = m.pos.bits.map(|s| m.pos.at - s);
    if p.get_bits_read() != nbits {
        return Err(format!("bits read {:?}, expected {nbits:?}", p.get_bits_read()));
    }
    if m.failed {
        return Ok(());
    }
    let lim = m.limit(e);
    let rem = (lim - m.pos.at) / m.unit();
    if p.remaining() != rem {
        return Err(format!("remaining {}, expected {rem}", p.remaining()));
    }
    if p.finish().is_ok() != (rem == 0) {
        return Err(format!("finish().is_ok() = {}, with {rem} remaining", p.finish().is_ok()));
    }
    if m.pos.bits.is_none() {
        let here = (e.base + m.pos.at / 8) as u64;
        if p.get_offset_u64() != here {
            return Err(format!("absolute offset {}, expected {here}", p.get_offset_u64()));
        }
        if lim % 8 == 0 {
            check_view(p.view(), m.pos.at / 8, lim / 8, e)?;
        }
    }
    Ok(())
}

fn fresh<'a>(whole: &'a [u8], base: usize) -> Parser<'a> {
    if base == 0 {
        Parser::new(whole)
    } else {
        Parser::from(View::new(whole).offset(base).unwrap())
    }
}

/// Replays `ops` (all legal) on a fresh parser; checks the last `tail` steps.
fn replay(whole: &[u8], base: usize, ops: &[Op], tail: usize, full: bool) -> Result<(), String> {
    let e = Env { buf: &whole[base..], base };
    let mut p = fresh(whole, base);
    let mut m = M::new();
    for (i, op) in ops.iter().enumerate() {
        let Step::Did(want, go) = m.step(*op, &e) else { return Ok(()) };
        let got = real(&mut p, *op);
        if i + tail >= ops.len() {
            if got != want {
                return Err(format!("step {i} {op:?}: returned {got:?}, expected {want:?}"));
            }
            if go && (full || i + 1 == ops.len()) {
                observe(&p, &m, &e).map_err(|s| format!("after step {i} {op:?}: {s}"))?;
            }
        }
        if !go {
            return Ok(());
        }
    }
    Ok(())
}

fn report(ctx: &Ctx, whole: &[u8], base: usize, ops: &[Op], err: String) {
    ctx.violation(
        &format!("{ops:?} base={base} len={}", whole.len()),
        &format!("buffer {whole:?}, parser starting at {base}, operations {ops:?}: {err}"),
    );
}

fn dfs(ctx: &Ctx, w: usize, whole: &[u8], base: usize, ops: &mut Vec<Op>, m: &M, alpha: &[Op], depth: usize, n: &mut (u64, u64)) {
    if ops.len() == depth || ctx.too_many() {
        return;
    }
    let e = Env { buf: &whole[base..], base };
    for (k, op) in alpha.iter().enumerate() {
        if ops.is_empty() && k % WORKERS != w {
            continue;
        }
        let mut m2 = m.clone();
        let Step::Did(_, go) = m2.step(*op, &e) else { continue };
        ops.push(*op);
        n.0 += 1;
        n.1 += ops.len() as u64;
        if ops.len() <= 2 {
            ctx.begin(w, || format!("operation sequences from {ops:?}"));
        }
        match guarded(|| replay(whole, base, ops, 1, false)) {
            Ok(Ok(())) => {}
            Ok(Err(s)) => report(ctx, whole, base, ops, s),
            Err(s) => report(ctx, whole, base, ops, format!("panic: {s}")),
        }
        if go {
            dfs(ctx, w, whole, base, ops, &m2, alpha, depth, n);
        }
        ops.pop();
    }
}

pub fn run(ctx: &Ctx) {
    let thorough = ctx.tier == Tier::Thorough;
    let whole3: &[u8] = &[0xA5, 0x3C, 0x81];
    let whole5: &[u8] = &[0x11, 0xA5, 0x3C, 0x81, 0x7E];
    let small: Vec<Op> = vec![
        Op::Read, Op::Adv(2), Op::Adv(7), Op::Adv(usize::MAX), Op::Align(2), Op::SkipRest, Op::Enter, Op::Escape,
        Op::Slice(0), Op::Slice(1), Op::Slice(2), Op::EndSlice, Op::Peek, Op::ClosePeek, Op::PeekNot,
        Op::CloseNot, Op::Alt, Op::Next(false), Op::Next(true), Op::EndAlt, Op::Seek(0), Op::Seek(1), Op::Seek(2),
    ];
    let depth = if thorough { 6 } else { 5 };
    for base in [0usize, 1] {
        let whole = if base == 0 { whole3 } else { &whole5[..3] };
        ctx.workers(|w| {
            let mut n = (0u64, 0u64);
            let alpha = &small;
            let mut ops = vec![];
            let d = if base == 1 { depth - 1 } else { depth };
            dfs(ctx, w, whole, base, &mut ops, &M::new(), alpha, d, &mut n);
            ctx.end(w);
            ctx.add_traces(n.0);
            ctx.add_transitions(n.1);
            ctx.count("operation_sequences", n.0);
        });
    }
    // merged states
    let mut alpha: Vec<Op> = small.clone();
    alpha.extend([
        Op::Adv(1), Op::Adv(3), Op::Adv(8), Op::Adv(9), Op::Adv(17), Op::Align(1), Op::Align(3), Op::Align(4), Op::Align(8), Op::Align(16),
        Op::Slice(3), Op::Slice(4), Op::Slice(8), Op::Slice(13), Op::Slice(usize::MAX), Op::Seek(3), Op::Seek(4),
        Op::Seek(5), Op::Seek(6), Op::Seek(usize::MAX),
    ]);
    let bound = if thorough { 4 } else { 3 };
    for (whole, base) in [(whole3, 0usize), (&whole5[..4], 1), (&whole3[..0], 0), (&whole3[..1], 0), (whole5, 2)] {
        let e = Env { buf: &whole[base..], base };
        let stack_bound = if whole.len() - base >= 3 { bound - 1 } else { bound };
        let mut index: HashMap<M, u32> = HashMap::new();
        let mut states: Vec<(M, u32, Op)> = vec![(M::new(), u32::MAX, Op::Read)];
        index.insert(M::new(), 0);
        let mut i = 0;
        let mut edges: Vec<(u32, Op)> = vec![];
        while i < states.len() {
            for op in &alpha {
                let mut m = states[i].0.clone();
                let Step::Did(_, go) = m.step(*op, &e) else { continue };
                edges.push((i as u32, *op));
                if go && m.stack.len() <= stack_bound && !index.contains_key(&m) {
                    index.insert(m.clone(), states.len() as u32);
                    states.push((m, i as u32, *op));
                }
            }
            i += 1;
        }
        ctx.add_states(states.len() as u64);
        ctx.count("merged_states", states.len() as u64);
        ctx.count("merged_edges", edges.len() as u64);
        ctx.add_traces(edges.len() as u64);
        let path = |mut s: u32| {
            let mut p = vec![];
            while s != u32::MAX {
                let (_, prev, op) = &states[s as usize];
                if *prev != u32::MAX {
                    p.push(*op);
                }
                s = *prev;
            }
            p.reverse();
            p
        };
        let chunks = edges.len().div_ceil(512);
        ctx.par(chunks, |w, c| {
            ctx.begin(w, || format!("merged-state edges chunk {c} of buffer {whole:?} base {base}"));
            for (s, op) in &edges[c * 512..((c + 1) * 512).min(edges.len())] {
                let mut ops = path(*s);
                ops.push(*op);
                ctx.add_transitions(ops.len() as u64);
                match guarded(|| replay(whole, base, &ops, 1, false)) {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) => report(ctx, whole, base, &ops, m),
                    Err(m) => report(ctx, whole, base, &ops, format!("panic: {m}")),
                }
            }
        });
        if let Some((s, op)) = edges.last() {
            let mut p = path(*s);
            p.push(*op);
            ctx.sample(|| format!("buffer {whole:?} base {base}: {p:?}"));
        }
    }
    ctx.note(format!(
        "all sequences of {} operations up to length {depth} (length {} for a parser over a view) on a 3-byte buffer without merging, \
         plus every edge of the merged model-state graph (operations: {}; lens stack at most {bound} deep, {} on buffers of 3 bytes) for buffers of 0, 1 and 3 bytes and views at offsets 1 and 2; \
         each sequence is replayed on a fresh real Parser and position, mode, remaining, finish, absolute offset and view window are compared",
        small.len(), depth - 1, alpha.len(), bound - 1
    ));
}
