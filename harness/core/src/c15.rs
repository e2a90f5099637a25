//! C15: the binary reading layer. The reachable states of a reading context over a fixed buffer
//! are (window, position) triples, so the state graph is finite: every edge of it is taken on the
//! real context (rebuilt by replaying the path that reached the state) and compared with the model.
use crate::report::{Ctx, Tier, WORKERS, guarded};
use crate::rv::RV;
use doodle::decoder::{Compiler, Scope};
use doodle::helper;
use doodle::loc_decoder::LocScope;
use doodle::prelude::allsorts::binary::read::{CheckIndex, ReadArray, ReadArrayCow, ReadBuf, ReadCtxt as SCtxt, ReadScope, ReadScopeOwned, ReadUnchecked};
use doodle::prelude::allsorts::binary::{I8, I16Be, I32Be, I64Be, U8, U16Be, U24Be, U32Be, U64Be};
use doodle::prelude::allsorts::tag::{self, DisplayTag};
use doodle::prelude::{CommonObject, PResult, Parser, View};
use doodle::read::ReadCtxt;
use doodle::{Format, FormatModule};
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicU64, Ordering};

type Nums = Vec<i128>;

/// what the bytes mean, independent of the code under test
fn big(b: &[u8], signed: bool) -> i128 {
    let mut n: i128 = 0;
    for x in b {
        n = n * 256 + *x as i128;
    }
    if signed && !b.is_empty() && b[0] >= 128 { n - (1i128 << (8 * b.len())) } else { n }
}
/// layout of an element: signed size per component
fn elem(layout: &[i8], b: &[u8]) -> Nums {
    let mut at = 0;
    layout
        .iter()
        .map(|l| {
            let n = l.unsigned_abs() as usize;
            let r = big(&b[at..at + n], *l < 0);
            at += n;
            r
        })
        .collect()
}
fn size(layout: &[i8]) -> usize {
    layout.iter().map(|l| l.unsigned_abs() as usize).sum()
}

trait ToNums {
    fn nums(self) -> Nums;
}
macro_rules! prim { ($($t:ty),*) => { $( impl ToNums for $t { fn nums(self) -> Nums { vec![self as i128] } } )* } }
prim!(u8, i8, u16, i16, u32, i32, u64, i64);
impl<A: ToNums, B: ToNums> ToNums for (A, B) {
    fn nums(self) -> Nums {
        [self.0.nums(), self.1.nums()].concat()
    }
}
impl<A: ToNums, B: ToNums, C: ToNums> ToNums for (A, B, C) {
    fn nums(self) -> Nums {
        [self.0.nums(), self.1.nums(), self.2.nums()].concat()
    }
}
impl<A: ToNums, B: ToNums, C: ToNums, D: ToNums> ToNums for (A, B, C, D) {
    fn nums(self) -> Nums {
        [self.0.nums(), self.1.nums(), self.2.nums(), self.3.nums()].concat()
    }
}

const LAYOUTS: [&[i8]; 12] = [
    &[1],
    &[-1],
    &[2],
    &[-2],
    &[3],
    &[4],
    &[-4],
    &[8],
    &[-8],
    &[1, 2],
    &[2, 1, -1],
    &[-1, 1, -2, 3],
];
macro_rules! per_layout {
    ($k:expr, $t:ident => $e:expr) => {
        match $k {
            0 => { type $t = U8; $e }
            1 => { type $t = I8; $e }
            2 => { type $t = U16Be; $e }
            3 => { type $t = I16Be; $e }
            4 => { type $t = U24Be; $e }
            5 => { type $t = U32Be; $e }
            6 => { type $t = I32Be; $e }
            7 => { type $t = U64Be; $e }
            8 => { type $t = I64Be; $e }
            9 => { type $t = (U8, U16Be); $e }
            10 => { type $t = (U16Be, U8, I8); $e }
            _ => { type $t = (I8, U8, I16Be, U24Be); $e }
        }
    };
}

/// Checks every observer of an array against its elements; `raw` is the array's bytes.
fn array_obs<T>(a: &ReadArray<'_, T>, want: &[Nums]) -> Result<(), String>
where
    T: ReadUnchecked,
    T::HostType: ToNums + Copy + PartialEq + std::fmt::Debug,
{
    macro_rules! eq {
        ($what:expr, $l:expr, $r:expr) => {{
            let (l, r) = ($l, $r);
            if l != r {
                return Err(format!("{}: got {l:?}, expected {r:?}", $what));
            }
        }};
    }
    let n = want.len();
    eq!("len", a.len(), n);
    eq!("is_empty", a.is_empty(), n == 0);
    for i in (0..n + 2).chain([usize::MAX / 2, usize::MAX]) {
        eq!(format!("get_item({i})"), a.get_item(i).map(|x| x.nums()), want.get(i).cloned());
        eq!(format!("read_item({i})"), a.read_item(i).ok().map(|x| x.nums()), want.get(i).cloned());
        eq!(format!("check_index({i})"), a.check_index(i).is_ok(), i < n);
    }
    eq!("last", a.last().map(|x| x.nums()), want.last().cloned());
    eq!("to_vec", a.to_vec().into_iter().map(|x| x.nums()).collect::<Vec<_>>(), want.to_vec());
    eq!("read_to_vec", a.read_to_vec().map(|v| v.into_iter().map(|x| x.nums()).collect::<Vec<_>>()).ok(), Some(want.to_vec()));
    let mut it = a.iter();
    for k in 0..n + 2 {
        eq!(format!("iter len before {k}"), it.len(), n.saturating_sub(k));
        eq!(format!("iter next {k}"), it.next().map(|x| x.nums()), want.get(k).cloned());
    }
    let mut it = a.iter_res();
    for k in 0..n + 2 {
        eq!(format!("iter_res size_hint before {k}"), it.size_hint(), (n.saturating_sub(k), Some(n.saturating_sub(k))));
        eq!(format!("iter_res next {k}"), it.next().map(|x| x.map(|y| y.nums()).ok()), want.get(k).cloned().map(Some));
    }
    eq!("into_iter", a.into_iter().map(|x| x.nums()).collect::<Vec<_>>(), want.to_vec());
    let c = *a;
    eq!("copy", c.iter().map(|x| x.nums()).collect::<Vec<_>>(), want.to_vec());
    for cow in [ReadArrayCow::Borrowed(*a), ReadArrayCow::<T>::Owned(a.to_vec())] {
        eq!("cow len", cow.len(), n);
        eq!("cow is_empty", cow.is_empty(), n == 0);
        for i in (0..n + 2).chain([usize::MAX]) {
            eq!(format!("cow get_item({i})"), cow.get_item(i).map(|x| x.nums()), want.get(i).cloned());
            eq!(format!("cow read_item({i})"), cow.read_item(i).ok().map(|x| x.nums()), want.get(i).cloned());
            eq!(format!("cow check_index({i})"), cow.check_index(i).is_ok(), i < n);
        }
        let mut it = cow.iter();
        for k in 0..n + 2 {
            eq!(format!("cow size_hint before {k}"), it.size_hint(), (n.saturating_sub(k), Some(n.saturating_sub(k))));
            eq!(format!("cow next {k}"), it.next().map(|x| x.nums()), want.get(k).cloned());
        }
        eq!("cow debug", format!("{cow:?}"), format!("{:?}", a.to_vec()));
    }
    eq!("debug", format!("{a:?}"), format!("{:?}", a.to_vec()));
    Ok(())
}

/// An operation on a reading context; the number is a size, count or nibble.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Read(usize),
    Fixed(usize),
    Slice(usize),
    EnterScope(usize),
    Rescope,
    Array(usize, usize),
    Stride(usize, usize, usize),
    Upto(usize, usize),
    Nibble(u8),
    Offset(usize),
    OffsetLength(usize, usize),
    Owned,
}

/// model: window of the buffer and a position in it
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct St {
    lo: usize,
    hi: usize,
    at: usize,
}

enum Want {
    Fail,
    Nums(Nums),
    Bytes(Vec<u8>),
    Arr(Vec<Nums>),
    Unit,
}

fn arr(data: &[u8], s: St, k: usize, n: usize, stride: usize) -> Option<(Vec<Nums>, usize)> {
    let z = size(LAYOUTS[k]);
    if z > stride {
        return None;
    }
    let total = n.checked_mul(stride)?;
    if total > s.hi - s.at {
        return None;
    }
    Some(((0..n).map(|i| elem(LAYOUTS[k], &data[s.at + i * stride..][..z])).collect(), total))
}

fn model(data: &[u8], s: St, op: Op) -> (Want, St) {
    let left = s.hi - s.at;
    let adv = |n: usize| St { at: s.at + n, ..s };
    match op {
        Op::Read(k) | Op::Fixed(k) => {
            let z = size(LAYOUTS[k]);
            if z > left { (Want::Fail, s) } else { (Want::Nums(elem(LAYOUTS[k], &data[s.at..s.at + z])), adv(z)) }
        }
        Op::Slice(n) => {
            if n > left { (Want::Fail, s) } else { (Want::Bytes(data[s.at..s.at + n].to_vec()), adv(n)) }
        }
        Op::EnterScope(n) => {
            if n > left { (Want::Fail, s) } else { (Want::Unit, St { lo: s.at, hi: s.at + n, at: s.at }) }
        }
        Op::Rescope => (Want::Unit, St { lo: s.at, hi: s.hi, at: s.at }),
        Op::Owned => (Want::Unit, St { lo: s.at, hi: s.hi, at: s.at }),
        Op::Offset(n) => {
            let at = s.hi.min(s.at + n);
            (Want::Unit, St { lo: at, hi: s.hi, at })
        }
        Op::OffsetLength(o, n) => {
            // an empty range is granted anywhere; otherwise it must lie inside
            if n == 0 {
                let at = s.hi.min(s.at + o);
                (Want::Unit, St { lo: at, hi: at, at })
            } else if o + n <= left {
                (Want::Unit, St { lo: s.at + o, hi: s.at + o + n, at: s.at + o })
            } else {
                (Want::Fail, s)
            }
        }
        Op::Array(k, n) => match arr(data, s, k, n, size(LAYOUTS[k])) {
            None => (Want::Fail, s),
            Some((v, z)) => (Want::Arr(v), adv(z)),
        },
        Op::Stride(k, n, st) => match arr(data, s, k, n, st) {
            None => (Want::Fail, s),
            Some((v, z)) => (Want::Arr(v), adv(z)),
        },
        Op::Upto(k, n) => {
            let n = n.min(left / size(LAYOUTS[k]));
            let (v, z) = arr(data, s, k, n, size(LAYOUTS[k])).unwrap();
            (Want::Arr(v), adv(z))
        }
        Op::Nibble(b) => match data[s.at..s.hi].iter().position(|x| x / 16 == b || x % 16 == b) {
            None => (Want::Fail, s),
            Some(i) => (Want::Bytes(data[s.at..s.at + i + 1].to_vec()), adv(i + 1)),
        },
    }
}

/// Applies `op` to the real context, compares the answer; Err is a mismatch.
fn real<'a>(ctxt: &mut SCtxt<'a>, op: Op, want: &Want) -> Result<(), String> {
    fn seen<T: std::fmt::Debug>(got: Option<T>, want: &Want) -> Result<(), String> {
        match (got, want) {
            (None, Want::Fail) => Ok(()),
            (None, _) => Err("got an error, expected success".into()),
            (Some(g), Want::Fail) => Err(format!("got {g:?}, expected an error")),
            (Some(_), _) => Ok(()),
        }
    }
    let num = |got: Option<Nums>| match (&got, want) {
        (Some(g), Want::Nums(w)) if g != w => Err(format!("got {g:?}, expected {w:?}")),
        _ => seen(got, want),
    };
    let bytes = |got: Option<&[u8]>| match (&got, want) {
        (Some(g), Want::Bytes(w)) if g != w => Err(format!("got {g:?}, expected {w:?}")),
        _ => seen(got, want),
    };
    match op {
        Op::Read(k) => num(per_layout!(k, T => ctxt.read::<T>().ok().map(|x| x.nums()))),
        Op::Fixed(k) => num(match k {
            0 => ctxt.read_u8().ok().map(|x| x.nums()),
            1 => ctxt.read_i8().ok().map(|x| x.nums()),
            2 => ctxt.read_u16be().ok().map(|x| x.nums()),
            3 => ctxt.read_i16be().ok().map(|x| x.nums()),
            5 => ctxt.read_u32be().ok().map(|x| x.nums()),
            6 => ctxt.read_i32be().ok().map(|x| x.nums()),
            7 => ctxt.read_u64be().ok().map(|x| x.nums()),
            8 => ctxt.read_i64be().ok().map(|x| x.nums()),
            _ => per_layout!(k, T => {
                // through a scope, then skipping what was read
                let r = ctxt.scope().read::<T>().ok().map(|x| x.nums());
                if r.is_some() {
                    ctxt.read_slice(size(LAYOUTS[k])).map_err(|_| "skip failed".to_string())?;
                }
                r
            }),
        }),
        Op::Slice(n) => bytes(ctxt.read_slice(n).ok()),
        Op::Nibble(b) => bytes(ctxt.read_until_nibble(b).ok()),
        Op::EnterScope(n) => {
            let r = ctxt.read_scope(n).ok();
            if let Some(s) = r {
                *ctxt = s.ctxt();
            }
            seen(r, want)
        }
        Op::Rescope => {
            *ctxt = ctxt.scope().ctxt();
            Ok(())
        }
        Op::Owned => {
            // copied out and back must denote the same bytes
            let o = ReadScopeOwned::new(ctxt.scope());
            let b = ReadBuf::from(ctxt.scope().data());
            let v = ReadBuf::from(ctxt.scope().data().to_vec());
            if o.scope() != ctxt.scope() || b.scope().data() != ctxt.scope().data() || v.scope().data() != ctxt.scope().data() || v.into_data() != b.into_data() {
                return Err("owned copy differs".into());
            }
            *ctxt = ctxt.scope().ctxt();
            Ok(())
        }
        Op::Offset(n) => {
            *ctxt = ctxt.scope().offset(n).ctxt();
            Ok(())
        }
        Op::OffsetLength(o, n) => {
            let r = ctxt.scope().offset_length(o, n).ok();
            if let Some(s) = r {
                *ctxt = s.ctxt();
            }
            seen(r, want)
        }
        Op::Array(k, _) | Op::Stride(k, _, _) | Op::Upto(k, _) => per_layout!(k, T => {
            let r = match op {
                Op::Array(_, n) => ctxt.read_array::<T>(n).ok(),
                Op::Stride(_, n, st) => ctxt.read_array_stride::<T>(n, st).ok(),
                Op::Upto(_, n) => ctxt.read_array_upto_hack::<T>(n).ok(),
                _ => unreachable!(),
            };
            match (&r, want) {
                (Some(a), Want::Arr(w)) => array_obs(a, w),
                _ => seen(r.map(|a| a.len()), want),
            }
        }),
    }
}

fn ops(full: bool) -> Vec<Op> {
    let mut v = vec![Op::Rescope, Op::Owned];
    for k in 0..LAYOUTS.len() {
        v.push(Op::Read(k));
        v.push(Op::Fixed(k));
        for n in [0, 1, 2, 3, 5, 1 << 60, 1 << 61, 1 << 63, usize::MAX] {
            v.push(Op::Array(k, n));
            v.push(Op::Upto(k, n));
        }
        for st in [1, 2, 3, 5, 9, 1 << 62] {
            for n in [0, 1, 2, 3, 8, usize::MAX] {
                v.push(Op::Stride(k, n, st));
            }
        }
    }
    for n in [0, 1, 2, 3, 4, 7, 11, usize::MAX] {
        v.push(Op::Slice(n));
        v.push(Op::EnterScope(n));
    }
    for n in [0, 1, 3, 20] {
        v.push(Op::Offset(n));
        for m in [0, 1, 2, 20] {
            v.push(Op::OffsetLength(n, m));
        }
    }
    for b in if full { 0..16 } else { 7..16 } {
        v.push(Op::Nibble(b));
    }
    v
}

fn explore(ctx: &Ctx, w: usize, data: &[u8], full: bool, edges: &AtomicU64, states: &AtomicU64) {
    let ops = ops(full);
    let start = St { lo: 0, hi: data.len(), at: 0 };
    let mut paths: HashMap<St, Vec<Op>> = HashMap::new();
    paths.insert(start, vec![]);
    let mut todo = VecDeque::from([start]);
    while let Some(s) = todo.pop_front() {
        if ctx.too_many() {
            break;
        }
        let path = paths[&s].clone();
        for op in &ops {
            ctx.begin(w, || format!("{data:?} {path:?} {op:?}"));
            edges.fetch_add(1, Ordering::Relaxed);
            let (want, next) = model(data, s, *op);
            let r = guarded(|| {
                let mut c = ReadScope::new(data).ctxt();
                for p in &path {
                    // replays were compared when the edge was first taken
                    let _ = real(&mut c, *p, &Want::Unit);
                }
                real(&mut c, *op, &want)?;
                if c.scope().data() != &data[next.at..next.hi] {
                    return Err(format!("remaining {:?}, expected {:?}", c.scope().data(), &data[next.at..next.hi]));
                }
                if c.bytes_available() != (next.at < next.hi) {
                    return Err("bytes_available is wrong".into());
                }
                Ok(())
            });
            let r = match r {
                Ok(r) => r,
                Err(e) => Err(format!("panic {e}")),
            };
            if let Err(e) = r {
                let k = format!("reading {data:?} after {path:?}: {op:?}");
                ctx.violation(&k, &format!("{k}: {e}"));
                continue;
            }
            if !paths.contains_key(&next) {
                let mut p = path.clone();
                p.push(*op);
                paths.insert(next, p);
                todo.push_back(next);
            }
        }
    }
    states.fetch_add(paths.len() as u64, Ordering::Relaxed);
}

/// doodle's own cursor: same idea, the state is (end, offset) and both halves of a split are kept
fn cursor(ctx: &Ctx, data: &[u8], edges: &AtomicU64, states: &AtomicU64) {
    #[derive(Clone, Copy, Debug)]
    enum C {
        R(usize),
        Fst(usize),
        Snd(usize),
        Seek(usize),
    }
    let mut ops = vec![C::R(1), C::R(2), C::R(4), C::R(8)];
    for n in (0..data.len() + 2).chain([usize::MAX - 1, usize::MAX]) {
        ops.extend([C::Fst(n), C::Snd(n), C::Seek(n)]);
    }
    fn step<'a>(c: ReadCtxt<'a>, op: C) -> Option<(u64, ReadCtxt<'a>)> {
        match op {
            C::R(1) => c.read_byte().map(|(x, c)| (x as u64, c)),
            C::R(2) => c.read_u16be().map(|(x, c)| (x as u64, c)),
            C::R(4) => c.read_u32be().map(|(x, c)| (x as u64, c)),
            C::R(_) => c.read_u64be(),
            C::Fst(n) => c.split_at(n).map(|x| (0, x.0)),
            C::Snd(n) => c.split_at(n).map(|x| (0, x.1)),
            C::Seek(n) => c.seek_to(n).map(|x| (0, x)),
        }
    }
    let mut paths: HashMap<(usize, usize), Vec<C>> = HashMap::new();
    paths.insert((data.len(), 0), vec![]);
    let mut todo = VecDeque::from([(data.len(), 0)]);
    while let Some((end, at)) = todo.pop_front() {
        let path = paths[&(end, at)].clone();
        for op in &ops {
            edges.fetch_add(1, Ordering::Relaxed);
            ctx.begin(WORKERS, || format!("{data:?} {path:?} {op:?}"));
            let want: Option<(u64, (usize, usize))> = match *op {
                C::R(n) if n <= end - at => Some((big(&data[at..at + n], false) as u64, (end, at + n))),
                C::Fst(n) if n <= end - at => Some((0, (at + n, at))),
                C::Snd(n) if n <= end - at => Some((0, (end, at + n))),
                C::Seek(n) if n <= end => Some((0, (end, n))),
                _ => None,
            };
            let got = guarded(|| {
                let mut c = ReadCtxt::new(data);
                for p in &path {
                    c = step(c, *p).unwrap().1;
                }
                let before = (c.input, c.offset);
                let r = step(c, *op).map(|(x, c)| (x, (c.input, c.offset, c.remaining().to_vec())));
                assert!(before == (c.input, c.offset), "the original cursor changed");
                r
            });
            let want_obs = want.map(|(x, (e, a))| (x, (&data[..e], a, data[a..e].to_vec())));
            match got {
                Ok(g) if g == want_obs => {}
                g => {
                    let k = format!("cursor over {data:?} after {path:?}: {op:?}");
                    ctx.violation(&k, &format!("{k}: got {g:?}, expected {want_obs:?}"));
                    continue;
                }
            }
            if let Some((_, n)) = want {
                if !paths.contains_key(&n) {
                    let mut p = path.clone();
                    p.push(*op);
                    paths.insert(n, p);
                    todo.push_back(n);
                }
            }
        }
    }
    states.fetch_add(paths.len() as u64, Ordering::Relaxed);
}

struct Pair;
impl CommonObject for Pair {
    type Args<'a> = u8;
    type Output<'a> = (u8, u8, u64);
    fn parse<'i>(p: &mut Parser<'i>, args: u8) -> PResult<(u8, u8, u64)> {
        let a = p.read_byte()?;
        let b = p.read_byte()?;
        Ok((a, b ^ args, p.get_offset_u64()))
    }
}

fn views(ctx: &Ctx, data: &[u8], edges: &AtomicU64) {
    let counts = || (0..data.len() + 2).chain([1 << 61, 1 << 63, usize::MAX]);
    for lo in counts() {
        for more in counts() {
            ctx.begin(WORKERS, || format!("view {data:?} {lo} {more}"));
            edges.fetch_add(1, Ordering::Relaxed);
            let r = guarded(|| -> Result<(), String> {
                let v0 = View::new(data);
                let ok = lo <= data.len();
                let v = match v0.offset(lo) {
                    Ok(v) if ok => v,
                    Err(_) if !ok => return Ok(()),
                    r => return Err(format!("offset({lo}) gave {}", if r.is_ok() { "a view" } else { "an error" })),
                };
                let rest = &data[lo..];
                if v.read_len(more).ok() != rest.get(..more) {
                    return Err(format!("read_len({more})"));
                }
                if v.read_u16be().ok() != rest.get(..2).map(|b| big(b, false) as u16) {
                    return Err("read_u16be".into());
                }
                let want = |k: usize| arr(data, St { lo, hi: data.len(), at: lo }, k, more, size(LAYOUTS[k])).map(|x| x.0);
                macro_rules! one {
                    ($e:expr, $k:expr) => {
                        match ($e, want($k)) {
                            (Ok(a), Some(w)) => array_obs(&a, &w).map_err(|e| format!("{}: {e}", stringify!($e)))?,
                            (Err(_), None) => {}
                            (r, w) => return Err(format!("{}: got {}, expected {w:?}", stringify!($e), if r.is_ok() { "an array" } else { "an error" })),
                        }
                    };
                }
                one!(v.read_array_u8(more), 0);
                one!(v.read_array_u16be(more), 2);
                one!(v.read_array_u32be(more), 5);
                one!(v.read_array_u64be(more), 7);
                // offsets accumulate, and objects are parsed where they lie
                let at = lo.checked_add(more).filter(|x| *x <= data.len());
                match (v.offset(more), at) {
                    (Ok(w), Some(a)) => {
                        if w.read_len(data.len() - a).ok() != Some(&data[a..]) {
                            return Err("offset of offset".into());
                        }
                    }
                    (Err(_), None) => {}
                    (r, _) => return Err(format!("offset({more}) of a view gave {}", if r.is_ok() { "a view" } else { "an error" })),
                }
                let obj = at.filter(|a| a + 2 <= data.len()).map(|a| (data[a], data[a + 1] ^ 5, a as u64 + 2));
                if Pair::parse_offset(v, more, 5).ok() != obj {
                    return Err(format!("parse_offset({more}): {:?}, expected {obj:?}", Pair::parse_offset(v, more, 5).ok()));
                }
                let nul = if more == 0 { Some(None) } else { obj.map(Some) };
                if Pair::parse_nullable_offset(v, more, 5).ok() != nul {
                    return Err(format!("parse_nullable_offset({more})"));
                }
                Ok(())
            });
            let r = match r {
                Ok(r) => r,
                Err(e) => Err(format!("panic {e}")),
            };
            if let Err(e) = r {
                let k = format!("view of {data:?} at {lo} with {more}");
                ctx.violation(&k, &format!("{k}: {e}"));
            }
        }
    }
}

fn searches(ctx: &Ctx, max: usize, edges: &AtomicU64) {
    // every non-decreasing byte array up to `max` over 0..=4, every target, every comparison direction used
    for n in 0..=max {
        for k in 0..5usize.pow(n as u32) {
            let mut x = k;
            let v: Vec<u8> = (0..n)
                .map(|_| {
                    let d = (x % 5) as u8;
                    x /= 5;
                    d
                })
                .collect();
            if v.windows(2).any(|p| p[0] > p[1]) {
                continue;
            }
            for (wide, gap, pad) in [(false, 0, 0u8), (false, 1, 0), (false, 2, 9), (true, 0, 0), (true, 1, 7)] {
                let bytes: Vec<u8> = v
                    .iter()
                    .flat_map(|e| {
                        let mut o = if wide { vec![*e, 255 - *e] } else { vec![*e] };
                        o.extend(vec![pad; gap]);
                        o
                    })
                    .collect();
                for t in 0..=5u8 {
                    edges.fetch_add(1, Ordering::Relaxed);
                    ctx.begin(WORKERS, || format!("search {v:?} {t}"));
                    let r = guarded(|| {
                        let mut c = ReadScope::new(&bytes).ctxt();
                        if wide {
                            let t = u16::from_be_bytes([t, 255 - t]);
                            match gap {
                                0 => c.read_array::<U16Be>(n).unwrap(),
                                _ => c.read_array_stride::<U16Be>(n, 2 + gap).unwrap(),
                            }
                            .binary_search_by(|e| e.cmp(&t))
                        } else {
                            match gap {
                                0 => c.read_array::<U8>(n).unwrap(),
                                _ => c.read_array_stride::<U8>(n, 1 + gap).unwrap(),
                            }
                            .binary_search_by(|e| e.cmp(&t))
                        }
                    });
                    let lower = v.iter().filter(|e| **e < t).count();
                    let has = v.contains(&t);
                    let good = match r {
                        Ok(Ok(i)) => has && i < n && v[i] == t,
                        Ok(Err(i)) => !has && i == lower,
                        Err(_) => false,
                    };
                    if !good {
                        let k = format!("binary search for {t} in {v:?} ({} bytes each, {gap} between)", 1 + wide as usize);
                        ctx.violation(&k, &format!("{k}: got {r:?}"));
                    }
                }
            }
        }
    }
}

fn tags(ctx: &Ctx, q: bool, edges: &AtomicU64) {
    let bad = |k: String, d: String| ctx.violation(&k, &format!("{k}: {d}"));
    let printable = |b: u8| (0x20..0x7f).contains(&b);
    let one = |t: u32| {
        edges.fetch_add(1, Ordering::Relaxed);
        let b = t.to_be_bytes();
        let s = match guarded(|| (DisplayTag(t).to_string(), format!("{:?}", DisplayTag(t)))) {
            Ok((s, d)) if s == d => s,
            r => return bad(format!("tag {t:#x}"), format!("{r:?}")),
        };
        let want = if b.iter().all(|x| printable(*x)) { b.iter().map(|x| *x as char).collect() } else { format!("0x{t:08x}") };
        if s != want {
            return bad(format!("tag {t:#x}"), format!("printed {s:?}, expected {want:?}"));
        }
        if b.iter().all(|x| printable(*x)) && guarded(|| tag::from_string(&s)) != Ok(Ok(t)) {
            bad(format!("tag {t:#x}"), "text does not read back".into());
        }
    };
    // all values of each byte pair position over boundary bytes elsewhere
    let edge = [0u8, 0x1f, 0x20, 0x2f, 0x41, 0x7e, 0x7f, 0x80, 0xff];
    for a in edge {
        for b in edge {
            for c in edge {
                for d in edge {
                    one(u32::from_be_bytes([a, b, c, d]));
                }
            }
        }
    }
    for pos in 0..4 {
        for other in [0x20u8, 0x61] {
            for x in 0..=255 {
                let mut b = [other; 4];
                b[pos] = x;
                one(u32::from_be_bytes(b));
            }
        }
    }
    if !q {
        for x in 0..=u16::MAX {
            one(0x2041_0000 | x as u32);
            one((x as u32) << 16 | 0x7e61);
        }
    }
    let alpha = ["", " ", "!", "A", "z", "~", "\u{7f}", "\u{1f}", "\n", "\u{e9}", "\u{80}", "\u{20ac}", "\u{1f600}"];
    let mut texts: Vec<String> = vec![String::new()];
    for _ in 0..5 {
        let mut next: Vec<String> = texts.iter().flat_map(|t| alpha.iter().map(move |a| format!("{t}{a}"))).collect();
        next.sort();
        next.dedup();
        texts = next.into_iter().filter(|t| t.chars().count() <= 5 && t.len() <= 6).collect();
    }
    for s in texts {
        edges.fetch_add(1, Ordering::Relaxed);
        let want = if s.len() <= 4 && s.bytes().all(printable) {
            let mut b = [b' '; 4];
            b[..s.len()].copy_from_slice(s.as_bytes());
            Some(u32::from_be_bytes(b))
        } else {
            None
        };
        let got = guarded(|| tag::from_string(&s));
        match &got {
            Ok(r) if r.as_ref().ok() == want.as_ref() => {}
            _ => bad(format!("tag text {s:?}"), format!("got {got:?}, expected {want:?}")),
        }
    }
}

fn formats(ctx: &Ctx, edges: &AtomicU64) {
    use helper::base;
    let fs: Vec<(&str, Format, usize, bool, bool)> = vec![
        ("u8", base::u8(), 1, false, false),
        ("u16be", base::u16be(), 2, false, false),
        ("u16le", base::u16le(), 2, true, false),
        ("u32be", base::u32be(), 4, false, false),
        ("u32le", base::u32le(), 4, true, false),
        ("u64be", base::u64be(), 8, false, false),
        ("u64le", base::u64le(), 8, true, false),
        ("i8", base::i8(), 1, false, true),
        ("i16be", base::i16be(), 2, false, true),
        ("i32be", base::i32be(), 4, false, true),
        ("i64be", base::i64be(), 8, false, true),
    ];
    let module = FormatModule::new();
    let run = |name: String, f: Format, inputs: Vec<Vec<u8>>, want: &dyn Fn(&[u8]) -> Option<(RV, usize)>| {
        let p = match guarded(|| Compiler::compile_program(&module, &f)) {
            Ok(Ok(p)) => p,
            r => return ctx.violation(&name, &format!("{name}: does not compile: {:?}", r.err())),
        };
        for i in inputs {
            edges.fetch_add(1, Ordering::Relaxed);
            ctx.begin(WORKERS, || format!("{name} on {i:?}"));
            let w = want(&i);
            let a = guarded(|| p.decoders[0].0.parse(&p, &Scope::Empty, ReadCtxt::new(&i)).ok().map(|r| {
                let (v, c) = r.into_inner();
                (crate::rv::from_value(&v), c.offset)
            }));
            let b = guarded(|| p.decoders[0].0.parse_with_loc(&p, &LocScope::Empty, ReadCtxt::new(&i)).ok().map(|r| {
                let (v, c) = r.into_inner();
                (crate::rv::from_value(&v.clone_into_value()), c.offset)
            }));
            for (who, g) in [("interpreter", a), ("tracking interpreter", b)] {
                if g.as_ref().ok() != Some(&w) {
                    let k = format!("{who} {name} on {i:?}");
                    ctx.violation(&k, &format!("{k}: got {g:?}, expected {w:?}"));
                }
            }
        }
    };
    for (name, f, n, le, signed) in fs {
        for pre in 0..3usize {
            let f = helper::tuple((0..pre).map(|_| Format::ANY_BYTE).chain([f.clone()]));
            let mut inputs = vec![];
            for len in 0..pre + n + 3 {
                inputs.push((0..len).map(|i| (17 * i + 129) as u8).collect());
            }
            for pos in 0..n {
                for x in 0..=255u8 {
                    for fill in [0u8, 0xff, 0x5a] {
                        let mut v = vec![fill; pre + n];
                        v[pre + pos] = x;
                        inputs.push(v);
                    }
                }
            }
            run(format!("{name} after {pre}"), f, inputs, &|i: &[u8]| {
                let b = i.get(pre..pre + n)?;
                let mut b = b.to_vec();
                if le {
                    b.reverse();
                }
                let mut t: Vec<RV> = i[..pre].iter().map(|x| RV::Int(8, *x as i128)).collect();
                t.push(RV::Int(0, big(&b, signed)));
                Some((RV::Tup(t), pre + n))
            });
        }
    }
    // signatures
    let alpha = [0u8, 1, 255];
    let strings = |max: usize| -> Vec<Vec<u8>> {
        let mut all = vec![vec![]];
        let mut last = vec![vec![]];
        for _ in 0..max {
            last = last.iter().flat_map(|s: &Vec<u8>| alpha.iter().map(move |a| [s.clone(), vec![*a]].concat())).collect();
            all.extend(last.clone());
        }
        all
    };
    for sig in strings(3) {
        let bytes = |i: &[u8]| -> Option<Vec<RV>> { i.starts_with(&sig).then(|| sig.iter().map(|x| RV::Int(8, *x as i128)).collect()) };
        run(format!("is_bytes {sig:?}"), helper::is_bytes(&sig), strings(4), &|i| bytes(i).map(|v| (RV::Tup(v), sig.len())));
        if !sig.is_empty() {
            run(format!("byte_seq {sig:?}"), helper::byte_seq(&sig), strings(4), &|i| bytes(i).map(|v| (RV::Seq(v), sig.len())));
        }
    }
    let all1: Vec<Vec<u8>> = (0..=255u8).map(|x| vec![x]).chain([vec![]]).collect();
    for b in [0u8, 1, 63, 64, 127, 128, 254, 255] {
        let got = |i: &[u8], ok: &dyn Fn(u8) -> bool| i.first().filter(|x| ok(**x)).map(|x| (RV::Int(8, *x as i128), 1));
        run(format!("is_byte {b}"), helper::is_byte(b), all1.clone(), &|i| got(i, &|x| x == b));
        run(format!("not_byte {b}"), helper::not_byte(b), all1.clone(), &|i| got(i, &|x| x != b));
        run(format!("byte_in ..={b}"), helper::byte_in(3..=b), all1.clone(), &|i| got(i, &|x| (3..=b).contains(&x)));
        run(format!("byte_in [{b}, 7]"), helper::byte_in([b, 7]), all1.clone(), &|i| got(i, &|x| x == b || x == 7));
        for n in 0..4u32 {
            let ins: Vec<Vec<u8>> = (0..5).flat_map(|l| (0..=l).map(move |k| (0..l).map(|j| if j == k { b ^ 1 } else { b }).collect())).collect();
            run(format!("repeat_byte {n} {b}"), helper::repeat_byte(n, b), ins, &|i| {
                let p = i.get(..n as usize)?;
                p.iter().all(|x| *x == b).then(|| (RV::Seq(p.iter().map(|x| RV::Int(8, *x as i128)).collect()), n as usize))
            });
        }
    }
}

pub fn run(ctx: &'static Ctx) {
    let q = ctx.tier == Tier::Quick;
    ctx.note("complete reachable state graph of the reading contexts over each buffer (window x position) under every operation, every edge replayed on the real context; views, searches, tags, fixed-width and signature formats exhaustively within the bounds");
    let (edges, states) = (AtomicU64::new(0), AtomicU64::new(0));
    let top = if q { 9 } else { 18 };
    let mut bufs: Vec<Vec<u8>> = vec![];
    for n in 0..=top {
        bufs.push((0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(0x91)).collect());
        bufs.push((0..n).map(|i| 0x7f - 16 * (i as u8 % 8)).collect());
    }
    ctx.par(bufs.len(), |w, i| explore(ctx, w, &bufs[bufs.len() - 1 - i], !q, &edges, &states));
    for b in &bufs {
        cursor(ctx, b, &edges, &states);
        if b.len() <= 12 {
            views(ctx, b, &edges);
        }
    }
    searches(ctx, if q { 6 } else { 8 }, &edges);
    tags(ctx, q, &edges);
    formats(ctx, &edges);
    ctx.end(WORKERS);
    ctx.add_states(states.load(Ordering::Relaxed));
    let e = edges.load(Ordering::Relaxed);
    ctx.add_transitions(e);
    ctx.add_traces(e);
    ctx.sample(|| format!("buffer {:?}: read_u16be from {:?} -> {}", bufs[6], St { lo: 0, hi: 3, at: 1 }, big(&bufs[6][1..3], false)));
}
