//! Reference semantics of the format language: a direct, backtracking-free reading of what
//! each combinator is documented to do. It shares no code with doodle's decoders; it only
//! walks doodle's public AST. Deterministic choice is predicted from one byte of lookahead
//! using the FIRST/nullable analysis in `analysis.rs`, so it is only meaningful for formats
//! that analysis calls clean.
use crate::analysis::{Info, Item, info};
use crate::rv::RV;
use doodle::{
    Arith, BaseKind, DynFormat, Endian, Expr, Format, FormatModule, IntRel, Pattern, UnaryOp, ViewExpr,
    ViewFormat,
};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Win {
    pub buf: Rc<Vec<u8>>,
    pub end: usize,
    pub off: usize,
}

impl Win {
    pub fn new(b: &[u8]) -> Win {
        Win { buf: Rc::new(b.to_vec()), end: b.len(), off: 0 }
    }
    fn peek(&self) -> Option<u8> {
        if self.off < self.end { Some(self.buf[self.off]) } else { None }
    }
    fn left(&self) -> usize {
        self.end - self.off
    }
    fn at(&self, off: usize) -> Win {
        Win { off, ..self.clone() }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum E {
    /// the parse fails (an ordinary decode error)
    Fail,
    /// the format itself has no defined meaning here (overflow, bad index, uncovered match)
    Stuck(&'static str),
}
use E::*;

pub enum Bind {
    Val(RV),
    View(Win),
    /// canonical prefix code: (symbol, length) with length > 0
    Code(Vec<(u16, usize)>),
}

pub struct Node {
    name: String,
    bind: Bind,
    up: Env,
}
pub type Env = Option<Rc<Node>>;

pub fn push(env: &Env, name: &str, bind: Bind) -> Env {
    Some(Rc::new(Node { name: name.to_string(), bind, up: env.clone() }))
}

fn get_val(env: &Env, name: &str) -> Result<RV, E> {
    let mut e = env;
    while let Some(n) = e {
        if n.name == name {
            if let Bind::Val(v) = &n.bind {
                return Ok(v.clone());
            }
        }
        e = &n.up;
    }
    Err(Stuck("unbound variable"))
}
fn get_view(env: &Env, name: &str) -> Result<Win, E> {
    let mut e = env;
    while let Some(n) = e {
        if n.name == name {
            if let Bind::View(v) = &n.bind {
                return Ok(v.clone());
            }
        }
        e = &n.up;
    }
    Err(Stuck("unbound view"))
}
fn get_code(env: &Env, name: &str) -> Result<Vec<(u16, usize)>, E> {
    let mut e = env;
    while let Some(n) = e {
        if n.name == name {
            if let Bind::Code(v) = &n.bind {
                return Ok(v.clone());
            }
        }
        e = &n.up;
    }
    Err(Stuck("unbound format"))
}

fn int(v: &RV) -> Result<(u8, i128), E> {
    match v {
        RV::Int(w, n) => Ok((*w, *n)),
        _ => Err(Stuck("not an integer")),
    }
}
fn usz(v: &RV) -> Result<usize, E> {
    let (_, n) = int(v)?;
    usize::try_from(n).map_err(|_| Stuck("not a usize"))
}
fn boolean(v: &RV) -> Result<bool, E> {
    match v {
        RV::Bool(b) => Ok(*b),
        _ => Err(Stuck("not a bool")),
    }
}
fn seqv(v: RV) -> Result<Vec<RV>, E> {
    match v {
        RV::Seq(vs) => Ok(vs),
        _ => Err(Stuck("not a sequence")),
    }
}
fn tupv(v: RV) -> Result<Vec<RV>, E> {
    match v {
        RV::Tup(vs) => Ok(vs),
        _ => Err(Stuck("not a tuple")),
    }
}
pub fn fits(w: u8, n: i128) -> bool {
    let w = if w == 0 { 64 } else { w };
    n >= 0 && n < (1i128 << w)
}
fn join_w(a: u8, b: u8) -> Result<u8, E> {
    if a == b || b == 0 {
        Ok(a)
    } else if a == 0 {
        Ok(b)
    } else {
        Err(Stuck("width mismatch"))
    }
}

/// Canonical code assignment (RFC 1951 3.2.2): returns (symbol, code, length).
pub fn canonical(lengths: &[(u16, usize)]) -> Vec<(u16, u64, usize)> {
    let maxl = lengths.iter().map(|x| x.1).max().unwrap_or(0);
    let mut out = vec![];
    let mut code: u64 = 0;
    for l in 1..=maxl {
        code <<= 1;
        let mut syms: Vec<u16> = lengths.iter().filter(|x| x.1 == l).map(|x| x.0).collect();
        syms.sort();
        for s in syms {
            out.push((s, code, l));
            code += 1;
        }
    }
    out
}
pub fn kraft_ok(lengths: &[usize]) -> bool {
    let mut s: u128 = 0;
    for &l in lengths {
        if l > 0 {
            if l > 60 {
                return false;
            }
            s += 1u128 << (60 - l);
        }
    }
    s <= 1u128 << 60
}

pub fn pmatch(p: &Pattern, v: &RV, env: &Env) -> Result<Option<Env>, E> {
    Ok(match (p, v) {
        (Pattern::Binding(n), v) => Some(push(env, n, Bind::Val(v.clone()))),
        (Pattern::Wildcard, _) => Some(env.clone()),
        (Pattern::Bool(b), RV::Bool(c)) => (b == c).then(|| env.clone()),
        (Pattern::U8(n), RV::Int(_, m)) => (*n as i128 == *m).then(|| env.clone()),
        (Pattern::U16(n), RV::Int(_, m)) => (*n as i128 == *m).then(|| env.clone()),
        (Pattern::U32(n), RV::Int(_, m)) => (*n as i128 == *m).then(|| env.clone()),
        (Pattern::U64(n), RV::Int(_, m)) => (*n as i128 == *m).then(|| env.clone()),
        (Pattern::Int(b), RV::Int(_, m)) => {
            let m = usize::try_from(*m).map_err(|_| Stuck("int pattern range"))?;
            b.contains(m).then(|| env.clone())
        }
        (Pattern::ZConst(z), RV::Int(_, m)) => (z.to_string() == m.to_string()).then(|| env.clone()),
        (Pattern::ZRange(b), RV::Int(_, m)) => {
            let m = num_bigint::BigInt::from(*m);
            (b.min <= m && m <= b.max).then(|| env.clone())
        }
        (Pattern::Char(c), RV::Char(d)) => (c == d).then(|| env.clone()),
        (Pattern::Tuple(ps), RV::Tup(vs)) | (Pattern::Seq(ps), RV::Seq(vs)) => {
            if ps.len() != vs.len() {
                None
            } else {
                let mut e = env.clone();
                for (p, v) in ps.iter().zip(vs) {
                    match pmatch(p, v, &e)? {
                        Some(e2) => e = e2,
                        None => return Ok(None),
                    }
                }
                Some(e)
            }
        }
        (Pattern::Variant(l, p), RV::Var(m, v)) => {
            if l.as_ref() == m.as_str() {
                pmatch(p, v, env)?
            } else {
                None
            }
        }
        (Pattern::Option(None), RV::Opt(None)) => Some(env.clone()),
        (Pattern::Option(Some(p)), RV::Opt(Some(v))) => pmatch(p, v, env)?,
        _ => None,
    })
}

pub fn lam(e: &Expr, env: &Env, arg: RV) -> Result<RV, E> {
    match e {
        Expr::Lambda(n, body) => eval(body, &push(env, n, Bind::Val(arg))),
        _ => Err(Stuck("not a lambda")),
    }
}

fn bytes_of(v: RV, n: usize) -> Result<Vec<u8>, E> {
    let vs = tupv(v)?;
    if vs.len() != n {
        return Err(Stuck("byte tuple arity"));
    }
    vs.iter()
        .map(|v| int(v).and_then(|(_, n)| u8::try_from(n).map_err(|_| Stuck("not a byte"))))
        .collect()
}
fn be(bs: &[u8]) -> i128 {
    bs.iter().fold(0i128, |a, b| a * 256 + *b as i128)
}

pub fn eval(e: &Expr, env: &Env) -> Result<RV, E> {
    let ev = |x: &Expr| eval(x, env);
    Ok(match e {
        Expr::Var(n) => get_val(env, n)?,
        Expr::Bool(b) => RV::Bool(*b),
        Expr::U8(n) => RV::Int(8, *n as i128),
        Expr::U16(n) => RV::Int(16, *n as i128),
        Expr::U32(n) => RV::Int(32, *n as i128),
        Expr::U64(n) => RV::Int(64, *n as i128),
        Expr::Tuple(xs) => RV::Tup(xs.iter().map(ev).collect::<Result<_, _>>()?),
        Expr::TupleProj(x, i) => {
            let vs = tupv(ev(x)?)?;
            vs.get(*i).cloned().ok_or(Stuck("tuple index"))?
        }
        Expr::Record(fs) => RV::Rec(
            fs.iter()
                .map(|(l, x)| Ok((l.to_string(), ev(x)?)))
                .collect::<Result<_, E>>()?,
        ),
        Expr::RecordProj(x, l) => match ev(x)? {
            RV::Rec(fs) => fs
                .into_iter()
                .find(|(k, _)| k.as_str() == l.as_ref())
                .map(|x| x.1)
                .ok_or(Stuck("no such field"))?,
            _ => return Err(Stuck("not a record")),
        },
        Expr::Variant(l, x) => RV::Var(l.to_string(), Box::new(ev(x)?)),
        Expr::Seq(xs) => RV::Seq(xs.iter().map(ev).collect::<Result<_, _>>()?),
        Expr::Numeric(_) => return Err(Stuck("numeric not modelled here")),
        Expr::Match(h, bs) => {
            let v = ev(h)?;
            for (p, x) in bs {
                if let Some(e2) = pmatch(p, &v, env)? {
                    return eval(x, &e2);
                }
            }
            return Err(Stuck("uncovered match"));
        }
        Expr::Destructure(h, p, x) => {
            let v = ev(h)?;
            match pmatch(p, &v, env)? {
                Some(e2) => return eval(x, &e2),
                None => return Err(Stuck("refutable pattern")),
            }
        }
        Expr::Lambda(..) => return Err(Stuck("bare lambda")),
        Expr::IntRel(r, x, y) => {
            let (a, l) = int(&ev(x)?)?;
            let (b, m) = int(&ev(y)?)?;
            join_w(a, b)?;
            RV::Bool(match r {
                IntRel::Eq => l == m,
                IntRel::Ne => l != m,
                IntRel::Lt => l < m,
                IntRel::Gt => l > m,
                IntRel::Lte => l <= m,
                IntRel::Gte => l >= m,
            })
        }
        Expr::Arith(op, x, y) => {
            let (x, y) = (ev(x)?, ev(y)?);
            match op {
                Arith::BoolOr => return Ok(RV::Bool(boolean(&x)? | boolean(&y)?)),
                Arith::BoolAnd => return Ok(RV::Bool(boolean(&x)? & boolean(&y)?)),
                _ => {}
            }
            let (a, l) = int(&x)?;
            let (b, m) = int(&y)?;
            let w = join_w(a, b)?;
            let bits = if w == 0 { 64 } else { w as i128 };
            let r = match op {
                Arith::Add => l + m,
                Arith::Sub => l - m,
                Arith::Mul => l.checked_mul(m).unwrap_or(i128::MAX),
                Arith::Div => {
                    if m == 0 {
                        return Err(Stuck("division by zero"));
                    }
                    l / m
                }
                Arith::Rem => {
                    if m == 0 {
                        return Err(Stuck("division by zero"));
                    }
                    l % m
                }
                Arith::BitAnd => l & m,
                Arith::BitOr => l | m,
                Arith::Shl => {
                    if m >= bits {
                        return Err(Stuck("shift amount"));
                    }
                    let mask = if bits == 64 { u64::MAX as i128 } else { (1i128 << bits) - 1 };
                    // high bits fall off, like the machine operation
                    (((l as u128) << (m as u32)) & (mask as u128)) as i128
                }
                Arith::Shr => {
                    if m >= bits {
                        return Err(Stuck("shift amount"));
                    }
                    l >> m
                }
                _ => unreachable!(),
            };
            if !fits(w, r) {
                return Err(Stuck("overflow"));
            }
            RV::Int(w, r)
        }
        Expr::Unary(op, x) => {
            let v = ev(x)?;
            match op {
                UnaryOp::BoolNot => RV::Bool(!boolean(&v)?),
                UnaryOp::IntSucc | UnaryOp::IntPred => {
                    let (w, n) = int(&v)?;
                    let n = if *op == UnaryOp::IntSucc { n + 1 } else { n - 1 };
                    if !fits(w, n) {
                        return Err(Stuck("overflow"));
                    }
                    RV::Int(w, n)
                }
            }
        }
        Expr::AsU8(x) => cast(8, ev(x)?)?,
        Expr::AsU16(x) => cast(16, ev(x)?)?,
        Expr::AsU32(x) => cast(32, ev(x)?)?,
        Expr::AsU64(x) => cast(64, ev(x)?)?,
        Expr::AsChar(x) => {
            let (_, n) = int(&ev(x)?)?;
            let n = u32::try_from(n).map_err(|_| Stuck("char range"))?;
            RV::Char(char::from_u32(n).unwrap_or('\u{fffd}'))
        }
        Expr::U16Be(x) => RV::Int(16, be(&bytes_of(ev(x)?, 2)?)),
        Expr::U32Be(x) => RV::Int(32, be(&bytes_of(ev(x)?, 4)?)),
        Expr::U64Be(x) => RV::Int(64, be(&bytes_of(ev(x)?, 8)?)),
        Expr::U16Le(x) => RV::Int(16, { let mut b = bytes_of(ev(x)?, 2)?; b.reverse(); be(&b) }),
        Expr::U32Le(x) => RV::Int(32, { let mut b = bytes_of(ev(x)?, 4)?; b.reverse(); be(&b) }),
        Expr::U64Le(x) => RV::Int(64, { let mut b = bytes_of(ev(x)?, 8)?; b.reverse(); be(&b) }),
        Expr::SeqLength(x) => RV::Int(32, seqv(ev(x)?)?.len() as i128),
        Expr::SeqIx(s, i) => {
            let s = seqv(ev(s)?)?;
            let i = usz(&ev(i)?)?;
            s.get(i).cloned().ok_or(Stuck("index out of range"))?
        }
        Expr::SubSeq(s, a, n) => {
            let s = seqv(ev(s)?)?;
            let a = usz(&ev(a)?)?;
            let n = usz(&ev(n)?)?;
            match a.checked_add(n) {
                Some(z) if z <= s.len() => RV::Seq(s[a..z].to_vec()),
                _ => return Err(Stuck("sub-sequence out of range")),
            }
        }
        Expr::SubSeqInflate(s, a, n) => {
            let s = seqv(ev(s)?)?;
            let a = usz(&ev(a)?)?;
            let n = usz(&ev(n)?)?;
            // read n elements starting at a from (s ++ result)
            let mut out: Vec<RV> = vec![];
            for i in 0..n {
                let k = a + i;
                let x = if k < s.len() { s.get(k) } else { out.get(k - s.len()) };
                let x = x.cloned().ok_or(Stuck("window start out of range"))?;
                out.push(x);
            }
            RV::Seq(out)
        }
        Expr::FlatMap(f, s) => {
            let mut out = vec![];
            for v in seqv(ev(s)?)? {
                out.extend(seqv(lam(f, env, v)?)?);
            }
            RV::Seq(out)
        }
        Expr::FlatMapAccum(f, a, _, s) => {
            let mut acc = ev(a)?;
            let mut out = vec![];
            for v in seqv(ev(s)?)? {
                let mut r = tupv(lam(f, env, RV::Tup(vec![acc, v]))?)?;
                if r.len() != 2 {
                    return Err(Stuck("accumulator pair"));
                }
                out.extend(seqv(r.pop().unwrap())?);
                acc = r.pop().unwrap();
            }
            RV::Seq(out)
        }
        Expr::FlatMapList(f, _, s) => {
            let mut out: Vec<RV> = vec![];
            for v in seqv(ev(s)?)? {
                let r = seqv(lam(f, env, RV::Tup(vec![RV::Seq(out.clone()), v]))?)?;
                out.extend(r);
            }
            RV::Seq(out)
        }
        Expr::LeftFold(f, a, _, s) => {
            let mut acc = ev(a)?;
            for v in seqv(ev(s)?)? {
                acc = lam(f, env, RV::Tup(vec![acc, v]))?;
            }
            acc
        }
        Expr::FindByKey(sorted, f, k, s) => {
            let (_, k) = int(&ev(k)?)?;
            let s = seqv(ev(s)?)?;
            let mut keys = vec![];
            for v in &s {
                keys.push(int(&lam(f, env, v.clone())?)?.1);
            }
            if *sorted && keys.windows(2).any(|w| w[0] > w[1]) {
                return Err(Stuck("keys not sorted"));
            }
            let hits: Vec<usize> = (0..s.len()).filter(|i| keys[*i] == k).collect();
            if *sorted && hits.iter().any(|i| s[*i] != s[hits[0]]) {
                return Err(Stuck("ambiguous key"));
            }
            RV::Opt(hits.first().map(|i| Box::new(s[*i].clone())))
        }
        Expr::EnumFromTo(a, b) => {
            let (wa, a) = int(&ev(a)?)?;
            let (wb, b) = int(&ev(b)?)?;
            let w = join_w(wa, wb)?;
            if b - a > crate::rv::expand_cap() as i128 {
                return Err(Stuck("huge range"));
            }
            RV::Seq((a..b).map(|n| RV::Int(w, n)).collect())
        }
        Expr::Dup(n, x) => {
            let n = usz(&ev(n)?)?;
            let x = ev(x)?;
            if n > crate::rv::expand_cap() {
                return Err(Stuck("huge dup"));
            }
            RV::Seq(vec![x; n])
        }
        Expr::LiftOption(None) => RV::Opt(None),
        Expr::LiftOption(Some(x)) => RV::Opt(Some(Box::new(ev(x)?))),
        Expr::Append(a, b) => {
            let mut a = seqv(ev(a)?)?;
            a.extend(seqv(ev(b)?)?);
            RV::Seq(a)
        }
    })
}

fn cast(w: u8, v: RV) -> Result<RV, E> {
    let (_, n) = int(&v)?;
    if !fits(w, n) {
        return Err(Stuck("cast out of range"));
    }
    Ok(RV::Int(w, n))
}

pub struct Ref<'m> {
    pub module: &'m FormatModule,
    /// argument names and view names per item level
    pub items: &'m [Item],
    cache: RefCell<HashMap<*const Format, Info>>,
    /// furthest offset of the window any part of the parse has read (views and decoded
    /// buffers aside)
    pub reach: Cell<usize>,
    mute: Cell<usize>,
}

pub type R = Result<(RV, Win, usize), E>;

fn unit() -> RV {
    RV::Tup(vec![])
}

impl<'m> Ref<'m> {
    /// One `Ref` per format under test (the cache is keyed by node address).
    pub fn new(module: &'m FormatModule, items: &'m [Item]) -> Self {
        Ref { module, items, cache: RefCell::new(HashMap::new()), reach: Cell::new(0), mute: Cell::new(0) }
    }
    fn touch(&self, off: usize) {
        if self.mute.get() == 0 && self.reach.get() < off {
            self.reach.set(off);
        }
    }
    fn aside<T>(&self, f: impl FnOnce() -> T) -> T {
        self.mute.set(self.mute.get() + 1);
        let r = f();
        self.mute.set(self.mute.get() - 1);
        r
    }
    fn info(&self, f: &Format) -> Info {
        let k = f as *const Format;
        if let Some(i) = self.cache.borrow().get(&k) {
            return *i;
        }
        let i = info(self.module, f);
        self.cache.borrow_mut().insert(k, i);
        i
    }
    fn view(&self, v: &ViewExpr, env: &Env) -> Result<Win, E> {
        match v {
            ViewExpr::Var(n) => get_view(env, n),
            ViewExpr::Offset(b, o) => {
                let o = usz(&eval(o, env)?)?;
                let w = self.view(b, env)?;
                if o > w.left() {
                    return Err(Fail);
                }
                Ok(w.at(w.off + o))
            }
        }
    }

    /// Which alternative does one byte of lookahead select? (clean unions only)
    fn choose(&self, fs: &[Format], b: Option<u8>) -> Option<usize> {
        let infos: Vec<_> = fs.iter().map(|f| self.info(f)).collect();
        if let Some(b) = b {
            for (i, x) in infos.iter().enumerate() {
                if x.first.contains(b) {
                    return Some(i);
                }
            }
        }
        infos.iter().position(|x| x.nullable)
    }

    pub fn parse(&self, f: &Format, env: &Env, w: Win) -> R {
        match f {
            Format::ItemVar(level, args, views) => {
                let item = &self.items[*level];
                let mut e2: Env = None;
                for ((name, _), x) in item.args.iter().zip(args) {
                    e2 = push(&e2, name, Bind::Val(eval(x, env)?));
                }
                for (name, v) in item.views.iter().zip(views) {
                    e2 = push(&e2, name, Bind::View(self.view(v, env)?));
                }
                self.parse(self.module.get_format(*level), &e2, w)
            }
            Format::Fail => Err(Fail),
            Format::EndOfInput => match w.peek() {
                None => Ok((unit(), w, 0)),
                Some(_) => Err(Fail),
            },
            Format::Align(n) => {
                let mut w = w;
                while w.off % n != 0 {
                    if w.off >= w.end {
                        return Err(Fail);
                    }
                    w.off += 1;
                    self.touch(w.off);
                }
                Ok((unit(), w, 0))
            }
            Format::Byte(bs) => match w.peek() {
                Some(b) if bs.contains(b) => {
                    let o = w.off + 1;
                    self.touch(o);
                    Ok((RV::Int(8, b as i128), w.at(o), 0))
                }
                _ => Err(Fail),
            },
            Format::Variant(l, f) => {
                let (v, w, n) = self.parse(f, env, w)?;
                Ok((RV::Var(l.to_string(), Box::new(v)), w, n))
            }
            Format::Union(fs) => match self.choose(fs, w.peek()) {
                None => Err(Fail),
                Some(i) => self.parse(&fs[i], env, w),
            },
            Format::UnionNondet(fs) => {
                for f in fs {
                    match self.parse(f, env, w.clone()) {
                        Err(Fail) => {}
                        other => return other,
                    }
                }
                Err(Fail)
            }
            Format::Tuple(fs) | Format::Sequence(fs) => {
                let mut vs = vec![];
                let mut w = w;
                let mut n = 0;
                for f in fs {
                    let (v, w2, m) = self.parse(f, env, w)?;
                    vs.push(v);
                    w = w2;
                    n += m;
                }
                let v = if matches!(f, Format::Tuple(_)) { RV::Tup(vs) } else { RV::Seq(vs) };
                Ok((v, w, n))
            }
            Format::Repeat(a) => self.many(a, env, w, 0, usize::MAX),
            Format::Repeat1(a) => self.many(a, env, w, 1, usize::MAX),
            Format::RepeatBetween(lo, hi, a) => {
                let lo = usz(&eval(lo, env)?)?;
                let hi = usz(&eval(hi, env)?)?;
                self.many(a, env, w, lo, hi)
            }
            Format::RepeatCount(k, a) => {
                let k = usz(&eval(k, env)?)?;
                let mut vs = vec![];
                let mut w = w;
                let mut n = 0;
                for _ in 0..k {
                    let (v, w2, m) = self.parse(a, env, w)?;
                    vs.push(v);
                    w = w2;
                    n += m;
                    if vs.len() > 4096 {
                        return Err(Stuck("fuel"));
                    }
                }
                Ok((RV::Seq(vs), w, n))
            }
            Format::RepeatUntilLast(p, a) => {
                let mut vs = vec![];
                let mut w = w;
                let mut n = 0;
                loop {
                    let (v, w2, m) = self.parse(a, env, w)?;
                    w = w2;
                    n += m;
                    let done = boolean(&lam(p, env, v.clone())?)?;
                    vs.push(v);
                    if done {
                        return Ok((RV::Seq(vs), w, n));
                    }
                    if vs.len() > 4096 {
                        return Err(Stuck("fuel"));
                    }
                }
            }
            Format::RepeatUntilSeq(p, a) => {
                let mut vs = vec![];
                let mut w = w;
                let mut n = 0;
                loop {
                    let (v, w2, m) = self.parse(a, env, w)?;
                    w = w2;
                    n += m;
                    vs.push(v);
                    if boolean(&lam(p, env, RV::Seq(vs.clone()))?)? {
                        return Ok((RV::Seq(vs), w, n));
                    }
                    if vs.len() > 4096 {
                        return Err(Stuck("fuel"));
                    }
                }
            }
            Format::AccumUntil(done, upd, init, _, a) => {
                let mut acc = eval(init, env)?;
                let mut vs = vec![];
                let mut w = w;
                let mut n = 0;
                loop {
                    let arg = RV::Tup(vec![acc.clone(), RV::Seq(vs.clone())]);
                    if boolean(&lam(done, env, arg)?)? {
                        return Ok((RV::Tup(vec![acc, RV::Seq(vs)]), w, n));
                    }
                    let (v, w2, m) = self.parse(a, env, w)?;
                    w = w2;
                    n += m;
                    acc = lam(upd, env, RV::Tup(vec![acc, v.clone()]))?;
                    vs.push(v);
                    if vs.len() > 4096 {
                        return Err(Stuck("fuel"));
                    }
                }
            }
            Format::ForEach(x, l, a) => {
                let xs = seqv(eval(x, env)?)?;
                let mut vs = vec![];
                let mut w = w;
                let mut n = 0;
                for x in xs {
                    let (v, w2, m) = self.parse(a, &push(env, l, Bind::Val(x)), w)?;
                    vs.push(v);
                    w = w2;
                    n += m;
                }
                Ok((RV::Seq(vs), w, n))
            }
            Format::Maybe(x, a) => {
                if boolean(&eval(x, env)?)? {
                    let (v, w, n) = self.parse(a, env, w)?;
                    Ok((RV::Opt(Some(Box::new(v))), w, n))
                } else {
                    Ok((RV::Opt(None), w, 0))
                }
            }
            Format::Peek(a) => {
                let (v, _, n) = self.parse(a, env, w.clone())?;
                Ok((v, w, n))
            }
            Format::PeekNot(a) => match self.parse(a, env, w.clone()) {
                Ok(_) => Err(Fail),
                Err(Fail) => Ok((unit(), w, 0)),
                Err(e) => Err(e),
            },
            Format::Slice(k, a) => {
                let k = usz(&eval(k, env)?)?;
                if k > w.left() {
                    return Err(Fail);
                }
                let inner = Win { buf: w.buf.clone(), end: w.off + k, off: w.off };
                self.touch(inner.end);
                let (v, _, n) = self.parse(a, env, inner)?;
                let o = w.off + k;
                Ok((v, w.at(o), n))
            }
            Format::Bits(a) => {
                let mut bits = vec![];
                for b in &w.buf[w.off..w.end] {
                    for i in 0..8 {
                        bits.push((b >> i) & 1);
                    }
                }
                let outer = self.reach.replace(0);
                let got = self.parse(a, env, Win::new(&bits));
                let inner = self.reach.replace(outer);
                self.touch(w.off + inner.div_ceil(8));
                let (v, r, n) = got?;
                let o = w.off + r.off.div_ceil(8);
                Ok((v, w.at(o), n))
            }
            Format::WithRelativeOffset(b, o, a) => {
                let b = usz(&eval(b, env)?)?;
                let o = usz(&eval(o, env)?)?;
                let t = b.checked_add(o).ok_or(Fail)?;
                if t > w.end {
                    return Err(Fail);
                }
                let (v, _, n) = self.aside(|| self.parse(a, env, w.at(t)))?;
                Ok((v, w, n))
            }
            Format::Map(a, l) => {
                let (v, w, n) = self.parse(a, env, w)?;
                Ok((lam(l, env, v)?, w, n))
            }
            Format::Where(a, c) => {
                let (v, w, n) = self.parse(a, env, w)?;
                if boolean(&lam(c.as_ref(), env, v.clone())?)? {
                    Ok((v, w, n))
                } else if c.is_required() {
                    Err(Fail)
                } else {
                    Ok((v, w, n + 1))
                }
            }
            Format::Compute(x) => Ok((eval(x, env)?, w, 0)),
            Format::Let(l, x, a) => {
                let v = eval(x, env)?;
                self.parse(a, &push(env, l, Bind::Val(v)), w)
            }
            Format::Match(h, bs) => {
                let v = eval(h, env)?;
                for (p, a) in bs {
                    if let Some(e2) = pmatch(p, &v, env)? {
                        return self.parse(a, &e2, w);
                    }
                }
                Err(Stuck("uncovered match"))
            }
            Format::Dynamic(l, DynFormat::Huffman(lens, vals), a) => {
                let lens: Vec<usize> =
                    seqv(eval(lens, env)?)?.iter().map(usz).collect::<Result<_, _>>()?;
                let lens = match vals {
                    None => lens,
                    Some(x) => {
                        let vals: Vec<usize> =
                            seqv(eval(x, env)?)?.iter().map(usz).collect::<Result<_, _>>()?;
                        if vals.len() < lens.len() {
                            return Err(Stuck("code values"));
                        }
                        let mut out = vec![0; vals.len()];
                        for (i, l) in lens.iter().enumerate() {
                            *out.get_mut(vals[i]).ok_or(Stuck("code values"))? = *l;
                        }
                        out
                    }
                };
                if !kraft_ok(&lens) {
                    return Err(Stuck("oversubscribed code"));
                }
                if lens.iter().all(|l| *l == 0) {
                    return Err(Stuck("empty code"));
                }
                let code =
                    lens.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, l)| (i as u16, *l)).collect();
                self.parse(a, &push(env, l, Bind::Code(code)), w)
            }
            Format::Apply(l) => {
                let code = get_code(env, l)?;
                let table = canonical(&code);
                let mut acc = 0u64;
                let mut len = 0;
                let mut w = w;
                loop {
                    match w.peek() {
                        Some(b) if b < 2 => {
                            acc = acc * 2 + b as u64;
                            len += 1;
                            w.off += 1;
                            self.touch(w.off);
                        }
                        _ => return Err(Fail),
                    }
                    if let Some(x) = table.iter().find(|x| x.1 == acc && x.2 == len) {
                        return Ok((RV::Int(16, x.0 as i128), w, 0));
                    }
                    if len > 60 {
                        return Err(Fail);
                    }
                }
            }
            Format::Pos => {
                let o = w.off as i128;
                Ok((RV::Int(64, o), w, 0))
            }
            Format::SkipRemainder => {
                let e = w.end;
                self.touch(e);
                Ok((unit(), w.at(e), 0))
            }
            Format::DecodeBytes(x, a) => {
                let bs: Vec<u8> = seqv(eval(x, env)?)?
                    .iter()
                    .map(|v| int(v).and_then(|(_, n)| u8::try_from(n).map_err(|_| Stuck("byte"))))
                    .collect::<Result<_, _>>()?;
                let (v, r, n) = self.aside(|| self.parse(a, env, Win::new(&bs)))?;
                Ok((v, w, n + usize::from(r.off < r.end)))
            }
            Format::LetFormat(a, l, b) => {
                let (v, w, n) = self.parse(a, env, w)?;
                let (v, w, m) = self.parse(b, &push(env, l, Bind::Val(v)), w)?;
                Ok((v, w, n + m))
            }
            Format::MonadSeq(a, b) => {
                let (_, w, n) = self.parse(a, env, w)?;
                let (v, w, m) = self.parse(b, env, w)?;
                Ok((v, w, n + m))
            }
            Format::Hint(_, a) => self.parse(a, env, w),
            Format::LiftedOption(None) => Ok((RV::Opt(None), w, 0)),
            Format::LiftedOption(Some(a)) => {
                let (v, w, n) = self.parse(a, env, w)?;
                Ok((RV::Opt(Some(Box::new(v))), w, n))
            }
            Format::LetView(l, a) => {
                let e2 = push(env, l, Bind::View(w.clone()));
                self.parse(a, &e2, w)
            }
            Format::WithView(v, vf) => match vf {
                ViewFormat::CaptureBytes(k) => {
                    let k = usz(&eval(k, env)?)?;
                    let x = self.view(v, env)?;
                    if k > x.left() {
                        return Err(Fail);
                    }
                    let out =
                        x.buf[x.off..x.off + k].iter().map(|b| RV::Int(8, *b as i128)).collect();
                    Ok((RV::Seq(out), w, 0))
                }
                ViewFormat::ReadArray(k, kind) => {
                    let k = usz(&eval(k, env)?)?;
                    let x = self.view(v, env)?;
                    let (sz, le) = match kind {
                        BaseKind::U8 => (1, false),
                        BaseKind::U16Ext(e) => (2, *e == Endian::Le),
                        BaseKind::U32Ext(e) => (4, *e == Endian::Le),
                        BaseKind::U64Ext(e) => (8, *e == Endian::Le),
                    };
                    match k.checked_mul(sz) {
                        Some(t) if t <= x.left() => {}
                        _ => return Err(Fail),
                    }
                    let mut out = vec![];
                    for i in 0..k {
                        let mut c = x.buf[x.off + i * sz..x.off + (i + 1) * sz].to_vec();
                        if le {
                            c.reverse();
                        }
                        out.push(RV::Int((sz * 8) as u8, be(&c)));
                    }
                    Ok((RV::Seq(out), w, 0))
                }
                ViewFormat::ReifyView => {
                    let x = self.view(v, env)?;
                    Ok((RV::View(x.off), w, 0))
                }
            },
            Format::ParseFromView(v, a) => {
                let x = self.view(v, env)?;
                let (r, _, n) = self.aside(|| self.parse(a, env, x))?;
                Ok((r, w, n))
            }
            Format::Phantom(_) => Ok((RV::Phantom, w, 0)),
            Format::Permit(a, x) => match self.parse(a, env, w.clone()) {
                Err(Fail) => Ok((eval(x, env)?, w, 1)),
                other => other,
            },
            #[allow(unreachable_patterns)]
            _ => Err(Stuck("not modelled")),
        }
    }

    fn many(&self, a: &Format, env: &Env, w: Win, lo: usize, hi: usize) -> R {
        let i = self.info(a);
        let mut vs = vec![];
        let mut w = w;
        let mut n = 0;
        loop {
            if vs.len() >= hi {
                break;
            }
            let go = match w.peek() {
                Some(b) => i.first.contains(b),
                None => false,
            };
            if !go {
                if vs.len() < lo {
                    return Err(Fail);
                }
                break;
            }
            let (v, w2, m) = self.parse(a, env, w)?;
            vs.push(v);
            w = w2;
            n += m;
            if vs.len() > 4096 {
                return Err(Stuck("fuel"));
            }
        }
        Ok((RV::Seq(vs), w, n))
    }
}
