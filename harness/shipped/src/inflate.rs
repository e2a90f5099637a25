//! Reference DEFLATE model: an independent decoder with a three-way verdict, and an encoder of
//! explicitly given block/token sequences.

pub const LEN_BASE: [u16; 29] = [
    3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258,
];
pub const LEN_EXTRA: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
pub const DIST_BASE: [u16; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577,
];
pub const DIST_EXTRA: [u8; 30] = [
    0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13,
];
const CL_ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// a valid stream: these bytes, ending at this bit
    Bytes(Vec<u8>, usize),
    /// not a DEFLATE stream
    Reject(&'static str),
    /// RFC 1951 does not settle it for a lenient decoder (incomplete codes, too many symbols declared)
    Open(&'static str),
}

struct R<'a> {
    d: &'a [u8],
    bit: usize,
}
type Res<T> = Result<T, Verdict>;
impl R<'_> {
    fn bit(&mut self) -> Res<u32> {
        let b = self.d.get(self.bit / 8).ok_or(Verdict::Reject("truncated"))?;
        let v = (b >> (self.bit % 8)) & 1;
        self.bit += 1;
        Ok(v as u32)
    }
    fn bits(&mut self, n: u32) -> Res<u32> {
        let mut v = 0;
        for i in 0..n {
            v |= self.bit()? << i;
        }
        Ok(v)
    }
}

/// canonical code: sorted (length, code) -> symbol
pub struct Code {
    words: std::collections::HashMap<(u8, u32), u16>,
    pub of: Vec<Option<(u8, u32)>>,
    pub over: bool,
    pub complete: bool,
}
pub fn code(lens: &[u8]) -> Code {
    let max = 16;
    let mut words = std::collections::HashMap::new();
    let mut of = vec![None; lens.len()];
    let mut c: u32 = 0;
    let mut kraft: u64 = 0;
    for l in 1..=max as u8 {
        c <<= 1;
        for (s, &sl) in lens.iter().enumerate() {
            if sl == l {
                words.insert((l, c), s as u16);
                of[s] = Some((l, c));
                c = c.wrapping_add(1);
                kraft += 1u64 << (max - l as usize);
            }
        }
    }
    Code { words, of, over: kraft > 1 << max, complete: kraft == 1 << max }
}
impl Code {
    fn read(&self, r: &mut R) -> Res<u16> {
        let mut c = 0;
        for l in 1..=15u8 {
            c = (c << 1) | r.bit()?;
            if let Some(s) = self.words.get(&(l, c)) {
                return Ok(*s);
            }
        }
        Err(Verdict::Reject("no such codeword"))
    }
}

pub fn fixed_lens() -> Vec<u8> {
    (0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect()
}

fn inflate0(d: &[u8], open: &mut Option<&'static str>) -> Res<(Vec<u8>, usize)> {
    let mut r = R { d, bit: 0 };
    let mut out: Vec<u8> = vec![];
    loop {
        let fin = r.bit()?;
        match r.bits(2)? {
            0 => {
                r.bit = r.bit.div_ceil(8) * 8;
                let len = r.bits(16)?;
                let nlen = r.bits(16)?;
                if len != nlen ^ 0xffff {
                    return Err(Verdict::Reject("stored length complement"));
                }
                for _ in 0..len {
                    let b = r.bits(8)? as u8;
                    out.push(b);
                }
            }
            t @ (1 | 2) => {
                let (lit, dist) = if t == 1 {
                    (code(&fixed_lens()), code(&[5u8; 32]))
                } else {
                    let hlit = r.bits(5)? as usize + 257;
                    let hdist = r.bits(5)? as usize + 1;
                    let hclen = r.bits(4)? as usize + 4;
                    let mut cl = [0u8; 19];
                    for &i in CL_ORDER.iter().take(hclen) {
                        cl[i] = r.bits(3)? as u8;
                    }
                    let cc = code(&cl);
                    if cc.over {
                        return Err(Verdict::Reject("over-subscribed code length code"));
                    }
                    if !cc.complete {
                        open.get_or_insert("incomplete code length code");
                    }
                    let mut lens: Vec<u8> = vec![];
                    while lens.len() < hlit + hdist {
                        match cc.read(&mut r)? {
                            s @ 0..=15 => lens.push(s as u8),
                            16 => {
                                let n = r.bits(2)? + 3;
                                let Some(&p) = lens.last() else { return Err(Verdict::Reject("repeat of nothing")) };
                                lens.extend((0..n).map(|_| p));
                            }
                            17 => {
                                let n = r.bits(3)? + 3;
                                lens.extend((0..n).map(|_| 0));
                            }
                            _ => {
                                let n = r.bits(7)? + 11;
                                lens.extend((0..n).map(|_| 0));
                            }
                        }
                    }
                    if lens.len() > hlit + hdist {
                        open.get_or_insert("repeat runs past the declared lengths");
                        lens.truncate(hlit + hdist);
                    }
                    if hlit > 286 || hdist > 30 {
                        open.get_or_insert("too many symbols declared");
                    }
                    let (l, dd) = (code(&lens[..hlit]), code(&lens[hlit..]));
                    if l.over {
                        return Err(Verdict::Reject("over-subscribed literal code"));
                    }
                    if dd.over {
                        // only felt when a distance is read
                        open.get_or_insert("over-subscribed distance code");
                    }
                    let nd = lens[hlit..].iter().filter(|x| **x != 0).count();
                    if !l.complete {
                        open.get_or_insert("incomplete literal code");
                    }
                    // one distance code of one bit, or none, is explicitly allowed
                    if !(dd.complete || nd == 0 || nd == 1 && lens[hlit..].contains(&1)) {
                        open.get_or_insert("incomplete distance code");
                    }
                    (l, dd)
                };
                loop {
                    let s = lit.read(&mut r)? as usize;
                    match s {
                        0..=255 => out.push(s as u8),
                        256 => break,
                        257..=285 => {
                            let len = LEN_BASE[s - 257] as usize + r.bits(LEN_EXTRA[s - 257] as u32)? as usize;
                            // code 284 with all extra bits set spells 258, which has its own code
                            if s == 284 && len == 258 {
                                open.get_or_insert("258 spelled by code 284");
                            }
                            if dist.over {
                                return Err(Verdict::Reject("over-subscribed distance code"));
                            }
                            let ds = dist.read(&mut r)? as usize;
                            if ds >= 30 {
                                return Err(Verdict::Reject("reserved distance code"));
                            }
                            let dd = DIST_BASE[ds] as usize + r.bits(DIST_EXTRA[ds] as u32)? as usize;
                            if dd > out.len() {
                                return Err(Verdict::Reject("distance too far back"));
                            }
                            for _ in 0..len {
                                out.push(out[out.len() - dd]);
                            }
                        }
                        _ => return Err(Verdict::Reject("reserved length code")),
                    }
                }
            }
            _ => return Err(Verdict::Reject("reserved block type")),
        }
        if fin == 1 {
            return Ok((out, r.bit));
        }
    }
}

pub fn inflate(d: &[u8]) -> Verdict {
    let mut open = None;
    match inflate0(d, &mut open) {
        Ok((b, n)) => match open {
            Some(o) => Verdict::Open(o),
            None => Verdict::Bytes(b, n),
        },
        Err(e) => match open {
            Some(o) => Verdict::Open(o),
            None => e,
        },
    }
}

// ---------------------------------------------------------------- encoder

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Lit(u8),
    /// length, distance
    Ref(u16, u16),
}

/// how a dynamic block's header is written
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hdr {
    /// every length spelled out
    Plain,
    /// repeats used for every run that allows one
    Runs,
    /// repeats used, and all 19 code length code lengths written
    RunsFull,
}

#[derive(Clone, Debug)]
pub enum Block {
    Stored(Vec<u8>),
    Fixed(Vec<Tok>),
    Dynamic(Vec<Tok>, Hdr),
}

#[derive(Default)]
pub struct W {
    pub bytes: Vec<u8>,
    pub nbits: usize,
}
impl W {
    pub fn bits(&mut self, v: u32, n: u32) {
        for i in 0..n {
            if self.nbits % 8 == 0 {
                self.bytes.push(0);
            }
            if (v >> i) & 1 == 1 {
                *self.bytes.last_mut().unwrap() |= 1 << (self.nbits % 8);
            }
            self.nbits += 1;
        }
    }
    fn word(&mut self, c: (u8, u32)) {
        for i in (0..c.0).rev() {
            self.bits((c.1 >> i) & 1, 1);
        }
    }
}

pub fn len_sym(len: u16) -> (usize, u32) {
    if len == 258 {
        return (28, 0);
    }
    let i = (0..28).rev().find(|&i| LEN_BASE[i] <= len).unwrap();
    (i, (len - LEN_BASE[i]) as u32)
}
pub fn dist_sym(d: u16) -> (usize, u32) {
    let i = (0..30).rev().find(|&i| DIST_BASE[i] <= d).unwrap();
    (i, (d - DIST_BASE[i]) as u32)
}

/// A complete prefix code over the used symbols: 2^k-1 style chain up to length 15 is avoided, lengths
/// are as equal as possible, with the earliest symbols getting the shorter words.
fn lens_for(used: &std::collections::BTreeSet<usize>, n: usize, skew: bool) -> Vec<u8> {
    let mut lens = vec![0u8; n];
    let m = used.len();
    if m == 0 {
        return lens;
    }
    if m == 1 {
        lens[*used.iter().next().unwrap()] = 1;
        return lens;
    }
    if skew && m <= 15 {
        for (i, s) in used.iter().enumerate() {
            lens[*s] = (i + 1).min(m - 1) as u8;
        }
        return lens;
    }
    let k = (usize::BITS - (m - 1).leading_zeros()) as u8; // 2^k >= m
    let short = (1usize << k) - m; // that many get k-1 bits
    for (i, s) in used.iter().enumerate() {
        lens[*s] = if i < short { k - 1 } else { k };
    }
    lens
}

fn tokens(w: &mut W, toks: &[Tok], lit: &Code, dist: &Code) {
    for t in toks {
        match t {
            Tok::Lit(b) => w.word(lit.of[*b as usize].unwrap()),
            Tok::Ref(l, d) => {
                let (ls, le) = len_sym(*l);
                w.word(lit.of[257 + ls].unwrap());
                w.bits(le, LEN_EXTRA[ls] as u32);
                let (ds, de) = dist_sym(*d);
                w.word(dist.of[ds].unwrap());
                w.bits(de, DIST_EXTRA[ds] as u32);
            }
        }
    }
    w.word(lit.of[256].unwrap());
}

pub fn encode(blocks: &[Block]) -> W {
    let mut w = W::default();
    for (i, b) in blocks.iter().enumerate() {
        w.bits((i + 1 == blocks.len()) as u32, 1);
        match b {
            Block::Stored(d) => {
                w.bits(0, 2);
                while w.nbits % 8 != 0 {
                    w.bits(0, 1);
                }
                w.bits(d.len() as u32, 16);
                w.bits(d.len() as u32 ^ 0xffff, 16);
                for x in d {
                    w.bits(*x as u32, 8);
                }
            }
            Block::Fixed(t) => {
                w.bits(1, 2);
                tokens(&mut w, t, &code(&fixed_lens()), &code(&[5u8; 32]));
            }
            Block::Dynamic(t, h) => {
                w.bits(2, 2);
                let mut lu = std::collections::BTreeSet::new();
                let mut du = std::collections::BTreeSet::new();
                lu.insert(256);
                for x in t {
                    match x {
                        Tok::Lit(b) => {
                            lu.insert(*b as usize);
                        }
                        Tok::Ref(l, d) => {
                            lu.insert(257 + len_sym(*l).0);
                            du.insert(dist_sym(*d).0);
                        }
                    }
                }
                if lu.len() == 1 {
                    lu.insert(if *h == Hdr::Plain { 0 } else { 285 });
                }
                let nl = (lu.iter().max().unwrap() + 1).max(257);
                let nd = du.iter().max().map(|m| m + 1).unwrap_or(1);
                let ll = lens_for(&lu, nl, *h == Hdr::Runs);
                let dl = lens_for(&du, nd, *h == Hdr::Runs);
                let mut all = ll.clone();
                all.extend(&dl);
                // code length symbols
                let mut syms: Vec<(usize, u32, u32)> = vec![];
                let mut i = 0;
                while i < all.len() {
                    let run = all[i..].iter().take_while(|x| **x == all[i]).count();
                    if *h != Hdr::Plain {
                        if all[i] == 0 && run >= 11 {
                            let n = run.min(138);
                            syms.push((18, n as u32 - 11, 7));
                            i += n;
                            continue;
                        }
                        if all[i] == 0 && run >= 3 {
                            let n = run.min(10);
                            syms.push((17, n as u32 - 3, 3));
                            i += n;
                            continue;
                        }
                        if i > 0 && all[i] == all[i - 1] && run >= 3 {
                            let n = run.min(6);
                            syms.push((16, n as u32 - 3, 2));
                            i += n;
                            continue;
                        }
                    }
                    syms.push((all[i] as usize, 0, 0));
                    i += 1;
                }
                let mut cu: std::collections::BTreeSet<usize> = syms.iter().map(|s| s.0).collect();
                if cu.len() == 1 {
                    cu.insert(if cu.contains(&0) { 1 } else { 0 });
                }
                let cl = lens_for(&cu, 19, false);
                let last = (0..19).rev().find(|&i| cl[CL_ORDER[i]] != 0).unwrap() + 1;
                let hclen = if *h == Hdr::RunsFull { 19 } else { last.max(4) };
                w.bits(nl as u32 - 257, 5);
                w.bits(nd as u32 - 1, 5);
                w.bits(hclen as u32 - 4, 4);
                for &i in CL_ORDER.iter().take(hclen) {
                    w.bits(cl[i] as u32, 3);
                }
                let cc = code(&cl);
                for (s, e, n) in syms {
                    w.word(cc.of[s].unwrap());
                    w.bits(e, n);
                }
                tokens(&mut w, t, &code(&ll), &code(&dl));
            }
        }
    }
    w
}

/// what the blocks mean
pub fn expand(blocks: &[Block]) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    for b in blocks {
        match b {
            Block::Stored(d) => out.extend(d),
            Block::Fixed(t) | Block::Dynamic(t, _) => {
                for x in t {
                    match x {
                        Tok::Lit(b) => out.push(*b),
                        Tok::Ref(l, d) => {
                            if *d as usize > out.len() {
                                return None;
                            }
                            for _ in 0..*l {
                                out.push(out[out.len() - *d as usize]);
                            }
                        }
                    }
                }
            }
        }
    }
    Some(out)
}
