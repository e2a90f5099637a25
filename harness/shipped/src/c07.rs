//! DEFLATE: every block/token sequence of the bounded space, every short bit string, every one-bit
//! error and every truncation, decoded by the interpreted definition and by the generated decoder.
use crate::eng::{self, GenOut, Out, Shipped};
use crate::inflate::*;
use doodle::Format;
use doodle::decoder::Compiler;
use vcore::dbgtree::{self, T};
use vcore::report::{Ctx, Tier, WORKERS, guarded};
use vcore::rv::RV;

struct Dec {
    gzip: Shipped,
    zlib: Shipped,
    raw: doodle::decoder::Program,
}

fn build() -> Result<Dec, String> {
    let (m, main) = eng::module();
    let d = eng::lookup(&m, "deflate.main").ok_or("no deflate.main")?;
    let raw = guarded(|| Compiler::compile_program(&m, &Format::Bits(Box::new(d)))).map_err(|e| format!("panic: {e}"))?.map_err(|e| e.to_string())?;
    Ok(Dec { gzip: eng::compile(&m, &main, "gzip")?, zlib: eng::compile(&m, &main, "zlib.main")?, raw })
}

fn gz(stream: &[u8]) -> Vec<u8> {
    let mut v = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
    v.extend(stream);
    v.extend([0xa5; 8]);
    v
}
fn zl(stream: &[u8]) -> Vec<u8> {
    let mut v = vec![0x78, 0x9c];
    v.extend(stream);
    v.extend([0x5a; 4]);
    v
}

fn seq_bytes(v: &RV) -> Option<Vec<u8>> {
    match v {
        RV::Seq(vs) => vs.iter().map(|x| if let RV::Int(_, n) = x { u8::try_from(*n).ok() } else { None }).collect(),
        _ => None,
    }
}
fn field<'a>(v: &'a RV, f: &str) -> Option<&'a RV> {
    match v {
        RV::Rec(fs) => fs.iter().find(|(l, _)| l == f).map(|x| &x.1),
        _ => None,
    }
}
fn tfield<'a>(v: &'a T, f: &str) -> Option<&'a T> {
    match v {
        T::Rec(_, fs) => fs.iter().find(|(l, _)| l == f).map(|x| &x.1),
        _ => None,
    }
}

/// outcome in the oracle's terms
#[derive(PartialEq, Debug)]
enum Got {
    Bytes(Vec<u8>),
    Reject,
    Broken(String),
}

fn show(g: &Got) -> String {
    match g {
        Got::Bytes(b) => format!("{} bytes {}", b.len(), dbgtree::short(&format!("{b:02x?}"))),
        Got::Reject => "rejection".into(),
        Got::Broken(s) => s.clone(),
    }
}

fn got_member(v: &RV) -> Got {
    match field(v, "data").and_then(|d| field(d, "inflate")).and_then(seq_bytes) {
        Some(b) => Got::Bytes(b),
        None => Got::Broken(format!("no inflated bytes in {}", dbgtree::short(&v.to_string()))),
    }
}

fn via_gzip(d: &Dec, s: &[u8]) -> Got {
    match eng::interp(&d.gzip, &gz(s)) {
        Out::Ok(RV::Seq(ms)) if ms.len() == 1 => got_member(&ms[0]),
        Out::Ok(v) => Got::Broken(format!("not one member: {}", dbgtree::short(&v.to_string()))),
        Out::Reject(_) => Got::Reject,
        Out::Panic(p) => Got::Broken(format!("panic: {p}")),
    }
}
fn via_zlib(d: &Dec, s: &[u8]) -> Got {
    match eng::interp(&d.zlib, &zl(s)) {
        Out::Ok(v) => got_member(&v),
        Out::Reject(_) => Got::Reject,
        Out::Panic(p) => Got::Broken(format!("panic: {p}")),
    }
}
/// the bare stream; also tells how many bytes were taken
fn via_raw(d: &Dec, s: &[u8]) -> (Got, usize) {
    let r = guarded(|| d.raw.run(doodle::read::ReadCtxt::new(s)).map(|(v, rest)| (vcore::rv::from_value(&v), rest.offset)).map_err(|e| e.to_string()));
    match r {
        Ok(Ok((v, n))) => (field(&v, "inflate").and_then(seq_bytes).map(Got::Bytes).unwrap_or(Got::Broken("no inflated bytes".into())), n),
        Ok(Err(_)) => (Got::Reject, 0),
        Err(p) => (Got::Broken(format!("panic: {p}")), 0),
    }
}
fn via_gen(s: &[u8]) -> Option<Got> {
    Some(match eng::generated("gzip", &gz(s)) {
        GenOut::Absent => return None,
        GenOut::Reject(..) => Got::Reject,
        GenOut::Panic(p) => Got::Broken(format!("panic: {p}")),
        GenOut::Ok(t) => match dbgtree::parse(&t) {
            Err(e) => Got::Broken(e),
            Ok(T::Seq(ms)) if ms.len() == 1 => match tfield(&ms[0], "data").and_then(|x| tfield(x, "inflate")) {
                Some(T::Seq(bs)) => match bs.iter().map(|x| if let T::Num(n) = x { u8::try_from(*n).ok() } else { None }).collect() {
                    Some(b) => Got::Bytes(b),
                    None => Got::Broken("odd bytes".into()),
                },
                _ => Got::Broken("no inflated bytes".into()),
            },
            Ok(_) => Got::Broken("not one member".into()),
        },
    })
}

/// decides one stream; `all` also runs the zlib wrapper and the bare stream
fn decide(ctx: &Ctx, w: usize, d: &Dec, s: &[u8], want: &Verdict, what: &str, all: bool) {
    ctx.begin(w, || format!("{what} stream={s:02x?}"));
    let mut outs: Vec<(&str, Got)> = vec![("interpreter via gzip", via_gzip(d, s))];
    if let Some(g) = via_gen(s) {
        outs.push(("generated decoder via gzip", g));
    }
    if all {
        outs.push(("interpreter via zlib", via_zlib(d, s)));
    }
    // a truncated stream may be completed by the bytes of the wrapper: judge what was really given
    let mut judged: Vec<(&str, Got, Verdict)> = vec![];
    for (n, g) in outs {
        let full: Vec<u8> = if n.ends_with("zlib") { zl(s)[2..].to_vec() } else { gz(s)[10..].to_vec() };
        let tail = if n.ends_with("zlib") { 4 } else { 8 };
        let v = match inflate(&full) {
            Verdict::Bytes(b, bits) => {
                if bits.div_ceil(8) + tail == full.len() { Verdict::Bytes(b, bits) } else { Verdict::Reject("stream does not end where the data does") }
            }
            v => v,
        };
        judged.push((n, g, v));
    }
    if all {
        let (g, n) = via_raw(d, s);
        let g = match (g, want) {
            (Got::Bytes(_), Verdict::Bytes(_, bits)) if n != bits.div_ceil(8) => Got::Broken(format!("took {n} bytes of a stream of {bits} bits")),
            (g, _) => g,
        };
        judged.push(("interpreter, bare stream", g, inflate(s)));
    }
    for (n, g, v) in judged {
        ctx.add_transitions(1);
        let ok = match (&v, &g) {
            (Verdict::Open(_), Got::Broken(_)) => true, // C18 judges crashes
            (Verdict::Open(_), _) => {
                ctx.count("open", 1);
                true
            }
            (Verdict::Reject(why), g) => {
                ctx.count(&format!("rejected: {why}"), 1);
                *g == Got::Reject || matches!(g, Got::Broken(p) if p.starts_with("panic"))
            }
            (Verdict::Bytes(b, _), Got::Bytes(c)) => {
                ctx.count("decoded", 1);
                b == c
            }
            _ => false,
        };
        if !ok {
            let exp = match &v {
                Verdict::Bytes(b, _) => format!("{} bytes {}", b.len(), dbgtree::short(&format!("{b:02x?}"))),
                Verdict::Reject(w) => format!("rejection ({w})"),
                Verdict::Open(_) => unreachable!(),
            };
            ctx.violation(&format!("deflate:{}:{what}", n.replace(' ', "-")), &format!("{n}: {what}\nstream {s:02x?}\nexpected {exp}\ngot {}", show(&g)));
        }
    }
    ctx.end(w);
}

fn token_lists(max: usize, toks: &[Tok]) -> Vec<Vec<Tok>> {
    let mut all = vec![vec![]];
    let mut cur = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for c in &cur {
            for t in toks {
                let mut c: Vec<Tok> = c.clone();
                c.push(t.clone());
                next.push(c);
            }
        }
        all.extend(next.iter().cloned());
        cur = next;
    }
    all
}

pub fn run(ctx: &'static Ctx) {
    let thorough = ctx.tier == Tier::Thorough;
    if let Err(e) = build() {
        ctx.violation("deflate:build", &format!("the DEFLATE definition cannot be compiled: {e}"));
        return;
    }
    // the model against itself: what the encoder writes, the reference decoder reads
    let toks = [Tok::Lit(0), Tok::Lit(200), Tok::Ref(3, 1), Tok::Ref(4, 2), Tok::Ref(258, 1), Tok::Ref(11, 5)];
    let lists = token_lists(if thorough { 4 } else { 3 }, &toks);
    let mut single: Vec<Block> = vec![];
    for t in &lists {
        single.push(Block::Fixed(t.clone()));
        for h in [Hdr::Plain, Hdr::Runs, Hdr::RunsFull] {
            if h == Hdr::Runs || t.len() <= 2 {
                single.push(Block::Dynamic(t.clone(), h));
            }
        }
    }
    for n in [0usize, 1, 2, 3, 8, 255, 256, 300] {
        single.push(Block::Stored((0..n).map(|i| (i * 7) as u8).collect()));
    }
    let mut cases: Vec<Vec<Block>> = single.iter().map(|b| vec![b.clone()]).collect();
    // sequences of blocks
    let pool: Vec<Block> = vec![
        Block::Stored(vec![]),
        Block::Stored(vec![9]),
        Block::Stored(vec![1, 2, 3, 4, 5]),
        Block::Fixed(vec![]),
        Block::Fixed(vec![Tok::Lit(7)]),
        Block::Fixed(vec![Tok::Lit(255), Tok::Ref(3, 1)]),
        Block::Fixed(vec![Tok::Ref(5, 3), Tok::Lit(1)]),
        Block::Dynamic(vec![Tok::Lit(8)], Hdr::Plain),
        Block::Dynamic(vec![Tok::Ref(6, 2)], Hdr::Runs),
        Block::Dynamic(vec![Tok::Lit(3), Tok::Lit(4), Tok::Ref(17, 2), Tok::Ref(3, 19)], Hdr::RunsFull),
    ];
    let depth = if thorough { 4 } else { 3 };
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for k in 0..depth {
        let mut next = vec![];
        for c in &cur {
            for i in 0..pool.len() {
                let mut c = c.clone();
                c.push(i);
                next.push(c);
            }
        }
        if k > 0 {
            cases.extend(next.iter().map(|c| c.iter().map(|i| pool[*i].clone()).collect()));
        }
        cur = next;
    }
    // every length code and every distance code, at both ends of its range
    let mut fill: Vec<Tok> = vec![Tok::Lit(1), Tok::Lit(2), Tok::Lit(3)];
    fill.extend((0..127).map(|_| Tok::Ref(258, 3)));
    let mut lens: Vec<u16> = vec![];
    for i in 0..29 {
        let lo = LEN_BASE[i];
        let hi = if i == 28 { 258 } else { lo + (1 << LEN_EXTRA[i]) - 1 };
        for x in [lo, hi.min(if i == 27 { 257 } else { 258 }), (lo + hi) / 2] {
            if !lens.contains(&x) {
                lens.push(x);
            }
        }
    }
    if thorough {
        lens = (3..=258).collect();
    }
    for &l in &lens {
        for d in [1u16, 2, 3] {
            cases.push(vec![Block::Fixed(vec![Tok::Lit(1), Tok::Lit(2), Tok::Lit(3), Tok::Ref(l, d)])]);
            cases.push(vec![Block::Dynamic(vec![Tok::Lit(1), Tok::Lit(2), Tok::Lit(3), Tok::Ref(l, d)], Hdr::Runs)]);
        }
    }
    for i in 0..30 {
        let lo = DIST_BASE[i];
        let hi = lo + (((1u32 << DIST_EXTRA[i]) - 1) as u16);
        for d in [lo, hi, lo + (hi - lo) / 3 * 2] {
            let mut t: Vec<Tok> = vec![];
            let mut have = 0u32;
            // just enough output, all three residues distinguishable
            t.extend([Tok::Lit(1), Tok::Lit(2), Tok::Lit(3), Tok::Lit(4), Tok::Lit(5)]);
            have += 5;
            while have < d as u32 {
                t.push(Tok::Ref(258.min((d as u32 - have).max(3)) as u16, 5));
                have += 258.min((d as u32 - have).max(3));
            }
            t.push(Tok::Ref(4, d));
            t.push(Tok::Lit(9));
            cases.push(vec![Block::Fixed(t.clone())]);
            if d < 2000 || thorough {
                cases.push(vec![Block::Dynamic(t, Hdr::Runs)]);
            }
        }
    }
    // literals over the whole range
    cases.push(vec![Block::Fixed((0..=255).map(Tok::Lit).collect())]);
    for h in [Hdr::Plain, Hdr::Runs, Hdr::RunsFull] {
        cases.push(vec![Block::Dynamic((0..=255).map(Tok::Lit).collect(), h)]);
        cases.push(vec![Block::Dynamic((0..15).map(|i| Tok::Lit(i * 17)).collect(), h)]);
    }
    // one stream per encoding, its oracle by construction
    let mut streams: Vec<(W, Option<Vec<u8>>, String)> = vec![];
    for c in &cases {
        let w = encode(c);
        let e = expand(c);
        let mut name = dbgtree::short(&format!("{c:?}"));
        name.truncate(400);
        match (&e, inflate(&w.bytes)) {
            (Some(b), Verdict::Bytes(o, n)) if *b == o && n == w.nbits => {}
            (None, Verdict::Reject("distance too far back")) => {}
            (e, v) => panic!("reference model disagrees with itself: {name}: {e:?} vs {v:?}"),
        }
        streams.push((w, e, name));
    }
    ctx.add_states(streams.len() as u64);
    ctx.count("block/token sequences", streams.len() as u64);
    ctx.sample(|| format!("{} -> {:02x?}", streams[40].2, streams[40].0.bytes));
    let st: &'static Vec<(W, Option<Vec<u8>>, String)> = Box::leak(Box::new(streams));
    ctx.par_with(st.len(), || build().unwrap(), |d, w, n| {
            let (s, _, name) = &st[n];
            decide(ctx, w, d, &s.bytes, &inflate(&s.bytes), name, true);
            ctx.add_traces(1);
    });
    // errors: every bit flipped, every truncation, trailing bytes
    let mut base: Vec<(Vec<u8>, String)> = vec![];
    for (s, e, name) in st.iter() {
        if e.is_some() && s.bytes.len() <= if thorough { 70 } else { 40 } {
            base.push((s.bytes.clone(), name.clone()));
        }
    }
    let step = (base.len() / if thorough { 400 } else { 60 }).max(1);
    let base: Vec<_> = base.into_iter().step_by(step).collect();
    let mut bad: Vec<(Vec<u8>, String)> = vec![];
    for (s, name) in &base {
        for b in 0..s.len() * 8 {
            let mut t = s.clone();
            t[b / 8] ^= 1 << (b % 8);
            bad.push((t, format!("bit {b} flipped in {name}")));
        }
        for k in 0..s.len() {
            bad.push((s[..k].to_vec(), format!("cut to {k} bytes: {name}")));
        }
    }
    ctx.count("damaged streams", bad.len() as u64);
    ctx.add_states(bad.len() as u64);
    let bad: &'static Vec<(Vec<u8>, String)> = Box::leak(Box::new(bad));
    ctx.par_with(bad.len(), || build().unwrap(), |d, w, n| {
            let (s, name) = &bad[n];
            decide(ctx, w, d, s, &inflate(s), name, true);
    });
    // every bit string of the first two (three) bytes
    let nb = if thorough { 3 } else { 2 };
    let total = 1usize << (8 * nb);
    ctx.count("all streams of bytes", nb as u64);
    ctx.add_states(total as u64);
    ctx.par_with(total, || build().unwrap(), |d, w, n| {
            let s: Vec<u8> = (0..nb).map(|i| (n >> (8 * i)) as u8).collect();
            decide(ctx, w, d, &s, &inflate(&s), &format!("all {nb}-byte streams"), nb == 2);
    });
    ctx.note("streams whose validity RFC 1951 leaves to the decoder (incomplete codes, too many declared symbols, a run past the declared lengths) are not judged");
}
