//! Text: every short byte string, every code point, every pair of neighbouring characters of every
//! length class, against the standard library's notion of UTF-8.
use crate::eng::{self, GenOut, Out, Shipped};
use vcore::dbgtree::{self, T};
use vcore::report::{Ctx, Tier, WORKERS};
use vcore::rv::RV;

fn want(b: &[u8], nul: bool) -> Option<Vec<char>> {
    let s = std::str::from_utf8(b).ok()?;
    if !nul && s.contains('\0') {
        return None;
    }
    Some(s.chars().collect())
}

fn chars(v: &RV) -> Option<Vec<char>> {
    match v {
        RV::Seq(vs) => vs.iter().map(|x| if let RV::Char(c) = x { Some(*c) } else { None }).collect(),
        _ => None,
    }
}

struct Dec {
    text: Shipped,
    nz: Option<Shipped>,
    one: Option<Shipped>,
    main: Option<Shipped>,
}
fn build(with_main: bool) -> Result<Dec, String> {
    let (m, main) = eng::module();
    Ok(Dec {
        text: eng::compile(&m, &main, "text")?,
        nz: eng::compile(&m, &main, "text.string.utf8.non-null").ok(),
        one: eng::compile(&m, &main, "text.utf8.char").ok(),
        main: if with_main { eng::compile(&m, &main, "main").ok() } else { None },
    })
}

fn verdict(got: Result<Option<Vec<char>>, String>, want: &Option<Vec<char>>) -> Option<String> {
    match got {
        Err(e) => Some(e),
        Ok(g) if g == *want => None,
        Ok(g) => Some(format!("expected {want:?}, got {g:?}")),
    }
}

fn of(o: Out) -> Result<Option<Vec<char>>, String> {
    match o {
        Out::Ok(RV::Char(c)) => Ok(Some(vec![c])),
        Out::Ok(v) => chars(&v).map(Some).ok_or_else(|| format!("not characters: {}", dbgtree::short(&v.to_string()))),
        Out::Reject(_) => Ok(None),
        Out::Panic(p) => Err(format!("panic: {p}")),
    }
}

fn decide(ctx: &Ctx, w: usize, d: &Dec, b: &[u8]) {
    ctx.begin(w, || format!("text {b:02x?}"));
    let full = want(b, true);
    let mut fails: Vec<(&str, String)> = vec![];
    let mut n = 2;
    if let Some(e) = verdict(of(eng::interp(&d.text, b)), &full) {
        fails.push(("interpreter", e));
    }
    let g = match eng::generated("text", b) {
        GenOut::Absent => None,
        GenOut::Reject(..) => Some(Ok(None)),
        GenOut::Panic(p) => Some(Err(format!("panic: {p}"))),
        GenOut::Ok(s) => Some(match dbgtree::parse(&s) {
            Ok(T::Seq(ts)) => ts.iter().map(|t| if let T::Char(c) = t { Some(*c) } else { None }).collect::<Option<Vec<_>>>().map(Some).ok_or_else(|| s.clone()),
            _ => Err(s.clone()),
        }),
    };
    if let Some(g) = g {
        if let Some(e) = verdict(g, &full) {
            fails.push(("generated decoder", e));
        }
    }
    if let Some(p) = &d.nz {
        n += 1;
        if let Some(e) = verdict(of(eng::interp(p, b)), &want(b, false)) {
            fails.push(("non-null text", e));
        }
    }
    if let Some(p) = &d.one {
        n += 1;
        let one = full.clone().filter(|c| c.len() == 1);
        if let Some(e) = verdict(of(eng::interp(p, b)), &one) {
            fails.push(("single character", e));
        }
    }
    if let Some(p) = &d.main {
        n += 1;
        // whatever else the bytes may be, they are only ever reported as text when they are text
        match eng::interp(p, b) {
            Out::Ok(RV::Var(l, v)) if l == "text" => {
                if chars(&v) != full {
                    fails.push(("choice of all formats", format!("expected {full:?}, got {v}")));
                }
            }
            Out::Ok(_) => {}
            Out::Reject(_) => {}
            Out::Panic(p) => fails.push(("choice of all formats", format!("panic: {p}"))),
        }
    }
    ctx.add_transitions(n);
    ctx.count(if full.is_some() { "well-formed" } else { "ill-formed" }, 1);
    for (who, e) in fails {
        ctx.violation(&format!("utf8:{}:{b:02x?}", who.replace(' ', "-")), &format!("{who} on {b:02x?}: {e}"));
    }
    ctx.end(w);
}

pub fn run(ctx: &'static Ctx) {
    let thorough = ctx.tier == Tier::Thorough;
    if let Err(e) = build(false) {
        ctx.violation("utf8:build", &format!("the text definition cannot be compiled: {e}"));
        return;
    }
    // boundaries of every range in the UTF-8 table
    let edge: Vec<u8> = vec![
        0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8,
        0xff,
    ];
    let tails: Vec<u8> = vec![0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff];
    let mut families: Vec<(&str, usize, Box<dyn Fn(usize) -> Vec<u8> + Sync>)> = vec![];
    families.push(("the empty text", 1, Box::new(|_| vec![])));
    families.push(("all strings of 1 byte", 256, Box::new(|n| vec![n as u8])));
    families.push(("all strings of 2 bytes", 65536, Box::new(|n| vec![(n >> 8) as u8, n as u8])));
    if thorough {
        families.push(("all strings of 3 bytes", 1 << 24, Box::new(|n| vec![(n >> 16) as u8, (n >> 8) as u8, n as u8])));
    } else {
        let t = tails.clone();
        families.push(("all pairs of bytes, boundary third", 65536 * t.len(), Box::new(move |n| vec![(n / t.len() >> 8) as u8, (n / t.len()) as u8, t[n % t.len()]])));
    }
    {
        let e = edge.clone();
        let k = e.len();
        families.push(("boundary strings of 4 bytes", k * k * k * k, Box::new(move |n| vec![e[n / k / k / k], e[n / k / k % k], e[n / k % k], e[n % k]])));
    }
    families.push((
        "every scalar value",
        0x110000,
        Box::new(|n| {
            let mut b = [0; 4];
            match char::from_u32(n as u32) {
                Some(c) => c.encode_utf8(&mut b).as_bytes().to_vec(),
                // surrogates spelled out
                None => vec![0xe0 | (n >> 12) as u8, 0x80 | (n >> 6 & 63) as u8, 0x80 | (n & 63) as u8],
            }
        }),
    ));
    families.push((
        "overlong spellings",
        0x800 + 0x10000 + 0x80,
        Box::new(|n| {
            if n < 0x80 {
                vec![0xc0 | (n >> 6) as u8, 0x80 | (n & 63) as u8]
            } else if n < 0x80 + 0x800 {
                let n = n - 0x80;
                vec![0xe0, 0x80 | (n >> 6) as u8, 0x80 | (n & 63) as u8]
            } else {
                let n = n - 0x880;
                vec![0xf0, 0x80 | (n >> 12) as u8, 0x80 | (n >> 6 & 63) as u8, 0x80 | (n & 63) as u8]
            }
        }),
    ));
    {
        // sequences of characters of every class, cut anywhere, with every kind of damage to one byte
        let cs = ['\0', 'A', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
        let mut all: Vec<Vec<u8>> = vec![];
        for a in cs {
            for b in cs {
                for c in cs {
                    let s: String = [a, b, c].iter().collect();
                    let s = s.into_bytes();
                    for k in 0..=s.len() {
                        all.push(s[..k].to_vec());
                        if k > 0 {
                            all.push(s[k..].to_vec());
                        }
                    }
                    for i in 0..s.len() {
                        for x in [0x00, 0x7f, 0x80, 0xbf, 0xc0, 0xff, s[i] ^ 0x40, s[i] ^ 0x20] {
                            let mut t = s.clone();
                            t[i] = x;
                            all.push(t);
                        }
                    }
                }
            }
        }
        all.sort();
        all.dedup();
        families.push(("three characters, cut or damaged", all.len(), Box::new(move |n| all[n].clone())));
    }
    let fams: &'static Vec<_> = Box::leak(Box::new(families));
    for (name, total, f) in fams.iter() {
        ctx.add_states(*total as u64);
        ctx.count(name, *total as u64);
        ctx.sample(|| format!("{name}: {:02x?}", f(*total / 2)));
        // the choice of all formats is run where the family is small enough
        let with_main = *total < 600_000 || thorough && *total < 2_000_000;
        ctx.workers(|w| {
            let d = build(with_main).unwrap();
            for n in (w..*total).step_by(WORKERS) {
                decide(ctx, w, &d, &f(n));
            }
        });
        ctx.add_traces(*total as u64);
    }
}
