//! C06/C18: every file one small damage away from the seed files, through both decoders of its format.
use crate::eng::{self, GenOut, Out, Shipped};
use std::collections::HashMap;
use std::sync::Mutex;
use vcore::dbgtree;
use vcore::report::{Ctx, Tier};

pub struct Seed {
    pub label: String,
    pub name: String,
    pub data: Vec<u8>,
}

pub fn seeds() -> Vec<Seed> {
    let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/seeds");
    let mut v: Vec<Seed> = vec![];
    for e in std::fs::read_dir(dir).expect("seeds") {
        let p = e.unwrap().path();
        let stem = p.file_stem().unwrap().to_string_lossy().to_string();
        if let Some((l, n)) = stem.split_once("__") {
            v.push(Seed { label: l.into(), name: n.into(), data: std::fs::read(&p).unwrap() });
        }
    }
    v.sort_by(|a, b| (&a.label, &a.name).cmp(&(&b.label, &b.name)));
    v
}

/// one damaged variant, described by number
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Damage {
    None,
    Cut(usize),
    Set(usize, u8),
    Delete(usize),
    Insert(usize, u8),
    /// overwrite `n` bytes with one value
    Fill(usize, usize, u8),
    Append(u8),
    /// a big-endian / little-endian 16/32-bit field moved by a small amount
    Add(usize, usize, bool, i8),
    Swap(usize, usize),
}

pub fn apply(b: &[u8], d: Damage) -> Option<Vec<u8>> {
    let mut v = b.to_vec();
    match d {
        Damage::None => {}
        Damage::Cut(n) => v.truncate(n),
        Damage::Set(i, x) => {
            if v[i] == x {
                return None;
            }
            v[i] = x
        }
        Damage::Delete(i) => {
            v.remove(i);
        }
        Damage::Insert(i, x) => v.insert(i, x),
        Damage::Fill(i, n, x) => {
            if i + n > v.len() {
                return None;
            }
            v[i..i + n].fill(x)
        }
        Damage::Append(x) => v.push(x),
        Damage::Add(i, n, be, k) => {
            if i + n > v.len() {
                return None;
            }
            let mut x: u64 = 0;
            for j in 0..n {
                let p = if be { i + j } else { i + n - 1 - j };
                x = x << 8 | v[p] as u64;
            }
            x = x.wrapping_add(k as i64 as u64);
            for j in 0..n {
                let p = if be { i + n - 1 - j } else { i + j };
                v[p] = x as u8;
                x >>= 8;
            }
        }
        Damage::Swap(i, j) => {
            if j >= v.len() || v[i] == v[j] {
                return None;
            }
            v.swap(i, j)
        }
    }
    Some(v)
}

/// all damages of a file, `full` with every byte value
pub fn damages(b: &[u8], level: usize) -> Vec<Damage> {
    let n = b.len();
    let mut v = vec![Damage::None];
    v.extend((0..n).map(Damage::Cut));
    for i in 0..n {
        let o = b[i];
        let mut vals: Vec<u8> = match level {
            0 => vec![0, 0xff, o ^ 1, o.wrapping_add(1), o ^ 0x80],
            1 => {
                let mut x = vec![0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff, o.wrapping_add(1), o.wrapping_sub(1)];
                x.extend((0..8).map(|k| o ^ (1 << k)));
                x
            }
            _ => (0..=255).collect(),
        };
        vals.sort();
        vals.dedup();
        v.extend(vals.into_iter().filter(|x| *x != o).map(|x| Damage::Set(i, x)));
        v.push(Damage::Delete(i));
        v.push(Damage::Insert(i, 0));
        v.push(Damage::Insert(i, 0xff));
        for k in [2usize, 4] {
            v.push(Damage::Fill(i, k, 0));
            v.push(Damage::Fill(i, k, 0xff));
            if level > 0 {
                v.push(Damage::Fill(i, k, 0x7f));
                for be in [true, false] {
                    for d in [-1i8, 1, 2, -2] {
                        v.push(Damage::Add(i, k, be, d));
                    }
                }
            }
        }
        if level > 0 {
            v.push(Damage::Fill(i, 8, 0xff));
            v.push(Damage::Fill(i, 8, 0));
            v.push(Damage::Insert(i, o));
            v.push(Damage::Swap(i, i + 1));
        }
    }
    v.push(Damage::Append(0));
    v.push(Damage::Append(0xff));
    v
}

/// the shipped formats compiled once per worker
pub struct Set {
    m: doodle::FormatModule,
    main: doodle::Format,
    progs: HashMap<String, Option<Shipped>>,
}
impl Set {
    pub fn new() -> Set {
        let (m, main) = eng::module();
        Set { m, main, progs: HashMap::new() }
    }
    pub fn get(&mut self, label: &str) -> Option<&Shipped> {
        if !self.progs.contains_key(label) {
            let p = eng::compile(&self.m, &self.main, label).ok();
            self.progs.insert(label.to_string(), p);
        }
        self.progs[label].as_ref()
    }
}

/// what kind of crash, independent of where in the source it is raised and how it is worded
fn kind(p: &str) -> &'static str {
    let m = p.rsplit_once(" @ ").map(|x| x.0).unwrap_or(p).to_lowercase();
    let any = |ws: &[&str]| ws.iter().any(|w| m.contains(w));
    if any(&["overflow", "underflow"]) {
        "arithmetic"
    } else if any(&["non-exhaustive", "refut"]) {
        "no_branch"
    } else if any(&["out of range", "out of bounds", "index", "slice"]) {
        "index"
    } else if any(&["unwrap", "none", "err("]) {
        "unwrap"
    } else if any(&["divi", "remainder"]) {
        "division"
    } else {
        "other"
    }
}

/// crashes by key: how often, and one input
static CRASH: Mutex<std::collections::BTreeMap<String, (u64, Vec<u8>, String)>> = Mutex::new(std::collections::BTreeMap::new());

fn crash(key: String, data: &[u8], detail: String) {
    let mut m = CRASH.lock().unwrap();
    let e = m.entry(key).or_insert_with(|| (0, data.to_vec(), detail.clone()));
    e.0 += 1;
    if (data.len(), data) < (e.1.len(), &e.1) {
        e.1 = data.to_vec();
        e.2 = detail;
    }
}

/// `crashes`: judge C18 (no panic), otherwise C06 (agreement)
fn one(ctx: &Ctx, w: usize, set: &mut Set, label: &str, what: &str, data: &[u8], crashes: bool, located: bool) -> bool {
    let Some(p) = set.get(label) else { return false };
    ctx.begin(w, || format!("{label} {what} {}", hex(data)));
    let a = eng::interp(p, data);
    let b = eng::generated(label, data);
    let c = if located { eng::located(p, data) } else { None };
    ctx.end(w);
    ctx.add_transitions(located as u64);
    ctx.add_transitions(2);
    let ok = matches!(a, Out::Ok(_));
    // an expression that has no value ends the interpreter (known); the generated decoder must fail for that reason
    let why = match &b {
        GenOut::Reject(_, why) => why,
        GenOut::Panic(e) => kind(e),
        _ => "",
    };
    let alone = |k: &'static str| if label == "main" || k == why { "" } else { ":alone" };
    if crashes {
        if let Out::Panic(e) = &a {
            ctx.count("interpreter panics", 1);
            crash(format!("crash:interp:{label}:{}{}", kind(e), alone(kind(e))), data, format!("interpreting {label} panics: {e}\n{what}\ninput {}", hex(data)));
        }
        if let Some(e) = &c {
            ctx.count("located interpreter panics", 1);
            crash(format!("crash:located:{label}:{}{}", kind(e), alone(kind(e))), data, format!("interpreting {label} with locations panics: {e}\n{what}\ninput {}", hex(data)));
        }
        if let GenOut::Panic(e) = &b {
            ctx.count("generated panics", 1);
            crash(format!("crash:generated:{label}:{}", kind(e)), data, format!("the generated decoder of {label} panics: {e}\n{what}\ninput {}", hex(data)));
        }
    } else if let Some(d) = eng::compare(label, &a, &b) {
        ctx.violation(&format!("differs:{label}:{what}"), &format!("{label}, {what}: {d}\ninput {}", hex(data)));
    }
    ctx.count(if ok { "accepted" } else { "not accepted" }, 1);
    ok
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn run(ctx: &'static Ctx, crashes: bool) {
    let thorough = ctx.tier == Tier::Thorough;
    let seeds: &'static Vec<Seed> = Box::leak(Box::new(seeds()));
    {
        let mut s = Set::new();
        let mut bad = vec![];
        for l in vgen::ENTRIES {
            if s.get(l).is_none() {
                bad.push(*l);
            }
        }
        if !bad.is_empty() {
            ctx.note(format!("not compared alone (only through the choice of all formats): {bad:?}"));
        }
        if s.get("main").is_none() {
            ctx.violation("build:main", "the choice of all shipped formats cannot be compiled");
            return;
        }
        let mut acc = 0;
        for x in seeds.iter() {
            if let Some(p) = s.get(&x.label) {
                let o = eng::interp(p, &x.data);
                if matches!(o, Out::Ok(_)) {
                    acc += 1;
                } else if std::env::var_os("VERIF_SEEDS").is_some() {
                    eprintln!("seed {}__{} {}: {o:?}", x.label, x.name, o.kind());
                }
            }
        }
        ctx.count("seed files", seeds.len() as u64);
        ctx.count("seed files accepted", acc);
    }
    // work list: (seed, damages)
    let mut work: Vec<(usize, Damage)> = vec![];
    for (i, s) in seeds.iter().enumerate() {
        let n = s.data.len();
        let level = match (thorough, n) {
            (true, ..=700) => 2,
            (true, _) => 1,
            (false, ..=70) => 2,
            (false, ..=300) => 1,
            (false, _) => 0,
        };
        work.extend(damages(&s.data, level).into_iter().map(|d| (i, d)));
    }
    // neighbouring work items cost alike: spread them
    let work: &'static Vec<(usize, Damage)> = Box::leak(Box::new(work));
    ctx.add_states(work.len() as u64);
    ctx.count("damaged files", work.len() as u64);
    ctx.sample(|| format!("{}__{} {:?}", seeds[work[work.len() / 2].0].label, seeds[work[work.len() / 2].0].name, work[work.len() / 2].1));
    let main_every = if thorough { 1 } else { 11 };
    ctx.par_with(work.len(), Set::new, |set, w, n| {
        let (i, d) = work[n];
        let s = &seeds[i];
        let Some(data) = apply(&s.data, d) else { return };
        let what = format!("{}__{} {d:?}", s.label, s.name);
        let loc = crashes && (thorough || matches!(d, Damage::None | Damage::Cut(_) | Damage::Delete(_) | Damage::Fill(..)));
        one(ctx, w, set, &s.label, &what, &data, crashes, loc);
        // and as one of all formats
        if n % main_every == 0 {
            one(ctx, w, set, "main", &what, &data, crashes, false);
        }
        ctx.add_traces(1);
    });
    // every short string through every format, over the bytes that mean something to some format
    let alpha: &'static [u8] = &[0x00, 0x01, 0x02, 0x03, b'0', b'G', b'I', b'S', b'Z', 0x1f, 0x7f, 0x80, 0x89, 0x8b, 0xc3, 0xd8, 0xe0, 0xff];
    let len = if thorough { 5 } else { 3 };
    let mut total = 0usize;
    let mut pow = vec![];
    for l in 0..=len {
        pow.push(total);
        total += alpha.len().pow(l as u32);
    }
    ctx.add_states(total as u64);
    ctx.count("short strings", total as u64);
    ctx.par_with(total, Set::new, |set, w, n| {
        let l = (0..=len).rev().find(|l| pow[*l] <= n).unwrap();
        let mut k = n - pow[l];
        let mut s = vec![];
        for _ in 0..l {
            s.push(alpha[k % alpha.len()]);
            k /= alpha.len();
        }
        for label in vgen::ENTRIES {
            one(ctx, w, set, label, "short string", &s, crashes, crashes);
        }
    });
    for (k, (n, _, d)) in CRASH.lock().unwrap().iter() {
        if std::env::var_os("VERIF_SEEDS").is_some() {
            eprintln!("{n} {k}");
        }
        ctx.violation(k, &format!("{n} inputs: {d}"));
    }
}
