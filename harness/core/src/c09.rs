//! C09: byte sets against a plain 256-entry membership model: the complete state space of sets
//! over eight word-boundary bytes (and their complements), all pairs of a family of structured
//! sets, and every range.
use crate::report::{Ctx, Tier, WORKERS, guarded};
use doodle::byte_set::ByteSet;

#[derive(Clone, PartialEq, Eq)]
pub struct M(pub [bool; 256]);

impl M {
    fn none() -> M {
        M([false; 256])
    }
    fn from(f: impl Fn(u8) -> bool) -> M {
        M(std::array::from_fn(|i| f(i as u8)))
    }
    fn list(&self) -> Vec<u8> {
        (0..=255u8).filter(|b| self.0[*b as usize]).collect()
    }
    fn bits(&self) -> [u64; 4] {
        let mut w = [0u64; 4];
        for b in self.list() {
            w[b as usize / 64] |= 1 << (b % 64);
        }
        w
    }
    fn zip(&self, o: &M, f: impl Fn(bool, bool) -> bool) -> M {
        M(std::array::from_fn(|i| f(self.0[i], o.0[i])))
    }
}

fn same(s: &ByteSet, m: &M) -> bool {
    s.to_bits() == m.bits()
}

fn show(m: &M) -> String {
    format!("{:?}", m.list())
}

/// the set a displayed form denotes (named classes are not interpreted)
fn displayed(s: &str) -> Option<M> {
    let mut acc = M::none();
    for t in s.split(" ∪ ") {
        let list = |x: &str| -> Option<Vec<u8>> { x.split(", ").map(|n| n.parse().ok()).collect() };
        let m = if t == "∅" {
            M::none()
        } else if t == "U8" {
            M::from(|_| true)
        } else if let Some(n) = t.strip_prefix("[= ").and_then(|x| x.strip_suffix(']')) {
            let n: u8 = n.parse().ok()?;
            M::from(|b| b == n)
        } else if let Some(n) = t.strip_prefix("[!= ").and_then(|x| x.strip_suffix(']')) {
            let n: u8 = n.parse().ok()?;
            M::from(|b| b != n)
        } else if let Some(x) = t.strip_prefix('{').and_then(|x| x.strip_suffix('}')) {
            let l = list(x)?;
            M::from(|b| l.contains(&b))
        } else if let Some(x) = t.strip_prefix("∁({").and_then(|x| x.strip_suffix("})")) {
            let l = list(x)?;
            M::from(|b| !l.contains(&b))
        } else if let Some(x) = t.strip_prefix('⟦').and_then(|x| x.strip_suffix('⟧')) {
            let (a, z) = x.split_once(',')?;
            let (a, z): (u8, u8) = (a.parse().ok()?, z.parse().ok()?);
            M::from(|b| a <= b && b <= z)
        } else {
            return None;
        };
        acc = acc.zip(&m, |a, b| a || b);
    }
    Some(acc)
}

/// every query of one set
fn queries(s: &ByteSet, m: &M) -> Result<u64, String> {
    let l = m.list();
    let c = |ok: bool, what: &str| if ok { Ok(()) } else { Err(format!("{what} wrong for {}", show(m))) };
    for b in 0..=255u8 {
        c(s.contains(b) == m.0[b as usize], "contains")?;
    }
    c(s.len() as usize == l.len(), "len")?;
    c(s.is_empty() == l.is_empty(), "is_empty")?;
    c(s.is_full() == (l.len() == 256), "is_full")?;
    c(s.min_elem() == l.first().copied(), "min_elem")?;
    c(s.max_elem() == l.last().copied(), "max_elem")?;
    c(s.iter().collect::<Vec<u8>>() == l, "iter")?;
    c(same(&s.complement(), &M::from(|b| !m.0[b as usize])), "complement")?;
    c(same(&!*s, &M::from(|b| !m.0[b as usize])), "not")?;
    c(ByteSet::from_bits(s.to_bits()) == *s, "from_bits")?;
    c(ByteSet::from_iter(l.iter().copied()) == *s, "from_iter")?;
    c(ByteSet::from(l.as_slice()) == *s, "from slice")?;
    let bounds = l.first().map(|a| (*a, *l.last().unwrap()));
    c(s.bounds() == bounds, "bounds")?;
    let contiguous = bounds.map(|(a, z)| (z - a) as usize + 1 == l.len()).unwrap_or(true);
    c(s.is_contiguous() == contiguous, "is_contiguous")?;
    for b in 0..=255u8 {
        let want = m.0[b as usize].then(|| {
            let (mut lo, mut hi) = (b, b);
            while lo > 0 && m.0[lo as usize - 1] {
                lo -= 1;
            }
            while hi < 255 && m.0[hi as usize + 1] {
                hi += 1;
            }
            (lo, hi)
        });
        c(s.find_enclosing_range(b) == want, "find_enclosing_range")?;
        if let Some((lo, hi)) = want {
            c(s.contains_range(lo..=hi), "contains_range")?;
            c(hi == 255 || !s.contains_range(lo..=hi + 1), "contains_range")?;
            c(lo == 0 || !s.contains_range(lo - 1..=b), "contains_range")?;
        }
    }
    // what is displayed for people has to exist for every set
    if let Some(d) = displayed(&s.to_string()) {
        c(d == *m, "displayed form")?;
    }
    let json = serde_json::to_value(s).map_err(|e| e.to_string())?;
    let data: Vec<u8> = json["data"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default();
    let meant = match json["tag"].as_str() {
        Some("includes") => M::from(|b| data.contains(&b)),
        _ => M::from(|b| !data.contains(&b)),
    };
    c(meant == *m, "serialised form")?;
    let dbg = format!("{s:?}");
    let (neg, body) = match dbg.strip_prefix('!') {
        Some(r) => (true, r),
        None => (false, dbg.as_str()),
    };
    let nums: Vec<u8> = body.trim_matches(['{', '}']).split(", ").filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    c(M::from(|b| nums.contains(&b) != neg) == *m, "debug form")?;
    Ok(256 + 14)
}

/// every binary operation of two sets
fn pair(s: &ByteSet, m: &M, t: &ByteSet, n: &M) -> Result<u64, String> {
    let c = |ok: bool, what: &str| if ok { Ok(()) } else { Err(format!("{what} wrong for {} and {}", show(m), show(n))) };
    c(same(&s.union(t), &m.zip(n, |a, b| a || b)), "union")?;
    c(same(&s.intersection(t), &m.zip(n, |a, b| a && b)), "intersection")?;
    c(same(&s.difference(t), &m.zip(n, |a, b| a && !b)), "difference")?;
    c(s.is_disjoint(t) == !(0..256).any(|i| m.0[i] && n.0[i]), "is_disjoint")?;
    c((s == t) == (m == n), "equality")?;
    Ok(5)
}

pub fn run(ctx: &Ctx) {
    let edge: Vec<u8> = match ctx.tier {
        Tier::Quick => vec![0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255],
        Tier::Thorough => (0..=255u8).filter(|b| b % 64 < 3 || b % 64 > 60 || b % 16 == 0).collect(),
    };
    ctx.note("complete state space over 8 boundary bytes and complements under every operation; all pairs of structured sets; every range");
    let fail = |r: Result<u64, String>| match r {
        Ok(n) => {
            ctx.add_transitions(n);
            ctx.add_traces(n);
        }
        Err(e) => ctx.violation(&e, &e),
    };
    let g = |f: &dyn Fn() -> Result<u64, String>| match guarded(f) {
        Ok(r) => fail(r),
        Err(e) => ctx.violation(&format!("panic {e}"), &format!("PANIC {e}")),
    };
    // 1. complete state space
    const U: [u8; 8] = [0, 63, 64, 127, 128, 191, 192, 255];
    let sub = |mask: u32, neg: bool| M::from(|b| U.iter().position(|u| *u == b).map(|i| mask >> i & 1 == 1).unwrap_or(false) != neg);
    // reached through the operations themselves, breadth first from the empty set
    let mut seen = vec![None; 512];
    let mut queue = std::collections::VecDeque::new();
    seen[0] = Some(ByteSet::empty());
    queue.push_back(0usize);
    while let Some(k) = queue.pop_front() {
        let s = seen[k].unwrap();
        let m = sub(k as u32 & 255, k >= 256);
        ctx.add_states(1);
        ctx.begin(WORKERS, || format!("queries on {}", show(&m)));
        g(&|| queries(&s, &m));
        for (i, b) in U.iter().enumerate() {
            for ins in [true, false] {
                let mut t = s;
                if ins { t.insert(*b) } else { t.remove(*b) }
                let bit = if ins != (k >= 256) { (k | 1 << i) & 255 } else { k & 255 & !(1 << i) };
                let k2 = bit | (k & 256);
                let m2 = sub(k2 as u32 & 255, k2 >= 256);
                g(&|| if same(&t, &m2) { Ok(1) } else { Err(format!("{} {b} on {} gives {t:?}", if ins { "insert" } else { "remove" }, show(&m))) });
                if seen[k2].is_none() {
                    seen[k2] = Some(t);
                    queue.push_back(k2);
                }
            }
        }
        let k2 = k ^ 256;
        if seen[k2].is_none() {
            seen[k2] = Some(!s);
            queue.push_back(k2);
        }
    }
    ctx.end(WORKERS);
    if seen.iter().any(|s| s.is_none()) {
        ctx.violation("unreached", "some set cannot be reached by insertion, removal and complement");
    } else {
        ctx.par(512, |w, k| {
            ctx.begin(w, || format!("pairs of {k}"));
            let (s, m) = (seen[k].unwrap(), sub(k as u32 & 255, k >= 256));
            let mut n = 0;
            for j in 0..512 {
                match guarded(|| pair(&s, &m, &seen[j].unwrap(), &sub(j as u32 & 255, j >= 256))) {
                    Ok(Ok(x)) => n += x,
                    Ok(Err(e)) | Err(e) => ctx.violation(&e, &e),
                }
            }
            fail(Ok(n));
        });
    }
    // 2. every range
    ctx.par(256, |w, a| {
        ctx.begin(w, || format!("ranges from {a}"));
        let a = a as u8;
        for b in 0..=255u8 {
            let m = M::from(|x| a <= x && x <= b);
            g(&|| {
                let s = ByteSet::from(a..=b);
                if !same(&s, &m) {
                    return Err(format!("{a}..={b} gives {s:?}"));
                }
                let h = ByteSet::from(a..b);
                if !same(&h, &M::from(|x| a <= x && x < b)) {
                    return Err(format!("{a}..{b} gives {h:?}"));
                }
                if a == b && (ByteSet::singleton(a) != s || ByteSet::from([a]) != s) {
                    return Err(format!("singleton {a}"));
                }
                // exhaustive queries of full cost only on the word-boundary diagonal
                if a % 8 < 2 || b % 8 > 5 { queries(&s, &m) } else { Ok(2) }
            });
            ctx.add_states(1);
        }
    });
    // 3. structured family, all pairs
    let mut fam: Vec<M> = vec![];
    for (i, a) in edge.iter().enumerate() {
        for b in &edge[i..] {
            fam.push(M::from(|x| *a <= x && x <= *b));
            fam.push(M::from(|x| !(*a <= x && x <= *b)));
            fam.push(M::from(|x| x == *a || x == *b));
        }
    }
    let words = [0u64, u64::MAX, 1, 1 << 63, 0xaaaa_aaaa_aaaa_aaaa];
    for k in 0..625usize {
        let w: [u64; 4] = std::array::from_fn(|i| words[k / 5usize.pow(i as u32) % 5]);
        fam.push(M::from(|x| w[x as usize / 64] >> (x % 64) & 1 == 1));
    }
    fam.push(M::none());
    let sets: Vec<ByteSet> = fam.iter().map(|m| m.list().into_iter().fold(ByteSet::empty(), |mut s, b| { s.insert(b); s })).collect();
    ctx.par(fam.len(), |w, i| {
        ctx.begin(w, || format!("family {i}"));
        g(&|| if same(&sets[i], &fam[i]) { queries(&sets[i], &fam[i]) } else { Err(format!("insertion of {}", show(&fam[i]))) });
        let mut n = 0;
        for j in 0..fam.len() {
            match guarded(|| pair(&sets[i], &fam[i], &sets[j], &fam[j])) {
                Ok(Ok(x)) => n += x,
                Ok(Err(e)) | Err(e) => ctx.violation(&e, &e),
            }
        }
        fail(Ok(n));
        ctx.add_states(1);
        if i % 301 == 7 {
            ctx.sample(|| format!("set {} against {} others", show(&fam[i]), fam.len()));
        }
    });
}
