//! Shared reporting: counters, evidence file, known findings, replay files, watchdog.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub key: String,
    pub detail: String,
}

struct Slot {
    started: Option<Instant>,
    what: String,
    file: Option<fs::File>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub level: &'static str,
    pub t0: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub nontrivial: AtomicU64,
    pub samples: Mutex<Vec<String>>,
    pub extra: Mutex<BTreeMap<String, u64>>,
    pub notes: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    nviol: AtomicUsize,
    known: BTreeMap<String, String>,
    known_seen: Mutex<BTreeSet<String>>,
    slots: Vec<Mutex<Slot>>,
    done: AtomicBool,
    finished: AtomicBool,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
        if std::env::var_os("VERIF_PANICS").is_some() {
            eprintln!("panic: {msg} @ {loc}");
        }
    }));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub const WORKERS: usize = 8;
const CASE_LIMIT: Duration = Duration::from_secs(30);
const RSS_LIMIT_KB: u64 = 14 * 1024 * 1024;

fn rss_kb() -> u64 {
    fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1)?.parse::<u64>().ok())
        .map(|p| p * 4)
        .unwrap_or(0)
}

/// Holds the case each worker is on, so that a crash of the whole process can be reported.
fn case_file(prop: &str, w: usize) -> Option<fs::File> {
    let _ = fs::create_dir_all("/verif/scratch");
    fs::File::create(format!("/verif/scratch/{prop}.{w}.case")).ok()
}

static CTX: OnceLock<Ctx> = OnceLock::new();

impl Ctx {
    pub fn init(prop: &str, tier: Tier, level: &'static str) -> &'static Ctx {
        install_panic_hook();
        let mut known = BTreeMap::new();
        let text = fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
        for line in text.lines() {
            // finding: property=C01 key=<key> :: <what>
            let Some(rest) = line.strip_prefix("finding: property=") else { continue };
            let Some((p, rest)) = rest.split_once(" key=") else { continue };
            if p != prop {
                continue;
            }
            let (key, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
            known.insert(key.to_string(), what.to_string());
        }
        let ctx = Ctx {
            prop: prop.to_string(),
            tier,
            level,
            t0: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            extra: Mutex::new(BTreeMap::new()),
            notes: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            nviol: AtomicUsize::new(0),
            known,
            known_seen: Mutex::new(BTreeSet::new()),
            slots: (0..WORKERS + 1)
                .map(|w| Mutex::new(Slot { started: None, what: String::new(), file: case_file(prop, w) }))
                .collect(),
            done: AtomicBool::new(false),
            finished: AtomicBool::new(false),
        };
        let _ = CTX.set(ctx);
        let c = CTX.get().unwrap();
        std::thread::spawn(move || c.watchdog());
        c
    }

    fn watchdog(&self) {
        loop {
            std::thread::sleep(Duration::from_millis(250));
            if self.done.load(Ordering::SeqCst) {
                return;
            }
            let rss = rss_kb();
            let mut worst: Option<(Duration, String)> = None;
            for s in &self.slots {
                let s = s.lock().unwrap();
                if let Some(t) = s.started {
                    let e = t.elapsed();
                    if worst.as_ref().map(|w| e > w.0).unwrap_or(true) {
                        worst = Some((e, s.what.clone()));
                    }
                }
            }
            if let Some((e, what)) = worst {
                if e > CASE_LIMIT || (rss > RSS_LIMIT_KB && e > Duration::from_secs(1)) {
                    self.violation(
                        &format!("hang {what}"),
                        &format!("did not finish: {:?} elapsed, rss {} MB: {what}", e, rss / 1024),
                    );
                    self.finish();
                }
            }
        }
    }

    /// Marks the case worker `w` is about to run (for the watchdog).
    pub fn begin(&self, w: usize, what: impl FnOnce() -> String) {
        let mut s = self.slots[w].lock().unwrap();
        s.started = Some(Instant::now());
        s.what = what();
        if let Some(f) = &s.file {
            use std::os::unix::fs::FileExt;
            let mut b = s.what.as_bytes().to_vec();
            b.resize(600, b' ');
            *b.last_mut().unwrap() = b'\n';
            let _ = f.write_at(&b, 0);
        }
    }
    pub fn end(&self, w: usize) {
        self.slots[w].lock().unwrap().started = None;
    }

    pub fn violation(&self, key: &str, detail: &str) {
        let key = key.replace('\n', " ");
        if self.known.contains_key(&key) {
            self.known_seen.lock().unwrap().insert(key);
            return;
        }
        let n = self.nviol.fetch_add(1, Ordering::SeqCst);
        if n < 200 {
            self.violations
                .lock()
                .unwrap()
                .push(Violation { key, detail: detail.to_string() });
        }
    }
    pub fn too_many(&self) -> bool {
        self.nviol.load(Ordering::Relaxed) >= 200 && std::env::var_os("VERIF_ALL").is_none()
    }
    pub fn add_states(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn add_transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn add_traces(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn add_nontrivial(&self, n: u64) {
        self.nontrivial.fetch_add(n, Ordering::Relaxed);
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.extra.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            let mut s = s();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
            }
            v.push(s);
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }

    /// Runs `f(worker)` on WORKERS threads with large stacks.
    pub fn workers(&self, f: impl Fn(usize) + Sync) {
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..WORKERS {
                let f = &f;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(512 << 20)
                        .spawn_scoped(sc, move || {
                            if let Err(e) = guarded(|| f(w)) {
                                self.crashed(&e);
                            }
                        })
                        .unwrap(),
                );
            }
            for h in hs {
                if h.join().is_err() {
                    eprintln!("worker thread died: harness failure");
                    std::process::exit(3);
                }
            }
        });
    }
    /// A panic that no case expected: the code under test broke down in a step that always works
    /// when the property holds (building a module, compiling a format that is known to compile).
    /// A lack of resources is the sandbox's doing and gives no answer.
    pub fn crashed(&self, e: &str) -> ! {
        eprintln!("unexpected panic: {e}");
        if e.contains("os error") || e.contains("failed to spawn") {
            std::process::exit(3);
        }
        self.violation(&format!("crash {e}"), &format!("panic in a step that must succeed: {e}"));
        self.finish();
    }

    /// Runs a whole check, then writes its report.
    pub fn run_all(&'static self, f: impl FnOnce(&'static Ctx)) -> ! {
        if let Err(e) = guarded(|| f(self)) {
            self.crashed(&e);
        }
        self.finish();
    }

    /// Work-stealing loop over 0..n.
    pub fn par(&self, n: usize, f: impl Fn(usize, usize) + Sync) {
        let next = AtomicUsize::new(0);
        self.workers(|w| {
            loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n || self.too_many() {
                    break;
                }
                f(w, i);
            }
            self.end(w);
        });
    }

    /// The same with a worker's own state.
    pub fn par_with<S>(&self, n: usize, init: impl Fn() -> S + Sync, f: impl Fn(&mut S, usize, usize) + Sync) {
        let next = AtomicUsize::new(0);
        self.workers(|w| {
            let mut st = init();
            loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n || self.too_many() {
                    break;
                }
                f(&mut st, w, i);
            }
            self.end(w);
        });
    }

    pub fn finish(&self) -> ! {
        if self.finished.swap(true, Ordering::SeqCst) {
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        self.done.store(true, Ordering::SeqCst);
        for w in 0..self.slots.len() {
            let _ = fs::remove_file(format!("/verif/scratch/{}.{w}.case", self.prop));
        }
        let v = self.violations.lock().unwrap();
        let nviol = self.nviol.load(Ordering::SeqCst);
        let tier = match self.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        };
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut cov = serde_json::Map::new();
        let st = self.states.load(Ordering::Relaxed);
        let tr = self.transitions.load(Ordering::Relaxed);
        match self.level {
            "model_checking" => {
                cov.insert("states".into(), st.into());
                cov.insert("transitions".into(), tr.into());
                cov.insert(
                    "traces_validated_against_impl".into(),
                    self.traces.load(Ordering::Relaxed).into(),
                );
                cov.insert("exhaustive".into(), (nviol == 0).into());
            }
            _ => {
                cov.insert("evaluations".into(), tr.into());
                cov.insert(
                    "distinct_nontrivial".into(),
                    self.nontrivial.load(Ordering::Relaxed).into(),
                );
            }
        }
        let notes = self.notes.lock().unwrap().join("; ");
        cov.insert("rule".into(), notes.into());
        cov.insert("samples".into(), serde_json::json!(*self.samples.lock().unwrap()));
        for (k, n) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), (*n).into());
        }
        cov.insert("violations".into(), nviol.into());
        cov.insert(
            "known_findings_reproduced".into(),
            self.known_seen.lock().unwrap().len().into(),
        );
        let ev = serde_json::json!({
            "property": self.prop, "tier": tier, "seed": seed, "level": self.level,
            "coverage": cov, "wall_s": self.t0.elapsed().as_secs_f64(),
        });
        let _ = fs::create_dir_all("/verif/evidence");
        let _ = fs::write(
            format!("/verif/evidence/{}.json", self.prop),
            serde_json::to_string_pretty(&ev).unwrap(),
        );
        for (k, what) in &self.known {
            let seen = self.known_seen.lock().unwrap().contains(k);
            if seen {
                println!("KNOWN-FINDING: property={} {k} :: {what}", self.prop);
            } else {
                eprintln!("note: listed finding not reproduced in this run: {k}");
            }
        }
        println!(
            "{} {tier}: states={st} transitions={tr} traces={} violations={nviol} wall={:.1}s {:?}",
            self.prop,
            self.traces.load(Ordering::Relaxed),
            self.t0.elapsed().as_secs_f64(),
            self.extra.lock().unwrap()
        );
        if nviol > 0 {
            let dir = format!("/verif/replay/{}", self.prop);
            let _ = fs::create_dir_all(&dir);
            for (i, x) in v.iter().enumerate() {
                let path = format!("{dir}/{i}.txt");
                let _ = fs::write(&path, format!("key={}\n{}\n", x.key, x.detail));
                if i < 10 {
                    println!("VIOLATION property={} replay={path}", self.prop);
                    let mut d = x.detail.clone();
                    if d.len() > 1500 {
                        let mut k = 1500;
                        while !d.is_char_boundary(k) {
                            k -= 1;
                        }
                        d.truncate(k);
                    }
                    println!("  {d}");
                }
            }
            std::process::exit(1);
        }
        std::process::exit(0);
    }
}
