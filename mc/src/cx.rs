//! Bookkeeping of one check: counters, violations, known findings, evidence.
use crate::sut::{Sets, R};
use model::chunk::Fmt;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub struct Violation {
    pub order: usize,
    pub key: String,
    pub what: String,
    pub artefact: String,
}
pub struct Cx {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    pub evals: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub incomplete: AtomicU64,
    failing: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    counts: Mutex<BTreeMap<String, u64>>,
    violations: Mutex<Vec<Violation>>,
    stop: AtomicBool,
    known: Vec<(String, String)>,
    hit: Mutex<BTreeMap<String, String>>,
    pub only: Option<String>,
}
pub fn hash64(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

const MAX_VIOLATIONS: usize = 12;

impl Cx {
    pub fn new(id: &'static str, thorough: bool, seed: u64) -> Cx {
        let mut known = vec![];
        let path = concat!(env!("CARGO_MANIFEST_DIR"), "/../known_findings.txt");
        for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
            // known: property=C01 key=<exact key> :: text
            if let Some(r) = l.strip_prefix(&format!("known: property={id} key=")) {
                let (k, t) = r.split_once(" :: ").unwrap_or((r, ""));
                known.push((k.to_string(), t.to_string()));
            }
        }
        Cx {
            id,
            thorough,
            seed,
            start: Instant::now(),
            evals: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            incomplete: AtomicU64::new(0),
            failing: AtomicU64::new(0),
            distinct: Mutex::default(),
            samples: Mutex::default(),
            counts: Mutex::default(),
            violations: Mutex::default(),
            stop: AtomicBool::new(false),
            known,
            hit: Mutex::default(),
            only: std::env::var("VP_ONLY").ok(),
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn eval(&self) {
        self.evals.fetch_add(1, Relaxed);
    }
    /// Count a distinct, non-trivial case.
    pub fn seen(&self, x: &impl Hash) {
        let h = hash64(x);
        self.distinct.lock().unwrap().insert(h);
    }
    pub fn count(&self, what: &str) {
        self.add(what, 1)
    }
    pub fn add(&self, what: &str, n: u64) {
        *self.counts.lock().unwrap().entry(what.to_string()).or_default() += n;
    }
    pub fn get(&self, what: &str) -> u64 {
        self.counts.lock().unwrap().get(what).copied().unwrap_or(0)
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            let mut t = f();
            if t.len() > 900 {
                t = t.chars().take(900).collect();
                t += " ...";
            }
            s.push(t)
        }
    }
    /// Report a failing case. `key` identifies the case (the same on every
    /// run); cases listed in the known findings file are not violations.
    pub fn violation(&self, order: usize, key: String, what: String, artefact: String) {
        if let Some(k) = self.known.iter().find(|k| k.0 == key) {
            self.hit.lock().unwrap().entry(k.0.clone()).or_insert(k.1.clone());
            return;
        }
        let mut v = self.violations.lock().unwrap();
        self.failing.fetch_add(1, Relaxed);
        if v.len() >= 2 * MAX_VIOLATIONS {
            return;
        }
        v.push(Violation { order, key, what, artefact });
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Relaxed)
        }
    }
    pub fn failed(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
    /// Standard report for one conversion.
    pub fn bad(&self, order: usize, key: &str, what: &str, input: &[u8], f: &Fmt, s: &Sets, extra: &str) {
        let art = format!(
            "property: {}\ncase: {key}\nwhat: {what}\nformat: {f:?}\n{}\ninput ({} bytes): {}\n{extra}\n",
            self.id,
            s.describe(),
            input.len(),
            hex(&input[..input.len().min(200_000)])
        );
        self.violation(order, key.to_string(), what.to_string(), art)
    }
    /// Anything but a panic is fine for cases whose outcome is judged elsewhere.
    pub fn no_panic(&self, order: usize, key: &str, r: &R, input: &[u8], f: &Fmt, s: &Sets) -> bool {
        if let R::Panic(p) = r {
            self.bad(order, key, &format!("the conversion panicked: {p}"), input, f, s, "");
            return false;
        }
        true
    }

    /// Run `f` on every item on all cores; stops early after enough violations.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(usize, &T) + Sync) {
        let next = AtomicUsize::new(0);
        let chunk = (items.len() / 2000).clamp(1, 64);
        std::thread::scope(|sc| {
            for _ in 0..8 {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || loop {
                        let i = next.fetch_add(chunk, Relaxed);
                        if i >= items.len() || self.stopped() {
                            break;
                        }
                        for j in i..(i + chunk).min(items.len()) {
                            // A result that the reference model itself trips over is not a valid one.
                            if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(j, &items[j]))) {
                                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                                self.violation(j, format!("item {j}"), format!("the result cannot be judged: {m}"), m);
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }

    pub fn finish(&self, meta: &crate::Meta) -> i32 {
        let mut v = std::mem::take(&mut *self.violations.lock().unwrap());
        v.sort_by_key(|x| x.order);
        let dir = std::path::PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/../evidence"));
        let rdir = dir.join("replay");
        let _ = std::fs::create_dir_all(&rdir);
        for e in std::fs::read_dir(&rdir).into_iter().flatten().flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("{}-", self.id)) {
                let _ = std::fs::remove_file(e.path());
            }
        }
        let rdir = rdir.canonicalize().unwrap_or(rdir);
        for (i, x) in v.iter().enumerate() {
            let p = rdir.join(format!("{}-{}.txt", self.id, i));
            let _ = std::fs::write(&p, &x.artefact);
            println!("  [{}] {}: {}", self.id, x.key, x.what.chars().take(600).collect::<String>());
            println!("VIOLATION property={} replay={}", self.id, p.display());
        }
        for (k, t) in self.hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} ({})", self.id, t, k);
        }
        let j = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o += "\\\"",
                    '\\' => o += "\\\\",
                    '\n' => o += "\\n",
                    c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|s| j(s)).collect();
        let counts: Vec<String> =
            self.counts.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", j(k), v)).collect();
        let (ev, di) = (self.evals.load(Relaxed), self.distinct.lock().unwrap().len());
        let (st, tr, tv) = (self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed));
        let mut cov = vec![
            format!("\"evaluations\": {ev}"),
            format!("\"distinct_nontrivial\": {di}"),
            format!("\"rule\": {}", j(meta.rule)),
            format!("\"samples\": [{}]", samples.join(", ")),
        ];
        if meta.level == "model_checking" {
            cov.push(format!("\"states\": {st}"));
            cov.push(format!("\"transitions\": {tr}"));
            cov.push(format!("\"traces_validated_against_impl\": {tv}"));
            cov.push(format!("\"explorations_cut_by_a_bound\": {}", self.incomplete.load(Relaxed)));
        }
        cov.push(format!("\"counts\": {{{}}}", counts.join(", ")));
        let assumptions: Vec<String> = meta.assumptions.iter().map(|a| j(a)).collect();
        let txt = format!(
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            meta.level,
            cov.join(",\n  "),
            assumptions.join(", "),
            self.start.elapsed().as_secs_f64(),
            self.failing.load(Relaxed)
        );
        let _ = std::fs::write(dir.join(format!("{}.json", self.id)), txt);
        println!(
            "{}: {} evaluations, {} distinct, {} states, {} transitions, {} traces, {:.1} s, {} violations",
            self.id,
            ev,
            di,
            st,
            tr,
            tv,
            self.start.elapsed().as_secs_f64(),
            self.failing.load(Relaxed)
        );
        if v.is_empty() {
            0
        } else {
            1
        }
    }
}
