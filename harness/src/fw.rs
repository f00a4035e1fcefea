//! Shared machinery: seeded randomness, the case loop with per-case monitors,
//! the three-valued verdict, known findings, replay files and evidence.
use serde_json::{Value, json};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn derive(seed: u64, label: &str, index: u64) -> Self {
        Rng::new(fnv(label.as_bytes()) ^ seed.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ index.wrapping_mul(0xA076_1D64_78BD_642F))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n`
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// Uniform in `lo..=hi`
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % (hi - lo + 1) as u64) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn float(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = self.below(i + 1);
            items.swap(i, j);
        }
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub start: Instant,
    pub budget: Duration,
    pub only: Option<(String, u64)>,
    pub root: PathBuf,
    pub journal: Option<std::fs::File>,
    pub obs: Mutex<Obs>,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    /// Whether a panic of the code under test breaks the property
    pub panics_violate: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
    pub input: String,
    pub group: String,
    pub case: u64,
}

#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub harness_errors: Vec<String>,
    group: String,
    case: u64,
    pub verbose: bool,
}

impl Obs {
    /// Records that an event was observed by a monitor.
    /// Shows an input before it is used, to look into hangs
    pub fn trace(&self, text: &str) {
        if std::env::var_os("VMON_TRACE").is_some() {
            eprintln!("{text}");
        }
    }

    pub fn count(&mut self, what: &str) {
        self.add(what, 1);
    }
    pub fn add(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(what) {
            *c += n;
        } else {
            self.counts.insert(what.to_string(), n);
        }
    }
    /// Records that this case was non-trivial, keyed by its content.
    pub fn nontrivial<T: Hash>(&mut self, key: &T) {
        self.distinct.insert(hash_of(key));
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.samples.len() < 4 {
            self.samples.push(v());
        }
    }
    pub fn violation(&mut self, sig: impl Into<String>, input: impl Into<String>, detail: impl Into<String>) {
        let v = Violation { sig: sig.into(), detail: detail.into(), input: input.into(), group: self.group.clone(), case: self.case };
        if self.verbose {
            println!("violation [{}] {}\n  input: {}\n  {}", v.group, v.sig, v.input, v.detail);
        }
        if self.violations.len() < 200 {
            self.violations.push(v);
        } else {
            self.count("violations_beyond_200");
        }
    }
    fn merge(&mut self, other: Obs) {
        self.evals += other.evals;
        self.distinct.extend(other.distinct);
        for (k, v) in other.counts {
            self.add(&k, v);
        }
        for s in other.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
        self.violations.extend(other.violations);
        self.harness_errors.extend(other.harness_errors);
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static THREAD_NO: RefCell<usize> = const { RefCell::new(0) };
}

static HOOKED: OnceLock<()> = OnceLock::new();

pub fn install_panic_hook() {
    HOOKED.get_or_init(|| {
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map_or("?".to_string(), |l| format!("{}:{}", l.file(), l.line()));
            let msg = panic_text(info.payload());
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        }));
    });
}

fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".to_string()
    }
}

#[derive(Debug, Clone)]
pub struct Panicked {
    pub message: String,
    pub location: String,
}

impl Panicked {
    pub fn in_harness(&self) -> bool {
        self.location.starts_with("src/") || self.location.contains("/verif/harness/")
    }
    /// A signature that survives line-number changes
    pub fn sig(&self) -> String {
        let file = self.location.rsplit_once(':').map_or(self.location.as_str(), |p| p.0);
        let file = file.strip_prefix("/repo/").unwrap_or(file);
        let msg: String = self.message.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(24).collect();
        format!("panic@{file}: {msg}")
    }
}

/// Runs code under test, turning a panic into a value.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .map_or_else(
                || Panicked { message: panic_text(&*e), location: "?".into() },
                |(message, location)| Panicked { message, location },
            )
    })
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        if self.quick() { quick } else { thorough }
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }

    /// Runs `n` cases of `group` over all cores. Each case gets its own random stream, so
    /// that a case is the same whatever the number of threads.
    pub fn explore<F>(&self, group: &str, n: u64, f: F)
    where
        F: Fn(&mut Rng, u64, &mut Obs) + Sync,
    {
        let next = AtomicU64::new(0);
        let (lo, hi) = match &self.only {
            Some((g, c)) if g == group || *g == format!("{:016x}", fnv(group.as_bytes())) => (*c, *c + 1),
            Some(_) => return,
            None => (0, n),
        };
        next.store(lo, Ordering::SeqCst);
        let group_id = fnv(group.as_bytes());
        let verbose = self.only.is_some();
        std::thread::scope(|s| {
            for t in 0..self.threads {
                let next = &next;
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        THREAD_NO.with(|x| *x.borrow_mut() = t);
                        let mut obs = Obs { group: group.to_string(), verbose, ..Obs::default() };
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= hi {
                                break;
                            }
                            if self.out_of_time() {
                                obs.count("cases_skipped_for_time");
                                continue;
                            }
                            self.note(t, group_id, i);
                            obs.case = i;
                            obs.evals += 1;
                            let mut rng = Rng::derive(self.seed, group, i);
                            let r = guarded(|| f(&mut rng, i, &mut obs));
                            if let Err(p) = r {
                                if p.in_harness() {
                                    obs.harness_errors.push(format!("{group}/{i}: {} at {}", p.message, p.location));
                                } else if self.panics_violate {
                                    obs.violation(p.sig(), format!("{group}/{i}"), format!("{} at {}", p.message, p.location));
                                } else {
                                    obs.count("target_panics");
                                }
                            }
                        }
                        self.note(t, 0, u64::MAX);
                        self.obs.lock().unwrap().merge(obs);
                    })
                    .expect("spawn");
            }
        });
    }

    /// Runs fixed inputs, each identified by its name.
    pub fn directed<T: Sync, F>(&self, group: &str, items: &[T], f: F)
    where
        F: Fn(&T, &mut Obs) + Sync,
    {
        self.explore(group, items.len() as u64, |_, i, obs| f(&items[i as usize], obs));
    }

    fn note(&self, thread: usize, group: u64, case: u64) {
        if let Some(j) = &self.journal {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&group.to_le_bytes());
            b[8..].copy_from_slice(&case.to_le_bytes());
            let _ = j.write_all_at(&b, thread as u64 * 16);
        }
    }

    /// Prints the verdict, writes evidence and replay files and returns the exit code.
    pub fn finish(&self) -> i32 {
        let obs = std::mem::take(&mut *self.obs.lock().unwrap());
        let known: Vec<(String, String)> = std::fs::read_to_string(self.root.join("known_findings.json"))
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
            .and_then(|v| v.get("findings").and_then(Value::as_array).cloned())
            .unwrap_or_default()
            .iter()
            .filter(|f| f["property"] == self.prop.as_str())
            .map(|f| (f["signature"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string()))
            .collect();
        let mut fresh: BTreeMap<String, Vec<Violation>> = BTreeMap::new();
        let mut seen_known: BTreeMap<String, String> = BTreeMap::new();
        for v in &obs.violations {
            if let Some((s, w)) = known.iter().find(|(s, _)| *s == v.sig) {
                seen_known.insert(s.clone(), w.clone());
            } else {
                fresh.entry(v.sig.clone()).or_default().push(v.clone());
            }
        }
        for (s, w) in &seen_known {
            println!("KNOWN-FINDING: property={} {w} [{s}]", self.prop);
        }
        let replay_dir = self.root.join("evidence/replay");
        let _ = std::fs::create_dir_all(&replay_dir);
        let mut lines = vec![];
        for (i, (sig, vs)) in fresh.iter().enumerate() {
            if i >= 20 {
                break;
            }
            let v = vs.iter().min_by_key(|v| v.input.len()).unwrap();
            let path = replay_dir.join(format!("{}-{:016x}.json", self.prop, fnv(sig.as_bytes())));
            let body = json!({
                "property": self.prop, "signature": sig, "group": v.group, "case": v.case,
                "seed": self.seed, "input": v.input, "detail": v.detail, "occurrences": vs.len(),
                "replay": format!("bash /verif/check {} --seed {} --case {}:{}", self.prop, self.seed, v.group, v.case),
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            println!("  {} x{}: {}", sig, vs.len(), clip(&v.detail, 400));
            println!("    input: {}", clip(&v.input, 400));
            lines.push(format!("VIOLATION property={} replay={}", self.prop, path.display()));
        }
        let observed_nothing = obs.evals == 0 || obs.distinct.is_empty();
        let mut assumptions = self.assumptions.lock().unwrap().clone();
        if !obs.harness_errors.is_empty() {
            assumptions.push(format!("{} cases inconclusive for harness errors", obs.harness_errors.len()));
        }
        let evidence = json!({
            "property": self.prop,
            "tier": if self.quick() { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": obs.evals,
                "distinct_nontrivial": obs.distinct.len(),
                "rule": *self.rule.lock().unwrap(),
                "samples": obs.samples,
                "observed_events": obs.counts,
                "known_findings_seen": seen_known.keys().collect::<Vec<_>>(),
            },
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": fresh.len(),
        });
        if self.only.is_none() {
            let p = self.root.join(format!("evidence/{}.json", self.prop));
            let _ = std::fs::write(p, serde_json::to_string_pretty(&evidence).unwrap());
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {} new violation kinds, {} known, {:.1}s",
            self.prop, obs.evals, obs.distinct.len(), fresh.len(), seen_known.len(), self.start.elapsed().as_secs_f64()
        );
        for (k, v) in &obs.counts {
            println!("    {k}: {v}");
        }
        for e in obs.harness_errors.iter().take(5) {
            println!("HARNESS-ERROR {e}");
        }
        for l in &lines {
            println!("{l}");
        }
        if !lines.is_empty() {
            1
        } else if !obs.harness_errors.is_empty() || (observed_nothing && self.only.is_none()) {
            println!("INCONCLUSIVE");
            2
        } else {
            0
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "…" }
}
