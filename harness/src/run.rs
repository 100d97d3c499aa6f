use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What one monitored execution reports back.
pub struct Case {
    /// identity of the case, for counting distinct ones
    pub key: u64,
    /// by the rule in the evidence file
    pub nontrivial: bool,
    /// written out for the evidence samples
    pub desc: String,
}
pub type CaseResult = Result<Case, String>;

impl Case {
    pub fn new(key: u64, nontrivial: bool, desc: String) -> Case { Case { key, nontrivial, desc } }
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 ^= *x as u64; self.0 = self.0.wrapping_mul(0x100000001b3); } }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = Fnv(0xcbf29ce484222325); t.hash(&mut h); h.finish() }
pub fn hash_bytes(b: &[u8]) -> u64 { let mut h = Fnv(0xcbf29ce484222325); h.write(b); h.finish() }

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

#[derive(Default)]
struct SuiteStat { evaluations: u64, distinct: u64, wall: f64, exhaustive: bool }

struct Slot { tid: Mutex<String>, index: AtomicU64, busy: AtomicBool, cpu0: AtomicU64 }

pub struct Runner {
    pub id: &'static str,
    pub tier_thorough: bool,
    pub seed: u64,
    rule: String,
    start: Instant,
    suites: BTreeMap<String, SuiteStat>,
    evaluations: u64,
    distinct: u64,
    samples: Vec<(String, String)>,
    counters: Mutex<BTreeMap<String, u64>>,
    extra: BTreeMap<String, String>,
    assumptions: Vec<String>,
    known: Vec<(String, String)>, // (signature, description)
    known_hit: Mutex<BTreeMap<String, String>>,
    replay: Option<(String, u64)>,
    threads: usize,
    exhaustive_all: bool,
    required: Vec<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o
}

fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

fn task_cpu_ticks(tid: &str) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}
fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4 / 1024
}

/// CPU seconds one case may use before it counts as not terminating.  Cases are sized to take
/// milliseconds, so this is a bound on steps, not a deadline on a loaded machine.
const CASE_CPU_LIMIT_TICKS: u64 = 100 * 40;
const RSS_LIMIT_MB: u64 = 12_000;

impl Runner {
    pub fn new(id: &'static str, rule: &str) -> Runner {
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
        let mut replay = None;
        let mut seed_r = seed;
        let args: Vec<String> = std::env::args().collect();
        if args.len() >= 3 && args[1] == "--replay" {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|s| s.to_string()));
            replay = Some((get("suite").unwrap(), get("index").unwrap().parse().unwrap()));
            seed_r = get("seed").unwrap().parse().unwrap();
        }
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
                else { "panic".into() };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {}: {}", loc, msg));
        }));
        let known = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", verif_dir())).unwrap_or_default().lines()
            .filter_map(|l| {
                let l = l.trim();
                let r = l.strip_prefix("finding: ")?;
                let r = r.strip_prefix(&format!("property={} ", id))?;
                let r = r.strip_prefix("sig=")?;
                let (sig, d) = r.split_once(' ').unwrap_or((r, ""));
                Some((sig.to_string(), d.to_string()))
            }).collect();
        Runner {
            id, tier_thorough: tier == "thorough", seed: seed_r, rule: rule.to_string(), start: Instant::now(),
            suites: BTreeMap::new(), evaluations: 0, distinct: 0, samples: vec![], counters: Mutex::new(BTreeMap::new()),
            extra: BTreeMap::new(), assumptions: vec![], known, known_hit: Mutex::new(BTreeMap::new()), replay,
            threads: std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
            exhaustive_all: false, required: vec![],
        }
    }

    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        // the cheaper workloads can afford more of it on every change
        let scale = if ["C14", "C20", "C23", "C24", "C26", "C27"].contains(&self.id) { 8 } else { 15 };
        if self.tier_thorough { thorough } else { (quick * scale).min(thorough) }
    }
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.to_string()); }
    pub fn note(&mut self, k: &str, v: String) { self.extra.insert(k.to_string(), v); }
    /// an event counter; what the monitors saw
    pub fn count(&self, name: &str, n: u64) { *self.counters.lock().unwrap().entry(name.to_string()).or_insert(0) += n; }
    /// merge a batch of counters with one lock
    pub fn count_all(&self, m: &BTreeMap<String, u64>) {
        let mut c = self.counters.lock().unwrap();
        for (k, v) in m { *c.entry(k.clone()).or_insert(0) += v; }
    }
    /// the run is inconclusive (exit 3) if this event was never observed
    pub fn require(&mut self, name: &str) { self.required.push(name.to_string()); }
    pub fn known_sigs(&self) -> Vec<String> { self.known.iter().map(|x| x.0.clone()).collect() }
    /// A monitor hit that may be a recorded finding: Ok if the signature is listed.
    pub fn finding(&self, sig: &str, msg: String) -> Result<(), String> {
        if let Some(k) = self.known.iter().find(|k| k.0 == sig) {
            self.known_hit.lock().unwrap().insert(k.0.clone(), k.1.clone());
            Ok(())
        } else { Err(format!("[{}] {}", sig, msg)) }
    }

    pub fn suite_exhaustive<F>(&mut self, name: &str, n: u64, f: F) where F: Fn(&mut Rng, u64, &Runner) -> CaseResult + Sync {
        self.suite(name, n, f);
        if let Some(s) = self.suites.get_mut(name) { s.exhaustive = true; }
    }

    /// Run cases 0..n of a suite on all cores.  The rng of a case depends on nothing but
    /// (property, seed, suite, index).
    pub fn suite<F>(&mut self, name: &str, n: u64, f: F) where F: Fn(&mut Rng, u64, &Runner) -> CaseResult + Sync {
        let mut range = 0..n;
        if let Some((s, i)) = &self.replay {
            if s != name { return; }
            range = *i..*i + 1;
        }
        let t0 = Instant::now();
        let base = hash_of(&(self.id, name, self.seed));
        let next = AtomicU64::new(range.start);
        let end = range.end;
        let stop = AtomicBool::new(false);
        let seen: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let evals = AtomicU64::new(0);
        let violation: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let samples: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let nthreads = if self.replay.is_some() || n < 8 { 1 } else { self.threads };
        let slots: Arc<Vec<Slot>> = Arc::new((0..nthreads).map(|_| Slot {
            tid: Mutex::new(String::new()), index: AtomicU64::new(0), busy: AtomicBool::new(false), cpu0: AtomicU64::new(0) }).collect());
        let live = Arc::new(AtomicUsize::new(nthreads));
        // watchdog: a hang or runaway allocation cannot be unwound, so report from here and exit
        let (wid, wseed, wname) = (self.id, self.seed, name.to_string());
        let wslots = slots.clone();
        let wlive = live.clone();
        let wrule = self.rule.clone();
        let wtier = self.tier_thorough;
        let wstart = self.start;
        let wdog = std::thread::spawn(move || {
            let mut last: Vec<(u64, u64)> = vec![(u64::MAX, 0); wslots.len()];
            while wlive.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let rss = rss_mb();
                for (k, s) in wslots.iter().enumerate() {
                    if !s.busy.load(Ordering::SeqCst) { continue; }
                    let idx = s.index.load(Ordering::SeqCst);
                    let tid = s.tid.lock().unwrap().clone();
                    let cpu = match task_cpu_ticks(&tid) { Some(c) => c, None => continue };
                    if last[k].0 != idx { last[k] = (idx, cpu); continue; }
                    let over_cpu = cpu.saturating_sub(last[k].1) > CASE_CPU_LIMIT_TICKS;
                    let over_mem = rss > RSS_LIMIT_MB && cpu.saturating_sub(last[k].1) > 20;
                    if over_cpu || over_mem {
                        let why = if over_cpu { "does not terminate (case CPU bound exceeded)" } else { "does not terminate (unbounded memory growth)" };
                        let p = write_replay(wid, &wname, idx, wseed, why);
                        write_hang_evidence(wid, wtier, wseed, &wrule, wstart, &wname, idx, why);
                        println!("VIOLATION property={} replay={}", wid, p);
                        println!("  suite={} index={}: {}", wname, idx, why);
                        std::process::exit(1);
                    }
                }
            }
        });
        {
            let this = &*self;
            std::thread::scope(|sc| {
                for t in 0..nthreads {
                    let (next, stop, seen, evals, violation, samples, slots, f, live) = (&next, &stop, &seen, &evals, &violation, &samples, &slots, &f, &live);
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                        let slot = &slots[t];
                        let l = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|x| x.to_string_lossy().to_string())).unwrap_or_default();
                        *slot.tid.lock().unwrap() = l;
                        loop {
                            if stop.load(Ordering::Relaxed) { break; }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= end { break; }
                            let mut rng = Rng::new(base ^ i.wrapping_mul(0xD6E8FEB86659FD93));
                            slot.cpu0.store(0, Ordering::SeqCst);
                            slot.index.store(i, Ordering::SeqCst);
                            slot.busy.store(true, Ordering::SeqCst);
                            let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, i, this)));
                            slot.busy.store(false, Ordering::SeqCst);
                            let r = match r { Ok(r) => r, Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())) };
                            evals.fetch_add(1, Ordering::Relaxed);
                            match r {
                                Ok(c) => {
                                    if c.nontrivial { seen[(c.key % 64) as usize].lock().unwrap().insert(c.key); }
                                    if i < 2 || (i == end / 2) {
                                        let mut d = c.desc; if d.len() > 400 { let mut k = 400; while !d.is_char_boundary(k) { k -= 1; } d.truncate(k); d.push('…'); }
                                        samples.lock().unwrap().push((i, d));
                                    }
                                }
                                Err(m) => {
                                    let mut v = violation.lock().unwrap();
                                    if v.as_ref().map_or(true, |(j, _)| i < *j) { *v = Some((i, m)); }
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        live.fetch_sub(1, Ordering::SeqCst);
                    }).unwrap();
                }
            });
        }
        let _ = wdog.join();
        let e = evals.load(Ordering::Relaxed);
        let d: u64 = seen.iter().map(|m| m.lock().unwrap().len() as u64).sum();
        self.evaluations += e;
        self.distinct += d;
        let mut sm = samples.into_inner().unwrap();
        sm.sort();
        for (i, s) in sm { self.samples.push((format!("{}#{}", name, i), s)); }
        let st = self.suites.entry(name.to_string()).or_default();
        st.evaluations += e; st.distinct += d; st.wall += t0.elapsed().as_secs_f64();
        if let Some((i, m)) = violation.into_inner().unwrap() {
            self.fail(name, i, &m);
        }
    }

    pub fn fail(&mut self, suite: &str, index: u64, msg: &str) -> ! {
        let p = write_replay(self.id, suite, index, self.seed, msg);
        self.write_evidence(1);
        println!("VIOLATION property={} replay={}", self.id, p);
        println!("  suite={} index={} seed={}: {}", suite, index, self.seed, msg);
        std::process::exit(1);
    }

    fn write_evidence(&self, violations: u64) {
        let mut o = String::new();
        let _ = write!(o, "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n",
            self.id, if self.tier_thorough { "thorough" } else { "quick" }, self.seed, self.evaluations, self.distinct, esc(&self.rule));
        o.push_str("  \"suites\": {");
        for (k, (n, s)) in self.suites.iter().enumerate() {
            let _ = write!(o, "{}\n   \"{}\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"enumerates_its_finite_space\": {}, \"wall_s\": {:.3}}}", if k > 0 { "," } else { "" }, esc(n), s.evaluations, s.distinct, s.exhaustive, s.wall);
        }
        o.push_str("\n  },\n  \"observed_events\": {");
        for (k, (n, v)) in self.counters.lock().unwrap().iter().enumerate() {
            let _ = write!(o, "{}\n   \"{}\": {}", if k > 0 { "," } else { "" }, esc(n), v);
        }
        o.push_str("\n  },\n");
        for (k, v) in &self.extra { let _ = write!(o, "  \"{}\": \"{}\",\n", esc(k), esc(v)); }
        let kh = self.known_hit.lock().unwrap();
        if !kh.is_empty() {
            o.push_str("  \"known_findings_observed\": [");
            for (k, (s, _)) in kh.iter().enumerate() { let _ = write!(o, "{}\"{}\"", if k > 0 { ", " } else { "" }, esc(s)); }
            o.push_str("],\n");
        }
        if self.exhaustive_all { o.push_str("  \"exhaustive\": true,\n"); }
        o.push_str("  \"samples\": [");
        for (k, (n, s)) in self.samples.iter().take(60).enumerate() {
            let _ = write!(o, "{}\n   {{\"case\": \"{}\", \"what\": \"{}\"}}", if k > 0 { "," } else { "" }, esc(n), esc(s));
        }
        o.push_str("\n  ]\n },\n \"assumptions\": [");
        for (k, a) in self.assumptions.iter().enumerate() { let _ = write!(o, "{}\n  \"{}\"", if k > 0 { "," } else { "" }, esc(a)); }
        let _ = write!(o, "\n ],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", self.start.elapsed().as_secs_f64(), violations);
        let d = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&d);
        let _ = std::fs::write(format!("{}/{}.json", d, self.id), o);
    }

    pub fn finish(mut self) -> ! {
        if self.replay.is_some() {
            println!("replay: case held (evaluations={})", self.evaluations);
            std::process::exit(if self.evaluations > 0 { 0 } else { 3 });
        }
        self.exhaustive_all = !self.suites.is_empty() && self.suites.values().all(|s| s.exhaustive);
        self.write_evidence(0);
        let missing: Vec<String> = { let c = self.counters.lock().unwrap(); self.required.iter().filter(|r| c.get(*r).copied().unwrap_or(0) == 0).cloned().collect() };
        if self.evaluations == 0 || !missing.is_empty() {
            println!("INCONCLUSIVE property={}: never observed: {:?}", self.id, missing);
            std::process::exit(3);
        }
        for (s, d) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} [{}] {}", self.id, s, d);
        }
        println!("OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s", self.id, self.evaluations, self.distinct, self.start.elapsed().as_secs_f64());
        std::process::exit(0);
    }
}

fn write_replay(id: &str, suite: &str, index: u64, seed: u64, msg: &str) -> String {
    let d = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    let p = format!("{}/{}-{}-{}-{}.txt", d, id, suite.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), seed, index);
    let _ = std::fs::write(&p, format!("property={}\nsuite={}\nindex={}\nseed={}\nhow=bash /verif/check.sh {} --replay {}\n\n{}\n", id, suite, index, seed, id, p, msg));
    p
}

fn write_hang_evidence(id: &str, thorough: bool, seed: u64, rule: &str, start: Instant, suite: &str, idx: u64, why: &str) {
    let d = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(format!("{}/{}.json", d, id), format!(
        "{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": 1, \"rule\": \"{}\", \"samples\": [{{\"case\": \"{}#{}\", \"what\": \"{}\"}}]}}, \"wall_s\": {:.3}, \"violations\": 1}}\n",
        id, if thorough { "thorough" } else { "quick" }, seed, idx + 1, esc(rule), esc(suite), idx, esc(why), start.elapsed().as_secs_f64()));
}
