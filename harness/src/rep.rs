//! Case runner: runs groups of cases in parallel, collects what was observed, and turns it
//! into violations, replay files and the evidence file.
use crate::rng::{hash_bytes, hash_str, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Violation {
    pub sig: String,
    pub detail: String,
    pub group: String,
    pub idx: usize,
}

#[derive(Default)]
struct Agg {
    evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    sample_classes: HashSet<String>,
    violations: Vec<Violation>,
    total_violations: u64,
    inconclusive: u64,
    harness_errors: Vec<String>,
    groups: BTreeMap<String, u64>,
}

/// What one endpoint did, whatever the case was about
#[derive(Default, Debug, Clone)]
pub struct Seen {
    /// accept or connect was called
    pub server: bool,
    pub client: bool,
    pub panics: Vec<String>,
    /// standard output and error
    pub printed: Vec<u8>,
    /// heap bytes, files and sockets held when the stream was dropped
    pub live: i64,
    pub opened: u64,
    pub closed: bool,
    /// the most that was held during one call
    pub peak: u64,
    pub received: u64,
}
thread_local! {
    static SEEN: RefCell<Option<Vec<Seen>>> = const { RefCell::new(None) };
}
pub fn seen(s: Seen) {
    SEEN.with(|x| {
        if let Some(v) = x.borrow_mut().as_mut() {
            v.push(s)
        }
    })
}
pub fn watching() -> bool {
    SEEN.with(|x| x.borrow().is_some())
}
type Onlooker = fn(&mut Case, &Seen);
/// The workloads of another check are watched: every share-th case, for what this check is about
#[derive(Clone, Copy)]
struct Foreign {
    id: &'static str,
    share: usize,
    judge: Onlooker,
}

pub struct Rep {
    foreign: Mutex<Option<Foreign>>,
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub thorough: bool,
    agg: Mutex<Agg>,
    start: Instant,
    only: Option<(String, usize)>,
    deadline: Instant,
    stop: AtomicBool,
    slots: *mut u8,
    pub truncated: AtomicBool,
    names: Mutex<Vec<String>>,
}
unsafe impl Send for Rep {}
unsafe impl Sync for Rep {}

const SLOT: usize = 128;
pub const THREADS: usize = 8;

/// What one case sees
pub struct Case<'a> {
    pub rng: Rng,
    pub rep: &'a Rep,
    pub group: &'a str,
    pub idx: usize,
    evals: u64,
    distinct: Vec<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<(String, String)>,
    fails: Vec<(String, String)>,
    inconclusive: u64,
}

thread_local! {
    static PANIC_INFO: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC_INFO.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

/// Run code under test; a panic becomes Err(description)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC_INFO.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_INFO.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

impl Case<'_> {
    pub fn thorough(&self) -> bool {
        self.rep.thorough
    }
    /// An execution was observed and judged; `key` identifies the distinct behaviour/input class
    pub fn ev<K: AsRef<[u8]>>(&mut self, key: K) {
        self.evals += 1;
        self.distinct.push(hash_bytes(key.as_ref()));
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    pub fn distinct(&mut self, key: &[u8]) {
        self.distinct.push(hash_bytes(key));
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, class: &str, text: impl FnOnce() -> String) {
        if self.samples.len() < 12 && !self.samples.iter().any(|s| s.0 == class) {
            self.samples.push((class.to_string(), text()));
        }
    }
    /// The property is broken. `sig` names the kind of failure.
    pub fn fail(&mut self, sig: &str, detail: impl Into<String>) {
        let d: String = detail.into();
        if self.fails.len() < 20 {
            self.fails.push((sig.to_string(), d));
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(sig, detail());
        }
        ok
    }
    pub fn ok<T>(&mut self, r: Result<T, String>, sig: &str) -> Option<T> {
        match r {
            Ok(x) => Some(x),
            Err(e) => {
                self.fail(sig, e);
                None
            }
        }
    }
    pub fn inconclusive(&mut self, why: &str) {
        self.inconclusive += 1;
        self.count(&format!("inconclusive: {why}"), 1);
    }
    /// Run code under test directly on this thread; a panic is a violation
    pub fn eut<T>(&mut self, what: &str, detail: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        let f = || if crate::sim::talking() { crate::sim::quiet(f) } else { f() };
        match guarded(f) {
            Ok(v) => Some(v),
            Err(p) => {
                let d = detail();
                self.fail(&format!("{what}: panic"), format!("{p}; {d}"));
                None
            }
        }
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
    /// A part of this case with randomness of its own
    pub fn part(&self, seed: u64) -> Case<'_> {
        Case {
            rng: Rng::new(seed),
            rep: self.rep,
            group: self.group,
            idx: self.idx,
            evals: 0,
            distinct: vec![],
            counters: BTreeMap::new(),
            samples: vec![],
            fails: vec![],
            inconclusive: 0,
        }
    }
    pub fn results(self) -> Part {
        (self.evals, self.distinct, self.counters, self.fails)
    }
    pub fn absorb(&mut self, p: Part) {
        self.evals += p.0;
        self.distinct.extend(p.1);
        for (k, v) in p.2 {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.fails.extend(p.3);
    }
}
pub type Part = (u64, Vec<u64>, BTreeMap<String, u64>, Vec<(String, String)>);

impl Rep {
    pub fn new(prop: &str, tier: &str, seed: u64, budget: Duration, only: Option<(String, usize)>, slot_file: Option<&str>) -> Rep {
        let mut slots = std::ptr::null_mut();
        if let Some(f) = slot_file {
            unsafe {
                let c = std::ffi::CString::new(f).unwrap();
                let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o600);
                if fd >= 0 && libc::ftruncate(fd, (SLOT * THREADS) as i64) == 0 {
                    let p = libc::mmap(std::ptr::null_mut(), SLOT * THREADS, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
                    if p != libc::MAP_FAILED {
                        slots = p as *mut u8;
                    }
                }
            }
        }
        Rep {
            foreign: Mutex::new(None),
            prop: prop.into(),
            tier: tier.into(),
            seed,
            thorough: tier == "thorough",
            agg: Mutex::new(Agg::default()),
            start: Instant::now(),
            only,
            deadline: Instant::now() + budget,
            stop: AtomicBool::new(false),
            slots,
            truncated: AtomicBool::new(false),
            names: Mutex::new(vec![]),
        }
    }
    fn set_slot(&self, t: usize, s: &str) {
        if self.slots.is_null() {
            return;
        }
        let b = s.as_bytes();
        let n = b.len().min(SLOT - 1);
        unsafe {
            let p = self.slots.add(t * SLOT);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
            *p.add(n) = 0;
        }
    }
    /// q cases in the quick tier, t in the thorough tier
    pub fn n(&self, q: usize, t: usize) -> usize {
        if self.thorough {
            t
        } else {
            q
        }
    }
    pub fn is_replay(&self) -> bool {
        self.only.is_some() || self.foreign.lock().unwrap().is_some()
    }
    /// Run `n` cases, on all cores
    pub fn group(&self, name: &str, n: usize, f: impl Fn(&mut Case) + Sync) {
        self.group_t(name, n, THREADS, f)
    }
    pub fn group_t(&self, name: &str, n: usize, threads: usize, f: impl Fn(&mut Case) + Sync) {
        let fo = *self.foreign.lock().unwrap();
        let name = &fo.map_or(name.to_string(), |x| format!("{}/{name}", x.id));
        let all = n <= 50;
        {
            let mut names = self.names.lock().unwrap();
            assert!(!names.iter().any(|x| x == name), "group {name} twice");
            names.push(name.to_string());
        }
        let range = match &self.only {
            Some((g, _)) if g != name => return,
            Some((_, i)) => *i..*i + 1,
            None => 0..n,
        };
        let next = AtomicUsize::new(range.start);
        let end = range.end;
        let t0 = Instant::now();
        let threads = threads.min(end - range.start).max(1);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= end || self.stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if Instant::now() > self.deadline && self.only.is_none() {
                            self.truncated.store(true, Ordering::SeqCst);
                            break;
                        }
                        if let Some(x) = fo {
                            let mut h = self.seed ^ (i as u64) << 20;
                            if !all && self.only.is_none() && crate::rng::splitmix(&mut h) % x.share as u64 != 0 {
                                continue;
                            }
                        }
                        self.set_slot(t, &format!("{name}:{i}"));
                        self.run_case(name, i, fo, f);
                        self.set_slot(t, "");
                    })
                    .unwrap();
            }
        });
        let mut a = self.agg.lock().unwrap();
        a.counters.insert(format!("ms.{name}"), t0.elapsed().as_millis() as u64);
    }
    /// The workloads of another check, for what is seen of the endpoints; its own verdicts do not count here
    pub fn watch(&self, id: &'static str, share: usize, judge: Onlooker, run: fn(&Rep)) {
        *self.foreign.lock().unwrap() = Some(Foreign { id, share: if self.thorough { share.div_ceil(2) } else { share }, judge });
        let r = guarded(|| run(self));
        *self.foreign.lock().unwrap() = None;
        if let Err(p) = r {
            self.agg.lock().unwrap().counters.insert(format!("workload of {id} not available: {p}"), 1);
        }
    }
    fn run_case(&self, name: &str, idx: usize, fo: Option<Foreign>, f: &(impl Fn(&mut Case) + Sync)) {
        let mut x = self.seed ^ hash_str(&self.prop).rotate_left(17) ^ hash_str(name).rotate_left(33) ^ (idx as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let seed = crate::rng::splitmix(&mut x);
        let mut c = Case {
            rng: Rng::new(seed),
            rep: self,
            group: name,
            idx,
            evals: 0,
            distinct: vec![],
            counters: BTreeMap::new(),
            samples: vec![],
            fails: vec![],
            inconclusive: 0,
        };
        SEEN.with(|x| *x.borrow_mut() = fo.map(|_| vec![]));
        let mut r = guarded(|| f(&mut c));
        if let Some(x) = fo {
            c.counters = BTreeMap::new();
            c.samples.clear();
            c.evals = 0;
            if r.is_err() || !c.fails.is_empty() {
                c.count(&format!("cases which {} judges", x.id), 1);
            }
            c.fails.clear();
            c.inconclusive = 0;
            let seen = SEEN.with(|x| x.borrow_mut().take()).unwrap_or_default();
            for s in &seen {
                (x.judge)(&mut c, s);
                c.count(&format!("endpoints of {} watched", x.id), 1);
            }
            c.evals = seen.len() as u64;
            r = Ok(());
        }
        let mut a = self.agg.lock().unwrap();
        if let Err(p) = r {
            a.harness_errors.push(format!("{name}:{idx}: {p}"));
            self.stop.store(true, Ordering::SeqCst);
        }
        a.evals += c.evals;
        a.distinct.extend(c.distinct);
        for (k, v) in c.counters {
            *a.counters.entry(k).or_insert(0) += v;
        }
        *a.groups.entry(name.into()).or_insert(0) += 1;
        a.inconclusive += c.inconclusive;
        for (class, s) in c.samples {
            let key = format!("{name}/{class}");
            if a.samples.len() < 60 && !a.sample_classes.contains(&key) {
                a.sample_classes.insert(key.clone());
                a.samples.push(format!("{name}:{idx} [{class}] {s}"));
            }
        }
        a.total_violations += c.fails.len() as u64;
        for (sig, detail) in c.fails {
            if a.violations.len() < 40 {
                a.violations.push(Violation { sig, detail, group: name.into(), idx });
            }
        }
        // a handful of witnesses is enough
        if a.total_violations > 200 {
            self.stop.store(true, Ordering::SeqCst);
        }
    }
    /// Immediate end of the process because a thread of the code under test can't be stopped
    pub fn hang(&self, c: &Case, detail: &str) -> ! {
        {
            let mut a = self.agg.lock().unwrap();
            a.total_violations += 1;
            a.violations.push(Violation { sig: "hang".into(), detail: detail.into(), group: c.group.into(), idx: c.idx });
        }
        let code = self.finish("hang");
        unsafe { libc::_exit(code) }
    }
    pub fn samples(&self) -> usize {
        self.agg.lock().unwrap().samples.len()
    }
    pub fn counter(&self, name: &str) -> u64 {
        *self.agg.lock().unwrap().counters.get(name).unwrap_or(&0)
    }
    /// A run that did not see what it has to see is an error of the check
    pub fn require(&self, name: &str, at_least: u64) {
        if self.foreign.lock().unwrap().is_some() || self.only.is_some() || self.truncated.load(Ordering::SeqCst) {
            return;
        }
        let n = self.counter(name);
        let mut a = self.agg.lock().unwrap();
        if n < at_least && a.violations.is_empty() {
            a.harness_errors.push(format!("observed only {n} of {at_least} '{name}'"));
        }
    }
    /// Write the evidence, print the verdict and return the exit code
    pub fn finish(&self, rule: &str) -> i32 {
        let a = self.agg.lock().unwrap();
        let dir = crate::verif_dir();
        let known = crate::known_findings(&self.prop);
        let mut code = 0;
        let mut listed = 0u64;
        let mut lines = vec![];
        let mut seen: HashSet<String> = HashSet::new();
        let _ = std::fs::create_dir_all(format!("{dir}/evidence/replay"));
        for (i, v) in a.violations.iter().enumerate() {
            if known.iter().any(|k| v.sig == *k) {
                listed += 1;
                if seen.insert(v.sig.clone()) {
                    lines.push(format!("KNOWN-FINDING: property={} {}", self.prop, v.sig));
                }
                continue;
            }
            code = 1;
            if !seen.insert(v.sig.clone()) || seen.len() > 6 {
                continue;
            }
            let path = format!("{dir}/evidence/replay/{}-{}.txt", self.prop, i);
            let txt = format!(
                "property={}\ntier={}\nseed={}\ncase={}:{}\nsignature={}\n\n{}\n",
                self.prop, self.tier, self.seed, v.group, v.idx, v.sig, v.detail
            );
            let _ = std::fs::write(&path, txt);
            lines.push(format!("  {} [{}:{}]: {}", v.sig, v.group, v.idx, v.detail.chars().take(600).collect::<String>()));
            lines.push(format!("VIOLATION property={} replay={}", self.prop, path));
        }
        if code == 0 && self.only.is_none() && a.inconclusive * 20 > a.evals {
            lines.push(format!("ERROR: {} of {} executions were inconclusive", a.inconclusive, a.evals));
            code = 2;
        }
        if code == 0 && !a.harness_errors.is_empty() {
            for e in a.harness_errors.iter().take(5) {
                lines.push(format!("ERROR: {e}"));
            }
            code = 2;
        }
        if code == 0 && self.only.is_none() && (a.evals == 0 || a.distinct.len() < 2) {
            lines.push("ERROR: nothing was observed".into());
            code = 2;
        }
        if self.only.is_none() {
            let mut o = String::new();
            o += "{\n";
            o += &format!(" \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n", self.prop, self.tier, self.seed, crate::level(&self.prop));
            o += " \"coverage\": {\n";
            o += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", a.evals, a.distinct.len());
            o += &format!("  \"rule\": {},\n", js(rule));
            o += "  \"cases_per_group\": {";
            o += &a.groups.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
            o += "},\n  \"observed\": {";
            o += &a.counters.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
            o += &format!("}},\n  \"inconclusive\": {},\n  \"stopped_by_time_budget\": {},\n", a.inconclusive, self.truncated.load(Ordering::SeqCst));
            o += "  \"samples\": [\n   ";
            o += &a.samples.iter().map(|s| js(&s.chars().take(500).collect::<String>())).collect::<Vec<_>>().join(",\n   ");
            o += "\n  ]\n },\n";
            o += " \"assumptions\": [\"OpenSSL's libcrypto and libssl are correct where they serve as reference\", \"the reference endpoint in /verif/harness is correct (validated against OpenSSL)\"],\n";
            o += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", self.start.elapsed().as_secs_f64(), a.total_violations - listed.min(a.total_violations));
            if let Err(e) = std::fs::write(format!("{dir}/evidence/{}.json", self.prop), o) {
                lines.push(format!("ERROR: evidence: {e}"));
                if code == 0 {
                    code = 2;
                }
            }
        }
        // what the crate left in the buffer of standard output, if it logs
        crate::sim::SWALLOW.store(true, Ordering::SeqCst);
        crate::sim::quiet(|| ());
        for l in lines {
            println!("{l}");
        }
        println!(
            "{} {}: {} executions judged, {} distinct, {} violations, {:.1} s",
            self.prop,
            self.tier,
            a.evals,
            a.distinct.len(),
            a.total_violations,
            self.start.elapsed().as_secs_f64()
        );
        code
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 80 {
        hex(b)
    } else {
        format!("{}..({} bytes)..{}", hex(&b[..48]), b.len(), hex(&b[b.len() - 16..]))
    }
}
