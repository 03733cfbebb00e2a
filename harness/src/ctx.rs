//! The runner: cases are executed on worker threads, each under a panic monitor and a CPU-time watchdog;
//! what the monitors saw is merged into one report.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::rng::{hash_bytes, Rng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

#[derive(Clone)]
pub struct Violation { pub case: u64, pub sig: String, pub detail: String }

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub batch: Vec<(String, String, u64)>,
}

impl Report {
    fn merge(&mut self, other: Report) {
        self.evaluations += other.evaluations;
        self.distinct.extend(other.distinct);
        for (k, v) in other.counters { *self.counters.entry(k).or_insert(0) += v; }
        for (k, v) in other.maxima { let e = self.maxima.entry(k).or_insert(0); if *e < v { *e = v } }
        self.samples.extend(other.samples);
        for v in other.violations {
            if self.violations.iter().filter(|w| w.sig == v.sig).count() < 12 { self.violations.push(v) }
        }
        self.inconclusive.extend(other.inconclusive);
        self.batch.extend(other.batch);
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, u32, String)>> = RefCell::new(None);
    static GUARDED: Cell<bool> = Cell::new(false);
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let (file, line) = match info.location() {
            Some(l) => (l.file().to_string(), l.line()),
            None => ("?".to_string(), 0),
        };
        let payload = info.payload();
        let msg = if let Some(s) = payload.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = payload.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if std::env::var_os("HARNESS_TRACE").is_some() || msg.contains("unsafe precondition") {
            eprintln!("panic at {}:{}: {}", file, line, msg);
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((file, line, msg)));
    }));
}

pub struct PanicInfo { pub file: String, pub line: u32, pub msg: String, pub guarded: bool }

impl PanicInfo {
    /// Panics raised by the harness's own code say nothing about the code under test.
    /// (The standard library's panics are judged by who called it.)
    pub fn in_harness(&self) -> bool {
        if self.file.starts_with("src/") || self.file.contains("/verif/") { return true; }
        !self.guarded && !["/repo/", "fall/", "lang/", "indxr/", "code/"].iter().any(|p| self.file.starts_with(p))
    }
    /// File (without line numbers, which edits move) and the message up to its first digit.
    pub fn signature(&self) -> String {
        let mut file = self.file.as_str();
        if file.starts_with("/repo/") { file = &file[6..]; }
        if let Some(i) = file.find("/registry/src/") {
            file = file[i + 14..].splitn(2, '/').nth(1).unwrap_or(file);
        }
        if file.starts_with("/rustc/") || file.contains("/library/") { file = "std"; }
        let msg: String = self.msg.chars().take_while(|c| !c.is_ascii_digit() && *c != '\n').take(80).collect();
        format!("panic in {}: {}", file, msg.trim())
    }
}

pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, PanicInfo> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let (file, line, msg) = LAST_PANIC.with(|p| p.borrow_mut().take())
            .unwrap_or(("?".to_string(), 0, "?".to_string()));
        PanicInfo { file, line, msg, guarded: false }
    })
}

/// As `catch`, for closures that run nothing but code under test.
pub fn catch_guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, PanicInfo> {
    let before = GUARDED.with(|g| g.replace(true));
    let res = catch(f);
    GUARDED.with(|g| g.set(before));
    res.map_err(|mut p| { p.guarded = true; p })
}

/// Signalled inside a case to abandon it after a violation was recorded.
pub struct Abort;
pub type Res = Result<(), Abort>;

pub struct Slot {
    tid: AtomicU64,
    case: AtomicU64,
    start_cpu: AtomicU64,
    busy: AtomicBool,
    flagged: AtomicBool,
    input: Mutex<String>,
}

pub struct Case {
    pub rng: Rng,
    pub tier: Tier,
    pub idx: u64,
    pub seed: u64,
    pub rep: Report,
    slot: Arc<Slot>,
    trace: Option<std::path::PathBuf>,
    violated: bool,
    known: Arc<Vec<String>>,
    fresh: usize,
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string(); }
    let mut e = n;
    while !s.is_char_boundary(e) { e -= 1 }
    format!("{}...[{} bytes]", &s[..e], s.len())
}

impl Case {
    pub fn count(&mut self, key: &str, n: u64) {
        if let Some(v) = self.rep.counters.get_mut(key) { *v += n; return; }
        self.rep.counters.insert(key.to_string(), n);
    }
    pub fn max(&mut self, key: &str, n: u64) {
        let e = self.rep.maxima.entry(key.to_string()).or_insert(0);
        if *e < n { *e = n }
    }
    /// One execution that was observed; `key` identifies it.
    pub fn nontrivial(&mut self, key: &str) { self.rep.distinct.insert(hash_bytes(key.as_bytes())); }
    pub fn eval(&mut self) { self.rep.evaluations += 1; }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 6 && self.rep.samples.len() < 6 { let s = clip(&f(), 700); self.rep.samples.push(s) }
    }
    /// Makes the current input known to the watchdog and to crash traces.
    pub fn input(&mut self, s: &str) {
        if let Ok(mut i) = self.slot.input.lock() {
            i.clear();
            i.push_str(&clip(s, 4000));
        }
        if let Some(dir) = &self.trace {
            let _ = std::fs::write(dir.join(format!("case-{}", self.idx)), s);
        }
    }
    pub fn violation(&mut self, sig: &str, detail: String) {
        self.violated = true;
        if self.known.iter().any(|k| k == sig) { self.count(&format!("known finding seen: {}", sig), 1) } else { self.fresh += 1 }
        if self.rep.violations.len() < 200 {
            self.rep.violations.push(Violation { case: self.idx, sig: sig.to_string(), detail: clip(&detail, 20000) });
        }
    }
    pub fn violated(&self) -> bool { self.violated }
    pub fn inconclusive(&mut self, why: String) { self.rep.inconclusive.push(clip(&why, 2000)) }

    pub fn ensure(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> Res {
        if ok { return Ok(()); }
        self.violation(sig, detail());
        Err(Abort)
    }

    /// Runs code under test. A panic raised there is a violation, one raised by the harness is not.
    pub fn guard<T>(&mut self, what: &str, input: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Result<T, Abort> {
        match catch_guarded(f) {
            Ok(v) => Ok(v),
            Err(p) => {
                let detail = format!("{} panicked at {}:{}: {}\n--- input ---\n{}", what, p.file, p.line, p.msg, input());
                if p.in_harness() { self.inconclusive(format!("harness: {}", detail)); }
                else { self.violation(&p.signature(), detail); }
                Err(Abort)
            }
        }
    }
}

pub fn thread_cpu_ms(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let mut it = rest.split(' ');
    let ut: u64 = it.nth(11)?.parse().ok()?;
    let st: u64 = it.next()?.parse().ok()?;
    Some((ut + st) * 10)
}

pub fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().map(|s| s.to_string())))
        .and_then(|s| s.parse().ok()).unwrap_or(0)
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4096 / 1_000_000).unwrap_or(0)
}

pub struct Plan {
    /// Number of cases and wall budget in seconds; whichever ends first.
    pub cases: u64,
    pub secs: f64,
    pub threads: usize,
    /// CPU seconds one case may take before it counts as not answering.
    pub case_cpu_s: u64,
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub only_case: Option<u64>,
    pub trace: Option<std::path::PathBuf>,
    pub secs: Option<f64>,
    pub cases: Option<u64>,
    pub known: Vec<String>,
}

/// One case on this thread, without a watchdog.
pub fn run_one(prop: &'static str, case_fn: CaseFn, seed: u64, idx: u64) -> Report {
    let slot = Arc::new(Slot {
        tid: AtomicU64::new(0), case: AtomicU64::new(0), start_cpu: AtomicU64::new(0),
        busy: AtomicBool::new(false), flagged: AtomicBool::new(false), input: Mutex::new(String::new()),
    });
    let mut case = Case {
        rng: Rng::new(seed, prop, idx), tier: Tier::Quick, idx, seed, rep: Report::default(),
        slot, trace: None, violated: false, known: Arc::new(Vec::new()), fresh: 0,
    };
    let _ = catch(|| { let _ = case_fn(&mut case); });
    case.rep
}

pub type CaseFn = fn(&mut Case) -> Res;

/// Runs all cases; `done` is called with the report even when a case never answers.
pub fn run(prop: &'static str, case_fn: CaseFn, plan: Plan, opts: &Opts, done: &dyn Fn(&mut Report, f64)) {
    let start = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let finished = Arc::new(AtomicUsize::new(0));
    let total = Arc::new(Mutex::new(Report::default()));
    let known = Arc::new(opts.known.clone());
    let threads = if opts.only_case.is_some() { 1 } else { plan.threads };
    let secs = opts.secs.unwrap_or(plan.secs);
    let cases = opts.cases.unwrap_or(plan.cases);
    let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::new(Slot {
        tid: AtomicU64::new(0), case: AtomicU64::new(0), start_cpu: AtomicU64::new(0),
        busy: AtomicBool::new(false), flagged: AtomicBool::new(false), input: Mutex::new(String::new()),
    })).collect();
    for slot in &slots {
        let (slot, next, stop, finished, total) = (slot.clone(), next.clone(), stop.clone(), finished.clone(), total.clone());
        let known = known.clone();
        let (tier, seed, only, trace) = (opts.tier, opts.seed, opts.only_case, opts.trace.clone());
        std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let tid = my_tid();
            slot.tid.store(tid, Ordering::SeqCst);
            let mut violations = 0;
            loop {
                let idx = match only {
                    Some(c) => if next.fetch_add(1, Ordering::SeqCst) == 0 { c } else { break },
                    None => next.fetch_add(1, Ordering::SeqCst),
                };
                if only.is_none() && (idx >= cases || stop.load(Ordering::SeqCst) || violations >= 8) { break; }
                slot.start_cpu.store(thread_cpu_ms(tid).unwrap_or(0), Ordering::SeqCst);
                slot.case.store(idx, Ordering::SeqCst);
                slot.busy.store(true, Ordering::SeqCst);
                let mut case = Case {
                    rng: Rng::new(seed, prop, idx), tier, idx, seed, rep: Report::default(),
                    slot: slot.clone(), trace: trace.clone(), violated: false, known: known.clone(), fresh: 0,
                };
                if let Some(dir) = &trace { let _ = std::fs::write(dir.join(format!("case-{}", idx)), ""); }
                let result = catch(|| { let _ = case_fn(&mut case); });
                if let Err(p) = result {
                    let detail = format!("case {} panicked at {}:{}: {}\n--- last input ---\n{}", idx, p.file, p.line, p.msg,
                        slot.input.lock().map(|s| s.clone()).unwrap_or_default());
                    if p.in_harness() { case.inconclusive(format!("harness: {}", detail)); }
                    else { case.violation(&p.signature(), detail); }
                }
                if let Some(dir) = &trace { let _ = std::fs::remove_file(dir.join(format!("case-{}", idx))); }
                slot.busy.store(false, Ordering::SeqCst);
                let used = thread_cpu_ms(tid).unwrap_or(0).saturating_sub(slot.start_cpu.load(Ordering::SeqCst));
                case.max("CPU ms of the slowest case", used);
                if used > 2000 && std::env::var_os("HARNESS_SLOW").is_some() { eprintln!("slow case {} {} ms: {}", idx, used, clip(&slot.input.lock().unwrap(), 3000)) }
                violations += case.fresh;
                total.lock().unwrap().merge(case.rep);
            }
            finished.fetch_add(1, Ordering::SeqCst);
        }).unwrap();
    }
    // Watchdog
    let mut idle_since: Option<Instant> = None;
    let mut last_cpu = 0u64;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if finished.load(Ordering::SeqCst) + slots.iter().filter(|s| s.flagged.load(Ordering::SeqCst)).count() >= threads { break; }
        if start.elapsed().as_secs_f64() > secs { stop.store(true, Ordering::SeqCst); }
        let mut cpu_sum = 0;
        let mut all_busy_stuck = true;
        let rss = rss_mb();
        let mut worst: Option<(u64, &Arc<Slot>)> = None;
        for slot in &slots {
            if slot.flagged.load(Ordering::SeqCst) { continue; }
            let tid = slot.tid.load(Ordering::SeqCst);
            let cpu = match thread_cpu_ms(tid) { Some(c) => c, None => continue };
            cpu_sum += cpu;
            if !slot.busy.load(Ordering::SeqCst) { if finished.load(Ordering::SeqCst) < threads { all_busy_stuck = false } continue; }
            let used = cpu.saturating_sub(slot.start_cpu.load(Ordering::SeqCst));
            if worst.map_or(true, |(u, _)| used > u) { worst = Some((used, slot)); }
            if used > plan.case_cpu_s * 1000 {
                flag(slot, &total, "no answer: CPU time", format!("case used {} ms of CPU time without finishing", used));
            }
        }
        if rss > 12_000 {
            if let Some((used, slot)) = worst {
                flag(slot, &total, "no answer: memory", format!("process grew to {} MB (case has used {} ms of CPU)", rss, used));
                stop.store(true, Ordering::SeqCst);
                break;
            }
        }
        // No thread makes progress although cases are open: the code under test is blocked.
        if cpu_sum != last_cpu || !all_busy_stuck { idle_since = None; last_cpu = cpu_sum; }
        else {
            let since = *idle_since.get_or_insert_with(Instant::now);
            if since.elapsed() > Duration::from_secs(60) {
                for slot in &slots {
                    if slot.busy.load(Ordering::SeqCst) {
                        flag(slot, &total, "no answer: blocked", "no thread used any CPU time for 60 s while this case was open".to_string());
                    }
                }
                break;
            }
        }
    }
    let mut rep = match total.lock() { Ok(mut t) => std::mem::take(&mut *t), Err(_) => Report::default() };
    rep.violations.sort_by_key(|v| v.case);
    done(&mut rep, start.elapsed().as_secs_f64());
}

fn flag(slot: &Arc<Slot>, total: &Arc<Mutex<Report>>, sig: &str, what: String) {
    if slot.flagged.swap(true, Ordering::SeqCst) { return; }
    let input = slot.input.lock().map(|s| s.clone()).unwrap_or_default();
    let case = slot.case.load(Ordering::SeqCst);
    if let Ok(mut t) = total.lock() {
        t.violations.push(Violation { case, sig: sig.to_string(), detail: format!("{}\n--- input ---\n{}", what, input) });
    }
}
