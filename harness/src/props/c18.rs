use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use indxr::{FileIndex, IndexableFileSet};

use crate::ctx::{Case, Plan, Res, Tier};
use crate::rng::Rng;
use crate::scratch::Dir;
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C18", plan, case, finish: None,
        rule: "histories of file and directory operations (create, write, delete, rename inside, out of and into the roots, replace, whole trees) before, during and after the start of a real index in a scratch directory, with pauses from none to seconds; a monitor thread watches the index all the time, and after every batch the index must become equal to a scan of the disk. Non-trivial: a batch after the start; distinct by history.",
    }
}

// every root keeps an inotify instance for good, and most of the time is spent waiting
fn plan(tier: Tier) -> Plan {
    match tier {
        Tier::Quick => Plan { cases: 48, secs: 60.0, threads: 24, case_cpu_s: 60 },
        Tier::Thorough => Plan { cases: 56, secs: 240.0, threads: 28, case_cpu_s: 120 },
    }
}

extern "C" {
    fn inotify_init() -> i32;
    fn close(fd: i32) -> i32;
}

/// Are there inotify instances left on this machine?
fn instances(n: usize) -> bool {
    let fds: Vec<i32> = (0..n).map(|_| unsafe { inotify_init() }).collect();
    let ok = fds.iter().all(|&f| f >= 0);
    for f in fds { if f >= 0 { unsafe { close(f); } } }
    ok
}

pub fn mapped(text: &str) -> Option<String> { if text.starts_with("none") { None } else { Some(text.to_string()) } }

fn scan(roots: &[PathBuf]) -> BTreeMap<PathBuf, String> {
    fn go(dir: &Path, out: &mut BTreeMap<PathBuf, String>) {
        if let Ok(entries) = std::fs::read_dir(dir) {
            for e in entries.flatten() {
                let p = e.path();
                match e.file_type() {
                    Ok(t) if t.is_dir() => go(&p, out),
                    Ok(t) if t.is_file() && p.extension().map_or(false, |x| x == "rs") => {
                        if let Some(v) = std::fs::read_to_string(&p).ok().and_then(|t| mapped(&t)) { out.insert(p, v); }
                    }
                    _ => {}
                }
            }
        }
    }
    let mut out = BTreeMap::new();
    for r in roots { go(r, &mut out) }
    out
}

fn entries(index: &FileIndex<String>) -> Vec<(PathBuf, String)> {
    let mut v = Vec::new();
    index.process_files(&mut |f| { v.push((f.path.clone(), f.value.clone())); false });
    v.sort();
    v
}

struct World { roots: Vec<PathBuf>, outside: PathBuf, n: u64, log: Vec<String> }

impl World {
    fn all(&self, dirs: bool) -> Vec<PathBuf> {
        fn go(d: &Path, dirs: bool, out: &mut Vec<PathBuf>) {
            if let Ok(es) = std::fs::read_dir(d) {
                for e in es.flatten() {
                    let p = e.path();
                    if p.is_dir() { if dirs { out.push(p.clone()) } go(&p, dirs, out) } else if !dirs { out.push(p) }
                }
            }
        }
        let mut v = Vec::new();
        for r in &self.roots { go(r, dirs, &mut v) }
        go(&self.outside, dirs, &mut v);
        v.retain(|p| !self.roots.contains(p));
        v.sort();
        v.dedup();
        v
    }
    fn place(&self, rng: &mut Rng) -> PathBuf {
        let mut d = self.all(true);
        for r in &self.roots { d.push(r.clone()); d.push(r.clone()) }
        if rng.chance(1, 4) { d.push(self.outside.clone()) }
        rng.pick(&d).clone()
    }
    fn name(&self, rng: &mut Rng) -> String { rng.pick(&["a.rs", "b.rs", "c.rs", "lib.rs", "é.rs", "x y.rs", "a.txt", "b.rs.bak", "noext", "rs"]).to_string() }
    fn dir_name(&self, rng: &mut Rng) -> String { rng.pick(&["d", "e", "src", "deep", "t.rs", "ü"]).to_string() }
    fn content(&mut self, rng: &mut Rng) -> String {
        self.n += 1;
        match rng.below(8) { 0 => format!("none {}", self.n), 1 => String::new(), _ => format!("text {}", self.n) }
    }
    fn note(&mut self, s: String) { self.log.push(s) }

    fn op(&mut self, rng: &mut Rng) {
        let files = self.all(false);
        let dirs = self.all(true);
        let short = |p: &Path| p.display().to_string();
        match rng.below(16) {
            0..=3 => {
                let p = self.place(rng).join(self.name(rng));
                let t = self.content(rng);
                let r = std::fs::write(&p, &t);
                self.note(format!("write {} {:?} {}", short(&p), t, r.is_ok()));
            }
            4 | 5 if !files.is_empty() => {
                let p = rng.pick(&files).clone();
                let t = self.content(rng);
                let r = std::fs::write(&p, &t);
                self.note(format!("write {} {:?} {}", short(&p), t, r.is_ok()));
            }
            6 | 7 if !files.is_empty() => {
                let p = rng.pick(&files).clone();
                let r = std::fs::remove_file(&p);
                self.note(format!("rm {} {}", short(&p), r.is_ok()));
                if rng.chance(1, 4) { let t = self.content(rng); let r = std::fs::write(&p, &t); self.note(format!("write {} {:?} {}", short(&p), t, r.is_ok())) }
            }
            8 | 9 if !files.is_empty() => {
                let p = rng.pick(&files).clone();
                let q = if rng.chance(1, 4) { rng.pick(&files).clone() } else { self.place(rng).join(self.name(rng)) };
                let r = std::fs::rename(&p, &q);
                self.note(format!("mv {} {} {}", short(&p), short(&q), r.is_ok()));
            }
            10 => {
                let mut p = self.place(rng);
                for _ in 0..rng.range(1, 4) { p = p.join(self.dir_name(rng)) }
                let r = std::fs::create_dir_all(&p);
                self.note(format!("mkdir -p {} {}", short(&p), r.is_ok()));
                for _ in 0..rng.below(4) {
                    let f = p.join(self.name(rng));
                    let t = self.content(rng);
                    let r = std::fs::write(&f, &t);
                    self.note(format!("write {} {:?} {}", short(&f), t, r.is_ok()));
                }
            }
            11 if !dirs.is_empty() => {
                let p = rng.pick(&dirs).clone();
                // never a root
                if self.roots.iter().any(|r| r.starts_with(&p)) { return }
                let r = std::fs::remove_dir_all(&p);
                self.note(format!("rm -r {} {}", short(&p), r.is_ok()));
                if rng.chance(1, 4) { let t = self.content(rng); let r = std::fs::write(&p, &t); self.note(format!("write {} {:?} {}", short(&p), t, r.is_ok())) }
            }
            12 | 13 if !dirs.is_empty() => {
                let p = rng.pick(&dirs).clone();
                if self.roots.iter().any(|r| r.starts_with(&p)) { return }
                let q = if rng.chance(1, 3) { self.outside.join(self.dir_name(rng)) } else { self.place(rng).join(self.dir_name(rng)) };
                if q.starts_with(&p) { return }
                let r = std::fs::rename(&p, &q);
                self.note(format!("mv {} {} {}", short(&p), short(&q), r.is_ok()));
                if rng.chance(1, 3) { let f = q.join(self.name(rng)); let t = self.content(rng); let r = std::fs::write(&f, &t); self.note(format!("write {} {:?} {}", short(&f), t, r.is_ok())) }
            }
            14 if dirs.len() > 1 => {
                // exchange two directories
                let (p, q) = (rng.pick(&dirs).clone(), rng.pick(&dirs).clone());
                if p.starts_with(&q) || q.starts_with(&p) || self.roots.iter().any(|r| r.starts_with(&p) || r.starts_with(&q)) { return }
                let tmp = self.outside.join("exchange");
                let r = std::fs::rename(&p, &tmp).and_then(|_| std::fs::rename(&q, &p)).and_then(|_| std::fs::rename(&tmp, &q));
                self.note(format!("exchange {} {} {}", short(&p), short(&q), r.is_ok()));
            }
            _ => {
                // a file that comes and goes
                let p = self.place(rng).join(self.name(rng));
                if p.exists() { return }
                let t = self.content(rng);
                let r = std::fs::write(&p, &t);
                pause(rng, false);
                let k = std::fs::remove_file(&p);
                self.note(format!("write and rm {} {} {}", short(&p), r.is_ok(), k.is_ok()));
            }
        }
    }
}

fn pause(rng: &mut Rng, long: bool) {
    let ms = match rng.below(if long { 12 } else { 10 }) { 0..=4 => 0, 5 | 6 => rng.below(3), 7 => rng.below(20), 8 | 9 => rng.below(150), _ => rng.range(500, 2300) };
    if ms > 0 { std::thread::sleep(Duration::from_millis(ms as u64)) }
}

fn case(c: &mut Case) -> Res {
    if !instances(6) { c.count("cases left out: no inotify instance left", 1); c.eval(); return Ok(()) }
    let dir = Dir::new("c18");
    let mut roots = vec![dir.join("r")];
    match c.rng.below(6) {
        0 => roots.push(dir.join("s")),
        1 => roots.push(dir.join("r/inner")),
        2 => roots.push(dir.join("r")),
        _ => {}
    }
    let outside = dir.join("outside");
    for p in roots.iter().chain(Some(&outside)) { std::fs::create_dir_all(p).unwrap() }
    let mut w = World { roots: roots.clone(), outside, n: 0, log: Vec::new() };
    for _ in 0..c.rng.below(40) { w.op(&mut c.rng) }
    w.note("--- index starts ---".to_string());
    // A mapper that takes its time stretches the start.
    let slow = *c.rng.pick(&[0u64, 0, 1, 5, 20]);
    let calls = Arc::new(AtomicU64::new(0));
    let k = calls.clone();
    let index = FileIndex::new(IndexableFileSet::new(roots.clone(), "rs"), Box::new(move |p: &Path| {
        k.fetch_add(1, Ordering::SeqCst);
        if slow > 0 { std::thread::sleep(Duration::from_millis(slow)) }
        std::fs::read_to_string(p).ok().and_then(|t| mapped(&t))
    }));
    let index = Arc::new(index);
    // The monitor: whatever is going on, only matching files under the roots, each once.
    let bad: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let stop = Arc::new(AtomicBool::new(false));
    let looks = Arc::new(AtomicU64::new(0));
    let monitor = {
        let (index, bad, stop, looks, roots) = (index.clone(), bad.clone(), stop.clone(), looks.clone(), roots.clone());
        std::thread::spawn(move || {
            while !stop.load(Ordering::SeqCst) {
                let mut seen = HashSet::new();
                for (p, _) in entries(&index) {
                    if p.extension().map_or(true, |x| x != "rs") || !roots.iter().any(|r| p.starts_with(r)) { *bad.lock().unwrap() = Some(format!("{} does not belong into the index", p.display())) }
                    if !seen.insert(p.clone()) { *bad.lock().unwrap() = Some(format!("{} is in the index twice", p.display())) }
                }
                looks.fetch_add(1, Ordering::SeqCst);
                std::thread::sleep(Duration::from_millis(7));
            }
        })
    };
    let done = |stop: &AtomicBool, m: std::thread::JoinHandle<()>| { stop.store(true, Ordering::SeqCst); m.join().is_ok() };
    let batches = c.rng.range(1, 3);
    for b in 0..=batches {
        // batch 0 races with the start
        let n = if b == 0 { c.rng.below(12) } else { c.rng.range(1, 25) };
        let long = c.rng.chance(1, 4);
        for _ in 0..n { w.op(&mut c.rng); pause(&mut c.rng, long && b > 0) }
        w.note(format!("--- quiet {} ---", b));
        let log = w.log.join("\n");
        c.input(&log);
        let from = Instant::now();
        let (mut want, mut got);
        loop {
            want = scan(&roots).into_iter().collect::<Vec<_>>();
            got = entries(&index);
            if got == want || from.elapsed() > Duration::from_secs(20) { break }
            std::thread::sleep(Duration::from_millis(15));
        }
        if got == want && c.rng.chance(1, 3) {
            // what is still on its way must not spoil it
            std::thread::sleep(Duration::from_millis(2600));
            want = scan(&roots).into_iter().collect::<Vec<_>>();
            got = entries(&index);
        }
        c.eval();
        c.max("ms until the index agreed", from.elapsed().as_millis() as u64);
        if got != want {
            let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(5).collect();
            let lost: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(5).collect();
            let sig = if !lost.is_empty() && lost.iter().any(|x| !got.iter().any(|y| y.0 == x.0)) { "a file is missing from the index" } else if extra.iter().any(|x| !want.iter().any(|y| y.0 == x.0)) { "the index holds a file that is gone" } else { "the index holds an outdated file" };
            done(&stop, monitor);
            c.violation(sig, format!("after {:?} of quiet\nin the index but not on disk: {:?}\non disk but not in the index: {:?}\nmapper takes {} ms\n--- history ---\n{}", from.elapsed(), extra, lost, slow, log));
            return Ok(());
        }
        if b == 0 { c.count("starts under load", (n > 0) as u64) } else { c.count("batches", 1); c.nontrivial(&log) }
        c.count("operations", n as u64);
        c.max("most files in an index", got.len() as u64);
    }
    let fine = done(&stop, monitor);
    c.ensure(fine, "asking the index panics", || w.log.join("\n"))?;
    let b = bad.lock().unwrap().clone();
    c.ensure(b.is_none(), "the index holds what does not belong to it", || format!("{:?}\n{}", b, w.log.join("\n")))?;
    c.count("looks at the index while it worked", looks.load(Ordering::SeqCst));
    c.count("files mapped", calls.load(Ordering::SeqCst));
    c.sample(|| w.log.join("\n"));
    Ok(())
}
