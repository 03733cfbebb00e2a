use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::mpsc::channel;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use fall_tree::{File, Language};
use indxr::{FileIndex, IndexableFileSet};
use lang_rust::editor::SymbolIndex;

use crate::ctx::{catch_guarded, my_tid, thread_cpu_ms, Abort, Case, PanicInfo, Plan, Res, Tier};
use crate::gen::{edits, grammars, texts};
use crate::ide::{self, Ed, Q};
use crate::langs::{Kind, KINDS};
use crate::rng::{hash_bytes, Rng};
use crate::scratch::Dir;
use crate::tree::T;
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C17", plan, case, finish: None,
        rule: "2 to 12 threads leave a barrier together and use one shared object at once, with random delays: editor files (all queries, in different orders, cold caches), languages (also freshly built ones), edits branching off one file, symbol and file indexes while files change, and the first use of everything in a fresh process. Every answer is compared with the sequential one; threads that sleep for 20 s count as deadlocked. Non-trivial: a run in which answers overlapped; distinct by input and order of completion.",
    }
}

// The cases are parallel themselves.
fn plan(tier: Tier) -> Plan {
    match tier {
        Tier::Quick => Plan { cases: 6000, secs: 30.0, threads: 3, case_cpu_s: 60 },
        Tier::Thorough => Plan { cases: 6_000_000, secs: 300.0, threads: 3, case_cpu_s: 120 },
    }
}

/// What is going on in the threads of one run.
struct Watch {
    go: AtomicUsize,
    n: usize,
    open: AtomicU64,
    ticket: AtomicU64,
    overlaps: AtomicU64,
    most: AtomicU64,
    order: Mutex<Vec<(u64, u16)>>,
}

impl Watch {
    fn wait(&self, rng: &mut Rng) {
        self.go.fetch_add(1, Ordering::SeqCst);
        while self.go.load(Ordering::SeqCst) < self.n { std::hint::spin_loop() }
        jitter(rng)
    }
    fn answer<T>(&self, me: usize, f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
        let others = self.open.fetch_add(1, Ordering::SeqCst);
        if others > 0 { self.overlaps.fetch_add(1, Ordering::Relaxed); }
        self.most.fetch_max(others + 1, Ordering::Relaxed);
        let r = catch_guarded(f);
        self.open.fetch_sub(1, Ordering::SeqCst);
        let t = self.ticket.fetch_add(1, Ordering::SeqCst);
        if let Ok(mut o) = self.order.lock() { o.push((t, me as u16)) }
        r
    }
}

fn jitter(rng: &mut Rng) {
    match rng.below(8) {
        0..=3 => {}
        4 => std::thread::yield_now(),
        5 | 6 => for _ in 0..rng.below(3000) { std::hint::spin_loop() },
        _ => std::thread::sleep(Duration::from_micros(rng.below(300) as u64)),
    }
}

enum End { Fine, Wrong(String, String), Panic(String, PanicInfo) }

type Job = Box<dyn FnOnce(&Watch, usize, &mut Rng) -> End + Send>;

fn asleep(tid: u64) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()
        .and_then(|s| { let i = s.rfind(')')?; s[i + 2..].chars().next() })
        .map_or(false, |state| state == 'S' || state == 'D')
}

/// Runs the jobs at once and waits for all of them.
fn together(c: &mut Case, what: &str, jobs: Vec<Job>, input: &dyn Fn() -> String) -> Res {
    let n = jobs.len();
    let w = Arc::new(Watch {
        go: AtomicUsize::new(0), n, open: AtomicU64::new(0), ticket: AtomicU64::new(0),
        overlaps: AtomicU64::new(0), most: AtomicU64::new(0), order: Mutex::new(Vec::new()),
    });
    let (tx, rx) = channel();
    let tids: Arc<Vec<AtomicU64>> = Arc::new((0..n).map(|_| AtomicU64::new(0)).collect());
    let mut threads = Vec::new();
    for (i, job) in jobs.into_iter().enumerate() {
        let (w, tx, tids) = (w.clone(), tx.clone(), tids.clone());
        let mut rng = Rng::new(c.seed, "C17 thread", c.idx * 64 + i as u64);
        threads.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            tids[i].store(my_tid(), Ordering::SeqCst);
            w.wait(&mut rng);
            let end = job(&w, i, &mut rng);
            let _ = tx.send((i, end));
        }).unwrap());
    }
    drop(tx);
    let mut left: Vec<usize> = (0..n).collect();
    let mut bad = None;
    let mut since: Option<Instant> = None;
    let mut cpu = 0;
    while !left.is_empty() {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((i, end)) => { left.retain(|&x| x != i); since = None; if let End::Fine = end {} else if bad.is_none() { bad = Some(end) } }
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => {
                c.inconclusive(format!("harness: a thread vanished while {}\n{}", what, input()));
                return Err(Abort);
            }
            Err(_) => {
                let ids: Vec<u64> = left.iter().map(|&i| tids[i].load(Ordering::SeqCst)).collect();
                let now: u64 = ids.iter().map(|&t| thread_cpu_ms(t).unwrap_or(0)).sum();
                if ids.iter().any(|&t| thread_cpu_ms(t).unwrap_or(0) > 100_000) {
                    c.violation("threads do not come to an end", format!("{}: a thread used more than 100 s of CPU time\n{}", what, input()));
                    return Err(Abort);
                }
                if now != cpu || !ids.iter().all(|&t| asleep(t)) { cpu = now; since = None }
                else {
                    let from = *since.get_or_insert_with(Instant::now);
                    if from.elapsed() > Duration::from_secs(20) {
                        c.violation("threads wait for each other", format!("{}: {} of {} threads have been sleeping for 20 s\n{}", what, left.len(), n, input()));
                        return Err(Abort);
                    }
                }
            }
        }
    }
    for t in threads { let _ = t.join(); }
    c.count(&format!("runs: {}", what), 1);
    c.count("answers", w.ticket.load(Ordering::SeqCst));
    c.count("answers begun while others were open", w.overlaps.load(Ordering::SeqCst));
    c.max("answers open at once", w.most.load(Ordering::SeqCst));
    c.max("threads", n as u64);
    c.rep.evaluations += w.ticket.load(Ordering::SeqCst);
    if w.overlaps.load(Ordering::SeqCst) > 0 {
        let mut o = w.order.lock().unwrap().clone();
        o.sort();
        let order: Vec<u8> = o.iter().map(|x| x.1 as u8).collect();
        let key = format!("{} {} {}", what, hash_bytes(input().as_bytes()), hash_bytes(&order));
        c.nontrivial(&key);
    }
    match bad {
        None | Some(End::Fine) => Ok(()),
        Some(End::Wrong(sig, detail)) => { c.violation(&sig, format!("{}\n{}\n{}", what, detail, input())); Err(Abort) }
        Some(End::Panic(q, p)) => {
            let detail = format!("{}: {} panicked at {}:{}: {}\n{}", what, q, p.file, p.line, p.msg, input());
            if p.in_harness() { c.inconclusive(format!("harness: {}", detail)) } else { c.violation(&p.signature(), detail) }
            Err(Abort)
        }
    }
}

fn threads(c: &mut Case) -> usize { *c.rng.pick(&[2, 2, 3, 4, 6, 8, 12]) }

fn kind_of(q: &Q) -> String { let s = format!("{:?}", q); s.split('(').next().unwrap().to_string() }

/// One file in an editor, its caches still cold.
fn file(c: &mut Case) -> Res {
    let kind = *c.rng.pick(&[Kind::Fall, Kind::Fall, Kind::Fall, Kind::Rust]);
    let text = match c.rng.below(5) {
        0 => { let t = c.rng.pick(texts::corpus(kind)).to_string(); if c.tier == Tier::Quick && t.len() > 12_000 { texts::chunk(&mut c.rng, kind, 6000) } else { t } }
        1 => texts::chunk(&mut c.rng, kind, 3000),
        _ => { let size = *c.rng.pick(&[60, 300, 900]); ide::text(&mut c.rng, kind, size) }
    };
    c.input(&text);
    let alone = c.guard("opening", &|| text.clone(), || Ed::parse(kind, &text))?;
    let shared = Arc::new(c.guard("opening", &|| text.clone(), || Ed::parse(kind, &text))?);
    let mut qs = ide::places(&mut c.rng, &alone, &text, if text.len() > 3000 { 1 } else { 3 });
    qs.extend(ide::WHOLE.iter().cloned());
    if text.len() > 3000 { qs.retain(|q| *q != Q::Reformat) }
    let mut want = Vec::new();
    for q in &qs { let a = c.guard("a query", &|| format!("{:?}\n{}", q, text), || alone.ask(q).text)?; want.push(a) }
    let want = Arc::new(want);
    let qs = Arc::new(qs);
    // from one side: all rush for the same answer first
    let rush = if c.rng.chance(1, 2) { Some(c.rng.below(qs.len())) } else { None };
    let diag = qs.iter().position(|q| *q == Q::Diagnostics).unwrap();
    let rush = if c.rng.chance(1, 2) { Some(diag) } else { rush };
    let n = threads(c);
    let jobs = (0..n).map(|_| {
        let (qs, want, shared) = (qs.clone(), want.clone(), shared.clone());
        Box::new(move |w: &Watch, me: usize, rng: &mut Rng| {
            let mut order: Vec<usize> = (0..qs.len()).collect();
            rng.shuffle(&mut order);
            order.truncate(12);
            if let Some(r) = rush { order.insert(0, r) }
            order.push(diag);
            for i in order {
                match w.answer(me, || shared.ask(&qs[i]).text) {
                    Err(p) => return End::Panic(format!("{:?}", qs[i]), p),
                    Ok(a) => if a != want[i] { return End::Wrong(format!("an answer differs: {}", kind_of(&qs[i])), format!("{:?}\n--- alone ---\n{}\n--- in company ---\n{}", qs[i], want[i], a)) },
                }
                if rng.chance(1, 3) { jitter(rng) }
            }
            End::Fine
        }) as Job
    }).collect();
    together(c, &format!("querying one {} file", kind.name()), jobs, &|| text.clone())?;
    // What the crowd left behind
    let left = c.guard("diagnostics afterwards", &|| text.clone(), || shared.ask(&Q::Diagnostics).text)?;
    c.ensure(left == want[diag], "diagnostics differ after a crowd", || format!("--- alone ---\n{}\n--- after ---\n{}\n{}", want[diag], left, text))
}

/// Many small files, one after the other, each with its problems asked for by all threads at the same moment.
fn rush(c: &mut Case) -> Res {
    let texts_: Vec<String> = (0..c.rng.range(1, 4)).map(|_| { let size = *c.rng.pick(&[60, 200, 400]); ide::text(&mut c.rng, Kind::Fall, size) }).filter(|t| t.len() < 2500).collect();
    if texts_.is_empty() { c.eval(); return Ok(()) }
    let shown = texts_.join("\n--- text ---\n");
    c.input(&shown);
    let mut files = Vec::new();
    let mut qs = Vec::new();
    let mut want = Vec::new();
    for t in &texts_ {
        let alone = c.guard("opening", &|| t.clone(), || Ed::parse(Kind::Fall, t))?;
        let mut q = vec![Q::Diagnostics, Q::Diagnostics, Q::Highlight];
        q.extend(ide::places(&mut c.rng, &alone, t, 2).into_iter().filter(|q| if let Q::Resolve(_) | Q::Usages(_) | Q::Actions(..) = q { true } else { false }));
        let mut w = Vec::new();
        for q in &q { let a = c.guard("a query", &|| format!("{:?}\n{}", q, t), || alone.ask(q).text)?; w.push(a) }
        qs.push(q);
        want.push(w);
    }
    let rounds = 60;
    for i in 0..rounds { let t = &texts_[i % texts_.len()]; let f = c.guard("opening", &|| t.clone(), || Ed::parse(Kind::Fall, t))?; files.push(f) }
    let gates: Arc<Vec<AtomicUsize>> = Arc::new((0..rounds).map(|_| AtomicUsize::new(0)).collect());
    let (files, qs, want) = (Arc::new(files), Arc::new(qs), Arc::new(want));
    let n = *c.rng.pick(&[2, 2, 3, 4]);
    let k = texts_.len();
    let jobs = (0..n).map(|_| {
        let (files, qs, want, gates) = (files.clone(), qs.clone(), want.clone(), gates.clone());
        Box::new(move |w: &Watch, me: usize, rng: &mut Rng| {
            for r in 0..files.len() {
                let t = r % k;
                // a few queries at random, at last the problems
                let mut plan: Vec<usize> = (0..rng.below(3)).map(|_| rng.below(qs[t].len())).collect();
                plan.push(0);
                let skew = if rng.chance(1, 2) { rng.below(600) } else { 0 };
                gates[r].fetch_add(1, Ordering::SeqCst);
                for _ in 0..400_000 { if gates[r].load(Ordering::SeqCst) >= n { break } std::hint::spin_loop() }
                for _ in 0..skew { std::hint::spin_loop() }
                for i in plan {
                    match w.answer(me, || files[r].ask(&qs[t][i]).text) {
                        Err(p) => return End::Panic(format!("{:?}", qs[t][i]), p),
                        Ok(a) => if a != want[t][i] { return End::Wrong(format!("an answer differs: {}", kind_of(&qs[t][i])), format!("text {} {:?}\n--- alone ---\n{}\n--- in company ---\n{}", t, qs[t][i], want[t][i], a)) },
                    }
                }
            }
            End::Fine
        }) as Job
    }).collect();
    together(c, "rushing at small grammar files", jobs, &|| shown.clone())?;
    for (r, f) in files.iter().enumerate() {
        let left = c.guard("diagnostics afterwards", &|| shown.clone(), || f.ask(&Q::Diagnostics).text)?;
        c.ensure(left == want[r % k][0], "diagnostics differ after a crowd", || format!("--- alone ---\n{}\n--- after ---\n{}\n{}", want[r % k][0], left, shown))?;
    }
    Ok(())
}

fn shape(f: &File) -> (T, String) { (T::of_file(f), f.text().to_string()) }

/// One language, some files of it, and edits of them.
fn language(c: &mut Case) -> Res {
    let (lang, texts_, shown, kind): (Language, Vec<String>, String, Option<Kind>) = if c.rng.chance(1, 2) {
        let cached = c.rng.chance(1, 2);
        let rules = if cached { grammars::cached_grammar(&mut c.rng) } else { grammars::grammar(&mut c.rng, grammars::Options::ALL) };
        let lang = grammars::language(&rules);
        let k = c.rng.range(1, 6);
        let t: Vec<String> = (0..k).map(|_| if cached { grammars::cached_text(&mut c.rng, &rules) } else { grammars::text(&mut c.rng, &rules) }).filter(|t| t.len() < 400 && t.chars().filter(|&x| "({".contains(x)).count() < 10).collect();
        (lang, t, grammars::show(&rules), None)
    } else {
        let kind = *c.rng.pick(&KINDS);
        let k = c.rng.range(1, 6);
        let t = (0..k).map(|_| texts::text(&mut c.rng, kind, 1500)).collect();
        (kind.lang().clone(), t, kind.name().to_string(), Some(kind))
    };
    if texts_.is_empty() { c.eval(); return Ok(()) }
    let shown = format!("{}\n--- texts ---\n{}", shown, texts_.join("\n---\n"));
    c.input(&shown);
    // alone
    let mut base = Vec::new();
    let mut want = Vec::new();
    for t in &texts_ {
        let f = c.guard("parsing alone", &|| format!("{}\n{}", shown, t), || lang.parse(t.as_str()))?;
        want.push(shape(&f));
        base.push(f);
    }
    let mut branches = Vec::new();
    for _ in 0..c.rng.below(12) {
        let i = c.rng.below(texts_.len());
        let k = c.rng.range(1, 2);
        let ops = edits::ops(&mut c.rng, &texts_[i], k, &mut |r| match kind { Some(kind) => edits::insertion(r, kind), None => "a".to_string() });
        let new_text = edits::apply(&texts_[i], &ops);
        if new_text.len() > 3000 || kind.map_or(false, |k| texts::too_hard(k, &new_text)) { continue }
        let e = edits::build(&texts_[i], &ops);
        // on a file of its own, which nobody shares
        let f = c.guard("editing alone", &|| format!("{}\n{:?}", shown, e), || lang.parse(texts_[i].as_str()).edit(&e))?;
        branches.push((i, e, shape(&f)));
    }
    let shared: Arc<Vec<File>> = Arc::new(base);
    let (want, branches, texts_) = (Arc::new(want), Arc::new(branches), Arc::new(texts_));
    let n = threads(c);
    let jobs = (0..n).map(|_| {
        let (lang, shared, want, branches, texts_) = (lang.clone(), shared.clone(), want.clone(), branches.clone(), texts_.clone());
        Box::new(move |w: &Watch, me: usize, rng: &mut Rng| {
            for _ in 0..10 {
                if branches.is_empty() || rng.chance(1, 2) {
                    let i = rng.below(texts_.len());
                    match w.answer(me, || shape(&lang.parse(texts_[i].as_str()))) {
                        Err(p) => return End::Panic("parsing".into(), p),
                        Ok(s) => if s != want[i] { return End::Wrong("a parse differs".into(), format!("text {}", i)) },
                    }
                } else {
                    let (i, e, s) = rng.pick(&branches);
                    match w.answer(me, || shape(&shared[*i].edit(e))) {
                        Err(p) => return End::Panic("editing".into(), p),
                        Ok(a) => if a != *s { return End::Wrong("an edit of a shared file differs".into(), format!("text {} {:?}", i, e)) },
                    }
                    // the shared file itself stays
                    match w.answer(me, || shape(&shared[*i])) {
                        Err(p) => return End::Panic("reading".into(), p),
                        Ok(a) => if a != want[*i] { return End::Wrong("a shared file changed".into(), format!("text {} {:?}", i, e)) },
                    }
                }
                if rng.chance(1, 4) { jitter(rng) }
            }
            End::Fine
        }) as Job
    }).collect();
    together(c, "parsing and editing in one language", jobs, &|| shown.clone())
}

fn source(file: usize, version: usize) -> String {
    (0..8).map(|i| format!("struct Sy_{}_{}_{} {{ f: u32 }}\nfn fy_{}_{}_{}() {{}}\n", file, version, i, file, version, i)).collect()
}

/// Symbols are looked up while files are being replaced: of each file, one whole version, and never an older one again.
fn symbols(c: &mut Case) -> Res {
    let dir = Dir::new("c17");
    let files = c.rng.range(1, 6);
    let put = |dir: &Path, k: usize, v: usize| {
        let tmp = dir.join(format!("f{}.tmp", k));
        std::fs::write(&tmp, source(k, v)).unwrap();
        std::fs::rename(&tmp, dir.join(format!("f{}.rs", k))).unwrap();
    };
    for k in 0..files { put(&dir.path, k, 0) }
    let path: PathBuf = dir.path.clone();
    let index = Arc::new(SymbolIndex::new(vec![path.clone()]));
    let raw: Arc<FileIndex<String>> = Arc::new(FileIndex::new(IndexableFileSet::new(vec![path.clone()], "rs"), Box::new(|p| std::fs::read_to_string(p).ok())));
    let ready = |index: &SymbolIndex, raw: &FileIndex<String>, v: usize| {
        let mut n = 0;
        raw.process_files(&mut |f| { let k = number(&f.path); if f.value == source(k, v) { n += 1 } false });
        let found = index.query(&format!("#y_{}", v));
        n == files && (0..files).all(|k| found.iter().filter(|(p, s)| number(p) == k && s.name.contains(&format!("y_{}_{}_", k, v))).count() == 16)
    };
    let from = Instant::now();
    while !ready(&index, &raw, 0) {
        if from.elapsed() > Duration::from_secs(30) { c.violation("the indexes do not get ready", format!("{} files", files)); return Err(Abort) }
        std::thread::sleep(Duration::from_millis(10));
    }
    let last = c.rng.range(2, 6);
    let stop = Arc::new(AtomicBool::new(false));
    let n = threads(c);
    let mut jobs: Vec<Job> = Vec::new();
    let p2 = path.clone();
    let s2 = stop.clone();
    jobs.push(Box::new(move |_w: &Watch, _me: usize, rng: &mut Rng| {
        for v in 1..=last {
            for k in 0..files {
                put(&p2, k, v);
                std::thread::sleep(Duration::from_millis(rng.below(60) as u64));
            }
            std::thread::sleep(Duration::from_millis(rng.below(200) as u64));
        }
        std::thread::sleep(Duration::from_millis(150));
        s2.store(true, Ordering::SeqCst);
        End::Fine
    }));
    for _ in 0..n {
        let (index, raw, stop) = (index.clone(), raw.clone(), stop.clone());
        jobs.push(Box::new(move |w: &Watch, me: usize, rng: &mut Rng| {
            let mut seen = vec![0usize; files];
            let mut raw_seen = vec![0usize; files];
            let mut rounds = 0;
            while !stop.load(Ordering::SeqCst) || rounds < 3 {
                rounds += 1;
                if rng.chance(1, 2) {
                    let types = rng.chance(1, 2);
                    let found = match w.answer(me, || index.query(if types { "y_" } else { "#y_" })) { Ok(f) => f, Err(p) => return End::Panic("a symbol query".into(), p) };
                    for k in 0..files {
                        let names: Vec<&str> = found.iter().filter(|(p, _)| number(p) == k).map(|(_, s)| s.name.as_str()).collect();
                        let version = |n: &str| -> usize { n.split('_').nth(2).and_then(|v| v.parse().ok()).unwrap_or(0) };
                        let want = if types { 8 } else { 16 };
                        let v = names.first().map_or(0, |n| version(n));
                        if names.len() != want || names.iter().any(|n| version(n) != v) { return End::Wrong("a symbol query sees half a file".into(), format!("of file {}: {:?}", k, names)) }
                        if v < seen[k] { return End::Wrong("a symbol query goes back in time".into(), format!("of file {}: version {} after {}", k, v, seen[k])) }
                        seen[k] = v;
                    }
                } else {
                    let got = w.answer(me, || { let mut v = Vec::new(); raw.process_files(&mut |f| { v.push((number(&f.path), f.value.clone())); false }); v });
                    let got = match got { Ok(g) => g, Err(p) => return End::Panic("a file query".into(), p) };
                    for k in 0..files {
                        let texts: Vec<&String> = got.iter().filter(|x| x.0 == k).map(|x| &x.1).collect();
                        let v = texts.first().and_then(|t| (0..=last).find(|&v| **t == source(k, v)));
                        match (texts.len(), v) {
                            (1, Some(v)) if v >= raw_seen[k] => raw_seen[k] = v,
                            _ => return End::Wrong("a file query sees no proper version".into(), format!("of file {}: {:?} after version {}", k, texts, raw_seen[k])),
                        }
                    }
                }
                if rng.chance(1, 2) { std::thread::sleep(Duration::from_micros(rng.below(3000) as u64)) }
            }
            End::Fine
        }));
    }
    together(c, "looking symbols up while files change", jobs, &|| format!("{} files, {} versions", files, last))?;
    let from = Instant::now();
    while !ready(&index, &raw, last) {
        if from.elapsed() > Duration::from_secs(30) { c.violation("the indexes miss the last change", format!("{} files, {} versions", files, last)); return Err(Abort) }
        std::thread::sleep(Duration::from_millis(10));
    }
    Ok(())
}

fn number(p: &Path) -> usize { p.file_stem().and_then(|s| s.to_str()).and_then(|s| s[1..].parse().ok()).unwrap_or(999) }

/// In a process of its own: nothing has been created yet when all threads start.
fn first_use(c: &mut Case) -> Res {
    let exe = std::env::current_exe().unwrap();
    let texts_: Vec<(String, String)> = KINDS.iter().map(|&k| (k.name().to_string(), texts::text(&mut c.rng, k, 600))).collect();
    let n = threads(c);
    let input = serde_json::to_string(&(n as u64, c.rng.next(), &texts_)).unwrap();
    c.input(&input);
    let mut want: Vec<String> = Vec::new();
    for (k, t) in &texts_ { let k = Kind::by_name(k).unwrap(); let w = c.guard("an answer alone", &|| t.clone(), || answer(k, t))?; want.push(w) }
    let mut child = std::process::Command::new(exe).arg("first-use").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().unwrap();
    let pid = child.id() as u64;
    child.stdin.take().unwrap().write_all(input.as_bytes()).unwrap();
    let (mut out, mut err) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let reader = std::thread::spawn(move || { let mut s = String::new(); let _ = out.read_to_string(&mut s); let mut e = String::new(); let _ = err.read_to_string(&mut e); (s, e) });
    let cpu = || std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok().and_then(|s| { let i = s.rfind(')')?; let v: Vec<&str> = s[i + 2..].split(' ').collect(); Some(v[11].parse::<u64>().ok()? + v[12].parse::<u64>().ok()?) }).unwrap_or(0);
    let (mut since, mut last) = (Instant::now(), 0);
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() { break Some(s) }
        let now = cpu();
        if now != last { last = now; since = Instant::now() }
        if since.elapsed() > Duration::from_secs(30) { let _ = child.kill(); let _ = child.wait(); break None }
        std::thread::sleep(Duration::from_millis(5));
    };
    let (out, err) = reader.join().unwrap();
    let status = match status {
        Some(s) => s,
        None => { c.violation("threads wait for each other", format!("first use by {} threads did not finish\n{}", n, input)); return Err(Abort) }
    };
    c.ensure(status.success(), "first use by many threads fails", || format!("{:?}\n{}\n{}", status, err, input))?;
    let got: Vec<Vec<String>> = serde_json::from_str(&out).unwrap();
    for g in &got {
        c.eval();
        c.ensure(*g == want, "first use by many threads gives other answers", || format!("--- alone ---\n{:?}\n--- in company ---\n{:?}\n{}", want, g, input))?;
    }
    c.count("first uses in fresh processes", 1);
    c.nontrivial(&input);
    Ok(())
}

fn answer(k: Kind, t: &str) -> String {
    let f = k.lang().parse(t);
    let mut s = T::of_file(&f).hash().to_string();
    if k == Kind::Fall || k == Kind::Rust {
        let e = Ed::parse(k, t);
        for q in ide::WHOLE { s.push_str(&hash_bytes(e.ask(q).text.as_bytes()).to_string()); s.push(' ') }
    }
    s
}

/// The child process of `first_use`.
pub fn child() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let (n, seed, texts_): (u64, u64, Vec<(String, String)>) = serde_json::from_str(&s).unwrap();
    let texts_ = Arc::new(texts_);
    let go = Arc::new(AtomicU64::new(0));
    let threads: Vec<_> = (0..n).map(|i| {
        let (texts_, go) = (texts_.clone(), go.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut rng = Rng::new(seed, "first use", i);
            let mut order: Vec<usize> = (0..texts_.len()).collect();
            if rng.chance(1, 2) { rng.shuffle(&mut order) }
            let mut out = vec![String::new(); order.len()];
            go.fetch_add(1, Ordering::SeqCst);
            while go.load(Ordering::SeqCst) < n { std::hint::spin_loop() }
            for k in order { out[k] = answer(Kind::by_name(&texts_[k].0).unwrap(), &texts_[k].1) }
            out
        }).unwrap()
    }).collect();
    let out: Vec<Vec<String>> = threads.into_iter().map(|t| match t.join() { Ok(v) => v, Err(_) => std::process::exit(3) }).collect();
    println!("{}", serde_json::to_string(&out).unwrap());
}

fn case(c: &mut Case) -> Res {
    let (slow, fast) = if c.tier == Tier::Quick { (12, 24) } else { (24, 240) };
    if c.idx < slow { return symbols(c) }
    if c.idx < slow + fast { return first_use(c) }
    match c.rng.below(8) { 0..=3 => rush(c), 4..=5 => file(c), _ => language(c) }
}
