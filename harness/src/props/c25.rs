use std::sync::Arc;

use fall_tree::{File, TextEdit};

use crate::ctx::{catch_guarded, Abort, Case, PanicInfo, Plan, Res, Tier};
use crate::gen::{edits, fallgen, grammars, programs};
use crate::ide::{Ed, Q};
use crate::langs::Kind;
use crate::tree::T;
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C25", plan, case, finish: None,
        rule: "the workloads of the other properties (parsing, reparsing, editing, lexing, navigation, both editors, analysis, threads sharing all of these) run in builds instrumented for memory errors, data races and reads of uninitialised memory, with overflow checks and the standard library's own assertions on; small ones under an interpreter that knows undefined behaviour. The sanitizers are the oracle, and overflow panics. Non-trivial and distinct are counted by the workloads.",
    }
}

fn plan(tier: Tier) -> Plan {
    if cfg!(miri) { return Plan { cases: 1_000_000, secs: 60.0, threads: 1, case_cpu_s: 100_000 } }
    match tier {
        Tier::Quick => Plan { cases: 1_000_000, secs: 25.0, threads: 7, case_cpu_s: 600 },
        Tier::Thorough => Plan { cases: 100_000_000, secs: 200.0, threads: 7, case_cpu_s: 600 },
    }
}

const OVERFLOW: &str = "arithmetic overflow";

fn overflow(msg: &str) -> bool { msg.contains("attempt to") && msg.contains("overflow") }

fn case(c: &mut Case) -> Res {
    if cfg!(miri) || std::env::var_os("HARNESS_TINY").is_some() { return tiny(c) }
    use super::*;
    let works: &[(&str, fn(&mut Case) -> Res, usize)] = &[
        ("C01", c01::prop().case, 3), ("C03", c03::prop().case, 3), ("C04", c04::prop().case, 1), ("C05", c05::prop().case, 1),
        ("C06", c06::prop().case, 3), ("C08", c08::prop().case, 1), ("C10", c10::prop().case, 2), ("C11", c11::prop().case, 3),
        ("C12", c12::prop().case, 1), ("C13", c13::prop().case, 1), ("C14", c14::prop().case, 1), ("C15", c15::prop().case, 2),
        ("C16", c16::prop().case, 2), ("C17", c17::prop().case, 6), ("C20", c20::prop().case, 1), ("C24", c24::prop().case, 2),
    ];
    let mut n = c.rng.below(works.iter().map(|w| w.2).sum());
    let (name, work, _) = works.iter().find(|w| { if n < w.2 { true } else { n -= w.2; false } }).unwrap();
    c.count(&format!("workloads of {}", name), 1);
    let _ = work(c);
    // What the workload itself judges belongs to its own property.
    let found = std::mem::replace(&mut c.rep.violations, Vec::new());
    for v in found {
        if overflow(&v.detail.lines().next().unwrap_or("")) { c.rep.violations.push(crate::ctx::Violation { sig: OVERFLOW.to_string(), ..v }) }
        else { c.count("answers other properties object to", 1) }
    }
    if !c.rep.inconclusive.is_empty() { c.rep.inconclusive.clear(); c.count("workloads that could not go on", 1) }
    Ok(())
}

fn go<T>(c: &mut Case, what: &str, input: &str, f: impl FnOnce() -> T) -> Result<T, Abort> {
    let r = catch_guarded(f);
    judge(c, what, input, r)
}

fn judge<T>(c: &mut Case, what: &str, input: &str, r: Result<T, PanicInfo>) -> Result<T, Abort> {
    c.eval();
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if overflow(&p.msg) && !p.in_harness() { c.violation(OVERFLOW, format!("{} at {}:{}: {}\n--- input ---\n{}", what, p.file, p.line, p.msg, input)) }
            c.count("panics", 1);
            Err(Abort)
        }
    }
}

fn look(f: &File) -> u64 {
    let n = f.text().to_string().len();
    for o in 0..n + 1 {
        let _ = fall_tree::search::find_leaf_at_offset(f.root(), fall_tree::tu(o as u32)).left_biased();
    }
    T::of_file(f).hash()
}

fn cut(mut t: String, n: usize) -> String {
    let mut e = n.min(t.len());
    while !t.is_char_boundary(e) { e -= 1 }
    t.truncate(e);
    t
}

/// On a thread of its own. (Not under the interpreter: it objects to the `thread_local` crate inside of `regex`.)
fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Box<dyn FnOnce() -> T> {
    if cfg!(miri) { return Box::new(f) }
    let t = std::thread::spawn(f);
    Box::new(move || t.join().unwrap())
}

/// Small enough for an interpreter.
fn tiny(c: &mut Case) -> Res {
    let which = match std::env::var("HARNESS_TINY").as_ref().map(|s| s.as_str()) { Ok("grammars") => [0, 1, 3][(c.idx % 3) as usize], Ok("shipped") => 2, Ok("analysis") => 4, _ => c.idx % 5 };
    match which {
        0 | 1 => {
            let rules = if c.rng.chance(1, 2) { grammars::cached_grammar(&mut c.rng) } else { grammars::grammar(&mut c.rng, grammars::Options::ALL) };
            let lang = go(c, "building a language", "", || grammars::language(&rules))?;
            for _ in 0..3 {
                let text = cut(grammars::text(&mut c.rng, &rules), 60);
                c.input(&text);
                let mut file = go(c, "parse", &text, || lang.parse(text.as_str()))?;
                go(c, "navigation", &text, || look(&file))?;
                c.nontrivial(&format!("{} {}", c.idx, text));
                for _ in 0..2 {
                    let now = file.text().to_string();
                    let rules_ = &rules;
                    let ops = edits::ops(&mut c.rng, &now, 1, &mut |r| cut(grammars::cached_insertion(r, rules_), 20));
                    let e: TextEdit = edits::build(&now, &ops);
                    file = go(c, "reparse", &now, || file.edit(&e))?;
                    go(c, "navigation", &now, || look(&file))?;
                }
            }
            c.count("random grammars", 1);
        }
        2 => {
            let kind = *c.rng.pick(&[Kind::Json, Kind::Sexp, Kind::Arith, Kind::Bnf]);
            let text = cut(programs::valid(&mut c.rng, kind, 4), 80);
            c.input(&text);
            let file = go(c, "parse", &text, || kind.lang().parse(text.as_str()))?;
            go(c, "navigation", &text, || look(&file))?;
            let ops = edits::ops(&mut c.rng, &text, 2, &mut |r| edits::insertion(r, kind));
            let e = edits::build(&text, &ops);
            let file = go(c, "reparse", &text, || file.edit(&e))?;
            go(c, "navigation", &text, || look(&file))?;
            c.nontrivial(&text);
            c.count("shipped languages", 1);
        }
        3 => {
            // threads on one language and one file
            let rules = grammars::cached_grammar(&mut c.rng);
            let lang = Arc::new(go(c, "building a language", "", || grammars::language(&rules))?);
            let text = cut(grammars::text(&mut c.rng, &rules), 60);
            c.input(&text);
            let file = Arc::new(go(c, "parse", &text, || lang.parse(text.as_str()))?);
            let rules_ = &rules;
            let jobs: Vec<_> = (0..3).map(|_| { let ops = edits::ops(&mut c.rng, &text, 1, &mut |r| cut(grammars::cached_insertion(r, rules_), 20)); edits::build(&text, &ops) }).collect();
            let threads: Vec<_> = jobs.into_iter().map(|e| { let (lang, file, text) = (lang.clone(), file.clone(), text.clone()); spawn(move || {
                catch_guarded(|| (look(&lang.parse(text.as_str())), look(&file.edit(&e)), look(&file)))
            }) }).collect();
            for t in threads { let r = t(); judge(c, "threads on one file", &text, r)?; }
            c.nontrivial(&text);
            c.count("files shared by threads", 1);
        }
        _ => {
            let model: String = { let n = 1; let slips = c.rng.below(3); cut(fallgen::model(&mut c.rng, n, slips).text, 500) };
            c.input(&model);
            let ed = Arc::new(go(c, "parse", &model, || Ed::parse(Kind::Fall, &model))?);
            let qs: Vec<Vec<Q>> = (0..2).map(|_| {
                let mut q = vec![Q::Diagnostics, Q::Highlight, Q::Structure];
                let o = crate::gen::texts::boundary(&mut c.rng, &model);
                q.push(Q::Resolve(o));
                q.push(Q::Usages(o));
                q.push(Q::Actions(o, o));
                c.rng.shuffle(&mut q);
                q
            }).collect();
            let threads: Vec<_> = qs.into_iter().map(|qs| { let ed = ed.clone(); spawn(move || {
                catch_guarded(|| for q in &qs { ed.ask(q); })
            }) }).collect();
            for t in threads { let r = t(); judge(c, "threads on one analysis", &model, r)?; }
            c.nontrivial(&model);
            c.count("analyses shared by threads", 1);
        }
    }
    Ok(())
}
