mod rng;
mod ctx;
mod langs;
mod tree;
mod gen;
mod model;
mod props;
#[cfg(any(feature = "rustide", feature = "gen"))]
mod scratch;
#[cfg(all(feature = "fallide", feature = "rustide"))]
mod ide;
#[cfg(feature = "bridge")]
mod bridge;

use std::io::{Read, Write};
use ctx::{Opts, Tier};
use serde_json::json;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.get(0).map(|s| s.as_str()) {
        Some("run") => run(&args[1..]),
        Some("rehash") => rehash(),
        #[cfg(all(feature = "fallide", feature = "rustide"))]
        Some("first-use") => { ctx::install_panic_hook(); props::c17::child() }
        #[cfg(feature = "bridge")]
        Some("bridge") => { ctx::install_panic_hook(); bridge::serve() }
        _ => { eprintln!("usage: harness run PROP --tier T --seed N --out FILE [--case N] [--trace DIR] [--secs S] [--cases N] | rehash"); std::process::exit(2) }
    }
}

fn run(args: &[String]) {
    let prop = args[0].clone();
    let mut known: Vec<String> = Vec::new();
    let (mut tier, mut seed, mut out, mut only, mut trace, mut secs, mut cases) = (Tier::Quick, 1u64, None, None, None, None, None);
    let mut i = 1;
    while i + 1 < args.len() {
        let v = args[i + 1].clone();
        match args[i].as_str() {
            "--tier" => tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => seed = v.parse().unwrap(),
            "--out" => out = Some(v),
            "--case" => only = Some(v.parse().unwrap()),
            "--trace" => trace = Some(std::path::PathBuf::from(v)),
            "--secs" => secs = Some(v.parse().unwrap()),
            "--known" => known = serde_json::from_str(&std::fs::read_to_string(&v).unwrap()).unwrap(),
            "--cases" => cases = Some(v.parse().unwrap()),
            o => { eprintln!("unknown option {}", o); std::process::exit(2) }
        }
        i += 2;
    }
    ctx::install_panic_hook();
    let p = match props::find(&prop) {
        Some(p) => p,
        None => { eprintln!("unknown property {}", prop); std::process::exit(2) }
    };
    if cfg!(miri) { return interpreted(&p, seed, only, cases.unwrap_or(10), secs.unwrap_or(60.0)) }
    let opts = Opts { tier, seed, only_case: only, trace, secs, cases, known };
    let plan = (p.plan)(tier);
    let finish = p.finish;
    ctx::run(p.id, p.case, plan, &opts, &|rep, wall| {
        if let Some(f) = finish { f(rep, seed, tier) }
        let violations: Vec<_> = rep.violations.iter().map(|v| json!({"case": v.case, "sig": v.sig, "detail": v.detail})).collect();
        let doc = json!({
            "property": p.id,
            "evaluations": rep.evaluations,
            "distinct_nontrivial": rep.distinct.len(),
            "counters": rep.counters,
            "maxima": rep.maxima,
            "samples": rep.samples.iter().take(12).collect::<Vec<_>>(),
            "violations": violations,
            "inconclusive": rep.inconclusive.iter().take(20).collect::<Vec<_>>(),
            "rule": p.rule,
            "wall_s": wall,
        });
        let text = serde_json::to_string_pretty(&doc).unwrap();
        match &out {
            Some(f) => { std::fs::File::create(f).unwrap().write_all(text.as_bytes()).unwrap() }
            None => println!("{}", text),
        }
        // Worker threads may still hang inside the code under test.
        std::process::exit(0);
    });
}

/// Without watchdog and report file, for an interpreter.
fn interpreted(p: &props::Prop, seed: u64, only: Option<u64>, cases: u64, secs: f64) {
    let start = std::time::Instant::now();
    let from = only.unwrap_or(0);
    for idx in from..from + if only.is_some() { 1 } else { cases } {
        if start.elapsed().as_secs_f64() > secs { break }
        println!("@case {}", idx);
        let rep = ctx::run_one(p.id, p.case, seed, idx);
        println!("@ran {} {}", rep.evaluations, rep.distinct.len());
        for (k, v) in &rep.counters { println!("@count {} {}", v, k) }
        for v in &rep.violations { println!("@violation {}\n{}", v.sig, v.detail) }
    }
    println!("@end");
}

/// Child process of C02: parses every text again with this process's own language objects.
fn rehash() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let batch: Vec<(String, String)> = serde_json::from_str(&s).unwrap();
    let res = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        batch.iter().map(|(k, t)| {
            let kind = langs::Kind::by_name(k).unwrap();
            tree::T::of_file(&kind.lang().parse(t.as_str())).hash()
        }).collect::<Vec<u64>>()
    }).unwrap().join().unwrap();
    println!("{}", serde_json::to_string(&res).unwrap());
}
