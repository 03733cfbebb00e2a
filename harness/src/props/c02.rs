use std::io::Write;
use std::process::{Command, Stdio};

use crate::ctx::{Abort, Case, Plan, Report, Res, Tier, Violation};
use crate::gen::{programs, texts};
use crate::langs::{Kind, KINDS};
use crate::tree::T;
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C02", plan, case, finish: Some(finish),
        rule: "a random text of a random shipped language (or of another language) is parsed twice in this process and once in a child process; a watchdog bounds the CPU time of each parse. Non-trivial: at least 5 bytes; distinct by language and text.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 20_000, 18.0, 30) }

/// Shapes that make recursive or backtracking parsers slow.
fn shape(c: &mut Case, kind: Kind) -> String {
    let v = texts::vocab(kind);
    let n = c.rng.range(1, 3);
    let unit: String = (0..n).map(|_| format!("{} ", c.rng.pick(v))).collect();
    let times = *c.rng.pick(&[8, 20, 40, 60]);
    let mut s = unit.repeat(times);
    if c.rng.chance(1, 2) {
        let tail: String = (0..c.rng.below(4)).map(|_| c.rng.pick(v).to_string()).collect();
        s.push_str(&tail);
    }
    if c.rng.chance(1, 3) { let pre = texts::chunk(&mut c.rng, kind, 80); s = format!("{}{}", pre, s) }
    if kind == Kind::Arith || kind == Kind::Weird { texts::tame(kind, s) } else { s }
}

/// A text of the language that holds a node with another node of its type inside: `(before, open, core, close, after)`,
/// the two nodes being `open core close` and `core`. Then `open` and `close` may be repeated.
fn recursion(c: &mut Case, kind: Kind) -> Option<[String; 5]> {
    let size = c.rng.range(5, 40);
    let text = if c.rng.chance(2, 3) { programs::valid(&mut c.rng, kind, size) } else { texts::chunk(&mut c.rng, kind, 600) };
    let text = texts::tame(kind, text);
    let file = c.guard("parse", &|| format!("{}\n{}", kind.name(), text), || kind.lang().parse(text.as_str())).ok()?;
    let tree = T::of_file(&file);
    let mut pairs = Vec::new();
    fn go<'t>(t: &'t T, up: &mut Vec<&'t T>, pairs: &mut Vec<(u32, [usize; 4])>) {
        for u in up.iter() {
            if u.ty == t.ty && u.end - u.start > t.end - t.start && t.end > t.start && u.end - u.start < t.end - t.start + 60 {
                pairs.push((t.ty, [u.start, t.start, t.end, u.end]))
            }
        }
        up.push(t);
        for ch in &t.ch { go(ch, up, pairs) }
        up.pop();
    }
    go(&tree, &mut Vec::new(), &mut pairs);
    if pairs.is_empty() { return None }
    let (ty, [a, b, d, e]) = *c.rng.pick(&pairs);
    let (mut open, mut close) = (text[a..b].to_string(), text[d..e].to_string());
    // two constructs in turn
    if c.rng.chance(1, 3) {
        let same: Vec<_> = pairs.iter().filter(|p| p.0 == ty).collect();
        let [a, b, d, e] = c.rng.pick(&same).1;
        open.push_str(&text[a..b]);
        close = format!("{}{}", &text[d..e], close);
    }
    Some([text[..a].to_string(), open, text[b..d].to_string(), close, text[e..].to_string()])
}

/// Deeper and deeper nesting of one construct: the work may grow, but not by a factor for each level.
fn pump(c: &mut Case, kind: Kind) -> Res {
    let [pre, mut open, core, mut close, post] = match recursion(c, kind) { Some(r) => r, None => return Ok(()) };
    // damaged, too: not closed, not opened, a token too many on each level
    match c.rng.below(6) {
        0 => close.clear(),
        1 => { let v = *c.rng.pick(texts::vocab(kind)); open = format!("{} {} ", open, v) }
        2 => { let v = *c.rng.pick(texts::vocab(kind)); close = format!(" {} {}", v, close) }
        3 => { let at = texts::boundary(&mut c.rng, &open); open.truncate(at) }
        _ => {}
    }
    let mut steps: Vec<(usize, u64)> = Vec::new();
    for &n in &[4, 8, 12, 16, 20, 24] {
        let text = format!("{}{}{}{}{}", pre, open.repeat(n), core, close.repeat(n), post);
        c.input(&format!("{}\n{}", kind.name(), text));
        let show = || format!("{}\n{}", kind.name(), text);
        let file = c.guard("parse", &show, || kind.lang().parse(text.as_str()))?;
        let ticks = file.metrics().get("parsing ticks").unwrap_or(0);
        c.max("parser steps for one nested text", ticks);
        steps.push((n, ticks));
        let k = steps.len();
        if k < 2 { continue }
        let ratio = |i: usize| steps[i].1 as f64 / (steps[i - 1].1.max(1)) as f64;
        if k >= 3 && ticks >= 50_000 && ratio(k - 1) > 6.0 && ratio(k - 2) > 6.0 {
            let d = format!("{}\n(nesting, parser steps): {:?}\n{}", kind.name(), steps, text);
            c.violation("the work of the parser is multiplied with every level of nesting", d);
            return Err(Abort)
        }
        if ticks as f64 * ratio(k - 1) > 5e7 { break }
    }
    c.count("nested constructs grown", 1);
    let k = format!("{}{}{}", kind.name(), open, close);
    c.nontrivial(&k);
    Ok(())
}

fn case(c: &mut Case) -> Res {
    let kind: Kind = *c.rng.pick(&KINDS);
    // (arith's grammar backtracks exponentially by its rules, see `tame`)
    if c.idx % 4 == 3 && kind != Kind::Arith { c.eval(); return pump(c, kind) }
    let text = match c.rng.below(10) {
        0 | 1 => shape(c, kind),
        2 => { let g = texts::garbage(&mut c.rng, 60); texts::tame(kind, g) }
        _ => { let max = if c.idx % 50 == 0 { 40_000 } else { 1200 }; texts::text(&mut c.rng, kind, max) }
    };
    c.input(&format!("{}\n{}", kind.name(), text));
    c.eval();
    let show = || format!("{}\n{}", kind.name(), text);
    let a = c.guard("parse", &show, || kind.lang().parse(text.as_str()))?;
    let b = c.guard("second parse", &show, || kind.lang().parse(text.as_str()))?;
    let (ta, tb) = (T::of_file(&a), T::of_file(&b));
    c.count(&format!("texts of {}", kind.name()), 1);
    c.count("bytes", text.len() as u64);
    if let Some(t) = a.metrics().get("parsing ticks") { c.max("parser steps for one text", t) }
    if ta.has_ty(fall_tree::ERROR) { c.count("texts with errors", 1) }
    if text.len() >= 5 { let k = format!("{}{}", kind.name(), text); c.nontrivial(&k) }
    { let t = text.clone(); c.sample(|| format!("{}: {:?}", kind.name(), t)) }
    c.ensure(ta == tb, "parsing again gives another tree", || show())?;
    if c.idx % 4 == 0 && text.len() < 5000 { let h = ta.hash(); c.rep.batch.push((kind.name().to_string(), text.clone(), h)) }
    Ok(())
}

/// The same texts again, with the language objects of a fresh process.
fn finish(rep: &mut Report, _seed: u64, _tier: Tier) {
    let mut batch = std::mem::replace(&mut rep.batch, Vec::new());
    batch.truncate(20_000);
    if batch.is_empty() { return }
    // another order than here: no answer may depend on what was parsed before
    batch.reverse();
    let input = serde_json::to_string(&batch.iter().map(|b| (&b.0, &b.1)).collect::<Vec<_>>()).unwrap();
    let run = || -> Option<Vec<u64>> {
        let mut child = Command::new(std::env::current_exe().ok()?).arg("rehash").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
        let mut stdin = child.stdin.take()?;
        let w = std::thread::spawn(move || { let _ = stdin.write_all(input.as_bytes()); });
        let out = child.wait_with_output().ok()?;
        let _ = w.join();
        serde_json::from_slice(&out.stdout).ok()
    };
    match run() {
        None => rep.inconclusive.push("the child process gave no answer".to_string()),
        Some(hashes) => {
            let mut n = 0;
            for (b, h) in batch.iter().zip(hashes.iter()) {
                n += 1;
                if b.2 != *h {
                    rep.violations.push(Violation { case: 0, sig: "another process parses to another tree".to_string(), detail: format!("{}\n{}", b.0, b.1) });
                }
            }
            rep.counters.insert("texts parsed again by a fresh process".to_string(), n);
        }
    }
}
