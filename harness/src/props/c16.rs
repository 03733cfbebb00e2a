use std::collections::{BTreeMap, HashMap, HashSet};

use fall_editor::Severity;

use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::fallgen::{self, Model, Rule, Sp, E};
use crate::ide::{self, Ed, Q};
use crate::langs::Kind;
use crate::tree::T;
use super::c15::builtin;
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C16", plan, case, finish: None,
        rule: "grammar files with known mistakes (undefined names, wrong arities, bad contexts, duplicates, unused rules, unknown traits, malformed operator rules, alone and together, and none at all); the diagnostics are compared with the list computed from what the generator wrote, and asked again of the same and of fresh files after other queries in random order. Non-trivial: a file with a diagnostic; distinct by text.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 40_000, 22.0, 20) }

type D = (u8, usize, usize, String);

fn quoted(s: &str) -> Option<&str> { if s.starts_with('\'') { Some(&s[1..s.len() - 1]) } else { None } }

/// The first rule of a name, as far as it gives nodes a type.
fn typed(r: &Rule) -> bool {
    let find = |k: &str| r.attrs.iter().find(|a| a.0 == k);
    r.public && find("pratt").is_none() && find("type").map_or(true, |t| t.1.is_some())
}

pub fn expected(m: &Model) -> Vec<D> {
    let mut out: Vec<D> = Vec::new();
    let e = |out: &mut Vec<D>, at: Sp, msg: &str| out.push((0, at.0, at.1, msg.to_string()));
    let mut rules: HashMap<&str, usize> = HashMap::new();
    for (i, r) in m.rules.iter().enumerate() {
        if rules.contains_key(r.name.as_str()) { e(&mut out, r.id, "Duplicate rule") } else { rules.insert(&r.name, i); }
    }
    let tokens: HashSet<&str> = m.lex.iter().map(|l| l.name.as_str()).collect();
    let mut types = HashSet::new();
    for l in &m.lex { if !types.insert(l.ty.as_str()) { e(&mut out, l.at, "Duplicate token") } }
    let traits: HashSet<&str> = m.traits.iter().map(|t| t.name.as_str()).collect();
    for n in &m.nodes { for (at, t) in &n.traits { if !traits.contains(t.as_str()) { e(&mut out, *at, "Unresolved trait") } } }
    let mut used: HashSet<usize> = HashSet::new();
    used.insert(0);
    let mut contexts: BTreeMap<String, Vec<Sp>> = BTreeMap::new();
    for r in &m.rules {
        let params: HashSet<&str> = r.params.iter().flatten().map(|p| p.name.as_str()).collect();
        r.body.walk(None, &mut |x, parent| match x {
            E::Ref { at, name } => {
                let n = name.as_str();
                if params.contains(n) { return }
                if let Some(&i) = rules.get(n) { used.insert(i); return }
                if tokens.contains(n) { return }
                // the name of a context
                if let Some(E::Call { name: f, args, .. }) = parent {
                    if ["is_in", "enter", "exit"].contains(&f.as_str()) && quoted(n).is_some() && args[0].at() == *at { return }
                }
                e(&mut out, *at, "Unresolved reference");
            }
            E::Call { at, id, name, args } => {
                let n = name.as_str();
                if ["is_in", "enter", "exit"].contains(&n) {
                    let ctx = args.get(0).and_then(|a| if let E::Ref { name, .. } = a { quoted(name) } else { None });
                    if let Some(c) = ctx { contexts.entry(c.to_string()).or_default().push(*at) }
                    let need = if n == "is_in" { 1 } else { 2 };
                    if args.len() >= need && ctx.is_none() { e(&mut out, args[0].at(), "Context should be a single quoted string") }
                }
                if n == "prev_is" {
                    for a in args {
                        let ok = if let E::Ref { name, .. } = a { !params.contains(name.as_str()) && rules.get(name.as_str()).map_or(false, |&i| typed(&m.rules[i])) } else { false };
                        if !ok { e(&mut out, *at, "<prev_is> arguments must be public rules") }
                    }
                } else if builtin(n) {
                    let want = match n { "any" | "commit" | "eof" => 0, "not" | "is_in" => 1, _ => 2 };
                    if args.len() != want { e(&mut out, *at, &format!("Wrong number of arguments, expected {}, got {}", want, args.len())) }
                } else {
                    let callee = rules.get(n).cloned().filter(|&i| m.rules[i].params.is_some());
                    match callee {
                        None => e(&mut out, *id, "Unresolved reference"),
                        Some(i) => {
                            used.insert(i);
                            let want = m.rules[i].params.as_ref().unwrap().len();
                            if args.len() != want { e(&mut out, *at, &format!("Expected {} arguments, got {}", want, args.len())) }
                        }
                    }
                }
            }
            _ => {}
        });
        // operators
        let find = |k: &str| r.attrs.iter().find(|a| a.0 == k);
        let kind = ["atom", "postfix", "prefix", "bin"].iter().cloned().find(|k| find(k).is_some());
        if let Some(k) = kind {
            let prio: Option<u32> = find(k).unwrap().1.as_ref().and_then(|v| v.parse().ok());
            let parts = if let E::Block { alts, .. } = &r.body { if alts.len() == 1 { if let E::Seq { parts, .. } = &alts[0] { Some(parts.len()) } else { None } } else { None } } else { None };
            let body = r.body.at();
            match (k, parts) {
                ("atom", _) => if prio.is_some() { e(&mut out, r.id, "Atom rules don't have priority") },
                (_, None) => e(&mut out, body, "Expression rule requires a single alternative"),
                ("postfix", Some(p)) => if p != 2 { e(&mut out, body, "Postfix rule requires a single expression and an operation") },
                ("prefix", Some(p)) => if p != 2 { e(&mut out, body, "Prefix rule requires an operation and a single expression") },
                (_, Some(p)) => if p != 3 { e(&mut out, body, "Binary expression requires a left hand side expression, an operator and a right hand side expression") }
                    else if prio.is_none() { e(&mut out, r.id, "Binary expression requires explicit priority") },
            }
        }
    }
    for (c, at) in contexts { if at.len() == 1 { out.push((1, (at[0]).0, (at[0]).1, format!("Context `{}` is used only once", c))) } }
    for (i, r) in m.rules.iter().enumerate() { if !used.contains(&i) { out.push((1, r.id.0, r.id.1, "Unused rule".to_string())) } }
    out.sort();
    out
}

fn diagnostics(ed: &Ed) -> Vec<D> {
    use fall_editor::EditorFileImpl;
    if let Ed::Fall(f) = ed {
        f.diagnostics().into_iter().map(|d| (match d.severity { Severity::Error => 0, Severity::Warning => 1 }, crate::tree::us(d.range.start()), crate::tree::us(d.range.end()), d.message)).collect()
    } else { vec![] }
}

fn case(c: &mut Case) -> Res {
    let size = c.rng.range(1, 8);
    let slips = *c.rng.pick(&[0, 0, 1, 1, 2, 4, 8]);
    let m = fallgen::model(&mut c.rng, size, slips);
    let text = m.text.clone();
    c.input(&text);
    let ed = c.guard("opening", &|| text.clone(), || Ed::parse(Kind::Fall, &text))?;
    if T::of_file(ed.file()).has_ty(fall_tree::ERROR) { c.count("files that did not parse", 1); return Ok(()) }
    let want = expected(&m);
    let got = c.guard("diagnostics", &|| text.clone(), || diagnostics(&ed))?;
    c.eval();
    let line = |d: &D| format!("{} {:?} at {}..{}: {}", if d.0 == 0 { "error" } else { "warning" }, text.get(d.1..d.2), d.1, d.2, d.3);
    let list = |v: &[D]| v.iter().map(line).collect::<Vec<_>>().join("\n");
    let mut sorted = got.clone();
    sorted.sort();
    if sorted != want {
        let mut extra = sorted.clone();
        let mut missing = Vec::new();
        for w in &want { if let Some(i) = extra.iter().position(|x| x == w) { extra.remove(i); } else { missing.push(w.clone()) } }
        let sig = |d: &D| { let s: String = d.3.chars().filter(|ch| !ch.is_ascii_digit()).collect(); if let Some(i) = s.find('`') { s[..i].to_string() } else { s } };
        let s = if let Some(d) = missing.first() { format!("a diagnostic is missing: {}", sig(d)) } else if let Some(d) = extra.first() { format!("a diagnostic too many: {}", sig(d)) } else { unreachable!() };
        c.violation(&s, format!("missing:\n{}\ntoo many:\n{}\n--- text ---\n{}", list(&missing), list(&extra), text));
        return Ok(());
    }
    c.ensure(got.windows(2).all(|w| (w[0].0, w[0].1, w[0].2) <= (w[1].0, w[1].1, w[1].2)), "diagnostics are not in order", || format!("{}\n--- text ---\n{}", list(&got), text))?;
    let again = c.guard("diagnostics", &|| text.clone(), || diagnostics(&ed))?;
    c.ensure(again == got, "asking again gives other diagnostics", || format!("{}\n--- again ---\n{}\n--- text ---\n{}", list(&got), list(&again), text))?;
    // a fresh file, other questions first
    let other = Ed::parse(Kind::Fall, &text);
    let n = c.rng.range(1, 4);
    let mut qs = ide::places(&mut c.rng, &other, &text, n);
    qs.extend(vec![Q::Structure, Q::Highlight]);
    c.rng.shuffle(&mut qs);
    for q in &qs { c.guard("a query before diagnostics", &|| format!("{:?}\n{}", q, text), || other.ask(q).text)?; }
    let later = c.guard("diagnostics", &|| text.clone(), || diagnostics(&other))?;
    c.eval();
    c.ensure(later == got, "diagnostics depend on what was asked before", || format!("{}\n--- after {:?} ---\n{}\n--- text ---\n{}", list(&got), qs, list(&later), text))?;
    if want.is_empty() { c.count("clean files", 1) } else {
        c.nontrivial(&text);
        c.sample(|| format!("{}\n--- text ---\n{}", list(&got), text));
    }
    for d in &got {
        let s: String = d.3.chars().map(|ch| if ch.is_ascii_digit() { 'N' } else { ch }).collect();
        let s = if let Some(i) = s.find('`') { format!("{}..", &s[..i]) } else { s };
        c.count(&s, 1);
    }
    Ok(())
}
