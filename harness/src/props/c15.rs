use std::collections::HashMap;

use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::fallgen::{self, Model, Sp, E};
use crate::ide::{Ed, Q};
use crate::langs::Kind;
use crate::tree::T;
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C15", plan, case, finish: None,
        rule: "grammar files with known declarations and references (names from small pools: shadowing parameters, tokens and rules of one name, duplicates, undefined names, calls, selectors); definitions and usages are asked from every reference and declaration in random order and compared with a resolver that works on what the generator wrote. Non-trivial: a reference with a definition; distinct by text and reference.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 30_000, 22.0, 20) }

/// What a place in the file may refer to: declarations by index, all of them equally good if there are several.
pub struct Ref { pub at: Sp, pub to: Vec<usize>, pub key: String }
pub struct Decl { pub nav: Sp, pub what: &'static str }

pub fn builtin(name: &str) -> bool {
    ["any", "commit", "eof", "not", "is_in", "layer", "with_skip", "inject", "enter", "exit", "prev_is"].contains(&name)
}

pub fn scope(m: &Model) -> (Vec<Decl>, Vec<Ref>) {
    let mut decls = Vec::new();
    let mut rules: HashMap<&str, usize> = HashMap::new();
    let mut callable: HashMap<&str, bool> = HashMap::new();
    let mut tokens: HashMap<&str, Vec<usize>> = HashMap::new();
    let mut types: HashMap<&str, Vec<usize>> = HashMap::new();
    for l in &m.lex {
        tokens.entry(&l.name).or_default().push(decls.len());
        types.entry(&l.ty).or_default().push(decls.len());
        decls.push(Decl { nav: l.at, what: "token" });
    }
    for r in &m.rules {
        if !rules.contains_key(r.name.as_str()) { rules.insert(&r.name, decls.len()); callable.insert(&r.name, r.params.is_some()); }
        decls.push(Decl { nav: r.id, what: "rule" });
    }
    let mut nodes: HashMap<&str, usize> = HashMap::new();
    for n in &m.nodes { nodes.entry(&n.name).or_insert(decls.len()); decls.push(Decl { nav: n.id, what: "node" }) }
    let mut classes: HashMap<&str, usize> = HashMap::new();
    for n in &m.classes { classes.entry(&n.name).or_insert(decls.len()); decls.push(Decl { nav: n.id, what: "class" }) }
    let mut refs = Vec::new();
    for r in &m.rules {
        let mut params: HashMap<&str, usize> = HashMap::new();
        for p in r.params.iter().flatten() { params.insert(&p.name, decls.len()); decls.push(Decl { nav: p.at, what: "parameter" }) }
        r.body.walk(None, &mut |e, _| match e {
            E::Ref { at, name } => {
                let n = name.as_str();
                let to = if let Some(&p) = params.get(n) { vec![p] } else if let Some(&r) = rules.get(n) { vec![r] } else { tokens.get(n).cloned().unwrap_or_default() };
                refs.push(Ref { at: *at, to, key: format!("token {}", name) });
            }
            E::Call { id, name, .. } => {
                let n = name.as_str();
                let to = if !builtin(n) && callable.get(n) == Some(&true) { vec![rules[n]] } else { vec![] };
                refs.push(Ref { at: *id, to, key: String::new() });
            }
            _ => {}
        });
    }
    for me in m.nodes.iter().flat_map(|n| &n.methods).chain(m.traits.iter().flat_map(|t| &t.methods)) {
        let n = me.child.as_str();
        let to = if me.suffix.ends_with(".text") { vec![] }
            else if let Some(&x) = nodes.get(n) { vec![x] } else if let Some(&x) = classes.get(n) { vec![x] }
            else { types.get(n).cloned().unwrap_or_default() };
        refs.push(Ref { at: me.sel, to, key: format!("type {}", n) });
    }
    (decls, refs)
}

fn inside(c: &mut Case, text: &str, at: Sp) -> usize {
    // the end belongs to the name, its start only after a blank
    let blank = text[..at.0].chars().next_back().map_or(true, |ch| ch.is_whitespace());
    if blank && c.rng.chance(1, 4) { return at.0 }
    if c.rng.chance(1, 3) { return at.1 }
    let mut o = at.0 + 1 + c.rng.below(at.1 - at.0);
    while !text.is_char_boundary(o) { o += 1 }
    o.min(at.1)
}

fn case(c: &mut Case) -> Res {
    let size = c.rng.range(1, 9);
    let slips = c.rng.below(5);
    let m = fallgen::model(&mut c.rng, size, slips);
    let text = m.text.clone();
    c.input(&text);
    let ed = c.guard("opening", &|| text.clone(), || Ed::parse(Kind::Fall, &text))?;
    if T::of_file(ed.file()).has_ty(fall_tree::ERROR) { c.count("files that did not parse", 1); return Ok(()) }
    let (decls, refs) = scope(&m);
    let at = |s: Sp| format!("{}..{} {:?}", s.0, s.1, &text[s.0..s.1]);

    // definitions first or usages first: answers are remembered inside
    let mut order: Vec<(bool, usize)> = (0..refs.len()).map(|i| (true, i)).chain((0..decls.len()).map(|i| (false, i))).collect();
    c.rng.shuffle(&mut order);
    order.truncate(40);
    let mut chosen: HashMap<String, usize> = HashMap::new();
    // where a name has several tokens, the definition is any of them, but always the same
    for r in &refs {
        if r.to.len() > 1 && !chosen.contains_key(&r.key) {
            let o = r.at.0 + 1;
            let o = (o..=r.at.1).find(|&o| text.is_char_boundary(o)).unwrap();
            let got = c.guard("resolve_reference", &|| text.clone(), || ed.ask(&Q::Resolve(o)))?.ranges.get(0).cloned();
            let hit = r.to.iter().cloned().find(|&d| Some(decls[d].nav) == got);
            c.ensure(hit.is_some(), "a reference has the wrong definition", || format!("{} goes to {:?}\n--- text ---\n{}", at(r.at), got, text))?;
            chosen.insert(r.key.clone(), hit.unwrap());
        }
    }
    let target = |r: &Ref| -> Option<usize> { if r.to.len() > 1 { chosen.get(&r.key).cloned() } else { r.to.get(0).cloned() } };
    let usages = |d: usize| -> Vec<Sp> {
        let mut v: Vec<Sp> = refs.iter().filter(|r| target(r) == Some(d)).map(|r| r.at).collect();
        v.sort();
        v
    };
    for (is_ref, i) in order {
        if is_ref {
            let r = &refs[i];
            let t = target(r);
            let name = if text.as_bytes()[r.at.1 - 1] == b't' && text[r.at.0..r.at.1].ends_with(".text") { (r.at.0, r.at.0 + 1) } else { r.at };
            let o = inside(c, &text, name);
            if c.rng.chance(3, 4) {
                let got = c.guard("resolve_reference", &|| text.clone(), || ed.ask(&Q::Resolve(o)))?.ranges.get(0).cloned();
                c.eval();
                let want = t.map(|d| decls[d].nav);
                c.ensure(got == want, if want.is_none() { "an undefined name has a definition" } else { "a reference has the wrong definition" },
                    || format!("{} asked at {} goes to {:?}, expected {:?}\n--- text ---\n{}", at(r.at), o, got.map(at), want.map(at), text))?;
                if let Some(d) = t {
                    c.count(&format!("references to a {}", decls[d].what), 1);
                    c.nontrivial(&format!("{} {}", r.at.0, text));
                    c.sample(|| format!("{} -> {} {}\n{}", at(r.at), decls[d].what, at(decls[d].nav), text));
                } else { c.count("references to nothing", 1) }
            }
            if c.rng.chance(1, 2) {
                let mut got = c.guard("find_usages", &|| text.clone(), || ed.ask(&Q::Usages(o)))?.ranges;
                got.sort();
                c.eval();
                let want = t.map_or(vec![], |d| usages(d));
                c.ensure(got == want, "usages asked from a usage are wrong", || format!("{} asked at {}: {:?}, expected {:?}\n--- text ---\n{}", at(r.at), o, got, want, text))?;
                c.count("usages asked from references", 1);
            }
        } else {
            let d = &decls[i];
            let o = inside(c, &text, d.nav);
            let mut got = c.guard("find_usages", &|| text.clone(), || ed.ask(&Q::Usages(o)))?.ranges;
            got.sort();
            c.eval();
            let want = usages(i);
            c.ensure(got == want, "usages of a declaration are wrong", || format!("{} {} asked at {}: {:?}, expected {:?}\n--- text ---\n{}", d.what, at(d.nav), o, got, want, text))?;
            c.count(&format!("usages of a {}", d.what), 1);
            c.max("most usages of one declaration", want.len() as u64);
        }
    }
    for &k in m.neutral.iter().take(6) {
        if k.1 - k.0 < 3 { continue }
        let o = k.0 + 1;
        let a = c.guard("resolve_reference", &|| text.clone(), || ed.ask(&Q::Resolve(o)))?.ranges;
        let b = c.guard("find_usages", &|| text.clone(), || ed.ask(&Q::Usages(o)))?.ranges;
        c.eval();
        c.ensure(a.is_empty() && b.is_empty(), "a keyword has a definition or usages", || format!("{}: {:?} {:?}\n--- text ---\n{}", at(k), a, b, text))?;
    }
    Ok(())
}
