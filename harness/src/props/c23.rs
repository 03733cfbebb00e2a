use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::programs::{self, X};
use crate::gen::texts;
use crate::langs::{Kind, KINDS};
use crate::model::lex;
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C23", plan, case, finish: None,
        rule: "a random well-formed program of a shipped language, generated together with its tree, printed in a random layout and parsed: the tree must come back without errors; and random JSON and BNF token texts, for which a separate recogniser says whether they belong to the language. Non-trivial: at least 10 nodes; distinct by language and text.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 40_000, 18.0, 60) }

fn case(c: &mut Case) -> Res {
    if c.idx % 4 == 3 { return membership(c); }
    let kind = if c.rng.chance(1, 2) { *c.rng.pick(&[Kind::Rust, Kind::Rust, Kind::Fall]) } else { *c.rng.pick(&KINDS) };
    let size = if c.idx % 50 == 0 { 400 } else { 10 + c.rng.below(60) };
    let x = programs::program(&mut c.rng, kind, size);
    for _ in 0..2 {
        let l = programs::random_layout(&mut c.rng);
        let text = programs::render(&mut c.rng, kind, &x, l);
        if texts::too_hard(kind, &text) { continue }
        let input = format!("{}\n--- text ---\n{}", kind.name(), text);
        c.input(&input);
        c.eval();
        let file = c.guard("parse", &|| input.clone(), || kind.lang().parse(text.as_str()))?;
        let got = programs::of_tree(file.root());
        if got != x {
            c.violation("a well-formed program is parsed differently", format!("{}\n--- difference (parsed vs expected) ---\n{}\n--- parsed ---\n{}--- expected ---\n{}", input, got.diff(&x).unwrap_or_default(), got.dump(), x.dump()));
            return Ok(());
        }
        c.count(&format!("programs of {}", kind.name()), 1);
        c.count("nodes", x.count() as u64);
        c.max("nodes in one program", x.count() as u64);
        if x.count() >= 10 { c.nontrivial(&input) }
        c.sample(|| input.clone());
        census(c, kind, &x);
    }
    Ok(())
}

fn census(c: &mut Case, kind: Kind, x: &X) {
    if let X::Node(name, ch) = x {
        if kind == Kind::Rust || kind == Kind::Fall { c.count(&format!("{} {}", kind.name(), name), 1) }
        for y in ch { census(c, kind, y) }
    }
}

/// Does the text belong to the language? Recognisers written from the languages' definitions.
fn json(toks: &[&str]) -> bool {
    fn value(t: &[&str], i: usize) -> Option<usize> {
        match *t.get(i)? {
            "NULL" | "BOOL" | "STRING" | "NUMBER" => Some(i + 1),
            "LBRACE" => {
                if t.get(i + 1) == Some(&"RBRACE") { return Some(i + 2); }
                let mut i = i + 1;
                loop {
                    if t.get(i) != Some(&"STRING") || t.get(i + 1) != Some(&"COLON") { return None; }
                    i = value(t, i + 2)?;
                    match *t.get(i)? { "COMMA" => i += 1, "RBRACE" => return Some(i + 1), _ => return None }
                }
            }
            "LBRACK" => {
                if t.get(i + 1) == Some(&"RBRACK") { return Some(i + 2); }
                let mut i = i + 1;
                loop {
                    i = value(t, i)?;
                    match *t.get(i)? { "COMMA" => i += 1, "RBRACK" => return Some(i + 1), _ => return None }
                }
            }
            _ => None,
        }
    }
    let _ = value;
    match toks.get(0) { Some(&"LBRACE") | Some(&"LBRACK") => value(toks, 0) == Some(toks.len()), _ => false }
}

/// prod* with prod = NONTERMINAL '->' alt ('|' alt)*, where a nonterminal before an arrow starts a production
fn bnf(toks: &[&str]) -> bool {
    let mut i = 0;
    while i < toks.len() {
        if toks[i] != "NONTERMINAL" || toks.get(i + 1) != Some(&"ARROW") { return false; }
        i += 2;
        loop {
            let from = i;
            while i < toks.len() && (toks[i] == "TERMINAL" || (toks[i] == "NONTERMINAL" && toks.get(i + 1) != Some(&"ARROW"))) { i += 1 }
            if i == from { return false; }
            if toks.get(i) == Some(&"PIPE") { i += 1 } else { break }
        }
    }
    true
}

fn membership(c: &mut Case) -> Res {
    let kind = if c.rng.chance(1, 2) { Kind::Json } else { Kind::Bnf };
    let shipped = lex::shipped(kind);
    for _ in 0..10 {
        let text = match c.rng.below(4) {
            0 => texts::soup(&mut c.rng, kind, 10),
            1 => texts::text(&mut c.rng, kind, 200),
            _ => {
                // one or two tokens away from a well-formed text
                let x = programs::program(&mut c.rng, kind, 8);
                let mut toks = Vec::new();
                x.tokens(&mut toks);
                let mut toks: Vec<String> = toks.into_iter().map(|s| s.to_string()).collect();
                for _ in 0..c.rng.range(0, 2) {
                    let at = c.rng.below(toks.len() + 1);
                    match c.rng.below(3) {
                        0 => { let v = c.rng.pick(texts::vocab(kind)).to_string(); toks.insert(at, v) }
                        1 => if at < toks.len() { toks.remove(at); },
                        _ => if at + 1 < toks.len() { toks.swap(at, at + 1) },
                    }
                }
                toks.join(" ")
            }
        };
        let (toks, _) = lex::tokens(&shipped.rules, &text);
        let names: Vec<&str> = toks.iter().map(|t| t.name).filter(|&n| n != "WHITESPACE").collect();
        let member = !names.contains(&lex::ERROR) && if kind == Kind::Json { json(&names) } else { bnf(&names) };
        let input = format!("{}\n--- text ---\n{}", kind.name(), text);
        c.input(&input);
        c.eval();
        let file = c.guard("parse", &|| input.clone(), || kind.lang().parse(text.as_str()))?;
        let error = has_error(&programs::of_tree(file.root()));
        c.count(if member { "texts in the language" } else { "texts outside of the language" }, 1);
        c.ensure(error != member, if member { "an error in a well-formed text" } else { "no error in a text outside of the language" },
            || format!("{}\n--- parsed ---\n{}", input, programs::of_tree(file.root()).dump()))?;
        c.nontrivial(&input);
    }
    Ok(())
}

fn has_error(x: &X) -> bool {
    match x { X::Tok(n, _) => *n == "ERROR", X::Node(n, ch) => *n == "ERROR" || ch.iter().any(has_error) }
}
