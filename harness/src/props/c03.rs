use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::{edits, grammars, texts};
use crate::langs::Kind;
use crate::tree::{namer, T};
use fall_tree::{Language, TextEdit, TextEditOp};
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C03", plan, case, finish: None,
        rule: "an edit history (1..12 edits of 1..3 operations each, through the builder or as raw operations) over a text of a random shipped language; after every edit the tree is compared with a fresh parse. Non-trivial: the edit keeps some text; distinct by old text and edit.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 16_000, 18.0, 60) }

/// The relexer keeps a token in front of an edit although what follows the edit would now make it longer.
pub const LOOKAHEAD: &str = "relex keeps a token before an edit whose lexing depends on text after it";

fn case(c: &mut Case) -> Res {
    if c.idx < PINNED.len() as u64 { return pinned(c); }
    if c.idx % 4 == 1 { return random_grammar(c); }
    // Languages with cached rules get most of the histories.
    let kind = *c.rng.pick(&[Kind::Rust, Kind::Rust, Kind::Rust, Kind::Rust, Kind::Fall, Kind::Fall, Kind::Json, Kind::Bnf, Kind::Arith, Kind::Sexp, Kind::Weird]);
    let max = if c.idx % 30 == 0 { 20_000 } else { 900 };
    let mut text = texts::text(&mut c.rng, kind, max);
    c.input(&text);
    let mut file = { let t = text.clone(); c.guard("parse", &|| t.clone(), || kind.lang().parse(t.as_str()))? };
    let steps = c.rng.range(1, 12);
    let mut history = String::new();
    let mut undo: Vec<String> = Vec::new();
    for step in 0..steps {
        let n = if c.rng.chance(2, 3) { 1 } else { c.rng.range(1, 3) };
        let ops = if undo.len() > 0 && c.rng.chance(1, 6) {
            // back to an earlier text: the whole difference as one replacement
            let old = undo[c.rng.below(undo.len())].clone();
            diff_ops(&text, &old)
        } else {
            edits::ops(&mut c.rng, &text, n, &mut |r| edits::insertion(r, kind))
        };
        let new_text = edits::apply(&text, &ops);
        if texts::too_hard(kind, &new_text) { break }
        let edit = if c.rng.chance(2, 3) { edits::build(&text, &ops) } else { edits::raw(&mut c.rng, &text, &ops) };
        history = format!("{}\n--- text before ---\n{}\n--- edit {} ---\n{:?}", kind.name(), text, step, edit);
        c.input(&history);
        let (new_file, fresh) = step_and_compare(c, &kind.lang(), &file, &text, &edit, &new_text, &history)?;
        if ops.iter().map(|o| o.end - o.start).sum::<usize>() < text.len() { let k = history.clone(); c.nontrivial(&k) }
        c.count("edits", 1);
        c.count(&format!("edits of {}", kind.name()), 1);
        if let (Some(x), Some(y)) = (new_file.metrics().get("parsing ticks"), fresh.metrics().get("parsing ticks")) {
            if x < y { c.count("edits that reused cached parses", 1) }
            c.count("parser steps saved", y.saturating_sub(x));
        }
        if let Some(x) = new_file.metrics().get("relexed region") { if (x as usize) < new_text.len() && x > 0 { c.count("edits that reused tokens", 1) } }
        undo.push(text);
        text = new_text;
        file = new_file;
    }
    c.sample(|| history.clone());
    Ok(())
}

pub fn diff_ops(from: &str, to: &str) -> Vec<edits::Op> {
    let mut p = from.bytes().zip(to.bytes()).take_while(|(a, b)| a == b).count();
    while !from.is_char_boundary(p) || !to.is_char_boundary(p) { p -= 1 }
    let mut s = from[p..].bytes().rev().zip(to[p..].bytes().rev()).take_while(|(a, b)| a == b).count();
    while !from.is_char_boundary(from.len() - s) || !to.is_char_boundary(to.len() - s) { s -= 1 }
    vec![edits::Op { start: p, end: from.len() - s, insert: to[p..to.len() - s].to_string() }]
}

fn step_and_compare(c: &mut Case, lang: &Language, file: &fall_tree::File, text: &str, edit: &TextEdit, new_text: &str, history: &str) -> Result<(fall_tree::File, fall_tree::File), crate::ctx::Abort> {
    c.eval();
    let new_file = c.guard("reparse", &|| history.to_string(), || file.edit(edit))?;
    let fresh = c.guard("parse", &|| new_text.to_string(), || lang.parse(new_text))?;
    c.ensure(new_file.text().to_string() == new_text, "the edited file has another text", || history.to_string())?;
    let (a, b) = (T::of_file(&new_file), T::of_file(&fresh));
    if a != b {
        let name = namer(&fresh);
        let d = a.diff(&b, &name).unwrap_or_default();
        let detail = format!("{}\n--- difference (incremental vs fresh) ---\n{}\n--- incremental ---\n{}--- fresh ---\n{}", history, d, a.dump(&name, new_text), b.dump(&name, new_text));
        let old = T::of_file(file);
        let sig = if looks_ahead(&old, &a, &b, edit, new_text) { LOOKAHEAD } else { "incremental tree differs from fresh tree" };
        c.violation(sig, detail);
        return Err(crate::ctx::Abort);
    }
    let _ = text;
    if let (Some(x), Some(y)) = (new_file.metrics().get("parsing ticks"), fresh.metrics().get("parsing ticks")) {
        if x < y { c.count("edits that reused cached parses", 1) }
        c.count("parser steps saved", y.saturating_sub(x));
    }
    if let Some(x) = new_file.metrics().get("relexed region") { if (x as usize) < new_text.len() && x > 0 { c.count("edits that reused tokens", 1) } }
    Ok((new_file, fresh))
}

fn leaves(t: &T) -> Vec<(u32, usize, usize)> {
    let mut out = Vec::new();
    t.walk(&mut |n| if n.ch.is_empty() && n.start < n.end { out.push((n.ty, n.start, n.end)) });
    out
}

/// Is the first difference a token of the old text, wholly inside a kept piece and not touching its end, which
/// a fresh lexer makes into a longer one that reaches past the kept piece?
pub fn looks_ahead(old: &T, incremental: &T, fresh: &T, edit: &TextEdit, new_text: &str) -> bool {
    let (a, b, o) = (leaves(incremental), leaves(fresh), leaves(old));
    let i = match a.iter().zip(b.iter()).position(|(x, y)| x != y) { Some(i) => i, None => return false };
    let (inc, fre) = (a[i], b[i]);
    // A lexer's error is one, too: a custom rule that matched and then gave up.
    let gave_up = fre.0 == 0 && inc.0 != 0;
    if fre.1 != inc.1 || (fre.2 <= inc.2 && !gave_up) { return false; }
    if !gave_up && new_text[fre.1..fre.2].chars().all(|c| c.is_ascii_punctuation() && !"\"'#".contains(c)) { return false; }
    let mut at = 0;
    for op in &edit.ops {
        match op {
            TextEditOp::Insert(t) => at += t.as_text().len().utf8_len(),
            TextEditOp::Copy(r) => {
                let (s, e) = (r.start().utf8_len(), r.end().utf8_len());
                let new_end = at + (e - s);
                if at <= inc.1 && inc.2 < new_end && (fre.2 > new_end || gave_up) {
                    let moved = (inc.0, inc.1 - at + s, inc.2 - at + s);
                    if o.contains(&moved) { return true; }
                }
                at = new_end;
            }
        }
    }
    false
}

/// Inputs of known findings, always executed.
const PINNED: &[(Kind, &str, &str)] = &[
    (Kind::Rust, "const A: char = 'abc{}", "'"),
];

fn pinned(c: &mut Case) -> Res {
    let (kind, text, more) = PINNED[c.idx as usize];
    let ops = vec![edits::Op { start: text.len(), end: text.len(), insert: more.to_string() }];
    let edit = edits::build(text, &ops);
    let new_text = edits::apply(text, &ops);
    let file = c.guard("parse", &|| text.to_string(), || kind.lang().parse(text))?;
    let history = format!("{}\n--- text before ---\n{}\n--- edit ---\n{:?}", kind.name(), text, edit);
    step_and_compare(c, &kind.lang(), &file, text, &edit, &new_text, &history)?;
    c.nontrivial(&history);
    Ok(())
}

/// Grammars whose cached rules keep their contract: no context, and a last token that closes them.
fn random_grammar(c: &mut Case) -> Res {
    let rules = grammars::cached_grammar(&mut c.rng);
    let shown = grammars::show(&rules);
    c.input(&shown);
    let lang = c.guard("building the language", &|| shown.clone(), || grammars::language(&rules))?;
    let mut text = grammars::cached_text(&mut c.rng, &rules);
    let mut file = c.guard("parse", &|| format!("{}\n{}", shown, text), || lang.parse(text.as_str()))?;
    for step in 0..c.rng.range(2, 14) {
        let n = if c.rng.chance(2, 3) { 1 } else { c.rng.range(1, 3) };
        let ops = edits::ops(&mut c.rng, &text, n, &mut |r| grammars::cached_insertion(r, &rules));
        let new_text = edits::apply(&text, &ops);
        // Grammars without commit may take exponential time on what is left open.
        if new_text.len() > 4000 || nesting(&new_text) > 9 { break }
        let edit = if c.rng.chance(1, 2) { edits::build(&text, &ops) } else { edits::raw(&mut c.rng, &text, &ops) };
        let history = format!("{}\n--- text before ---\n{}\n--- edit {} ---\n{:?}", shown, text, step, edit);
        c.input(&history);
        let (f, _) = step_and_compare(c, &lang, &file, &text, &edit, &new_text, &history)?;
        if ops.iter().map(|o| o.end - o.start).sum::<usize>() < text.len() { c.nontrivial(&history) }
        c.count("edits in random grammars", 1);
        text = new_text;
        file = f;
    }
    Ok(())
}

fn nesting(text: &str) -> i64 {
    let (mut d, mut m) = (0i64, 0);
    for c in text.chars() {
        if "({".contains(c) { d += 1 }
        if ")}".contains(c) && d > 0 { d -= 1 }
        m = m.max(d);
    }
    m
}
