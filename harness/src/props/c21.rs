use std::any::Any;
use std::cell::Cell;
use fall_parse::{Expr, ExprRef, LexRule, NodeTypeRef, ParserDefinition, RegexLexer};
use fall_tree::{Language, LanguageImpl, Metrics, NodeType, NodeTypeInfo, Text, TextEdit, TreeBuilder};
use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::{edits, programs, texts};
use crate::langs::{is_ws, Kind};
use crate::tree::{end, start, T};
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C21", plan, case, finish: None,
        rule: "a large error-free Rust or fall file made of many generated items; an edit inside one item that leaves the file error-free; the library's own work counters (relexed bytes, parser steps) of the reparse are compared with the neighbourhood of the edit, the edited item alone and the number of items. every fourth case edits words of a runtime language whose lexer counts its own calls. Non-trivial: at least 20 items; distinct by text and edit.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 400, 22.0, 60) }

fn case(c: &mut Case) -> Res {
    if c.idx % 4 == 3 { counted(c) } else { shipped(c) }
}

thread_local! { static WORDS: Cell<u64> = Cell::new(0) }

/// The custom rule of a token: counts how often the lexer asks.
fn word(s: &str) -> Option<usize> {
    WORDS.with(|w| w.set(w.get() + 1));
    Some(s.find(|c: char| !c.is_ascii_lowercase()).unwrap_or_else(|| s.len()))
}

const BASE: u32 = 4000;
fn info(ty: NodeType) -> NodeTypeInfo {
    const NAMES: [&str; 6] = ["FILE", "WS", "WORD", "NUMBER", "SIGN", "ITEM"];
    NodeTypeInfo { name: if ty == fall_tree::ERROR { "ERROR" } else { NAMES[(ty.0 - BASE) as usize] }, whitespace_like: ty.0 == BASE + 1 }
}
struct Info;
impl LanguageImpl for Info {
    fn parse(&self, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { panic!("harness") }
    fn reparse(&self, _: &dyn Any, _: &TextEdit, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { panic!("harness") }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { info(ty) }
}
struct Counted { lexer: RegexLexer, def: ParserDefinition, info: Language }
impl LanguageImpl for Counted {
    fn parse(&self, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        fall_parse::parse(&self.info, &self.lexer, &self.def, text, metrics, builder)
    }
    fn reparse(&self, data: &dyn Any, edit: &TextEdit, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        fall_parse::reparse(&self.info, &self.lexer, &self.def, data, edit, text, metrics, builder)
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { info(ty) }
}

/// Counts the work of the lexer itself: how often a rule with a custom function is asked.
fn counted(c: &mut Case) -> Res {
    let lang = c.guard("building the language", &|| String::new(), || {
        let rules = vec![(1, r"[ \n]+", None), (2, "[a-z]+", Some(word as fn(&str) -> Option<usize>)), (3, "[0-9]+", None), (4, "[;,.()+-]", None)];
        let lexer = RegexLexer::new(rules.into_iter().map(|(t, re, f)| LexRule::new(NodeType(BASE + t), re, f)).collect());
        // any tokens up to a `;` are an item
        let def = ParserDefinition {
            node_types: vec![NodeType(BASE), NodeType(BASE + 5), NodeType(BASE + 4)],
            syntactical_rules: vec![
                Expr::Pub { ty: NodeTypeRef(0), body: ExprRef(1), replaceable: false },
                Expr::Rep(ExprRef(2)),
                Expr::Pub { ty: NodeTypeRef(1), body: ExprRef(3), replaceable: true },
                // up to a `;`, or what is left behind the last one
                Expr::Or(vec![ExprRef(4), ExprRef(5)]),
                Expr::And(vec![ExprRef(6), ExprRef(7)], None),
                Expr::And(vec![ExprRef(9), ExprRef(6)], None),
                Expr::Rep(ExprRef(8)),
                Expr::ContextualToken(NodeTypeRef(2), ";".to_string()),
                Expr::And(vec![ExprRef(10), ExprRef(9)], None),
                Expr::Any,
                Expr::Not(ExprRef(7)),
            ],
            ..Default::default()
        };
        Language::new(Counted { lexer, def, info: Language::new(Info) })
    })?;
    const PIECES: [&str; 14] = ["a", "foo", "bar ", "12", "3", " ", "\n", "  ", ";", ",", "(", ")", "x y", "+ quux"];
    let mut text = String::new();
    let words = c.rng.range(500, 4000);
    for _ in 0..words {
        text.push_str(*c.rng.pick(&PIECES));
        if c.rng.chance(1, 2) { text.push(' ') }
        if c.rng.chance(1, 12) { text.push_str(";\n") }
    }
    let mut file = { let t = text.clone(); c.guard("parse", &|| t.clone(), || lang.parse(t.as_str()))? };
    for _ in 0..10 {
        let (a, b) = texts::span(&mut c.rng, &text, 12);
        let mut insert = String::new();
        for _ in 0..c.rng.below(4) { insert.push_str(*c.rng.pick(&PIECES)) }
        let op = edits::Op { start: a, end: b, insert };
        let ops = vec![op.clone()];
        let new_text = edits::apply(&text, &ops);
        let input = format!("{} bytes; edit {:?}\n--- around ---\n{:?}", text.len(), op, &text[a.saturating_sub(60)..(b + 60).min(text.len())]);
        c.input(&input);
        let edit = edits::build(&text, &ops);
        WORDS.with(|w| w.set(0));
        let next = c.guard("reparse", &|| input.clone(), || file.edit(&edit))?;
        let asked = WORDS.with(|w| w.get());
        WORDS.with(|w| w.set(0));
        let fresh = c.guard("parse", &|| input.clone(), || lang.parse(new_text.as_str()))?;
        let all = WORDS.with(|w| w.get());
        c.eval();
        c.ensure(next.text().to_string() == new_text && T::of_file(&next) == T::of_file(&fresh), "a reparse differs from a parse", || input.clone())?;
        c.count("edits with counted words", 1);
        c.count("words lexed again", asked);
        c.count("words lexed by full parses", all);
        c.max("words lexed again after an edit", asked);
        if all < 100 { continue }
        if asked > 12 + op.insert.len() as u64 * 2 {
            c.violation("relexing is not local", format!("the lexer asked for {} words, a full parse asks for {}\n{}", asked, all, input));
            return Ok(());
        }
        c.nontrivial(&input);
        text = new_text;
        file = next;
    }
    Ok(())
}

fn shipped(c: &mut Case) -> Res {
    let kind = *c.rng.pick(&[Kind::Rust, Kind::Rust, Kind::Fall]);
    let target = if c.idx % 40 == 7 { 120_000 } else { c.rng.range(3000, 30_000) };
    let mut text = String::new();
    // a few programs, repeated: size without the cost of generating it
    let parts: Vec<String> = (0..12).map(|_| { let n = c.rng.range(10, 60); programs::valid(&mut c.rng, kind, n) }).collect();
    // the items whose parses the grammar keeps
    let parts: Vec<String> = if kind == Kind::Rust { parts } else {
        parts.iter().flat_map(|p| kind.lang().parse(p.as_str()).root().children().filter(|&n| n.ty() == lang_fall_syntax::SYN_RULE).map(|n| n.text().to_string()).collect::<Vec<_>>()).collect()
    };
    if parts.is_empty() { return Ok(()) }
    while text.len() < target { let i = c.rng.below(parts.len()); text.push_str(&parts[i]); text.push_str("\n\n") }
    let mut file = { let t = text.clone(); c.guard("parse", &|| t.clone(), || kind.lang().parse(t.as_str()))? };
    for _ in 0..10 {
        let full = file.metrics().get("parsing ticks").unwrap_or(0);
        let _ = full;
        if T::of_file(&file).has_ty(fall_tree::ERROR) { c.count("files skipped: not clean", 1); return Ok(()) }
        let items: Vec<_> = file.root().children().filter(|&n| !is_ws(n)).collect();
        if items.is_empty() { return Ok(()) }
        let item = *c.rng.pick(&items);
        let (s, e) = (start(item), end(item));
        // leaves of the item
        let mut leaves = Vec::new();
        T::of(item).walk(&mut |n| if n.ch.is_empty() && n.start < n.end { leaves.push((n.ty, n.start, n.end)) });
        if leaves.len() < 3 { continue }
        let i = c.rng.range(1, leaves.len() - 1);
        let l = leaves[i];
        let word = |s: &str| s.chars().all(|c| c.is_alphanumeric() || c == '_');
        let here = text[l.1..l.2].to_string();
        let op = match c.rng.below(5) {
            0 if word(&here) => edits::Op { start: l.2, end: l.2, insert: c.rng.pick(&["x", "9", "_", "abc"]).to_string() },
            1 if word(&here) => edits::Op { start: l.1, end: l.2, insert: c.rng.pick(&["renamed", "q", "w1"]).to_string() },
            2 => edits::Op { start: l.1, end: l.1, insert: c.rng.pick(&[" ", "\n", "  "]).to_string() },
            3 => edits::Op { start: l.1, end: l.1, insert: " /* c */ ".to_string() },
            _ => {
                // the same again, or a part of another item of the file
                let j = c.rng.range(i, leaves.len() - 2.min(leaves.len() - i));
                let (a, b) = (l.1, leaves[j].2);
                if b - a > 300 { continue }
                let t = text[a..b].to_string();
                if c.rng.chance(1, 2) { edits::Op { start: b, end: b, insert: format!(" {}", t) } } else { edits::Op { start: a, end: b, insert: String::new() } }
            }
        };
        let ops = vec![op.clone()];
        let new_text = edits::apply(&text, &ops);
        let input = format!("{} file of {} bytes, {} items; edit {:?}\n--- item ---\n{}", kind.name(), text.len(), items.len(), op, &text[s..e]);
        c.input(&input);
        let edit = edits::build(&text, &ops);
        let n_items = items.len() as u64;
        let next = c.guard("reparse", &|| input.clone(), || file.edit(&edit))?;
        let tree = T::of_file(&next);
        if tree.has_ty(fall_tree::ERROR) { c.count("edits skipped: they introduce errors", 1); continue }
        let fresh = c.guard("parse", &|| input.clone(), || kind.lang().parse(new_text.as_str()))?;
        let get = |f: &fall_tree::File, n: &'static str| f.metrics().get(n);
        let (ticks, all, relexed) = match (get(&next, "parsing ticks"), get(&fresh, "parsing ticks"), get(&next, "relexed region")) {
            (Some(a), Some(b), Some(d)) => (a, b, d),
            _ => { c.violation("work is no longer measured", input); return Ok(()) }
        };
        c.eval();
        // the edited item by itself
        let delta = new_text.len() as i64 - text.len() as i64;
        let item_text = &new_text[s..(e as i64 + delta) as usize];
        let alone = c.guard("parse", &|| input.clone(), || kind.lang().parse(item_text))?;
        let own = get(&alone, "parsing ticks").unwrap_or(0);
        // tokens that touch the edit, and one more on each side
        let mut all_leaves = Vec::new();
        T::of_file(&file).walk(&mut |n| if n.ch.is_empty() && n.start < n.end { all_leaves.push((n.start, n.end)) });
        let a = all_leaves.iter().position(|l| l.1 >= op.start).unwrap_or(0).saturating_sub(3);
        let b = (all_leaves.iter().rposition(|l| l.0 <= op.end).unwrap_or(0) + 3).min(all_leaves.len() - 1);
        let near = (all_leaves[b].1 - all_leaves[a].0 + op.insert.len()) as u64;
        c.max("relexed bytes beyond the insertion", relexed.saturating_sub(op.insert.len() as u64));
        c.max("relexed region, percent of the neighbourhood", relexed * 100 / near.max(1));
        let extra = ticks.saturating_sub(own);
        c.max("parser steps per untouched item (x100)", extra * 100 / n_items);
        c.max("parser steps of a full parse per item", all / n_items);
        c.count("edits", 1);
        c.count("parser steps", ticks);
        c.count("parser steps of full parses", all);
        if relexed > near * 2 + 64 {
            c.violation("relexing is not local", format!("relexed {} bytes, the neighbourhood of the edit has {}\n{}", relexed, near, input));
            return Ok(());
        }
        if ticks > own * 2 + n_items * PER_ITEM + 500 {
            c.violation("reparsing is not local", format!("{} parser steps; the edited item alone takes {}, a full parse {}, the file has {} items\n{}", ticks, own, all, n_items, input));
            return Ok(());
        }
        if n_items >= 20 { c.nontrivial(&input) }
        c.sample(|| format!("{}\n{} steps, item alone {}, full parse {}", input, ticks, own, all));
        text = new_text;
        file = next;
    }
    Ok(())
}

const PER_ITEM: u64 = 60;
