use std::any::Any;

use fall_parse::{Expr, ExprRef, LexRule, NodeTypeRef, ParserDefinition, RegexLexer};
use fall_tree::{tu, Language, LanguageImpl, Metrics, NodeType, NodeTypeInfo, Text, TextEdit, TreeBuilder};

use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::{edits, texts};
use crate::langs::{ty_name, Kind, KINDS};
use crate::model::lex::{self, lit, one_of, none_of, opt, plus, star, uni, Custom, Rule, Rx, Shipped, Tok};
use crate::rng::Rng;
use crate::tree::{end, start};
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C05", plan, case, finish: None,
        rule: "a random text of a shipped language, or a random set of lexical rules (regular and custom) with texts over their alphabet; the leaves of the parse tree are compared with the tokens of a reference lexer. Non-trivial: at least 3 tokens; distinct by rules and text.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 40_000, 18.0, 60) }

thread_local! { static SHIPPED: Vec<Shipped> = KINDS.iter().map(|&k| lex::shipped(k)).collect() }

fn case(c: &mut Case) -> Res {
    if c.idx % 2 == 0 { shipped(c) } else { random(c) }
}

fn note(c: &mut Case, seen: &lex::Seen, toks: &[Tok]) {
    c.count("tokens", toks.len() as u64);
    c.count("positions where several rules match", seen.contests);
    c.count("positions with a tie", seen.ties);
    c.count("custom functions asked", seen.customs);
    c.count("custom functions that refused", seen.refused);
    c.count("error tokens", seen.errors);
}

fn leaves(file: &fall_tree::File) -> Vec<(&'static str, usize, usize)> {
    let mut out = Vec::new();
    let mut stack = vec![file.root()];
    while let Some(n) = stack.pop() {
        let ch: Vec<_> = n.children().collect();
        if ch.is_empty() && start(n) < end(n) { out.push((ty_name(file, n), start(n), end(n))) }
        for x in ch.into_iter().rev() { stack.push(x) }
    }
    out
}

fn shipped(c: &mut Case) -> Res {
    let kind: Kind = if c.rng.chance(1, 3) { *c.rng.pick(&[Kind::Rust, Kind::Fall]) } else { *c.rng.pick(&KINDS) };
    let mut text = texts::text(&mut c.rng, kind, 600);
    if c.rng.chance(1, 3) {
        // pieces of tokens glued together
        let mut s = String::new();
        for _ in 0..c.rng.range(1, 25) { let p = edits::insertion(&mut c.rng, kind); s.push_str(&p) }
        text = texts::tame(kind, s);
    }
    if c.rng.chance(1, 40) { let t = texts::stretch(&mut c.rng, kind, &text); text = texts::tame(kind, t) }
    c.max("longest text", text.len() as u64);
    c.input(&text);
    let (toks, seen) = SHIPPED.with(|s| lex::tokens(&s[KINDS.iter().position(|&k| k == kind).unwrap()].rules, &text));
    note(c, &seen, &toks);
    c.max("longest token", toks.iter().map(|t| t.end - t.start).max().unwrap_or(0) as u64);
    c.eval();
    let file = { let t = text.clone(); c.guard("parse", &|| t.clone(), || kind.lang().parse(t.as_str()))? };
    let got = leaves(&file);
    let contextual = SHIPPED.with(|s| s[KINDS.iter().position(|&k| k == kind).unwrap()].contextual);
    let mut i = 0;
    let mut bad = None;
    for &(name, s, e) in &got {
        let t = match toks.get(i) { Some(t) => t, None => { bad = Some(format!("a leaf {} {}..{} after the last token", name, s, e)); break } };
        if contextual.contains(&name) {
            // one token, or several glued ones, whose text the parser turned into another type
            if t.start != s { bad = Some(format!("{} {}..{} starts inside of {:?}", name, s, e, t)); break }
            while i < toks.len() && toks[i].end <= e { i += 1 }
            if i == 0 || toks[i - 1].end != e { bad = Some(format!("{} {}..{} ends inside of a token", name, s, e)); break }
            c.count("contextual tokens", 1);
            continue;
        }
        if t.name != name || t.start != s || t.end != e { bad = Some(format!("leaf {} {}..{}, reference lexer {:?}", name, s, e, t)); break }
        i += 1;
    }
    if bad.is_none() && i != toks.len() { bad = Some(format!("{} tokens of {} seen", i, toks.len())) }
    if let Some(b) = bad {
        c.violation("tokens are not the longest matches", format!("{}: {}\n--- text ---\n{}", kind.name(), b, text));
        return Ok(());
    }
    if toks.len() >= 3 { let k = format!("{}{}", kind.name(), text); c.nontrivial(&k) }
    c.count(&format!("texts of {}", kind.name()), 1);
    c.sample(|| format!("{}: {:?}", kind.name(), text));
    Ok(())
}

// ---------------------------------------------------------------- random rules

const TOK_NAMES: &[&str] = &["T0", "T1", "T2", "T3", "T4", "T5", "T6", "T7", "T8", "T9"];
const PIECES: &[&str] = &["a", "b", "ab", "aa", "abc", "c", "0", "1", "01", "_", "é", "☃", " ", "\n", "(", ")", "\"", "if", "é☃", "ﬁ"];

fn rx(rng: &mut Rng, d: usize) -> Rx {
    match rng.below(if d > 2 { 3 } else { 8 }) {
        0 | 1 => lit(*rng.pick(PIECES)),
        2 => match rng.below(8) {
            0 => uni(r"\w"), 1 => uni(r"\s"), 2 => uni(r"\d"), 3 => one_of("ab"), 4 => one_of("bc\"("), 5 => none_of("a\n"), 6 => none_of("\""), _ => one_of("aé☃"),
        },
        3 | 4 => Rx::Seq((0..rng.range(1, 3)).map(|_| rx(rng, d + 1)).collect()),
        5 => Rx::Alt((0..rng.range(2, 3)).map(|_| rx(rng, d + 1)).collect()),
        6 => { let x = rx(rng, d + 1); if x.nullable() { x } else { match rng.below(2) { 0 => star(x), _ => plus(x) } } }
        _ => opt(rx(rng, d + 1)),
    }
}

fn to_close(s: &str) -> Option<usize> { s.find(')').map(|i| i + 1) }
fn to_quote(s: &str) -> Option<usize> { s.char_indices().skip(1).find(|c| c.1 == '"').map(|c| c.0 + 1) }
fn one_char(s: &str) -> Option<usize> { s.chars().next().map(|c| c.len_utf8()) }
fn never(_: &str) -> Option<usize> { None }
fn all(s: &str) -> Option<usize> { Some(s.len()) }
fn three_chars(s: &str) -> Option<usize> { s.char_indices().nth(2).map(|(i, c)| i + c.len_utf8()) }
const CUSTOM: &[Custom] = &[to_close, to_quote, one_char, never, all, three_chars];

const BASE: u32 = 400;
const FILE: u32 = BASE + 50;

fn info(ty: NodeType) -> NodeTypeInfo {
    let name = if ty.0 == 0 { lex::ERROR } else if ty.0 == FILE { "FILE" } else { TOK_NAMES[(ty.0 - BASE) as usize] };
    NodeTypeInfo { name, whitespace_like: false }
}

struct Info;
impl LanguageImpl for Info {
    fn parse(&self, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { panic!("harness") }
    fn reparse(&self, _: &dyn Any, _: &TextEdit, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { panic!("harness") }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { info(ty) }
}
struct Flat { lexer: RegexLexer, def: ParserDefinition, info: Language }
impl LanguageImpl for Flat {
    fn parse(&self, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        fall_parse::parse(&self.info, &self.lexer, &self.def, text, metrics, builder)
    }
    fn reparse(&self, data: &dyn Any, edit: &TextEdit, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        fall_parse::reparse(&self.info, &self.lexer, &self.def, data, edit, text, metrics, builder)
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { info(ty) }
}

fn random(c: &mut Case) -> Res {
    let n = c.rng.range(1, TOK_NAMES.len());
    let mut rules: Vec<Rule> = Vec::new();
    for i in 0..n {
        let mut x = if i > 0 && c.rng.chance(1, 4) { let j = c.rng.below(i); rules[j].rx.clone() } else { rx(&mut c.rng, 0) };
        if x.nullable() { x = Rx::Seq(vec![lit(*c.rng.pick(PIECES)), x]) }
        let f = if c.rng.chance(1, 4) { Some(*c.rng.pick(CUSTOM)) } else { None };
        rules.push(Rule { name: TOK_NAMES[i], rx: if let Rx::Re(..) = x { x } else { x.compile() }, f });
    }
    let shown = rules.iter().map(|r| format!("{} {:?}{}", r.name, r.rx.source(), match r.f { Some(f) => format!(" custom {}", CUSTOM.iter().position(|&g| g as usize == f as usize).unwrap()), None => String::new() })).collect::<Vec<_>>().join("\n");
    c.input(&shown);
    let lang = c.guard("building the lexer", &|| shown.clone(), || {
        let lexer = RegexLexer::new(rules.iter().enumerate().map(|(i, r)| LexRule::new(NodeType(BASE + i as u32), &r.rx.source(), r.f)).collect());
        let def = ParserDefinition {
            node_types: vec![NodeType(FILE)],
            syntactical_rules: vec![Expr::Pub { ty: NodeTypeRef(0), body: ExprRef(1), replaceable: false }, Expr::Rep(ExprRef(2)), Expr::Any],
            ..Default::default()
        };
        Language::new(Flat { lexer, def, info: Language::new(Info) })
    })?;
    c.count("rule sets", 1);
    for _ in 0..12 {
        let mut text = String::new();
        let k = c.rng.size(30);
        for _ in 0..k { text.push_str(*c.rng.pick(PIECES)) }
        if c.rng.chance(1, 60) && rules.iter().all(|r| r.f.is_none()) {
            let at = texts::boundary(&mut c.rng, &text);
            let p = *c.rng.pick(PIECES);
            let n = texts::length(&mut c.rng, 15) / p.len();
            text.insert_str(at, &p.repeat(n));
        }
        let input = format!("{}\n--- text ---\n{:?}", shown, text);
        c.input(&input);
        let (toks, seen) = lex::tokens(&rules, &text);
        note(c, &seen, &toks);
        c.max("longest token", toks.iter().map(|t| t.end - t.start).max().unwrap_or(0) as u64);
        c.eval();
        let file = c.guard("parse", &|| input.clone(), || lang.parse(text.as_str()))?;
        let want: Vec<_> = toks.iter().map(|t| (t.name, t.start, t.end)).collect();
        let got = leaves(&file);
        if got != want {
            c.violation("tokens are not the longest matches", format!("{}\n--- lexer ---\n{:?}\n--- reference ---\n{:?}", input, got, want));
            return Ok(());
        }
        // and after an edit
        if c.rng.chance(1, 3) && !text.is_empty() {
            let at = texts::boundary(&mut c.rng, &text);
            let p = *c.rng.pick(PIECES);
            let ops = vec![edits::Op { start: at, end: at, insert: p.to_string() }];
            let new = edits::apply(&text, &ops);
            let edit = edits::build(&text, &ops);
            // what lies before the edit may be kept although it would be lexed differently (see C03); only coverage is judged here
            let file = c.guard("reparse", &|| format!("{}\n--- edit ---\n{:?}", input, ops), || file.edit(&edit))?;
            let ok = leaves(&file).iter().fold(Some(0), |p, &(_, s, e)| if p == Some(s) { Some(e) } else { None }) == Some(new.len());
            c.ensure(ok && us(file.text().len()) == new.len(), "tokens do not cover the edited text", || format!("{}\n--- edit ---\n{:?}", input, ops))?;
        }
        if toks.len() >= 3 { c.nontrivial(&input) }
        c.sample(|| input.clone());
    }
    Ok(())
}

fn us(t: fall_tree::TextUnit) -> usize { let _ = tu; t.utf8_len() }
