//! Reference lexer: a tiny backtracking matcher (first alternative first, greedy) and the longest-match rule.

use std::collections::HashMap;
use std::rc::Rc;
use crate::langs::Kind;

#[derive(Clone)]
pub enum Rx {
    Lit(String),
    /// regex source of the class and the predicate
    Class(String, Rc<dyn Fn(char) -> bool>),
    Seq(Vec<Rx>),
    Alt(Vec<Rx>),
    Star(Box<Rx>),
    Plus(Box<Rx>),
    Opt(Box<Rx>),
    /// A whole pattern, matched by the regex crate (random patterns, whose matches are the crate's business).
    Re(String, regex::Regex),
}

pub fn lit(s: &str) -> Rx { Rx::Lit(s.to_string()) }
pub fn star(x: Rx) -> Rx { Rx::Star(Box::new(x)) }
pub fn plus(x: Rx) -> Rx { Rx::Plus(Box::new(x)) }
pub fn opt(x: Rx) -> Rx { Rx::Opt(Box::new(x)) }
pub fn none_of(cs: &'static str) -> Rx {
    let src: String = cs.chars().map(|c| if c == '\n' { "\\n".to_string() } else if "\\]^[-'\"".contains(c) { format!("\\x{:02x}", c as u32) } else { c.to_string() }).collect();
    Rx::Class(format!("[^{}]", src), Rc::new(move |c| !cs.contains(c)))
}
pub fn one_of(cs: &'static str) -> Rx {
    let src: String = cs.chars().map(|c| if c == '\n' { "\\n".to_string() } else if "\\]^[-'\"".contains(c) { format!("\\x{:02x}", c as u32) } else { c.to_string() }).collect();
    Rx::Class(format!("[{}]", src), Rc::new(move |c| cs.contains(c)))
}
/// Unicode classes: membership of single characters is taken from the regex crate's tables.
pub fn uni(class: &'static str) -> Rx {
    let re = regex::Regex::new(&format!("^{}$", class)).unwrap();
    let cache = std::cell::RefCell::new(HashMap::new());
    Rx::Class(class.to_string(), Rc::new(move |c| *cache.borrow_mut().entry(c).or_insert_with(|| re.is_match(&c.to_string()))))
}

impl Rx {
    pub fn source(&self) -> String {
        match self {
            Rx::Lit(s) => regex::escape(s),
            Rx::Class(s, _) | Rx::Re(s, _) => s.clone(),
            Rx::Seq(v) => v.iter().map(|x| if let Rx::Alt(_) = x { format!("({})", x.source()) } else { x.source() }).collect(),
            Rx::Alt(v) => v.iter().map(|x| x.source()).collect::<Vec<_>>().join("|"),
            Rx::Star(x) => format!("({})*", x.source()),
            Rx::Plus(x) => format!("({})+", x.source()),
            Rx::Opt(x) => format!("({})?", x.source()),
        }
    }
    pub fn compile(&self) -> Rx { let s = self.source(); let re = regex::Regex::new(&format!("^({})", s)).unwrap(); Rx::Re(s, re) }
    fn step(&self, s: &str, at: usize) -> Option<usize> {
        match self { Rx::Class(_, f) => s[at..].chars().next().filter(|&c| f(c)).map(|c| at + c.len_utf8()), _ => panic!("harness") }
    }
    fn go(&self, s: &str, at: usize, k: &mut dyn FnMut(usize) -> Option<usize>) -> Option<usize> {
        match self {
            Rx::Lit(l) => if s[at..].starts_with(l.as_str()) { k(at + l.len()) } else { None },
            Rx::Re(_, re) => { let e = at + re.find(&s[at..])?.end(); k(e) }
            Rx::Class(..) => { let e = self.step(s, at)?; k(e) }
            Rx::Seq(v) => seq(v, s, at, k),
            Rx::Alt(v) => { for x in v { if let Some(e) = x.go(s, at, k) { return Some(e) } } None }
            Rx::Opt(x) => { if let Some(e) = x.go(s, at, k) { return Some(e) } k(at) }
            Rx::Plus(x) => { let st = Rx::Star(x.clone()); x.go(s, at, &mut |p| st.go(s, p, k)) }
            Rx::Star(x) => {
                if let Rx::Class(..) = **x {
                    let mut ends = vec![at];
                    while let Some(e) = x.step(s, *ends.last().unwrap()) { ends.push(e) }
                    for &e in ends.iter().rev() { if let Some(r) = k(e) { return Some(r) } }
                    return None;
                }
                if let Some(e) = x.go(s, at, &mut |p| if p == at { None } else { self.go(s, p, k) }) { return Some(e) }
                k(at)
            }
        }
    }
    /// End of the match at the beginning of `s`.
    pub fn find(&self, s: &str) -> Option<usize> { self.go(s, 0, &mut |e| Some(e)) }
    pub fn nullable(&self) -> bool {
        match self {
            Rx::Lit(s) => s.is_empty(),
            Rx::Class(..) | Rx::Re(..) => false,
            Rx::Seq(v) => v.iter().all(|x| x.nullable()),
            Rx::Alt(v) => v.iter().any(|x| x.nullable()),
            Rx::Star(_) | Rx::Opt(_) => true,
            Rx::Plus(x) => x.nullable(),
        }
    }
}

fn seq(v: &[Rx], s: &str, at: usize, k: &mut dyn FnMut(usize) -> Option<usize>) -> Option<usize> {
    match v.split_first() {
        None => k(at),
        Some((x, rest)) => x.go(s, at, &mut |p| seq(rest, s, p, k)),
    }
}

pub type Custom = fn(&str) -> Option<usize>;

pub struct Rule { pub name: &'static str, pub rx: Rx, pub f: Option<Custom> }

pub const ERROR: &str = "ERROR";

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok { pub name: &'static str, pub start: usize, pub end: usize }

pub struct Seen { pub ties: u64, pub contests: u64, pub customs: u64, pub refused: u64, pub errors: u64 }

fn valid(rules: &[Rule], s: &str, seen: &mut Seen) -> Option<(&'static str, usize)> {
    let ms: Vec<(usize, &Rule)> = rules.iter().filter_map(|r| r.rx.find(s).map(|e| (e, r))).collect();
    let best = ms.iter().map(|m| m.0).max()?;
    if ms.len() > 1 { seen.contests += 1 }
    if ms.iter().filter(|m| m.0 == best).count() > 1 { seen.ties += 1 }
    let rule = ms.iter().find(|m| m.0 == best).unwrap().1;
    match rule.f {
        None => Some((rule.name, best)),
        Some(f) => {
            seen.customs += 1;
            match f(s) { Some(l) => Some((rule.name, l)), None => { seen.refused += 1; None } }
        }
    }
}

pub fn tokens(rules: &[Rule], text: &str) -> (Vec<Tok>, Seen) {
    let mut seen = Seen { ties: 0, contests: 0, customs: 0, refused: 0, errors: 0 };
    let mut out = Vec::new();
    let mut at = 0;
    while at < text.len() {
        if let Some((name, len)) = valid(rules, &text[at..], &mut seen) {
            out.push(Tok { name, start: at, end: at + len });
            at += len;
            continue;
        }
        seen.errors += 1;
        let start = at;
        loop {
            at += text[at..].chars().next().unwrap().len_utf8();
            if at == text.len() || valid(rules, &text[at..], &mut seen).is_some() { break }
        }
        out.push(Tok { name: ERROR, start, end: at });
    }
    (out, seen)
}

/// Up to and including the closing quote with as many hashes as the opening one.
fn raw_string(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let mut h = 0;
    while b[1 + h] == b'#' { h += 1 }
    let mut i = 2 + h;
    while i < b.len() {
        if b[i] == b'"' && i + h < b.len() && b[i + 1..=i + h].iter().all(|&c| c == b'#') { return Some(i + h + 1) }
        i += 1;
    }
    None
}

/// Nested comments; an unclosed one goes to the end of the text.
fn block_comment(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let (mut i, mut level) = (2, 1);
    while i < b.len() && level > 0 {
        if b[i..].starts_with(b"/*") { level += 1; i += 2 } else if b[i..].starts_with(b"*/") { level -= 1; i += 2 } else { i += 1 }
    }
    Some(i)
}

pub struct Shipped { pub rules: Vec<Rule>, /// tokens that only the parser makes
    pub contextual: &'static [&'static str] }

pub fn shipped(kind: Kind) -> Shipped {
    let mut rules: Vec<Rule> = Vec::new();
    let mut contextual: &'static [&'static str] = &[];
    let mut add = |name: &'static str, rx: Rx, f: Option<Custom>| rules.push(Rule { name, rx, f });
    add("WHITESPACE", plus(uni(r"\s")), None);
    let any_but_newline = || none_of("\n");
    match kind {
        Kind::Json => {
            for &(n, s) in &[("LBRACE", "{"), ("RBRACE", "}"), ("LBRACK", "["), ("RBRACK", "]"), ("COLON", ":"), ("COMMA", ","), ("NULL", "null")] { add(n, lit(s), None) }
            add("BOOL", Rx::Alt(vec![lit("true"), lit("false")]), None);
            add("STRING", Rx::Seq(vec![lit("\""), star(none_of("\"")), lit("\"")]), None);
            add("NUMBER", plus(uni(r"\d")), None);
        }
        Kind::Bnf => {
            add("ARROW", lit("->"), None);
            add("PIPE", lit("|"), None);
            add("TERMINAL", Rx::Seq(vec![lit("'"), plus(none_of("'")), lit("'")]), None);
            add("NONTERMINAL", plus(uni(r"\w")), None);
        }
        Kind::Sexp => {
            add("LPAREN", lit("("), None);
            add("RPAREN", lit(")"), None);
            add("ATOM", plus(uni(r"\w")), None);
        }
        Kind::Arith => {
            add("NUMBER", plus(uni(r"\d")), None);
            for &(n, s) in &[("PLUS", "+"), ("MINUS", "-"), ("STAR", "*"), ("SLASH", "/"), ("BANG", "!"), ("LPAREN", "("), ("RPAREN", ")")] { add(n, lit(s), None) }
        }
        Kind::Weird => {
            add("RAW_STRING", Rx::Seq(vec![lit("r"), plus(lit("#")), lit("\"")]), Some(raw_string));
            for &(n, s) in &[("FOO", "foo"), ("BAR", "bar"), ("T1", "_1"), ("T2", "_2"), ("T3", "_3"), ("T4", "_4"), ("LBRACE", "{"), ("RBRACE", "}")] { add(n, lit(s), None) }
            add("ATOM", plus(uni(r"\w")), None);
        }
        Kind::Fall => {
            contextual = &["NODE", "CLASS", "TRAIT", "TOKENIZER", "RULE", "VERBATIM", "AST", "PUB", "TEST"];
            add("EOL_COMMENT", Rx::Seq(vec![lit("//"), star(any_but_newline())]), None);
            for &(n, s) in &[("EQ", "="), ("PIPE", "|"), ("STAR", "*"), ("QUESTION", "?"), ("DOT", "."), ("COMMA", ","), ("COLON", ":"), ("HASH", "#"),
                ("L_CURLY", "{"), ("R_CURLY", "}"), ("L_SQUARE", "["), ("R_SQUARE", "]"), ("L_ANGLE", "<"), ("R_ANGLE", ">"), ("L_PAREN", "("), ("R_PAREN", ")")] { add(n, lit(s), None) }
            add("NUMBER", plus(uni(r"\d")), None);
            add("SIMPLE_STRING", Rx::Seq(vec![lit("'"), star(Rx::Alt(vec![none_of("'\\"), Rx::Seq(vec![lit("\\"), any_but_newline()])])), lit("'")]), None);
            add("HASH_STRING", Rx::Seq(vec![lit("r"), star(lit("#")), lit("\"")]), Some(raw_string));
            add("IDENT", plus(uni(r"\w")), None);
        }
        Kind::Rust => {
            contextual = &["UNION", "SHL", "SHL_EQ", "SHR", "SHR_EQ", "AND", "OR"];
            add("LINE_COMMENT", Rx::Seq(vec![lit("//"), star(any_but_newline()), opt(lit("\n"))]), None);
            add("BLOCK_COMMENT", lit("/*"), Some(block_comment));
            for &(n, s) in &[("AS", "as"), ("CRATE", "crate"), ("EXTERN", "extern"), ("FN", "fn"), ("LET", "let"), ("PUB", "pub"), ("STRUCT", "struct"), ("USE", "use"),
                ("MOD", "mod"), ("IF", "if"), ("ELSE", "else"), ("ENUM", "enum"), ("IMPL", "impl"), ("SELF", "self"), ("SUPER", "super"), ("TYPE", "type"), ("CONST", "const"),
                ("STATIC", "static"), ("FOR", "for"), ("LOOP", "loop"), ("WHILE", "while"), ("MOVE", "move"), ("MUT", "mut"), ("REF", "ref"), ("TRAIT", "trait"), ("MATCH", "match"),
                ("RETURN", "return"), ("CONTINUE", "continue"), ("BREAK", "break"), ("IN", "in"), ("UNSAFE", "unsafe"), ("WHERE", "where"),
                ("L_PAREN", "("), ("R_PAREN", ")"), ("L_CURLY", "{"), ("R_CURLY", "}"), ("L_ANGLE", "<"), ("R_ANGLE", ">"), ("L_BRACK", "["), ("R_BRACK", "]"),
                ("THIN_ARROW", "->"), ("FAT_ARROW", "=>"), ("EQ", "="), ("EQEQ", "=="), ("BANGEQ", "!="), ("GTET", ">="), ("LTEQ", "<="), ("SEMI", ";"), ("COLON", ":"),
                ("COLONCOLON", "::"), ("COMMA", ","), ("DOT", "."), ("DOTDOT", ".."), ("DOTDOTDOT", "..."), ("HASH", "#"), ("DOLLAR", "$"), ("STAR", "*"), ("STAR_EQ", "*="),
                ("SLASH", "/"), ("SLASH_EQ", "/="), ("PERCENT", "%"), ("PERCENT_EQ", "%="), ("PLUS", "+"), ("PLUS_EQ", "+="), ("MINUS", "-"), ("MINUS_EQ", "-="),
                ("AMPERSAND", "&"), ("AMPERSAND_EQ", "&="), ("PIPE", "|"), ("PIPE_EQ", "|="), ("UNDERSCORE", "_"), ("BANG", "!"), ("QUESTION", "?"), ("CARET", "^"), ("CARET_EQ", "^=")] { add(n, lit(s), None) }
            let q = || lit("'");
            add("CHAR", Rx::Alt(vec![lit("'\\''"), Rx::Seq(vec![q(), none_of("'"), q()]),
                Rx::Seq(vec![q(), star(Rx::Alt(vec![lit("\\"), uni(r"\p{XID_Continue}"), lit("{"), lit("}")])), q()])]), None);
            add("LIFETIME", Rx::Seq(vec![q(), star(uni(r"\p{XID_Continue}"))]), None);
            add("BOOL", Rx::Alt(vec![lit("true"), lit("false")]), None);
            add("NUMBER", plus(uni(r"\d")), None);
            add("STRING", Rx::Seq(vec![lit("\""), star(Rx::Alt(vec![lit("\\\""), none_of("\"")])), lit("\"")]), None);
            add("RAW_STRING", Rx::Seq(vec![lit("r"), star(lit("#")), lit("\"")]), Some(raw_string));
            add("IDENT", Rx::Seq(vec![Rx::Alt(vec![uni(r"\p{XID_Start}"), lit("_")]), star(uni(r"\p{XID_Continue}"))]), None);
        }
    }
    Shipped { rules, contextual }
}
