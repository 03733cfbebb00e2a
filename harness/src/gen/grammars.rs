//! Random grammars over a small fixed alphabet, and languages built from them.

use std::any::Any;

use fall_parse::{Arg, Context, Expr, ExprRef, Infix, LexRule, NodeTypeRef, ParserDefinition, PrattTable, Prefix, RegexLexer};
use fall_tree::{Language, LanguageImpl, Metrics, NodeType, NodeTypeInfo, Text, TextEdit, TreeBuilder};

use crate::model::peg::Raw;
use crate::rng::Rng;

/// Index = NodeTypeRef; the type's number is BASE + index (0 for ERROR).
pub const NAMES: &[&str] = &["ERROR", "WS", "COMMENT", "A", "B", "C", "D", "E", "F", "LP", "RP", "LB", "RB", "COMMA", "PLUS", "MINUS", "STAR", "GT", "EQ", "WORD",
    "SHR", "GE", "KW", "AB", "FILE", "N1", "N2", "N3", "N4", "N5", "N6", "N7", "N8", "N9", "N10", "N11", "N12"];
pub const BASE: u32 = 100;
pub const FIRST_LETTER: u32 = 3;
pub const FILE: u32 = 24;
pub const N_NODES: u32 = 12;
const PUNCT: &str = "(){},+-*>=";

pub fn ty_of(r: u32) -> u32 { if r == 0 { 0 } else { BASE + r } }
pub fn name_of(ty: u32) -> String { NAMES[if ty == 0 { 0 } else { (ty - BASE) as usize }].to_string() }
pub fn tys() -> Vec<u32> { (0..NAMES.len() as u32).map(ty_of).collect() }
pub fn is_token_ty(ty: NodeType) -> bool { ty.0 != 0 && ty.0 < BASE + FILE }

thread_local! { static LEXER: &'static RegexLexer = Box::leak(Box::new(lexer())) }

fn lexer() -> RegexLexer {
    let mut rules = vec![
        LexRule::new(NodeType(BASE + 1), r"[ \n\t]+", None),
        LexRule::new(NodeType(BASE + 2), r"%[^\n]*", None),
    ];
    for i in 0..6u32 { rules.push(LexRule::new(NodeType(BASE + FIRST_LETTER + i), &((b'a' + i as u8) as char).to_string(), None)) }
    for (i, c) in PUNCT.chars().enumerate() { rules.push(LexRule::new(NodeType(BASE + 9 + i as u32), &format!("[{}]", c), None)) }
    rules.push(LexRule::new(NodeType(BASE + 19), "[g-z]+", None));
    RegexLexer::new(rules)
}

/// What the tokens of a text are, for the fixed lexical rules above.
pub fn raw_tokens(text: &str) -> Vec<Raw> {
    fn valid(s: &str) -> Option<(u32, usize)> {
        let c = s.chars().next()?;
        let run = |f: &dyn Fn(char) -> bool| s.chars().take_while(|&c| f(c)).map(|c| c.len_utf8()).sum::<usize>();
        if " \n\t".contains(c) { return Some((1, run(&|c| " \n\t".contains(c)))); }
        if c == '%' { return Some((2, run(&|c| c != '\n'))); }
        if ('a'..='f').contains(&c) { return Some((FIRST_LETTER + (c as u32 - 'a' as u32), 1)); }
        if let Some(i) = PUNCT.find(c) { return Some((9 + i as u32, 1)); }
        if ('g'..='z').contains(&c) { return Some((19, run(&|c| ('g'..='z').contains(&c)))); }
        None
    }
    let mut out = Vec::new();
    let mut at = 0;
    while at < text.len() {
        match valid(&text[at..]) {
            Some((ty, len)) => { out.push(Raw { ty: ty_of(ty), start: at, end: at + len, ws: ty <= 2 }); at += len }
            None => {
                let start = at;
                while at < text.len() && valid(&text[at..]).is_none() { at += text[at..].chars().next().unwrap().len_utf8() }
                out.push(Raw { ty: 0, start, end: at, ws: false });
            }
        }
    }
    out
}

fn info(ty: NodeType) -> NodeTypeInfo {
    let i = if ty.0 == 0 { 0 } else { (ty.0 - BASE) as usize };
    NodeTypeInfo { name: NAMES[i], whitespace_like: i == 1 || i == 2 }
}

struct Info;
impl LanguageImpl for Info {
    fn parse(&self, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { panic!("harness") }
    fn reparse(&self, _: &dyn Any, _: &TextEdit, _: Text, _: &Metrics, _: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> { panic!("harness") }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { info(ty) }
}

struct Dynamic { lexer: &'static RegexLexer, def: ParserDefinition, info: Language }
impl LanguageImpl for Dynamic {
    fn parse(&self, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        fall_parse::parse(&self.info, self.lexer, &self.def, text, metrics, builder)
    }
    fn reparse(&self, data: &dyn Any, edit: &TextEdit, text: Text, metrics: &Metrics, builder: &mut TreeBuilder) -> Option<Box<dyn Any + Sync + Send>> {
        fall_parse::reparse(&self.info, self.lexer, &self.def, data, edit, text, metrics, builder)
    }
    fn node_type_info(&self, ty: NodeType) -> NodeTypeInfo { info(ty) }
}

pub fn language(rules: &[Expr]) -> Language { language_bound(rules, None) }

/// Not `to_string`: the number writer behind it has undefined behaviour of its own, to which an interpreter objects.
fn to_json(rules: &[Expr]) -> String {
    fn go(v: &serde_json::Value, out: &mut String) {
        match v {
            serde_json::Value::Number(n) => *out += &format!("{}", n.as_u64().unwrap()),
            serde_json::Value::Array(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() { if i > 0 { out.push(',') } go(x, out) }
                out.push(']')
            }
            serde_json::Value::Object(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() { if i > 0 { out.push(',') } *out += &serde_json::to_string(k).unwrap(); out.push(':'); go(x, out) }
                out.push('}')
            }
            v => *out += &serde_json::to_string(v).unwrap(),
        }
    }
    let mut out = String::new();
    go(&serde_json::to_value(rules).unwrap(), &mut out);
    out
}

/// A language with an attachment rule for skipped tokens.
pub fn language_bound(rules: &[Expr], binder: Option<fn(NodeType, Vec<(NodeType, &str)>, bool) -> usize>) -> Language {
    // through the textual form, as generated parsers do
    let json = to_json(rules);
    let mut def = ParserDefinition {
        node_types: tys().into_iter().map(NodeType).collect(),
        syntactical_rules: fall_parse::runtime::parser_from_str(&json),
        ..Default::default()
    };
    if let Some(b) = binder { def.whitespace_binder = b }
    Language::new(Dynamic { lexer: LEXER.with(|l| *l), def, info: Language::new(Info) })
}

/// Is the expression sure to consume a token when it succeeds?  And may it look at more than its own tokens?
#[derive(Clone, Copy)]
struct At {
    /// index of the rule being generated; before the first sure token only rules above it may be referenced
    rule: usize,
    leftmost: bool,
    depth: usize,
}

pub struct Gen<'r> {
    pub rng: &'r mut Rng,
    pub rules: Vec<Expr>,
    kinds: Vec<RuleKind>,
    next_node: u32,
    /// parameters of the rule being generated
    params: Vec<u32>,
    /// the first context
    far: u32,
    opts: Options,
}

#[derive(Clone, Copy)]
pub struct Options { pub cached: bool, pub pratt: bool, pub prev_is: bool, pub contexts: bool, pub params: bool, pub wild_commit: bool }

impl Options {
    pub const ALL: Options = Options { cached: false, pratt: true, prev_is: true, contexts: true, params: true, wild_commit: true };
}

#[derive(Clone, Debug)]
struct RuleKind {
    /// public rules produce exactly one node
    public: bool,
    /// success means at least one token was consumed
    eats: bool,
    params: Vec<u32>,
    ty: u32,
}

pub fn grammar(rng: &mut Rng, opts: Options) -> Vec<Expr> { grammar_and_rules(rng, opts).0 }

/// The operators, and how many of them are rules.
pub fn grammar_and_rules(rng: &mut Rng, opts: Options) -> (Vec<Expr>, usize) {
    let n = rng.range(2, 8);
    let far = if rng.chance(1, 10) { rng.below(29) as u32 } else { 0 };
    let mut arg = if rng.chance(1, 10) { rng.below(60) as u32 } else { 0 };
    let mut g = Gen { rng, rules: Vec::new(), kinds: Vec::new(), next_node: 1, params: Vec::new(), far, opts };
    for i in 0..n {
        let public = i == 0 || g.rng.chance(1, 2);
        let params = if i > 0 && opts.params && g.rng.chance(1, 3) { let k = g.rng.range(1, 2) as u32; let v = (arg..arg + k).collect(); arg += k; v } else { vec![] };
        let ty = if i == 0 { FILE } else if public { let t = FILE + g.next_node; g.next_node = g.next_node % N_NODES + 1; t } else { 0 };
        let eats = i > 0 && g.rng.chance(3, 4);
        g.kinds.push(RuleKind { public, eats, params, ty });
        g.rules.push(Expr::Eof);
    }
    for i in 0..n {
        let k = g.kinds[i].clone();
        g.params = k.params.clone();
        let at = At { rule: i, leftmost: true, depth: 0 };
        let mut body = if k.eats { g.eater(at) } else { g.any_expr(at) };
        if i == 0 {
            // most files: a repetition of something, so that the rules are reached
            let e = g.eater(At { rule: 0, leftmost: true, depth: 1 });
            let e = if g.rng.chance(1, 2) { let first = g.predicate(At { rule: 0, leftmost: true, depth: 2 }); g.add(Expr::WithSkip(first, e)) } else { e };
            let rep = g.add(Expr::Rep(e));
            body = if g.rng.chance(2, 3) { rep } else { g.add(Expr::And(vec![rep, body], None)) };
        }
        let rule = if k.public {
            let replaceable = i > 0 && g.rng.chance(1, 3);
            if replaceable { body = g.with_replacement(body, at) }
            Expr::Pub { ty: NodeTypeRef(k.ty), body, replaceable }
        } else if opts.cached && g.rng.chance(1, 2) && k.params.is_empty() {
            Expr::Cached(body)
        } else {
            Expr::Or(vec![body])
        };
        g.rules[i] = rule;
    }
    (g.rules, n)
}

impl<'r> Gen<'r> {
    fn add(&mut self, e: Expr) -> ExprRef { self.rules.push(e); ExprRef(self.rules.len() as u32 - 1) }
    fn node_ty(&mut self) -> u32 { FILE + 1 + self.rng.below(N_NODES as usize) as u32 }

    fn letter(&mut self) -> ExprRef {
        let t = match self.rng.below(12) {
            0 => 19,
            1 => 13,
            2..=3 => 14 + self.rng.below(5) as u32,
            _ => FIRST_LETTER + self.rng.below(6) as u32,
        };
        self.add(Expr::Token(NodeTypeRef(t)))
    }
    fn contextual(&mut self) -> ExprRef {
        let (t, s) = *self.rng.pick(&[(20, ">>"), (21, ">="), (22, "kw"), (23, "ab"), (20, ">>="), (22, "k"), (23, "ba"), (23, "abc"), (21, "=>"), (20, "a>")]);
        self.add(Expr::ContextualToken(NodeTypeRef(t), s.to_string()))
    }

    fn candidates(&self, at: At, eats: bool, public: bool) -> Vec<usize> {
        (0..self.kinds.len()).filter(|&i| i > 0 && (!at.leftmost || i > at.rule) && (!eats || self.kinds[i].eats) && (!public || self.kinds[i].public)).collect()
    }
    /// Reference to a rule, with arguments.
    fn rule_ref(&mut self, i: usize, at: At) -> ExprRef {
        let params = self.kinds[i].params.clone();
        if params.is_empty() { return ExprRef(i as u32); }
        let mut args = Vec::new();
        for p in params {
            let value = if !self.params.is_empty() && self.rng.chance(1, 2) {
                let ps = self.params.clone();
                let v = *self.rng.pick(&ps);
                self.add(Expr::Var(Arg(v)))
            } else {
                let place = At { depth: at.depth + 2, ..at };
                if !self.params.is_empty() && self.rng.chance(1, 2) {
                    // a compound argument that mentions a parameter
                    let ps = self.params.clone();
                    let v = *self.rng.pick(&ps);
                    let v = self.add(Expr::Var(Arg(v)));
                    let e = self.letter();
                    if self.rng.chance(1, 2) { self.add(Expr::And(vec![e, v], None)) } else { self.add(Expr::Or(vec![e, v])) }
                } else { self.eater(place) }
            };
            args.push((Arg(p), value));
        }
        self.add(Expr::Call(ExprRef(i as u32), args))
    }

    /// An expression that consumes at least one token when it succeeds.
    fn eater(&mut self, at: At) -> ExprRef {
        let d = At { depth: at.depth + 1, ..at };
        let after = At { leftmost: false, ..d };
        if at.depth > 5 { return self.letter(); }
        if !self.params.is_empty() && !at.leftmost && self.rng.chance(1, 8) {
            // a recursive call, likely with other arguments
            let i = at.rule;
            if self.kinds[i].eats { return self.rule_ref(i, d); }
        }
        match self.rng.below(19) {
            17 => {
                // a layer over anything: its end may fall in the middle of what the body looks at
                let delim = match self.rng.below(3) {
                    0 => self.eater(d),
                    1 => self.letter(),
                    _ => { let e = self.letter(); let any = self.add(Expr::Any); self.add(Expr::And(vec![e, any], None)) }
                };
                let body = if self.rng.chance(1, 2) { self.any_expr(d) } else {
                    let a = self.contextual();
                    let b = self.eater(d);
                    let or = self.add(Expr::Or(vec![a, b]));
                    if self.rng.chance(1, 2) { or } else { self.add(Expr::Rep(or)) }
                };
                self.add(Expr::Layer(delim, body))
            }
            0..=3 => {
                let c = self.candidates(at, true, false);
                if c.is_empty() { return self.letter(); }
                let i = *self.rng.pick(&c);
                self.rule_ref(i, d)
            }
            4..=6 => {
                // a sequence whose first consuming part comes early
                let mut parts = Vec::new();
                let mut eaten = None;
                let n = self.rng.range(2, 4);
                for k in 0..n {
                    let place = if eaten.is_some() { after } else { d };
                    if eaten.is_none() && (k == n - 1 || self.rng.chance(2, 3)) { let e = self.eater(place); parts.push(e); eaten = Some(k) }
                    else { let e = self.any_expr(place); parts.push(e) }
                }
                let first = eaten.unwrap() + 1;
                let commit = if self.rng.chance(1, 3) { Some(self.rng.range(first, n)) } else { None };
                self.add(Expr::And(parts, commit))
            }
            7..=8 => {
                let n = self.rng.range(1, 3);
                let alts = (0..n).map(|_| self.eater(d)).collect();
                self.add(Expr::Or(alts))
            }
            9 => { let first = self.predicate(d); let e = self.eater(d); self.add(Expr::WithSkip(first, e)) }
            10 => self.block(at),
            11 => self.contextual(),
            12 if self.opts.contexts => {
                let c = Context(self.far + self.rng.below(3) as u32);
                let mut e = self.eater(d);
                if self.rng.chance(1, 2) {
                    // something that depends on the context
                    let is = self.add(Expr::IsIn(c));
                    let l = self.letter();
                    let guarded = self.add(Expr::And(vec![is, l], None));
                    e = self.add(Expr::Or(vec![guarded, e]));
                }
                if self.rng.chance(1, 3) {
                    // the same context (or its end) within, and behind it something that tells in which one it is
                    let inner = if self.rng.chance(2, 3) { self.add(Expr::Enter(c, e)) } else { self.add(Expr::Exit(c, e)) };
                    let is = self.add(Expr::IsIn(c));
                    let l = self.letter();
                    let seen = self.add(Expr::And(vec![is, l], None));
                    let ty = self.node_ty();
                    let seen = self.add(Expr::Pub { ty: NodeTypeRef(ty), body: seen, replaceable: false });
                    let mut behind = self.add(Expr::Or(vec![seen, l]));
                    if self.rng.chance(1, 2) { behind = self.add(Expr::Rep(behind)) }
                    e = self.add(Expr::And(vec![inner, behind], None));
                }
                if self.rng.chance(2, 3) { self.add(Expr::Enter(c, e)) } else { self.add(Expr::Exit(c, e)) }
            }
            13 if self.rng.chance(1, 2) => self.add(Expr::Any),
            14 if self.opts.pratt && self.rng.chance(1, 2) => self.pratt(at),
            15 => self.inject(at),
            16 if self.opts.prev_is => {
                let c = self.candidates(at, true, true);
                if c.is_empty() || at.leftmost { return self.letter(); }
                let k = self.rng.range(1, 2);
                let alts: Vec<usize> = (0..k).map(|_| *self.rng.pick(&c)).collect();
                let tys: Vec<NodeTypeRef> = alts.iter().take(self.rng.range(0, k)).map(|&i| NodeTypeRef(self.kinds[i].ty)).collect();
                let alts = alts.into_iter().map(|i| self.rule_ref(i, d)).collect();
                let node = self.add(Expr::Or(alts));
                let is = self.add(Expr::PrevIs(tys));
                let test = if self.rng.chance(1, 3) { self.add(Expr::Not(is)) } else { is };
                self.add(Expr::And(vec![node, test], None))
            }
            _ => self.letter(),
        }
    }

    /// Anything; may succeed without consuming.
    fn any_expr(&mut self, at: At) -> ExprRef {
        let d = At { depth: at.depth + 1, ..at };
        if at.depth > 5 { return self.letter(); }
        match self.rng.below(20) {
            0..=5 => self.eater(at),
            6..=7 => { let e = self.eater(d); self.add(Expr::Opt(e)) }
            8..=10 => { let e = self.eater(d); self.add(Expr::Rep(e)) }
            11 => { let e = self.predicate(d); self.add(Expr::Not(e)) }
            12 => { if self.rng.chance(1, 3) { self.add(Expr::Eof) } else { let e = self.add(Expr::Eof); let f = self.eater(d); self.add(Expr::Or(vec![e, f])) } }
            13 if self.opts.contexts => { let c = Context(self.far + self.rng.below(3) as u32); let i = self.add(Expr::IsIn(c)); if self.rng.chance(1, 3) { self.add(Expr::Not(i)) } else { i } }
            14 => {
                let n = self.rng.range(0, 3);
                let mut alts: Vec<ExprRef> = (0..n).map(|_| self.any_expr(d)).collect();
                if self.rng.chance(1, 3) { let e = self.add(Expr::And(vec![], None)); alts.push(e) }
                self.add(Expr::Or(alts))
            }
            15 => {
                let n = self.rng.range(0, 3);
                let parts: Vec<ExprRef> = (0..n).map(|_| self.any_expr(d)).collect();
                let commit = if self.opts.wild_commit && self.rng.chance(1, 3) { Some(self.rng.below(n + 1)) } else { None };
                self.add(Expr::And(parts, commit))
            }
            16 => {
                let c = self.candidates(at, false, false);
                if c.is_empty() { return self.letter(); }
                let i = *self.rng.pick(&c);
                self.rule_ref(i, d)
            }
            17 if !self.params.is_empty() => { let ps = self.params.clone();
                let v = *self.rng.pick(&ps); self.add(Expr::Var(Arg(v))) }
            18 if self.rng.chance(1, 2) => { let ty = self.node_ty(); let e = self.any_expr(d); self.add(Expr::Pub { ty: NodeTypeRef(ty), body: e, replaceable: false }) }
            _ => self.letter(),
        }
    }

    fn predicate(&mut self, at: At) -> ExprRef {
        if self.rng.chance(1, 2) {
            let n = self.rng.range(1, 4);
            let alts = (0..n).map(|_| self.letter()).collect();
            return self.add(Expr::Or(alts));
        }
        self.eater(At { depth: at.depth + 2, ..at })
    }

    fn with_replacement(&mut self, body: ExprRef, at: At) -> ExprRef {
        let ty = self.node_ty();
        let d = At { depth: at.depth + 3, ..at };
        let after = At { leftmost: false, ..d };
        match self.rng.below(3) {
            0 => { let r = self.add(Expr::PubReplace { ty: NodeTypeRef(ty), body }); r }
            1 => {
                let head = self.eater(d);
                let r = self.add(Expr::PubReplace { ty: NodeTypeRef(ty), body: head });
                let tail = self.any_expr(after);
                let alt = self.add(Expr::And(vec![r, tail], None));
                self.add(Expr::Or(vec![alt, body]))
            }
            _ => {
                let tail = self.letter();
                let r = self.add(Expr::PubReplace { ty: NodeTypeRef(ty), body: tail });
                let opt = self.add(Expr::Opt(r));
                self.add(Expr::And(vec![body, opt], None))
            }
        }
    }

    fn block(&mut self, at: At) -> ExprRef {
        let (bra, ket) = *self.rng.pick(&[(9, 10), (11, 12)]);
        let after = At { leftmost: false, depth: at.depth + 1, ..at };
        let bra_e = self.add(Expr::Token(NodeTypeRef(bra)));
        let ket_e = self.add(Expr::Token(NodeTypeRef(ket)));
        // balanced := { bra <commit>? balanced ket | <not ket> any }*
        let slot = self.add(Expr::Eof);
        let commit = if self.rng.chance(1, 2) { Some(1) } else { None };
        let nested = self.add(Expr::And(vec![bra_e, slot, ket_e], commit));
        let not_ket = self.add(Expr::Not(ket_e));
        let any = self.add(Expr::Any);
        let other = self.add(Expr::And(vec![not_ket, any], None));
        let alt = self.add(Expr::Or(vec![nested, other]));
        self.rules[slot.0 as usize] = Expr::Rep(alt);
        let body = self.any_expr(after);
        let layer = self.add(Expr::Layer(slot, body));
        let commit = if self.rng.chance(2, 3) { Some(1) } else { None };
        self.add(Expr::And(vec![bra_e, layer, ket_e], commit))
    }

    fn inject(&mut self, at: At) -> ExprRef {
        let d = At { depth: at.depth + 1, ..at };
        let after = At { leftmost: false, ..d };
        let (t1, t2, t3) = (self.node_ty(), self.node_ty(), self.node_ty());
        let a = self.letter();
        let pre = self.add(Expr::Pub { ty: NodeTypeRef(t1), body: a, replaceable: false });
        let b = self.letter();
        let pre2 = self.add(Expr::Pub { ty: NodeTypeRef(t2), body: b, replaceable: false });
        let pre = match self.rng.below(3) {
            0 => self.add(Expr::Rep(pre)),
            1 => self.add(Expr::Opt(pre)),
            _ => { let r = self.add(Expr::Rep(pre)); let o = self.add(Expr::Opt(pre2)); self.add(Expr::And(vec![r, o], None)) }
        };
        let body = self.eater(after);
        let own = self.letter();
        let body = self.add(Expr::And(vec![own, body], None));
        let node = self.add(Expr::Pub { ty: NodeTypeRef(t3), body, replaceable: false });
        let mut alts = vec![node];
        if self.rng.chance(1, 2) {
            let l = self.letter();
            let n2 = self.add(Expr::Pub { ty: NodeTypeRef(t2), body: l, replaceable: false });
            let at = self.rng.below(2);
            alts.insert(at, n2);
        }
        let body = self.add(Expr::Or(alts));
        self.add(Expr::Inject(pre, body))
    }

    fn pratt(&mut self, at: At) -> ExprRef {
        let after = At { leftmost: false, depth: at.depth + 2, ..at };
        let slot = self.add(Expr::Eof);
        let mut atoms = Vec::new();
        for _ in 0..self.rng.range(1, 2) {
            let ty = self.node_ty();
            let l = self.letter();
            let body = if self.rng.chance(1, 4) {
                let ket = self.add(Expr::Token(NodeTypeRef(10)));
                let bra = self.add(Expr::Token(NodeTypeRef(9)));
                let commit = if self.rng.chance(1, 2) { Some(1) } else { None };
                self.add(Expr::And(vec![bra, slot, ket], commit))
            } else if self.rng.chance(1, 4) {
                let e = self.any_expr(after);
                self.add(Expr::And(vec![l, e], None))
            } else { l };
            let a = self.add(Expr::Pub { ty: NodeTypeRef(ty), body, replaceable: false });
            atoms.push(a);
        }
        let op = |g: &mut Self| {
            let t = *g.rng.pick(&[13, 14, 15, 16, 17, 18, 14, 15, 16, 5]);
            if g.rng.chance(1, 6) { g.contextual() } else { g.add(Expr::Token(NodeTypeRef(t))) }
        };
        let top = if self.rng.chance(1, 8) { std::u32::MAX - 5 } else { 0 };
        let mut prefixes = Vec::new();
        for _ in 0..self.rng.below(3) {
            let ty = self.node_ty();
            let o = op(self);
            prefixes.push(Prefix { ty: NodeTypeRef(ty), op: o, priority: top + self.rng.below(6) as u32 });
        }
        let mut infixes = Vec::new();
        for _ in 0..self.rng.below(5) {
            let ty = self.node_ty();
            let o = op(self);
            infixes.push(Infix { ty: NodeTypeRef(ty), op: o, priority: top + self.rng.below(6) as u32, has_rhs: self.rng.chance(3, 4) });
        }
        self.rules[slot.0 as usize] = Expr::Pratt(Box::new(PrattTable { atoms, prefixes, infixes }));
        slot
    }
}

/// Texts that match an expression more often than not: a random walk through the grammar.
pub fn sentence(rng: &mut Rng, rules: &[Expr], fuel: &mut i64, e: ExprRef, args: &mut Vec<(u32, ExprRef)>, out: &mut Vec<String>) {
    *fuel -= 1;
    if *fuel < 0 { return }
    let tok = |t: &NodeTypeRef| -> String {
        let t = t.0;
        if (FIRST_LETTER..9).contains(&t) { ((b'a' + (t - FIRST_LETTER) as u8) as char).to_string() }
        else if (9..19).contains(&t) { PUNCT[(t - 9) as usize..(t - 8) as usize].to_string() }
        else { "kw".to_string() }
    };
    match &rules[e.0 as usize] {
        Expr::Pub { body, .. } | Expr::PubReplace { body, .. } | Expr::Enter(_, body) | Expr::Exit(_, body) | Expr::Cached(body) => sentence(rng, rules, fuel, *body, args, out),
        Expr::Or(alts) => if !alts.is_empty() { let a = *rng.pick(alts); sentence(rng, rules, fuel, a, args, out) },
        Expr::And(parts, commit) => {
            for (i, p) in parts.iter().enumerate() {
                if let Some(c) = commit { if i >= *c && rng.chance(1, 5) { break } }
                sentence(rng, rules, fuel, *p, args, out)
            }
        }
        Expr::Token(t) => out.push(tok(t)),
        Expr::ContextualToken(_, s) => out.push(s.clone()),
        Expr::Rep(b) => for _ in 0..rng.below(4) { sentence(rng, rules, fuel, *b, args, out) },
        Expr::Opt(b) => if rng.chance(1, 2) { sentence(rng, rules, fuel, *b, args, out) },
        Expr::Any => out.push(word(rng)),
        Expr::WithSkip(_, b) => { if rng.chance(1, 3) { for _ in 0..rng.range(1, 2) { let w = word(rng); out.push(w) } } sentence(rng, rules, fuel, *b, args, out) }
        Expr::Layer(_, b) => { sentence(rng, rules, fuel, *b, args, out); if rng.chance(1, 6) { let w = word(rng); out.push(w) } }
        Expr::Inject(a, b) => { sentence(rng, rules, fuel, *a, args, out); sentence(rng, rules, fuel, *b, args, out) }
        Expr::Call(b, a) => {
            let n = args.len();
            for (arg, v) in a {
                let v = match &rules[v.0 as usize] { Expr::Var(x) => args.iter().rev().find(|p| p.0 == x.0).map(|p| p.1).unwrap_or(*v), _ => *v };
                args.push((arg.0, v));
            }
            sentence(rng, rules, fuel, *b, args, out);
            args.truncate(n);
        }
        Expr::Var(x) => if let Some(v) = args.iter().rev().find(|p| p.0 == x.0).map(|p| p.1) { sentence(rng, rules, fuel, v, args, out) },
        Expr::Pratt(t) => {
            for _ in 0..rng.below(3) { if !t.prefixes.is_empty() { let o = rng.pick(&t.prefixes).op; sentence(rng, rules, fuel, o, args, out) } }
            let a = *rng.pick(&t.atoms);
            sentence(rng, rules, fuel, a, args, out);
            for _ in 0..rng.below(4) {
                if t.infixes.is_empty() { break }
                let ix = rng.pick(&t.infixes);
                sentence(rng, rules, fuel, ix.op, args, out);
                if ix.has_rhs && rng.chance(7, 8) {
                    if rng.chance(1, 4) && !t.prefixes.is_empty() { let o = rng.pick(&t.prefixes).op; sentence(rng, rules, fuel, o, args, out) }
                    let a = *rng.pick(&t.atoms);
                    sentence(rng, rules, fuel, a, args, out);
                }
            }
        }
        Expr::Eof | Expr::IsIn(_) | Expr::Not(_) | Expr::PrevIs(_) => {}
    }
}

pub fn word(rng: &mut Rng) -> String {
    match rng.below(10) {
        0 => (*rng.pick(&[">>", ">=", "kw", "ab", "abc", "ba", "a>", "=>", "zz", "☃", "?", "% c\n", ">>="])).to_string(),
        1..=2 => { let i = rng.below(PUNCT.len()); PUNCT[i..i + 1].to_string() }
        _ => ((b'a' + rng.below(6) as u8) as char).to_string(),
    }
}

pub fn text(rng: &mut Rng, rules: &[Expr]) -> String {
    let mut words = Vec::new();
    let mode = rng.below(4);
    if mode < 3 {
        let mut fuel = 60;
        sentence(rng, rules, &mut fuel, ExprRef(0), &mut Vec::new(), &mut words);
        words.truncate(40);
        if mode == 2 {
            for _ in 0..rng.range(1, 3) {
                let at = rng.below(words.len() + 1);
                match rng.below(3) {
                    0 => { let w = word(rng); words.insert(at, w) }
                    1 => { if at < words.len() { words.remove(at); } }
                    _ => { if at < words.len() { words[at] = word(rng) } }
                }
            }
        }
    } else {
        for _ in 0..rng.below(16) { let w = word(rng); words.push(w) }
    }
    let blanks = rng.below(3);
    let mut s = String::new();
    if rng.chance(1, 4) { s.push_str(*rng.pick(&[" ", "\n ", "%x\n"])) }
    for w in words {
        s.push_str(&w);
        match blanks { 0 => {} 1 => s.push(' '), _ => s.push_str(*rng.pick(&["", "", " ", "\n", " % c\n\t", ""])) }
    }
    s
}

pub fn show(rules: &[Expr]) -> String {
    rules.iter().enumerate().map(|(i, e)| format!("{}: {}", i, serde_json::to_string(e).unwrap())).collect::<Vec<_>>().join("\n")
}

/// A grammar in which some rules are cached: statements that end with a comma or a closing bracket.
pub fn cached_grammar(rng: &mut Rng) -> Vec<Expr> {
    let mut g = Gen { rng, rules: Vec::new(), kinds: Vec::new(), next_node: 1, params: Vec::new(), far: 0, opts: Options::ALL };
    let file = g.add(Expr::Eof);
    let item = g.add(Expr::Eof);
    let tok = |g: &mut Gen, t: u32| g.add(Expr::Token(NodeTypeRef(t)));
    let comma = tok(&mut g, 13);
    let balanced = |g: &mut Gen, bra: ExprRef, ket: ExprRef| {
        let slot = g.add(Expr::Eof);
        let nested = g.add(Expr::And(vec![bra, slot, ket], Some(1)));
        let not = g.add(Expr::Not(ket));
        let any = g.add(Expr::Any);
        let other = g.add(Expr::And(vec![not, any], None));
        let alt = g.add(Expr::Or(vec![nested, other]));
        g.rules[slot.0 as usize] = Expr::Rep(alt);
        slot
    };
    let brackets: Vec<(ExprRef, ExprRef, ExprRef)> = [(9u32, 10u32), (11, 12)].iter().map(|&(a, b)| {
        let (a, b) = (tok(&mut g, a), tok(&mut g, b));
        let l = balanced(&mut g, a, b);
        (a, b, l)
    }).collect();
    // expressions inside of statements: closed under their own tokens
    let slot = g.add(Expr::Eof);
    let plus = tok(&mut g, 14);
    let mul = tok(&mut g, 16);
    let ltr = tok(&mut g, 3 + 4);
    let word = tok(&mut g, 19);
    let atom_body = g.add(Expr::Or(vec![ltr, word]));
    let atom = g.add(Expr::Pub { ty: NodeTypeRef(25), body: atom_body, replaceable: false });
    let pr = g.add(Expr::And(vec![brackets[0].0, slot, brackets[0].1], Some(1)));
    let paren = g.add(Expr::Pub { ty: NodeTypeRef(26), body: pr, replaceable: false });
    g.rules[slot.0 as usize] = Expr::Pratt(Box::new(PrattTable {
        atoms: vec![atom, paren], prefixes: vec![Prefix { ty: NodeTypeRef(27), op: mul, priority: 9 }],
        infixes: vec![Infix { ty: NodeTypeRef(28), op: plus, priority: 1, has_rhs: true }, Infix { ty: NodeTypeRef(29), op: mul, priority: 2, has_rhs: true }],
    }));
    let pratt = slot;
    let n = g.rng.range(1, 4);
    let mut alts = Vec::new();
    for i in 0..n {
        let lead = tok(&mut g, FIRST_LETTER + i as u32);
        let mut parts = vec![lead];
        for _ in 0..g.rng.below(3) {
            let p = match g.rng.below(5) {
                0 => tok(&mut g, 3 + 5),
                1 => { let t = tok(&mut g, 3 + 5); g.add(Expr::Rep(t)) }
                2 => { let t = tok(&mut g, 19); g.add(Expr::Opt(t)) }
                3 => pratt,
                _ => { let t = tok(&mut g, 17); g.add(Expr::Not(t)) }
            };
            parts.push(p);
        }
        let flat = g.rng.chance(1, 2);
        let lead_in = parts.len();
        if flat {
            parts.push(comma);
        } else {
            let (a, b, l) = brackets[g.rng.below(2)];
            let inner = match g.rng.below(3) {
                0 => g.add(Expr::Rep(item)),
                1 => { let f: Vec<ExprRef> = (0..n).map(|k| tok(&mut g, FIRST_LETTER + k as u32)).collect(); let f = g.add(Expr::Or(f)); let s = g.add(Expr::WithSkip(f, item)); g.add(Expr::Rep(s)) }
                _ => g.add(Expr::Opt(pratt)),
            };
            let layer = g.add(Expr::Layer(l, inner));
            parts.push(a);
            parts.push(layer);
            parts.push(b);
        }
        let commit = if !flat { Some(g.rng.range(1, lead_in + 1)) } else if g.rng.chance(2, 3) { Some(g.rng.range(1, parts.len())) } else { None };
        let body = g.add(Expr::And(parts, commit));
        let own_cache = g.rng.chance(1, 4);
        let body = if own_cache { g.add(Expr::Cached(body)) } else { body };
        alts.push(g.add(Expr::Pub { ty: NodeTypeRef(30 + i as u32), body, replaceable: false }));
    }
    let one = g.add(Expr::Or(alts));
    g.rules[item.0 as usize] = if g.rng.chance(5, 6) { Expr::Cached(one) } else { Expr::Or(vec![one]) };
    let skip = {
        let f: Vec<ExprRef> = (0..n).map(|k| tok(&mut g, FIRST_LETTER + k as u32)).collect();
        let f = g.add(Expr::Or(f));
        g.add(Expr::WithSkip(f, item))
    };
    let rep = if g.rng.chance(2, 3) { g.add(Expr::Rep(skip)) } else { g.add(Expr::Rep(item)) };
    let body = if g.rng.chance(1, 4) {
        // what is a statement here is looked at twice, and outside of any node
        let not = g.add(Expr::Not(item));
        let eof = g.add(Expr::Eof);
        let last = g.add(Expr::And(vec![not, eof], None));
        let opt = g.add(Expr::Opt(last));
        g.add(Expr::And(vec![rep, opt], None))
    } else { rep };
    g.rules[file.0 as usize] = Expr::Pub { ty: NodeTypeRef(FILE), body, replaceable: false };
    g.rules
}

pub fn cached_text(rng: &mut Rng, rules: &[Expr]) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 6) { s.push_str(&statement(rng, rules)) }
    s
}

fn statement(rng: &mut Rng, rules: &[Expr]) -> String {
    let mut words = Vec::new();
    let mut fuel = 50;
    sentence(rng, rules, &mut fuel, ExprRef(1), &mut Vec::new(), &mut words);
    words.truncate(60);
    let mut s = String::new();
    let wide = rng.chance(1, 2);
    for w in words {
        s.push_str(&w);
        s.push_str(if wide { *rng.pick(&[" ", " ", "\n", " % k\n"]) } else { *rng.pick(&["", "", "", "", " "]) });
    }
    s
}

pub fn cached_insertion(rng: &mut Rng, rules: &[Expr]) -> String {
    match rng.below(6) {
        0..=1 => statement(rng, rules),
        2 => (*rng.pick(&["%", "\n", " ", "% c\n", "{", "}", "(", ")", ",", "kk", "☃"])).to_string(),
        3 => { let mut s = String::new(); for _ in 0..rng.below(5) { s.push_str(&word(rng)) } s }
        _ => word(rng),
    }
}
