//! Grammar files with meaning: names drawn from small pools, so that references hit, miss, shadow and collide.
//! What was written where is recorded while writing, so oracles need not look at the parse tree.

use crate::rng::Rng;

pub type Sp = (usize, usize);

pub struct Lex { pub ty: String, pub name: String, pub at: Sp, pub ty_at: Sp }
pub struct Param { pub name: String, pub at: Sp }
pub enum E {
    Ref { at: Sp, name: String },
    Call { at: Sp, id: Sp, name: String, args: Vec<E> },
    Block { at: Sp, alts: Vec<E>, pipes: Vec<Sp> },
    Opt { at: Sp, e: Box<E> },
    Rep { at: Sp, e: Box<E> },
    Seq { at: Sp, parts: Vec<E> },
}
pub struct Rule { pub at: Sp, pub id: Sp, pub name: String, pub params: Option<Vec<Param>>, pub public: bool, pub attrs: Vec<(String, Option<String>)>, pub body: E }
pub struct Method { pub name: String, pub sel: Sp, pub child: String, pub child_at: Sp, pub suffix: &'static str }
pub struct Node { pub at: Sp, pub id: Sp, pub name: String, pub traits: Vec<(Sp, String)>, pub methods: Vec<Method> }
pub struct Class { pub at: Sp, pub id: Sp, pub name: String, pub variants: Vec<String> }
pub struct Trait { pub at: Sp, pub name: String, pub methods: Vec<Method> }

#[derive(Default)]
pub struct Model {
    pub text: String,
    pub tokenizer: Option<Sp>,
    pub lex: Vec<Lex>,
    pub rules: Vec<Rule>,
    pub ast: Option<Sp>,
    pub nodes: Vec<Node>,
    pub classes: Vec<Class>,
    pub traits: Vec<Trait>,
    /// ranges of inline tests, in order
    pub tests: Vec<Sp>,
    /// pieces of punctuation and keywords that name nothing
    pub neutral: Vec<Sp>,
}

impl E {
    pub fn at(&self) -> Sp {
        match self { E::Ref { at, .. } | E::Call { at, .. } | E::Block { at, .. } | E::Opt { at, .. } | E::Rep { at, .. } | E::Seq { at, .. } => *at }
    }
    pub fn walk<'a>(&'a self, parent: Option<&'a E>, f: &mut dyn FnMut(&'a E, Option<&'a E>)) {
        f(self, parent);
        match self {
            E::Ref { .. } => {}
            E::Call { args: v, .. } | E::Block { alts: v, .. } | E::Seq { parts: v, .. } => for x in v { x.walk(Some(self), f) },
            E::Opt { e, .. } | E::Rep { e, .. } => e.walk(Some(self), f),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Style { Plain, Tight, Wild }

pub struct Gen<'r> {
    pub rng: &'r mut Rng,
    m: Model,
    style: Style,
    /// of names and counts, how many in 10 are slips
    slips: usize,
    lex_names: Vec<String>,
    rule_names: Vec<(String, usize, bool)>,
    params: Vec<String>,
    node_names: Vec<String>,
    class_names: Vec<String>,
    trait_names: Vec<String>,
    fuel: i64,
    /// only empty bodies
    barren: bool,
}

const RULE_NAMES: &[&str] = &["file", "expr", "item", "stmt", "x", "foo", "bar", "baz_1", "Été", "block", "list", "e2"];
const PARAM_NAMES: &[&str] = &["el", "x", "foo", "number", "p", "bra"];
const TOKEN_NAMES: &[&str] = &["number", "ident", "plus", "kw", "lparen", "comma", "foo", "star", "t9"];
const LITERALS: &[&str] = &["'+'", "'*'", "'('", "','", "'kw'", "'é'", "'=='", "'\\''", "'{'"];
const CONTEXTS: &[&str] = &["'ctx'", "'no_struct'", "'a'", "'+'"];
const BUILTINS: &[(&str, usize)] = &[("any", 0), ("commit", 0), ("eof", 0), ("not", 1), ("is_in", 1), ("layer", 2), ("with_skip", 2), ("inject", 2), ("enter", 2), ("exit", 2), ("prev_is", 1)];

fn wordy(c: char) -> bool { c == '_' || c.is_alphanumeric() }

impl<'r> Gen<'r> {
    fn sep(&mut self) {
        let s = match self.style {
            Style::Plain => if self.rng.chance(1, 12) { "\n  " } else { " " },
            Style::Tight => " ",
            Style::Wild => *self.rng.pick(&[" ", " ", " ", "\n", "  ", "\n\n    ", "\t", " // rule comment <x> | '\n", "\r\n", " //\n", "\u{a0}", " // é☃ }\n"]),
        };
        self.m.text.push_str(s);
    }
    fn tok(&mut self, s: &str) -> Sp {
        if let Some(a) = self.m.text.chars().last() {
            let b = s.chars().next().unwrap_or(' ');
            if !a.is_whitespace() {
                let must = wordy(a) && (wordy(b)) || a == '"' || s.starts_with("r\"") || s.starts_with("r#");
                if must || self.style == Style::Plain || (self.style == Style::Wild && self.rng.chance(2, 3)) { self.sep() }
            }
        }
        let from = self.m.text.len();
        self.m.text.push_str(s);
        (from, self.m.text.len())
    }
    fn key(&mut self, s: &str) -> Sp { let at = self.tok(s); if s.len() > 1 { self.m.neutral.push(at) } at }
    fn slip(&mut self) -> bool { let n = self.slips; self.rng.chance(n, 20) }
    fn blank_line(&mut self) { let s = if self.style == Style::Tight && self.rng.chance(2, 3) { " " } else { "\n\n" }; self.m.text.push_str(s) }

    fn attrs(&mut self, list: &[(String, Option<String>)]) -> Option<Sp> {
        if list.is_empty() { return None }
        let a = self.tok("#");
        self.tok("[");
        for (i, (k, v)) in list.iter().enumerate() {
            if i > 0 { self.tok(","); }
            self.tok(k);
            if let Some(v) = v { self.tok("("); self.tok(v); self.tok(")"); }
        }
        if self.rng.chance(1, 8) { self.tok(","); }
        let b = self.tok("]");
        Some((a.0, b.1))
    }

    fn tokenizer(&mut self) {
        let from = self.key("tokenizer");
        self.tok("{");
        let n = self.rng.below(9);
        for _ in 0..n {
            self.m.text.push_str("\n ");
            let a = if self.rng.chance(1, 5) { self.attrs(&[("skip".to_string(), None)]) } else if self.rng.chance(1, 5) { self.attrs(&[("contextual".to_string(), None)]) } else { None };
            let used: Vec<String> = self.m.lex.iter().map(|l| l.ty.clone()).collect();
            let mut ty = self.rng.pick(TOKEN_NAMES).to_string();
            if used.contains(&ty) && !self.slip() { ty = format!("{}_{}", ty, self.m.lex.len()) }
            let id = self.tok(&ty);
            let mut lit = match self.rng.below(3) { 0 => "r\"\\d+\"".to_string(), 1 => "r#\"a \"b\" é\"#".to_string(), _ => self.rng.pick(LITERALS).to_string() };
            if self.m.lex.iter().any(|l| l.name == lit) && !self.slip() { lit = format!("'l{}'", self.m.lex.len()) }
            let mut end = self.tok(&lit);
            let name = if lit.starts_with('\'') { lit.clone() } else { ty.clone() };
            if self.rng.chance(1, 8) { end = self.tok("'parse_it'") }
            self.m.lex.push(Lex { ty, name, at: (a.map_or(id.0, |a| a.0), end.1), ty_at: id });
        }
        let to = self.tok("}");
        self.m.tokenizer = Some((from.0, to.1));
    }

    fn name(&mut self) -> String {
        if self.slip() { return self.rng.pick(&["nope", "missing", "'?'", "'zz'", "number", "foo"]).to_string() }
        for _ in 0..4 {
            match self.rng.below(6) {
                0 | 1 if !self.params.is_empty() => return self.rng.pick(&self.params.clone()).clone(),
                2 | 3 if !self.lex_names.is_empty() => return self.rng.pick(&self.lex_names.clone()).clone(),
                _ if !self.rule_names.is_empty() => { let i = self.rng.below(self.rule_names.len()); return self.rule_names[i].0.clone() }
                _ => {}
            }
        }
        "file".to_string()
    }
    fn reference(&mut self, name: &str) -> E { let at = self.tok(name); E::Ref { at, name: name.to_string() } }

    fn seq(&mut self, d: usize, n: usize) -> E {
        let from = self.m.text.len();
        let parts: Vec<E> = (0..n).map(|_| self.expr(d)).collect();
        let at = match (parts.first(), parts.last()) { (Some(a), Some(b)) => (a.at().0, b.at().1), _ => (from, from) };
        E::Seq { at, parts }
    }
    fn block(&mut self, d: usize, alts: Option<usize>, parts: Option<usize>) -> E {
        let a = self.tok("{");
        let (alts, parts) = if self.barren { (Some(0), Some(0)) } else { (alts, parts) };
        let k = alts.unwrap_or_else(|| *self.rng.pick(&[0, 1, 1, 1, 2, 3, 4]));
        let mut v = Vec::new();
        let mut pipes = Vec::new();
        for i in 0..k.max(1) {
            if i > 0 { let p = self.tok("|"); pipes.push(p) }
            let n = parts.unwrap_or_else(|| if k == 0 { 0 } else { *self.rng.pick(&[0, 1, 1, 1, 2, 2, 3, 4]) });
            let s = self.seq(d + 1, n);
            v.push(s);
        }
        let b = self.tok("}");
        E::Block { at: (a.0, b.1), alts: v, pipes }
    }
    fn call(&mut self, d: usize) -> E {
        let a = self.tok("<");
        let (name, mut n) = match self.rng.below(8) {
            0..=4 => { let b = *self.rng.pick(BUILTINS); (b.0.to_string(), b.1) }
            5 | 6 => {
                let with: Vec<(String, usize, bool)> = self.rule_names.iter().filter(|r| r.2 || self.slips > 0).cloned().collect();
                if with.is_empty() { ("any".to_string(), 0) } else { let r = self.rng.pick(&with).clone(); if !r.2 && !self.slip() { ("eof".to_string(), 0) } else { (r.0, r.1) } }
            }
            _ => if self.slip() { (self.rng.pick(&["nope", "number", "el"]).to_string(), 1) } else { ("not".to_string(), 1) },
        };
        if name == "prev_is" { n = self.rng.range(1, 3) }
        if self.slip() { n = self.rng.below(4) }
        let id = self.tok(&name);
        let mut args = Vec::new();
        for i in 0..n {
            let ctx = name == "is_in" || name == "enter" || name == "exit";
            let e = if i == 0 && ctx && !self.slip() { let s = *self.rng.pick(CONTEXTS); self.reference(s) }
                else if name == "prev_is" && !self.slip() { let names: Vec<String> = self.rule_names.iter().map(|r| r.0.clone()).collect(); let s = self.rng.pick(&names).clone(); self.reference(&s) }
                else { self.expr(d + 1) };
            args.push(e);
        }
        let b = self.tok(">");
        E::Call { at: (a.0, b.1), id, name, args }
    }
    fn expr(&mut self, d: usize) -> E {
        self.fuel -= 1;
        let mut e = match self.rng.below(10) {
            0 | 1 if d < 4 && self.fuel > 0 => self.call(d),
            2 | 3 if d < 4 && self.fuel > 0 => self.block(d, None, None),
            _ => { let s = self.name(); self.reference(&s) }
        };
        while self.rng.chance(1, 6) {
            let q = self.rng.chance(1, 2);
            let t = self.tok(if q { "?" } else { "*" });
            let at = (e.at().0, t.1);
            e = if q { E::Opt { at, e: Box::new(e) } } else { E::Rep { at, e: Box::new(e) } };
        }
        e
    }

    fn rule(&mut self, i: usize) {
        let (name, n, has) = self.rule_names[i].clone();
        let mut attrs: Vec<(String, Option<String>)> = Vec::new();
        let mut shape = (None, None);
        match self.rng.below(10) {
            0 => attrs.push(("pratt".into(), None)),
            1 | 2 => {
                let k = *self.rng.pick(&["atom", "prefix", "postfix", "bin"]);
                let slip = self.slip();
                let prio = if k == "atom" { slip } else if k == "bin" { !slip } else { self.rng.chance(1, 2) };
                attrs.push((k.into(), if prio { Some(self.rng.pick(&["1", "2", "92"]).to_string()) } else { None }));
                if k == "bin" && self.slip() { attrs.last_mut().unwrap().1 = Some("high".into()) }
                let want = match k { "bin" => 3, "atom" => 1, _ => 2 };
                shape = (Some(if self.slip() { 2 } else { 1 }), Some(if self.slip() { self.rng.below(5) } else { want }));
                if self.slip() { attrs.push(("atom".into(), None)) }
            }
            3 => attrs.push(("cached".into(), None)),
            4 => attrs.push(("replaceable".into(), None)),
            5 => attrs.push(("type".into(), Some("other".into()))),
            _ => {}
        }
        if self.rng.chance(1, 8) { attrs.insert(0, ("doc".into(), Some("7".into()))) }
        let a = self.attrs(&attrs);
        let public = self.rng.chance(1, 2);
        let p = if public { Some(self.key("pub")) } else { None };
        let kw = self.key("rule");
        let id = self.tok(&name);
        self.params.clear();
        let params = if has {
            self.tok("(");
            let mut v = Vec::new();
            for k in 0..n {
                if k > 0 { self.tok(","); }
                let mut s = self.rng.pick(PARAM_NAMES).to_string();
                if v.iter().any(|p: &Param| p.name == s) { s = format!("{}{}", s, k) }
                let at = self.tok(&s);
                v.push(Param { name: s, at });
            }
            if n > 0 && self.rng.chance(1, 6) { self.tok(","); }
            self.tok(")");
            Some(v)
        } else { None };
        if let Some(v) = &params { self.params = v.iter().map(|p| p.name.clone()).collect() }
        let body = self.block(0, shape.0, shape.1);
        let from = a.or(p).unwrap_or(kw).0;
        let at = (from, body.at().1);
        self.m.rules.push(Rule { at, id, name, params, public, attrs, body });
    }

    fn methods(&mut self) -> Vec<Method> {
        let mut v = Vec::new();
        self.tok("{");
        for i in 0..self.rng.below(4) {
            self.m.text.push_str("\n  ");
            let name = format!("m{}", i);
            self.tok(&name);
            let child = match self.rng.below(4) {
                0 if !self.node_names.is_empty() => self.rng.pick(&self.node_names.clone()).clone(),
                1 if !self.class_names.is_empty() => self.rng.pick(&self.class_names.clone()).clone(),
                2 => self.rng.pick(TOKEN_NAMES).to_string(),
                _ => self.name().trim_matches('\'').chars().filter(|&c| wordy(c)).collect::<String>() + "k",
            };
            let child = if child == "k" || child.chars().next().map_or(true, |c| !wordy(c)) { "number".to_string() } else { child };
            let child_at = self.tok(&child);
            let suffix = *self.rng.pick(&["", "", "?", "*", ".text", "?.text"]);
            let mut end = child_at.1;
            match suffix {
                "" => {}
                "?" | "*" => end = self.tok(suffix).1,
                ".text" => { self.tok("."); end = self.tok("text").1 }
                _ => { self.tok("?"); self.tok("."); end = self.tok("text").1 }
            }
            v.push(Method { name, sel: (child_at.0, end), child, child_at, suffix });
        }
        self.tok("}");
        v
    }

    fn ast(&mut self) {
        let from = self.key("ast");
        self.tok("{");
        let mut todo: Vec<(u8, String)> = Vec::new();
        for s in self.node_names.clone() { todo.push((0, s)) }
        for s in self.class_names.clone() { todo.push((1, s)) }
        for s in self.trait_names.clone() { todo.push((2, s)) }
        self.rng.shuffle(&mut todo);
        for (k, name) in todo {
            self.m.text.push_str("\n ");
            match k {
                0 => {
                    let kw = self.key("node");
                    let id = self.tok(&name);
                    let mut traits = Vec::new();
                    if self.rng.chance(1, 2) {
                        self.tok(":");
                        for i in 0..self.rng.range(1, 3) {
                            if i > 0 { self.tok(","); }
                            let t = if self.slip() || self.trait_names.is_empty() { "unknown".to_string() } else { self.rng.pick(&self.trait_names.clone()).clone() };
                            let at = self.tok(&t);
                            traits.push((at, t));
                        }
                    }
                    let methods = self.methods();
                    let at = (kw.0, self.m.text.len());
                    self.m.nodes.push(Node { at, id, name, traits, methods });
                }
                1 => {
                    let kw = self.key("class");
                    let id = self.tok(&name);
                    self.tok("{");
                    let mut variants = Vec::new();
                    for _ in 0..self.rng.below(4) { let s = self.rng.pick(&["expr", "item", "foo", "stmt"]).to_string(); self.tok(&s); variants.push(s) }
                    self.tok("}");
                    let at = (kw.0, self.m.text.len());
                    self.m.classes.push(Class { at, id, name, variants });
                }
                _ => {
                    let kw = self.key("trait");
                    self.tok(&name);
                    let methods = self.methods();
                    let at = (kw.0, self.m.text.len());
                    self.m.traits.push(Trait { at, name, methods });
                }
            }
        }
        let to = self.tok("}");
        self.m.ast = Some((from.0, to.1));
    }
}

/// `slips` of 10: how often a name does not exist, an argument is missing and so on.
pub fn model(rng: &mut Rng, size: usize, slips: usize) -> Model {
    let style = *rng.pick(&[Style::Plain, Style::Tight, Style::Wild]);
    let mut g = Gen { rng, m: Model::default(), style, slips, lex_names: vec![], rule_names: vec![], params: vec![], node_names: vec![], class_names: vec![], trait_names: vec![], fuel: 40 + 12 * size as i64, barren: false };
    g.barren = slips > 0 && g.rng.chance(1, 20);
    let low = if g.rng.chance(1, 10) { 0 } else { 1 };
    let n = g.rng.range(low, size.max(1));
    for i in 0..n {
        let mut name = g.rng.pick(RULE_NAMES).to_string();
        if g.rule_names.iter().any(|r| r.0 == name) && !g.slip() { name = format!("{}_{}", name, i) }
        let has = i > 0 && g.rng.chance(1, 4);
        let k = g.rng.below(4);
        g.rule_names.push((name, if has { k } else { 0 }, has));
    }
    let pool = |g: &mut Gen, base: &[&str], max: usize| -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        for i in 0..g.rng.below(max + 1) {
            let mut s = g.rng.pick(base).to_string();
            if v.contains(&s) { s = format!("{}_{}", s, i) }
            v.push(s);
        }
        v
    };
    if g.rng.chance(3, 4) {
        g.node_names = pool(&mut g, &["expr", "item", "foo", "number", "stmt"], 4);
        g.class_names = pool(&mut g, &["any_expr", "item", "kw"], 2);
        g.trait_names = pool(&mut g, &["name_owner", "foo", "t"], 2);
    }
    let has_ast = !g.node_names.is_empty() || !g.class_names.is_empty() || !g.trait_names.is_empty();
    let tokenizer_first = g.rng.chance(5, 6);
    if g.style == Style::Wild && g.rng.chance(1, 3) { g.m.text.push_str("// leading comment\n\n") }
    if g.rng.chance(9, 10) {
        if tokenizer_first { g.tokenizer(); g.blank_line() }
        // with the tokenizer at the end its names are guesses
        g.lex_names = if tokenizer_first { g.m.lex.iter().map(|l| l.name.clone()).collect() } else { TOKEN_NAMES.iter().map(|s| s.to_string()).collect() };
    }
    let wants_tokenizer = !tokenizer_first;
    let ast_at = if has_ast { g.rng.below(n + 1) } else { usize::max_value() };
    for i in 0..=n {
        if i == ast_at { g.ast(); g.blank_line() }
        if i < n { g.rule(i); g.blank_line() }
        if g.rng.chance(1, 12) {
            let kw = g.key("test");
            let b = g.tok("r\"\n some text | < >\n\"");
            g.m.tests.push((kw.0, b.1));
            g.blank_line();
        }
        if g.rng.chance(1, 25) { g.key("verbatim"); g.tok("r\"fn f() {}\""); g.blank_line() }
    }
    if wants_tokenizer { g.tokenizer(); g.m.text.push('\n') }
    if g.style == Style::Wild && g.rng.chance(1, 3) { g.m.text.push_str("// the end") }
    g.m
}

pub fn text(rng: &mut Rng, size: usize) -> String { let slips = rng.below(6); model(rng, size, slips).text }
