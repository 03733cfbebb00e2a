//! Well-formed programs together with the tree their structure dictates (trivia left out).

use crate::langs::Kind;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum X {
    Tok(&'static str, String),
    Node(&'static str, Vec<X>),
}

impl X {
    pub fn tokens<'a>(&'a self, out: &mut Vec<&'a str>) {
        match self {
            X::Tok(_, s) => out.push(s),
            X::Node(_, ch) => for c in ch { c.tokens(out) },
        }
    }
    pub fn count(&self) -> usize {
        match self { X::Tok(..) => 1, X::Node(_, ch) => 1 + ch.iter().map(X::count).sum::<usize>() }
    }
    pub fn dump(&self) -> String {
        fn go(x: &X, level: usize, out: &mut String) {
            for _ in 0..level { out.push_str("  ") }
            match x {
                X::Tok(n, s) => out.push_str(&format!("{} {:?}\n", n, s)),
                X::Node(n, ch) => { out.push_str(&format!("{}\n", n)); for c in ch { go(c, level + 1, out) } }
            }
        }
        let mut s = String::new();
        go(self, 0, &mut s);
        s
    }
}

pub fn t(name: &'static str, text: &str) -> X { X::Tok(name, text.to_string()) }
pub fn n(name: &'static str, ch: Vec<X>) -> X { X::Node(name, ch) }

/// How tokens are laid out in the text.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Layout { Spaces, Tight, Wild }

fn standalone(kind: Kind) -> &'static str {
    match kind {
        Kind::Json => "{}[]:,",
        Kind::Bnf => "|",
        Kind::Fall => "{}[]()<>,|*?.:",
        Kind::Rust => "(){}[],;",
        Kind::Arith => "+-*/!()",
        Kind::Sexp => "()",
        Kind::Weird => "{}",
    }
}

pub fn separator(rng: &mut Rng, kind: Kind, layout: Layout) -> String {
    if layout != Layout::Wild { return if rng.chance(1, 10) { "\n".into() } else { " ".into() } }
    match rng.below(12) {
        0..=4 => " ".into(),
        5 => "\n".into(),
        6 => "\r\n\t".into(),
        7 => "  \n\n  ".into(),
        8 => "\u{a0}\u{2003}".into(),
        _ => match kind {
            Kind::Fall => (*rng.pick(&[" // comment rule { } '\n", "\n//\n", " //é☃\n "])).into(),
            Kind::Rust => (*rng.pick(&[" // fn comment { '\"\n", "\n//\n", " /* block */ ", " /* nested /* { */ fn */\n", "/**/", " /* é */ ", "\n/// doc\n"])).into(),
            _ => "\t \t".into(),
        },
    }
}

pub fn layout(rng: &mut Rng, kind: Kind, toks: &[&str], layout: Layout) -> String {
    let set = standalone(kind);
    let mut s = String::new();
    if layout == Layout::Wild && rng.chance(1, 2) { s.push_str(&separator(rng, kind, layout)); }
    for (i, tok) in toks.iter().enumerate() {
        if i > 0 {
            let prev = toks[i - 1];
            let a = prev.chars().last().unwrap_or(' ');
            let b = tok.chars().next().unwrap_or(' ');
            let quoted = prev.starts_with('\'') || tok.starts_with('\'') || prev.starts_with("r#") || tok.starts_with("r#");
            let safe = (set.contains(a) || set.contains(b)) && !(kind == Kind::Rust && quoted);
            if !(layout != Layout::Spaces && safe && rng.chance(3, 4)) {
                let sep = separator(rng, kind, layout);
                if a == '/' && sep.starts_with('/') { s.push(' ') }
                s.push_str(&sep);
            }
        }
        s.push_str(tok);
    }
    if layout == Layout::Wild && rng.chance(1, 2) { s.push_str(&separator(rng, kind, layout)); }
    s
}

pub fn random_layout(rng: &mut Rng) -> Layout { *rng.pick(&[Layout::Spaces, Layout::Tight, Layout::Wild]) }

pub fn render(rng: &mut Rng, kind: Kind, x: &X, l: Layout) -> String {
    let mut toks = Vec::new();
    x.tokens(&mut toks);
    layout(rng, kind, &toks, l)
}

pub fn valid(rng: &mut Rng, kind: Kind, size: usize) -> String {
    let x = program(rng, kind, size);
    let l = random_layout(rng);
    render(rng, kind, &x, l)
}

/// A program of roughly `size` constructs.
pub fn program(rng: &mut Rng, kind: Kind, size: usize) -> X {
    let mut g = G { rng, fuel: size as i64 };
    match kind {
        Kind::Json => g.json(),
        Kind::Bnf => g.bnf(),
        Kind::Fall => g.fall(),
        Kind::Rust => g.rust_file(),
        Kind::Arith => { let e = g.arith(0, 0); n("FILE", vec![e]) }
        Kind::Sexp => { let k = g.rng.below(6); let v = (0..k).map(|_| g.sexp(0)).collect(); n("FILE", v) }
        Kind::Weird => g.weird(),
    }
}

pub struct G<'r> { pub rng: &'r mut Rng, pub fuel: i64 }

const IDENTS: &[&str] = &["a", "foo", "bar_1", "Baz", "x2", "_u", "long_identifier_name", "é", "Ж", "structure", "fnord", "ifx", "r", "r1", "selfish", "nodes"];

impl<'r> G<'r> {
    fn spend(&mut self) -> bool { self.fuel -= 1; self.fuel > 0 }
    fn p(&mut self, num: usize, den: usize) -> bool { self.rng.chance(num, den) }
    fn num(&mut self) -> String { if self.p(1, 3) { format!("{}", self.rng.below(100000)) } else { format!("{}", self.rng.below(10)) } }

    // ---------------------------------------------------------------- json
    fn json_string(&mut self) -> X {
        let s = *self.rng.pick(&["\"\"", "\"a\"", "\"key\"", "\"é☃🎉\"", "\"{[]},:\"", "\"a b\\n\"", "\"true\"", "\"\n\"", "\"'\""]);
        t("STRING", s)
    }
    pub fn json(&mut self) -> X {
        let v = if self.p(1, 2) { self.json_object(0) } else { self.json_array(0) };
        n("FILE", vec![v])
    }
    fn json_object(&mut self, d: usize) -> X {
        let mut ch = vec![t("LBRACE", "{")];
        let k = if self.spend() { self.rng.below(4) } else { 0 };
        for i in 0..k {
            if i > 0 { ch.push(t("COMMA", ",")) }
            let key = self.json_string();
            let v = self.json_value(d + 1);
            ch.push(n("FIELD", vec![key, t("COLON", ":"), v]));
        }
        ch.push(t("RBRACE", "}"));
        n("OBJECT", ch)
    }
    fn json_array(&mut self, d: usize) -> X {
        let mut ch = vec![t("LBRACK", "[")];
        let k = if self.spend() { self.rng.below(4) } else { 0 };
        for i in 0..k {
            if i > 0 { ch.push(t("COMMA", ",")) }
            let v = self.json_value(d + 1);
            ch.push(v);
        }
        ch.push(t("RBRACK", "]"));
        n("ARRAY", ch)
    }
    fn json_value(&mut self, d: usize) -> X {
        let bound = if d > 20 || self.fuel < 0 { 4 } else { 8 };
        match self.rng.below(bound) {
            0 => n("PRIMITIVE", vec![t("NULL", "null")]),
            1 => { let s = self.num(); n("PRIMITIVE", vec![t("NUMBER", &s)]) }
            2 => { let s = self.json_string(); n("PRIMITIVE", vec![s]) }
            3 => { let b = *self.rng.pick(&["true", "false"]); n("PRIMITIVE", vec![t("BOOL", b)]) }
            4 | 5 => self.json_object(d),
            _ => self.json_array(d),
        }
    }

    // ---------------------------------------------------------------- bnf
    pub fn bnf(&mut self) -> X {
        let k = self.rng.size(12).min((self.fuel.max(0) as usize) + 1);
        let v = (0..k).map(|_| {
            let head = *self.rng.pick(IDENTS);
            let mut body = Vec::new();
            for i in 0..self.rng.range(1, 4) {
                if i > 0 { body.push(t("PIPE", "|")) }
                let m = self.rng.range(1, 5);
                let syms = (0..m).map(|_| {
                    let s = if self.p(1, 2) { t("NONTERMINAL", *self.rng.pick(IDENTS)) } else { t("TERMINAL", *self.rng.pick(&["'x'", "'+'", "'->'", "'|'", "'é'", "' '"])) };
                    n("SYMBOL", vec![s])
                }).collect();
                body.push(n("ALT", syms));
            }
            n("PROD", vec![t("NONTERMINAL", head), t("ARROW", "->"), n("PROD_BODY", body)])
        }).collect();
        n("GRAMMAR", v)
    }

    // ---------------------------------------------------------------- arithmetic: + - bind as 1, * / as 2, unary tighter
    pub fn arith(&mut self, min: u32, d: usize) -> X {
        let choice = if d > 20 || !self.spend() { 0 } else { self.rng.below(8) };
        match choice {
            1 | 2 if min <= 1 => {
                let l = self.arith(1, d + 1);
                let r = self.arith(2, d + 1);
                let op = if self.p(1, 2) { t("PLUS", "+") } else { t("MINUS", "-") };
                n("SUM_EXPR", vec![l, op, r])
            }
            3 | 4 if min <= 2 => {
                let l = self.arith(2, d + 1);
                let r = self.arith(3, d + 1);
                let op = if self.p(1, 2) { t("STAR", "*") } else { t("SLASH", "/") };
                n("PRODUCT_EXPR", vec![l, op, r])
            }
            5 => { let e = self.arith(3, d + 1); n("NEGATE_EXPR", vec![t("MINUS", "-"), e]) }
            6 => {
                // the operand of a postfix operator may not start with a prefix operator
                let mut e = self.arith_atom(d + 1);
                for _ in 0..self.rng.range(1, 2) { e = n("FACTORIAL_EXPR", vec![e, t("BANG", "!")]); }
                e
            }
            _ => self.arith_atom(d + 1),
        }
    }
    fn arith_atom(&mut self, d: usize) -> X {
        if d < 20 && self.fuel > 0 && self.p(1, 3) {
            let e = self.arith(0, d + 1);
            n("PAREN_EXPR", vec![t("LPAREN", "("), e, t("RPAREN", ")")])
        } else {
            let s = self.num();
            n("CONSTANT_EXPR", vec![t("NUMBER", &s)])
        }
    }

    // ---------------------------------------------------------------- s-expressions
    pub fn sexp(&mut self, d: usize) -> X {
        if d > 20 || !self.spend() || self.p(1, 2) { return t("ATOM", *self.rng.pick(IDENTS)); }
        let mut ch = vec![t("LPAREN", "(")];
        for _ in 0..self.rng.below(4) { let s = self.sexp(d + 1); ch.push(s) }
        ch.push(t("RPAREN", ")"));
        n("LIST", ch)
    }

    // ---------------------------------------------------------------- the odd test language
    fn weird(&mut self) -> X {
        let v = match self.rng.below(4) {
            0 => { let s = *self.rng.pick(&["r#\"x\"#", "r##\"a\"#b\"##", "r#\"\"#", "r###\"é \"## x\"###"]); vec![t("T1", "_1"), t("RAW_STRING", s)] }
            1 => vec![t("T2", "_2"), n("EMPTY", vec![]), t("ATOM", "xyz"), n("EMPTY", vec![])],
            2 => vec![t("T3", "_3"), n("PRIVATE_PARTIAL", vec![t("FOO", "foo"), if self.p(1, 2) { t("FOO", "foo") } else { t("BAR", "bar") }])],
            _ => {
                let mut ch = vec![t("LBRACE", "{")];
                let mut open = 0;
                for _ in 0..self.rng.below(12) {
                    match self.rng.below(4) {
                        0 => { open += 1; ch.push(t("LBRACE", "{")) }
                        1 if open > 0 => { open -= 1; ch.push(t("RBRACE", "}")) }
                        2 => ch.push(t("FOO", "foo")),
                        _ => ch.push(t("ATOM", "zz")),
                    }
                }
                for _ in 0..open { ch.push(t("RBRACE", "}")) }
                ch.push(t("RBRACE", "}"));
                vec![t("T4", "_4"), n("BLOCK", ch)]
            }
        };
        n("FILE", v)
    }

    // ---------------------------------------------------------------- the grammar language
    fn fident(&mut self) -> X { t("IDENT", *self.rng.pick(&["foo", "bar", "baz_1", "expr", "comma_list", "el", "é", "x", "r1", "ident", "number", "tests", "rules"])) }
    fn fstring(&mut self) -> X { t("SIMPLE_STRING", *self.rng.pick(&["'x'", "'+'", "'{'", "'rule'", "'\\''", "''", "'é'", "'//'"])) }
    fn fhash(&mut self) -> X { t("HASH_STRING", *self.rng.pick(&["r\"\\w+\"", "r#\"a\"b\"#", "r\"\"", "r##\"\"#\"##", "r\"\n rule x { }\n\"", "r\"é\""])) }
    fn fexpr(&mut self, d: usize) -> X {
        let bound = if d > 8 || !self.spend() { 2 } else { 6 };
        let base = match self.rng.below(bound) {
            0 => { let i = self.fident(); n("REF_EXPR", vec![i]) }
            1 | 2 => { let s = self.fstring(); n("REF_EXPR", vec![s]) }
            3 => self.fblock(d + 1),
            _ => {
                let mut ch = vec![t("L_ANGLE", "<"), t("IDENT", *self.rng.pick(&["not", "eof", "any", "layer", "commit", "with_skip", "foo", "comma_list", "is_in", "enter"]))];
                for _ in 0..self.rng.below(3) { let e = self.fexpr(d + 1); ch.push(e) }
                ch.push(t("R_ANGLE", ">"));
                n("CALL_EXPR", ch)
            }
        };
        match self.rng.below(8) {
            0 => n("OPT_EXPR", vec![base, t("QUESTION", "?")]),
            1 => n("REP_EXPR", vec![base, t("STAR", "*")]),
            2 => n("REP_EXPR", vec![n("OPT_EXPR", vec![base, t("QUESTION", "?")]), t("STAR", "*")]),
            _ => base,
        }
    }
    fn fblock(&mut self, d: usize) -> X {
        let mut ch = vec![t("L_CURLY", "{")];
        for i in 0..self.rng.range(1, 3) {
            if i > 0 { ch.push(t("PIPE", "|")) }
            let k = self.rng.below(4);
            let parts = (0..k).map(|_| self.fexpr(d + 1)).collect();
            ch.push(n("SEQ_EXPR", parts));
        }
        ch.push(t("R_CURLY", "}"));
        n("BLOCK_EXPR", ch)
    }
    fn fattributes(&mut self) -> X {
        let mut ch = vec![t("HASH", "#"), t("L_SQUARE", "[")];
        let k = self.rng.below(3) + 1;
        for i in 0..k {
            if i > 0 { ch.push(t("COMMA", ",")) }
            let mut a = vec![t("IDENT", *self.rng.pick(&["pratt", "atom", "bin", "skip", "cached", "type", "contextual", "prefix"]))];
            if self.p(1, 2) {
                let v = if self.p(1, 2) { let s = self.num(); t("NUMBER", &s) } else { self.fident() };
                a.push(t("L_PAREN", "("));
                a.push(n("ATTRIBUTE_VALUE", vec![v]));
                a.push(t("R_PAREN", ")"));
            }
            ch.push(n("ATTRIBUTE", a));
        }
        if self.p(1, 4) { ch.push(t("COMMA", ",")) }
        ch.push(t("R_SQUARE", "]"));
        n("ATTRIBUTES", ch)
    }
    fn fmethods(&mut self, ch: &mut Vec<X>) {
        ch.push(t("L_CURLY", "{"));
        for _ in 0..self.rng.below(4) {
            let a = self.fident();
            let mut sel = vec![self.fident()];
            match self.rng.below(5) {
                0 => { sel.push(t("QUESTION", "?")); sel.push(t("DOT", ".")); sel.push(t("IDENT", "text")) }
                1 => { sel.push(t("DOT", ".")); sel.push(t("IDENT", "text")) }
                2 => sel.push(t("STAR", "*")),
                3 => sel.push(t("QUESTION", "?")),
                _ => {}
            }
            ch.push(n("METHOD_DEF", vec![a, n("AST_SELECTOR", sel)]));
        }
        ch.push(t("R_CURLY", "}"));
    }
    pub fn fall(&mut self) -> X {
        let k = self.rng.size(14).min((self.fuel.max(0) as usize) / 3 + 1);
        let v = (0..k).map(|_| self.fall_item()).collect();
        n("FALL_FILE", v)
    }
    pub fn fall_item(&mut self) -> X {
        match self.rng.below(10) {
            0 => {
                let mut ch = vec![t("TOKENIZER", "tokenizer"), t("L_CURLY", "{")];
                for _ in 0..self.rng.below(4) {
                    let mut r = Vec::new();
                    if self.p(1, 3) { let a = self.fattributes(); r.push(a) }
                    let i = self.fident();
                    r.push(i);
                    let s = if self.p(1, 2) { self.fstring() } else { self.fhash() };
                    r.push(n("STRING", vec![s]));
                    if self.p(1, 3) { let s = self.fstring(); r.push(n("STRING", vec![s])) }
                    ch.push(n("LEX_RULE", r));
                }
                ch.push(t("R_CURLY", "}"));
                n("TOKENIZER_DEF", ch)
            }
            1 => { let h = self.fhash(); n("VERBATIM_DEF", vec![t("VERBATIM", "verbatim"), h]) }
            2 => { let h = self.fhash(); n("TEST_DEF", vec![t("TEST", "test"), h]) }
            3 => {
                let mut ch = vec![t("AST", "ast"), t("L_CURLY", "{")];
                for _ in 0..self.rng.below(4) {
                    let mut d = Vec::new();
                    match self.rng.below(3) {
                        0 => {
                            d.push(t("NODE", "node"));
                            d.push(self.fident());
                            if self.p(1, 3) {
                                d.push(t("COLON", ":"));
                                d.push(self.fident());
                                if self.p(1, 2) { d.push(t("COMMA", ",")); d.push(self.fident()) }
                            }
                            self.fmethods(&mut d);
                            ch.push(n("AST_NODE_DEF", d));
                        }
                        1 => {
                            d.push(t("CLASS", "class"));
                            d.push(self.fident());
                            d.push(t("L_CURLY", "{"));
                            for _ in 0..self.rng.below(4) { d.push(self.fident()) }
                            d.push(t("R_CURLY", "}"));
                            ch.push(n("AST_CLASS_DEF", d));
                        }
                        _ => {
                            d.push(t("TRAIT", "trait"));
                            d.push(self.fident());
                            self.fmethods(&mut d);
                            ch.push(n("AST_TRAIT_DEF", d));
                        }
                    }
                }
                ch.push(t("R_CURLY", "}"));
                n("AST_DEF", ch)
            }
            _ => {
                let mut ch = Vec::new();
                if self.p(1, 3) { let a = self.fattributes(); ch.push(a) }
                if self.p(1, 2) { ch.push(t("PUB", "pub")) }
                ch.push(t("RULE", "rule"));
                ch.push(self.fident());
                if self.p(1, 4) {
                    let mut p = vec![t("L_PAREN", "(")];
                    for i in 0..self.rng.below(4) {
                        if i > 0 { p.push(t("COMMA", ",")) }
                        let id = self.fident();
                        p.push(n("PARAMETER", vec![id]));
                    }
                    p.push(t("R_PAREN", ")"));
                    ch.push(n("PARAMETERS", p));
                }
                let b = self.fblock(0);
                ch.push(b);
                n("SYN_RULE", ch)
            }
        }
    }
}

/// The tree of a file without trivia; an error node without text is written with no children.
pub fn of_tree(node: fall_tree::Node) -> X {
    let name = crate::langs::ty_name(node.file(), node);
    let is_leaf = node.children().next().is_none();
    if is_leaf && !node.range().is_empty() { return X::Tok(name, node.text().to_string()); }
    X::Node(name, node.children().filter(|&c| !crate::langs::is_ws(c)).map(of_tree).collect())
}

impl X {
    pub fn diff(&self, o: &X) -> Option<String> {
        match (self, o) {
            (X::Tok(a, s), X::Tok(b, r)) => if a == b && s == r { None } else { Some(format!("{} {:?} vs {} {:?}", a, s, b, r)) },
            (X::Node(a, x), X::Node(b, y)) => {
                if a != b { return Some(format!("{} vs {}", a, b)); }
                for (p, q) in x.iter().zip(y.iter()) { if let Some(d) = p.diff(q) { return Some(format!("{} > {}", a, d)); } }
                if x.len() == y.len() { None } else { Some(format!("{} has {} children vs {}", a, x.len(), y.len())) }
            }
            (X::Tok(a, s), X::Node(b, _)) => Some(format!("token {} {:?} vs node {}", a, s, b)),
            (X::Node(a, _), X::Tok(b, s)) => Some(format!("node {} vs token {} {:?}", a, b, s)),
        }
    }
}
