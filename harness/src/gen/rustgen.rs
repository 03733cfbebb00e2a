//! Rust programs and their trees, written from the language's grammar documentation (rust.fall), not from the parser.

use super::programs::{n, t, G, X};

fn id(s: &str) -> X { t("IDENT", s) }

/// Where an expression stands.
#[derive(Clone, Copy)]
struct Ctx {
    /// in a condition: no struct literals
    cond: bool,
    /// in brackets or after `=`: an expression with a block may be an operand
    blk: bool,
    d: usize,
}

impl Ctx {
    fn at(d: usize) -> Ctx { Ctx { cond: false, blk: true, d } }
    fn free(self) -> Ctx { Ctx::at(self.d + 1) }
    fn deeper(self) -> Ctx { Ctx { d: self.d + 1, ..self } }
    fn stmt(self) -> Ctx { Ctx { cond: false, blk: false, d: self.d + 1 } }
    fn condition(self) -> Ctx { Ctx { cond: true, blk: false, d: self.d + 1 } }
}

/// A cast at the right edge takes a following `+` for a bound of its type.
fn ends_in_cast(x: &X) -> bool {
    match x {
        X::Node("CAST_EXPR", _) => true,
        X::Node(_, ch) => ch.last().map_or(false, ends_in_cast),
        _ => false,
    }
}

fn blockish(x: &X) -> bool {
    match x {
        X::Node(name, _) => ["BLOCK_EXPR", "IF_EXPR", "WHILE_EXPR", "LOOP_EXPR", "FOR_EXPR", "MATCH_EXPR", "BLOCK_MACRO_EXPR"].contains(name),
        _ => false,
    }
}

const NAMES: &[&str] = &["a", "foo", "bar_1", "Baz", "x2", "_u", "é", "Ж", "structure", "fnord", "ifx", "rr", "selfish", "T", "long_name", "matches"];

impl<'r> G<'r> {
    fn rp(&mut self, num: usize, den: usize) -> bool { self.rng.chance(num, den) }
    fn more(&mut self) -> bool { self.fuel -= 1; self.fuel > 0 }
    fn name(&mut self) -> X { id(*self.rng.pick(NAMES)) }
    fn lifetime(&mut self) -> X { t("LIFETIME", *self.rng.pick(&["'a", "'static", "'lt_1", "'de"])) }
    fn string(&mut self) -> X { t("STRING", *self.rng.pick(&["\"s\"", "\"\"", "\"a\\\"b\"", "\"é { fn\"", "\"\n\""])) }

    pub fn rust_file(&mut self) -> X {
        let k = self.rng.size(10).min((self.fuel.max(0) as usize) / 4 + 1);
        let v = (0..k).map(|_| self.item(0)).collect();
        n("FILE", v)
    }

    fn list(&mut self, ch: &mut Vec<X>, k: usize, trailing: bool, f: &mut dyn FnMut(&mut Self) -> Vec<X>) {
        for i in 0..k {
            if i > 0 { ch.push(t("COMMA", ",")) }
            let e = f(self);
            ch.extend(e);
        }
        if trailing && k > 0 && self.rp(1, 4) { ch.push(t("COMMA", ",")) }
    }

    fn attr_value(&mut self, d: usize) -> X {
        let mut ch = vec![self.name()];
        match self.rng.below(4) {
            0 => { ch.push(t("EQ", "=")); let s = self.string(); ch.push(n("LITERAL", vec![s])) }
            1 if d < 2 => {
                ch.push(t("L_PAREN", "("));
                let k = self.rng.below(3);
                self.list(&mut ch, k, true, &mut |g| vec![g.attr_value(d + 1)]);
                ch.push(t("R_PAREN", ")"));
            }
            _ => {}
        }
        n("ATTR_VALUE", ch)
    }
    fn attr_body(&mut self, ch: &mut Vec<X>) {
        ch.push(t("L_BRACK", "["));
        let k = self.rng.below(3);
        self.list(ch, k, true, &mut |g| vec![g.attr_value(0)]);
        ch.push(t("R_BRACK", "]"));
    }
    fn attribute(&mut self) -> X {
        let mut ch = vec![t("HASH", "#")];
        self.attr_body(&mut ch);
        n("ATTRIBUTE", ch)
    }
    fn visibility(&mut self) -> X {
        let mut ch = vec![t("PUB", "pub")];
        if self.rp(1, 3) {
            ch.push(t("L_PAREN", "("));
            ch.push(if self.rp(1, 2) { t("CRATE", "crate") } else { t("SUPER", "super") });
            ch.push(t("R_PAREN", ")"));
        }
        n("VISIBILITY", ch)
    }
    fn decorate(&mut self, item: X) -> X {
        match item {
            X::Node(name, mut ch) => {
                let mut pre = Vec::new();
                if self.rp(1, 4) { for _ in 0..self.rng.range(1, 2) { let a = self.attribute(); pre.push(a) } }
                if self.rp(1, 3) { let v = self.visibility(); pre.push(v) }
                pre.append(&mut ch);
                X::Node(name, pre)
            }
            tok => tok,
        }
    }

    pub fn item(&mut self, d: usize) -> X {
        let choice = self.rng.below(16);
        let item = match choice {
            0 => self.use_decl(),
            1 => {
                let mut ch = vec![t("EXTERN", "extern"), t("CRATE", "crate"), self.name()];
                if self.rp(1, 3) { let a = self.name(); ch.push(n("ALIAS", vec![t("AS", "as"), a])) }
                ch.push(t("SEMI", ";"));
                n("EXTERN_CRATE_DECL", ch)
            }
            2..=6 => self.fn_def(d, true),
            7 => self.struct_def(),
            8 => self.enum_def(),
            9 => {
                let mut ch = vec![t("MOD", "mod"), self.name()];
                if d > 3 || !self.more() || self.rp(1, 3) { ch.push(t("SEMI", ";")) } else {
                    ch.push(t("L_CURLY", "{"));
                    for _ in 0..self.rng.below(4) { let i = self.item(d + 1); ch.push(i) }
                    ch.push(t("R_CURLY", "}"));
                }
                n("MOD_DEF", ch)
            }
            10 => {
                let mut ch = Vec::new();
                if self.rp(1, 6) { ch.push(t("UNSAFE", "unsafe")) }
                ch.push(t("IMPL", "impl"));
                if self.rp(1, 3) { let p = self.type_parameters(); ch.push(p) }
                ch.push(self.path_type_ref(1));
                if self.rp(1, 2) { ch.push(t("FOR", "for")); let x = self.path_type_ref(1); ch.push(x) }
                if self.rp(1, 4) { let w = self.where_clause(); ch.push(w) }
                let m = self.members(d + 1);
                ch.push(m);
                n("IMPL_DEF", ch)
            }
            11 => {
                let mut ch = vec![t("TRAIT", "trait"), self.name()];
                if self.rp(1, 3) { let p = self.type_parameters(); ch.push(p) }
                if self.rp(1, 3) { self.bounds(&mut ch, 1) }
                if self.rp(1, 4) { let w = self.where_clause(); ch.push(w) }
                let m = self.members(d + 1);
                ch.push(m);
                n("TRAIT_DEF", ch)
            }
            12 => {
                let mut ch = Vec::new();
                let l = self.linkage();
                ch.push(l);
                ch.push(t("L_CURLY", "{"));
                for _ in 0..self.rng.below(3) {
                    let i = if self.rp(1, 2) { self.fn_def(d + 1, false) } else { self.const_def() };
                    let i = self.decorate(i);
                    ch.push(i);
                }
                ch.push(t("R_CURLY", "}"));
                n("EXTERN_BLOCK", ch)
            }
            13 => self.type_def(),
            14 => self.const_def(),
            _ => return self.macro_item(),
        };
        self.decorate(item)
    }

    fn macro_item(&mut self) -> X {
        if self.rp(1, 2) { let m = self.block_macro(); n("MACRO_ITEM", vec![m]) }
        else { let m = self.line_macro(); n("MACRO_ITEM", vec![m, t("SEMI", ";")]) }
    }
    fn tt(&mut self, d: usize) -> X {
        let bound = if d > 3 || !self.more() { 6 } else { 9 };
        let k = self.rng.below(bound);
        match k {
            0 => { let i = self.name(); n("TT", vec![i]) }
            1 => n("TT", vec![t("FAT_ARROW", "=>")]),
            2 => n("TT", vec![t("COMMA", ",")]),
            3 => n("TT", vec![t("NUMBER", "92")]),
            4 => { let s = self.string(); n("TT", vec![s]) }
            5 => n("TT", vec![t("FN", "fn")]),
            k => {
                let (a, b) = [(t("L_PAREN", "("), t("R_PAREN", ")")), (t("L_BRACK", "["), t("R_BRACK", "]")), (t("L_CURLY", "{"), t("R_CURLY", "}"))][k - 6].clone();
                let mut ch = vec![a];
                for _ in 0..self.rng.below(3) { let x = self.tt(d + 1); ch.push(x) }
                ch.push(b);
                n("TT", ch)
            }
        }
    }
    fn block_macro(&mut self) -> X {
        let mut ch = vec![self.name(), t("BANG", "!")];
        if self.rp(1, 4) { let i = self.name(); ch.push(i) }
        ch.push(t("L_CURLY", "{"));
        for _ in 0..self.rng.below(4) { let x = self.tt(0); ch.push(x) }
        ch.push(t("R_CURLY", "}"));
        n("BLOCK_MACRO", ch)
    }
    fn line_macro(&mut self) -> X {
        let mut ch = vec![self.name(), t("BANG", "!")];
        if self.rp(1, 6) { let i = self.name(); ch.push(i) }
        let paren = self.rp(2, 3);
        ch.push(if paren { t("L_PAREN", "(") } else { t("L_BRACK", "[") });
        for _ in 0..self.rng.below(4) { let x = self.tt(0); ch.push(x) }
        ch.push(if paren { t("R_PAREN", ")") } else { t("R_BRACK", "]") });
        n("LINE_MACRO", ch)
    }

    fn mod_path(&mut self) -> X {
        let seg = |g: &mut Self, first: bool| {
            let k = match g.rng.below(6) { 0 if first => t("SELF", "self"), 1 => t("SUPER", "super"), _ => g.name() };
            n("PATH_SEGMENT", vec![k])
        };
        let s = seg(self, true);
        let mut p = if self.rp(1, 5) { n("PATH", vec![t("COLONCOLON", "::"), s]) } else { n("PATH", vec![s]) };
        for _ in 0..self.rng.below(3) {
            let s = seg(self, false);
            p = n("PATH", vec![p, t("COLONCOLON", "::"), s]);
        }
        p
    }
    fn use_decl(&mut self) -> X {
        let mut ch = vec![t("USE", "use")];
        let kind = self.rng.below(4);
        if kind < 3 { let p = self.mod_path(); ch.push(p) }
        if kind == 1 { let a = self.name(); ch.push(n("ALIAS", vec![t("AS", "as"), a])) }
        if kind == 2 { ch.push(t("COLONCOLON", "::")) }
        if kind == 3 && self.rp(1, 2) { ch.push(t("COLONCOLON", "::")) }
        if kind >= 2 {
            if self.rp(1, 3) { ch.push(n("USE_SPEC", vec![t("STAR", "*")])) } else {
                let mut s = vec![t("L_CURLY", "{")];
                let k = self.rng.below(4);
                self.list(&mut s, k, true, &mut |g| {
                    if g.rp(1, 4) { return vec![n("USE_SPEC_ENTRY", vec![t("SELF", "self")])] }
                    let mut e = vec![g.name()];
                    if g.rp(1, 4) { let a = g.name(); e.push(n("ALIAS", vec![t("AS", "as"), a])) }
                    vec![n("USE_SPEC_ENTRY", e)]
                });
                s.push(t("R_CURLY", "}"));
                ch.push(n("USE_SPEC", s));
            }
        }
        ch.push(t("SEMI", ";"));
        n("USE_DECL", ch)
    }

    fn linkage(&mut self) -> X {
        let mut ch = vec![t("EXTERN", "extern")];
        if self.rp(1, 2) { let s = self.string(); ch.push(s) }
        n("LINKAGE", ch)
    }
    fn fn_def(&mut self, d: usize, body: bool) -> X {
        let mut ch = Vec::new();
        if self.rp(1, 8) { ch.push(t("CONST", "const")) }
        if self.rp(1, 8) { ch.push(t("UNSAFE", "unsafe")) }
        if self.rp(1, 8) { let l = self.linkage(); ch.push(l) }
        ch.push(t("FN", "fn"));
        ch.push(self.name());
        if self.rp(1, 3) { let p = self.type_parameters(); ch.push(p) }
        ch.push(t("L_PAREN", "("));
        let k = self.rng.below(3);
        if self.rp(1, 4) {
            let mut s = Vec::new();
            match self.rng.below(3) {
                0 => { s.push(t("AMPERSAND", "&")); if self.rp(1, 3) { let l = self.lifetime(); s.push(l) } if self.rp(1, 3) { s.push(t("MUT", "mut")) } }
                1 => s.push(t("MUT", "mut")),
                _ => {}
            }
            s.push(t("SELF", "self"));
            if self.rp(1, 4) { s.push(t("COLON", ":")); let ty = self.type_ref(1); s.push(ty) }
            if k > 0 || self.rp(1, 4) { s.push(t("COMMA", ",")) }
            ch.push(n("SELF_PARAMETER", s));
        }
        self.list(&mut ch, k, true, &mut |g| {
            let mut p = g.pattern(1);
            // `self: T` is the self parameter
            let mut toks = Vec::new();
            p.tokens(&mut toks);
            let i = toks.iter().take_while(|s| ["&", "mut"].contains(s)).count();
            if toks.get(i) == Some(&"self") && toks.get(i + 1) != Some(&"::") { p = n("PAREN_PATTERN", vec![t("L_PAREN", "("), p, t("R_PAREN", ")")]) }
            let ty = g.type_ref(1); vec![n("VALUE_PARAM", vec![p, t("COLON", ":"), ty])] });
        ch.push(t("R_PAREN", ")"));
        if self.rp(1, 3) { ch.push(t("THIN_ARROW", "->")); let ty = self.type_ref(1); ch.push(ty) }
        if body && self.rp(9, 10) {
            if self.rp(1, 6) { let w = self.where_clause(); ch.push(w) }
            let b = self.block(Ctx::at(d + 1), false);
            ch.push(b);
        } else { ch.push(t("SEMI", ";")) }
        n("FN_DEF", ch)
    }
    fn struct_field(&mut self) -> X {
        let mut f = Vec::new();
        if self.rp(1, 3) { let v = self.visibility(); f.push(v) }
        f.push(self.name());
        f.push(t("COLON", ":"));
        let ty = self.type_ref(1);
        f.push(ty);
        n("STRUCT_FIELD", f)
    }
    fn tuple_field(&mut self) -> X {
        let mut f = Vec::new();
        // `pub (T)` would be a visibility restriction
        if self.rp(1, 3) { let v = self.visibility(); f.push(v); let ty = self.path_type_ref(1); f.push(ty) }
        else { let ty = self.type_ref(1); f.push(ty) }
        n("TUPLE_FIELD", f)
    }
    fn struct_def(&mut self) -> X {
        let mut ch = vec![if self.rp(1, 6) { t("UNION", "union") } else { t("STRUCT", "struct") }, self.name()];
        if self.rp(1, 3) { let p = self.type_parameters(); ch.push(p) }
        match self.rng.below(3) {
            0 => {
                ch.push(t("L_CURLY", "{"));
                let k = self.rng.below(4);
                self.list(&mut ch, k, true, &mut |g| vec![g.struct_field()]);
                ch.push(t("R_CURLY", "}"));
            }
            1 => ch.push(t("SEMI", ";")),
            _ => {
                ch.push(t("L_PAREN", "("));
                let k = self.rng.below(4);
                self.list(&mut ch, k, true, &mut |g| vec![g.tuple_field()]);
                ch.push(t("R_PAREN", ")"));
                ch.push(t("SEMI", ";"));
            }
        }
        n("STRUCT_DEF", ch)
    }
    fn enum_def(&mut self) -> X {
        let mut ch = vec![t("ENUM", "enum"), self.name()];
        if self.rp(1, 3) { let p = self.type_parameters(); ch.push(p) }
        ch.push(t("L_CURLY", "{"));
        let k = self.rng.below(5);
        self.list(&mut ch, k, true, &mut |g| {
            let mut v = vec![g.name()];
            match g.rng.below(5) {
                0 => { v.push(t("EQ", "=")); let e = g.expr(Ctx::at(6), 3); v.push(e) }
                1 => { v.push(t("L_PAREN", "(")); let k = g.rng.below(3); g.list(&mut v, k, true, &mut |g| vec![g.tuple_field()]); v.push(t("R_PAREN", ")")) }
                2 => { v.push(t("L_CURLY", "{")); let k = g.rng.below(3); g.list(&mut v, k, true, &mut |g| vec![g.struct_field()]); v.push(t("R_CURLY", "}")) }
                _ => {}
            }
            vec![n("ENUM_VARIANT", v)]
        });
        ch.push(t("R_CURLY", "}"));
        n("ENUM_DEF", ch)
    }
    fn type_def(&mut self) -> X {
        let mut ch = vec![t("TYPE", "type"), self.name()];
        if self.rp(1, 3) { let p = self.type_parameters(); ch.push(p) }
        if self.rp(4, 5) { ch.push(t("EQ", "=")); let ty = self.type_ref(0); ch.push(ty) }
        ch.push(t("SEMI", ";"));
        n("TYPE_DEF", ch)
    }
    fn const_def(&mut self) -> X {
        let mut ch = vec![if self.rp(1, 2) { t("CONST", "const") } else { t("STATIC", "static") }, self.name(), t("COLON", ":")];
        let ty = self.type_ref(1);
        ch.push(ty);
        if self.rp(3, 4) { ch.push(t("EQ", "=")); let e = self.any_expr(Ctx::at(3)); ch.push(e) }
        ch.push(t("SEMI", ";"));
        n("CONST_DEF", ch)
    }
    fn members(&mut self, d: usize) -> X {
        let mut ch = vec![t("L_CURLY", "{")];
        for _ in 0..self.rng.below(4) {
            let m = match self.rng.below(6) {
                0..=2 => { let f = self.fn_def(d, true); self.decorate(f) }
                3 => { let x = self.type_def(); self.decorate(x) }
                4 => { let x = self.const_def(); self.decorate(x) }
                _ => if self.rp(1, 2) { self.macro_item() } else {
                    let mut a = vec![t("HASH", "#"), t("BANG", "!")];
                    self.attr_body(&mut a);
                    n("INNER_ATTRIBUTE", a)
                },
            };
            ch.push(m);
        }
        ch.push(t("R_CURLY", "}"));
        n("MEMBERS", ch)
    }

    fn type_parameters(&mut self) -> X {
        let mut ch = vec![t("L_ANGLE", "<")];
        let (l, p) = (self.rng.below(3), self.rng.below(3));
        self.list(&mut ch, l, false, &mut |g| {
            let mut v = vec![g.lifetime()];
            if g.rp(1, 3) {
                v.push(t("COLON", ":"));
                for i in 0..g.rng.below(3) { if i > 0 { v.push(t("PLUS", "+")) } let x = g.lifetime(); v.push(x) }
            }
            vec![n("LIFETIME_PARAMETER", v)]
        });
        if l > 0 && p > 0 { ch.push(t("COMMA", ",")) }
        self.list(&mut ch, p, true, &mut |g| {
            let mut v = vec![g.name()];
            if g.rp(1, 3) { g.bounds(&mut v, 1) }
            vec![n("TYPE_PARAMETER", v)]
        });
        ch.push(t("R_ANGLE", ">"));
        n("TYPE_PARAMETERS", ch)
    }
    /// The type of a `for` bound takes the bounds that follow for its own, so it comes last.
    fn bound(&mut self, d: usize, last: bool) -> X {
        let b = if self.rp(1, 4) { self.lifetime() } else if last && d < 4 && self.rp(1, 4) { self.for_type(d) } else { let p = self.type_path(d + 1, false); n("PATH_TYPE", vec![p]) };
        n("TYPE_BOUND", vec![b])
    }
    fn for_type(&mut self, d: usize) -> X {
        let p = n("TYPE_PARAMETERS", vec![t("L_ANGLE", "<"), n("LIFETIME_PARAMETER", vec![self.lifetime()]), t("R_ANGLE", ">")]);
        let x = self.path_type_ref(d + 1);
        n("FOR_TYPE", vec![t("FOR", "for"), p, x])
    }
    fn bounds(&mut self, ch: &mut Vec<X>, d: usize) {
        ch.push(t("COLON", ":"));
        let k = self.rng.range(1, 3);
        for i in 0..k {
            if i > 0 { ch.push(t("PLUS", "+")) }
            let b = self.bound(d, i + 1 == k);
            ch.push(b);
        }
    }
    fn where_clause(&mut self) -> X {
        let mut ch = vec![t("WHERE", "where")];
        for i in 0..self.rng.range(1, 2) {
            if i > 0 { ch.push(t("COMMA", ",")) }
            let ty = self.path_type_ref(1);
            ch.push(ty);
            self.bounds(&mut ch, 1);
        }
        if self.rp(1, 4) { ch.push(t("COMMA", ",")) }
        n("WHERE_CLAUSE", ch)
    }

    fn path_type_ref(&mut self, d: usize) -> X {
        let p = self.type_path(d + 1, false);
        n("TYPE_REFERENCE", vec![n("PATH_TYPE", vec![p])])
    }
    /// `sugar`: a trailing `Fn(A) -> B` is acceptable here
    fn type_path(&mut self, d: usize, sugar: bool) -> X {
        let k = self.rng.range(1, 2);
        let mut p = None;
        for i in 0..k {
            let mut seg = vec![match self.rng.below(8) { 0 if i == 0 => t("SELF", "self"), 1 if i == 0 => t("SUPER", "super"), _ => self.name() }];
            if d < 4 && self.more() && self.rp(1, 3) { let a = self.type_arguments(d + 1, false); seg.push(a) }
            else if sugar && d < 4 && i + 1 == k && self.rp(1, 8) {
                let mut s = vec![t("L_PAREN", "(")];
                let m = self.rng.below(3);
                self.list(&mut s, m, true, &mut |g| vec![g.type_ref(d + 1)]);
                s.push(t("R_PAREN", ")"));
                if self.rp(1, 2) { s.push(t("THIN_ARROW", "->")); let ty = self.type_ref(d + 1); s.push(ty) }
                seg.push(n("FN_TRAIT_SUGAR", s));
            }
            let seg = n("PATH_SEGMENT", seg);
            p = Some(match p {
                None => if self.rp(1, 8) { n("PATH", vec![t("COLONCOLON", "::"), seg]) } else { n("PATH", vec![seg]) },
                Some(q) => n("PATH", vec![q, t("COLONCOLON", "::"), seg]),
            });
        }
        p.unwrap()
    }
    fn type_arguments(&mut self, d: usize, turbofish: bool) -> X {
        let mut ch = Vec::new();
        if turbofish { ch.push(t("COLONCOLON", "::")) }
        ch.push(t("L_ANGLE", "<"));
        let (l, ty, b) = (self.rng.below(2), self.rng.below(3), self.rng.below(5) / 4);
        let mut first = true;
        let mut sep = |ch: &mut Vec<X>| { if !first { ch.push(t("COMMA", ",")) } first = false; };
        for _ in 0..l { sep(&mut ch); let x = self.lifetime(); ch.push(x) }
        for _ in 0..ty { sep(&mut ch); let x = self.type_ref(d + 1); ch.push(x) }
        for _ in 0..b { sep(&mut ch); let i = self.name(); ch.push(i); ch.push(t("EQ", "=")); let x = self.type_ref(d + 1); ch.push(x) }
        ch.push(t("R_ANGLE", ">"));
        n("TYPE_ARGUMENTS", ch)
    }
    pub fn type_ref(&mut self, d: usize) -> X {
        let bound = if d > 4 || !self.more() { 6 } else { 16 };
        let k = self.rng.below(bound);
        let ty = match k {
            0 => n("PLACEHOLDER_TYPE", vec![t("UNDERSCORE", "_")]),
            1 => n("UNIT_TYPE", vec![t("L_PAREN", "("), t("R_PAREN", ")")]),
            2 => n("NEVER_TYPE", vec![t("BANG", "!")]),
            3..=5 => {
                let plus = self.rp(1, 6);
                let p = self.type_path(d + 1, !plus);
                let mut ch = vec![n("PATH_TYPE", vec![p])];
                if plus { let k = self.rng.range(1, 3); for i in 0..k { ch.push(t("PLUS", "+")); let b = self.bound(d + 1, i + 1 == k); ch.push(b) } }
                return n("TYPE_REFERENCE", ch);
            }
            6 | 7 => {
                let mut ch = vec![t("AMPERSAND", "&")];
                if self.rp(1, 3) { let l = self.lifetime(); ch.push(l) }
                if self.rp(1, 3) { ch.push(t("MUT", "mut")) }
                let x = self.type_ref(d + 1);
                ch.push(x);
                n("REFERENCE_TYPE", ch)
            }
            8 => { let m = if self.rp(1, 2) { t("CONST", "const") } else { t("MUT", "mut") }; let x = self.type_ref(d + 1); n("POINTER_TYPE", vec![t("STAR", "*"), m, x]) }
            9 => { let x = self.type_ref(d + 1); n("PAREN_TYPE", vec![t("L_PAREN", "("), x, t("R_PAREN", ")")]) }
            10 => {
                let mut ch = vec![t("L_PAREN", "(")];
                let x = self.type_ref(d + 1);
                ch.push(x);
                ch.push(t("COMMA", ","));
                let k = self.rng.below(3);
                self.list(&mut ch, k, true, &mut |g| vec![g.type_ref(d + 1)]);
                ch.push(t("R_PAREN", ")"));
                n("TUPLE_TYPE", ch)
            }
            11 => {
                let mut ch = vec![t("L_BRACK", "[")];
                let x = self.type_ref(d + 1);
                ch.push(x);
                if self.rp(1, 2) { ch.push(t("SEMI", ";")); ch.push(n("LITERAL", vec![t("NUMBER", "92")])) }
                ch.push(t("R_BRACK", "]"));
                n("ARRAY_TYPE", ch)
            }
            12 => {
                let mut ch = Vec::new();
                if self.rp(1, 4) { let l = self.linkage(); ch.push(l) }
                ch.push(t("FN", "fn"));
                ch.push(t("L_PAREN", "("));
                let k = self.rng.below(3);
                self.list(&mut ch, k, true, &mut |g| {
                    let mut v = Vec::new();
                    if g.rp(1, 3) { 
                        let p = match g.rng.below(7) {
                            0 => n("WILDCARD_PATTERN", vec![t("UNDERSCORE", "_")]),
                            1 => n("BINDING_PATTERN", vec![t("MUT", "mut"), id("x")]),
                            2 => n("BINDING_PATTERN", vec![t("REF", "ref"), id("x")]),
                            3 => n("BINDING_PATTERN", vec![t("REF", "ref"), t("MUT", "mut"), id("x")]),
                            4 => {
                                let mut p = n("PATH_PATTERN", vec![n("PATH", vec![n("PATH_SEGMENT", vec![id("x")])])]);
                                for _ in 0..g.rng.range(1, 2) { p = n("REFERENCE_PATTERN", if g.rp(1, 2) { vec![t("AMPERSAND", "&"), t("MUT", "mut"), p] } else { vec![t("AMPERSAND", "&"), p] }) }
                                p
                            }
                            _ => n("PATH_PATTERN", vec![n("PATH", vec![n("PATH_SEGMENT", vec![id("x")])])]),
                        };
                        v.push(p);
                        v.push(t("COLON", ":"));
                    }
                    let ty = g.type_ref(d + 1);
                    v.push(ty);
                    vec![n("VALUE_PARAM", v)]
                });
                ch.push(t("R_PAREN", ")"));
                if self.rp(1, 3) { ch.push(t("THIN_ARROW", "->")); let x = self.type_ref(d + 1); ch.push(x) }
                n("FN_POINTER_TYPE", ch)
            }
            13 => self.for_type(d),
            14 => {
                let (a, b) = (self.type_ref(d + 1), self.path_type_ref(d + 1));
                let seg = n("PATH_SEGMENT", vec![self.name()]);
                n("PATH_TYPE", vec![n("TRAIT_PROJECTION_PATH", vec![t("L_ANGLE", "<"), a, t("AS", "as"), b, t("R_ANGLE", ">"), t("COLONCOLON", "::"), seg])])
            }
            _ => { let p = self.type_path(d + 1, true); n("PATH_TYPE", vec![p]) }
        };
        n("TYPE_REFERENCE", vec![ty])
    }

    fn expr_path(&mut self) -> X {
        let k = self.rng.range(1, 2);
        let mut p = None;
        for i in 0..k {
            let mut seg = vec![match self.rng.below(10) { 0 if i == 0 => t("SELF", "self"), 1 if i == 0 => t("SUPER", "super"), _ => self.name() }];
            if self.rp(1, 8) { let a = self.type_arguments(3, true); seg.push(a) }
            let seg = n("PATH_SEGMENT", seg);
            p = Some(match p {
                None => if self.rp(1, 12) { n("PATH", vec![t("COLONCOLON", "::"), seg]) } else { n("PATH", vec![seg]) },
                Some(q) => n("PATH", vec![q, t("COLONCOLON", "::"), seg]),
            });
        }
        p.unwrap()
    }
    fn literal(&mut self) -> X {
        let l = match self.rng.below(6) {
            0 => self.string(),
            1 => t("RAW_STRING", *self.rng.pick(&["r\"x\"", "r#\"a\"b\"#", "r##\"\"#\"##"])),
            2 => t("CHAR", *self.rng.pick(&["'a'", "'\\''", "' '", "'\\n'", "'{'", "'é'"])),
            3 => t("BOOL", *self.rng.pick(&["true", "false"])),
            _ => t("NUMBER", *self.rng.pick(&["0", "92", "1234567"])),
        };
        n("LITERAL", vec![l])
    }
    pub fn pattern(&mut self, d: usize) -> X {
        let bound = if d > 4 || !self.more() { 4 } else { 11 };
        match self.rng.below(bound) {
            0 => n("WILDCARD_PATTERN", vec![t("UNDERSCORE", "_")]),
            1 => {
                let mut ch = Vec::new();
                let r = self.rp(1, 2);
                if r { ch.push(t("REF", "ref")) }
                if !r || self.rp(1, 2) { ch.push(t("MUT", "mut")) }
                ch.push(self.name());
                n("BINDING_PATTERN", ch)
            }
            2 => { let l = self.literal(); n("LITERAL_PATTERN", vec![l]) }
            3 | 4 => { let p = self.expr_path(); n("PATH_PATTERN", vec![p]) }
            5 => n("UNIT_PATTERN", vec![t("L_PAREN", "("), t("R_PAREN", ")")]),
            6 => { let p = self.pattern(d + 1); n("PAREN_PATTERN", vec![t("L_PAREN", "("), p, t("R_PAREN", ")")]) }
            7 => {
                let mut ch = vec![t("L_PAREN", "(")];
                let p = self.pattern(d + 1);
                ch.push(p);
                ch.push(t("COMMA", ","));
                let k = self.rng.below(3);
                self.list(&mut ch, k, true, &mut |g| vec![g.pattern(d + 1)]);
                ch.push(t("R_PAREN", ")"));
                n("TUPLE_PATTERN", ch)
            }
            8 => {
                let mut ch = vec![t("AMPERSAND", "&")];
                if self.rp(1, 3) { ch.push(t("MUT", "mut")) }
                let p = self.pattern(d + 1);
                // `& mut x` is a reference to x, not to a binding
                if let (X::Node("BINDING_PATTERN", _), 1) = (&p, ch.len()) { return n("REFERENCE_PATTERN", vec![t("AMPERSAND", "&"), n("WILDCARD_PATTERN", vec![t("UNDERSCORE", "_")])]); }
                if let X::Node("BINDING_PATTERN", c) = &p { if c.len() == 2 && c[0] == t("MUT", "mut") { return n("REFERENCE_PATTERN", vec![t("AMPERSAND", "&"), n("WILDCARD_PATTERN", vec![t("UNDERSCORE", "_")])]); } }
                ch.push(p);
                n("REFERENCE_PATTERN", ch)
            }
            9 => {
                let mut ch = vec![self.expr_path(), t("L_PAREN", "(")];
                let k = self.rng.below(3);
                self.list(&mut ch, k, false, &mut |g| vec![g.pattern(d + 1)]);
                if self.rp(1, 4) { if k > 0 { ch.push(t("COMMA", ",")) } ch.push(t("DOTDOT", "..")); if self.rp(1, 3) { ch.push(t("COMMA", ",")) } }
                ch.push(t("R_PAREN", ")"));
                n("TUPE_STRUCT_PATTERN", ch)
            }
            _ => {
                let mut ch = vec![self.expr_path(), t("L_CURLY", "{")];
                let k = self.rng.below(3);
                self.list(&mut ch, k, false, &mut |g| {
                    if g.rp(1, 2) {
                        let mut b = Vec::new();
                        if g.rp(1, 3) { b.push(t("REF", "ref")) }
                        if g.rp(1, 3) { b.push(t("MUT", "mut")) }
                        b.push(g.name());
                        vec![n("STRUCT_PATTERN_FIELD", vec![n("BINDING_PATTERN", b)])]
                    } else {
                        let i = g.name();
                        let p = g.pattern(d + 1);
                        vec![n("STRUCT_PATTERN_FIELD", vec![i, t("COLON", ":"), p])]
                    }
                });
                if self.rp(1, 4) { if k > 0 { ch.push(t("COMMA", ",")) } ch.push(t("DOTDOT", "..")); if self.rp(1, 3) { ch.push(t("COMMA", ",")) } }
                ch.push(t("R_CURLY", "}"));
                n("STRUCT_PATTERN", ch)
            }
        }
    }

    fn paren(&mut self, e: X) -> X { n("PAREN_EXPR", vec![t("L_PAREN", "("), e, t("R_PAREN", ")")]) }

    /// Any expression: the operator-free big ones too.
    fn any_expr(&mut self, c: Ctx) -> X {
        if !c.cond && c.d < 8 && self.more() && self.rp(1, 4) { return self.big_expr(c); }
        self.expr(c, 1)
    }

    /// Expressions that extend as far right as they can, or that change how a statement ends.
    fn big_expr(&mut self, c: Ctx) -> X {
        match self.rng.below(9) {
            0..=2 => self.rightmost(c),
            3 => { let e = self.expr(c.deeper(), 12); let ty = self.type_ref(3); n("CAST_EXPR", vec![e, t("AS", "as"), ty]) }
            _ => self.blockish_expr(c),
        }
    }

    fn rightmost(&mut self, c: Ctx) -> X {
        match self.rng.below(4) {
            0 => {
                let mut ch = Vec::new();
                if self.rp(1, 4) { ch.push(t("MOVE", "move")) }
                ch.push(t("PIPE", "|"));
                let k = self.rng.below(3);
                for i in 0..k {
                    let p = self.pattern(3);
                    let mut a = vec![p];
                    if self.rp(1, 3) { a.push(t("COLON", ":")); let ty = self.path_type_ref(3); a.push(ty) }
                    ch.push(n("LAMBDA_VALUE_PARAM", a));
                    if i + 1 < k { ch.push(t("COMMA", ",")) }
                }
                ch.push(t("PIPE", "|"));
                if self.rp(1, 4) {
                    ch.push(t("THIN_ARROW", "->"));
                    let ty = self.path_type_ref(3);
                    ch.push(ty);
                    let b = self.block(c.free(), true);
                    ch.push(b);
                } else { let e = self.expr(c.free(), 1); ch.push(e) }
                n("LAMBDA_EXPR", ch)
            }
            1 => { let mut ch = vec![t("RETURN", "return")]; if self.rp(2, 3) { let e = self.expr(c.deeper(), 1); ch.push(e) } n("RETURN_EXPR", ch) }
            2 => { let mut ch = vec![if self.rp(1, 2) { t("BREAK", "break") } else { t("CONTINUE", "continue") }]; if self.rp(1, 2) { let l = self.lifetime(); ch.push(l) } n("LOOP_CF_EXPR", ch) }
            _ => {
                // ranges
                let dots = if self.rp(3, 4) { t("DOTDOT", "..") } else { t("DOTDOTDOT", "...") };
                match self.rng.below(4) {
                    0 => n("RANGE_EXPR", vec![t("DOTDOT", "..")]),
                    1 => { let e = self.expr(c.deeper(), 3); n("RANGE_EXPR", vec![dots, e]) }
                    2 => { let e = self.expr(c.deeper(), 3); n("RANGE_EXPR", vec![e, dots]) }
                    _ => { let a = self.expr(c.deeper(), 3); let b = self.expr(c.deeper(), 3); n("RANGE_EXPR", vec![a, dots, b]) }
                }
            }
        }
    }

    fn block(&mut self, c: Ctx, allow_unsafe: bool) -> X {
        let mut ch = Vec::new();
        if allow_unsafe && self.rp(1, 8) { ch.push(t("UNSAFE", "unsafe")) }
        ch.push(t("L_CURLY", "{"));
        let k = if c.d > 7 || !self.more() { self.rng.below(2) } else { self.rng.below(5) };
        let mut after_block = false;
        for i in 0..k {
            let last = i + 1 == k;
            let c = c.stmt();
            match self.rng.below(10) {
                0 | 1 => {
                    let mut s = vec![t("LET", "let")];
                    let p = self.pattern(1);
                    s.push(p);
                    if self.rp(1, 3) { s.push(t("COLON", ":")); let ty = self.type_ref(2); let l = s.pop().unwrap(); s.push(n("TYPE_ASCRIPTION", vec![l, ty])) }
                    if self.rp(3, 4) { s.push(t("EQ", "=")); let e = self.any_expr(c.free()); s.push(e) }
                    s.push(t("SEMI", ";"));
                    ch.push(n("LET_STMT", s));
                    after_block = false;
                }
                2 => { ch.push(n("EMPTY_STMT", vec![t("SEMI", ";")])); after_block = false }
                3 if c.d < 6 => { let it = self.item(c.d); ch.push(it); after_block = false }
                4 | 5 if c.d < 7 => {
                    let e = self.blockish_expr(c);
                    ch.push(n("EXPR_STMT", vec![e]));
                    after_block = true;
                }
                _ => {
                    let e = if c.d < 7 && self.rp(1, 6) { self.rightmost(c) } else { self.expr(c, 1) };
                    let mut first = Vec::new();
                    e.tokens(&mut first);
                    if after_block && first.first().map_or(false, |f| f.starts_with('[') || f.starts_with('.')) { ch.push(n("EMPTY_STMT", vec![t("SEMI", ";")])) }
                    if let X::Node("LINE_MACRO_EXPR", m) = &e {
                        // a macro call followed by a semicolon is an item
                        ch.push(n("MACRO_ITEM", vec![m[0].clone(), t("SEMI", ";")]));
                    } else if last && self.rp(1, 2) {
                        ch.push(n("EXPR_STMT", vec![e]));
                    } else {
                        ch.push(n("EXPR_STMT", vec![e, t("SEMI", ";")]));
                    }
                    after_block = false;
                }
            }
        }
        ch.push(t("R_CURLY", "}"));
        n("BLOCK_EXPR", ch)
    }

    fn label(&mut self, ch: &mut Vec<X>) {
        if self.rp(1, 4) { let l = self.lifetime(); ch.push(l); ch.push(t("COLON", ":")) }
    }
    fn condition(&mut self, ch: &mut Vec<X>, c: Ctx) {
        if self.rp(1, 4) { ch.push(t("LET", "let")); let p = self.pattern(2); ch.push(p); ch.push(t("EQ", "=")) }
        let e = self.expr(c.condition(), 2);
        ch.push(e);
    }
    fn blockish_expr(&mut self, c: Ctx) -> X {
        match self.rng.below(7) {
            0 | 1 => {
                let mut ch = vec![t("IF", "if")];
                self.condition(&mut ch, c);
                let b = self.block(c.free(), false);
                ch.push(b);
                if self.rp(1, 3) {
                    ch.push(t("ELSE", "else"));
                    let b = if c.d < 6 && self.rp(1, 3) {
                        let mut i = vec![t("IF", "if")];
                        self.condition(&mut i, c);
                        let b = self.block(c.free(), false);
                        i.push(b);
                        n("IF_EXPR", i)
                    } else { self.block(c.free(), false) };
                    ch.push(b);
                }
                n("IF_EXPR", ch)
            }
            2 => { let mut ch = Vec::new(); self.label(&mut ch); ch.push(t("WHILE", "while")); self.condition(&mut ch, c); let b = self.block(c.free(), false); ch.push(b); n("WHILE_EXPR", ch) }
            3 => { let mut ch = Vec::new(); self.label(&mut ch); ch.push(t("LOOP", "loop")); let b = self.block(c.free(), false); ch.push(b); n("LOOP_EXPR", ch) }
            4 => {
                let mut ch = Vec::new();
                self.label(&mut ch);
                ch.push(t("FOR", "for"));
                let p = self.pattern(2);
                ch.push(p);
                ch.push(t("IN", "in"));
                let e = self.expr(c.condition(), 2);
                ch.push(e);
                let b = self.block(c.free(), false);
                ch.push(b);
                n("FOR_EXPR", ch)
            }
            5 => {
                let mut ch = vec![t("MATCH", "match")];
                let e = self.expr(c.condition(), 2);
                ch.push(e);
                ch.push(t("L_CURLY", "{"));
                let k = self.rng.below(4);
                for i in 0..k {
                    let mut a = Vec::new();
                    for j in 0..1 + self.rng.below(6) / 2 { if j > 0 { a.push(t("PIPE", "|")) } let p = self.pattern(2); a.push(p) }
                    if self.rp(1, 4) { let e = self.expr(c.stmt(), 2); a.push(n("GUARD", vec![t("IF", "if"), e])) }
                    a.push(t("FAT_ARROW", "=>"));
                    let e = match self.rng.below(9) {
                        0..=2 if c.d < 6 => self.blockish_expr(c.free()),
                        3 if c.d < 7 => self.rightmost(c.stmt()),
                        4 => { let m = self.block_macro(); n("BLOCK_MACRO_EXPR", vec![m]) }
                        _ => self.expr(c.stmt(), 1),
                    };
                    let comma = !blockish(&e) && i + 1 < k || self.rp(1, 3);
                    a.push(e);
                    if comma { a.push(t("COMMA", ",")) }
                    ch.push(n("MATCH_ARM", a));
                }
                ch.push(t("R_CURLY", "}"));
                n("MATCH_EXPR", ch)
            }
            _ => self.block(c.free(), true),
        }
    }

    /// Operator expressions binding at least as tightly as `min`:
    /// 1 assignment, 3 ||, 4 &&, 5 comparison, 6 |, 7 ^, 8 &, 9 shifts, 10 + -, 11 * / %, 12 unary and postfix.
    fn expr(&mut self, c: Ctx, min: u32) -> X {
        let k = if c.d > 9 || !self.more() { 0 } else { self.rng.below(10) };
        match k {
            1..=3 => {
                let level = *self.rng.pick(&[1u32, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]);
                if level < min { return self.unary(c); }
                let (name, op) = match level {
                    1 => ("ASSIGNMENT_EXPR", self.rng.pick(&[t("EQ", "="), t("PLUS_EQ", "+="), t("MINUS_EQ", "-="), t("STAR_EQ", "*="), t("SLASH_EQ", "/="),
                        t("PERCENT_EQ", "%="), t("AMPERSAND_EQ", "&="), t("PIPE_EQ", "|="), t("CARET_EQ", "^="), t("SHL_EQ", "<<="), t("SHR_EQ", ">>=")]).clone()),
                    2 => ("RANGE_EXPR", if self.rp(3, 4) { t("DOTDOT", "..") } else { t("DOTDOTDOT", "...") }),
                    3 => ("LOGICAL_OR", t("OR", "||")),
                    4 => ("LOGICAL_AND", t("AND", "&&")),
                    5 => ("COMPARISON", self.rng.pick(&[t("EQEQ", "=="), t("BANGEQ", "!="), t("L_ANGLE", "<"), t("R_ANGLE", ">"), t("LTEQ", "<="), t("GTET", ">=")]).clone()),
                    6 => ("BIT_OR", t("PIPE", "|")),
                    7 => ("BIT_XOR", t("CARET", "^")),
                    8 => ("BIT_AND", t("AMPERSAND", "&")),
                    9 => ("BIT_SHIFT", self.rng.pick(&[t("SHL", "<<"), t("SHR", ">>")]).clone()),
                    10 => ("SUM_EXPR", self.rng.pick(&[t("PLUS", "+"), t("MINUS", "-")]).clone()),
                    _ => ("PRODUCT_EXPR", self.rng.pick(&[t("STAR", "*"), t("SLASH", "/"), t("PERCENT", "%")]).clone()),
                };
                let (mut l, mut r) = (self.expr(c.deeper(), if level == 1 { 2 } else { level }), self.expr(c.deeper(), level + 1));
                if op == t("PLUS", "+") && ends_in_cast(&l) { l = self.paren(l) }
                if level == 8 { let mut f = Vec::new(); r.tokens(&mut f); if f.first().map_or(false, |f| f.starts_with('&')) { r = self.paren(r) } }
                n(name, vec![l, op, r])
            }
            4 if self.rp(1, 2) => {
                let mut e = self.unary(c.deeper());
                for _ in 0..1 + self.rng.below(4) / 3 {
                    let named = n("TYPE_REFERENCE", vec![n("PATH_TYPE", vec![n("PATH", vec![n("PATH_SEGMENT", vec![self.name()])])])]);
                    let ty = match self.rng.below(4) {
                        0 => n("PLACEHOLDER_TYPE", vec![t("UNDERSCORE", "_")]),
                        1 => n("UNIT_TYPE", vec![t("L_PAREN", "("), t("R_PAREN", ")")]),
                        2 => n("PAREN_TYPE", vec![t("L_PAREN", "("), named, t("R_PAREN", ")")]),
                        _ => n("ARRAY_TYPE", vec![t("L_BRACK", "["), named, t("R_BRACK", "]")]),
                    };
                    e = n("CAST_EXPR", vec![e, t("AS", "as"), n("TYPE_REFERENCE", vec![ty])]);
                }
                e
            }
            _ => self.unary(c),
        }
    }
    fn unary(&mut self, c: Ctx) -> X {
        if c.d < 10 && self.more() && self.rp(1, 5) {
            let mut e = self.unary(c.deeper());
            // a label after `&` would be the lifetime of the reference
            let mut f = Vec::new();
            e.tokens(&mut f);
            if f.first().map_or(false, |f| f.starts_with('\'') && !f.ends_with('\'')) { e = self.paren(e) }
            return match self.rng.below(4) {
                0 => { let mut ch = vec![t("AMPERSAND", "&")]; if self.rp(1, 3) { ch.push(t("MUT", "mut")) } ch.push(e); n("REFERENCE_EXPR", ch) }
                1 => n("DEREFERENCE_EXPR", vec![t("STAR", "*"), e]),
                2 => n("NEGATION_EXPR", vec![t("MINUS", "-"), e]),
                _ => n("NOT_EXPR", vec![t("BANG", "!"), e]),
            };
        }
        self.postfix(c)
    }
    fn args(&mut self, ch: &mut Vec<X>, c: Ctx) {
        ch.push(t("L_PAREN", "("));
        let k = self.rng.below(3);
        self.list(ch, k, true, &mut |g| { let e = g.any_expr(c.free()); vec![n("VALUE_ARGUMENT", vec![e])] });
        ch.push(t("R_PAREN", ")"));
    }
    fn postfix(&mut self, c: Ctx) -> X {
        let mut e = self.atom(c);
        if c.d > 9 { return e }
        for _ in 0..self.rng.below(5) / 2 {
            let op = self.rng.below(5);
            // a call of a field's value needs brackets, or it is a method call
            let named_field = match &e { X::Node("FIELD_EXPR", v) => matches!(v.last(), Some(X::Tok("IDENT", _))), _ => false };
            if op == 1 && named_field { e = self.paren(e) }
            let mut ch = vec![e];
            e = match op {
                0 => {
                    ch.push(t("DOT", "."));
                    ch.push(self.name());
                    if self.rp(1, 5) { let a = self.type_arguments(3, true); ch.push(a) }
                    self.args(&mut ch, c);
                    n("METHOD_CALL_EXPR", ch)
                }
                1 => { self.args(&mut ch, c); n("CALL_EXPR", ch) }
                2 => { ch.push(t("DOT", ".")); let f = if self.rp(1, 4) { t("NUMBER", "0") } else { self.name() }; ch.push(f); n("FIELD_EXPR", ch) }
                3 => { ch.push(t("L_BRACK", "[")); let i = self.expr(c.deeper(), 1); ch.push(i); ch.push(t("R_BRACK", "]")); n("INDEX_EXPR", ch) }
                _ => { ch.push(t("QUESTION", "?")); n("TRY_EXPR", ch) }
            };
        }
        e
    }
    fn atom(&mut self, c: Ctx) -> X {
        if c.blk && !c.cond && c.d < 7 && self.rp(1, 12) && self.more() {
            if self.rp(1, 4) { let m = self.block_macro(); return n("BLOCK_MACRO_EXPR", vec![m]) }
            return self.blockish_expr(c);
        }
        let bound = if c.d > 8 || !self.more() { 5 } else { 13 };
        match self.rng.below(bound) {
            0 | 1 => self.literal(),
            2..=4 => { let p = self.expr_path(); n("PATH_EXPR", vec![p]) }
            5 => n("UNIT_EXPR", vec![t("L_PAREN", "("), t("R_PAREN", ")")]),
            6 => { let e = self.any_expr(c.free()); self.paren(e) }
            7 => {
                let mut ch = vec![t("L_PAREN", "(")];
                let e = self.any_expr(c.free());
                ch.push(e);
                ch.push(t("COMMA", ","));
                let k = self.rng.below(3);
                self.list(&mut ch, k, true, &mut |g| vec![g.any_expr(c.free())]);
                ch.push(t("R_PAREN", ")"));
                n("TUPLE_EXPR", ch)
            }
            8 => {
                let mut ch = vec![t("L_BRACK", "[")];
                match self.rng.below(3) {
                    0 => { let a = self.any_expr(c.free()); let b = self.any_expr(c.free()); ch.push(a); ch.push(t("SEMI", ";")); ch.push(b) }
                    1 => { let k = self.rng.range(1, 3); self.list(&mut ch, k, true, &mut |g| vec![g.any_expr(c.free())]) }
                    _ => {}
                }
                ch.push(t("R_BRACK", "]"));
                n("ARRAY_LITERAL", ch)
            }
            9 => { let e = self.big_expr(c.free()); self.paren(e) }
            10 => { let m = self.line_macro(); n("LINE_MACRO_EXPR", vec![m]) }
            11 if !c.cond => {
                let mut ch = vec![self.expr_path(), t("L_CURLY", "{")];
                let k = self.rng.below(3);
                self.list(&mut ch, k, false, &mut |g| {
                    let mut f = vec![g.name()];
                    if g.rp(2, 3) { f.push(t("COLON", ":")); let e = g.expr(c.deeper(), 1); f.push(e) }
                    vec![n("STRUCT_LITERAL_FIELD", f)]
                });
                if self.rp(1, 4) { if k > 0 { ch.push(t("COMMA", ",")) } ch.push(t("DOTDOT", "..")); let e = self.expr(c.free(), 3); ch.push(e) }
                ch.push(t("R_CURLY", "}"));
                n("STRUCT_LITERAL", ch)
            }
            12 => {
                let ty = self.path_type_ref(3);
                let ty2 = self.path_type_ref(3);
                let seg = n("PATH_SEGMENT", vec![self.name()]);
                let _ = ty2;
                n("PATH_EXPR", vec![n("TRAIT_PROJECTION_PATH", vec![t("L_ANGLE", "<"), ty, t("AS", "as"), ty2, t("R_ANGLE", ">"), t("COLONCOLON", "::"), seg])])
            }
            _ => { let p = self.expr_path(); n("PATH_EXPR", vec![p]) }
        }
    }
}
