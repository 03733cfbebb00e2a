use std::collections::{BTreeMap, HashMap};

use fall_tree::{TextEdit, TextEditOp};

use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::fallgen::{self, Model, Sp, E};
use crate::gen::texts;
use crate::ide::{self, Ed, Q};
use crate::langs::Kind;
use crate::rng::Rng;
use crate::tree::T;
use super::{c15, Prop};

pub fn prop() -> Prop {
    Prop {
        id: "C26", plan, case, finish: None,
        rule: "grammar files whose names, references, calls and keywords are known from writing them, Rust files whose nesting is known from writing it, and damaged texts of both, opened in their editors: every highlight, outline entry, line of the shown tree, breadcrumb trail, typing assist and test position is compared with what the writing, or a naive reading of the parse tree, says. Non-trivial: a text with names to colour or to list; distinct by text.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 20_000, 24.0, 20) }

type Tags = BTreeMap<(usize, usize, String), i64>;

fn highlights(ed: &Ed) -> Vec<(usize, usize, String)> {
    let a = ed.ask(&Q::Highlight);
    a.text.lines().zip(&a.ranges).map(|(l, r)| (r.0, r.1, l.rsplit(' ').next().unwrap().to_string())).collect()
}

struct Tree { t: T, names: HashMap<u32, String> }

impl Tree {
    fn of(ed: &Ed) -> Tree {
        let t = T::of_file(ed.file());
        let mut names = HashMap::new();
        t.walk(&mut |n| { names.entry(n.ty).or_insert_with(|| ed.file().language().node_type_info(fall_tree::NodeType(n.ty)).name.to_string()); });
        Tree { t, names }
    }
    fn name(&self, n: &T) -> &str { &self.names[&n.ty] }
    fn kid<'t>(&self, n: &'t T, name: &str) -> Option<&'t T> { n.ch.iter().find(|k| self.name(k) == name) }
    /// The nodes around the character before `p` (the first one at 0), outermost first.
    fn path(&self, p: usize) -> Vec<&T> {
        let mut v = vec![&self.t];
        if self.t.start == self.t.end { return v }
        loop {
            let n = *v.last().unwrap();
            match n.ch.iter().find(|k| k.start < k.end && (k.start < p || p == k.start && p == 0) && p <= k.end) { Some(k) => v.push(k), None => return v }
        }
    }
    fn post<'t>(&'t self) -> Vec<&'t T> {
        fn go<'t>(n: &'t T, v: &mut Vec<&'t T>) { for k in &n.ch { go(k, v) } v.push(n) }
        let mut v = Vec::new();
        go(&self.t, &mut v);
        v
    }
}

const KEYWORDS: &[&str] = &["RULE", "VERBATIM", "TOKENIZER", "AST", "NODE", "CLASS", "PUB", "TEST", "TRAIT"];

/// What shows by the mere type of a node.
fn plain(kind: Kind, tree: &Tree, text: &str) -> Tags {
    let mut tags = Tags::new();
    for n in tree.post() {
        let name = tree.name(n);
        let tag = match name {
            "ERROR" => "error",
            _ if kind == Kind::Rust => continue,
            "EOL_COMMENT" => "comment",
            "HASH_STRING" | "SIMPLE_STRING" => "string",
            "PARAMETER" => "parameter",
            "ATTRIBUTES" => "attribute",
            _ if KEYWORDS.contains(&name) => "keyword",
            _ => continue,
        };
        let (s, mut e) = (n.start, n.end);
        if s == e && tag == "error" { e += text[s..].chars().next().map_or(0, |ch| ch.len_utf8()) }
        *tags.entry((s, e, tag.to_string())).or_insert(0) += 1;
    }
    tags
}

/// What names show as, by what they were written to be.
fn meant(m: &Model, tree: &Tree) -> Tags {
    let mut tags = Tags::new();
    let mut put = |at: Sp, tag: &str| *tags.entry((at.0, at.1, tag.to_string())).or_insert(0) += 1;
    for l in &m.lex { put(l.ty_at, "literal") }
    for r in &m.rules { put(r.id, "function") }
    for n in &m.nodes { put(n.id, "function") }
    for n in &m.classes { put(n.id, "function") }
    // the model does not say where the names of traits are
    for t in &m.traits {
        let from = t.at.0 + m.text[t.at.0..].find("trait").unwrap() + 5;
        let at = tree.post().into_iter().find(|n| tree.name(n) == "IDENT" && n.start >= from).map(|n| (n.start, n.end));
        put(at.unwrap_or((from, from)), "function");
    }
    let (decls, refs) = c15::scope(m);
    let mut calls = HashMap::new();
    let contexts = |e: &E| if let E::Ref { name, .. } = e { name.starts_with('\'') } else { false };
    for r in &m.rules {
        r.body.walk(None, &mut |e, _| if let E::Call { at, id, name, args } = e {
            let b = match name.as_str() {
                "any" | "commit" | "eof" | "prev_is" => true,
                "not" => args.len() >= 1,
                "is_in" => args.len() >= 1 && contexts(&args[0]),
                "layer" | "with_skip" | "inject" => args.len() >= 2,
                "enter" | "exit" => args.len() >= 2 && contexts(&args[0]),
                _ => false,
            };
            let tag = if b { "builtin" } else { "function" };
            put(*id, tag);
            put((at.0, at.0 + 1), tag);
            put((at.1 - 1, at.1), tag);
            calls.insert(*id, ());
        });
    }
    let methods: HashMap<Sp, Sp> = m.nodes.iter().flat_map(|n| &n.methods).chain(m.traits.iter().flat_map(|t| &t.methods)).map(|me| (me.sel, me.child_at)).collect();
    for r in &refs {
        if calls.contains_key(&r.at) { continue }
        if let Some(&d) = r.to.get(0) {
            let at = methods.get(&r.at).cloned().unwrap_or(r.at);
            put(at, match decls[d].what { "token" => "literal", "parameter" => "parameter", _ => "function" });
        }
    }
    tags
}

fn compare(c: &mut Case, got: Vec<(usize, usize, String)>, want: Tags, plain_only: bool, text: &str) -> Res {
    let mut left = want;
    let known = ["error", "comment", "string", "keyword", "attribute"];
    for g in got {
        // a parameter's uses are not known from the tree alone
        if plain_only && !known.contains(&g.2.as_str()) { continue }
        *left.entry(g).or_insert(0) -= 1;
    }
    let left: Tags = left.into_iter().filter(|(k, n)| *n != 0 && !(plain_only && !known.contains(&k.2.as_str()))).collect();
    c.eval();
    let bad = left.iter().next();
    c.ensure(bad.is_none(), &match bad { Some((k, n)) => format!("a highlight is {}: {}", if *n > 0 { "missing" } else { "wrong" }, k.2), None => String::new() }, || {
        let v: Vec<String> = left.iter().map(|((s, e, t), n)| format!("{}..{} {:?} {}: {}", s, e, text.get(*s..*e), t, if *n > 0 { "missing" } else { "unexpected" })).collect();
        format!("{}\n--- text ---\n{}", v.join("\n"), text)
    })
}

fn shown(ed: &Ed, t: &Tree, text: &str) -> String {
    let lang = ed.file().language();
    fn go(t: &Tree, n: &T, blank: &dyn Fn(u32) -> bool, level: usize, text: &str, out: &mut String) {
        if blank(n.ty) { return }
        out.push_str(&"  ".repeat(level));
        out.push_str(t.name(n));
        if n.ch.is_empty() { out.push_str(&format!(" {:?}", &text[n.start..n.end])) }
        out.push('\n');
        for k in &n.ch { go(t, k, blank, level + 1, text, out) }
    }
    let mut out = String::new();
    go(t, &t.t, &|ty| lang.node_type_info(fall_tree::NodeType(ty)).whitespace_like, 0, text, &mut out);
    out
}

fn outline(kind: Kind, t: &Tree, text: &str) -> Vec<(String, usize, usize)> {
    let mut v = Vec::new();
    for n in t.post() {
        let own = || t.kid(n, "IDENT").map(|i| text[i.start..i.end].to_string());
        let name = match (kind, t.name(n)) {
            (Kind::Fall, "SYN_RULE") => own(),
            (Kind::Fall, "TOKENIZER_DEF") => Some("tokenizer".to_string()),
            (Kind::Fall, "AST_DEF") => Some("ast".to_string()),
            (Kind::Rust, "FN_DEF") | (Kind::Rust, "STRUCT_DEF") | (Kind::Rust, "ENUM_DEF") | (Kind::Rust, "TYPE_DEF") | (Kind::Rust, "TRAIT_DEF") | (Kind::Rust, "MOD_DEF") => own(),
            _ => None,
        };
        if let Some(name) = name { v.push((name, n.start, n.end)) }
    }
    v
}

fn crumbs(t: &Tree, offset: usize, text: &str) -> Vec<String> {
    if offset == 0 { return Vec::new() }
    let mut v = Vec::new();
    for n in t.path(offset - 1) {
        let word = match t.name(n) {
            "STRUCT_DEF" => "struct", "ENUM_DEF" => "enum", "TRAIT_DEF" => "trait", "FN_DEF" => "fn",
            "IMPL_DEF" => {
                let tr: Vec<&str> = n.ch.iter().filter(|k| t.name(k) == "TYPE_REFERENCE").map(|k| &text[k.start..k.end]).collect();
                match tr.len() { 0 => {} 1 => v.push(format!("impl {}", tr[0])), _ => v.push(format!("impl {} for {}", tr[0], tr[1])) }
                continue;
            }
            _ => continue,
        };
        if let Some(i) = t.kid(n, "IDENT") { v.push(format!("{} {}", word, &text[i.start..i.end])) }
    }
    v
}

fn space(t: &Tree, offset: usize, text: &str) -> Option<&'static str> {
    if offset == 0 { return None }
    let path = t.path(offset - 1);
    if t.name(path.last()?) != "LET" { return None }
    let st = path.iter().rev().find(|n| t.name(n) == "LET_STMT")?;
    if t.kid(st, "SEMI").is_some() || t.kid(st, "EQ").is_some() || text[st.end..].starts_with(';') { return None }
    Some(";")
}

/// The text after the assist; none if there is none.
fn expand(t: &Tree, offset: usize, text: &str) -> Option<String> {
    if offset < 2 { return None }
    let path = t.path(offset - 2);
    if !path.last()?.ch.is_empty() || path.last()?.start == path.last()?.end { return None }
    let st = path.iter().rev().find(|n| t.name(n) == "EXPR_STMT")?;
    let e = &text[st.start..st.end];
    let e = e.get(..e.len().checked_sub(3)?)?;
    Some(format!("{}eprintln!(\"{} = {{:?}}\", {});{}", &text[..st.start], e, e, text.get(offset..)?))
}

fn applied(e: &TextEdit, text: &str) -> String {
    e.ops.iter().map(|o| match o {
        TextEditOp::Copy(r) => text[crate::tree::us(r.start())..crate::tree::us(r.end())].to_string(),
        TextEditOp::Insert(t) => t.to_string(),
    }).collect()
}

/// Rust items, with what surrounds some places and what an outline of them lists.
struct W<'r> { rng: &'r mut Rng, text: String, stack: Vec<String>, probes: Vec<(usize, Vec<String>)>, names: Vec<String>, n: usize }

const NAMES: &[&str] = &["foo", "Foo", "été", "x1", "_", "fn_", "中文"];

impl<'r> W<'r> {
    fn gap(&mut self) { let g = *self.rng.pick(&[" ", "\n", "\n\n", "\n    ", " /* é { */ ", "\n// } ☃\n", "\r\n"]); self.text.push_str(g) }
    fn name(&mut self) -> String { self.n += 1; let s = *self.rng.pick(NAMES); if self.rng.chance(1, 2) || s == "_" { format!("{}{}", s, self.n) } else { s.to_string() } }
    fn probe(&mut self) { self.w(" \n "); let s = self.stack.clone(); self.probes.push((self.text.len(), s)) }
    fn w(&mut self, s: &str) { self.text.push_str(s) }
    fn inside(&mut self, crumb: Option<String>, f: &mut dyn FnMut(&mut Self)) {
        let has = crumb.is_some();
        self.stack.extend(crumb);
        self.w("{");
        self.gap();
        self.probe();
        f(self);
        self.probe();
        self.gap();
        self.w("}");
        if has { self.stack.pop(); }
    }
    fn ty(&mut self) -> String { self.rng.pick(&["u32", "Foo", "Vec<T>", "&'a str", "a::B<C>", "(A, B)", "[u8; 4]"]).to_string() }
    fn function(&mut self, d: usize) {
        let n = self.name();
        if self.rng.chance(1, 3) { self.w("pub ") }
        let (g, r) = (*self.rng.pick(&["", "", "<T>", "<'a, T: Foo>"]), *self.rng.pick(&["", "", " -> u32", " -> Option<T>"]));
        self.w(&format!("fn {}{}(){} ", n, g, r));
        self.inside(Some(format!("fn {}", n)), &mut |w| {
            for _ in 0..w.rng.below(4) {
                match w.rng.below(5) {
                    0 if d < 4 => w.item(d + 1),
                    1 => w.w("let x = 1;"),
                    2 => { w.w("if x "); w.inside(None, &mut |w| w.w("foo();")) }
                    3 => w.w("foo(|x| { x });"),
                    _ => w.w("bar;"),
                }
                w.gap();
                w.probe();
            }
        });
        self.names.push(n);
    }
    fn item(&mut self, d: usize) {
        match self.rng.below(9) {
            0 | 1 | 2 => self.function(d),
            3 => {
                let n = self.name();
                self.w(&format!("struct {} ", n));
                self.inside(Some(format!("struct {}", n)), &mut |w| for i in 0..w.rng.below(3) { let t = w.ty(); w.w(&format!("f{}: {},", i, t)); w.gap(); w.probe() });
                self.names.push(n);
            }
            4 => {
                let n = self.name();
                self.w(&format!("pub enum {}<T> ", n));
                self.inside(Some(format!("enum {}", n)), &mut |w| for i in 0..w.rng.below(3) { w.w(&format!("V{},", i)); w.gap(); w.probe() });
                self.names.push(n);
            }
            5 => {
                let n = self.name();
                self.w(&format!("trait {} ", n));
                self.inside(Some(format!("trait {}", n)), &mut |w| for _ in 0..w.rng.below(3) { if d < 4 { w.function(d + 1) } w.gap(); w.probe() });
                self.names.push(n);
            }
            6 => {
                let (a, b) = (self.ty(), self.ty());
                let two = self.rng.chance(1, 2);
                let h = if two { format!("impl {} for {}", a, b) } else { format!("impl {}", a) };
                let gen = self.rng.chance(1, 3);
                self.w(&format!("impl{} {} ", if gen { "<T>" } else { "" }, &h[5..]));
                self.inside(Some(h), &mut |w| for _ in 0..w.rng.below(3) { if d < 4 { w.function(d + 1) } w.gap(); w.probe() });
            }
            7 => {
                let n = self.name();
                self.w(&format!("mod {} ", n));
                self.inside(None, &mut |w| for _ in 0..w.rng.below(3) { if d < 4 { w.item(d + 1) } w.gap(); w.probe() });
                self.names.push(n);
            }
            _ => { let (n, t) = (self.name(), self.ty()); self.w(&format!("type {} = {};", n, t)); self.names.push(n) }
        }
    }
}

fn listed(ed: &Ed) -> Vec<(String, usize, usize)> {
    fn go(n: &fall_editor::FileStructureNode, v: &mut Vec<(String, usize, usize)>) {
        v.push((n.name.clone(), crate::tree::us(n.range.start()), crate::tree::us(n.range.end())));
        for k in &n.children { go(k, v) }
    }
    use fall_editor::EditorFileImpl;
    let s = match ed { Ed::Fall(f) => f.structure(), Ed::Rust(f) => f.structure() };
    let mut v = Vec::new();
    for n in &s { go(n, &mut v) }
    v
}

fn case(c: &mut Case) -> Res {
    let kind = if c.rng.chance(1, 2) { Kind::Fall } else { Kind::Rust };
    let written = c.rng.chance(2, 3);
    let mut model = None;
    let mut rust = None;
    let text = if !written {
        let size = *c.rng.pick(&[20, 80, 300, 900]);
        ide::text(&mut c.rng, kind, size)
    } else if kind == Kind::Fall {
        let size = c.rng.range(1, 9);
        let slips = c.rng.below(5);
        let m = fallgen::model(&mut c.rng, size, slips);
        let t = m.text.clone();
        model = Some(m);
        t
    } else {
        let n = c.rng.range(1, 5);
        let mut w = W { rng: &mut c.rng, text: String::new(), stack: vec![], probes: vec![], names: vec![], n: 0 };
        for _ in 0..n { w.item(0); w.gap(); w.probe() }
        let (mut t, p, n) = (w.text, w.probes, w.names);
        if c.rng.chance(1, 3) {
            // something is being typed
            let at = c.rng.pick(&p).0;
            t.insert_str(at, *c.rng.pick(&["let ", "let", "let x", "let ;", "let = 1", "let x = ", "if let ", "while let ", "foo(a, 1).pd$", "x.pd$", "\"é\".pd$;", "a + b.pd$ ", "let x: u32 ", "let // c\n", "let /* ; */ ;"]));
        } else { rust = Some((p, n)) }
        t
    };
    c.input(&text);
    let ed = c.guard("opening", &|| text.clone(), || Ed::parse(kind, &text))?;
    let tree = Tree::of(&ed);
    let sound = !tree.t.has_ty(fall_tree::ERROR);
    let end = || format!("--- text ---\n{}", text);

    // highlights
    let got = c.guard("highlight", &|| text.clone(), || highlights(&ed))?;
    let mut want = plain(kind, &tree, &text);
    let n_tags = got.len();
    match &model {
        Some(m) if sound => {
            let keys: Vec<Sp> = want.keys().filter(|k| k.2 == "keyword").map(|k| (k.0, k.1)).collect();
            let mut neutral: Vec<Sp> = m.neutral.iter().filter(|k| m.text.as_bytes()[k.0].is_ascii_alphabetic()).cloned().collect();
            neutral.sort();
            c.eval();
            c.ensure(keys == neutral, "the keywords are not those written", || format!("{:?} instead of {:?}\n{}", keys, neutral, end()))?;
            for (k, n) in meant(m, &tree) { *want.entry(k).or_insert(0) += n }
            for k in want.keys() { c.count(&format!("names and pieces shown as {}", k.2), 1) }
            compare(c, got, want, false, &text)?;
            c.nontrivial(&text);
        }
        _ => {
            for k in want.keys() { c.count(&format!("pieces of any text shown as {}", k.2), 1) }
            compare(c, got, want, kind == Kind::Fall, &text)?;
        }
    }
    c.max("most highlights of a text", n_tags as u64);

    // outline and tree
    let got = c.guard("structure", &|| text.clone(), || listed(&ed))?;
    let want = outline(kind, &tree, &text);
    c.eval();
    c.ensure(got == want, "the outline is wrong", || format!("{:?}\ninstead of\n{:?}\n{}", got, want, end()))?;
    c.count("entries of outlines", want.len() as u64);
    if !want.is_empty() { c.nontrivial(&text) }
    if let Some(m) = &model {
        if sound {
            let mut w: Vec<(String, usize, usize)> = m.rules.iter().map(|r| (r.name.clone(), r.at.0, r.at.1)).collect();
            w.extend(m.tokenizer.map(|t| ("tokenizer".to_string(), t.0, t.1)));
            w.extend(m.ast.map(|t| ("ast".to_string(), t.0, t.1)));
            w.sort_by_key(|x| x.1);
            c.eval();
            c.ensure(got == w, "the outline is not what was written", || format!("{:?}\ninstead of\n{:?}\n{}", got, w, end()))?;
        }
    }
    let got = c.guard("syntax_tree", &|| text.clone(), || ed.ask(&Q::Tree).text)?;
    let want = shown(&ed, &tree, &text);
    c.eval();
    c.ensure(got == want, "the tree shown is not the tree", || format!("{}\ninstead of\n{}\n{}", got, want, end()))?;

    // places
    let cuts: Vec<usize> = { let mut v = vec![0, text.len()]; tree.t.walk(&mut |n| { v.push(n.start); v.push(n.end) }); v };
    let mut places: Vec<usize> = (0..6).map(|_| if c.rng.chance(1, 2) { *c.rng.pick(&cuts) } else { texts::boundary(&mut c.rng, &text) }).collect();
    places.push(text.len());
    if kind == Kind::Fall {
        let tests: Vec<Sp> = match &model {
            Some(m) if sound => m.tests.clone(),
            _ => tree.t.ch.iter().filter(|n| tree.name(n) == "TEST_DEF").map(|n| (n.start, n.end)).collect(),
        };
        for t in &tests { places.extend(&[t.0, t.1, t.0 + 1, t.1 - 1]) }
        for o in places {
            if !text.is_char_boundary(o) { continue }
            let got = c.guard("test_at_offset", &|| text.clone(), || ed.ask(&Q::TestAt(o)).text)?;
            let want = tests.iter().position(|t| t.0 <= o && (o < t.1 || o == t.1 && o == text.len() && t.0 < t.1));
            c.eval();
            c.ensure(got == format!("{:?}", want), "the test at a place is another", || format!("at {}: {}, expected {:?}\n{}", o, got, want, end()))?;
            if want.is_some() { c.count("places in tests", 1) }
        }
        return Ok(());
    }
    if let Some((probes, names)) = &rust {
        if sound {
            let got: Vec<String> = outline(kind, &tree, &text).into_iter().map(|x| x.0).collect();
            c.eval();
            c.ensure(&got == names, "the outline is not what was written", || format!("{:?}\ninstead of\n{:?}\n{}", got, names, end()))?;
            for (o, trail) in probes {
                if *o == text.len() || *o == 0 { continue }
                let got = c.guard("breadcrumbs", &|| text.clone(), || ed.ask(&Q::Crumbs(*o)).text)?;
                c.eval();
                c.ensure(got == format!("{:?}", trail), "the breadcrumbs are not what was written", || format!("at {}: {}, expected {:?}\n{}", o, got, trail, end()))?;
                c.max("longest trail of breadcrumbs", trail.len() as u64);
            }
            c.count("places with a known trail", probes.len() as u64);
            c.sample(|| text.clone());
        } else { c.count("written Rust files that did not parse", 1) }
    }
    tree.t.walk(&mut |n| if tree.name(n) == "LET" { places.push((n.end + 1).min(text.len())) });
    for n in tree.post() { if tree.name(n) == "EXPR_STMT" && c.rng.chance(1, 3) { places.push(n.end); places.push((n.end + 1).min(text.len())) } }
    places.truncate(40);
    for o in places {
        if !text.is_char_boundary(o) { continue }
        let got = c.guard("breadcrumbs", &|| text.clone(), || ed.ask(&Q::Crumbs(o)).text)?;
        let want = format!("{:?}", crumbs(&tree, o, &text));
        c.eval();
        c.ensure(got == want, "the breadcrumbs are wrong", || format!("at {}: {}, expected {}\n{}", o, got, want, end()))?;
        let got = c.guard("after_space_typed", &|| text.clone(), || ed.ask(&Q::Space(o)).text)?;
        let want = space(&tree, o, &text);
        c.eval();
        c.ensure(got == format!("{:?}", want), "the assist after a space is wrong", || format!("at {}: {}, expected {:?}\n{}", o, got, want, end()))?;
        if want.is_some() { c.count("assists after a space", 1) }
        let got = c.guard("expand", &|| text.clone(), || ed.ask(&Q::Expand(o)).edit)?;
        let want = expand(&tree, o, &text);
        c.eval();
        let got = got.map(|e| applied(&e, &text));
        c.ensure(got == want, "the expansion is wrong", || format!("at {}: {:?}, expected {:?}\n{}", o, got, want, end()))?;
        if want.is_some() { c.count("expansions", 1) }
    }
    Ok(())
}
