//! Grammar texts that say exactly what a given set of operators says, with typed accessors.

use std::collections::{BTreeMap, BTreeSet, HashMap};

use fall_parse::{Expr, ExprRef};

use crate::gen::grammars::{self, FILE};
use crate::model::peg::{refs, Raw};
use crate::rng::Rng;
use crate::tree::T;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Arity { One, Opt, Many }

#[derive(Clone, Debug)]
pub enum Child { Node(String), Class(String), Token(u32) }

#[derive(Clone, Debug)]
pub struct Method { pub name: String, pub child: Child, pub arity: Arity, pub text: bool }

pub struct Node { pub name: String, pub ty: u32, pub methods: Vec<Method>, pub traits: Vec<usize> }
pub struct Class { pub name: String, pub variants: Vec<String> }
pub struct Trait { pub name: String, pub methods: Vec<Method> }

pub struct Grammar {
    pub rules: Vec<Expr>,
    pub source: String,
    /// names of node types, by their number in the harness
    pub names: BTreeMap<u32, String>,
    pub nodes: Vec<Node>,
    pub classes: Vec<Class>,
    pub traits: Vec<Trait>,
    pub has_ast: bool,
    /// types that take the comments in front of them (with what follows those) and a blank behind them
    pub leading: BTreeSet<u32>,
    pub trailing: BTreeSet<u32>,
    /// the word "zz" is a token of its own
    zz: bool,
    pub features: BTreeSet<&'static str>,
}

pub fn camel(name: &str) -> String {
    name.split('_').map(|w| w[..1].to_ascii_uppercase() + &w[1..]).collect()
}

impl Grammar {
    pub fn const_name(&self, ty: u32) -> String { if ty == 0 { "ERROR".to_string() } else { self.names[&ty].to_ascii_uppercase() } }
    pub fn raw_tokens(&self, text: &str) -> Vec<Raw> {
        let mut raw = grammars::raw_tokens(text);
        if self.zz { for r in &mut raw { if &text[r.start..r.end] == "zz" { r.ty = grammars::ty_of(20) } } }
        raw
    }
    pub fn bind(&self, ty: u32, run: &[(u32, &str)], leading: bool) -> usize {
        let comment = grammars::ty_of(2);
        if leading && self.leading.contains(&ty) && run.iter().any(|r| r.0 == comment) { return run.len(); }
        if !leading && self.trailing.contains(&ty) && run.first().map_or(false, |r| r.0 != comment && !r.1.contains('\n')) { return 1; }
        0
    }
    pub fn node(&self, name: &str) -> Option<&Node> { self.nodes.iter().find(|n| n.name == name) }
    /// Types a selector accepts, and the names of the views that are tried, in order.
    fn select(&self, child: &Child, t: &T) -> Option<String> {
        match child {
            Child::Node(n) => if self.node(n)?.ty == t.ty { Some(camel(n)) } else { None },
            Child::Class(c) => {
                let class = self.classes.iter().find(|k| k.name == *c)?;
                class.variants.iter().find(|v| {
                    let ch = if self.node(v).is_some() { Child::Node(v.to_string()) } else { Child::Class(v.to_string()) };
                    self.select(&ch, t).is_some()
                }).map(|v| camel(v))
            }
            Child::Token(ty) => if t.ty == *ty { Some(String::new()) } else { None },
        }
    }
    /// What an accessor answers, in the driver's notation.  None: nothing is promised.
    fn answer(&self, m: &Method, t: &T, first_id: usize, text: &str) -> Option<String> {
        let mut ids = Vec::new();
        let mut id = first_id + 1;
        for c in &t.ch {
            if let Some(view) = self.select(&m.child, c) {
                ids.push(if m.text { format!("{:?}", &text[c.start..c.end]) }
                    else if view.is_empty() { format!("{}", id) }
                    else { format!("{}:{}@[{}; {})", id, view, c.start, c.end) });
            }
            id += c.count();
        }
        match m.arity {
            Arity::One => ids.into_iter().next(),
            Arity::Opt => Some(ids.into_iter().next().unwrap_or_else(|| "-".to_string())),
            Arity::Many => Some(format!("[{}]", ids.join(", "))),
        }
    }
    /// All answers of all views of a tree: (node, view, accessor) -> answer.
    pub fn answers(&self, root: &T, text: &str) -> BTreeMap<(usize, String, String), Option<String>> {
        fn go(g: &Grammar, t: &T, id: &mut usize, text: &str, out: &mut BTreeMap<(usize, String, String), Option<String>>) {
            let me = *id;
            *id += 1;
            for n in &g.nodes {
                if n.ty != t.ty { continue }
                let view = camel(&n.name);
                out.insert((me, view.clone(), String::new()), Some(format!("{}:{}@[{}; {})", me, view, t.start, t.end)));
                for m in &n.methods { out.insert((me, view.clone(), m.name.clone()), g.answer(m, t, me, text)); }
                for tr in &n.traits {
                    for m in &g.traits[*tr].methods { out.insert((me, view.clone(), format!("{}.{}", camel(&g.traits[*tr].name), m.name)), g.answer(m, t, me, text)); }
                }
            }
            for c in &g.classes {
                if let Some(v) = g.select(&Child::Class(c.name.clone()), t) {
                    out.insert((me, camel(&c.name), String::new()), Some(format!("{}:{}@[{}; {})", me, v, t.start, t.end)));
                }
            }
            for c in &t.ch { go(g, c, id, text, out) }
        }
        let mut out = BTreeMap::new();
        go(self, root, &mut 0, text, &mut out);
        out
    }
}

const TYPE_NAMES: &[&str] = &["stmt", "big_block", "n3", "x_1", "arg_list", "item", "expr_two", "decl", "paren_e", "thing", "k9", "path"];
const RULE_NAMES: &[&str] = &["any_thing", "eof_rule", "layer2", "inner", "part", "sub_rule", "aux", "many_of", "rest", "head", "tail", "one", "other", "wrap_it", "just", "skip2"];

struct P<'r, 'g> {
    rng: &'r mut Rng,
    rules: &'g [Expr],
    top: usize,
    /// expressions that get a rule of their own: name
    named: BTreeMap<u32, String>,
    /// variables an expression needs from its surroundings
    free: HashMap<u32, Vec<u32>>,
    names: BTreeMap<u32, String>,
    tokens: HashMap<u32, String>,
    features: BTreeSet<&'static str>,
    contexts: Vec<&'static str>,
    /// a rule that is one of its many parameters: how many, and which
    pass: Option<(usize, usize)>,
    passed: bool,
}

/// Prints operators as a grammar text; None if they have no such form.
pub fn write(rng: &mut Rng, mut rules: Vec<Expr>, top: usize) -> Option<Grammar> {
    let zz = rng.chance(1, 3);
    let odd = *rng.pick(&["ab", "ab", "c+", "\"##", "{{a}}", "#}", "\\d"]);
    let mut sometimes = Vec::new();
    for (i, e) in rules.iter_mut().enumerate() {
        match e {
            Expr::Or(v) if v.is_empty() => *e = Expr::And(vec![], None),
            Expr::ContextualToken(t, s) => match t.0 {
                20 if zz => *e = Expr::Token(*t),
                20 => *s = ">>".to_string(),
                21 => *s = ">=".to_string(),
                22 => *s = "kw".to_string(),
                _ => *s = odd.to_string(),
            },
            Expr::Pratt(t) => {
                for p in &mut t.prefixes { if rng.chance(1, 4) { p.priority = 999 } }
                for p in &mut t.infixes { if !p.has_rhs && rng.chance(1, 4) { p.priority = 999 } }
            }
            Expr::Pub { .. } => sometimes.push(i),
            _ => {}
        }
    }
    // free variables, to a fixed point
    let mut free: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); rules.len()];
    loop {
        let mut changed = false;
        for i in 0..rules.len() {
            let mut s = free[i].clone();
            match &rules[i] {
                Expr::Var(v) => { s.insert(v.0); }
                Expr::Call(_, args) => for a in args { s.extend(free[a.1 .0 as usize].iter().cloned()) },
                e => for r in refs(e) { if r.0 as usize >= top { s.extend(free[r.0 as usize].iter().cloned()) } },
            }
            if s != free[i] { free[i] = s; changed = true }
        }
        if !changed { break }
    }
    // parameters of the rules themselves: what their calls pass, and what they use
    let mut params: Vec<BTreeSet<u32>> = free[..top].to_vec();
    for e in &rules { if let Expr::Call(r, args) = e { for a in args { params[r.0 as usize].insert(a.0 .0); } } }
    // every reference to a rule with parameters is a call that passes all of them
    for e in &rules {
        if let Expr::Call(r, args) = e {
            if args.iter().map(|a| a.0 .0).collect::<BTreeSet<_>>() != params[r.0 as usize] || args.len() != params[r.0 as usize].len() { return None }
        } else {
            for r in refs(e) { if (r.0 as usize) < top && !params[r.0 as usize].is_empty() { return None } }
        }
    }
    // cached public rules
    for i in sometimes {
        let body = match &rules[i] { Expr::Pub { body, .. } => *body, _ => unreachable!() };
        if i > 0 && body.0 as usize >= top && free[i].is_empty() && rng.chance(1, 6) {
            rules.push(Expr::Cached(body));
            free.push(BTreeSet::new());
            let b = ExprRef(rules.len() as u32 - 1);
            if let Expr::Pub { body, .. } = &mut rules[i] { *body = b }
        }
    }
    // which expressions get rules
    let mut reach = BTreeSet::new();
    let mut indegree: HashMap<u32, usize> = HashMap::new();
    let mut todo: Vec<u32> = (0..top as u32).collect();
    while let Some(i) = todo.pop() {
        if !reach.insert(i) { continue }
        for r in refs(&rules[i as usize]) { *indegree.entry(r.0).or_insert(0) += 1; todo.push(r.0) }
    }
    let mut named = BTreeMap::new();
    let mut cached_inside = BTreeSet::new();
    for &i in &reach {
        if let Expr::Pub { body, .. } = &rules[i as usize] {
            if let Expr::Cached(_) = rules[body.0 as usize] { if body.0 as usize >= top && indegree[&body.0] == 1 { cached_inside.insert(body.0); } }
        }
    }
    let mut in_pratt = BTreeSet::new();
    for &i in &reach { if let Expr::Pratt(t) = &rules[i as usize] { for a in &t.atoms { in_pratt.insert(a.0); } } }
    for &i in &reach {
        let must = match &rules[i as usize] {
            Expr::Pub { .. } | Expr::PubReplace { .. } | Expr::Pratt(_) => true,
            Expr::Cached(_) => !cached_inside.contains(&i),
            Expr::Token(_) | Expr::ContextualToken(..) | Expr::Eof | Expr::Any | Expr::Var(_) | Expr::IsIn(_) => false,
            _ => indegree.get(&i).map_or(false, |n| *n > 1) || rng.chance(1, 12),
        };
        if (i as usize) < top || must { named.insert(i, String::new()); }
    }
    let args_total: usize = named.keys().map(|i| if (*i as usize) < top { params[*i as usize].len() } else { free[*i as usize].len() }).sum();
    if args_total > 60 { return None }
    for &i in named.keys() {
        if i as usize >= top && free[i as usize].len() > 0 {
            // pratt tables cannot pass arguments on; caching depends on the place only
            if let Expr::Pratt(_) | Expr::Cached(_) = &rules[i as usize] { return None }
            if in_pratt.contains(&i) { return None }
        }
    }
    for a in &in_pratt { match &rules[*a as usize] { Expr::Pub { .. } if *a as usize >= top => {} _ => return None } }

    // names
    let mut type_names: Vec<&str> = TYPE_NAMES.to_vec();
    rng.shuffle(&mut type_names);
    let mut names = BTreeMap::new();
    for ty in 1..FILE { names.insert(grammars::ty_of(ty), grammars::NAMES[ty as usize].to_ascii_lowercase()); }
    names.insert(grammars::ty_of(FILE), "file".to_string());
    for k in 0..grammars::N_NODES { names.insert(grammars::ty_of(FILE + 1 + k), type_names[k as usize].to_string()); }
    let contexts = { let mut c = vec!["in_x", "b", "no struct", "A"]; rng.shuffle(&mut c); c };
    let pass = if rng.chance(1, 6) { let n = rng.range(1, 24); Some((n, rng.below(n))) } else { None };
    let mut p = P {
        rng, rules: &rules, top, named, free: HashMap::new(), names, tokens: HashMap::new(), features: BTreeSet::new(), contexts, pass, passed: false,
    };
    for &i in p.named.keys() {
        let v = if (i as usize) < top { params[i as usize].iter().cloned().collect() } else { free[i as usize].iter().cloned().collect() };
        p.free.insert(i, v);
    }

    let tokenizer = p.tokenizer(zz, odd);
    // rules that define a type give it their name
    let mut defines: BTreeMap<u32, u32> = BTreeMap::new();
    let mut order: Vec<u32> = p.named.keys().cloned().filter(|i| *i != 0).collect();
    p.rng.shuffle(&mut order);
    order.insert(0, 0);
    let mut rule_names: Vec<String> = RULE_NAMES.iter().map(|s| s.to_string()).collect();
    // a private rule may be called like a token that is only ever quoted
    rule_names.push("plus".to_string());
    p.rng.shuffle(&mut rule_names);
    let plus_is_quoted = p.tokens[&14].starts_with('\'');
    let mut k = 0;
    for &i in &order {
        let ty = match &p.rules[i as usize] { Expr::Pub { ty, .. } | Expr::PubReplace { ty, .. } => Some(ty.0), _ => None };
        let is_pratt = match &p.rules[i as usize] { Expr::Pratt(_) => true, _ => false };
        let name = match ty {
            Some(ty) if !defines.contains_key(&ty) => { defines.insert(ty, i); p.names[&grammars::ty_of(ty)].clone() }
            _ => loop {
                k += 1;
                let n = match rule_names.get(k - 1) { Some(n) => n.clone(), None => format!("r{}", k) };
                if n == "plus" && (!plus_is_quoted || ty.is_some() || is_pratt) { continue }
                break n;
            },
        };
        p.named.insert(i, name);
    }
    // operators of pratt tables need rules for their types
    let mut op_rules: Vec<String> = Vec::new();
    let mut bodies: Vec<(u32, String)> = Vec::new();
    let mut op_count = 0;
    for &i in &order {
        let text = match &p.rules[i as usize] {
            Expr::Pratt(t) => {
                p.features.insert("pratt");
                let me = p.named[&i].clone();
                let mut kinds: Vec<usize> = Vec::new();
                for _ in &t.atoms { kinds.push(0) }
                for _ in &t.prefixes { kinds.push(1) }
                for _ in &t.infixes { kinds.push(2) }
                p.rng.shuffle(&mut kinds);
                let mut at = [0usize; 3];
                let mut alts = Vec::new();
                for kind in kinds {
                    let n = at[kind];
                    at[kind] += 1;
                    if kind == 0 { alts.push(p.named[&t.atoms[n].0].clone()); continue }
                    let (ty, op, prio, attr) = if kind == 1 { let x = &t.prefixes[n]; (x.ty.0, x.op, x.priority, "prefix") }
                        else { let x = &t.infixes[n]; (x.ty.0, x.op, x.priority, if x.has_rhs { "bin" } else { "postfix" }) };
                    op_count += 1;
                    let mut attrs = vec![if prio == 999 && kind != 3 && attr != "bin" { p.features.insert("default priority"); attr.to_string() } else { format!("{}({})", attr, prio) }];
                    let ty_name = p.names[&grammars::ty_of(ty)].clone();
                    let name = if defines.contains_key(&ty) { p.features.insert("type attribute"); attrs.push(format!("type({})", ty_name)); format!("op_{}", op_count) }
                        else { defines.insert(ty, u32::max_value()); ty_name };
                    p.rng.shuffle(&mut attrs);
                    let op = p.expr(op, 2);
                    let filler = if p.rng.chance(1, 4) { "<any>".to_string() } else { me.clone() };
                    let body = match attr { "prefix" => format!("{} {}", op, filler), "postfix" => format!("{} {}", filler, op), _ => format!("{} {} {}", filler, op, me) };
                    op_rules.push(format!("#[{}]\npub rule {} {{ {} }}", attrs.join(", "), name, body));
                    alts.push(name);
                }
                alts.join(" | ")
            }
            Expr::Pub { body, .. } => {
                let b = if cached_inside.contains(&body.0) { match &p.rules[body.0 as usize] { Expr::Cached(b) => *b, _ => unreachable!() } } else { *body };
                p.body(b)
            }
            Expr::PubReplace { body, .. } | Expr::Cached(body) => p.body(*body),
            Expr::Or(v) if (i as usize) < top && v.len() == 1 => p.body(v[0]),
            _ => p.inline(i, 0)
        };
        bodies.push((i, text));
    }
    let mut items: Vec<String> = Vec::new();
    let mut first = String::new();
    for (i, body) in bodies {
        let mut attrs: Vec<String> = Vec::new();
        let mut public = false;
        match &p.rules[i as usize] {
            Expr::Pub { ty, body, replaceable } => {
                public = true;
                if defines[&ty.0] != i { attrs.push(format!("type({})", p.names[&grammars::ty_of(ty.0)])); p.features.insert("type attribute"); }
                if *replaceable { attrs.push("replaceable".to_string()); p.features.insert("replaceable"); }
                if cached_inside.contains(&body.0) { attrs.push("cached".to_string()); p.features.insert("cached public rule"); }
                if in_pratt.contains(&i) { attrs.push("atom".to_string()) }
            }
            Expr::PubReplace { ty, .. } => {
                public = true;
                if defines[&ty.0] != i { attrs.push(format!("type({})", p.names[&grammars::ty_of(ty.0)])) }
                attrs.push("replaces".to_string());
                p.features.insert("replaces");
            }
            Expr::Pratt(_) => attrs.push("pratt".to_string()),
            Expr::Cached(_) => { attrs.push("cached".to_string()); p.features.insert("cached rule"); }
            _ => {}
        }
        if let Expr::Pratt(_) = &p.rules[i as usize] { public = p.rng.chance(1, 4); if public { p.features.insert("public pratt"); } }
        if i == 0 && !public { return None }
        let vars = p.free[&i].clone();
        let mut body = body;
        let mut ps = Vec::new();
        for v in vars {
            // a parameter may hide a rule or a token the rule does not mention
            let idents: BTreeSet<&str> = body.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '@').collect();
            let pool = ["word", "x", "el", "inner", "body", "file"];
            let pick = (*p.rng.pick(&pool)).to_string();
            let name = if p.rng.chance(1, 2) && !idents.contains(pick.as_str()) && !ps.contains(&pick) { pick } else { format!("p{}", v) };
            if ["word", "inner", "file"].contains(&name.as_str()) { p.features.insert("parameter hides a name"); }
            body = body.replace(&format!("@{}@", v), &name);
            ps.push(name);
        }
        p.rng.shuffle(&mut attrs);
        let attrs = if attrs.is_empty() { String::new() } else { format!("#[{}]{}", attrs.join(", "), if p.rng.chance(1, 2) { "\n" } else { " " }) };
        let ps = if ps.is_empty() { String::new() } else { p.features.insert("parameters"); format!("({})", ps.join(", ")) };
        let text = format!("{}{}rule {}{} {{ {} }}", attrs, if public { "pub " } else { "" }, p.named[&i], ps, body);
        if text.contains('@') { return None }
        if i == 0 { first = text } else { items.push(text) }
    }
    // a public pratt rule would define a node type nothing has: the generator lists it, so names must not clash
    items.extend(op_rules);
    if let (true, Some((n, k))) = (p.passed, p.pass) {
        let ps: Vec<String> = (0..n).map(|i| format!("a{}", i)).collect();
        items.push(format!("rule pass_on({}) {{ {} }}", ps.join(", "), ps[k]));
    }
    p.rng.shuffle(&mut items);
    let defined: Vec<u32> = defines.keys().cloned().collect();
    let mut names = p.names;
    let mut features = p.features;
    let contexts_used = rules.iter().enumerate().any(|(i, e)| reach.contains(&(i as u32)) && matches_ctx(e));
    if contexts_used { features.insert("contexts"); }
    names = names.into_iter().filter(|(t, _)| { let r = *t - grammars::BASE; r < FILE || defined.contains(&r) }).collect();
    let mut g = Grammar { source: String::new(), names, nodes: vec![], classes: vec![], traits: vec![], has_ast: false, leading: BTreeSet::new(), trailing: BTreeSet::new(), zz, features, rules: vec![] };
    let ast = ast(rng, &mut g, &defined);
    let verbatim = verbatim(rng, &mut g, &defined);
    let mut parts = vec![first];
    parts.append(&mut items);
    for extra in vec![Some(tokenizer), ast, Some(verbatim), if rng.chance(1, 3) { Some("test r\"a b c\"".to_string()) } else { None }] {
        if let Some(e) = extra { let at = rng.below(parts.len() + 1); parts.insert(at, e) }
    }
    for (i, part) in parts.iter().enumerate() {
        if i > 0 { g.source.push_str(*rng.pick(&["\n", "\n\n", " ", "\n// rule x { y }\n"])) }
        g.source.push_str(part);
    }
    g.source.push('\n');
    g.rules = rules;
    Some(g)
}

fn matches_ctx(e: &Expr) -> bool { match e { Expr::Enter(..) | Expr::Exit(..) | Expr::IsIn(_) => true, _ => false } }

impl<'r, 'g> P<'r, 'g> {
    fn tokenizer(&mut self, zz: bool, odd: &str) -> String {
        let mut out: Vec<String> = Vec::new();
        let mut lits = vec![];
        for i in 0..6u32 { lits.push((grammars::FIRST_LETTER + i, ((b'a' + i as u8) as char).to_string())) }
        for (i, c) in "(){},+-*>=".chars().enumerate() { lits.push((9 + i as u32, c.to_string())) }
        for (ty, lit) in lits {
            let name = self.names[&grammars::ty_of(ty)].clone();
            match self.rng.below(5) {
                0 => { self.tokens.insert(ty, name.clone()); out.push(format!("{} r\"[{}]\"", name, lit)) }
                1 if lit.chars().all(|c| c.is_alphabetic()) => { self.tokens.insert(ty, name.clone()); out.push(format!("{} r#\"{}|{}\"#", name, lit, lit)) }
                _ => { self.tokens.insert(ty, format!("'{}'", lit)); out.push(format!("{} '{}'", name, lit)) }
            }
        }
        self.rng.shuffle(&mut out);
        let skip = |r: &mut Rng| if r.chance(1, 3) { "#[skip]\n".to_string() } else { "#[skip] ".to_string() };
        let ws = format!("{}ws r\"[ \\n\\t]+\"", skip(self.rng));
        let comment = if self.rng.chance(1, 2) { self.features.insert("token function"); format!("{}comment r\"%\" 'to_eol'", skip(self.rng)) } else { format!("{}comment r\"%[^\\n]*\"", skip(self.rng)) };
        for s in vec![ws, comment] { let at = self.rng.below(out.len() + 1); out.insert(at, s) }
        let word = "word r\"[g-z]+\"".to_string();
        let at = self.rng.below(out.len() + 1);
        out.insert(at, word);
        self.tokens.insert(19, "word".to_string());
        if zz {
            // in front of words, so that it wins
            self.features.insert("token order");
            let at = self.rng.below(at + 1);
            out.insert(at, "shr 'zz'".to_string());
            self.tokens.insert(20, "'zz'".to_string());
        } else {
            out.push("#[contextual] shr '>>'".to_string());
            self.tokens.insert(20, "'>>'".to_string());
            // behind words: never seen
            if self.rng.chance(1, 2) { self.features.insert("token order"); out.push("unseen 'zz'".to_string()) }
        }
        for (ty, s) in vec![(21, ">="), (22, "kw"), (23, odd)] {
            if odd != "ab" && ty == 23 { self.features.insert("odd token text"); }
            let at = self.rng.below(out.len() + 1);
            out.insert(at, format!("#[contextual] {} '{}'", self.names[&grammars::ty_of(ty)], s));
            self.tokens.insert(ty, format!("'{}'", s));
        }
        format!("tokenizer {{\n  {}\n}}", out.join("\n  "))
    }

    fn body(&mut self, e: ExprRef) -> String { self.expr(e, 0) }

    /// level 0: alternatives, 1: a sequence, 2: one part
    fn expr(&mut self, e: impl Index, level: u32) -> String {
        let e = e.index();
        if let Some(name) = self.named.get(&e).cloned() {
            let args = self.free.get(&e).cloned().unwrap_or_default();
            if args.is_empty() { return self.wrap(name); }
            let args: Vec<String> = args.into_iter().map(|v| format!("@{}@", v)).collect();
            return format!("<{} {}>", name, args.join(" "));
        }
        self.inline(e, level)
    }

    fn inline(&mut self, e: u32, level: u32) -> String {
        let rules = self.rules;
        match &rules[e as usize] {
            Expr::Or(v) => {
                let mut alts: Vec<String> = v.iter().map(|x| self.expr(*x, 1)).collect();
                if alts.len() == 1 && level == 1 { return self.expr(v[0], 1); }
                if alts.len() == 1 && alts[0].is_empty() { alts[0] = "{}".to_string() }
                let s = alts.join(" | ");
                if level == 0 { s } else { format!("{{ {} }}", s) }
            }
            Expr::And(v, commit) => {
                let mut parts: Vec<String> = v.iter().map(|x| self.expr(*x, 2)).collect();
                if let Some(c) = commit {
                    self.features.insert("commit");
                    parts.insert((*c).min(parts.len()), "<commit>".to_string());
                    // only the first one counts
                    if self.rng.chance(1, 8) { let at = self.rng.range(*c + 1, parts.len()); parts.insert(at, "<commit>".to_string()) }
                }
                let s = parts.join(" ");
                if level <= 1 { s } else { format!("{{ {} }}", s) }
            }
            Expr::Token(t) | Expr::ContextualToken(t, _) => { let s = self.tokens[&t.0].clone(); self.wrap(s) }
            Expr::Rep(b) => format!("{}*", self.expr(*b, 2)),
            Expr::Opt(b) => format!("{}?", self.expr(*b, 2)),
            Expr::Not(b) => format!("<not {}>", self.expr(*b, 2)),
            Expr::Eof => "<eof>".to_string(),
            Expr::Any => "<any>".to_string(),
            Expr::WithSkip(a, b) => { self.features.insert("with_skip"); format!("<with_skip {} {}>", self.expr(*a, 2), self.expr(*b, 2)) }
            Expr::Layer(a, b) => { self.features.insert("layer"); format!("<layer {} {}>", self.expr(*a, 2), self.expr(*b, 2)) }
            Expr::Inject(a, b) => { self.features.insert("inject"); format!("<inject {} {}>", self.expr(*a, 2), self.expr(*b, 2)) }
            Expr::Enter(c, b) => { let b = self.expr(*b, 2); format!("<enter '{}' {}>", self.contexts[c.0 as usize % 4], b) }
            Expr::Exit(c, b) => { let b = self.expr(*b, 2); format!("<exit '{}' {}>", self.contexts[c.0 as usize % 4], b) }
            Expr::IsIn(c) => format!("<is_in '{}'>", self.contexts[c.0 as usize % 4]),
            Expr::Var(v) => format!("@{}@", v.0),
            Expr::PrevIs(tys) => { self.features.insert("prev_is"); format!("<prev_is{}>", tys.iter().map(|t| format!(" {}", self.names[&grammars::ty_of(t.0)])).collect::<String>()) }
            Expr::Call(r, args) => {
                let params = self.free[&r.0].clone();
                let mut out = vec![self.named[&r.0].clone()];
                for p in params {
                    let value = args.iter().find(|a| a.0 .0 == p).unwrap().1;
                    out.push(self.expr(value, 2));
                }
                format!("<{}>", out.join(" "))
            }
            Expr::Pub { .. } | Expr::PubReplace { .. } | Expr::Cached(_) | Expr::Pratt(_) => panic!("harness: expression without a rule"),
        }
    }

    fn wrap(&mut self, s: String) -> String {
        if let Some((n, k)) = self.pass {
            if self.rng.chance(1, 6) {
                self.passed = true;
                self.features.insert("many parameters");
                let other: Vec<String> = self.tokens.values().cloned().collect();
                let args: Vec<String> = (0..n).map(|i| if i == k { s.clone() } else { self.rng.pick(&other).clone() }).collect();
                return format!("<pass_on {}>", args.join(" "));
            }
        }
        if self.rng.chance(1, 16) { format!("{{{}}}", s) } else { s }
    }
}

pub trait Index { fn index(self) -> u32; }
impl Index for u32 { fn index(self) -> u32 { self } }
impl Index for ExprRef { fn index(self) -> u32 { self.0 } }

fn ast(rng: &mut Rng, g: &mut Grammar, defined: &[u32]) -> Option<String> {
    if rng.chance(1, 8) { return None }
    g.has_ast = true;
    let mut types: Vec<u32> = Vec::new();
    for &t in defined { if t == FILE || rng.chance(2, 3) { types.push(grammars::ty_of(t)) } }
    // views of tokens
    if rng.chance(1, 2) { types.push(grammars::ty_of(*rng.pick(&[19u32, 3, 13, 2]))) ; g.features.insert("view of a token"); }
    rng.shuffle(&mut types);
    let names: Vec<String> = types.iter().map(|t| g.names[t].clone()).collect();
    let mut classes: Vec<Class> = Vec::new();
    for k in 0..rng.below(4) {
        let mut pool = names.clone();
        if k > 0 && rng.chance(1, 2) { pool.push(classes[0].name.clone()); }
        rng.shuffle(&mut pool);
        let n = rng.range(1, 4).min(pool.len());
        pool.truncate(n);
        if pool.iter().any(|v| classes.iter().any(|c| c.name == *v)) { g.features.insert("class of classes"); }
        classes.push(Class { name: ["any_node", "kind", "one_of_x", "c4"][k].to_string(), variants: pool });
    }
    let node_names = names.clone();
    let class_names: Vec<String> = classes.iter().map(|c| c.name.clone()).collect();
    let methods = |rng: &mut Rng, g: &mut Grammar, prefix: &str, max: usize| -> Vec<Method> {
        let mut out: Vec<Method> = Vec::new();
        for k in 0..rng.below(max + 1) {
            let child = match rng.below(6) {
                0..=2 => Child::Node(rng.pick(&node_names).clone()),
                3 if !class_names.is_empty() => Child::Class(rng.pick(&class_names).clone()),
                _ => {
                    let ty = *rng.pick(&[3u32, 4, 5, 6, 7, 8, 13, 14, 19, 9, 20, 22, 1, 2, 23]);
                    let name = &g.names[&grammars::ty_of(ty)];
                    if node_names.contains(name) { Child::Node(name.clone()) } else { Child::Token(grammars::ty_of(ty)) }
                }
            };
            let (arity, text) = match child {
                Child::Token(_) => (if rng.chance(1, 2) { Arity::One } else { Arity::Opt }, rng.chance(1, 2)),
                _ => (*rng.pick(&[Arity::One, Arity::Opt, Arity::Many]), false),
            };
            let feature = match (&child, arity, text) {
                (Child::Token(_), Arity::One, true) => "accessor: text", (Child::Token(_), _, true) => "accessor: optional text",
                (Child::Token(_), Arity::One, _) => "accessor: token", (Child::Token(_), _, _) => "accessor: optional token",
                (Child::Node(_), Arity::One, _) => "accessor: node", (Child::Node(_), Arity::Opt, _) => "accessor: optional node", (Child::Node(_), _, _) => "accessor: nodes",
                (_, Arity::One, _) => "accessor: class", (_, Arity::Opt, _) => "accessor: optional class", _ => "accessor: classes",
            };
            g.features.insert(feature);
            out.push(Method { name: format!("{}{}", prefix, k), child, arity, text });
        }
        out
    };
    let mut traits: Vec<Trait> = Vec::new();
    for k in 0..rng.below(3) { let m = methods(rng, g, &format!("t{}_", k), 3); traits.push(Trait { name: ["has_name", "owner"][k].to_string(), methods: m }); }
    let mut nodes = Vec::new();
    for (i, name) in names.iter().enumerate() {
        let prefix = *rng.pick(&["m", "get_it", "x_"]);
        let m = methods(rng, g, prefix, 5);
        let mut t: Vec<usize> = (0..traits.len()).filter(|_| rng.chance(1, 3)).collect();
        rng.shuffle(&mut t);
        if !t.is_empty() { g.features.insert("trait"); }
        nodes.push(Node { name: name.clone(), ty: types[i], methods: m, traits: t });
    }
    let show = |g: &Grammar, m: &Method| -> String {
        let child = match &m.child { Child::Node(n) | Child::Class(n) => n.clone(), Child::Token(t) => g.names[t].clone() };
        let suffix = match (m.arity, m.text) { (Arity::One, false) => "", (Arity::One, true) => ".text", (Arity::Opt, false) => "?", (Arity::Opt, true) => "?.text", (Arity::Many, _) => "*" };
        format!("{} {}{}", m.name, child, suffix)
    };
    let mut items: Vec<String> = Vec::new();
    for n in &nodes {
        let tr: Vec<String> = n.traits.iter().map(|t| traits[*t].name.clone()).collect();
        let tr = if tr.is_empty() { String::new() } else { format!(": {}", tr.join(", ")) };
        items.push(format!("node {}{} {{ {} }}", n.name, tr, n.methods.iter().map(|m| show(g, m)).collect::<Vec<_>>().join(*rng.pick(&[" ", "\n    "]))));
    }
    for c in &classes { items.push(format!("class {} {{ {} }}", c.name, c.variants.join(" "))) }
    for t in &traits { items.push(format!("trait {} {{ {} }}", t.name, t.methods.iter().map(|m| show(g, m)).collect::<Vec<_>>().join(" "))) }
    rng.shuffle(&mut items);
    g.nodes = nodes;
    g.classes = classes;
    g.traits = traits;
    Some(format!("ast {{\n  {}\n}}", items.join("\n  ")))
}

fn verbatim(rng: &mut Rng, g: &mut Grammar, defined: &[u32]) -> String {
    let mut code = String::from("#[allow(dead_code)]\nfn to_eol(s: &str) -> Option<usize> { Some(s.find('\\n').unwrap_or(s.len())) }\n");
    if rng.chance(1, 3) {
        g.features.insert("whitespace binder");
        for &t in defined {
            if t == FILE { continue }
            if rng.chance(1, 2) { g.leading.insert(grammars::ty_of(t)); }
            if rng.chance(1, 3) { g.trailing.insert(grammars::ty_of(t)); }
        }
        let list = |g: &Grammar, s: &BTreeSet<u32>| s.iter().map(|t| g.const_name(*t)).collect::<Vec<_>>().join(", ");
        code.push_str(&format!("
fn whitespace_binder(ty: rt::NodeType, adjacent_spaces: Vec<(rt::NodeType, &str)>, leading: bool) -> usize {{
    let front: &[rt::NodeType] = &[{}];
    let back: &[rt::NodeType] = &[{}];
    if leading && front.contains(&ty) && adjacent_spaces.iter().any(|s| s.0 == COMMENT) {{ return adjacent_spaces.len(); }}
    if !leading && back.contains(&ty) && adjacent_spaces.first().map_or(false, |s| s.0 != COMMENT && !s.1.contains('\\n')) {{ return 1; }}
    0
}}
", list(g, &g.leading), list(g, &g.trailing)));
    }
    format!("verbatim r##\"\n{}\"##", code)
}
