use fall_parse::{Expr, ExprRef, Infix, NodeTypeRef, PrattTable, Prefix};

use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::grammars::{self, NAMES};
use crate::gen::programs::{self, n, t, X};
use crate::langs::Kind;
use crate::model::peg::{self, Peg};
use crate::tree::T;
use crate::rng::Rng;
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C08", plan, case, finish: None,
        rule: "a random operator table (atoms, prefix, postfix and binary operators with random priorities, one or two tokens or a bracketed operand each) or the arithmetic test language; random expressions are generated as trees, written with brackets where priorities demand them, and parsed; the tree must come back; further, random strings of operators and operands, with operands missing anywhere, must parse as an independent reference of priority parsing says. Non-trivial: at least 2 operators; distinct by table and text.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 40_000, 18.0, 60) }

#[derive(Clone)]
enum OpBody { Toks(Vec<u32>), Either(u32, u32), Wrap(u32, u32) }
#[derive(Clone)]
struct Op { name: &'static str, ty: u32, prio: u64, body: OpBody }

struct Table { prefix: Vec<Op>, postfix: Vec<Op>, bin: Vec<Op>, tok: fn(u32) -> (&'static str, &'static str), atom: fn(&mut Rng) -> X, paren: &'static str, lp: u32, rp: u32 }

enum E { Atom(X), Paren(Box<E>), Pre(usize, Vec<X>, Box<E>), Post(usize, Vec<Part>, Box<E>), Bin(usize, Vec<X>, Box<E>, Option<Box<E>>) }
enum Part { Tok(X), Expr(E) }

/// Spelling of a token of the random grammars.
fn grammar_tok(r: u32) -> (&'static str, &'static str) {
    let text = match r { 3 => "a", 4 => "b", 5 => "c", 6 => "d", 7 => "e", 8 => "f", 9 => "(", 10 => ")", 11 => "{", 12 => "}", 13 => ",", 14 => "+", 15 => "-", 16 => "*", 17 => ">", _ => "=" };
    (NAMES[r as usize], text)
}
fn grammar_atom(rng: &mut Rng) -> X { n("N1", vec![t("WORD", *rng.pick(&["x", "yy", "hints", "g"]))]) }
fn arith_tok(r: u32) -> (&'static str, &'static str) { [("PLUS", "+"), ("MINUS", "-"), ("STAR", "*"), ("SLASH", "/"), ("BANG", "!"), ("LPAREN", "("), ("RPAREN", ")")][r as usize] }
fn arith_atom(rng: &mut Rng) -> X { n("CONSTANT_EXPR", vec![t("NUMBER", *rng.pick(&["1", "92", "0"]))]) }

fn arith() -> Table {
    let op = |name, prio, body| Op { name, ty: 0, prio, body };
    Table {
        prefix: vec![op("NEGATE_EXPR", 999, OpBody::Toks(vec![1]))], postfix: vec![op("FACTORIAL_EXPR", 999, OpBody::Toks(vec![4]))],
        bin: vec![op("SUM_EXPR", 1, OpBody::Either(0, 1)), op("PRODUCT_EXPR", 2, OpBody::Either(2, 3))],
        tok: arith_tok, atom: arith_atom, paren: "PAREN_EXPR", lp: 5, rp: 6,
    }
}

fn random_table(rng: &mut Rng) -> Table {
    // first tokens of operators that follow an operand, each used once; + - * > = , a b c d e f
    let mut after: Vec<u32> = vec![14, 15, 16, 17, 18, 13, 3, 4, 5, 6, 7, 8];
    rng.shuffle(&mut after);
    let mut before: Vec<u32> = vec![14, 15, 16, 3, 4];
    rng.shuffle(&mut before);
    let prios: Vec<u64> = match rng.below(4) { 3 => vec![0, 7, u64::from(std::u32::MAX) - 1, u64::from(std::u32::MAX)], 0 => vec![1, 2, 3], 1 => vec![0, 1, 2, 7, 999], _ => (0..10).collect() };
    let mut ty = 3;
    let mut next_ty = |rng: &mut Rng| { if ty < 12 && rng.chance(5, 6) { ty += 1 } ty };
    let mut op = |rng: &mut Rng, first: u32, second: Option<u32>, wrap: bool| {
        let body = if wrap { OpBody::Wrap(11, 12) } else if let (Some(s), true) = (second, rng.chance(1, 4)) { OpBody::Either(first, s) }
            else if rng.chance(1, 5) { let s = *rng.pick(&[13, 14, 17, 8]); OpBody::Toks(vec![first, s]) } else { OpBody::Toks(vec![first]) };
        let k = next_ty(rng);
        let prio = *rng.pick(&prios);
        Op { name: NAMES[grammars::FILE as usize + k as usize], ty: grammars::FILE + k, prio, body }
    };
    let mut table = Table { prefix: vec![], postfix: vec![], bin: vec![], tok: grammar_tok, atom: grammar_atom, paren: "N2", lp: 9, rp: 10 };
    for _ in 0..rng.range(1, 4) { let f = after.pop().unwrap(); let s = if rng.chance(1, 3) { after.pop() } else { None }; let o = op(rng, f, s, false); table.bin.push(o) }
    for _ in 0..rng.below(3) { let f = after.pop().unwrap(); let o = op(rng, f, None, false); table.postfix.push(o) }
    if rng.chance(1, 3) { let o = op(rng, 11, None, true); table.postfix.push(o) }
    for _ in 0..rng.below(3) { let f = before.pop().unwrap(); let o = op(rng, f, None, false); table.prefix.push(o) }
    table
}

fn rules(rng: &mut Rng, table: &Table) -> Vec<Expr> {
    let mut r: Vec<Expr> = vec![Expr::Pub { ty: NodeTypeRef(grammars::FILE), body: ExprRef(1), replaceable: false }, Expr::Eof, Expr::Eof, Expr::Eof];
    fn add(r: &mut Vec<Expr>, e: Expr) -> ExprRef { r.push(e); ExprRef(r.len() as u32 - 1) }
    fn tok(r: &mut Vec<Expr>, t: u32) -> ExprRef { add(r, Expr::Token(NodeTypeRef(t))) }
    // 1: the expression (pratt), 2: atom, 3: bracketed
    let w = tok(&mut r, 19);
    r[2] = Expr::Pub { ty: NodeTypeRef(grammars::FILE + 1), body: w, replaceable: false };
    let (l, rp) = (tok(&mut r, 9), tok(&mut r, 10));
    let and = add(&mut r, Expr::And(vec![l, ExprRef(1), rp], None));
    r[3] = Expr::Pub { ty: NodeTypeRef(grammars::FILE + 2), body: and, replaceable: false };
    let mut body = |r: &mut Vec<Expr>, o: &Op| match &o.body {
        OpBody::Toks(v) if v.len() == 1 => tok(r, v[0]),
        OpBody::Toks(v) => { let v = v.iter().map(|&t| tok(r, t)).collect(); add(r, Expr::And(v, None)) }
        OpBody::Either(a, b) => { let (a, b) = (tok(r, *a), tok(r, *b)); add(r, Expr::Or(vec![a, b])) }
        OpBody::Wrap(a, b) => { let (a, b) = (tok(r, *a), tok(r, *b)); add(r, Expr::And(vec![a, ExprRef(1), b], None)) }
    };
    let prefixes = table.prefix.iter().map(|o| Prefix { ty: NodeTypeRef(o.ty), op: body(&mut r, o), priority: o.prio as u32 }).collect();
    let mut infixes: Vec<Infix> = Vec::new();
    for (ops, has_rhs) in &[(&table.bin, true), (&table.postfix, false)] {
        for o in ops.iter() { let op = body(&mut r, o); infixes.push(Infix { ty: NodeTypeRef(o.ty), op, priority: o.prio as u32, has_rhs: *has_rhs }) }
    }
    rng.shuffle(&mut infixes);
    let mut atoms = vec![ExprRef(2), ExprRef(3)];
    rng.shuffle(&mut atoms);
    r[1] = Expr::Pratt(Box::new(PrattTable { atoms, prefixes, infixes }));
    r
}

struct G<'a> { rng: &'a mut Rng, table: &'a Table, fuel: i64, missing: u64, ops: u64, parens: u64 }

impl<'a> G<'a> {
    fn toks(&mut self, b: &OpBody) -> Vec<X> {
        let pick = match b { OpBody::Toks(v) => v.clone(), OpBody::Either(a, b) => vec![*self.rng.pick(&[*a, *b])], OpBody::Wrap(..) => vec![] };
        pick.into_iter().map(|k| { let (n, s) = (self.table.tok)(k); t(n, s) }).collect()
    }
    fn atom(&mut self) -> E { E::Atom((self.table.atom)(self.rng)) }
    fn gen(&mut self, d: u32) -> E {
        self.fuel -= 1;
        if self.fuel < 0 || d > 150 { return self.atom(); }
        match self.rng.below(10) {
            0..=4 => {
                let i = self.rng.below(self.table.bin.len());
                let toks = self.toks(&self.table.bin[i].body);
                // lean to one side now and then
                let (l, r) = match self.rng.below(4) {
                    0 => (self.gen(d + 1), self.atom()),
                    1 => (self.atom(), self.gen(d + 1)),
                    _ => (self.gen(d + 1), self.gen(d + 1)),
                };
                self.bin(i, toks, l, r)
            }
            5 | 6 if !self.table.prefix.is_empty() => {
                let i = self.rng.below(self.table.prefix.len());
                let toks = self.toks(&self.table.prefix[i].body);
                let x = self.gen(d + 1);
                let x = if self.fits(&x, self.table.prefix[i].prio) { x } else { self.paren(x) };
                self.ops += 1;
                E::Pre(i, toks, Box::new(x))
            }
            7 | 8 if !self.table.postfix.is_empty() => {
                let i = self.rng.below(self.table.postfix.len());
                let o = self.table.postfix[i].clone();
                let x = self.gen(d + 1);
                let x = if self.closed(&x, o.prio) { x } else { self.paren(x) };
                let parts = if let OpBody::Wrap(a, b) = o.body {
                    let (p, q) = ((self.table.tok)(a), (self.table.tok)(b));
                    let inner = self.gen(d + 1);
                    vec![Part::Tok(t(p.0, p.1)), Part::Expr(inner), Part::Tok(t(q.0, q.1))]
                } else { self.toks(&o.body).into_iter().map(Part::Tok).collect() };
                self.ops += 1;
                E::Post(i, parts, Box::new(x))
            }
            9 if self.rng.chance(1, 3) => { let x = self.gen(d + 1); self.paren(x) }
            _ => self.atom(),
        }
    }
    fn bin(&mut self, i: usize, toks: Vec<X>, l: E, r: E) -> E {
        let prio = self.table.bin[i].prio;
        let l = if self.closed(&l, prio) { l } else { self.paren(l) };
        let r = if self.fits(&r, prio + 1) { r } else { self.paren(r) };
        self.ops += 1;
        E::Bin(i, toks, Box::new(l), Some(Box::new(r)))
    }
    /// Brackets, in which the operand of the last operator may be missing.
    fn paren(&mut self, mut x: E) -> E {
        if self.rng.chance(1, 6) { self.cut(&mut x) }
        self.parens += 1;
        E::Paren(Box::new(x))
    }
    fn cut(&mut self, x: &mut E) {
        match x {
            E::Bin(_, _, _, r) => {
                let deeper = match r { Some(r) => match **r { E::Bin(..) | E::Pre(..) => self.rng.chance(1, 2), _ => false }, None => return };
                if deeper { self.cut(r.as_mut().unwrap()) } else { self.missing += 1; *r = None }
            }
            // a prefix operator needs its operand
            E::Pre(_, _, r) => self.cut(r),
            _ => {}
        }
    }
    /// Would an operator of this priority that follows not be taken by an operand on the right edge?
    fn closed(&self, x: &E, prio: u64) -> bool {
        match x {
            E::Atom(_) | E::Paren(_) | E::Post(..) => true,
            E::Bin(i, _, _, r) => self.table.bin[*i].prio + 1 > prio && r.as_ref().map_or(true, |r| self.closed(r, prio)),
            E::Pre(i, _, r) => self.table.prefix[*i].prio > prio && self.closed(r, prio),
        }
    }
    /// Do all operators on the left edge bind at least as tight as `min`?
    fn fits(&self, x: &E, min: u64) -> bool {
        match x {
            E::Atom(_) | E::Paren(_) | E::Pre(..) => true,
            E::Bin(i, _, l, _) => self.table.bin[*i].prio >= min && self.fits(l, min),
            E::Post(i, _, l) => self.table.postfix[*i].prio >= min && self.fits(l, min),
        }
    }
    fn x(&self, e: &E) -> X {
        match e {
            E::Atom(x) => x.clone(),
            E::Paren(e) => { let (l, r) = ((self.table.tok)(self.table.lp), (self.table.tok)(self.table.rp)); n(self.table.paren, vec![t(l.0, l.1), self.x(e), t(r.0, r.1)]) }
            E::Pre(i, toks, e) => { let mut v = toks.clone(); v.push(self.x(e)); n(self.table.prefix[*i].name, v) }
            E::Post(i, parts, e) => {
                let mut v = vec![self.x(e)];
                for p in parts { v.push(match p { Part::Tok(x) => x.clone(), Part::Expr(e) => self.x(e) }) }
                n(self.table.postfix[*i].name, v)
            }
            E::Bin(i, toks, l, r) => {
                let mut v = vec![self.x(l)];
                v.extend(toks.iter().cloned());
                v.push(match r { Some(r) => self.x(r), None => n("ERROR", vec![]) });
                n(self.table.bin[*i].name, v)
            }
        }
    }
}

fn case(c: &mut Case) -> Res {
    let shipped = c.idx % 5 == 0;
    let table = if shipped { arith() } else { random_table(&mut c.rng) };
    let (lang, shown, rs) = if shipped { (None, "arith".to_string(), Vec::new()) } else {
        let r = rules(&mut c.rng, &table);
        (Some(grammars::language(&r)), grammars::show(&r), r)
    };
    for k in 0..10 {
        let fuel = if k == 0 && c.idx % 16 == 1 { 400 } else if k == 0 { 40 } else { 10 };
        let mut g = G { rng: &mut c.rng, table: &table, fuel, missing: 0, ops: 0, parens: 0 };
        let mut e = g.gen(0);
        if k % 4 == 3 { g.cut(&mut e) }
        let (missing, ops, parens) = (g.missing, g.ops, g.parens);
        let x = n("FILE", vec![g.x(&e)]);
        let mut toks = Vec::new();
        x.tokens(&mut toks);
        let mut text = String::new();
        let mut depth = 0usize;
        let mut max_depth = 0;
        let style = c.rng.below(3);
        for (i, s) in toks.iter().enumerate() {
            if *s == "(" { depth += 1; max_depth = max_depth.max(depth) } else if *s == ")" { depth -= 1 }
            let wordy = i > 0 && s.chars().all(|c| c.is_alphanumeric()) && toks[i - 1].chars().all(|c| c.is_alphanumeric());
            if i > 0 && (wordy || style == 0 || (style == 1 && c.rng.chance(1, 3))) { text.push_str(*c.rng.pick(&[" ", " ", "\n", "  \t"])) }
            text.push_str(s);
        }
        if shipped && max_depth > 7 { continue } // exponential by its grammar
        let input = format!("{}\n--- text ---\n{}", shown, text);
        c.input(&input);
        c.eval();
        let file = c.guard("parse", &|| input.clone(), || match &lang { Some(l) => l.parse(text.as_str()), None => Kind::Arith.lang().parse(text.as_str()) })?;
        let got = programs::of_tree(file.root());
        if got != x {
            c.violation("operators nest differently from what priorities say", format!("{}\n--- difference (parsed vs expected) ---\n{}\n--- parsed ---\n{}--- expected ---\n{}", input, got.diff(&x).unwrap_or_default(), got.dump(), x.dump()));
            return Ok(());
        }
        c.count("operators", ops);
        c.count("brackets written", parens);
        c.count("missing right operands", missing);
        c.max("operators in one expression", ops);
        if ops >= 2 { c.nontrivial(&input) }
        c.sample(|| input.clone());
    }
    if let Some(lang) = &lang {
        let words = vocabulary(&table);
        for _ in 0..8 {
            let text = strings(&mut c.rng, &words);
            let input = format!("{}\n--- text ---\n{}", shown, text);
            c.input(&input);
            let raw = grammars::raw_tokens(&text);
            let types = grammars::tys();
            let mut model = Peg::new(&rs, &types, &text, &raw, 20_000);
            let expected = match model.parse_file() { Ok(e) => peg::to_tree(&e, &raw, text.len()), Err(_) => continue };
            c.eval();
            let file = c.guard("parse", &|| input.clone(), || lang.parse(text.as_str()))?;
            let got = T::of_file(&file);
            if got != expected {
                let name = |ty: u32| grammars::name_of(ty);
                c.violation("operators of a malformed expression nest differently from what priorities say", format!("{}\n--- difference (parsed vs expected) ---\n{}\n--- parsed ---\n{}--- expected ---\n{}", input, got.diff(&expected, &name).unwrap_or_default(), got.dump(&name, &text), expected.dump(&name, &text)));
                return Ok(());
            }
            c.count("operator strings compared with the reference", 1);
            if let Some(k) = model.seen.get("missing operand") { c.count("missing operands in operator strings", *k) }
            if model.seen.get("infix operator").map_or(false, |&k| k >= 2) { c.nontrivial(&input) }
        }
    }
    Ok(())
}

/// Spellings of the table's operators: prefix, postfix, binary.
fn vocabulary(table: &Table) -> [Vec<String>; 3] {
    let spell = |o: &Op| -> Vec<String> {
        let s = |k: &u32| (table.tok)(*k).1.to_string();
        match &o.body {
            OpBody::Toks(v) => vec![v.iter().map(s).collect::<Vec<_>>().join(" ")],
            OpBody::Either(a, b) => vec![s(a), s(b)],
            OpBody::Wrap(a, b) => vec![format!("{} x {}", s(a), s(b)), format!("{} {}", s(a), s(b))],
        }
    };
    let all = |ops: &[Op]| ops.iter().flat_map(spell).collect();
    [all(&table.prefix), all(&table.postfix), all(&table.bin)]
}

/// Mostly alternating operands and operators, with slips.
fn strings(rng: &mut Rng, words: &[Vec<String>; 3]) -> String {
    let mut out: Vec<String> = Vec::new();
    let mut operand = true;
    let mut open = 0;
    for _ in 0..rng.range(2, 16) {
        let slip = rng.chance(1, 6);
        if operand != slip {
            match rng.below(6) {
                0 | 1 if !words[0].is_empty() => { out.push(rng.pick(&words[0]).clone()); operand = true }
                2 => { out.push("(".to_string()); open += 1; operand = true }
                _ => { out.push("x".to_string()); operand = false }
            }
        } else {
            match rng.below(6) {
                0 | 1 if !words[1].is_empty() => { out.push(rng.pick(&words[1]).clone()); operand = false }
                2 if open > 0 => { out.push(")".to_string()); open -= 1; operand = false }
                _ => { out.push(rng.pick(&words[2]).clone()); operand = true }
            }
        }
    }
    if rng.chance(3, 4) { for _ in 0..open { out.push(")".to_string()) } }
    out.join(" ")
}
