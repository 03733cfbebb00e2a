//! Reference interpreter of the grammar operators.  It computes values instead of mutating a parser: failing
//! alternatives simply produce nothing, predicates produce nothing but their verdict.

use std::collections::HashMap;
use std::rc::Rc;

use fall_parse::{Expr, ExprRef};
use crate::tree::T;

#[derive(Clone, Debug, PartialEq)]
pub enum Elem {
    /// type, number of significant tokens it covers
    Tok(u32, usize),
    Node(u32, Vec<Elem>),
}

#[derive(Clone)]
struct Closure { expr: u32, env: Env }
#[derive(Clone)]
pub struct Env(Rc<HashMap<u32, Closure>>);

#[derive(Clone, Copy)]
struct St { prev: Option<u32>, replacement: Option<u32> }

/// A token of the text.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Raw { pub ty: u32, pub start: usize, pub end: usize, pub ws: bool }

pub struct Peg<'a> {
    rules: &'a [Expr],
    types: &'a [u32],
    text: &'a str,
    toks: Vec<Raw>,
    pub steps: u64,
    limit: u64,
    depth: usize,
    /// operators that took part, by name
    pub seen: HashMap<&'static str, u64>,
}

/// The interpreter gave up (too many steps).
#[derive(Debug)]
pub struct TooLong;

type R = Result<Option<(Vec<Elem>, usize)>, TooLong>;

impl<'a> Peg<'a> {
    pub fn new(rules: &'a [Expr], types: &'a [u32], text: &'a str, raw: &[Raw], limit: u64) -> Peg<'a> {
        Peg { rules, types, text, toks: raw.iter().cloned().filter(|t| !t.ws).collect(), steps: 0, limit, depth: 0, seen: HashMap::new() }
    }

    pub fn parse_file(&mut self) -> Result<Elem, TooLong> {
        let file_ty = match &self.rules[0] { Expr::Pub { ty, .. } => self.types[ty.0 as usize], _ => panic!("harness: start rule is not public") };
        let mut st = St { prev: None, replacement: None };
        let n = self.toks.len();
        let env = Env(Rc::new(HashMap::new()));
        let rest = |s: &Peg, from: usize| Elem::Node(0, s.toks[from..].iter().map(|t| Elem::Tok(t.ty, 1)).collect());
        Ok(match self.go(0, 0, n, 0, &env, &mut st)? {
            Some((mut elems, pos)) => {
                let mut root = elems.remove(0);
                if pos < n { if let Elem::Node(_, ch) = &mut root { let e = rest(self, pos); ch.push(e) } }
                root
            }
            None => Elem::Node(file_ty, vec![rest(self, 0)]),
        })
    }

    fn go(&mut self, e: u32, pos: usize, end: usize, ctx: u32, env: &Env, st: &mut St) -> R {
        self.steps += 1;
        self.depth += 1;
        if self.steps > self.limit || self.depth > 3000 { return Err(TooLong); }
        let before = *st;
        let res = self.inner(e, pos, end, ctx, env, st);
        self.depth -= 1;
        if let Ok(None) = res { *st = before; }
        res
    }

    fn test(&mut self, e: u32, pos: usize, end: usize, ctx: u32, env: &Env, st: &St) -> Result<Option<usize>, TooLong> {
        let mut st = *st;
        Ok(self.go(e, pos, end, ctx, env, &mut st)?.map(|r| r.1))
    }

    fn note(&mut self, what: &'static str) { *self.seen.entry(what).or_insert(0) += 1; }

    fn inner(&mut self, e: u32, pos: usize, end: usize, ctx: u32, env: &Env, st: &mut St) -> R {
        let rules = self.rules;
        match &rules[e as usize] {
            Expr::Pub { ty, body, replaceable } => {
                let mut inner = *st;
                if *replaceable { inner.replacement = None }
                let (ch, p) = match self.go(body.0, pos, end, ctx, env, &mut inner)? { Some(r) => r, None => return Ok(None) };
                let ty = self.types[ty.0 as usize];
                let mut real = ty;
                if *replaceable {
                    if let Some(r) = inner.replacement { real = r; self.note("replaced") }
                    inner.replacement = st.replacement;
                }
                inner.prev = Some(ty);
                *st = inner;
                self.note("pub");
                Ok(Some((vec![Elem::Node(real, ch)], p)))
            }
            Expr::PubReplace { ty, body } => {
                let r = self.go(body.0, pos, end, ctx, env, st)?;
                if r.is_some() { st.replacement = Some(self.types[ty.0 as usize]) }
                Ok(r)
            }
            Expr::Or(alts) => {
                for (i, a) in alts.iter().enumerate() {
                    if let Some(r) = self.go(a.0, pos, end, ctx, env, st)? { if i > 0 { self.note("later alternative") } return Ok(Some(r)); }
                }
                Ok(None)
            }
            Expr::And(parts, commit) => {
                let (mut out, mut p) = (Vec::new(), pos);
                for (i, part) in parts.iter().enumerate() {
                    match self.go(part.0, p, end, ctx, env, st)? {
                        Some((mut es, q)) => { out.append(&mut es); p = q }
                        None => {
                            return Ok(match commit {
                                Some(c) if i >= *c => { self.note("failure after commit"); out.push(Elem::Node(0, vec![])); Some((out, p)) }
                                _ => None,
                            });
                        }
                    }
                }
                Ok(Some((out, p)))
            }
            Expr::Token(ty) => {
                let ty = self.types[ty.0 as usize];
                Ok(if pos < end && self.toks[pos].ty == ty { Some((vec![Elem::Tok(ty, 1)], pos + 1)) } else { None })
            }
            Expr::ContextualToken(ty, s) => {
                let ty = self.types[ty.0 as usize];
                if pos >= end { return Ok(None); }
                let from = self.toks[pos].start;
                let to = from + s.len();
                if !self.text[from..].starts_with(s.as_str()) { return Ok(None); }
                // the text must be covered exactly by whole tokens
                let mut k = pos;
                while k < end && self.toks[k].start < to { k += 1 }
                if self.toks[k - 1].end != to { return Ok(None); }
                self.note("contextual token");
                Ok(Some((vec![Elem::Tok(ty, k - pos)], k)))
            }
            Expr::Rep(body) => {
                let (mut out, mut p) = (Vec::new(), pos);
                while let Some((mut es, q)) = self.go(body.0, p, end, ctx, env, st)? {
                    self.note("repetition");
                    if q == p { return Err(TooLong); }
                    out.append(&mut es);
                    p = q;
                }
                Ok(Some((out, p)))
            }
            Expr::Opt(body) => Ok(Some(self.go(body.0, pos, end, ctx, env, st)?.unwrap_or((vec![], pos)))),
            Expr::Not(body) => {
                Ok(match self.test(body.0, pos, end, ctx, env, st)? { Some(_) => None, None => { self.note("negative lookahead held"); Some((vec![], pos)) } })
            }
            Expr::Eof => Ok(if pos == end { self.note("end of input"); Some((vec![], pos)) } else { None }),
            Expr::Any => Ok(if pos < end { Some((vec![Elem::Tok(self.toks[pos].ty, 1)], pos + 1)) } else { None }),
            Expr::WithSkip(first, body) => {
                let mut p = pos;
                let mut skipped: Vec<Elem> = Vec::new();
                loop {
                    if self.test(first.0, p, end, ctx, env, st)?.is_some() {
                        if let Some((mut es, q)) = self.go(body.0, p, end, ctx, env, st)? {
                            let mut out = Vec::new();
                            if !skipped.is_empty() { self.note("skipped tokens"); out.push(Elem::Node(0, skipped)) }
                            out.append(&mut es);
                            return Ok(Some((out, q)));
                        }
                    }
                    if p == end { return Ok(None); }
                    skipped.push(Elem::Tok(self.toks[p].ty, 1));
                    p += 1;
                }
            }
            Expr::Layer(delim, body) => {
                let rest = match self.test(delim.0, pos, end, ctx, env, st)? { Some(p) => p, None => return Ok(None) };
                let (mut out, p) = self.go(body.0, pos, rest, ctx, env, st)?.unwrap_or((vec![], pos));
                self.note("layer");
                if p < rest { self.note("leftovers in layer"); out.push(Elem::Node(0, self.toks[p..rest].iter().map(|t| Elem::Tok(t.ty, 1)).collect())) }
                Ok(Some((out, rest)))
            }
            Expr::Enter(c, body) => self.go(body.0, pos, end, ctx | (1 << c.0), env, st),
            Expr::Exit(c, body) => self.go(body.0, pos, end, ctx & !(1 << c.0), env, st),
            Expr::IsIn(c) => Ok(if ctx & (1 << c.0) != 0 { self.note("in context"); Some((vec![], pos)) } else { None }),
            Expr::Call(body, args) => {
                let mut map: HashMap<u32, Closure> = (*env.0).clone();
                for (arg, value) in args {
                    let c = match &self.rules[value.0 as usize] {
                        Expr::Var(v) => env.0.get(&v.0).cloned().expect("harness: unbound argument"),
                        _ => Closure { expr: value.0, env: env.clone() },
                    };
                    map.insert(arg.0, c);
                }
                self.note("call");
                self.go(body.0, pos, end, ctx, &Env(Rc::new(map)), st)
            }
            Expr::Var(v) => {
                let c = env.0.get(&v.0).cloned().expect("harness: unbound argument");
                self.go(c.expr, pos, end, ctx, &c.env, st)
            }
            Expr::PrevIs(tys) => {
                let tys: Vec<u32> = tys.iter().map(|t| self.types[t.0 as usize]).collect();
                Ok(match st.prev { Some(p) if tys.contains(&p) => { self.note("prev_is held"); Some((vec![], pos)) } _ => None })
            }
            Expr::Inject(prefix, body) => {
                let (mut pre, p) = match self.go(prefix.0, pos, end, ctx, env, st)? { Some(r) => r, None => return Ok(None) };
                let (mut out, q) = match self.go(body.0, p, end, ctx, env, st)? { Some(r) => r, None => return Ok(None) };
                if !pre.is_empty() {
                    match out.get_mut(0) {
                        Some(Elem::Node(_, ch)) => { self.note("injected"); pre.append(ch); *ch = pre }
                        _ => panic!("harness: inject needs a node"),
                    }
                }
                Ok(Some((out, q)))
            }
            Expr::Cached(body) => self.go(body.0, pos, end, ctx, env, st),
            Expr::Pratt(_) => self.pratt(e, 0, pos, end, ctx, env, st),
        }
    }

    fn pratt(&mut self, e: u32, min: u64, pos: usize, end: usize, ctx: u32, env: &Env, st: &mut St) -> R {
        self.steps += 1;
        if self.steps > self.limit { return Err(TooLong); }
        let rules = self.rules;
        let table = match &rules[e as usize] { Expr::Pratt(t) => t, _ => unreachable!() };
        let mut lhs: Option<(Vec<Elem>, usize)> = None;
        for a in &table.atoms {
            lhs = self.go(a.0, pos, end, ctx, env, st)?;
            if lhs.is_some() { break }
        }
        if lhs.is_none() {
            for pre in &table.prefixes {
                let before = *st;
                if let Some((mut op, p)) = self.go(pre.op.0, pos, end, ctx, env, st)? {
                    if let Some((mut arg, q)) = self.pratt(e, u64::from(pre.priority), p, end, ctx, env, st)? {
                        op.append(&mut arg);
                        let ty = self.types[pre.ty.0 as usize];
                        st.prev = Some(ty);
                        self.note("prefix operator");
                        lhs = Some((vec![Elem::Node(ty, op)], q));
                        break;
                    }
                }
                *st = before;
            }
        }
        let (mut lhs, mut p) = match lhs { Some(l) => l, None => return Ok(None) };
        'again: loop {
            for ix in table.infixes.iter().filter(|ix| u64::from(ix.priority) >= min) {
                if let Some((mut op, q)) = self.go(ix.op.0, p, end, ctx, env, st)? {
                    p = q;
                    let mut ch = lhs;
                    ch.append(&mut op);
                    if ix.has_rhs {
                        match self.pratt(e, u64::from(ix.priority) + 1, p, end, ctx, env, st)? {
                            Some((mut rhs, q)) => { ch.append(&mut rhs); p = q }
                            None => { self.note("missing operand"); ch.push(Elem::Node(0, vec![])) }
                        }
                    }
                    let ty = self.types[ix.ty.0 as usize];
                    st.prev = Some(ty);
                    self.note("infix operator");
                    lhs = vec![Elem::Node(ty, ch)];
                    continue 'again;
                }
            }
            return Ok(Some((lhs, p)));
        }
    }
}

pub fn refs(e: &Expr) -> Vec<ExprRef> {
    match e {
        Expr::Pub { body, .. } | Expr::PubReplace { body, .. } => vec![*body],
        Expr::Or(v) | Expr::And(v, _) => v.clone(),
        Expr::Rep(b) | Expr::Opt(b) | Expr::Not(b) | Expr::Enter(_, b) | Expr::Exit(_, b) | Expr::Cached(b) => vec![*b],
        Expr::WithSkip(a, b) | Expr::Layer(a, b) | Expr::Inject(a, b) => vec![*a, *b],
        Expr::Call(b, args) => { let mut v = vec![*b]; v.extend(args.iter().map(|a| a.1)); v }
        Expr::Pratt(t) => { let mut v = t.atoms.clone(); v.extend(t.prefixes.iter().map(|p| p.op)); v.extend(t.infixes.iter().map(|p| p.op)); v }
        _ => vec![],
    }
}

/// How many of the skipped tokens next to a node (type, those tokens, in front of it?) belong to the node.
pub type Binder<'a> = &'a dyn Fn(u32, &[(u32, &str)], bool) -> usize;

/// The tree over the whole text: skipped tokens go as far up as possible, the file takes those at its ends.
pub fn to_tree(root: &Elem, raw: &[Raw], len: usize) -> T { to_tree_bound(root, raw, "", len, &|_, _, _| 0) }

/// As `to_tree`, for a language with its own attachment rule.
pub fn to_tree_bound(root: &Elem, raw: &[Raw], text: &str, len: usize, binder: Binder) -> T {
    struct B<'a> { raw: &'a [Raw], i: usize, text: &'a str, len: usize, binder: Binder<'a> }
    impl<'a> B<'a> {
        fn pos(&self) -> usize { self.raw.get(self.i).map_or(self.len, |r| r.start) }
        fn ahead(&self) -> usize { self.raw[self.i..].iter().take_while(|r| r.ws).count() }
        fn claimed(&self, ty: u32, leading: bool) -> usize {
            let run: Vec<(u32, &str)> = self.raw[self.i..self.i + self.ahead()].iter().map(|r| (r.ty, self.text.get(r.start..r.end).unwrap_or(""))).collect();
            (self.binder)(ty, &run, leading)
        }
        fn ws(&mut self, n: usize, out: &mut Vec<T>) {
            for r in &self.raw[self.i..self.i + n] { out.push(T { ty: r.ty, start: r.start, end: r.end, ch: vec![] }) }
            self.i += n;
        }
        fn fill(&mut self, elems: &[Elem], out: &mut Vec<T>) {
            for e in elems {
                match e {
                    Elem::Tok(ty, k) => {
                        self.ws(self.ahead(), out);
                        let start = self.pos();
                        self.i += k;
                        out.push(T { ty: *ty, start, end: self.raw[self.i - 1].end, ch: vec![] });
                    }
                    Elem::Node(ty, ch) => {
                        let n = self.ahead() - self.claimed(*ty, true);
                        self.ws(n, out);
                        let start = self.pos();
                        let mut kids = Vec::new();
                        self.fill(ch, &mut kids);
                        self.ws(self.claimed(*ty, false), &mut kids);
                        let end = kids.last().map_or(start, |k: &T| k.end);
                        out.push(T { ty: *ty, start, end, ch: kids });
                    }
                }
            }
        }
    }
    let (ty, ch) = match root { Elem::Node(ty, ch) => (*ty, ch), _ => panic!("harness: root is a token") };
    let mut b = B { raw, i: 0, text, len, binder };
    let mut kids = Vec::new();
    b.fill(ch, &mut kids);
    b.ws(b.ahead(), &mut kids);
    assert!(b.i == raw.len(), "harness: {} of {} tokens placed", b.i, raw.len());
    T { ty, start: 0, end: len, ch: kids }
}
