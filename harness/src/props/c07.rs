use fall_tree::Node;

use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::{edits, programs, texts};
use crate::langs::{is_ws, ty_name, Kind};
use crate::rng::Rng;
use crate::tree::{end, start, namer, T};
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C07", plan, case, finish: None,
        rule: "a valid Rust, fall or JSON program; the inside of one of its brace-delimited blocks is replaced by random tokens with balanced braces (then of another one, up to four); the tree outside is compared. Non-trivial: the new inside does not parse cleanly; distinct by text.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 30_000, 18.0, 30) }

/// Tokens that leave the lexing of their neighbours alone and have no braces.
fn token(rng: &mut Rng, kind: Kind) -> String {
    loop {
        let v = rng.pick(texts::vocab(kind)).to_string();
        let quotes = |q: char| v.chars().filter(|&c| c == q).count();
        if v.contains('{') || v.contains('}') || v.contains('\\') || v == "/*" || v.contains("r#") { continue }
        if quotes('"') % 2 == 1 || v == "'" || (kind != Kind::Rust && quotes('\'') % 2 == 1) { continue }
        return v;
    }
}

fn damage(rng: &mut Rng, kind: Kind, around: &[char]) -> String {
    let mut s = String::from("\n");
    let off = |w: &str| around.iter().any(|&o| w.contains(o) || w.contains(match o { '(' => ')', '[' => ']', _ => '>' }));
    let mut depth = 0;
    let n = rng.size(30);
    for _ in 0..n {
        match rng.below(14) {
            0 => { s.push_str("{ "); depth += 1 }
            1 => if depth > 0 { s.push_str("} "); depth -= 1 },
            2 => s.push_str("é "),
            3 => { let m: &[&str] = match kind { Kind::Rust => &["fn", "struct", "impl", "pub", "mod", "use", "trait", "fn f() {}", "enum", "let x ="], Kind::Fall => &["rule", "pub", "ast", "tokenizer", "node", "#", "test", "pub rule x { y }", "verbatim"], _ => &["[", "]", ",", ":"] };
                   let w = *rng.pick(m); if !off(w) { s.push_str(w); s.push(' ') } }
            _ => { let w = token(rng, kind); if off(&w) { continue } s.push_str(&w); s.push(if rng.chance(1, 6) { '\n' } else { ' ' }) }
        }
    }
    for _ in 0..depth { s.push_str("} ") }
    s.push('\n');
    s
}

/// Nodes with an opening and a closing brace of their own.
fn blocks<'f>(kind: Kind, n: Node<'f>, out: &mut Vec<(Node<'f>, usize, usize)>) {
    let text = |x: Node| x.text().to_string();
    let kids: Vec<Node> = n.children().filter(|&c| !is_ws(c)).collect();
    let open: Vec<usize> = (0..kids.len()).filter(|&i| kids[i].children().next().is_none() && text(kids[i]) == "{").collect();
    let close: Vec<usize> = (0..kids.len()).filter(|&i| kids[i].children().next().is_none() && text(kids[i]) == "}").collect();
    if open.len() == 1 && close.len() == 1 && open[0] < close[0] && !skip(kind, ty_name(n.file(), n)) { out.push((n, end(kids[open[0]]), start(kids[close[0]]))) }
    for c in n.children() { blocks(kind, c, out) }
}

/// The trees of a macro are only trees when every delimiter is balanced; they are no blocks.
fn skip(kind: Kind, name: &str) -> bool { kind == Kind::Rust && name == "TT" }

/// The tree with everything inside of the block left out, and positions after it counted from the end.
fn outside(t: &T, from: usize, to: usize, len: usize) -> T {
    let far = |p: usize| 1_000_000_000 - (len - p);
    let (s, e) = if t.start >= to { (far(t.start), far(t.end)) } else if t.end <= from { (t.start, t.end) } else { (t.start, far(t.end)) };
    T { ty: t.ty, start: s, end: e, ch: t.ch.iter().filter(|c| !(c.start >= from && c.end <= to)).map(|c| outside(c, from, to, len)).collect() }
}

/// Delimiters other than braces that the block stands in: their layers end where these delimiters balance.
fn around(node: Node, from: usize, to: usize) -> Vec<char> {
    let mut v = Vec::new();
    let mut n = Some(node);
    while let Some(x) = n {
        for c in x.children().filter(|c| c.children().next().is_none()) {
            let s = c.text().to_string();
            if (s == "(" || s == "[" || s == "<") && end(c) <= from { v.push(s.chars().next().unwrap()) }
        }
        n = x.parent();
    }
    let _ = to;
    v
}

fn case(c: &mut Case) -> Res {
    let kind = *c.rng.pick(&[Kind::Rust, Kind::Rust, Kind::Rust, Kind::Fall, Kind::Fall, Kind::Json]);
    let size = c.rng.range(8, 80);
    let mut text = programs::valid(&mut c.rng, kind, size);
    c.input(&text);
    let mut file = { let t = text.clone(); c.guard("parse", &|| t.clone(), || kind.lang().parse(t.as_str()))? };
    if T::of_file(&file).has_ty(fall_tree::ERROR) { c.count("programs skipped: not clean", 1); return Ok(()) }
    // Blocks inside of damage are no longer blocks.
    let mut off_limits: Vec<(usize, usize)> = Vec::new();
    for _ in 0..c.rng.range(1, 4) {
        let mut bs = Vec::new();
        blocks(kind, file.root(), &mut bs);
        bs.retain(|b| off_limits.iter().all(|&(s, e)| b.2 <= s || e <= b.1));
        if bs.is_empty() { break }
        let i = c.rng.below(bs.len());
        // top-level items more often
        let i = if c.rng.chance(1, 2) { (0..bs.len()).find(|&j| j >= i && bs[j].0.parent().map_or(false, |p| p.parent().is_none())).unwrap_or(i) } else { i };
        let (node, from, to) = bs[i];
        let name = ty_name(&file, node);
        let top = { let mut t = node; while let Some(p) = t.parent() { if p.parent().is_none() { break } t = p } ty_name(&file, t) };
        let new = damage(&mut c.rng, kind, &around(node, from, to));
        let new_text = format!("{}{}{}", &text[..from], new, &text[to..]);
        let input = format!("{} block of {} in {} at {}..{}\n--- before ---\n{}\n--- after ---\n{}", kind.name(), name, top, from, to, text, new_text);
        c.input(&input);
        c.eval();
        let ops = vec![edits::Op { start: from, end: to, insert: new.clone() }];
        let again = c.rng.chance(1, 2);
        let after = c.guard("parse", &|| input.clone(), || if again { kind.lang().parse(new_text.as_str()) } else { file.edit(&edits::build(&text, &ops)) })?;
        let (b, a) = (T::of_file(&file), T::of_file(&after));
        let (x, y) = (outside(&b, from, to, text.len()), outside(&a, from, from + new.len(), new_text.len()));
        c.count(&format!("damaged blocks of {} {}", kind.name(), name), 1);
        if x != y {
            let nm = namer(&after);
            let d = x.diff(&y, &nm).unwrap_or_default();
            c.violation(&format!("damage leaks out of a block of {} {}", kind.name(), name), format!("{}\n--- difference (before vs after) ---\n{}\n--- tree after ---\n{}", input, d, a.dump(&nm, &new_text)));
            return Ok(());
        }
        if a.has_ty(fall_tree::ERROR) { c.nontrivial(&new_text) }
        c.sample(|| input.clone());
        let shift = |p: usize| p + from + new.len() - to;
        for r in off_limits.iter_mut() { if r.0 >= to { *r = (shift(r.0), shift(r.1)) } }
        off_limits.push((from, from + new.len()));
        text = new_text;
        file = after;
    }
    Ok(())
}
