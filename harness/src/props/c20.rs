use fall_tree::{File, Node, NodeType};

use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::{edits, grammars, texts};
use crate::langs::{is_ws, ty_name, Kind, KINDS};
use crate::model::peg::{self, Peg};
use crate::rng::Rng;
use crate::tree::{end, start, T};
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C20", plan, case, finish: None,
        rule: "texts of the shipped languages, Rust texts made of structs, other items, comments and line breaks in every arrangement, and random grammars with random attachment rules; where every skipped token ended up is compared with the rule. Non-trivial: the text has skipped tokens between others; distinct by text.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 36_000, 18.0, 30) }

fn case(c: &mut Case) -> Res {
    match c.idx % 3 {
        0 => shipped(c),
        1 => structs(c),
        _ => bound(c),
    }
}

fn shipped(c: &mut Case) -> Res {
    let kind = *c.rng.pick(&KINDS);
    let mut text = texts::text(&mut c.rng, kind, 900);
    c.input(&text);
    let mut file = { let t = text.clone(); c.guard("parse", &|| t.clone(), || kind.lang().parse(t.as_str()))? };
    judge(c, kind, &file, &text)?;
    for _ in 0..2 {
        let ops = edits::ops(&mut c.rng, &text, 2, &mut |r| match r.below(3) { 0 => trivia(r, kind), 1 => "\n".to_string(), _ => edits::insertion(r, kind) });
        let new_text = edits::apply(&text, &ops);
        if texts::too_hard(kind, &new_text) { break }
        let edit = edits::build(&text, &ops);
        let old = text.clone();
        file = c.guard("reparse", &|| format!("{}\n{:?}", old, ops), || file.edit(&edit))?;
        text = new_text;
        judge(c, kind, &file, &text)?;
    }
    Ok(())
}

fn trivia(rng: &mut Rng, kind: Kind) -> String {
    let v: &[&str] = match kind {
        Kind::Rust => &["// c\n", "//\n", "/* b */", "/* b\n */", "\n", "\n\n", " ", "    ", "\t", "\r\n", "/// doc\n", "// struct\n", "// é\n", "/**/"],
        Kind::Fall => &["// c\n", "//\n", " ", "\n", "\n\n", "\t"],
        _ => &[" ", "\n", "\t", "  "],
    };
    let n = if rng.chance(1, 150) { texts::length(rng, 9) } else { rng.below(5) };
    let s: String = (0..n).map(|_| *rng.pick(v)).collect();
    s
}

/// Items with every arrangement of comments and blanks between them.
fn structs(c: &mut Case) -> Res {
    fn item(rng: &mut Rng, d: usize, out: &mut String) {
        let name = *rng.pick(&["A", "Foo", "b", "S2"]);
        if rng.chance(1, 8) { out.push_str("#[a]"); out.push_str(&trivia(rng, Kind::Rust)); }
        if rng.chance(1, 5) { out.push_str("pub"); out.push_str(&blank(rng)); }
        match rng.below(if d > 2 { 8 } else { 11 }) {
            0 | 1 => out.push_str(&format!("struct {};", name)),
            2 => out.push_str(&format!("struct {} {{ x: i32 }}", name)),
            3 => out.push_str(&format!("struct {}(u8);", name)),
            4 => out.push_str(&format!("union {} {{ x: i32 }}", name)),
            5 => out.push_str(&format!("enum {} {{}}", name)),
            6 => out.push_str(*rng.pick(&["fn f() {}", "use a::b;", "const X: i32 = 1;", "type T = u8;", "trait Q {}", "impl A {}", "static S: u8 = 0;"])),
            7 => { out.push_str("struct"); out.push_str(&blank(rng)); out.push_str(name); out.push_str("<T>"); out.push_str(&blank(rng)); out.push_str("{ // c\n x: T, // d\n }") }
            8 => { out.push_str("mod m {"); items(rng, d + 1, out); out.push('}') }
            9 => { out.push_str("fn g() {"); items(rng, d + 1, out); out.push('}') }
            _ => { out.push_str("fn h() { let x = 1;"); items(rng, d + 1, out); out.push_str("x }") }
        }
    }
    fn blank(rng: &mut Rng) -> String { let s = trivia(rng, Kind::Rust); if s.is_empty() { " ".to_string() } else { s } }
    fn items(rng: &mut Rng, d: usize, out: &mut String) {
        let n = if d == 0 { rng.range(1, 6) } else { rng.below(4) };
        out.push_str(&trivia(rng, Kind::Rust));
        for _ in 0..n { item(rng, d, out); let t = trivia(rng, Kind::Rust); out.push_str(&t) }
    }
    for _ in 0..4 {
        let mut text = String::new();
        items(&mut c.rng, 0, &mut text);
        if c.rng.chance(1, 12) { text = texts::mutate(&mut c.rng, Kind::Rust, &text) }
        c.input(&text);
        let file = { let t = text.clone(); c.guard("parse", &|| t.clone(), || Kind::Rust.lang().parse(t.as_str()))? };
        judge(c, Kind::Rust, &file, &text)?;
    }
    Ok(())
}

fn leaves<'f>(node: Node<'f>, out: &mut Vec<Node<'f>>) {
    let mut any = false;
    for ch in node.children() { any = true; leaves(ch, out) }
    if !any { out.push(node) }
}

fn path(n: Node) -> Vec<Node> {
    let mut v = vec![n];
    while let Some(p) = v.last().unwrap().parent() { v.push(p) }
    v.reverse();
    v
}

fn judge(c: &mut Case, kind: Kind, file: &File, text: &str) -> Res {
    c.eval();
    let show = |d: String| {
        let name = crate::tree::namer(file);
        format!("{}: {}\n--- text ---\n{}\n--- tree ---\n{}", kind.name(), d, text, T::of_file(file).dump(&name, text))
    };
    let mut ls: Vec<Node> = Vec::new();
    leaves(file.root(), &mut ls);
    let is_struct = |n: Node| kind == Kind::Rust && ty_name(file, n) == "STRUCT_DEF";
    // where the rule puts the tokens in front of a struct
    let mut owner: Vec<Option<Node>> = vec![None; ls.len()];
    let mut skipped = 0;
    for (i, &l) in ls.iter().enumerate() {
        if is_ws(l) { skipped += 1; continue }
        let mut top = l;
        while let Some(p) = top.parent() {
            if is_struct(p) && p.children().find(|&x| !is_ws(x)) == Some(top) {
                let mut j = i;
                while j > 0 && is_ws(ls[j - 1]) && (ty_name(file, ls[j - 1]) == "LINE_COMMENT"
                    || (ty_name(file, ls[j - 1]) == "WHITESPACE" && !text[start(ls[j - 1])..end(ls[j - 1])].contains('\n'))) { j -= 1; owner[j] = Some(p) }
                if ls[j..i].iter().any(|&x| ty_name(file, x) == "LINE_COMMENT") { c.count("comments claimed by structs", 1) } else { c.count("structs without comments", 1) }
            }
            if p.children().next() != Some(top) && p.children().find(|&x| !is_ws(x)) != Some(top) { break }
            top = p;
        }
    }
    let mut i = 0;
    while i < ls.len() {
        if !is_ws(ls[i]) { i += 1; continue }
        let from = i;
        while i < ls.len() && is_ws(ls[i]) { i += 1 }
        c.max("longest run of skipped tokens", (i - from) as u64);
        // the nearest neighbours; leaves without text have a place, too
        let expected = if from == 0 || i == ls.len() { Some(file.root()) } else {
            let (a, b) = (path(ls[from - 1]), path(ls[i]));
            let k = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
            Some(a[k - 1])
        };
        let near_empty = from > 0 && start(ls[from - 1]) == end(ls[from - 1]) || i < ls.len() && start(ls[i]) == end(ls[i]);
        for j in from..i {
            let l = ls[j];
            let p = l.parent().unwrap();
            let should = owner[j].or(expected).unwrap();
            c.count(if owner[j].is_some() { "tokens claimed by structs" } else { "tokens placed by default" }, 1);
            if p != should {
                // blanks alone are nobody's concern as long as no comment follows them
                if owner[j].is_some() && ty_name(file, l) == "WHITESPACE" && ls[from..j].iter().all(|&x| x.parent() == expected) { c.count("blank left outside of a struct", 1); continue }
                // next to a node without text two places are equally high
                if near_empty && owner[j].is_none() && p == file.root() { continue }
                if near_empty && p.children().next() != Some(l) && p.children().last() != Some(l) { c.count("next to an empty node", 1); continue }
                let d = format!("{} {:?} is a child of {} {:?}, not of {} {:?}", ty_name(file, l), l.range(), ty_name(file, p), p.range(), ty_name(file, should), should.range());
                c.violation("skipped token in the wrong place", show(d));
                return Ok(());
            }
        }
    }
    // first and last children
    let mut stack = vec![file.root()];
    while let Some(n) = stack.pop() {
        stack.extend(n.children());
        if n.parent().is_none() { continue }
        let bad = n.children().last().map_or(false, is_ws) || (!is_struct(n) && n.children().next().map_or(false, is_ws));
        if bad { c.violation("node begins or ends with a skipped token", show(format!("{} {:?}", ty_name(file, n), n.range()))); return Ok(()) }
    }
    if skipped > 1 { c.nontrivial(text) }
    c.sample(|| format!("{}: {:?}", kind.name(), text));
    Ok(())
}

// Attachment rules. They see only what is next to the node: its type, the skipped tokens, the side.

const COMMENT: u32 = grammars::BASE + 2;

fn rule(which: usize, ty: u32, run: &[(u32, &str)], leading: bool) -> usize {
    let near = |f: &dyn Fn(&(u32, &str)) -> bool| if leading { run.iter().rev().take_while(|x| f(x)).count() } else { run.iter().take_while(|x| f(x)).count() };
    let tight = |x: &(u32, &str)| x.0 == COMMENT || !x.1.contains('\n');
    match (which, ty % 3, leading) {
        (0, 0, true) => near(&tight),
        (0, 1, false) => near(&tight),
        (0, 2, _) => near(&tight),
        (1, 0, true) => run.len(),
        (1, 1, false) => run.len(),
        (1, 2, _) => run.len(),
        (2, _, _) => near(&|x| x.0 != COMMENT),
        (3, 0, _) => run.len().min(1),
        (3, 1, true) => run.len().saturating_sub(1),
        (3, _, _) => run.len() / 2,
        _ => 0,
    }
}
fn call(which: usize, ty: NodeType, run: Vec<(NodeType, &str)>, leading: bool) -> usize {
    let run: Vec<(u32, &str)> = run.into_iter().map(|(t, s)| (t.0, s)).collect();
    rule(which, ty.0, &run, leading)
}
fn rule0(ty: NodeType, run: Vec<(NodeType, &str)>, leading: bool) -> usize { call(0, ty, run, leading) }
fn rule1(ty: NodeType, run: Vec<(NodeType, &str)>, leading: bool) -> usize { call(1, ty, run, leading) }
fn rule2(ty: NodeType, run: Vec<(NodeType, &str)>, leading: bool) -> usize { call(2, ty, run, leading) }
fn rule3(ty: NodeType, run: Vec<(NodeType, &str)>, leading: bool) -> usize { call(3, ty, run, leading) }

fn bound(c: &mut Case) -> Res {
    let which = c.rng.below(4);
    let f = [rule0, rule1, rule2, rule3][which];
    let rules = grammars::grammar(&mut c.rng, grammars::Options::ALL);
    let shown = format!("attachment rule {}\n{}", which, grammars::show(&rules));
    let lang = c.guard("building the language", &|| shown.clone(), || grammars::language_bound(&rules, Some(f)))?;
    let types = grammars::tys();
    for _ in 0..8 {
        let base = grammars::text(&mut c.rng, &rules);
        // more skipped tokens than usual
        let mut text = String::new();
        for ch in base.chars() {
            if ch == ' ' || "(){},;+".contains(ch) && c.rng.chance(1, 2) {
                let n = if c.rng.chance(1, 400) { texts::length(&mut c.rng, 8) } else { c.rng.below(4) };
                for _ in 0..n { text.push_str(*c.rng.pick(&[" ", "\n", "%c\n", "% \n", "  ", "\n\n"])) }
            }
            text.push(ch);
        }
        let raw = grammars::raw_tokens(&text);
        let mut model = Peg::new(&rules, &types, &text, &raw, 20_000);
        let expected = match model.parse_file() {
            Ok(e) => peg::to_tree_bound(&e, &raw, &text, text.len(), &|ty, run, leading| rule(which, ty, run, leading)),
            Err(_) => { c.count("texts skipped: too much backtracking", 1); continue }
        };
        let input = format!("{}\n--- text ---\n{}", shown, text);
        c.input(&input);
        c.eval();
        let file = c.guard("parse", &|| input.clone(), || lang.parse(text.as_str()))?;
        let actual = T::of_file(&file);
        c.count("trees under a random attachment rule", 1);
        if actual != expected {
            let name = |ty: u32| grammars::name_of(ty);
            let d = actual.diff(&expected, &name).unwrap_or_default();
            c.violation("attachment differs from the rule", format!("{}\n--- difference (engine vs reference) ---\n{}\n--- engine ---\n{}--- reference ---\n{}", input, d, actual.dump(&name, &text), expected.dump(&name, &text)));
            return Ok(());
        }
        if raw.iter().filter(|r| r.ws).count() > 1 { c.nontrivial(&input) }
    }
    Ok(())
}
