use fall_tree::Node;

use crate::ctx::{Case, Plan, Res, Tier};
use crate::ide::{self, Ed, Q};
use crate::langs::{ty_name, Kind};
use crate::tree::{end, start, T};
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C14", plan, case, finish: None,
        rule: "sound, damaged and hostile grammar texts in many layouts; the formatted text of a sound file is compared with the one computed gap by gap from its tokens; of any file the tokens, the comments, the lines and the tree without whitespace must survive, and a second pass must change nothing. Non-trivial: formatting changed the text; distinct by text.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 60_000, 22.0, 20) }

fn leaves<'f>(n: Node<'f>, out: &mut Vec<Node<'f>>) {
    if n.children().next().is_none() { if start(n) < end(n) { out.push(n) } return; }
    for c in n.children() { leaves(c, out) }
}

fn blank(n: Node) -> bool { ty_name(n.file(), n) == "WHITESPACE" }

/// The tree without whitespace, types and token texts only.
fn skeleton(n: Node, out: &mut String) {
    if blank(n) { return }
    out.push_str(ty_name(n.file(), n));
    if n.children().next().is_none() { out.push_str(&format!("{:?}", n.text().to_string())); return }
    out.push('(');
    for c in n.children() { skeleton(c, out) }
    out.push(')');
}

/// Tokens, and between them the gaps that hold line ends.
fn lines(ed: &Ed) -> Vec<String> {
    let mut v = Vec::new();
    leaves(ed.file().root(), &mut v);
    let mut out: Vec<String> = Vec::new();
    for l in v {
        let t = l.text().to_string();
        if !blank(l) { out.push(format!("{} {:?}", ty_name(l.file(), l), t)) } else if t.contains('\n') { out.push(t) }
    }
    out
}

fn want(ed: &Ed) -> String {
    let mut v = Vec::new();
    leaves(ed.file().root(), &mut v);
    let mut out = String::new();
    let mut gap = String::new();
    let mut left = "";
    let fit = |left: &str, right: &str, gap: &str| -> String {
        if gap.contains('\n') || left.is_empty() || right.is_empty() { gap.to_string() }
        else if left == "L_ANGLE" || right == "R_ANGLE" { String::new() }
        else if left == "PIPE" || right == "PIPE" { " ".to_string() }
        else { gap.to_string() }
    };
    for l in v {
        if blank(l) { gap.push_str(&l.text().to_string()); continue }
        let ty = ty_name(ed.file(), l);
        out.push_str(&fit(left, ty, &gap));
        gap.clear();
        out.push_str(&l.text().to_string());
        left = ty;
    }
    out.push_str(&fit(left, "", &gap));
    out
}

fn case(c: &mut Case) -> Res {
    let size = *c.rng.pick(&[20, 80, 300, 1000]);
    let mut text = ide::text(&mut c.rng, Kind::Fall, size);
    // squeeze and stretch the gaps around what the formatter looks at
    if c.rng.chance(1, 2) {
        let mut t = String::new();
        for ch in text.chars() {
            if "|<>".contains(ch) && c.rng.chance(1, 2) {
                if c.rng.chance(1, 2) { while t.ends_with(' ') { t.pop(); } }
                if c.rng.chance(1, 2) { t.push_str(*c.rng.pick(&[" ", "  ", "\t", "\n", " \n  ", "\u{a0}", "\r", " // c\n"])) }
                t.push(ch);
                if c.rng.chance(1, 3) { t.push_str(*c.rng.pick(&[" ", "  ", "\t", "\n", " // c\n", "\u{3000}"])) }
            } else { t.push(ch) }
        }
        text = t;
    }
    c.input(&text);
    let ed = c.guard("opening", &|| text.clone(), || Ed::parse(Kind::Fall, &text))?;
    let sound = !T::of_file(ed.file()).has_ty(fall_tree::ERROR);
    let edit = c.guard("reformat", &|| text.clone(), || ed.ask(&Q::Reformat))?.edit.unwrap();
    let got = c.guard("applying the format", &|| text.clone(), || edit.apply(ed.file().text()).as_text().to_string())?;
    let next = Ed::parse(Kind::Fall, &got);
    let show = |what: &str| format!("{}\n--- text ---\n{}\n--- formatted ---\n{}", what, text, got);
    c.eval();
    let (a, b) = (lines(&ed), lines(&next));
    c.ensure(a == b, "formatting changes tokens, comments or lines", || {
        let i = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        show(&format!("first difference: {:?} became {:?}", a.get(i), b.get(i)))
    })?;
    let (mut s, mut t) = (String::new(), String::new());
    skeleton(ed.file().root(), &mut s);
    skeleton(next.file().root(), &mut t);
    c.ensure(s == t, "formatting changes the tree", || show(&format!("{}\n{}", s, t)))?;
    if sound {
        let w = want(&ed);
        c.ensure(got == w, "the formatted text is not the one the rules say", || format!("{}\n--- expected ---\n{}", show(""), w))?;
        c.count("sound files", 1);
    } else { c.count("damaged files", 1) }
    let again = c.guard("reformat", &|| got.clone(), || next.ask(&Q::Reformat))?.edit.unwrap();
    let twice = c.guard("applying the format", &|| got.clone(), || again.apply(next.file().text()).as_text().to_string())?;
    c.ensure(twice == got, "formatting again changes the text", || format!("{}\n--- again ---\n{}", show(""), twice))?;
    if got != text {
        c.nontrivial(&text);
        c.count("texts changed by formatting", 1);
        c.sample(|| show(""));
    }
    Ok(())
}
