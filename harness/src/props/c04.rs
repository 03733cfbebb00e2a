use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use fall_tree::{tu, FileEdit, Node, Text, TextBuf, TextRange, TextSuffix};
use crate::ctx::{catch_guarded, Case, Plan, Res, Tier};
use crate::gen::{edits, texts};
use crate::gen::edits::range;
use crate::langs::{Kind, KINDS};
use crate::tree::{end, start};
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C04", plan, case, finish: None,
        rule: "random multi-byte texts and ordered edits through the builder and as raw operations, random node and substring edits (nested ones too) of parsed files, random slices, searches and ranges; each result is compared with the same operation on plain strings and integers. Non-trivial: an edit with at least one operation on a non-empty text; distinct by text and edit.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 60_000, 18.0, 30) }

fn case(c: &mut Case) -> Res {
    if c.idx == 0 { return small_ranges(c); }
    match c.idx % 4 {
        0 => slices(c),
        1 => edit(c),
        _ => file_edit(c),
    }
}

/// All ranges over a small interval, against integers.
fn small_ranges(c: &mut Case) -> Res {
    const N: usize = 5;
    let all: Vec<(usize, usize)> = (0..=N).flat_map(|a| (a..=N).map(move |b| (a, b))).collect();
    for &(a, b) in &all {
        let r = range(a, b);
        c.eval();
        let ok = r.start() == tu(a as u32) && r.end() == tu(b as u32) && r.len() == tu((b - a) as u32) && r.is_empty() == (a == b)
            && TextRange::from_len(tu(a as u32), tu((b - a) as u32)) == r && format!("{}", r) == format!("[{}; {})", a, b)
            && serde_json::from_str::<TextRange>(&serde_json::to_string(&r).unwrap()).unwrap() == r
            && serde_json::to_string(&r).unwrap() == format!("[{},{}]", a, b);
        c.ensure(ok, "range is not the interval it was made from", || format!("{}..{}", a, b))?;
        for o in 0..=N {
            let off = tu(o as u32);
            c.ensure(r.contains_offset_nonstrict(off) == (a <= o && o <= b), "contains_offset_nonstrict", || format!("{}..{} {}", a, b, o))?;
            c.ensure(r.shift_right(off) == range(a + o, b + o), "shift_right", || format!("{}..{} {}", a, b, o))?;
        }
        for &(x, y) in &all {
            c.eval();
            let s = range(x, y);
            let what = || format!("{}..{} with {}..{}", a, b, x, y);
            c.ensure((r == s) == ((a, b) == (x, y)), "equality of ranges", what)?;
            c.ensure(r.is_subrange_of(s) == (x <= a && b <= y), "is_subrange_of", what)?;
            c.ensure(r.disjoint(s) == (b <= x || y <= a), "disjoint", what)?;
            c.ensure(r.intersects(s) == !(b <= x || y <= a), "intersects", what)?;
            if a < b && x < y {
                use std::cmp::Ordering::*;
                let want = if b <= x { Some(Less) } else if y <= a { Some(Greater) } else if (a, b) == (x, y) { Some(Equal) } else { None };
                c.ensure(r.partial_cmp(&s) == want, "order of ranges", what)?;
            }
            if b == x {
                c.ensure(r.glue(s) == range(a, y), "glue", what)?;
            } else {
                c.ensure(catch_guarded(|| r.glue(s)).is_err(), "ranges that do not touch are glued", what)?;
            }
            c.nontrivial(&what());
        }
    }
    c.ensure(catch_guarded(|| range(3, 2)).is_err(), "a range may end before it starts", || String::new())?;
    c.ensure(TextRange::empty() == range(0, 0), "empty range", || String::new())?;
    let total: fall_tree::TextUnit = vec![tu(1), tu(2), tu(4)].into_iter().sum();
    c.ensure(total == tu(7) && tu(7) - tu(2) == tu(5) && tu(1) + tu(2) == tu(3) && tu(1) + 2u32 == tu(3) && tu(3) - 2u32 == tu(1) && u32::from(tu(9)) == 9, "unit arithmetic", || String::new())?;
    Ok(())
}

fn some_text(c: &mut Case) -> String {
    match c.rng.below(4) {
        0 => texts::garbage(&mut c.rng, 40),
        1 => { let mut s = String::new(); for _ in 0..c.rng.below(14) { s.push_str(*c.rng.pick(&["a", "b", "ab", "é", " ", "\n", "☃", "\u{3000}", "aba", ""])) } s }
        _ => { let k = *c.rng.pick(&KINDS); texts::text(&mut c.rng, k, 300) }
    }
}

fn hash<T: Hash>(t: T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

fn slices(c: &mut Case) -> Res {
    let s = some_text(c);
    let buf: TextBuf = s.as_str().into();
    c.input(&s);
    let (mut t, mut r): (Text, &str) = (buf.as_text(), &s);
    for depth in 0..c.rng.range(1, 5) {
        let (a, b) = { let (a, b) = (texts::boundary(&mut c.rng, r), texts::boundary(&mut c.rng, r)); if a < b { (a, b) } else { (b, a) } };
        if depth > 0 {
            if c.rng.chance(1, 3) {
                t = c.guard("slice", &|| s.clone(), || t.slice(TextSuffix::from(tu(a as u32))))?;
                r = &r[a..];
            } else {
                t = c.guard("slice", &|| s.clone(), || t.slice(range(a, b)))?;
                r = &r[a..b];
            }
        }
        c.eval();
        let needle = match c.rng.below(3) {
            0 => { let (x, y) = texts::span(&mut c.rng, r, 4); r[x..y].to_string() }
            1 => { let (x, y) = texts::span(&mut c.rng, &s, 3); s[x..y].to_string() }
            _ => (*c.rng.pick(&["a", "ab", "é", "\n", "", "zz"])).to_string(),
        };
        let what = || format!("text {:?}\nslice {:?}\nneedle {:?}", s, r, needle);
        let us = |o: Option<fall_tree::TextUnit>| o.map(|x| x.utf8_len());
        let checks = c.guard("text operations", &what, || vec![
            ("to_string", t.to_string() == r),
            ("to_cow", t.to_cow() == r),
            ("to_text_buf", t.to_text_buf() == *r),
            ("len", t.len().utf8_len() == r.len()),
            ("is_empty", t.is_empty() == r.is_empty()),
            ("chars", t.chars().collect::<String>() == r),
            ("display", format!("{}", t) == r && format!("{:?}", t) == format!("{:?}", r)),
            ("serialize", serde_json::to_string(&t).unwrap() == serde_json::to_string(r).unwrap()),
            ("starts_with", t.starts_with(&needle) == r.starts_with(needle.as_str())),
            ("ends_with", t.ends_with(&needle) == r.ends_with(needle.as_str())),
            ("contains", t.contains(&needle) == r.contains(needle.as_str())),
            ("find", us(t.find(&needle)) == r.find(needle.as_str())),
            ("rfind", us(t.rfind(&needle)) == r.rfind(needle.as_str())),
            ("trim", t.trim().to_string() == r.trim()),
            ("== str", (t == needle.as_str()) == (r == needle) && t == r),
            ("str ==", (needle.as_str() == t) == (r == needle)),
            ("cmp str", t.partial_cmp(&needle.as_str()) == r.partial_cmp(needle.as_str())),
            ("hash", hash(t) == hash(r)),
        ])?;
        for (name, ok) in checks { c.ensure(ok, &format!("Text::{} differs from str", name), what)?; }
        let other: TextBuf = needle.as_str().into();
        let o = other.as_text();
        c.ensure((t == o) == (r == needle) && t.partial_cmp(&o) == r.partial_cmp(needle.as_str()) && t.cmp(&o) == r.cmp(needle.as_str()), "comparison of texts", what)?;
        let bufs = c.guard("comparison of texts with strings", &what, || {
            let x: TextBuf = t.into();
            let (n, eq) = (needle.as_str(), r == needle);
            x == *r && x == r && *r == x && r == x && (x == *n) == eq && (x == n) == eq && (*n == x) == eq && (n == x) == eq
                && format!("{}", x) == r && format!("{:?}", x) == format!("{:?}", r)
        })?;
        c.ensure(bufs, "a text buffer differs from its string", what)?;
        // what lies outside of a text is not part of it
        let len = r.len();
        let beyond = c.rng.range(1, 4);
        if catch_guarded(|| t.slice(range(0, len + beyond))).is_ok() || catch_guarded(|| t.slice(range(len + beyond, len + beyond))).is_ok() {
            c.violation("a slice reaches beyond its text", what());
            return Ok(());
        }
        let _ = (a, b);
    }
    c.nontrivial(&s);
    Ok(())
}

fn edit(c: &mut Case) -> Res {
    let s = some_text(c);
    let n = c.rng.below(6);
    let ops = edits::ops(&mut c.rng, &s, n, &mut |r| texts::garbage(r, 6));
    let e = if c.rng.chance(1, 2) { edits::build(&s, &ops) } else { edits::raw(&mut c.rng, &s, &ops) };
    let want = edits::apply(&s, &ops);
    let buf: TextBuf = s.as_str().into();
    let what = || format!("text {:?}\noperations {:?}\nedit {:?}", s, ops, e);
    c.input(&what());
    c.eval();
    let got = c.guard("apply", &what, || e.apply(buf.as_text()).to_string())?;
    c.ensure(got == want, "an edit gives another text than its operations", || format!("{}\ngot {:?}\nwant {:?}", what(), got, want))?;
    c.count("text edits", 1);
    if n > 0 && !s.is_empty() { c.nontrivial(&what()); c.sample(|| what()) }
    Ok(())
}

/// Edits of nodes and ranges of one file. What is done to a node inside of a deleted or replaced one goes with it;
/// ranges do not overlap with each other or with changed nodes.
fn file_edit(c: &mut Case) -> Res {
    let kind: Kind = *c.rng.pick(&KINDS);
    let text = texts::text(&mut c.rng, kind, 500);
    c.input(&text);
    let file = c.guard("parse", &|| text.clone(), || kind.lang().parse(text.as_str()))?;
    let mut post: Vec<Node> = Vec::new();
    fn collect<'f>(n: Node<'f>, out: &mut Vec<Node<'f>>) { for ch in n.children() { collect(ch, out) } out.push(n) }
    collect(file.root(), &mut post);
    let mut substrings: Vec<(usize, usize, String)> = Vec::new();
    let mut changed: Vec<(Node, String)> = Vec::new();
    let mut inserted: Vec<(Node, String)> = Vec::new();
    let mut fe = FileEdit::new(&file);
    let mut log = String::new();
    let free = |taken: &[(usize, usize)], a: usize, b: usize| taken.iter().all(|&(x, y)| b < x || y < a || (b == x && a < b && x < y) || (y == a && a < b && x < y));
    for _ in 0..c.rng.range(1, 6) {
        let mut i = c.rng.below(post.len());
        if c.rng.chance(1, 4) && !changed.is_empty() {
            // around or inside of one that is changed already
            let n = c.rng.pick(&changed).0;
            if c.rng.chance(1, 2) {
                if let Some(p) = n.parent() { i = post.iter().position(|&m| m == p).unwrap() }
            } else {
                let mut below = Vec::new();
                collect(n, &mut below);
                let m = *c.rng.pick(&below);
                i = post.iter().position(|&x| x == m).unwrap();
            }
        }
        let n = post[i];
        let (a, b) = (start(n), end(n));
        let new = texts::garbage(&mut c.rng, 5);
        let subs: Vec<_> = substrings.iter().map(|s| (s.0, s.1)).collect();
        let can = a < b && free(&subs, a, b) && changed.iter().all(|x| x.0 != n);
        match c.rng.below(5) {
            0 if can => { fe.delete(n); log.push_str(&format!("delete {:?} {}..{}\n", n, a, b)); changed.push((n, String::new())) }
            1 if can => { fe.replace_with_text(n, new.clone()); log.push_str(&format!("replace {:?} {}..{} {:?}\n", n, a, b, new)); changed.push((n, new)) }
            2 if can => {
                let o = *c.rng.pick(&post);
                fe.replace(n, o);
                let t = text[start(o)..end(o)].to_string();
                log.push_str(&format!("replace {:?} {}..{} by {:?}\n", n, a, b, t));
                changed.push((n, t));
            }
            3 => {
                let (a, b) = texts::span(&mut c.rng, &text, 20);
                let nodes: Vec<_> = changed.iter().map(|x| (start(x.0), end(x.0))).collect();
                if a < b && free(&subs, a, b) && free(&nodes, a, b) {
                    fe.replace_substring(range(a, b), new.clone());
                    log.push_str(&format!("replace {}..{} {:?}\n", a, b, new));
                    substrings.push((a, b, new));
                }
            }
            _ => {
                if b == 0 || n.parent().is_none() && text.is_empty() { continue }
                fe.insert_text_after(n, new.clone());
                log.push_str(&format!("insert after {:?} {}..{} {:?}\n", n, a, b, new));
                inserted.push((n, new));
            }
        }
    }
    // (start, end, position in the walk, text)
    let mut plain: Vec<(usize, usize, usize, String)> = Vec::new();
    fn walk<'f>(n: Node<'f>, at: &mut usize, changed: &[(Node<'f>, String)], inserted: &[(Node<'f>, String)], out: &mut Vec<(usize, usize, usize, String)>) {
        match changed.iter().find(|x| x.0 == n) {
            Some(x) => out.push((start(n), end(n), *at, x.1.clone())),
            None => for ch in n.children() { walk(ch, at, changed, inserted, out) },
        }
        *at += 1;
        for x in inserted.iter().filter(|x| x.0 == n) { out.push((end(n), end(n), *at, x.1.clone())) }
        *at += 1;
    }
    walk(file.root(), &mut 1, &changed, &inserted, &mut plain);
    c.count("edits inside of changed nodes", (changed.len() + inserted.len() - plain.len()) as u64);
    // an insertion inside of a replaced range has no place to go: generate none
    if plain.iter().any(|p| p.0 == p.1 && substrings.iter().any(|s| s.0 < p.0 && p.0 < s.1)) { c.count("conflicting edits skipped", 1); return Ok(()); }
    plain.extend(substrings.into_iter().map(|(a, b, t)| (a, b, 0, t)));
    let mut order: Vec<usize> = (0..plain.len()).collect();
    // where insertions share an offset: in the order of the nodes, then of the calls
    order.sort_by_key(|&k| { let p = &plain[k]; (p.0, p.1, p.2, k) });
    let mut want = String::new();
    let mut at = 0;
    for k in order {
        let p = &plain[k];
        want.push_str(&text[at..p.0]);
        want.push_str(&p.3);
        at = p.1;
    }
    want.push_str(&text[at..]);
    let what = || format!("{}\n--- text ---\n{}\n--- edits ---\n{}", kind.name(), text, log);
    c.input(&what());
    c.eval();
    let e = c.guard("into_text_edit", &what, || fe.into_text_edit())?;
    let got = c.guard("apply", &what, || e.apply(file.text()).to_string())?;
    c.ensure(got == want, "a file edit gives another text than its operations", || format!("{}\n--- got ---\n{}\n--- want ---\n{}", what(), got, want))?;
    c.count("file edits", 1);
    c.count("operations on nodes and substrings", plain.len() as u64);
    if !plain.is_empty() { c.nontrivial(&what()) }
    Ok(())
}
