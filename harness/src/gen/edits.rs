//! Edits and their meaning on plain strings.

use fall_tree::{tu, TextBuf, TextEdit, TextEditBuilder, TextEditOp, TextRange};
use crate::langs::Kind;
use crate::rng::Rng;
use super::texts;

#[derive(Clone, Debug)]
pub struct Op { pub start: usize, pub end: usize, pub insert: String }

pub fn range(a: usize, b: usize) -> TextRange { TextRange::from_to(tu(a as u32), tu(b as u32)) }

/// The text that the operations describe.
pub fn apply(text: &str, ops: &[Op]) -> String {
    let mut out = String::new();
    let mut at = 0;
    for op in ops {
        out.push_str(&text[at..op.start]);
        out.push_str(&op.insert);
        at = op.end;
    }
    out.push_str(&text[at..]);
    out
}

/// Ordered, non-overlapping operations on character boundaries.
pub fn ops(rng: &mut Rng, text: &str, n: usize, insert: &mut dyn FnMut(&mut Rng) -> String) -> Vec<Op> {
    let mut cuts: Vec<usize> = Vec::new();
    let local = rng.chance(1, 2);
    let center = texts::boundary(rng, text);
    for _ in 0..2 * n {
        let mut p = if local { (center as i64 + rng.below(40) as i64 - 20).max(0).min(text.len() as i64) as usize } else { texts::boundary(rng, text) };
        while !text.is_char_boundary(p) { p -= 1 }
        cuts.push(p);
    }
    cuts.sort();
    let mut res = Vec::new();
    for pair in cuts.chunks(2) {
        let (a, mut b) = (pair[0], pair[1]);
        let ins = match rng.below(5) { 0 => String::new(), _ => insert(rng) };
        if rng.chance(1, 2) { b = a }
        if !local && b - a > 60 && rng.chance(4, 5) { b = a }
        res.push(Op { start: a, end: b, insert: ins });
    }
    res
}

pub fn insertion(rng: &mut Rng, kind: Kind) -> String {
    match rng.below(12) {
        0..=4 => rng.pick(texts::vocab(kind)).to_string(),
        5 => " ".to_string(),
        6 => "\n".to_string(),
        7 => texts::garbage(rng, 3),
        8 => { let c = texts::chunk(rng, kind, 60); c }
        9 => texts::soup(rng, kind, 8),
        _ => {
            let v = *rng.pick(texts::vocab(kind));
            // part of a token: edits while typing
            let mut e = rng.below(v.len() + 1);
            while !v.is_char_boundary(e) { e -= 1 }
            v[..e].to_string()
        }
    }
}

/// Through the builder, as editors do.
pub fn build(text: &str, ops: &[Op]) -> TextEdit {
    let buf: TextBuf = text.into();
    let mut b = TextEditBuilder::new(buf.as_text());
    for op in ops {
        if op.start == op.end {
            b.insert(tu(op.start as u32), op.insert.as_str());
        } else if op.insert.is_empty() {
            b.delete(range(op.start, op.end));
        } else {
            b.replace(range(op.start, op.end), op.insert.as_str());
        }
    }
    b.build()
}

/// The same edit written as raw operations, with copies split at random places and empty pieces in between.
pub fn raw(rng: &mut Rng, text: &str, ops: &[Op]) -> TextEdit {
    let mut res = Vec::new();
    let mut at = 0;
    let copy = |res: &mut Vec<TextEditOp>, a: usize, b: usize, rng: &mut Rng| {
        if a < b && rng.chance(1, 4) {
            let mut m = a + rng.below(b - a + 1);
            while !text.is_char_boundary(m) { m -= 1 }
            res.push(TextEditOp::Copy(range(a, m)));
            if rng.chance(1, 3) { res.push(TextEditOp::Insert("".into())) }
            res.push(TextEditOp::Copy(range(m, b)));
        } else if a < b || rng.chance(1, 4) {
            res.push(TextEditOp::Copy(range(a, b)));
        }
    };
    for op in ops {
        copy(&mut res, at, op.start, rng);
        if !op.insert.is_empty() || rng.chance(1, 3) { res.push(TextEditOp::Insert(op.insert.as_str().into())); }
        at = op.end;
    }
    copy(&mut res, at, text.len(), rng);
    TextEdit { ops: res }
}
