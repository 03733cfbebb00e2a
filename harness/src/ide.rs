//! Both editors behind one face: every query with its answer as text, ranges and edits.

use fall_editor::EditorFileImpl;
use fall_tree::{tu, AstNode, File, TextEdit, TextEditOp, TextRange};
use lang_fall::FileWithAnalysis;
use lang_rust::editor::RustEditorFile;

use crate::gen::edits::range;
use crate::gen::{fallgen, programs, texts};
use crate::langs::Kind;
use crate::rng::Rng;
use crate::tree::us;

pub enum Ed { Fall(FileWithAnalysis), Rust(RustEditorFile) }

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Q {
    Text, Tree, Structure, Highlight, Diagnostics, Reformat, Stale,
    Extend(usize, usize), Actions(usize, usize), Apply(usize, usize, &'static str),
    Resolve(usize), Usages(usize), TestAt(usize),
    Space(usize), Expand(usize), Crumbs(usize),
    Literals,
}

pub struct Answer { pub text: String, pub ranges: Vec<(usize, usize)>, pub edit: Option<TextEdit>, pub actions: Vec<&'static str> }

pub const FALL_ACTIONS: &[&str] = &["Swap", "Swap alternatives", "Extract rule", "Add braces", "No such action"];
pub const RUST_ACTIONS: &[&str] = &["Swap", "Add braces", "Add impl", "Extract rule", "No such action"];

fn sp(r: TextRange) -> (usize, usize) { (us(r.start()), us(r.end())) }
fn off(o: usize) -> fall_tree::TextUnit { tu(o as u32) }

impl Ed {
    pub fn parse(kind: Kind, text: &str) -> Ed {
        if kind == Kind::Fall { Ed::Fall(FileWithAnalysis::parse(text)) } else { Ed::Rust(RustEditorFile::parse(text)) }
    }
    pub fn edit(&self, e: &TextEdit) -> Ed {
        match self { Ed::Fall(f) => Ed::Fall(EditorFileImpl::edit(f, e)), Ed::Rust(f) => Ed::Rust(f.edit(e)) }
    }
    pub fn kind(&self) -> Kind { match self { Ed::Fall(_) => Kind::Fall, Ed::Rust(_) => Kind::Rust } }
    pub fn file(&self) -> &File { match self { Ed::Fall(f) => EditorFileImpl::file(f), Ed::Rust(f) => f.file() } }
    pub fn actions(&self) -> &'static [&'static str] { match self { Ed::Fall(_) => FALL_ACTIONS, Ed::Rust(_) => RUST_ACTIONS } }

    pub fn ask(&self, q: &Q) -> Answer {
        match self { Ed::Fall(f) => ask(f, self, q), Ed::Rust(f) => ask(f, self, q) }
    }
}

fn ask<F: EditorFileImpl>(f: &F, ed: &Ed, q: &Q) -> Answer {
    let mut a = Answer { text: String::new(), ranges: Vec::new(), edit: None, actions: Vec::new() };
    match *q {
        Q::Text => a.text = f.file().text().to_string(),
        Q::Tree => a.text = f.syntax_tree(),
        Q::Structure => {
            fn go(n: &fall_editor::FileStructureNode, a: &mut Answer) {
                a.ranges.push(sp(n.range));
                for c in &n.children { go(c, a) }
            }
            let s = f.structure();
            for n in &s { go(n, &mut a) }
            a.text = format!("{:?}", s);
        }
        Q::Highlight => {
            let h = f.highlight();
            a.text = h.iter().map(|(r, t)| format!("{:?} {}\n", r, t.0)).collect();
            a.ranges = h.iter().map(|x| sp(x.0)).collect();
        }
        Q::Diagnostics => {
            let d = f.diagnostics();
            a.text = d.iter().map(|d| format!("{:?} {:?} {}\n", d.severity, d.range, d.message)).collect();
            a.ranges = d.iter().map(|d| sp(d.range)).collect();
        }
        Q::Reformat => { let e = f.reformat(); a.edit = Some(e) }
        Q::Stale => {}
        Q::Extend(s, e) => {
            let r = f.extend_selection(range(s, e));
            a.text = format!("{:?}", r);
            a.ranges.extend(r.map(sp));
        }
        Q::Actions(s, e) => { a.actions = f.context_actions(range(s, e)); a.text = format!("{:?}", a.actions) }
        Q::Apply(s, e, id) => { a.edit = f.apply_context_action(range(s, e), id); if a.edit.is_none() { a.text = "not applicable".into() } }
        Q::Resolve(o) => if let Ed::Fall(f) = ed { let r = f.resolve_reference(off(o)); a.text = format!("{:?}", r); a.ranges.extend(r.map(sp)) },
        Q::Usages(o) => if let Ed::Fall(f) = ed { let r = f.find_usages(off(o)); a.text = format!("{:?}", r); a.ranges = r.into_iter().map(sp).collect() },
        Q::TestAt(o) => if let Ed::Fall(f) = ed { a.text = format!("{:?}", f.test_at_offset(off(o))) },
        Q::Space(o) => if let Ed::Rust(f) = ed { a.text = format!("{:?}", f.after_space_typed(off(o))) },
        Q::Expand(o) => if let Ed::Rust(f) = ed { a.edit = f.expand(off(o)); if a.edit.is_none() { a.text = "not applicable".into() } },
        Q::Crumbs(o) => if let Ed::Rust(f) = ed { a.text = format!("{:?}", f.breadcrumbs(off(o))) },
        // what the analysis and the generator read out of literals
        Q::Literals => if let Ed::Fall(f) = ed {
            let ast = lang_fall::ast(f.file());
            if let Some(t) = ast.tokenizer_def() {
                for r in t.lex_rules() {
                    a.text.push_str(&format!("{} {:?} {:?} {:?} {} {}\n", r.token_name(), r.token_re(), r.token_text().map(|t| t.to_string()), r.extern_fn().map(|t| t.to_string()), r.is_skip(), r.is_contextual()));
                    a.ranges.push(sp(r.node().range()));
                }
            }
            for t in ast.tests() { a.text.push_str(&format!("{:?}\n", t.contents().map(|t| t.to_string()))) }
        },
    }
    if let Some(e) = &a.edit { a.text.push_str(&format!("{:?}", e)) }
    a
}

/// Ranges an edit copies; what it makes of the text is for the caller to judge.
pub fn edit_ranges(e: &TextEdit) -> Vec<(usize, usize)> {
    e.ops.iter().filter_map(|o| if let TextEditOp::Copy(r) = o { Some(sp(*r)) } else { None }).collect()
}

/// Every parameterless query.
pub const WHOLE: &[Q] = &[Q::Text, Q::Tree, Q::Structure, Q::Highlight, Q::Diagnostics, Q::Reformat, Q::Literals];

/// Queries about places of the text, by preference near its tokens' borders.
pub fn places(rng: &mut Rng, ed: &Ed, text: &str, n: usize) -> Vec<Q> {
    let mut v = Vec::new();
    let cuts: Vec<usize> = {
        let mut c = vec![0, text.len()];
        crate::tree::T::of_file(ed.file()).walk(&mut |t| { c.push(t.start); c.push(t.end) });
        c.sort();
        c.dedup();
        c
    };
    let spot = |rng: &mut Rng| -> usize {
        match rng.below(4) {
            0 => texts::boundary(rng, text),
            1 | 2 => *rng.pick(&cuts),
            _ => {
                // inside a token
                let mut p = *rng.pick(&cuts) + rng.below(3);
                while p > text.len() || !text.is_char_boundary(p) { p -= 1 }
                p
            }
        }
    };
    for i in 0..n {
        let (a, b) = (spot(rng), spot(rng));
        let (s, e) = if rng.chance(1, 3) { (a, a) } else { (a.min(b), a.max(b)) };
        let o = if i == 0 { 0 } else if i == 1 { text.len() } else { a };
        let (s, e) = if i == 0 { (0, 0) } else if i == 1 { (text.len(), text.len()) } else if i == 2 { (0, text.len()) } else { (s, e) };
        v.push(Q::Extend(s, e));
        v.push(Q::Actions(s, e));
        for id in ed.actions() { v.push(Q::Apply(s, e, id)) }
        if ed.kind() == Kind::Fall {
            v.push(Q::Resolve(o));
            v.push(Q::Usages(o));
            v.push(Q::TestAt(o));
        } else {
            v.push(Q::Space(o));
            v.push(Q::Expand(o));
            v.push(Q::Crumbs(o));
        }
    }
    v
}

/// Texts for an editor: sound ones, slightly broken ones and rubbish.
pub fn text(rng: &mut Rng, kind: Kind, size: usize) -> String {
    let base = match rng.below(6) {
        0 => texts::text(rng, kind, size.min(2000)),
        1 => { let n = rng.range(1, size / 20 + 2); programs::valid(rng, kind, n) }
        _ if kind == Kind::Fall => { let n = rng.range(1, 7); fallgen::text(rng, n) }
        2 => texts::chunk(rng, kind, size),
        _ => { let n = rng.range(1, size / 12 + 2); programs::valid(rng, kind, n) }
    };
    let mut t = base;
    for _ in 0..*rng.pick(&[0, 0, 0, 1, 1, 2, 5]) { t = damage(rng, kind, &t) }
    if texts::too_hard(kind, &t) { texts::tame(kind, t) } else { t }
}

/// What typing does to a text: pieces vanish, move, or are cut short.
fn damage(rng: &mut Rng, kind: Kind, t: &str) -> String {
    let a = texts::boundary(rng, t);
    let mut b = a + rng.below(12);
    while b > t.len() || !t.is_char_boundary(b) { b -= 1 }
    let b = b.max(a);
    match rng.below(8) {
        0 | 1 => format!("{}{}", &t[..a], &t[b..]),
        2 => t[..a].to_string(),
        3 => t[a..].to_string(),
        4 => format!("{}{}{}", &t[..a], &t[a..b], &t[a..]),
        5 => { let v = *rng.pick(texts::vocab(kind)); format!("{}{}{}", &t[..a], v, &t[a..]) }
        6 => { let g = texts::garbage(rng, 3); format!("{}{}{}", &t[..a], g, &t[b..]) }
        _ => texts::mutate(rng, kind, t),
    }
}
