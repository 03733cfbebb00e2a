//! Plain copies of trees, comparison, and the structural monitor.

use fall_tree::{File, Node, NodeType, TextUnit};

pub fn us(t: TextUnit) -> usize { t.utf8_len() }
pub fn start(n: Node) -> usize { us(n.range().start()) }
pub fn end(n: Node) -> usize { us(n.range().end()) }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct T {
    pub ty: u32,
    pub start: usize,
    pub end: usize,
    pub ch: Vec<T>,
}

impl T {
    pub fn of(n: Node) -> T {
        T { ty: n.ty().0, start: start(n), end: end(n), ch: n.children().map(T::of).collect() }
    }
    pub fn of_file(f: &File) -> T { T::of(f.root()) }
    pub fn count(&self) -> usize { 1 + self.ch.iter().map(T::count).sum::<usize>() }
    pub fn has_ty(&self, ty: NodeType) -> bool { self.ty == ty.0 || self.ch.iter().any(|c| c.has_ty(ty)) }
    pub fn depth(&self) -> usize { 1 + self.ch.iter().map(T::depth).max().unwrap_or(0) }
    pub fn hash(&self) -> u64 {
        fn go(t: &T, h: &mut u64) {
            for x in &[t.ty as u64, t.start as u64, t.end as u64, t.ch.len() as u64] {
                *h = crate::rng::mix(*h ^ *x);
            }
            for c in &t.ch { go(c, h) }
        }
        let mut h = 7;
        go(self, &mut h);
        h
    }
    pub fn dump(&self, name: &dyn Fn(u32) -> String, text: &str) -> String {
        fn go(t: &T, level: usize, name: &dyn Fn(u32) -> String, text: &str, out: &mut String) {
            for _ in 0..level { out.push_str("  ") }
            out.push_str(&format!("{} {}..{}", name(t.ty), t.start, t.end));
            if t.ch.is_empty() { out.push_str(&format!(" {:?}", text.get(t.start..t.end).unwrap_or("<out of bounds>"))) }
            out.push('\n');
            for c in &t.ch { go(c, level + 1, name, text, out) }
        }
        let mut out = String::new();
        go(self, 0, name, text, &mut out);
        out
    }
    /// First place where two trees differ.
    pub fn diff(&self, other: &T, name: &dyn Fn(u32) -> String) -> Option<String> {
        if self.ty != other.ty || self.start != other.start || self.end != other.end {
            return Some(format!("{} {}..{}  vs  {} {}..{}", name(self.ty), self.start, self.end, name(other.ty), other.start, other.end));
        }
        for (a, b) in self.ch.iter().zip(other.ch.iter()) {
            if let Some(d) = a.diff(b, name) { return Some(format!("{} > {}", name(self.ty), d)); }
        }
        if self.ch.len() != other.ch.len() {
            let show = |t: &T| t.ch.iter().map(|c| format!("{} {}..{}", name(c.ty), c.start, c.end)).collect::<Vec<_>>().join(", ");
            return Some(format!("children of {} {}..{}: [{}]  vs  [{}]", name(self.ty), self.start, self.end, show(self), show(other)));
        }
        None
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a T)) {
        f(self);
        for c in &self.ch { c.walk(f) }
    }
}

pub fn namer<'a>(file: &'a File) -> impl Fn(u32) -> String + 'a {
    move |ty| file.language().node_type_info(NodeType(ty)).name.to_string()
}

/// The losslessness and well-formedness monitor. Returns the number of nodes seen.
pub fn check_tree(file: &File, text: &str, is_token: &dyn Fn(NodeType) -> bool) -> Result<usize, String> {
    let root = file.root();
    let name = |n: Node| format!("{:?} {:?}", n, n.range());
    if file.text().to_string() != text { return Err("the file's text is not the text that was parsed".to_string()); }
    if root.parent().is_some() { return Err("the root has a parent".to_string()); }
    if start(root) != 0 || end(root) != text.len() {
        return Err(format!("the root covers {:?} of a text of {} bytes", root.range(), text.len()));
    }
    let mut leaves = String::new();
    let mut count = 0;
    let mut stack = vec![root];
    while let Some(n) = stack.pop() {
        count += 1;
        let (s, e) = (start(n), end(n));
        if s > e || e > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(e) {
            return Err(format!("bad range of {}", name(n)));
        }
        let children: Vec<Node> = n.children().collect();
        if children.is_empty() {
            if s < e {
                leaves.push_str(&text[s..e]);
                if !(is_token(n.ty()) || n.ty() == fall_tree::ERROR) { return Err(format!("{} has text but no tokens", name(n))); }
            }
            if s == e && is_token(n.ty()) { return Err(format!("empty token {}", name(n))); }
        } else {
            if is_token(n.ty()) { return Err(format!("token {} has children", name(n))); }
            let mut pos = s;
            for &c in &children {
                if c.parent() != Some(n) { return Err(format!("parent of {} is not {}", name(c), name(n))); }
                if start(c) != pos { return Err(format!("{} does not start at {} inside {}", name(c), pos, name(n))); }
                pos = end(c);
            }
            if pos != e { return Err(format!("children of {} end at {}", name(n), pos)); }
        }
        if n.text().to_string() != text[s..e] { return Err(format!("text() of {} is not the text of its range", name(n))); }
        for c in children.into_iter().rev() { stack.push(c) }
    }
    if leaves != text {
        return Err(format!("leaves concatenate to {:?}", crate::ctx::clip(&leaves, 300)));
    }
    Ok(count)
}
