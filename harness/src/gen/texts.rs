//! Hostile and realistic texts for every language.

use crate::langs::Kind;
use crate::rng::Rng;

const RUST: &[&str] = &[
    include_str!("../../corpus/data.rs"), include_str!("../../corpus/inline.rs"), include_str!("../../corpus/parser.rs"),
    include_str!("../../corpus/search.rs"), include_str!("../../corpus/indxr.rs"), include_str!("../../corpus/editor.rs"),
    include_str!("../../corpus/rustc_parser.rs"),
];
const FALL: &[&str] = &[
    include_str!("../../corpus/fall.fall"), include_str!("../../corpus/rust.fall"), include_str!("../../corpus/json.fall"),
    include_str!("../../corpus/bnf.fall"), include_str!("../../corpus/arith.fall"), include_str!("../../corpus/sexp.fall"),
    include_str!("../../corpus/weird.fall"),
];

pub fn corpus(kind: Kind) -> &'static [&'static str] {
    match kind {
        Kind::Rust => RUST,
        Kind::Fall => FALL,
        Kind::Json => &[include_str!("../../corpus/a.json")],
        Kind::Bnf => &[include_str!("../../corpus/a.bnf")],
        Kind::Arith => &[include_str!("../../corpus/a.arith")],
        Kind::Sexp => &[include_str!("../../corpus/a.sexp")],
        Kind::Weird => &[include_str!("../../corpus/a.weird"), "_1 r##\" \"# \"##", "_2 foo", "_3 foo bar", "_3 foo foo"],
    }
}

pub fn vocab(kind: Kind) -> &'static [&'static str] {
    match kind {
        Kind::Json => &["{", "}", "[", "]", ":", ",", "null", "true", "false", "\"a\"", "\"\"", "\"é☃\"", "12", "0", "\"x", "nul", "{\"k\": 1}", "[1, 2]", "-", "\n"],
        Kind::Bnf => &["->", "|", "'+'", "'id'", "'é'", "E", "T", "foo_1", "Ж", "-", ">", "'", "''", "\n", "A -> B\n"],
        Kind::Fall => &["tokenizer", "pub", "rule", "verbatim", "ast", "test", "node", "class", "trait", "{", "}", "[", "]", "<", ">", "(", ")",
            "|", "*", "?", ".", ",", ":", "#", "=", "foo", "bar", "'x'", "'\\''", "r\"\\w+\"", "r#\"a\"#", "12", "#[pratt]", "#[bin(1)]", "#[atom]",
            "#[skip]", "#[contextual]", "#[cached]", "<commit>", "<eof>", "<any>", "<not", "<layer", "<with_skip", "<inject", "<enter 'x'", "<is_in 'x'>",
            "<prev_is", "//c\n", "\n", "'", "r#\"", "r##", "é", "pub rule foo { bar }\n", "rule bar(x) { x* }\n", "tokenizer { a 'a' }\n", "expr"],
        Kind::Rust => &["union", "as", "crate", "extern", "fn", "let", "pub", "struct", "use", "mod", "if", "else", "enum", "impl", "self", "super", "type",
            "const", "static", "for", "loop", "while", "move", "mut", "ref", "trait", "match", "return", "continue", "break", "in", "unsafe", "where",
            "(", ")", "{", "}", "<", ">", "[", "]", "<<", "<<=", ">>", ">>=", "&&", "||", "->", "=>", "=", "==", "!=", ">=", "<=", ";", ":", "::", ",", ".",
            "..", "...", "#", "$", "*", "*=", "/", "/=", "%", "%=", "+", "+=", "-", "-=", "&", "&=", "|", "|=", "_", "!", "?", "^", "^=", "'a'", "'\\''", "'a",
            "'static", "true", "false", "1", "92", "\"s\"", "\"\\\"\"", "r\"x\"", "r#\"x\"#", "foo", "bar", "Foo", "é", "// c\n", "/* c */", "/* /* */ */", "/*", "\"", "'",
            "r#\"", "\n", "\n\n", "fn f() {}\n", "struct S { x: i32 }\n", "foo!(a b)", "#[a]", "#![b]", "1.0", "\\", "`", "@", "~", "foo::bar", "Foo<T>", "|x| x"],
        Kind::Arith => &["+", "-", "*", "/", "!", "(", ")", "1", "23", " ", "x", "é", "--", "!!"],
        Kind::Sexp => &["(", ")", "a", "foo", "12", "é", "()", "\n", "\"", "-"],
        Kind::Weird => &["_1", "_2", "_3", "_4", "foo", "bar", "{", "}", "atom", "r\"x\"", "r#\"x\"#", "r##\"\"# \"##", "r#\"", "\"", "é"],
    }
}

pub const ODD: &[&str] = &["\u{0}", "\t", "\r\n", "\r", "\u{b}", "\u{c}", " ", "  ", "\n", "\u{85}", "\u{a0}", "\u{2028}", "\u{200b}", "\u{feff}", "\u{301}",
    "é", "ß", "İ", "ı", "Σ", "ς", "ﬁ", "☃", "🎉", "👩‍👩‍👧", "漢字", "א", "ا", "\u{e000}", "\u{10ffff}", "\u{fffd}", "\\", "`", "\"", "'", "\u{7f}", "_", "0", "٣", "a", "Ж"];

pub fn garbage(rng: &mut Rng, max: usize) -> String {
    let n = rng.size(max);
    let mut s = String::new();
    for _ in 0..n {
        match rng.below(6) {
            0 => s.push((rng.below(95) as u8 + 32) as char),
            1 => if let Some(c) = std::char::from_u32(rng.below(0x11_0000) as u32) { s.push(c) },
            _ => { let o: &&str = rng.pick(ODD); s.push_str(o) }
        }
    }
    s
}

/// Random tokens of the language, with random blanks.
pub fn soup(rng: &mut Rng, kind: Kind, max: usize) -> String {
    let n = rng.size(max);
    let v = vocab(kind);
    let mut s = String::new();
    let blank = rng.below(3);
    let sub: Vec<&str> = if rng.chance(1, 2) { (0..rng.range(2, 12)).map(|_| *rng.pick(v)).collect() } else { v.to_vec() };
    for _ in 0..n {
        let w: &str = *rng.pick(&sub[..]);
        s.push_str(w);
        match blank {
            0 => s.push(' '),
            1 => if rng.chance(1, 2) { s.push(' ') },
            _ => if rng.chance(1, 8) { s.push('\n') },
        }
        if rng.chance(1, 40) { let o: &&str = rng.pick(ODD); s.push_str(o) }
    }
    s
}

pub fn boundary(rng: &mut Rng, s: &str) -> usize {
    let mut i = rng.below(s.len() + 1);
    while !s.is_char_boundary(i) { i -= 1 }
    i
}

pub fn span(rng: &mut Rng, s: &str, max: usize) -> (usize, usize) {
    let a = boundary(rng, s);
    let mut b = (a + rng.below(max + 1)).min(s.len());
    while !s.is_char_boundary(b) { b -= 1 }
    (a, b)
}

pub fn chunk(rng: &mut Rng, kind: Kind, max: usize) -> String {
    let c = *rng.pick(corpus(kind));
    if c.len() <= max && rng.chance(2, 3) { return c.to_string(); }
    // prefer chunks that begin and end at lines
    let (mut a, mut b) = span(rng, c, max);
    if rng.chance(2, 3) {
        if let Some(i) = c[..a].rfind('\n') { if b - i <= max + 100 { a = i + 1 } }
        if let Some(i) = c[a..b].rfind('\n') { b = a + i + 1 }
    }
    if rng.chance(1, 3) {
        // a whole balanced item: from a line that starts in column 0 to the next closing brace in column 0
        if let Some(i) = c[..a].rfind("\n\n") {
            if let Some(j) = c[i..].find("\n}") { if j < max * 2 { return c[i + 2.min(c.len() - i)..i + j + 2].to_string(); } }
        }
    }
    c[a..b.max(a)].to_string()
}

pub fn mutate(rng: &mut Rng, kind: Kind, text: &str) -> String {
    let mut s = text.to_string();
    let n = match rng.below(4) { 0 => 0, 1 => 1, 2 => rng.range(1, 3), _ => rng.range(2, 10) };
    for _ in 0..n {
        match rng.below(8) {
            0 | 1 => { let (a, b) = span(rng, &s, 12); s.replace_range(a..b, "") }
            2 => { let (a, b) = span(rng, &s, 80); let t = s[a..b].to_string(); let at = boundary(rng, &s); s.insert_str(at, &t) }
            3 | 4 => { let at = boundary(rng, &s); let v = *rng.pick(vocab(kind)); s.insert_str(at, v) }
            5 => { let (a, b) = span(rng, &s, 6); let v = *rng.pick(vocab(kind)); s.replace_range(a..b, v) }
            6 => { let at = boundary(rng, &s); let o = *rng.pick(ODD); s.insert_str(at, o) }
            _ => {
                // remove one bracket
                let br: Vec<usize> = s.char_indices().filter(|&(_, c)| "(){}[]<>\"'".contains(c)).map(|(i, _)| i).collect();
                if !br.is_empty() { let at = *rng.pick(&br); s.replace_range(at..at + 1, ""); }
            }
        }
    }
    if rng.chance(1, 10) { let at = boundary(rng, &s); s.truncate(at); }
    s
}

/// Keeps recursion of the recursive-descent engine within the workers' stacks.
pub fn limit_nesting(s: String, max: usize) -> String {
    let mut depth = 0usize;
    let mut run = 0usize;
    let mut out = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '(' | '{' | '[' | '<' => { depth += 1; if depth > max { continue } }
            ')' | '}' | ']' | '>' => depth = depth.saturating_sub(1),
            _ => {}
        }
        if "-!*&|#".contains(c) { run += 1; if run > max * 4 { continue } } else if !c.is_whitespace() { run = 0 }
        out.push(c);
    }
    out
}

pub fn text(rng: &mut Rng, kind: Kind, max: usize) -> String {
    let s = match rng.below(20) {
        0 => garbage(rng, max / 8),
        1..=4 => soup(rng, kind, max / 6),
        5..=10 => { let m = max.min(200 + rng.below(max)); let c = chunk(rng, kind, m); mutate(rng, kind, &c) }
        11..=15 => { let v = super::programs::valid(rng, kind, max / 20); mutate(rng, kind, &v) }
        16..=17 => super::programs::valid(rng, kind, max / 20),
        18 => { let m = max / 2; let c = chunk(rng, kind, m); let g = garbage(rng, 12); let at = boundary(rng, &c); format!("{}{}{}", &c[..at], g, &c[at..]) }
        _ => { let n = rng.below(4); let other = chunk(rng, *rng.clone().pick(&crate::langs::KINDS), max / 4); let mut s = soup(rng, kind, n * 5); s.push_str(&other); s }
    };
    let s = if rng.chance(1, 120) { stretch(rng, kind, &s) } else { s };
    tame(kind, s)
}

/// Around the sizes at which buffers, windows and small counters end.
pub fn length(rng: &mut Rng, bits: usize) -> usize {
    if rng.chance(1, 2) { ((1usize << rng.range(5, bits)) + rng.below(40)).saturating_sub(20) } else { rng.size(1 << bits) }
}

/// One thing that is much longer than usual: a token, a run of blanks and comments, or a text of many equal pieces.
pub fn stretch(rng: &mut Rng, kind: Kind, text: &str) -> String {
    let mut at = boundary(rng, text);
    if rng.chance(1, 2) { at = text[..at].rfind('\n').map_or(0, |i| i + 1) }
    if rng.chance(1, 4) && !text.is_empty() {
        let n = length(rng, 13) / text.len() + 1;
        let by = *rng.pick(&["\n", " ", ""]);
        return vec![text; n.min(2000)].join(by);
    }
    let long = long(rng, kind);
    format!("{}{}{}", &text[..at], long, &text[at..])
}

pub fn long(rng: &mut Rng, kind: Kind) -> String {
    let bits = *rng.pick(&[8, 10, 12, 14, 16]);
    let n = length(rng, bits);
    let fill = |rng: &mut Rng, of: &[&str]| { let p = *rng.pick(of); let mut s = p.repeat(n / p.len() + 1); s.push_str(*rng.pick(of)); s };
    const PLAIN: &[&str] = &["a", "b c ", "é", "☃ x"];
    const LINES: &[&str] = &["a\n", " \n", "b", "é\r\n", "{ ", "[ }"];
    match kind {
        Kind::Rust => match rng.below(9) {
            0 => format!("/*{}*/", fill(rng, &["a", "é\n", "* ", "/ ", "\"", "/**/ "])),
            1 => format!("//{}\n", fill(rng, PLAIN)),
            2 => format!("\"{}\"", fill(rng, &["a", "\\\"", "é\n", "\\\\", "// "])),
            3 => format!("r##\"{}\"##", fill(rng, &["a", "\" ", "\"# ", "é\n"])),
            4 => fill(rng, &["a", "é", "_9"]),
            5 => fill(rng, &["1", "92"]),
            6 => fill(rng, &[" ", "\n", "\t \r\n"]),
            7 => format!("{}struct S;\n", fill(rng, &["// c\n", "//\n  ", "/* b */ // c\n", "/* b */", "\n// é\n"])),
            _ => format!("'{}'", fill(rng, &["a", "{", "\\a"])),
        },
        Kind::Fall => match rng.below(7) {
            0 => format!("//{}\n", fill(rng, PLAIN)),
            1 => format!("'{}'", fill(rng, &["a", "\\'", "é\n"])),
            2 => format!("r##\"{}\"##", fill(rng, &["a", "\" ", "\"# ", "é\n"])),
            3 => fill(rng, &["a", "é", "_9"]),
            4 => fill(rng, &["1", "92"]),
            5 => fill(rng, &[" ", "\n", "\t \r\n"]),
            _ => fill(rng, &["// c\n", "//\n  ", "\n// é\n"]),
        },
        Kind::Json => match rng.below(3) { 0 => format!("\"{}\"", fill(rng, &["a", "é", "{ "])), 1 => fill(rng, &["1", "92"]), _ => fill(rng, &[" ", "\n\t"]) },
        Kind::Bnf => match rng.below(3) { 0 => format!("'{}'", fill(rng, LINES)), 1 => fill(rng, &["a", "é9"]), _ => fill(rng, &[" ", "\n\t"]) },
        Kind::Weird => match rng.below(3) { 0 => format!("r##\"{}\"##", fill(rng, &["a", "\" ", "\"# ", "é\n"])), 1 => fill(rng, &["a", "é9"]), _ => fill(rng, &[" ", "\n\t"]) },
        Kind::Arith | Kind::Sexp => fill(rng, &["1", "a", " ", "\n"]),
    }
}

/// The two test fixtures have limits of their own: arith's grammar takes exponential time on unclosed parentheses, as
/// its rules (no commit) prescribe, and weird's raw strings are hard-coded to 30 hashes.
pub fn tame(kind: Kind, s: String) -> String {
    match kind {
        Kind::Arith => limit_nesting(s, 9),
        Kind::Weird => {
            let mut run = 0;
            let s = s.chars().filter(|&c| { if c == '#' { run += 1 } else { run = 0 } run <= 25 }).collect();
            limit_nesting(s, 60)
        }
        _ => limit_nesting(s, 60),
    }
}

/// May this text (the outcome of edits) be parsed at all, see `tame`?
pub fn too_hard(kind: Kind, s: &str) -> bool {
    match kind {
        Kind::Arith => s.chars().filter(|&c| c == '(').count() > 14,
        Kind::Weird => s.contains("##########################"),
        _ => false,
    }
}
