use std::collections::HashMap;
use std::path::PathBuf;
use std::time::{Duration, Instant};

use lang_rust::editor::SymbolIndex;
use fall_tree::Node;

use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::{programs, texts};
use crate::langs::{ty_name, Kind};
use crate::rng::Rng;
use crate::scratch::Dir;
use crate::tree::{end, start, us};
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C19", plan, case, finish: None,
        rule: "scratch directories full of Rust files (colliding, nested, differently cased and non-ASCII names, broken files, other extensions) behind a real symbol index; every query's answers are compared with a brute-force scan of all items of all files. Non-trivial: a query with results; distinct by case and query.",
    }
}

// every index keeps a thread and an inotify instance for good
fn plan(tier: Tier) -> Plan {
    match tier {
        Tier::Quick => Plan { cases: 32, secs: 60.0, threads: 8, case_cpu_s: 60 },
        Tier::Thorough => Plan { cases: 96, secs: 300.0, threads: 8, case_cpu_s: 200 },
    }
}

const NAMES: &[&str] = &["new", "New", "NEW", "foo", "Foo", "fooBar", "foo_bar", "FOO_BAR", "f", "F", "x1", "Parser", "parser", "TreeBuilder", "tb", "été", "Été", "ΟΔΟΣ", "οδος", "σας", "straße", "Straße", "İx", "ñ", "Ñandu", "中文", "中", "文", "ﬃ", "ǅ", "_", "_a", "aé", "ẞ"];

fn name(rng: &mut Rng) -> String {
    match rng.below(6) {
        0..=3 => rng.pick(NAMES).to_string(),
        4 => format!("{}{}", rng.pick(NAMES), rng.pick(NAMES)),
        _ => format!("{}_{}", rng.pick(NAMES), rng.below(40)),
    }
}

fn item(rng: &mut Rng, out: &mut String, depth: usize) {
    let n = name(rng);
    let gap = *rng.pick(&["\n", "\n\n", " ", "\r\n", "\n// é☃ comment\n", "\n/* a\n b */ "]);
    let body = |rng: &mut Rng, out: &mut String| if depth < 3 { for _ in 0..rng.below(3) { item(rng, out, depth + 1) } };
    match rng.below(10) {
        0 | 1 => { out.push_str(&format!("fn {}() {{ ", n)); if rng.chance(1, 3) { body(rng, out) } out.push_str(" }") }
        2 => out.push_str(&format!("struct {};", n)),
        3 => out.push_str(&format!("pub struct {} {{\n  é: u32,\n}}", n)),
        4 => out.push_str(&format!("enum {} {{ A, B }}", n)),
        5 => { out.push_str(&format!("trait {} {{ ", n)); for _ in 0..rng.below(3) { let m = name(rng); out.push_str(&format!("fn {}(); ", m)) } out.push('}') }
        6 => out.push_str(&format!("type {} = u32;", n)),
        7 => { out.push_str(&format!("mod {} {{ ", n)); body(rng, out); out.push_str("}") }
        8 => { let m = name(rng); out.push_str(&format!("impl {} {{ fn {}() {{}} }}", n, m)) }
        _ => out.push_str(&format!("const {}: u32 = 1;", n)),
    }
    out.push_str(gap);
}

fn source(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => programs::valid(rng, Kind::Rust, 40),
        1 => texts::chunk(rng, Kind::Rust, 1500),
        2 => { let t = texts::text(rng, Kind::Rust, 800); if texts::too_hard(Kind::Rust, &t) { texts::tame(Kind::Rust, t) } else { t } }
        _ => {
            let mut s = if rng.chance(1, 4) { "\u{feff}".to_string() } else { String::new() };
            for _ in 0..rng.below(30) { item(rng, &mut s, 0) }
            s
        }
    }
}

struct Sym { path: PathBuf, name: String, ty: &'static str, s: usize, e: usize, lc: [(u32, u32); 2], lower: String }

pub fn lower(s: &str) -> String { s.chars().flat_map(char::to_lowercase).collect() }

fn symbols(path: &PathBuf, text: &str, out: &mut Vec<Sym>) {
    let file = Kind::Rust.lang().parse(text);
    let lc = |o: usize| -> (u32, u32) {
        let before = &text.as_bytes()[..o];
        let line = before.iter().filter(|&&b| b == b'\n').count();
        let col = text[before.iter().rposition(|&b| b == b'\n').map_or(0, |i| i + 1)..o].encode_utf16().count();
        (line as u32, col as u32)
    };
    let mut stack: Vec<Node> = vec![file.root()];
    while let Some(n) = stack.pop() {
        stack.extend(n.children());
        let ty = ty_name(&file, n);
        if !["FN_DEF", "STRUCT_DEF", "ENUM_DEF", "TYPE_DEF", "TRAIT_DEF", "MOD_DEF"].contains(&ty) { continue }
        if let Some(id) = n.children().find(|&k| ty_name(&file, k) == "IDENT") {
            let name = id.text().to_string();
            out.push(Sym { path: path.clone(), lower: lower(&name), name, ty, s: start(n), e: end(n), lc: [lc(start(n)), lc(end(n))] });
        }
    }
}

fn subsequence(q: &str, name: &str) -> bool {
    let mut it = name.chars();
    q.chars().all(|c| it.any(|d| d == c))
}

type Key = (PathBuf, String, u32, usize, usize, [(u32, u32); 2]);

fn ask(index: &SymbolIndex, q: &str) -> Vec<Key> {
    index.query(q).into_iter().map(|(p, s)| {
        let l = |i: usize| (s.lc_range[i].line, s.lc_range[i].col);
        (p, s.name.clone(), s.ty.0, us(s.range.start()), us(s.range.end()), [l(0), l(1)])
    }).collect()
}

fn case(c: &mut Case) -> Res {
    let dir = Dir::new("c19");
    let roots: Vec<PathBuf> = (0..c.rng.range(1, 3)).map(|i| dir.join(format!("root {}", i))).collect();
    let mut all: Vec<Sym> = Vec::new();
    let mut files = 0;
    let many = c.idx % 6 == 5;
    for (i, root) in roots.iter().enumerate() {
        std::fs::create_dir_all(root).unwrap();
        let mut write = |path: PathBuf, text: &str, indexed: bool| {
            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
            std::fs::write(&path, text).unwrap();
            if indexed { symbols(&path, text, &mut all); files += 1 }
        };
        for k in 0..c.rng.below(if many { 60 } else { 12 }) {
            let sub = *c.rng.pick(&["", "src", "a/b/c", "target.rs", "é"]);
            let text = source(&mut c.rng);
            write(root.join(sub).join(format!("f{}.rs", k)), &text, true);
        }
        let odd = source(&mut c.rng);
        for n in &["notes.txt", "x.rsx", "rs", "y.RS", "z.rs.bak", ".rs"] { if c.rng.chance(1, 2) { write(root.join(n), &odd, false) } }
        if c.rng.chance(1, 2) { write(root.join("two.words.rs"), &odd, true) }
        if c.rng.chance(1, 2) { write(root.join("empty.rs"), "", true) }
        if c.rng.chance(1, 2) { std::fs::write(root.join("binary.rs"), b"fn broken\xff() {}").unwrap() }
        write(root.join(format!("sentinel{}.rs", i)), &format!("struct Sentinel{}Zz;", i), true);
    }
    let ids = |n: &str| -> u32 { (0..2000u32).find(|&t| crate::ctx::catch(|| Kind::Rust.lang().node_type_info(fall_tree::NodeType(t)).name == n).unwrap_or(false)).unwrap_or(0) };
    let mut tys: HashMap<&'static str, u32> = HashMap::new();
    for n in &["FN_DEF", "STRUCT_DEF", "ENUM_DEF", "TYPE_DEF", "TRAIT_DEF", "MOD_DEF"] { tys.insert(n, ids(n)); }
    let index = SymbolIndex::new(roots.clone());
    // The index fills in the background.
    let from = Instant::now();
    let mut ready = false;
    while !ready && from.elapsed() < Duration::from_secs(40) {
        ready = (0..roots.len()).all(|i| !index.query(&format!("sentinel{}zz", i)).is_empty());
        if !ready { std::thread::sleep(Duration::from_millis(10)) }
    }
    let listing = || all.iter().map(|s| format!("{} {} {}", s.path.display(), s.ty, s.name)).take(200).collect::<Vec<_>>().join("\n");
    c.ensure(ready, "the index never finds its files", || format!("{} files under {:?}\n{}", files, roots, listing()))?;
    c.count("indexes", 1);
    c.count("files indexed", files);
    c.count("symbols indexed", all.len() as u64);
    let mut queries: Vec<String> = vec!["", "#", "##", "n", "N", "new", "#new", "σ", "#σ", "é", "İ", "i̇", "#ss", "ß", "zzzzzzzz", "#zzzzzzz", " ", "#e#t#é", "©", "中文", "#sentinel", "sentinel"].into_iter().map(String::from).collect();
    for _ in 0..if c.tier == Tier::Quick { 250 } else { 800 } {
        let base = if !all.is_empty() && c.rng.chance(3, 4) { let i = c.rng.below(all.len()); all[i].name.clone() } else { name(&mut c.rng) };
        let chars: Vec<char> = base.chars().collect();
        let mut q: String = match c.rng.below(5) {
            0 => base.clone(),
            1 => base.to_uppercase(),
            2 => chars.iter().rev().collect(),
            _ => chars.iter().filter(|_| c.rng.chance(1, 2)).collect(),
        };
        if c.rng.chance(1, 3) { let at = texts::boundary(&mut c.rng, &q); q.insert(at, '#') }
        queries.push(q);
    }
    for q in queries {
        let got = c.guard("query", &|| format!("{:?}\n{}", q, listing()), || ask(&index, &q))?;
        c.eval();
        let letters: String = q.chars().filter(|&ch| ch != '#').flat_map(char::to_lowercase).collect();
        let hits: Vec<&Sym> = all.iter().filter(|s| subsequence(&letters, &s.lower)).collect();
        let types: Vec<&Sym> = hits.iter().cloned().filter(|s| ["STRUCT_DEF", "ENUM_DEF", "TRAIT_DEF", "TYPE_DEF"].contains(&s.ty)).collect();
        let want = if q.contains('#') || types.is_empty() { hits } else { types };
        let mut left: HashMap<Key, i64> = HashMap::new();
        for s in &want { *left.entry((s.path.clone(), s.name.clone(), tys[s.ty], s.s, s.e, s.lc)).or_insert(0) += 1 }
        for k in &got {
            let e = left.entry(k.clone()).or_insert(0);
            *e -= 1;
            let again = got.iter().filter(|x| *x == k).count();
            c.ensure(*e >= 0, if again > 1 { "a symbol is reported twice" } else { "a result is no matching symbol of the files" }, || format!("query {:?} gave {:?}\n{}", q, k, listing()))?;
        }
        if want.len() <= 512 {
            let missing: Vec<_> = left.iter().filter(|x| *x.1 > 0).map(|x| x.0).take(4).collect();
            c.ensure(missing.is_empty(), "a matching symbol is not found", || format!("query {:?} does not give {:?}\n{} results of {}\n{}", q, missing, got.len(), want.len(), listing()))?;
        } else {
            c.ensure(got.len() >= 512, "fewer results than the limit", || format!("query {:?} gave {} of {}", q, got.len(), want.len()))?;
            c.count("queries over the limit", 1);
        }
        if !got.is_empty() { c.nontrivial(&format!("{} {}", c.idx, q)); }
        c.count(if got.is_empty() { "queries without results" } else { "queries with results" }, 1);
        c.max("most results", got.len() as u64);
        c.sample(|| format!("{:?}: {} results, e.g. {:?}", q, got.len(), got.first()));
    }
    Ok(())
}
