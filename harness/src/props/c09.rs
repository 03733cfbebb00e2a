use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use fall_editor::Severity;
use fall_tree::File;

use crate::ctx::{Abort, Case, Plan, Res, Tier};
use crate::gen::{edits, fallgen, fallsrc::{self, camel, Arity, Child, Grammar, Method}, grammars, texts};
use crate::model::peg::{self, Peg};
use crate::langs::Kind;
use crate::scratch::Dir;
use crate::tree::T;
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C09", plan, case, finish: None,
        rule: "random operator sets are written down as grammar texts (rules, parameters, contexts, attributes, pratt tables, tokens, typed views); the generator's output is compiled and run on random texts, and every tree and every accessor's answer is compared with a reference interpreter of the operators and a scan of the children; generation is repeated from fresh, queried, edited and re-spaced sources; damaged grammar texts must not stop the generator. Non-trivial: a text of at least 2 tokens whose tree has inner nodes; distinct by grammar and text.",
    }
}

const PER_CRATE: usize = 24;

fn plan(tier: Tier) -> Plan {
    match tier {
        Tier::Quick => Plan { cases: 16, secs: 45.0, threads: 8, case_cpu_s: 120 },
        Tier::Thorough => Plan { cases: 100_000, secs: 240.0, threads: 8, case_cpu_s: 240 },
    }
}

const DRIVER: &str = r#"
use fall_tree::{AstNode, File, Node};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Ids<'f> = HashMap<Node<'f>, usize>;

pub fn flatten<'f>(n: Node<'f>, depth: usize, out: &mut Vec<(Node<'f>, usize)>) {
    out.push((n, depth));
    for c in n.children() { flatten(c, depth + 1, out) }
}
pub fn us(t: fall_tree::TextUnit) -> usize { t.utf8_len() }
pub fn id(n: Node, ids: &Ids) -> String { match ids.get(&n) { Some(i) => i.to_string(), None => "a node of another tree".to_string() } }
pub fn view<'f, A: AstNode<'f> + std::fmt::Debug>(a: A, ids: &Ids<'f>) -> String { let s = format!("{:?}", a); format!("{}:{}", id(a.node(), ids), s) }
pub fn answer(node: usize, view: &str, method: &str, f: impl FnOnce() -> String) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => println!("A {} {} {} {}", node, view, if method.is_empty() { "=" } else { method }, s),
        Err(_) => println!("A {} {} {} !", node, view, if method.is_empty() { "=" } else { method }),
    }
}
pub fn run(k: usize, lang: fn() -> &'static fall_tree::Language, texts: &[&str], consts: &[(fall_tree::NodeType, &str)], views: fn(Node<'_>, &Ids<'_>, usize)) {
    println!("G {}", k);
    let types = catch_unwind(AssertUnwindSafe(|| for (ty, name) in consts { let i = lang().node_type_info(*ty); println!("C {} {} {}", name, i.name, i.whitespace_like) }));
    if types.is_err() { println!("P"); return }
    for (t, text) in texts.iter().enumerate() {
        println!("T {}", t);
        let file: File = match catch_unwind(AssertUnwindSafe(|| lang().parse(*text))) { Ok(f) => f, Err(_) => { println!("P"); continue } };
        let mut nodes = Vec::new();
        flatten(file.root(), 0, &mut nodes);
        for (n, depth) in &nodes { println!("N {} {} {} {}", depth, file.language().node_type_info(n.ty()).name, us(n.range().start()), us(n.range().end())) }
        let ids: Ids = nodes.iter().enumerate().map(|(i, n)| (n.0, i)).collect();
        for (i, (n, _)) in nodes.iter().enumerate() { views(*n, &ids, i) }
    }
    println!("E");
}
"#;

/// Code that asks every view for everything.
fn glue(g: &Grammar, texts: &[String]) -> String {
    let mut s = String::new();
    s.push_str("    pub const TEXTS: &[&str] = &[");
    for t in texts { s.push_str(&format!("{:?}, ", t)) }
    s.push_str("];\n    pub const CONSTS: &[(fall_tree::NodeType, &str)] = &[(syntax::ERROR, \"ERROR\")");
    for (t, _) in &g.names { let c = g.const_name(*t); s.push_str(&format!(", (syntax::{}, {:?})", c, c)) }
    s.push_str("];\n    #[allow(unused_imports)] use fall_tree::AstNode;\n    #[allow(unused_variables)]\n    pub fn views<'f>(n: fall_tree::Node<'f>, ids: &crate::driver::Ids<'f>, i: usize) {\n        use crate::driver::*;\n");
    let ask = |m: &Method, receiver: &str| -> String {
        let call = format!("{}.{}()", receiver, m.name);
        match (&m.child, m.arity, m.text) {
            (Child::Token(_), Arity::One, true) => format!("format!(\"{{:?}}\", {}.to_cow())", call),
            (Child::Token(_), _, true) => format!("match {} {{ Some(t) => format!(\"{{:?}}\", t.to_cow()), None => \"-\".to_string() }}", call),
            (Child::Token(_), Arity::One, _) => format!("id({}, ids)", call),
            (Child::Token(_), _, _) => format!("match {} {{ Some(t) => id(t, ids), None => \"-\".to_string() }}", call),
            (c, arity, _) => {
                let ty = match c { Child::Node(n) | Child::Class(n) => camel(n), _ => unreachable!() };
                match arity {
                    Arity::One => format!("{{ let v: syntax::{} = {}; view(v, ids) }}", ty, call),
                    Arity::Opt => format!("{{ let v: Option<syntax::{}> = {}; match v {{ Some(v) => view(v, ids), None => \"-\".to_string() }} }}", ty, call),
                    Arity::Many => format!("{{ let v: Vec<syntax::{}> = {}.collect(); format!(\"[{{}}]\", v.into_iter().map(|x| view(x, ids)).collect::<Vec<_>>().join(\", \")) }}", ty, call),
                }
            }
        }
    };
    for n in &g.nodes {
        let view = camel(&n.name);
        s.push_str(&format!("        if let Some(x) = syntax::{}::wrap(n) {{\n            answer(i, {:?}, \"\", || view(x, ids));\n", view, view));
        for m in &n.methods { s.push_str(&format!("            answer(i, {:?}, {:?}, || {});\n", view, m.name, ask(m, "x"))) }
        for t in &n.traits {
            let tr = camel(&g.traits[*t].name);
            s.push_str(&format!("            {{ fn is<'a, X: syntax::{}<'a>>(_: &X) {{}} is(&x); }}\n", tr));
            for m in &g.traits[*t].methods {
                let m2 = Method { name: format!("{}(&x", m.name), ..m.clone() };
                let text = ask(&m2, "RECEIVER").replace("RECEIVER.", &format!("syntax::{}::", tr)).replace("(&x()", "(&x)");
                s.push_str(&format!("            answer(i, {:?}, {:?}, || {});\n", view, format!("{}.{}", tr, m.name), text));
            }
        }
        s.push_str("        }\n");
    }
    for c in &g.classes {
        let view = camel(&c.name);
        s.push_str(&format!("        if let Some(x) = syntax::{}::wrap(n) {{ answer(i, {:?}, \"\", || view(x, ids)); }}\n", view, view));
    }
    s.push_str("    }\n");
    s
}

fn rlib(name: &str) -> Option<PathBuf> {
    if let Some(p) = std::env::var_os(format!("HARNESS_{}", name.to_uppercase())) { return Some(PathBuf::from(p)); }
    let deps = std::env::current_exe().ok()?.parent()?.join("deps");
    let mut best: Option<(std::time::SystemTime, PathBuf)> = None;
    for e in std::fs::read_dir(deps).ok()? {
        let e = e.ok()?;
        let f = e.file_name().to_string_lossy().to_string();
        if f.starts_with(&format!("lib{}-", name)) && f.ends_with(".rlib") {
            let t = e.metadata().ok()?.modified().ok()?;
            if best.as_ref().map_or(true, |b| b.0 < t) { best = Some((t, e.path())) }
        }
    }
    best.map(|b| b.1)
}

/// Runs a command, giving up after a while; the thread keeps accounting some CPU time meanwhile.
fn run(cmd: &mut Command, out: &Path, limit_s: u64) -> Result<(bool, String), String> {
    let file = std::fs::File::create(out).map_err(|e| e.to_string())?;
    let err = std::fs::File::create(out.with_extension("err")).map_err(|e| e.to_string())?;
    let mut child = cmd.stdin(Stdio::null()).stdout(file).stderr(err).spawn().map_err(|e| e.to_string())?;
    let start = std::time::Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? { break s }
        if start.elapsed().as_secs() > limit_s { let _ = child.kill(); let _ = child.wait(); return Err("no answer in time".to_string()); }
        std::thread::sleep(std::time::Duration::from_millis(2));
    };
    let text = String::from_utf8_lossy(&std::fs::read(out).map_err(|e| e.to_string())?).to_string();
    if status.success() { Ok((true, text)) } else { Ok((false, format!("{}\n{}", status, String::from_utf8_lossy(&std::fs::read(out.with_extension("err")).unwrap_or_default())))) }
}

fn generate(file: File) -> Result<String, String> {
    let a = lang_fall::FileWithAnalysis::try_from(file).map_err(|_| "not a grammar file".to_string())?;
    a.analyse(|a| fall_gen::generate(a)).map_err(|e| e.to_string())
}

/// The same tokens with other blanks and comments between them.
fn respaced(c: &mut Case, source: &str) -> String {
    let file = lang_fall::parse(source);
    let mut out = String::new();
    fn leaves(n: fall_tree::Node, out: &mut Vec<(bool, String)>) {
        if n.children().next().is_none() {
            let ty = n.ty();
            out.push((ty == lang_fall::syntax::WHITESPACE || ty == lang_fall::syntax::EOL_COMMENT, n.text().to_string()));
        }
        for ch in n.children() { leaves(ch, out) }
    }
    let mut all = Vec::new();
    leaves(file.root(), &mut all);
    for (skip, text) in all {
        if skip { continue }
        out.push_str(&text);
        out.push_str(*c.rng.pick(&[" ", " ", "\n", "  ", " // x | y\n", "\t"]));
    }
    out
}

fn case(c: &mut Case) -> Res {
    damaged(c)?;
    let mut batch: Vec<(Grammar, String, Vec<String>)> = Vec::new();
    let mut tries = 0;
    while batch.len() < PER_CRATE {
        tries += 1;
        if tries > 400 { c.inconclusive("harness: too few grammars can be written down".to_string()); return Ok(()); }
        let cached = c.rng.chance(1, 3);
        let (rules, top) = grammars::grammar_and_rules(&mut c.rng, grammars::Options { cached, ..grammars::Options::ALL });
        let g = match fallsrc::write(&mut c.rng, rules, top) { Some(g) => g, None => { c.count("operator sets without a textual form", 1); continue } };
        let code = match check_generation(c, &g)? { Some(code) => code, None => continue };
        let mut texts = Vec::new();
        for _ in 0..30 {
            let mut t = grammars::text(&mut c.rng, &g.rules);
            if c.rng.chance(1, 3) { t = t.replace("kw", "zz") }
            let raw = g.raw_tokens(&t);
            let types = grammars::tys();
            if Peg::new(&g.rules, &types, &t, &raw, 20_000).parse_file().is_ok() { texts.push(t) } else { c.count("texts skipped: too much backtracking", 1) }
        }
        batch.push((g, code, texts));
    }
    let dir = Dir::new("gen");
    let mut main = String::from("#![allow(warnings)]\nextern crate fall_tree;\nextern crate fall_parse;\nmod driver;\n");
    for (k, (g, code, texts)) in batch.iter().enumerate() {
        std::fs::create_dir_all(dir.join(format!("g{}", k))).unwrap();
        std::fs::write(dir.join(format!("g{}/syntax.rs", k)), code).unwrap();
        main.push_str(&format!("mod g{} {{\n    pub mod syntax;\n{}}}\n", k, glue(g, texts)));
    }
    main.push_str("fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n");
    for k in 0..batch.len() { main.push_str(&format!("    driver::run({}, g{}::syntax::language, g{}::TEXTS, g{}::CONSTS, g{}::views);\n", k, k, k, k, k)) }
    main.push_str("}\n");
    std::fs::write(dir.join("main.rs"), &main).unwrap();
    std::fs::write(dir.join("driver.rs"), DRIVER).unwrap();
    let (tree, parse) = match (rlib("fall_tree"), rlib("fall_parse")) { (Some(t), Some(p)) => (t, p), _ => { c.inconclusive("harness: compiled runtime not found".to_string()); return Ok(()) } };
    let sources = || batch.iter().map(|b| b.0.source.clone()).collect::<Vec<_>>().join("\n--- next grammar ---\n");
    c.input(&sources());
    let rustc = std::env::var_os("RUSTC").unwrap_or_else(|| "rustc".into());
    let compile = |main: &Path, exe: &Path| {
        let mut cmd = Command::new(&rustc);
        cmd.arg("--edition").arg(if c.idx % 2 == 0 { "2018" } else { "2015" }).arg("--crate-type").arg("bin").arg("-o").arg(exe).arg(main)
            .arg("-C").arg("debuginfo=0").arg("-C").arg("codegen-units=4").arg("-L").arg(format!("dependency={}", parse.parent().unwrap().display()))
            .arg("--extern").arg(format!("fall_tree={}", tree.display())).arg("--extern").arg(format!("fall_parse={}", parse.display()));
        if c.idx % 2 == 1 { cmd.arg("--cfg").arg("edition_2015"); }
        cmd
    };
    let started = std::time::Instant::now();
    let exe = dir.join("driver");
    let (ok, log) = match run(&mut compile(&dir.join("main.rs"), &exe), &dir.join("rustc.out"), 300) { Ok(r) => r, Err(e) => { c.inconclusive(format!("harness: compiler: {}", e)); return Ok(()) } };
    c.max("compile ms", started.elapsed().as_millis() as u64);
    if !ok {
        // whose module is it?
        let at = (0..batch.len()).find(|k| log.contains(&format!("g{}/syntax.rs", k)));
        let k = match at { Some(k) => k, None => {
            // an accessor that is missing or has another type shows in the code that calls it
            let line = log.lines().find(|l| l.contains("--> ") && l.contains("main.rs:")).and_then(|l| l.split("main.rs:").nth(1)).and_then(|l| l.split(':').next()).and_then(|l| l.parse::<usize>().ok());
            match line.and_then(|line| { let upto = main.lines().take(line).collect::<Vec<_>>().join("\n"); (0..batch.len()).rev().find(|k| upto.contains(&format!("mod g{} {{", k))) }) {
                Some(k) if log.contains("syntax::") || log.contains("no method") || log.contains("mismatched types") => k,
                _ => { c.inconclusive(format!("harness: the driver does not compile\n{}", crate::ctx::clip(&log, 3000))); return Ok(()) }
            }
        } };
        c.violation("generated code does not compile", format!("{}\n--- grammar ---\n{}", crate::ctx::clip(&log, 4000), batch[k].0.source));
        return Ok(());
    }
    c.count("crates of generated parsers", 1);
    let (ok, out) = match run(Command::new(&exe).current_dir(&dir.path), &dir.join("run.out"), 120) { Ok(r) => r, Err(e) => { c.violation("generated parsers do not end", format!("{}\n{}", e, sources())); return Ok(()) } };
    if !ok { c.violation("generated parsers die", format!("{}\n{}", out, sources())); return Ok(()); }
    compare(c, &batch, &out)
}

fn check_generation(c: &mut Case, g: &Grammar) -> Result<Option<String>, Abort> {
    let source = g.source.clone();
    c.input(&source);
    c.count("grammars", 1);
    let input = || source.clone();
    let errors: Vec<String> = c.guard("analysis", &input, || {
        let a = lang_fall::analyse(source.as_str());
        a.analyse(|a| a.collect_all_diagnostics().into_iter().filter(|d| match d.severity { Severity::Error => true, _ => false }).map(|d| format!("{:?}", d)).collect())
    })?;
    if !errors.is_empty() { c.violation("a correct grammar is called wrong", format!("{:?}\n--- grammar ---\n{}", errors, source)); return Err(Abort); }
    let file = lang_fall::parse(source.as_str());
    let code = match c.guard("generate", &input, || generate(file))? {
        Ok(code) => code,
        Err(e) => { c.violation("a grammar without errors is not compiled", format!("{}\n--- grammar ---\n{}", e, source)); return Err(Abort) }
    };
    for f in &g.features { c.count(&format!("grammars with {}", f), 1) }
    // the same text, another history
    let again = match c.rng.below(4) {
        0 => c.guard("generate", &input, || generate(lang_fall::parse(source.as_str())))?,
        1 => c.guard("generate", &input, || lang_fall::analyse(source.as_str()).analyse(|a| { a.collect_all_diagnostics(); fall_gen::generate(a).map_err(|e| e.to_string()) }))?,
        2 => c.guard("generate", &input, || lang_fall::analyse(source.as_str()).analyse(|a| { let first = fall_gen::generate(a).map_err(|e| e.to_string()); let second = fall_gen::generate(a).map_err(|e| e.to_string()); if first == second { second } else { Err("two runs over one analysis differ".to_string()) } }))?,
        _ => {
            let (a, b) = texts::span(&mut c.rng, &source, 200);
            let junk = texts::text(&mut c.rng, Kind::Fall, 100);
            let before = format!("{}{}{}", &source[..a], junk, &source[b..]);
            let edit = edits::build(&before, &[edits::Op { start: a, end: a + junk.len(), insert: source[a..b].to_string() }]);
            c.guard("generate", &input, || generate(lang_fall::parse(before.as_str()).edit(&edit)))?
        }
    };
    c.count("repeated generations", 1);
    c.ensure(again.as_ref() == Ok(&code), "generation is not a function of the text", || format!("{}\n--- grammar ---\n{}", diff(&code, &again.clone().unwrap_or_else(|e| e)), source))?;
    let spaced = respaced(c, &source);
    let other = c.guard("generate", &|| spaced.clone(), || generate(lang_fall::parse(spaced.as_str())))?;
    c.ensure(other.as_ref() == Ok(&code), "blanks and comments change what is generated", || format!("{}\n--- grammar ---\n{}\n--- other blanks ---\n{}", diff(&code, &other.clone().unwrap_or_else(|e| e)), source, spaced))?;
    c.eval();
    Ok(Some(code))
}

fn diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) { if x != y { return format!("- {}\n+ {}", crate::ctx::clip(x, 1500), crate::ctx::clip(y, 1500)); } }
    format!("{} vs {} lines: {}", a.lines().count(), b.lines().count(), crate::ctx::clip(b, 300))
}

/// Grammar texts with mistakes: an answer, whatever it is.
fn damaged(c: &mut Case) -> Res {
    for _ in 0..150 {
        let style = c.rng.below(3);
        let text = match style {
            0 => fallgen::text(&mut c.rng, 6),
            1 => texts::text(&mut c.rng, Kind::Fall, 600),
            _ => {
                let (rules, top) = grammars::grammar_and_rules(&mut c.rng, grammars::Options::ALL);
                match fallsrc::write(&mut c.rng, rules, top) {
                    Some(g) => {
                        let s = if c.rng.chance(1, 2) { texts::mutate(&mut c.rng, Kind::Fall, &g.source) } else { slip(c, &g.source) };
                        s
                    }
                    None => continue,
                }
            }
        };
        c.input(&text);
        let r = c.guard("generate", &|| text.clone(), || generate(lang_fall::parse(text.as_str())));
        match r { Ok(Ok(_)) => c.count("damaged grammars compiled", 1), Ok(Err(_)) => c.count("damaged grammars refused", 1), Err(_) => return Ok(()) }
    }
    Ok(())
}

/// One leaf of a correct grammar is replaced, doubled or dropped.
fn slip(c: &mut Case, source: &str) -> String {
    let words: Vec<&str> = source.split(' ').collect();
    let at = c.rng.below(words.len());
    let other = c.rng.below(words.len());
    let mut out: Vec<String> = words.iter().map(|w| w.to_string()).collect();
    match c.rng.below(4) {
        0 => { out.remove(at); }
        1 => { let w = out[at].clone(); out.insert(at, w) }
        2 => { out.swap(at, other) }
        _ => { let v = (*c.rng.pick(&["<commit>", "<commit>?", "< commit >", "<not <commit>>", "pub", "#[replaces]", "#[type(zzz)]", "#[pratt]", "#[cached]", "<prev_is word>", "x word*", "y 'a'*", "node _a {}", "node a__b {}", "rule é {}", "<enter 'a' b c>", "<is_in>", "{}"])).to_string(); out.insert(at, v) }
    }
    out.join(" ")
}

struct Seen { tree: Option<T>, answers: BTreeMap<(usize, String, String), String>, panicked: bool }

fn compare(c: &mut Case, batch: &[(Grammar, String, Vec<String>)], out: &str) -> Res {
    let mut seen: Vec<Vec<Seen>> = (0..batch.len()).map(|_| Vec::new()).collect();
    let mut k = 0;
    let mut flat: Vec<(usize, u32, usize, usize)> = Vec::new();
    fn build(flat: &[(usize, u32, usize, usize)], at: &mut usize) -> T {
        let (depth, ty, start, end) = flat[*at];
        *at += 1;
        let mut ch = Vec::new();
        while *at < flat.len() && flat[*at].0 == depth + 1 { ch.push(build(flat, at)) }
        T { ty, start, end, ch }
    }
    fn close(flat: &mut Vec<(usize, u32, usize, usize)>, seen: &mut Vec<Seen>) {
        if flat.is_empty() { return }
        let t = build(flat, &mut 0);
        seen.last_mut().unwrap().tree = Some(t);
        flat.clear();
    }
    for line in out.lines() {
        let mut w = line.split(' ');
        match w.next().unwrap_or("") {
            "G" => { close(&mut flat, &mut seen[k]); k = w.next().unwrap().parse().unwrap() }
            "T" => { close(&mut flat, &mut seen[k]); seen[k].push(Seen { tree: None, answers: BTreeMap::new(), panicked: false }) }
            "P" => match seen[k].last_mut() {
                Some(s) => s.panicked = true,
                None => { c.violation("a generated language does not start", batch[k].0.source.clone()); return Ok(()) }
            },
            "C" => {
                let (konst, name, ws) = (w.next().unwrap(), w.next().unwrap(), w.next().unwrap());
                let skip = konst == "WS" || konst == "COMMENT";
                c.ensure(konst == name && ws == if skip { "true" } else { "false" }, "a node type is described wrongly", || format!("{}: {} {}\n--- grammar ---\n{}", konst, name, ws, batch[k].0.source))?;
            }
            "N" => {
                let depth = w.next().unwrap().parse().unwrap();
                let name = w.next().unwrap();
                let g = &batch[k].0;
                let ty = if name == "ERROR" { 0 } else { g.names.iter().find(|n| n.1.to_ascii_uppercase() == name).map_or(9999, |n| *n.0) };
                flat.push((depth, ty, w.next().unwrap().parse().unwrap(), w.next().unwrap().parse().unwrap()));
            }
            "A" => {
                close(&mut flat, &mut seen[k]);
                let mut w = line.splitn(5, ' ').skip(1);
                let key = (w.next().unwrap().parse().unwrap(), w.next().unwrap().to_string(), w.next().unwrap().replace('=', ""));
                seen[k].last_mut().unwrap().answers.insert(key, w.next().unwrap_or("").to_string());
            }
            "E" => close(&mut flat, &mut seen[k]),
            _ => { c.inconclusive(format!("harness: driver says {:?}", line)); return Ok(()) }
        }
    }
    let types = grammars::tys();
    for (k, (g, code, texts)) in batch.iter().enumerate() {
        for (t, text) in texts.iter().enumerate() {
            let raw = g.raw_tokens(text);
            let mut model = Peg::new(&g.rules, &types, text, &raw, 20_000);
            let expected = match model.parse_file() { Ok(e) => peg::to_tree_bound(&e, &raw, text, text.len(), &|ty, run, leading| g.bind(ty, run, leading)), Err(_) => continue };
            let input = || format!("--- grammar ---\n{}\n--- text ---\n{}", g.source, text);
            let s = match seen[k].get(t) { Some(s) => s, None => { c.inconclusive("harness: the driver stopped early".to_string()); return Ok(()) } };
            c.eval();
            c.ensure(!s.panicked, "a generated parser panics", &input)?;
            let actual = match &s.tree { Some(t) => t, None => { c.inconclusive("harness: no tree from the driver".to_string()); return Ok(()) } };
            let name = |ty: u32| if ty == 9999 { "?".to_string() } else { g.const_name(ty) };
            if *actual != expected {
                let d = actual.diff(&expected, &name).unwrap_or_default();
                c.violation("a generated parser does something else than the grammar says", format!("{}\n--- difference (parser vs grammar) ---\n{}\n--- parser ---\n{}--- grammar ---\n{}--- operators ---\n{}\n--- generated ---\n{}", input(), d, actual.dump(&name, text), expected.dump(&name, text), grammars::show(&g.rules), code.lines().find(|l| l.contains("parser_json =")).unwrap_or("")));
                return Ok(());
            }
            if g.has_ast {
                let want = g.answers(&expected, text);
                for (key, w) in &want {
                    let got = s.answers.get(key);
                    c.count("accessor answers", 1);
                    match w {
                        Some(w) => c.ensure(got == Some(w), "an accessor answers something else", || format!("node {} as {}, {}: {:?}, expected {:?}\n{}\n--- tree ---\n{}", key.0, key.1, if key.2.is_empty() { "itself" } else { &key.2 }, got, w, input(), expected.dump(&name, text)))?,
                        None => c.count("accessors whose child is missing", 1),
                    }
                }
                for (key, got) in &s.answers {
                    c.ensure(want.contains_key(key), "a view accepts a foreign node", || format!("node {} as {}: {:?}\n{}\n--- tree ---\n{}", key.0, key.1, got, input(), expected.dump(&name, text)))?;
                }
            }
            for (op, n) in model.seen.iter() { c.count(&format!("operator: {}", op), *n) }
            if raw.len() >= 2 && expected.ch.iter().any(|x| !x.ch.is_empty()) { c.nontrivial(&input()) }
        }
        c.sample(|| g.source.clone());
    }
    Ok(())
}
