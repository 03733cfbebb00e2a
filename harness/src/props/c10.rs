use fall_tree::search::{self, Direction, LeafAtOffset};
use fall_tree::visitor::{process_node, process_subtree_bottom_up, visitor};
use fall_tree::{tu, AstChildren, AstNode, File, Node, NodeType, Text};

use crate::ctx::{Abort, Case, Plan, Res, Tier};
use crate::gen::edits::range;
use crate::gen::{grammars, texts};
use crate::langs::{ty_name, Kind, KINDS};
use crate::tree::{end, start};
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C10", plan, case, finish: None,
        rule: "trees of random texts of the shipped languages and of random grammars; leaves at every offset, covering nodes of random ranges, siblings, ancestors, subtrees, traversals, visitors and typed accessors are compared with scans over a plain list of all nodes. Non-trivial: a tree of at least 10 nodes; distinct by text.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 20_000, 18.0, 60) }

/// All nodes in pre-order with their depth and the index of the parent, by walking children only.
struct All<'f> { nodes: Vec<Node<'f>>, parent: Vec<usize>, kids: Vec<Vec<usize>> }

impl<'f> All<'f> {
    fn of(file: &'f File) -> All<'f> {
        let mut a = All { nodes: vec![file.root()], parent: vec![usize::max_value()], kids: vec![vec![]] };
        fn go<'f>(a: &mut All<'f>, i: usize) {
            let ch: Vec<Node<'f>> = a.nodes[i].children().collect();
            for c in ch {
                let k = a.nodes.len();
                a.nodes.push(c);
                a.parent.push(i);
                a.kids.push(vec![]);
                a.kids[i].push(k);
                go(a, k);
            }
        }
        go(&mut a, 0);
        a
    }
    fn under(&self, i: usize) -> std::ops::Range<usize> {
        // pre-order: a subtree is contiguous
        let mut e = i + 1;
        let mut last = i;
        while let Some(&k) = self.kids[last].last() { last = k; e = k + 1 }
        i..e.max(i + 1)
    }
    fn post(&self, i: usize) -> Vec<Node<'f>> {
        let mut out = Vec::new();
        fn go<'f>(a: &All<'f>, i: usize, out: &mut Vec<Node<'f>>) { for &k in &a.kids[i] { go(a, k, out) } out.push(a.nodes[i]) }
        go(self, i, &mut out);
        out
    }
    fn leaf(&self, i: usize) -> bool { self.kids[i].is_empty() && start(self.nodes[i]) < end(self.nodes[i]) }
    fn leaves_at(&self, i: usize, at: usize) -> Vec<Node<'f>> {
        self.under(i).filter(|&k| self.leaf(k) && start(self.nodes[k]) <= at && at <= end(self.nodes[k])).map(|k| self.nodes[k]).collect()
    }
}

fn list(l: LeafAtOffset) -> Vec<Node> {
    match l { LeafAtOffset::None => vec![], LeafAtOffset::Single(n) => vec![n], LeafAtOffset::Between(a, b) => vec![a, b] }
}

fn show(n: &Node) -> String { format!("{} {}..{}", ty_name(n.file(), *n), start(*n), end(*n)) }
fn shows(v: &[Node]) -> String { v.iter().map(show).collect::<Vec<_>>().join(", ") }

fn case(c: &mut Case) -> Res {
    if c.idx % 6 == 5 {
        let rules = grammars::grammar(&mut c.rng, grammars::Options::ALL);
        let lang = grammars::language(&rules);
        for _ in 0..4 {
            let text = grammars::text(&mut c.rng, &rules);
            let input = format!("{}\n--- text ---\n{}", grammars::show(&rules), text);
            c.input(&input);
            let file = c.guard("parse", &|| input.clone(), || lang.parse(text.as_str()))?;
            navigation(c, &file, &input)?;
        }
        return Ok(());
    }
    let kind: Kind = *c.rng.pick(&[Kind::Rust, Kind::Fall, Kind::Fall, Kind::Rust, KINDS[0], KINDS[1], KINDS[4], KINDS[5], KINDS[6]]);
    let text = texts::text(&mut c.rng, kind, if c.idx % 60 == 0 { 20_000 } else { 800 });
    let input = format!("{}\n--- text ---\n{}", kind.name(), text);
    c.input(&input);
    let file = c.guard("parse", &|| input.clone(), || kind.lang().parse(text.as_str()))?;
    navigation(c, &file, &input)?;
    typed(c, kind, &file, &input)
}

fn navigation(c: &mut Case, file: &File, input: &str) -> Res {
    let all = All::of(file);
    let n = all.nodes.len();
    let len = end(file.root());
    c.count("trees", 1);
    if n >= 10 { c.nontrivial(input) }
    c.sample(|| input.to_string());
    let sig = "navigation and a scan of the tree disagree";
    // leaves at offsets, from the root and from inner nodes
    let offsets: Vec<usize> = if len <= 120 { (0..=len).collect() } else { (0..80).map(|_| c.rng.below(len + 1)).collect() };
    for at in offsets {
        let i = if c.rng.chance(2, 3) { 0 } else { c.rng.below(n) };
        let (s, e) = (start(all.nodes[i]), end(all.nodes[i]));
        let at = if i == 0 { at } else { s + c.rng.below(e - s + 1) };
        let want = all.leaves_at(i, at);
        let got = c.guard("find_leaf_at_offset", &|| format!("offset {} in {}\n{}", at, show(&all.nodes[i]), input), || {
            let l = search::find_leaf_at_offset(all.nodes[i], tu(at as u32));
            (list(l), l.collect::<Vec<_>>(), l.left_biased(), l.right_biased())
        })?;
        c.eval();
        c.count(match want.len() { 0 => "offsets without a leaf", 1 => "offsets inside of a leaf", _ => "offsets between leaves" }, 1);
        c.ensure(got.0 == want && got.1 == want && got.2 == want.first().cloned() && got.3 == want.last().cloned(), sig,
            || format!("leaves at {} in {}: [{}], by a scan [{}]\n{}", at, show(&all.nodes[i]), shows(&got.0), shows(&want), input))?;
    }
    // covering nodes
    for _ in 0..25 {
        let i = if c.rng.chance(3, 4) { 0 } else { c.rng.below(n) };
        let (s, e) = (start(all.nodes[i]), end(all.nodes[i]));
        let a = s + c.rng.below(e - s + 1);
        let b = if c.rng.chance(1, 3) { e.min(a + c.rng.below(8)) } else { a + c.rng.below(e - a + 1) };
        // the smallest node that contains the tokens at both ends of the range
        let want = match (all.leaves_at(i, a).last(), all.leaves_at(i, b).first()) {
            (Some(l), Some(r)) => {
                let (lo, hi) = (start(*l).min(start(*r)), end(*l).max(end(*r)));
                all.under(i).filter(|&k| start(all.nodes[k]) <= lo && hi <= end(all.nodes[k])).last().map(|k| all.nodes[k]).unwrap()
            }
            _ => all.nodes[i],
        };
        let got = c.guard("find_covering_node", &|| format!("{}..{} in {}\n{}", a, b, show(&all.nodes[i]), input), || search::find_covering_node(all.nodes[i], range(a, b)))?;
        c.eval();
        c.count("covering nodes", 1);
        // nodes of equal extent: the innermost non-empty one
        c.ensure(got == want, sig, || format!("covering node of {}..{} in {}: {}, by a scan {}\n{}", a, b, show(&all.nodes[i]), show(&got), show(&want), input))?;
    }
    // neighbourhood of random nodes
    for _ in 0..40 {
        let i = c.rng.below(n);
        let node = all.nodes[i];
        let ctx = || format!("node {}\n{}", show(&node), input);
        let p = all.parent[i];
        let (left, right) = if p == usize::max_value() { (None, None) } else {
            let k = all.kids[p].iter().position(|&x| x == i).unwrap();
            (if k > 0 { Some(all.nodes[all.kids[p][k - 1]]) } else { None }, all.kids[p].get(k + 1).map(|&x| all.nodes[x]))
        };
        let ty = all.nodes[c.rng.below(n)].ty();
        let ty2 = all.nodes[c.rng.below(n)].ty();
        let r = c.guard("navigation", &ctx, || {
            let mut up = Vec::new();
            search::traversal::bottom_up(node, |x| up.push(x));
            let both: Vec<(u8, Node)> = process_subtree_bottom_up(node, visitor(Vec::new())
                .visit_nodes(&[ty], |x, acc: &mut Vec<(u8, Node)>| acc.push((0, x)))
                .visit_nodes(&[ty2, ty], |x, acc| acc.push((1, x))));
            let one: Vec<Node> = process_node(node, visitor(Vec::new()).visit_nodes(&[ty], |x, acc: &mut Vec<Node>| acc.push(x)));
            (search::sibling(node, Direction::Left), search::sibling(node, Direction::Right),
             search::ancestors(node).collect::<Vec<_>>(), search::subtree(node).collect::<Vec<_>>(),
             search::descendants_of_type(node, ty), search::children_of_type(node, ty).collect::<Vec<_>>(),
             search::child_of_type(node, ty), search::is_leaf(node), up, both, one)
        })?;
        let mut anc = vec![node];
        let mut k = i;
        while all.parent[k] != usize::max_value() { k = all.parent[k]; anc.push(all.nodes[k]) }
        let post = all.post(i);
        let kids: Vec<Node> = all.kids[i].iter().map(|&k| all.nodes[k]).filter(|x| x.ty() == ty).collect();
        let mut both = Vec::new();
        for &x in &post { if x.ty() == ty { both.push((0, x)) } if x.ty() == ty || x.ty() == ty2 { both.push((1, x)) } }
        c.eval();
        c.count("neighbourhoods", 1);
        let typed: Vec<Node> = post.iter().cloned().filter(|x| x.ty() == ty).collect();
        let checks = [
            ("left sibling", r.0 == left), ("right sibling", r.1 == right), ("ancestors", r.2 == anc), ("subtree", r.3 == post),
            ("descendants of a type", r.4 == typed), ("children of a type", r.5 == kids), ("child of a type", r.6 == kids.first().cloned()),
            ("leaf test", r.7 == all.leaf(i)), ("bottom-up traversal", r.8 == post), ("visitor", r.9 == both),
            ("single node visitor", r.10 == if node.ty() == ty { vec![node] } else { vec![] }),
        ];
        for (what, ok) in checks.iter() { c.ensure(*ok, sig, || format!("{} of {}\n{}", what, show(&node), input))?; }
        if kids.len() == 1 {
            let got = c.guard("child_of_type_exn", &ctx, || search::child_of_type_exn(node, ty))?;
            c.ensure(got == kids[0], sig, || format!("child of type of {}\n{}", show(&node), input))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- typed views

#[derive(PartialEq, Debug)]
enum Got<'f> { Nodes(Vec<Node<'f>>), Texts(Vec<String>), Flag(bool) }

fn one<'f>(n: impl Into<Option<Node<'f>>>) -> Got<'f> { Got::Nodes(n.into().into_iter().collect()) }
fn ast<'f, A: AstNode<'f>>(a: A) -> Got<'f> { Got::Nodes(vec![a.node()]) }
fn oast<'f, A: AstNode<'f>>(a: Option<A>) -> Got<'f> { Got::Nodes(a.into_iter().map(|a| a.node()).collect()) }
fn onode<'f>(a: Option<Node<'f>>) -> Got<'f> { Got::Nodes(a.into_iter().collect()) }
fn many<'f, A: AstNode<'f>>(a: AstChildren<'f, A>) -> Got<'f> { Got::Nodes(a.map(|a| a.node()).collect()) }
fn text<'f>(a: impl Into<Option<Text<'f>>>) -> Got<'f> { Got::Texts(a.into().into_iter().map(|a| a.to_string()).collect()) }
fn otext<'f>(a: Option<Text<'f>>) -> Got<'f> { Got::Texts(a.into_iter().map(|a| a.to_string()).collect()) }
fn texts_<'f>(a: Vec<Text<'f>>) -> Got<'f> { Got::Texts(a.into_iter().map(|a| a.to_string()).collect()) }

struct Checker<'c> { c: &'c mut Case, input: &'c str }

impl<'c> Checker<'c> {
    fn kids<'f>(&self, node: Node<'f>, tys: &[&str]) -> Vec<Node<'f>> {
        node.children().filter(|k| tys.contains(&ty_name(node.file(), *k))).collect()
    }
    fn compare<'f>(&mut self, what: &str, node: Node<'f>, want: Got<'f>, f: impl FnOnce() -> Got<'f>) -> Res {
        let input = self.input;
        let got = self.c.guard(what, &|| format!("{} of {}\n{}", what, show(&node), input), f)?;
        self.c.eval();
        self.c.count(&format!("accessor {}", what), 1);
        self.c.ensure(got == want, "a typed accessor and a scan of the children disagree", || format!("{} of {}: {:?}, by a scan {:?}\n{}", what, show(&node), got, want, input))
    }
    /// `x` and `x?` selectors: the first child; required ones are only asked when there is one.
    fn first<'f>(&mut self, what: &str, node: Node<'f>, tys: &[&str], required: bool, as_text: bool, f: impl FnOnce() -> Got<'f>) -> Res {
        let k: Vec<Node> = self.kids(node, tys).into_iter().take(1).collect();
        if required && k.is_empty() { return Ok(()); }
        let want = if as_text { Got::Texts(k.iter().map(|n| n.text().to_string()).collect()) } else { Got::Nodes(k) };
        self.compare(what, node, want, f)
    }
    fn all<'f>(&mut self, what: &str, node: Node<'f>, tys: &[&str], f: impl FnOnce() -> Got<'f>) -> Res {
        let k = self.kids(node, tys);
        self.compare(what, node, Got::Nodes(k), f)
    }
    fn wrap<'f, A: AstNode<'f>>(&mut self, name: &str, tys: &[&str], node: Node<'f>) -> Result<Option<A>, Abort> {
        let input = self.input;
        let got = self.c.guard(name, &|| format!("{} of {}\n{}", name, show(&node), input), || A::wrap(node).map(|a| (a, a.node())))?;
        let fits = tys.contains(&ty_name(node.file(), node));
        let ok = match got { Some((_, n)) => fits && n == node, None => !fits };
        self.c.ensure(ok, "a typed view wraps the wrong nodes", || format!("{} wraps {}: {}\n{}", name, show(&node), got.is_some(), input))?;
        Ok(got.map(|g| g.0))
    }
}

const EXPR: &[&str] = &["REF_EXPR", "CALL_EXPR", "BLOCK_EXPR", "OPT_EXPR", "REP_EXPR", "SEQ_EXPR"];

fn fall_node<'f>(k: &mut Checker, x: Node<'f>) -> Res {
    use lang_fall_syntax::*;
    if let Some(a) = k.wrap::<FallFile>("FallFile", &["FALL_FILE"], x)? {
        k.first("FallFile.tokenizer_def", x, &["TOKENIZER_DEF"], false, false, || oast(a.tokenizer_def()))?;
        k.all("FallFile.syn_rules", x, &["SYN_RULE"], || many(a.syn_rules()))?;
        k.first("FallFile.verbatim_def", x, &["VERBATIM_DEF"], false, false, || oast(a.verbatim_def()))?;
        k.first("FallFile.ast_def", x, &["AST_DEF"], false, false, || oast(a.ast_def()))?;
        k.all("FallFile.tests", x, &["TEST_DEF"], || many(a.tests()))?;
    }
    if let Some(a) = k.wrap::<TokenizerDef>("TokenizerDef", &["TOKENIZER_DEF"], x)? {
        k.all("TokenizerDef.lex_rules", x, &["LEX_RULE"], || many(a.lex_rules()))?;
    }
    if let Some(a) = k.wrap::<LexRule>("LexRule", &["LEX_RULE"], x)? {
        k.first("LexRule.attributes", x, &["ATTRIBUTES"], false, false, || oast(a.attributes()))?;
        k.first("LexRule.node_type", x, &["IDENT"], true, true, || text(a.node_type()))?;
        let skip = attribute(k, x, "skip");
        k.compare("LexRule.is_skip", x, Got::Flag(skip), || Got::Flag(a.is_skip()))?;
        let ctx = attribute(k, x, "contextual");
        k.compare("LexRule.is_contextual", x, Got::Flag(ctx), || Got::Flag(a.is_contextual()))?;
        let strings = k.kids(x, &["STRING"]);
        // the rule's spelling in grammars: its quoted text, or else its name
        if !k.kids(x, &["IDENT"]).is_empty() {
            let name = match strings.get(0) { Some(s) if s.text().to_string().starts_with('\'') => s.text().to_string(), _ => k.kids(x, &["IDENT"])[0].text().to_string() };
            k.compare("LexRule.token_name", x, Got::Texts(vec![name]), || text(a.token_name()))?;
        }
    }
    if let Some(a) = k.wrap::<SynRule>("SynRule", &["SYN_RULE"], x)? {
        k.first("SynRule.attributes", x, &["ATTRIBUTES"], false, false, || oast(a.attributes()))?;
        k.first("SynRule.name_ident", x, &["IDENT"], false, false, || onode(a.name_ident()))?;
        k.first("SynRule.name", x, &["IDENT"], false, true, || otext(a.name()))?;
        k.first("SynRule.body", x, EXPR, false, false, || oast(a.body()))?;
        k.first("SynRule.parameters", x, &["PARAMETERS"], false, false, || oast(a.parameters()))?;
        let is_pub = !k.kids(x, &["PUB"]).is_empty();
        k.compare("SynRule.is_pub", x, Got::Flag(is_pub), || Got::Flag(a.is_pub()))?;
        let w = attribute(k, x, "pratt"); k.compare("SynRule.is_pratt", x, Got::Flag(w), || Got::Flag(a.is_pratt()))?;
        let w = attribute(k, x, "replaceable"); k.compare("SynRule.is_replaceable", x, Got::Flag(w), || Got::Flag(a.is_replaceable()))?;
        let w = attribute(k, x, "replaces"); k.compare("SynRule.is_replaces", x, Got::Flag(w), || Got::Flag(a.is_replaces()))?;
        let w = attribute(k, x, "cached"); k.compare("SynRule.is_cached", x, Got::Flag(w), || Got::Flag(a.is_cached()))?;
    }
    if let Some(a) = k.wrap::<Parameters>("Parameters", &["PARAMETERS"], x)? { k.all("Parameters.parameters", x, &["PARAMETER"], || many(a.parameters()))?; }
    if let Some(a) = k.wrap::<Parameter>("Parameter", &["PARAMETER"], x)? { k.first("Parameter.name", x, &["IDENT"], true, true, || text(a.name()))?; }
    if let Some(a) = k.wrap::<Attributes>("Attributes", &["ATTRIBUTES"], x)? { k.all("Attributes.attributes", x, &["ATTRIBUTE"], || many(a.attributes()))?; }
    if let Some(a) = k.wrap::<Attribute>("Attribute", &["ATTRIBUTE"], x)? {
        k.first("Attribute.name", x, &["IDENT"], true, true, || text(a.name()))?;
        k.first("Attribute.value", x, &["ATTRIBUTE_VALUE"], false, false, || oast(a.value()))?;
    }
    k.wrap::<AttributeValue>("AttributeValue", &["ATTRIBUTE_VALUE"], x)?;
    if let Some(a) = k.wrap::<VerbatimDef>("VerbatimDef", &["VERBATIM_DEF"], x)? { k.first("VerbatimDef.literal_string", x, &["HASH_STRING"], false, true, || text(a.literal_string()))?; }
    if let Some(a) = k.wrap::<AstDef>("AstDef", &["AST_DEF"], x)? {
        k.all("AstDef.ast_nodes", x, &["AST_NODE_DEF"], || many(a.ast_nodes()))?;
        k.all("AstDef.ast_classes", x, &["AST_CLASS_DEF"], || many(a.ast_classes()))?;
        k.all("AstDef.ast_traits", x, &["AST_TRAIT_DEF"], || many(a.ast_traits()))?;
    }
    if let Some(a) = k.wrap::<AstNodeDef>("AstNodeDef", &["AST_NODE_DEF"], x)? {
        k.first("AstNodeDef.name_ident", x, &["IDENT"], false, false, || one(a.name_ident()))?;
        k.first("AstNodeDef.name", x, &["IDENT"], false, true, || text(a.name()))?;
        k.all("AstNodeDef.methods", x, &["METHOD_DEF"], || many(a.methods()))?;
    }
    if let Some(a) = k.wrap::<AstTraitDef>("AstTraitDef", &["AST_TRAIT_DEF"], x)? {
        k.first("AstTraitDef.name_ident", x, &["IDENT"], false, false, || one(a.name_ident()))?;
        k.first("AstTraitDef.name", x, &["IDENT"], false, true, || text(a.name()))?;
        k.all("AstTraitDef.methods", x, &["METHOD_DEF"], || many(a.methods()))?;
    }
    if let Some(a) = k.wrap::<AstClassDef>("AstClassDef", &["AST_CLASS_DEF"], x)? {
        k.first("AstClassDef.name_ident", x, &["IDENT"], false, false, || one(a.name_ident()))?;
        let ids: Vec<String> = k.kids(x, &["IDENT"]).iter().map(|n| n.text().to_string()).collect();
        if !ids.is_empty() {
            k.compare("AstClassDef.name", x, Got::Texts(ids[..1].to_vec()), || text(a.name()))?;
            k.compare("AstClassDef.variants", x, Got::Texts(ids[1..].to_vec()), || texts_(a.variants().collect()))?;
        }
    }
    if let Some(a) = k.wrap::<MethodDef>("MethodDef", &["METHOD_DEF"], x)? {
        k.first("MethodDef.name", x, &["IDENT"], true, true, || text(a.name()))?;
        k.first("MethodDef.selector", x, &["AST_SELECTOR"], true, false, || ast(a.selector()))?;
    }
    if let Some(a) = k.wrap::<AstSelector>("AstSelector", &["AST_SELECTOR"], x)? {
        k.first("AstSelector.child", x, &["IDENT"], true, true, || text(a.child()))?;
        k.first("AstSelector.optional", x, &["QUESTION"], false, false, || onode(a.optional()))?;
        k.first("AstSelector.many", x, &["STAR"], false, false, || onode(a.many()))?;
        k.first("AstSelector.dot", x, &["DOT"], false, false, || onode(a.dot()))?;
    }
    if let Some(a) = k.wrap::<TestDef>("TestDef", &["TEST_DEF"], x)? { k.first("TestDef.literal_string", x, &["HASH_STRING"], false, true, || otext(a.literal_string()))?; }
    k.wrap::<Expr>("Expr", EXPR, x)?;
    if let Some(a) = k.wrap::<RefExpr>("RefExpr", &["REF_EXPR"], x)? {
        let id = k.kids(x, &["IDENT"]);
        let s = k.kids(x, &["SIMPLE_STRING"]);
        if let Some(w) = id.first().or(s.first()) { k.compare("RefExpr.reference_name", x, Got::Texts(vec![w.text().to_string()]), || text(a.reference_name()))?; }
    }
    if let Some(a) = k.wrap::<CallExpr>("CallExpr", &["CALL_EXPR"], x)? {
        k.first("CallExpr.fn_name", x, &["IDENT"], true, true, || text(a.fn_name()))?;
        k.all("CallExpr.args", x, EXPR, || many(a.args()))?;
    }
    if let Some(a) = k.wrap::<BlockExpr>("BlockExpr", &["BLOCK_EXPR"], x)? { k.all("BlockExpr.alts", x, EXPR, || many(a.alts()))?; }
    if let Some(a) = k.wrap::<OptExpr>("OptExpr", &["OPT_EXPR"], x)? { k.first("OptExpr.expr", x, EXPR, true, false, || ast(a.expr()))?; }
    if let Some(a) = k.wrap::<RepExpr>("RepExpr", &["REP_EXPR"], x)? { k.first("RepExpr.expr", x, EXPR, true, false, || ast(a.expr()))?; }
    if let Some(a) = k.wrap::<SeqExpr>("SeqExpr", &["SEQ_EXPR"], x)? { k.all("SeqExpr.parts", x, EXPR, || many(a.parts()))?; }
    Ok(())
}

/// Is there an attribute of this name on the rule?
fn attribute(k: &Checker, x: Node, name: &str) -> bool {
    k.kids(x, &["ATTRIBUTES"]).first().map_or(false, |a| {
        k.kids(*a, &["ATTRIBUTE"]).iter().any(|b| k.kids(*b, &["IDENT"]).first().map_or(false, |i| i.text().to_string() == name))
    })
}

fn named<'f, A: lang_rust_syntax::NameOwner<'f>>(k: &mut Checker, what: &str, x: Node<'f>, a: Option<A>) -> Res {
    if let Some(a) = a {
        k.first(&format!("{}.name_ident", what), x, &["IDENT"], false, false, || onode(a.name_ident()))?;
        k.first(&format!("{}.name", what), x, &["IDENT"], false, true, || otext(a.name()))?;
    }
    Ok(())
}

fn rust_node<'f>(k: &mut Checker, x: Node<'f>) -> Res {
    use lang_rust_syntax::*;
    let a = k.wrap::<FnDef>("FnDef", &["FN_DEF"], x)?; named(k, "FnDef", x, a)?;
    let a = k.wrap::<TraitDef>("TraitDef", &["TRAIT_DEF"], x)?; named(k, "TraitDef", x, a)?;
    let a = k.wrap::<TypeDef>("TypeDef", &["TYPE_DEF"], x)?; named(k, "TypeDef", x, a)?;
    let a = k.wrap::<ModDef>("ModDef", &["MOD_DEF"], x)?; named(k, "ModDef", x, a)?;
    let a = k.wrap::<TypeParameter>("TypeParameter", &["TYPE_PARAMETER"], x)?; named(k, "TypeParameter", x, a)?;
    k.wrap::<ImplDef>("ImplDef", &["IMPL_DEF"], x)?;
    k.wrap::<LetStmt>("LetStmt", &["LET_STMT"], x)?;
    k.wrap::<ExprStmt>("ExprStmt", &["EXPR_STMT"], x)?;
    k.wrap::<TypeReference>("TypeReference", &["TYPE_REFERENCE"], x)?;
    let a = k.wrap::<StructDef>("StructDef", &["STRUCT_DEF"], x)?;
    named(k, "StructDef", x, a)?;
    if let Some(a) = a { k.first("StructDef.type_parameters", x, &["TYPE_PARAMETERS"], false, false, || oast(a.type_parameters()))?; owner(k, x, a)?; }
    let a = k.wrap::<EnumDef>("EnumDef", &["ENUM_DEF"], x)?;
    named(k, "EnumDef", x, a)?;
    if let Some(a) = a { k.first("EnumDef.type_parameters", x, &["TYPE_PARAMETERS"], false, false, || oast(a.type_parameters()))?; owner(k, x, a)?; }
    if let Some(a) = k.wrap::<UseDecl>("UseDecl", &["USE_DECL"], x)? {
        k.first("UseDecl.path", x, &["PATH"], false, false, || oast(a.path()))?;
        k.first("UseDecl.spec", x, &["USE_SPEC"], false, false, || oast(a.spec()))?;
        let mut p = a.path();
        while let Some(q) = p {
            let y = q.node();
            k.first("Path.qualifier", y, &["PATH"], false, false, || oast(q.qualifier()))?;
            k.first("Path.segment", y, &["PATH_SEGMENT"], false, false, || oast(q.segment()))?;
            p = q.qualifier();
        }
    }
    Ok(())
}

fn owner<'f, A: lang_rust_syntax::TypeParametersOwner<'f>>(k: &mut Checker, _: Node<'f>, a: A) -> Res {
    if let Some(tp) = a.type_parameters() {
        let x = tp.node();
        k.all("TypeParameters.lifetime_parameters", x, &["LIFETIME_PARAMETER"], || many(tp.lifetime_parameters()))?;
        k.all("TypeParameters.type_parameters", x, &["TYPE_PARAMETER"], || many(tp.type_parameters()))?;
        for l in tp.lifetime_parameters() {
            let y = l.node();
            k.first("LifetimeParameter.lifetime", y, &["LIFETIME"], true, true, || text(l.lifetime()))?;
        }
    }
    Ok(())
}

fn bnf_node<'f>(k: &mut Checker, x: Node<'f>) -> Res {
    use lang_bnf::*;
    if let Some(a) = k.wrap::<Grammar>("Grammar", &["GRAMMAR"], x)? { k.all("Grammar.productions", x, &["PROD"], || many(a.productions()))?; }
    if let Some(a) = k.wrap::<Prod>("Prod", &["PROD"], x)? {
        k.first("Prod.head", x, &["NONTERMINAL"], true, false, || ast(a.head()))?;
        k.all("Prod.alts", x, &["ALT"], || many(a.alts()))?;
    }
    if let Some(a) = k.wrap::<Alt>("Alt", &["ALT"], x)? { k.all("Alt.symbols", x, &["TERMINAL", "NONTERMINAL"], || many(a.symbols()))?; }
    k.wrap::<Symbol>("Symbol", &["TERMINAL", "NONTERMINAL"], x)?;
    k.wrap::<Terminal>("Terminal", &["TERMINAL"], x)?;
    k.wrap::<Nonterminal>("Nonterminal", &["NONTERMINAL"], x)?;
    Ok(())
}

fn typed(c: &mut Case, kind: Kind, file: &File, input: &str) -> Res {
    let f: for<'f> fn(&mut Checker, Node<'f>) -> Res = match kind { Kind::Fall => fall_node, Kind::Rust => rust_node, Kind::Bnf => bnf_node, _ => return Ok(()) };
    let all = All::of(file);
    let mut k = Checker { c, input };
    for &x in all.nodes.iter().take(400) { f(&mut k, x)?; }
    // typed searches
    match kind {
        Kind::Fall => { searches::<lang_fall_syntax::Expr>(&mut k, &all, EXPR)?; searches::<lang_fall_syntax::SynRule>(&mut k, &all, &["SYN_RULE"]) }
        Kind::Rust => { searches::<lang_rust_syntax::FnDef>(&mut k, &all, &["FN_DEF"])?; searches::<lang_rust_syntax::TypeReference>(&mut k, &all, &["TYPE_REFERENCE"]) }
        _ => searches::<lang_bnf::Symbol>(&mut k, &all, &["TERMINAL", "NONTERMINAL"]),
    }
}

fn searches<'f, A: AstNode<'f>>(k: &mut Checker, all: &All<'f>, tys: &[&str]) -> Res {
    let n = all.nodes.len();
    let is = |x: &Node| tys.contains(&ty_name(x.file(), *x));
    for _ in 0..8 {
        let i = k.c.rng.below(n);
        let x = all.nodes[i];
        let len = end(all.nodes[0]);
        let at = k.c.rng.below(len + 1);
        let up = |mut j: usize| loop { if is(&all.nodes[j]) { return Some(all.nodes[j]) } j = all.parent[j]; if j == usize::max_value() { return None } };
        k.compare("ast::ancestor", x, Got::Nodes(up(i).into_iter().collect()), || oast(search::ast::ancestor::<A>(x)))?;
        let d: Vec<Node> = all.post(i).into_iter().filter(|y| is(y)).collect();
        k.compare("ast::descendants_of_type", x, Got::Nodes(d.clone()), || Got::Nodes(search::ast::descendants_of_type::<A>(x).into_iter().map(|a| a.node()).collect()))?;
        k.compare("visitor of a typed view", x, Got::Nodes(d), || Got::Nodes(process_subtree_bottom_up(x, visitor(Vec::new()).visit::<A, _>(|a, acc: &mut Vec<Node>| acc.push(a.node())))))?;
        k.all("ast::children_of_type", x, tys, || many(search::ast::children_of_type::<A>(x)))?;
        // left leaf first
        let want = all.leaves_at(0, at).into_iter().filter_map(|l| up(all.nodes.iter().position(|y| *y == l).unwrap())).next();
        k.compare("ast::node_at_offset", all.nodes[0], Got::Nodes(want.into_iter().collect()), || oast(search::ast::node_at_offset::<A>(all.nodes[0], tu(at as u32))))?;
    }
    let _ = NodeType(0);
    Ok(())
}
