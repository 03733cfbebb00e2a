use fall_tree::Node;

use crate::ctx::{Case, Plan, Res, Tier};
use crate::ide::{self, Ed, Q};
use crate::langs::{is_ws, ty_name, Kind};
use crate::tree::{end, start, T};
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C13", plan, case, finish: None,
        rule: "sound, damaged and hostile grammar and Rust texts; selections at separators, expressions, declarations and anywhere; the offered list is compared with what can be applied, and every result with the text an independent reading of the tree predicts (exchange of siblings, extraction and inlining, braces, impl blocks); on sound files the results stay sound and a second swap restores the text. Non-trivial: an action was applied; distinct by text and selection.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 30_000, 22.0, 20) }

type Sp = (usize, usize);

fn leaves<'f>(n: Node<'f>, out: &mut Vec<Node<'f>>) {
    if n.children().next().is_none() { if start(n) < end(n) { out.push(n) } return; }
    for c in n.children() { leaves(c, out) }
}
fn touching<'f>(all: &[Node<'f>], at: usize) -> Vec<Node<'f>> { all.iter().cloned().filter(|&l| start(l) <= at && at <= end(l)).collect() }
fn siblings<'f>(n: Node<'f>) -> (Vec<Node<'f>>, Vec<Node<'f>>) {
    let kids: Vec<Node> = n.parent().into_iter().flat_map(|p| p.children()).collect();
    let i = kids.iter().position(|&k| k == n).unwrap_or(0);
    (kids[..i.min(kids.len())].iter().cloned().rev().collect(), kids.iter().cloned().skip(i + 1).collect())
}
fn up<'f>(n: Node<'f>, f: &dyn Fn(Node<'f>) -> bool) -> Option<Node<'f>> {
    let mut n = Some(n);
    while let Some(x) = n { if f(x) { return Some(x) } n = x.parent() }
    None
}
fn exchange(t: &str, a: Sp, b: Sp) -> String { format!("{}{}{}{}{}", &t[..a.0], &t[b.0..b.1], &t[a.1..b.0], &t[a.0..a.1], &t[b.1..]) }
fn span(n: Node) -> Sp { (start(n), end(n)) }
fn is_expr(n: Node) -> bool { ["REF_EXPR", "CALL_EXPR", "BLOCK_EXPR", "OPT_EXPR", "REP_EXPR", "SEQ_EXPR"].contains(&ty_name(n.file(), n)) }

/// The separator, the two elements around it, and the text after exchanging them.
struct Swap { sep: Sp, a: Sp, b: Sp }

fn swaps<'f>(all: &[Node<'f>], at: usize, pipes: bool) -> (Vec<Swap>, bool) {
    let mut v = Vec::new();
    let mut every = true;
    for l in touching(all, at) {
        if !pipes && l.text() == "," {
            let (left, right) = siblings(l);
            match (left.into_iter().find(|&n| !is_ws(n)), right.into_iter().find(|&n| !is_ws(n))) {
                (Some(a), Some(b)) if a.ty() == b.ty() => v.push(Swap { sep: span(l), a: span(a), b: span(b) }),
                _ => every = false,
            }
        }
        if pipes && ty_name(l.file(), l) == "PIPE" {
            let (left, right) = siblings(l);
            let block = l.parent().map_or(false, |p| ty_name(p.file(), p) == "BLOCK_EXPR");
            match (left.into_iter().find(|&n| is_expr(n)), right.into_iter().find(|&n| is_expr(n))) {
                (Some(a), Some(b)) if block => v.push(Swap { sep: span(l), a: span(a), b: span(b) }),
                _ => every = false,
            }
        }
    }
    let offered = every && !v.is_empty();
    (v, offered)
}

fn case(c: &mut Case) -> Res {
    let kind = *c.rng.pick(&[Kind::Fall, Kind::Rust]);
    let size = *c.rng.pick(&[40, 120, 400]);
    let text = ide::text(&mut c.rng, kind, size);
    c.input(&text);
    let ed = c.guard("opening", &|| text.clone(), || Ed::parse(kind, &text))?;
    let file = ed.file();
    let sound = !T::of_file(file).has_ty(fall_tree::ERROR);
    let mut all = Vec::new();
    leaves(file.root(), &mut all);
    let mut exprs: Vec<Node> = Vec::new();
    let mut stack = vec![file.root()];
    while let Some(n) = stack.pop() { if is_expr(n) { exprs.push(n) } stack.extend(n.children()) }
    let seps: Vec<Node> = all.iter().cloned().filter(|&l| l.text() == "," || l.text() == "|").collect();
    for q in ide::places(&mut c.rng, &ed, &text, 7).into_iter() {
        let (mut s, mut e) = match q { Q::Actions(s, e) => (s, e), _ => continue };
        match c.rng.below(4) {
            0 if !seps.is_empty() => { let n = *c.rng.pick(&seps); let p = if c.rng.chance(1, 2) { start(n) } else { end(n) }; s = p; e = p }
            1 if !exprs.is_empty() => { let n = *c.rng.pick(&exprs); s = start(n); e = end(n); }
            2 if !exprs.is_empty() => {
                // a run of siblings
                let n = *c.rng.pick(&exprs);
                let k: Vec<Node> = n.children().filter(|&k| !is_ws(k)).collect();
                if k.len() > 1 { let i = c.rng.below(k.len()); let j = c.rng.range(i, k.len() - 1); s = start(k[i]); e = end(k[j]) }
            }
            _ => {}
        }
        let show = |what: &str, got: &str| format!("{} file, selection {}..{}: {}\n--- got ---\n{}\n--- text ---\n{}", kind.name(), s, e, what, got, text);
        let offered = c.guard("context_actions", &|| show("listing panicked", ""), || ed.ask(&Q::Actions(s, e)))?.actions;
        for (i, id) in offered.iter().enumerate() {
            c.ensure(!offered[..i].contains(id), "an action is listed twice", || show(id, &format!("{:?}", offered)))?;
        }
        let mut ids = ed.actions().to_vec();
        for id in &offered { if !ids.contains(id) { ids.push(id) } }
        for id in ids {
            let got = c.guard("apply_context_action", &|| show(id, "panic"), || ed.ask(&Q::Apply(s, e, id)))?;
            c.eval();
            let listed = offered.contains(&id);
            c.ensure(listed == got.edit.is_some(), "an action is listed but cannot be applied, or the other way round", || show(id, &format!("listed: {}, applicable: {}", listed, got.edit.is_some())))?;
            let after = got.edit.map(|ed_| c.guard("applying an edit", &|| show(id, "panic"), || (ed_.apply(file.text()).as_text().to_string(), ed.edit(&ed_))));
            let after = match after { None => None, Some(Ok(x)) => Some(x), Some(Err(e)) => return Err(e) };
            if let Some((new, _)) = &after {
                c.count(&format!("{} applied: {}", kind.name(), id), 1);
                c.nontrivial(&format!("{} {} {} {}", s, e, id, text));
                c.sample(|| format!("{} at {}..{}\n{}\n--- becomes ---\n{}", id, s, e, text, new));
            }
            match id {
                "Swap" | "Swap alternatives" => {
                    let (v, must) = if kind == Kind::Rust && id != "Swap" { (vec![], false) } else { swaps(&all, s, id != "Swap") };
                    if let Some((new, next)) = &after {
                        let hit = v.iter().find(|w| &exchange(&text, w.a, w.b) == new);
                        c.ensure(hit.is_some(), "a swap does not exchange the two siblings of a separator", || show(id, new))?;
                        let w = hit.unwrap();
                        // and back
                        let at = w.a.0 + (w.b.1 - w.b.0) + (w.sep.0 - w.a.1);
                        let mut l2 = Vec::new();
                        leaves(next.file().root(), &mut l2);
                        let same = swaps(&l2, at, id != "Swap").0.iter().any(|x| x.sep.0 == at && x.a == (w.a.0, w.a.0 + w.b.1 - w.b.0) && x.b == (w.b.1 - (w.a.1 - w.a.0), w.b.1));
                        let mut others = 0;
                        for l in touching(&l2, at) { if start(l) != at && (l.text() == "," || l.text() == "|") { others += 1 } }
                        if same && others == 0 {
                            let back = c.guard("apply_context_action", &|| show(id, new), || next.ask(&Q::Apply(at, at, id)))?;
                            let back = match back.edit { Some(e) => e.apply(next.file().text()).as_text().to_string(), None => String::new() };
                            c.ensure(back == text, "a second swap does not restore the text", || format!("{}\n--- second swap at {} ---\n{}", show(id, new), at, back))?;
                            c.count("swaps undone by a second swap", 1);
                        } else { c.count("swaps after which the text reads differently", 1) }
                    } else {
                        c.ensure(!must, "a swap is not offered between two like siblings", || show(id, "not offered"))?;
                    }
                }
                "Extract rule" => {
                    let target = if s < e { exprs.iter().cloned().filter(|&x| start(x) <= s && e <= end(x)).min_by_key(|&x| (end(x) - start(x), depth_rank(x))) } else { None };
                    let (new, next) = match after { Some(x) => x, None => {
                        // an expression larger than a name is extractable
                        if let Some(t) = target { if kind == Kind::Fall && ty_name(file, t) != "REF_EXPR" && t.parent().map_or(true, |p| ty_name(file, p) != "SYN_RULE") && !exprs.iter().any(|&x| ty_name(file, x) == "REF_EXPR" && span(x) == span(t)) { c.violation("an expression cannot be extracted", show(id, "not offered")); return Ok(()) } }
                        continue
                    } };
                    let ok = kind == Kind::Fall && target.is_some();
                    c.ensure(ok, "a rule is extracted from no expression", || show(id, &new))?;
                    let t = target.unwrap();
                    let rule = match up(t, &|n| ty_name(n.file(), n) == "SYN_RULE") { Some(r) => r, None => { c.count("extractions outside of rules", 1); continue } };
                    let mut takes: Vec<Sp> = vec![span(t)];
                    let mut required = None;
                    // nodes of the same extent: sequences of one part and the part itself
                    for &q in exprs.iter().filter(|&&x| ty_name(file, x) == "SEQ_EXPR" && start(x) <= s && e <= end(x) && span(x) == span(t)) {
                        let k: Vec<Node> = q.children().filter(|&k| start(k) < e && s < end(k)).collect();
                        let words: Vec<Node> = k.iter().cloned().filter(|&k| is_expr(k)).collect();
                        if let (Some(a), Some(b)) = (words.first(), words.last()) {
                            takes.push((start(*a), end(*b)));
                            if words.len() > 1 && start(*a) == s && end(*b) == e { required = Some((s, e)) }
                        }
                    }
                    if let Some(r) = required { takes = vec![r] }
                    if exprs.iter().any(|&x| span(x) == (s, e)) { takes = vec![(s, e)] }
                    let word = |ch: Option<char>| ch.map_or(false, |ch| ch == '_' || ch.is_alphanumeric());
                    let ok = takes.iter().any(|&(a, b)| {
                        // a blank keeps the reference apart from words that touched the expression
                        let l = if word(text[..a].chars().next_back()) { " " } else { "" };
                        let r = if word(text[b..].chars().next()) { " " } else { "" };
                        let want = format!("{}{}new_rule{}{}\n\nrule new_rule {{\n  {}\n}}{}", &text[..a], l, r, &text[b..end(rule)], &text[a..b], &text[end(rule)..]);
                        want == new
                    });
                    c.ensure(ok, "an extracted rule does not inline back to the text", || show(&format!("{}, candidates {:?}", id, takes), &new))?;
                    if sound {
                        let still = !T::of_file(next.file()).has_ty(fall_tree::ERROR);
                        c.ensure(still, "an action breaks a sound file", || show(id, &new))?;
                    }
                }
                "Add braces" if kind == Kind::Rust => {
                    if let Some((new, next)) = after {
                        // removing one pair of braces gives the text back
                        let mut fits = false;
                        // `use super;` imports nothing to begin with
                        let mut keyword = false;
                        let k = text.bytes().zip(new.bytes()).take_while(|p| p.0 == p.1).count();
                        if new.len() == text.len() + 2 && new.as_bytes()[k] == b'{' {
                            let r = text[k..].bytes().zip(new[k + 1..].bytes()).take_while(|p| p.0 == p.1).count();
                            for m in (k + 1)..=(k + 1 + r) {
                                if new.as_bytes().get(m) == Some(&b'}') && new[m + 1..] == text[m - 1..] {
                                    let inner = &text[k..m - 1];
                                    keyword |= ["super", "crate", "self"].contains(&inner);
                                    let decl = all.iter().cloned().filter(|&l| start(l) == k).next().and_then(|l| up(l, &|n| ty_name(n.file(), n) == "USE_DECL"));
                                    fits |= !inner.is_empty() && decl.map_or(false, |d| start(d) <= s && s <= end(d) && end(d) >= m - 1);
                                }
                            }
                        }
                        c.ensure(fits, "braces are not added around a name of the declaration", || show(id, &new))?;
                        if sound && !keyword {
                            let still = !T::of_file(next.file()).has_ty(fall_tree::ERROR);
                            c.ensure(still, "an action breaks a sound file", || show(id, &new))?;
                        }
                    }
                }
                "Add impl" if kind == Kind::Rust => {
                    if let Some((new, next)) = after {
                        let decls: Vec<Node> = touching(&all, s).into_iter().flat_map(|l| vec![up(l, &|n| ty_name(n.file(), n) == "STRUCT_DEF"), up(l, &|n| ty_name(n.file(), n) == "ENUM_DEF")]).filter_map(|x| x).collect();
                        let ok = decls.iter().any(|&d| impl_text(d).map_or(false, |i| format!("{}{}{}", &text[..end(d)], i, &text[end(d)..]) == new));
                        c.ensure(ok, "an impl block does not fit its type", || show(id, &new))?;
                        if sound {
                            let still = !T::of_file(next.file()).has_ty(fall_tree::ERROR);
                            c.ensure(still, "an action breaks a sound file", || show(id, &new))?;
                        }
                    }
                }
                _ => c.ensure(after.is_none(), "an unknown action was applied", || show(id, ""))?,
            }
        }
    }
    Ok(())
}

fn depth_rank(n: Node) -> usize { let mut d = 1000; let mut p = n.parent(); while let Some(x) = p { d -= 1; p = x.parent() } d }

fn impl_text(d: Node) -> Option<String> {
    let kid = |n: Node, ty: &str| n.children().find(|&k| ty_name(k.file(), k) == ty).map(|k| k.text().to_string());
    let name = kid(d, "IDENT")?;
    let mut s = String::from("\n\nimpl");
    let params = d.children().find(|&k| ty_name(k.file(), k) == "TYPE_PARAMETERS");
    if let Some(p) = params { s.push_str(&p.text().to_string()) }
    s.push(' ');
    s.push_str(&name);
    if let Some(p) = params {
        let mut v: Vec<String> = Vec::new();
        for k in p.children() { if ty_name(k.file(), k) == "LIFETIME_PARAMETER" { v.push(kid(k, "LIFETIME")?) } }
        for k in p.children() { if ty_name(k.file(), k) == "TYPE_PARAMETER" { v.push(kid(k, "IDENT")?) } }
        s.push('<');
        s.push_str(&v.join(", "));
        s.push('>');
    }
    s.push_str(" {\n\n}");
    Some(s)
}
