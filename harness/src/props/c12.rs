use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::texts;
use crate::ide::{self, Ed, Q};
use crate::langs::Kind;
use crate::tree::T;
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C12", plan, case, finish: None,
        rule: "sound, damaged and hostile grammar and Rust texts; from carets and selections at token borders and inside tokens, the extension is followed to its end; every step is compared with the chain of node ranges computed from a plain copy of the tree. Non-trivial: a chain of at least three steps; distinct by text and start.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 40_000, 22.0, 20) }

/// Ranges of the nodes that contain a range, smallest first.
fn around(t: &T, s: usize, e: usize) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = Vec::new();
    t.walk(&mut |n| if n.start <= s && e <= n.end { v.push((n.start, n.end)) });
    v.sort_by_key(|r| r.1 - r.0);
    v.dedup();
    v
}

fn case(c: &mut Case) -> Res {
    let kind = *c.rng.pick(&[Kind::Fall, Kind::Rust]);
    let size = *c.rng.pick(&[10, 60, 200, 800]);
    let text = ide::text(&mut c.rng, kind, size);
    c.input(&text);
    let ed = c.guard("opening", &|| text.clone(), || Ed::parse(kind, &text))?;
    let tree = T::of_file(ed.file());
    let lang = ed.file().language();
    let is_ws = |ty: u32| lang.node_type_info(fall_tree::NodeType(ty)).whitespace_like;
    let mut leaves: Vec<(u32, usize, usize)> = Vec::new();
    tree.walk(&mut |n| if n.ch.is_empty() && n.start < n.end { leaves.push((n.ty, n.start, n.end)) });
    for _ in 0..12 {
        let spot = |rng: &mut crate::rng::Rng| if leaves.is_empty() || rng.chance(1, 3) { texts::boundary(rng, &text) } else { let l = *rng.pick(&leaves); if rng.chance(1, 2) { l.1 } else { l.2 } };
        let (a, b) = (spot(&mut c.rng), spot(&mut c.rng));
        let (mut s, mut e) = match c.rng.below(4) {
            0 | 1 => (a, a),
            2 => (a.min(b), a.max(b)),
            _ => { let mut b = (a + 1 + c.rng.below(6)).min(text.len()); while !text.is_char_boundary(b) { b -= 1 } (a.min(b), b.max(a)) }
        };
        let from = (s, e);
        let mut steps = 0;
        loop {
            let here = |got: &dyn std::fmt::Debug| format!("{} file, extending {}..{}: {:?}\n{}\n--- text ---\n{}", kind.name(), s, e, got, tree.dump(&|ty| lang.node_type_info(fall_tree::NodeType(ty)).name.to_string(), &text), text);
            let a = c.guard("extend_selection", &|| here(&"panic"), || ed.ask(&Q::Extend(s, e)))?;
            let got = a.ranges.get(0).cloned();
            c.eval();
            if s < e {
                let want = around(&tree, s, e).into_iter().find(|&r| r != (s, e));
                c.ensure(got == want, "the extension is not the smallest larger node range", || here(&(got, "expected", want)))?;
                c.count("selections extended", 1);
            } else {
                let touching: Vec<_> = leaves.iter().filter(|l| l.1 <= s && s <= l.2).cloned().collect();
                let words: Vec<_> = touching.iter().filter(|l| !is_ws(l.0)).cloned().collect();
                let mut ok: Vec<Option<(usize, usize)>> = Vec::new();
                if touching.is_empty() { ok.push(None) }
                else if !words.is_empty() { for l in &words { ok.push(Some((l.1, l.2))) } c.count("carets at tokens", 1) }
                else {
                    c.count("carets in blanks", 1);
                    for l in &touching {
                        let line_end = text[l.2..].find('\n').map(|i| i + l.2);
                        match line_end {
                            // in the indentation of a line: what the line holds
                            Some(to) if text[l.1..l.2].contains('\n') && !text[s..l.2].contains('\n') => {
                                if l.2 < to { ok.push(around(&tree, l.2, to).first().cloned()) } else { ok.extend(around(&tree, l.2, to).into_iter().map(Some)) }
                                c.count("carets in indentation", 1)
                            }
                            _ => ok.push(Some((l.1, l.2))),
                        }
                    }
                }
                c.ensure(ok.contains(&got), "the caret does not select its token", || here(&(got, "expected one of", &ok)))?;
            }
            match got {
                None => break,
                Some(r) => {
                    c.ensure(r.0 < r.1 || s == e, "the extension is not larger", || here(&r))?;
                    steps += 1;
                    c.ensure(steps <= 2000, "extending does not end", || here(&r))?;
                    s = r.0;
                    e = r.1;
                    if s == e { break }
                }
            }
        }
        if s < e { c.ensure((s, e) == (0, text.len()), "extending ends before the whole file", || format!("{} file, from {:?} to {:?}\n{}", kind.name(), from, (s, e), text))?; }
        c.max("steps to the whole file", steps);
        if steps >= 3 { c.nontrivial(&format!("{:?} {}", from, text)) }
    }
    c.sample(|| text.clone());
    Ok(())
}
