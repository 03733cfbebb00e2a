use fall_tree::NodeType;

use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::{edits, texts};
use crate::langs::{Kind, KINDS};
use crate::tree::{check_tree, T};
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C01", plan, case, finish: None,
        rule: "a random text (program, mutated corpus, token soup, Unicode garbage) of a random shipped language is parsed, then edited a few times; every resulting tree is walked. Non-trivial: the tree has at least 8 nodes; distinct by text.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 30_000, 18.0, 30) }

fn case(c: &mut Case) -> Res {
    let kind: Kind = *c.rng.pick(&KINDS);
    let max = if c.idx % 40 == 0 { 30_000 } else { 1500 };
    let mut text = texts::text(&mut c.rng, kind, max);
    c.input(&text);
    let is_token = move |ty: NodeType| kind.is_token_ty(ty);
    let mut file = { let t = text.clone(); c.guard("parse", &|| t.clone(), || kind.lang().parse(t.as_str()))? };
    let steps = c.rng.below(4);
    for step in 0..=steps {
        c.eval();
        match c.guard("walking the tree", &|| text.clone(), || check_tree(&file, &text, &is_token))? {
            Ok(n) => {
                c.count("nodes", n as u64);
                c.max("nodes in one tree", n as u64);
                c.count(if step == 0 { "parsed trees" } else { "reparsed trees" }, 1);
                if n >= 8 { let k = format!("{}{}{}", kind.name(), step, text); c.nontrivial(&k) }
            }
            Err(e) => { c.violation("tree is not lossless", format!("{} step {}: {}\n--- text ---\n{}", kind.name(), step, e, text)); return Ok(()) }
        }
        if c.idx % 7 == 0 && step == 0 {
            let t = T::of_file(&file);
            c.max("tree depth", t.depth() as u64);
        }
        if step == 0 { let t = text.clone(); c.sample(|| format!("{}: {:?}", kind.name(), t)) }
        if step < steps {
            let n = c.rng.range(1, 3);
            let ops = edits::ops(&mut c.rng, &text, n, &mut |r| edits::insertion(r, kind));
            let new_text = edits::apply(&text, &ops);
            if texts::too_hard(kind, &new_text) { return Ok(()) }
            let edit = if c.rng.chance(1, 2) { edits::build(&text, &ops) } else { edits::raw(&mut c.rng, &text, &ops) };
            c.input(&format!("{}\n--- edits ---\n{:?}", text, ops));
            let old = text.clone();
            file = c.guard("reparse", &|| format!("{}\n--- edits ---\n{:?}", old, ops), || file.edit(&edit))?;
            text = new_text;
        }
    }
    Ok(())
}
