use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::grammars;
use crate::model::peg::{self, Peg};
use crate::tree::{check_tree, T};
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C06", plan, case, finish: None,
        rule: "a random grammar using every operator, and random texts: walks through the grammar, damaged walks, random tokens; the engine's tree is compared with the one a reference interpreter of the operators computes. Non-trivial: the reference tree has an inner node and the text has 2 tokens; distinct by grammar and text.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 40_000, 20.0, 30) }

fn case(c: &mut Case) -> Res {
    let cached = c.rng.chance(1, 3);
    let rules = grammars::grammar(&mut c.rng, grammars::Options { cached, ..grammars::Options::ALL });
    let shown = grammars::show(&rules);
    c.input(&shown);
    let lang = c.guard("building the language", &|| shown.clone(), || grammars::language(&rules))?;
    let types = grammars::tys();
    c.count("grammars", 1);
    for _ in 0..12 {
        let text = grammars::text(&mut c.rng, &rules);
        let raw = grammars::raw_tokens(&text);
        let mut model = Peg::new(&rules, &types, &text, &raw, 20_000);
        let expected = match model.parse_file() {
            Ok(e) => peg::to_tree(&e, &raw, text.len()),
            Err(_) => { c.count("texts skipped: too much backtracking", 1); continue }
        };
        let input = format!("{}\n--- text ---\n{}", shown, text);
        c.input(&input);
        c.eval();
        let file = c.guard("parse", &|| input.clone(), || lang.parse(text.as_str()))?;
        let actual = T::of_file(&file);
        for (k, v) in model.seen.iter() { c.count(&format!("operator: {}", k), *v) }
        if actual != expected {
            let name = |ty: u32| grammars::name_of(ty);
            let d = actual.diff(&expected, &name).unwrap_or_default();
            c.violation("engine and operators disagree", format!("{}\n--- difference (engine vs reference) ---\n{}\n--- engine ---\n{}--- reference ---\n{}", input, d, actual.dump(&name, &text), expected.dump(&name, &text)));
            return Ok(());
        }
        if let Err(e) = check_tree(&file, &text, &grammars::is_token_ty) {
            c.violation("tree is not lossless", format!("{}\n{}", e, input));
            return Ok(());
        }
        if raw.len() >= 2 && expected.ch.iter().any(|x| !x.ch.is_empty()) { c.nontrivial(&input) }
        c.sample(|| input.clone());
    }
    Ok(())
}
