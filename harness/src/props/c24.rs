use crate::ctx::{Case, Plan, Res, Tier};
use crate::gen::{edits, texts};
use crate::ide::{self, Ed, Q};
use crate::langs::Kind;
use crate::tree::{namer, T};
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C24", plan, case, finish: None,
        rule: "edit histories (typing, renaming, cutting, undoing) over grammar and Rust files in their editors; after every edit, every whole-file query and queries at random places are asked of the edited file and of a fresh one, in different orders; earlier versions are asked again at the end. Non-trivial: an edit that keeps some text; distinct by text and edit.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 12_000, 24.0, 30) }

/// A word that occurs in the text, so that names come to hit and miss.
fn word(rng: &mut crate::rng::Rng, text: &str) -> String {
    let w: Vec<&str> = text.split(|ch: char| !(ch == '_' || ch.is_alphanumeric())).filter(|s| !s.is_empty()).collect();
    if w.is_empty() { "foo".to_string() } else { rng.pick(&w).to_string() }
}

fn rename(rng: &mut crate::rng::Rng, text: &str) -> Vec<edits::Op> {
    let from = word(rng, text);
    let to = if rng.chance(1, 2) { word(rng, text) } else { "renamed".to_string() };
    let mut v = Vec::new();
    let mut at = 0;
    while let Some(i) = text[at..].find(&from) {
        let s = at + i;
        if rng.chance(3, 4) { v.push(edits::Op { start: s, end: s + from.len(), insert: to.clone() }) }
        at = s + from.len();
        if v.len() > 6 { break }
    }
    v
}

fn same(c: &mut Case, what: &str, a: &Ed, b: &Ed, qs: &[Q], show: &dyn Fn() -> String) -> Res {
    let mut order: Vec<usize> = (0..qs.len()).collect();
    c.rng.shuffle(&mut order);
    let mut left: Vec<Option<String>> = vec![None; qs.len()];
    for &i in &order { left[i] = Some(c.guard("a query of an edited file", &|| format!("{:?}\n{}", qs[i], show()), || a.ask(&qs[i]).text)?) }
    for (i, q) in qs.iter().enumerate() {
        let r = c.guard("a query of a fresh file", &|| format!("{:?}\n{}", q, show()), || b.ask(q).text)?;
        c.eval();
        let l = left[i].take().unwrap();
        c.ensure(l == r, &format!("{}: {}", what, kind_of(q)), || format!("{:?}\n--- edited ---\n{}\n--- fresh ---\n{}\n{}", q, l, r, show()))?;
    }
    Ok(())
}

fn kind_of(q: &Q) -> String { let s = format!("{:?}", q); s.split('(').next().unwrap().to_string() }

fn case(c: &mut Case) -> Res {
    let kind = *c.rng.pick(&[Kind::Fall, Kind::Rust]);
    let size = *c.rng.pick(&[20, 80, 300, 900]);
    let mut text = ide::text(&mut c.rng, kind, size);
    c.input(&text);
    let mut ed = c.guard("opening", &|| text.clone(), || Ed::parse(kind, &text))?;
    let mut past: Vec<(Ed, String, Vec<(Q, String)>)> = Vec::new();
    let steps = c.rng.range(1, 6);
    let mut history = String::new();
    for step in 0..steps {
        // analyses that were used, and ones that were not, are edited
        let mut asked = Vec::new();
        if c.rng.chance(2, 3) {
            let mut qs = ide::places(&mut c.rng, &ed, &text, 1);
            qs.extend(ide::WHOLE.iter().cloned());
            c.rng.shuffle(&mut qs);
            qs.truncate(6);
            for q in qs { let t = c.guard("a query", &|| format!("{:?}\n{}", q, history), || ed.ask(&q).text)?; asked.push((q, t)) }
        }
        let ops = match c.rng.below(6) {
            0 => rename(&mut c.rng, &text),
            1 if !past.is_empty() => { let i = c.rng.below(past.len()); let old = past[i].1.clone(); super::c03::diff_ops(&text, &old) }
            2 => { let w = word(&mut c.rng, &text); let a = texts::boundary(&mut c.rng, &text); vec![edits::Op { start: a, end: a, insert: w }] }
            _ => { let n = if c.rng.chance(2, 3) { 1 } else { c.rng.range(1, 3) }; edits::ops(&mut c.rng, &text, n, &mut |r| edits::insertion(r, kind)) }
        };
        let new_text = edits::apply(&text, &ops);
        if texts::too_hard(kind, &new_text) { break }
        let edit = if c.rng.chance(2, 3) { edits::build(&text, &ops) } else { edits::raw(&mut c.rng, &text, &ops) };
        history = format!("{}\n--- text before ---\n{}\n--- edit {} ---\n{:?}\n--- text after ---\n{}", kind.name(), text, step, edit, new_text);
        c.input(&history);
        let next = c.guard("editing", &|| history.clone(), || ed.edit(&edit))?;
        let fresh = c.guard("opening", &|| history.clone(), || Ed::parse(kind, &new_text))?;
        let (a, b) = (T::of_file(next.file()), T::of_file(fresh.file()));
        if a != b && next.file().text().to_string() == new_text && super::c03::looks_ahead(&T::of_file(ed.file()), &a, &b, &edit, &new_text) {
            // the same cause as C03's known finding; its answers differ like its trees
            c.count("edits left out: known finding of C03", 1);
            break;
        }
        c.ensure(a == b, "the tree of an edited file differs", || format!("{}\n{}", a.diff(&b, &namer(fresh.file())).unwrap_or_default(), history))?;
        let mut qs = ide::places(&mut c.rng, &fresh, &new_text, 3);
        qs.extend(ide::WHOLE.iter().cloned());
        let h = history.clone();
        same(c, "an edited file answers differently", &next, &fresh, &qs, &|| h.clone())?;
        c.count(&format!("edits of {}", kind.name()), 1);
        if ops.iter().map(|o| o.end - o.start).sum::<usize>() < text.len() { c.nontrivial(&h) }
        past.push((std::mem::replace(&mut ed, next), std::mem::replace(&mut text, new_text), asked));
    }
    for (old, text, asked) in &past {
        for (q, t) in asked {
            let now = c.guard("a query of an earlier version", &|| format!("{:?}\n{}", q, text), || old.ask(q).text)?;
            c.eval();
            c.ensure(&now == t, "an earlier version changed its answer", || format!("{:?}\n--- then ---\n{}\n--- now ---\n{}\n--- text ---\n{}\n{}", q, t, now, text, history))?;
        }
        let qs: Vec<Q> = ide::WHOLE.to_vec();
        let fresh = Ed::parse(kind, text);
        let t = text.clone();
        same(c, "an earlier version answers differently", old, &fresh, &qs, &|| t.clone())?;
        c.count("earlier versions asked again", 1);
    }
    c.sample(|| history.clone());
    Ok(())
}
