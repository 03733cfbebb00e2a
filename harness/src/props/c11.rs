use crate::ctx::{Abort, Case, Plan, Res, Tier};
use crate::ide::{self, Ed, Q};
use crate::langs::Kind;
use super::Prop;

pub fn prop() -> Prop {
    Prop {
        id: "C11", plan, case, finish: None,
        rule: "sound, damaged and hostile grammar and Rust texts; every query without parameters, and queries with offsets and ranges drawn from token borders, token insides and the ends of the text, each under a panic monitor; every reported range and every copied piece of a proposed edit is checked against the text. Non-trivial: some query reported a range or an edit; distinct by text.",
    }
}

fn plan(tier: Tier) -> Plan { super::plan(tier, 40_000, 22.0, 20) }

fn case(c: &mut Case) -> Res {
    let kind = *c.rng.pick(&[Kind::Fall, Kind::Rust]);
    let size = *c.rng.pick(&[40, 200, 200, 800]);
    let text = ide::text(&mut c.rng, kind, size);
    c.input(&text);
    let show = |q: &dyn std::fmt::Debug| format!("{} file, query {:?}\n{}", kind.name(), q, text);
    let ed = c.guard("opening", &|| show(&"parse"), || Ed::parse(kind, &text))?;
    let mut qs: Vec<Q> = ide::WHOLE.to_vec();
    qs.extend(ide::places(&mut c.rng, &ed, &text, 8));
    c.rng.shuffle(&mut qs);
    let mut some = false;
    let mut failed = false;
    for q in &qs {
        let what = { let d = format!("{:?}", q); d.split('(').next().unwrap().to_string() };
        // one failing query does not hide another
        let a = match c.guard(&what, &|| show(q), || ed.ask(q)) { Ok(a) => a, Err(Abort) => { failed = true; continue } };
        c.eval();
        c.count(&format!("{} {}", kind.name(), what), 1);
        let mut bad: Vec<(usize, usize)> = a.ranges.iter().cloned().filter(|&(s, e)| !inside(&text, s, e)).collect();
        if !a.ranges.is_empty() { some = true; c.count("ranges checked", a.ranges.len() as u64) }
        if let Some(e) = &a.edit {
            some = true;
            let copies = ide::edit_ranges(e);
            let from = if let Q::Apply(_, _, id) = q { id.to_string() } else { what.clone() };
            c.count(&format!("{} edits checked: {}", kind.name(), from), 1);
            bad.extend(copies.iter().cloned().filter(|&(s, e)| !inside(&text, s, e)));
            if bad.is_empty() {
                let mut at = 0;
                for &(s, e) in &copies { if s < at { bad.push((s, e)) } at = e }
            }
            if bad.is_empty() {
                // it applies, to the text and to the file, with the same result
                let t = c.guard("applying an edit", &|| show(q), || e.apply(ed.file().text()).as_text().to_string());
                let t = match t { Ok(t) => t, Err(Abort) => { failed = true; continue } };
                if c.rng.chance(1, 20) {
                    let next = match c.guard("editing", &|| show(q), || ed.edit(e)) { Ok(n) => n, Err(Abort) => { failed = true; continue } };
                    let t2 = next.ask(&Q::Text).text;
                    if t2 != t { c.violation("an edit applies differently to the file", show(q)); failed = true }
                }
            }
        }
        if !bad.is_empty() {
            c.violation(&format!("{}: a range is not inside the text", what), format!("ranges {:?} of {} bytes\n{}", bad, text.len(), show(q)));
            failed = true;
        }
    }
    if failed { return Err(Abort) }
    if some { c.nontrivial(&text) }
    c.sample(|| text.clone());
    Ok(())
}

fn inside(t: &str, s: usize, e: usize) -> bool { s <= e && e <= t.len() && t.is_char_boundary(s) && t.is_char_boundary(e) }
