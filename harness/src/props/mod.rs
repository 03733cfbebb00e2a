//! One module per property: a workload and the monitors that watch it.

use crate::ctx::{CaseFn, Plan, Report, Tier};

pub struct Prop {
    pub id: &'static str,
    pub plan: fn(Tier) -> Plan,
    pub case: CaseFn,
    pub finish: Option<fn(&mut Report, u64, Tier)>,
    pub rule: &'static str,
}

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
#[cfg(feature = "gen")]
mod c09;
mod c10;
#[cfg(all(feature = "fallide", feature = "rustide"))]
mod c11;
#[cfg(all(feature = "fallide", feature = "rustide"))]
mod c12;
#[cfg(all(feature = "fallide", feature = "rustide"))]
mod c13;
#[cfg(all(feature = "fallide", feature = "rustide"))]
mod c14;
#[cfg(all(feature = "fallide", feature = "rustide"))]
mod c15;
#[cfg(all(feature = "fallide", feature = "rustide"))]
mod c16;
#[cfg(all(feature = "fallide", feature = "rustide"))]
pub mod c17;
#[cfg(feature = "rustide")]
mod c19;
#[cfg(feature = "rustide")]
mod c18;
mod c20;
mod c21;
mod c23;
#[cfg(all(feature = "fallide", feature = "rustide"))]
mod c24;
#[cfg(all(feature = "fallide", feature = "rustide"))]
mod c25;
#[cfg(all(feature = "fallide", feature = "rustide"))]
mod c26;

pub fn find(id: &str) -> Option<Prop> {
    #[allow(unused_mut)]
    let mut all: Vec<Prop> = vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(), c08::prop(), c10::prop(), c20::prop(), c21::prop(), c23::prop()];
    #[cfg(all(feature = "fallide", feature = "rustide"))]
    all.extend(vec![c11::prop(), c12::prop(), c13::prop(), c14::prop(), c15::prop(), c16::prop(), c17::prop(), c24::prop(), c25::prop(), c26::prop()]);
    #[cfg(feature = "rustide")]
    all.extend(vec![c18::prop(), c19::prop()]);
    #[cfg(feature = "gen")]
    all.push(c09::prop());
    all.into_iter().find(|p| p.id == id)
}

pub fn plan(tier: Tier, quick_cases: u64, quick_secs: f64, case_cpu_s: u64) -> Plan {
    match tier {
        Tier::Quick => Plan { cases: quick_cases * 3, secs: quick_secs, threads: 8, case_cpu_s },
        Tier::Thorough => Plan { cases: quick_cases * 3000, secs: 240.0, threads: 8, case_cpu_s: case_cpu_s * 2 },
    }
}
