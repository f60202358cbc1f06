//! Properties: how each one is generated and judged.
pub mod util;

mod c01;
mod c02;
mod c03;
mod c04;
mod c06;
mod c08;
mod c05;
mod c07;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c17;
mod c18;
mod c19;
mod c16;
mod cmp;
mod c21;
mod c20;

use crate::driver::Budget;
use crate::rng::Rng;
use crate::run::RunSpec;

type Gen = fn(&mut Rng, u64, bool) -> RunSpec;
type Run = fn(&RunSpec);
struct Prop {
    id: &'static str,
    gen: Gen,
    run: Run,
    /// (runs, seconds) of the quick tier
    quick: (u64, f64),
    probes: &'static [&'static str],
}
const PROPS: &[Prop] = &[
    Prop { id: "C01", gen: c01::gen, run: c01::run, quick: (80000, 30.0), probes: c01::PROBES },
    Prop { id: "C02", gen: c02::gen, run: c02::run, quick: (80000, 30.0), probes: c02::PROBES },
    Prop { id: "C03", gen: c03::gen, run: c03::run, quick: (80000, 30.0), probes: c03::PROBES },
    Prop { id: "C04", gen: c04::gen, run: c04::run, quick: (80000, 30.0), probes: c04::PROBES },
    Prop { id: "C06", gen: c06::gen, run: c06::run, quick: (80000, 30.0), probes: c06::PROBES },
    Prop { id: "C08", gen: c08::gen, run: c08::run, quick: (80000, 30.0), probes: c08::PROBES },
    Prop { id: "C05", gen: c05::gen, run: c05::run, quick: (80000, 30.0), probes: c05::PROBES },
    Prop { id: "C07", gen: c07::gen, run: c07::run, quick: (80000, 30.0), probes: c07::PROBES },
    Prop { id: "C09", gen: c09::gen, run: c09::run, quick: (80000, 30.0), probes: c09::PROBES },
    Prop { id: "C10", gen: c10::gen, run: c10::run, quick: (80000, 30.0), probes: c10::PROBES },
    Prop { id: "C11", gen: c11::gen, run: c11::run, quick: (80000, 30.0), probes: c11::PROBES },
    Prop { id: "C12", gen: c12::gen, run: c12::run, quick: (80000, 30.0), probes: c12::PROBES },
    Prop { id: "C13", gen: c13::gen, run: c13::run, quick: (80000, 30.0), probes: c13::PROBES },
    Prop { id: "C14", gen: c14::gen, run: c14::run, quick: (80000, 30.0), probes: c14::PROBES },
    Prop { id: "C15", gen: c15::gen, run: c15::run, quick: (80000, 30.0), probes: c15::PROBES },
    Prop { id: "C17", gen: c17::gen, run: c17::run, quick: (80000, 30.0), probes: c17::PROBES },
    Prop { id: "C18", gen: c18::gen, run: c18::run, quick: (80000, 30.0), probes: c18::PROBES },
    Prop { id: "C19", gen: c19::gen, run: c19::run, quick: (80000, 30.0), probes: c19::PROBES },
    Prop { id: "C16", gen: c16::gen, run: c16::run, quick: (80000, 30.0), probes: c16::PROBES },
    Prop { id: "C21", gen: c21::gen, run: c21::run, quick: (80000, 30.0), probes: c21::PROBES },
    Prop { id: "C20", gen: c20::gen, run: c20::run, quick: (80000, 30.0), probes: c20::PROBES },
];
/// (property, one run in how many is on a compound tree)
const COMPOUND: &[(&str, u32)] = &[("C03", 12), ("C05", 10), ("C07", 8), ("C10", 8), ("C13", 5), ("C14", 8), ("C15", 8), ("C17", 10), ("C18", 10)];
fn find(p: &str) -> &'static Prop {
    PROPS.iter().find(|x| x.id == p).unwrap_or_else(|| panic!("unknown property {}", p))
}
pub fn gen(prop: &str, seed: u64, tier: &str) -> RunSpec {
    let p = find(prop);
    let mut r = Rng::new(seed ^ crate::rng::hash_bytes(3, prop.as_bytes()));
    // some properties are checked on compound trees, too
    let mut s = match COMPOUND.iter().find(|x| x.0 == prop) {
        Some(x) if r.chance(1, x.1) => cmp::gen(&mut r, seed, prop),
        _ => (p.gen)(&mut r, seed, tier != "quick"),
    };
    s.prop = prop.into();
    s.seed = seed;
    s
}
pub fn run(spec: &RunSpec) {
    crate::model::set_style(spec.case.dseed);
    if cmp::is(&spec.case) {
        cmp::run(spec)
    } else {
        (find(&spec.prop).run)(spec)
    }
}
pub fn budget(prop: &str, tier: &str) -> Budget {
    let p = find(prop);
    if tier == "quick" {
        Budget { runs: p.quick.0, wall_s: p.quick.1 }
    } else {
        Budget { runs: u64::MAX, wall_s: 600.0 }
    }
}
pub fn expected_probes(prop: &str) -> &'static [&'static str] {
    find(prop).probes
}
pub fn ids() -> Vec<&'static str> {
    PROPS.iter().map(|p| p.id).collect()
}
