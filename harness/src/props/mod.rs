//! The properties and the suites that decide them.

use crate::engine::Suite;

pub mod adjust;
pub mod comfort;
pub mod control;
pub mod estimate;
pub mod flow;
pub mod following;
pub mod junction;
pub mod lanes;
pub mod lights;
pub mod math;
pub mod motion;
pub mod pose;
pub mod prompt;
pub mod routing;
pub mod speed;
pub mod steps;
pub mod symmetry;
pub mod twin;

pub struct Prop {
    pub id: &'static str,
    pub suites: Vec<Suite>,
    pub assumptions: Vec<&'static str>,
}

fn prop(id: &'static str, suites: Vec<Suite>, assumptions: &[&'static str]) -> Prop {
    Prop {
        id,
        suites,
        assumptions: assumptions.to_vec(),
    }
}

pub fn all(t: bool) -> Vec<Prop> {
    vec![
        prop("C01", lights::safety(t), &["a light has at most 64 movements"]),
        prop("C02", lights::programme(t), &["a light has at most 64 movements"]),
        prop("C03", control::closed(t), &[]),
        prop("C04", control::signs(t), &[]),
        prop("C05", junction::collisions(t), &[]),
        prop("C06", junction::right_of_way(t), &[]),
        prop("C07", following::suites(t), &[]),
        prop("C08", motion::motion(t), &[]),
        prop("C09", speed::suites(t), &[]),
        prop("C10", motion::freeze(t), &[]),
        prop("C11", motion::conserved(t), &[]),
        prop("C12", routing::routes(t), &[]),
        prop("C13", routing::lane_permissions(t), &[]),
        prop("C14", lanes::geometry(t), &[]),
        prop("C15", lanes::neighbours(t), &[]),
        prop("C16", pose::suites(t), &[]),
        prop("C17", flow::suites(t), &[]),
        prop("C18", twin::isolation(t), &[]),
        prop("C19", twin::determinism(t), &[]),
        prop("C20", math::curves(t), &[]),
        prop("C21", math::scalars(t), &[]),
        prop("C22", routing::queries(t), &[]),
        prop("C24", adjust::suites(t), &[]),
        prop("C25", estimate::suites(t), &[]),
        prop("C26", symmetry::place(t), &[]),
        prop("C27", symmetry::order(t), &[]),
        prop("C28", steps::suites(t), &[]),
        prop("C29", comfort::suites(t), &[]),
        prop("C30", prompt::suites(t), &[]),
    ]
}
