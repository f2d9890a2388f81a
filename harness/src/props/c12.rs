//! C12 switches.
use super::hist::*;
use super::inst::*;
use crate::engine::*;
use crate::kit::*;

fn check(c: &ICase, o: &mut Obs) -> Res {
    let mut st = IStats::default();
    run_inst(c, &mut st)?;
    o.nontrivial_if(st.on > 0 && st.off > 0);
    o.label(match c.spec.kind {
        IKind::Staircase { .. } => "staircase timer",
        IKind::Occ { .. } => "occurrence indicator",
        IKind::NonOcc { .. } => "non-occurrence indicator",
        _ => "flag",
    });
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "model",
        "every switch in every configuration, occurrences and readings on and around the limit; non-trivial: seen on and off",
        Clock::Local,
        60_000,
        1_200_000,
        || fcase(spec(switch_kind()), kind, 40, 57, 20),
        check,
    )]
}
