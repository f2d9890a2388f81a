//! C13 data displays and last occurrence trackers.
use super::hist::*;
use super::inst::*;
use crate::engine::*;
use crate::kit::*;

fn check(c: &ICase, o: &mut Obs) -> Res {
    let mut st = IStats::default();
    run_inst(c, &mut st)?;
    o.nontrivial_if(st.updates >= 2);
    o.label_if(st.shown > 0 && st.hidden > 0, "shown and not shown");
    o.label(match c.spec.kind {
        IKind::LastOcc { .. } => "last occurrence",
        _ => "data display",
    });
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "model",
        "displays and trackers in every configuration, observations of every kind, readings on and around the reset time; non-trivial: at least two updates taken",
        Clock::Local,
        60_000,
        1_200_000,
        || fcase(spec(display_kind()), kind, 40, 57, 20),
        check,
    )]
}
