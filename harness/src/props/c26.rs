//! C26 drivers mounted in mounts and in other drivers.
use super::drv::*;
use super::hier::*;
use crate::engine::*;
use proptest::collection::vec;
use proptest::prelude::*;

fn g() -> G {
    G { limits: 1, kinds: plain_kinds, attached: false, spies: false, tame: true, ops: 0, structural: 1 }
}
fn case() -> impl Strategy<Value = TCase> {
    let root = prop_oneof![
        driver_spec(g(), 2).prop_map(ProcSpec::Driver),
        mount_with(g(), 2).prop_map(ProcSpec::Mount),
    ];
    (root, vec(top(g(), 1), 1..30)).prop_map(|(root, ops)| TCase { root, ops })
}
fn nested(c: &TCase, o: &mut Obs) -> Res {
    let (mut snaps, mut processed, mut held, mut drivers) = (0, 0, 0, 0);
    run_world(c, |w| {
        snaps = w.snapshots;
        processed = w.processed_by_driver;
        held = w.held_back;
        drivers = w.env.drivers.len();
    })?;
    let inner = drivers > usize::from(matches!(c.root, ProcSpec::Driver(_)));
    o.nontrivial_if(inner && processed > 2 && snaps > 1);
    o.label_if(inner, "a driver inside");
    o.label_if(drivers > 3, "more than three drivers");
    o.label_if(held > 0, "messages waited while paused");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "nested",
        "mounts and drivers with drivers in them, up to three deep; pausing, strategies, limits of each; snapshots of each compared with the model; non-trivial: a driver inside another component, more than two messages processed by drivers, looked at more than once",
        Clock::Global,
        2_000,
        40_000,
        case,
        nested,
    )]
}
