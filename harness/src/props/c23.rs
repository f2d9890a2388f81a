//! C23 mounts drive all their children.
use super::hier::*;
use super::wide;
use crate::engine::*;
use proptest::prelude::*;

fn g() -> G {
    G { limits: 0, kinds: plain_kinds, attached: false, spies: true, tame: true, ops: 50, structural: 1 }
}
fn case() -> impl Strategy<Value = HCase> {
    hcase(g(), mount(g(), 3).prop_map(ProcSpec::Mount))
}
fn check(c: &HCase, o: &mut Obs) -> Res {
    let s = run_hier(c)?;
    let e = &s.env;
    let runs = c.ops.iter().filter(|x| matches!(x, HOp::Process(..))).count();
    o.nontrivial_if(e.teles.len() + e.spies.len() > 1 && runs > 0);
    o.label_if(e.spies.len() > 2, "several recording processors");
    o.label_if(e.partial > 0, "backlog left");
    o.label_if(e.dropped > 0, "drops");
    Ok(())
}

fn wide_check(c: &wide::Wide, o: &mut Obs) -> Res {
    let s = c.run()?;
    wide::note(c, &s, o);
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
    facet(
        "wide",
        "mounts of up to 420 processors and up to 100 mounts in each other, every processor with a backlog of its own, runs with any limit; outcomes, deliveries and snapshots compared with the model; non-trivial: more than 20 of one kind and an instrument updated",
        Clock::Local,
        6_000,
        60_000,
        || wide::wide([4, 3, 1, 0, 0, 0, 1]),
        wide_check,
    ),
    facet(
        "model",
        "mounts nested up to five deep over real and recording processors, runs with any limit and strategy; outcome, calls received and snapshots compared with the model; non-trivial: at least two processors and a run",
        Clock::Local,
        40_000,
        400_000,
        case,
        check,
    )]
}
