//! C05 structure changes sent through a transmitter.
use super::hier::*;
use crate::engine::*;
use proptest::prelude::*;

fn g() -> G {
    G { limits: 1, kinds: plain_kinds, attached: false, spies: false, tame: true, ops: 45, structural: 14 }
}
fn case() -> impl Strategy<Value = HCase> {
    prop_oneof![
        4 => hcase(g(), tele(g(), 1).prop_map(ProcSpec::Tele)).boxed(),
        1 => hcase(g(), mount(g(), 0).prop_map(ProcSpec::Mount)).boxed(),
    ]
}
fn check(c: &HCase, o: &mut Obs) -> Res {
    let s = run_hier(c)?;
    let e = &s.env;
    o.nontrivial_if(e.structural > 1 && e.took > 0);
    o.label_if(e.ignored_names > 0, "a name already taken");
    o.label_if(e.removed > 0, "removed");
    o.label_if(e.absent > 0, "names something absent");
    o.label_if(e.partial > 0, "run ends between messages");
    o.label_if(e.dropped > 0, "observations dropped");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "stream",
        "processors with up to 45 operations, a third of them structure changes by transmitter, runs of any length; the model applies them at their position; non-trivial: at least two structure changes processed and an instrument updated",
        Clock::Local,
        32_000,
        320_000,
        case,
        check,
    )]
}
