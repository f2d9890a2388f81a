//! C14 inactivity limits.
use super::hier::*;
use crate::engine::*;
use proptest::prelude::*;

fn g() -> G {
    G { limits: 6, kinds: plain_kinds, attached: false, spies: true, tame: true, ops: 45, structural: 3 }
}
fn case() -> impl Strategy<Value = HCase> {
    let g = g();
    prop_oneof![
        3 => hcase(g, tele(g, 1).prop_map(ProcSpec::Tele)).boxed(),
        2 => hcase(g, mount(g, 1).prop_map(ProcSpec::Mount)).boxed(),
    ]
}
fn check(c: &HCase, o: &mut Obs) -> Res {
    let s = run_hier(c)?;
    o.nontrivial_if(s.env.hidden > 0 && s.env.took > 0);
    o.label_if(s.env.flags > 0, "flags");
    o.label_if(s.env.flags == 0 && s.env.hidden > 0, "hidden without flags");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "model",
        "hierarchies in which most panels, cockpits, processors and mounts have a limit from zero to the greatest duration, clock steps around these limits; non-trivial: a component hidden and an instrument updated",
        Clock::Local,
        32_000,
        320_000,
        case,
        check,
    )]
}
