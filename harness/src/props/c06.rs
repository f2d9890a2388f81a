//! C06 what a snapshot of a whole hierarchy contains.
use super::hier::*;
use super::wide;
use crate::engine::*;
use crate::ensure;
use crate::kit::*;
use proptest::prelude::*;

fn g() -> G {
    G { limits: 1, kinds: all_kinds, attached: false, spies: true, tame: true, ops: 25, structural: 2 }
}
fn case() -> impl Strategy<Value = HCase> {
    hcase(g(), mount(g(), 2).prop_map(ProcSpec::Mount))
}
fn tree(c: &HCase, o: &mut Obs) -> Res {
    let s = run_hier(c)?;
    o.nontrivial_if(s.env.levels > 4 && s.env.took > 0);
    o.label_if(s.env.levels > 40, "many levels");
    Ok(())
}
fn no_histogram() -> BoxedStrategy<super::inst::IKind> {
    all_kinds().prop_filter("the sample of a histogram is random", |k| !matches!(k, super::inst::IKind::Histogram { .. })).boxed()
}
fn exact_case() -> impl Strategy<Value = HCase> {
    let g = G { kinds: no_histogram, ..g() };
    hcase(g, mount(g, 2).prop_map(ProcSpec::Mount))
}
fn purity(c: &HCase, o: &mut Obs) -> Res {
    look(c, o, false)
}
fn purity_exact(c: &HCase, o: &mut Obs) -> Res {
    look(c, o, true)
}
/// The same history with and without looking.
fn look(c: &HCase, o: &mut Obs, exact: bool) -> Res {
    let mut quiet = System::new(&c.root);
    let mut watched = System::new(&c.root);
    let mut looked = 0;
    for (i, op) in c.ops.iter().enumerate() {
        if let HOp::Advance(n) = op {
            // one clock for both
            for _ in 0..2 {
                crate::vclock::advance(*n / 2);
                for d in [true, false] {
                    snap(&*watched.real, d);
                    looked += 1;
                }
            }
            continue;
        }
        if !matches!(op, HOp::Snap(_)) {
            quiet.step(i, op)?;
        }
        watched.step(i, op)?;
        snap(&*watched.real, i % 2 == 0);
        looked += 1;
    }
    for d in [false, true] {
        quiet.check("not looked at", d)?;
        watched.check("looked at", d)?;
        if !exact {
            continue;
        }
        let (a, b) = (snap(&*quiet.real, d), snap(&*watched.real, d));
        ensure!(near_snap(&a, &b), "looked at: {:?}\nnot looked at: {:?}", b, a);
    }
    o.nontrivial_if(looked > 3 && watched.env.took > 0);
    Ok(())
}

fn wide_check(c: &wide::Wide, o: &mut Obs) -> Res {
    let s = c.run()?;
    wide::note(c, &s, o);
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "tree",
            "mounts, processors, cockpits, panels nested up to seven deep, all instruments, handlers, snapshooters, titles and descriptions; every snapshot compared entry by entry, in order, with the model; non-trivial: at least five levels shown and an instrument updated",
            Clock::Local,
            24_000,
            240_000,
            case,
            tree,
        ),
        facet(
            "purity",
            "the same history on two equal hierarchies, one of them looked at all the time, both compared with the model; non-trivial: looked at more than three times, an instrument updated",
            Clock::Local,
            8_000,
            80_000,
            case,
            purity,
        ),
        facet(
            "purity-exact",
            "the same without histograms (whose sample is random), the two snapshots equal but for the rounding of floats; non-trivial: looked at more than three times, an instrument updated",
            Clock::Local,
            16_000,
            160_000,
            exact_case,
            purity_exact,
        ),
        facet(
            "wide",
            "up to 420 components of one kind side by side, or mounts or panels 100 deep, named and unnamed, with equal names; every entry in its place, once; non-trivial: more than 20 of one kind and an instrument updated",
            Clock::Local,
            6_000,
            60_000,
            || wide::wide([2, 2, 2, 2, 2, 2, 2]),
            wide_check,
        ),
    ]
}
