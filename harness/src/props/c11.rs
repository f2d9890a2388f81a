//! C11 histograms.
use super::hist::*;
use super::inst::*;
use crate::engine::*;
use crate::kit::*;
use proptest::prelude::*;

fn hkind() -> impl Strategy<Value = Kind> {
    prop_oneof![
        6 => tame_val().prop_map(Kind::Value),
        3 => (0i64..6).prop_map(|v| Kind::Value(Val::I(v))),
        3 => val().prop_map(Kind::Value),
        1 => kind(),
    ]
}

fn big() -> impl Strategy<Value = ICase> {
    let hk = (unit(), proptest::option::of(dur()), any::<bool>(), any::<bool>())
        .prop_map(|(unit, limit, reset, show)| IKind::Histogram { unit, limit, reset, show });
    (spec(hk), proptest::collection::vec((prop_oneof![0u16..700, 900u16..1200], hkind(), step()), 2..6), any::<bool>()).prop_map(|(spec, parts, d)| {
        let mut ops = Vec::new();
        for (n, k, s) in parts {
            ops.push(IOp::Many(n, k));
            ops.push(IOp::Snap(d));
            ops.push(IOp::Advance(s));
        }
        ICase { spec, ops }
    })
}

fn check(c: &ICase, o: &mut Obs) -> Res {
    let mut st = IStats::default();
    run_inst(c, &mut st)?;
    o.nontrivial_if(st.updates >= 2);
    o.label_if(st.inactive > 0, "shown as inactive");
    o.label_if(st.samples > 1028, "more values than the sample holds");
    o.label_if(st.samples > 100, "more than 100 values");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "model",
            "histograms in every configuration against the statistics of all values; inactivity and resets around the limit; non-trivial: at least two values",
            Clock::Local,
            40_000,
            800_000,
            || icase(spec(histogram_kind()), hkind, 50),
            check,
        ),
        facet(
            "many",
            "up to 6000 values: exact while the sample holds all, within range afterwards; non-trivial: at least two values",
            Clock::Local,
            15_000,
            150_000,
            big,
            check,
        ),
    ]
}
