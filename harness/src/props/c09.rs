//! C09 statistics of a tracking gauge.
use super::hist::*;
use super::inst::*;
use crate::engine::*;
use crate::kit::*;
use crate::vclock;
use crate::ensure;
use metrix::instruments::*;
use metrix::snapshot::ItemKind;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn tracking_kind() -> impl Strategy<Value = IKind> {
    (
        prop_oneof![4 => 1usize..6, 2 => 6usize..70, 1 => 70usize..4000],
        unit(),
        any::<bool>(),
        proptest::option::of(any_i64()),
        any::<bool>(),
    )
        .prop_map(|(track, unit, group, init, init_first)| IKind::Gauge { track: Some(track), unit, group, init, init_first })
}

fn value_kind() -> impl Strategy<Value = Kind> {
    prop_oneof![
        6 => (-1000i64..1000).prop_map(|v| Kind::Value(Val::I(v))),
        3 => (-50i64..50).prop_map(|v| Kind::Value(Val::Chg(v))),
        3 => val().prop_map(Kind::Value),
        1 => kind(),
    ]
}

fn case() -> impl Strategy<Value = ICase> {
    icase(spec(tracking_kind()), value_kind, 50)
}

fn check(c: &ICase, o: &mut Obs) -> Res {
    let mut st = IStats::default();
    run_inst(c, &mut st)?;
    o.nontrivial_if(st.seconds >= 2 || st.expired > 0);
    o.label_if(st.seconds >= 2, "several seconds in the window");
    o.label_if(st.expired > 0, "values left the window");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ordered {
    window: usize,
    ops: Vec<(u64, Vec<i64>)>,
}

/// bottom <= bottom averages <= average <= peak averages <= peak, from the snapshot alone
fn ordering(c: &Ordered, o: &mut Obs) -> Res {
    let mut g = Gauge::new("g").tracking(c.window);
    for (i, (gap, vs)) in c.ops.iter().enumerate() {
        vclock::advance(*gap);
        for v in vs {
            g.update(&Kind::Value(Val::I(*v)).update(real_now()));
        }
        let s = snap(&g, false);
        if g.get().is_none() {
            ensure!(s.items.is_empty(), "op {}: shows {:?} without a value", i, s);
            continue;
        }
        let n = |n: &str| -> Result<f64, String> {
            match get(&s, n) {
                Some(ItemKind::Int(v)) => Ok(*v as f64),
                Some(ItemKind::UInt(v)) => Ok(*v as f64),
                Some(ItemKind::Float(v)) => Ok(*v),
                x => Err(format!("op {}: {} shows {:?}", i, n, x)),
            }
        };
        let (peak, peak_min, peak_avg) = (n("g_peak")?, n("g_peak_min")?, n("g_peak_avg")?);
        let (bottom, bottom_max, bottom_avg, avg) = (n("g_bottom")?, n("g_bottom_max")?, n("g_bottom_avg")?, n("g_avg")?);
        let e = (peak.abs().max(bottom.abs())) * 1e-9;
        for (a, b, what) in [
            (bottom, avg, "bottom <= avg"),
            (avg, peak, "avg <= peak"),
            (bottom, bottom_avg, "bottom <= bottom_avg"),
            (bottom_avg, bottom_max, "bottom_avg <= bottom_max"),
            (bottom_avg, peak_avg, "bottom_avg <= peak_avg"),
            (peak_min, peak_avg, "peak_min <= peak_avg"),
            (peak_avg, peak, "peak_avg <= peak"),
            (bottom, peak_min, "bottom <= peak_min"),
            (bottom_max, peak, "bottom_max <= peak"),
        ] {
            ensure!(a <= b + e, "op {}: {} fails: {} and {} in {:?}", i, what, a, b, s);
        }
        if !vs.is_empty() {
            let hi = *vs.iter().max().unwrap() as f64;
            let lo = *vs.iter().min().unwrap() as f64;
            ensure!(peak >= hi && bottom <= lo, "op {}: the values just seen are not within bottom and peak: {:?}", i, s);
        }
    }
    o.nontrivial_if(c.ops.iter().filter(|x| !x.1.is_empty()).count() > 1);
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "window",
            "tracking gauges with windows of 1 to 4000 s, updates and silences around second and window boundaries, statistics recomputed from all values kept; non-trivial: several seconds in the window or values that left it",
            Clock::Local,
            40_000,
            800_000,
            case,
            check,
        ),
        facet(
            "ordering",
            "order relations between the statistics of a snapshot alone; non-trivial: more than one update with values",
            Clock::Local,
            200_000,
            2_000_000,
            || (1usize..40, vec((step(), vec(any_i64(), 0..4)), 1..25)).prop_map(|(window, ops)| Ordered { window, ops }),
            ordering,
        ),
    ]
}
