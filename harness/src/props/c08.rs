//! C08 gauge values, and the adapters in front of a gauge.
use super::hist::*;
use super::inst::*;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, ensure_eq, vclock};
use metrix::instruments::*;
use metrix::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn gauge() -> impl Strategy<Value = ICase> {
    icase(spec(gauge_kind()), kind, 40)
}

fn values(c: &ICase, o: &mut Obs) -> Res {
    let mut st = IStats::default();
    run_inst(c, &mut st)?;
    let deltas = c.ops.iter().filter(|x| matches!(x, IOp::Up(Kind::Value(Val::Chg(_)), _))).count();
    o.nontrivial_if(st.updates >= 2 && deltas > 0);
    o.label_if(matches!(c.ops.iter().find(|x| matches!(x, IOp::Up(..))), Some(IOp::Up(Kind::Value(Val::Chg(_)), _))), "starts with a delta");
    o.label_if(c.ops.iter().any(|x| matches!(x, IOp::Up(Kind::Value(Val::D(..)), _))), "durations");
    o.label_if(st.ignored > 0, "updates a gauge ignores");
    Ok(())
}

// ------------------------------------------------------------ adapters

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Adapter {
    /// through which constructor
    Plain(u8),
    Deltas(u8),
    IncDec(u8),
    Deaf(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ACase {
    adapter: Adapter,
    inc: Vec<u8>,
    dec: Vec<u8>,
    init: Option<i64>,
    obs: Vec<(u8, Kind, i64)>,
}

fn acase() -> impl Strategy<Value = ACase> {
    let adapter = prop_oneof![
        2 => any::<u8>().prop_map(Adapter::Plain),
        3 => any::<u8>().prop_map(Adapter::Deltas),
        4 => any::<u8>().prop_map(Adapter::IncDec),
        1 => any::<u8>().prop_map(Adapter::Deaf),
    ];
    let label = || prop_oneof![8 => 0u8..6, 1 => any::<u8>()];
    (
        adapter,
        vec(label(), 0..8),
        vec(label(), 0..8),
        proptest::option::of(any_i64()),
        vec((label(), kind(), -1000i64..1000), 0..40),
    )
        .prop_map(|(adapter, inc, dec, init, obs)| ACase { adapter, inc, dec, init, obs })
}

fn adapters(c: &ACase, o: &mut Obs) -> Res {
    let mut g = Gauge::new("g");
    if let Some(i) = c.init {
        g = g.value(i);
    }
    let (inc, dec) = (c.inc.clone(), c.dec.clone());
    let (pi, pd) = (c.inc.clone(), c.dec.clone());
    let mut a: GaugeAdapter<u8> = match c.adapter {
        Adapter::Plain(w) => match w % 7 {
            0 => GaugeAdapter::accept(inc, g),
            1 => GaugeAdapter::for_labels(inc, g),
            2 => GaugeAdapter::for_labels_by_predicate(move |l| pi.contains(l), g),
            3 => g.accept(inc),
            4 => g.for_labels(inc),
            5 => g.for_labels_by_predicate(move |l| pi.contains(l)),
            _ => g.accept(LabelPredicate(move |l: &u8| pi.contains(l))),
        },
        Adapter::Deltas(w) => match w % 6 {
            0 => GaugeAdapter::deltas_only(inc, g),
            1 => GaugeAdapter::for_labels_deltas_only(inc, g),
            2 => GaugeAdapter::for_labels_deltas_only_by_predicate(move |l| pi.contains(l), g),
            3 => g.deltas_only(inc),
            4 => g.for_labels_deltas_only(inc),
            _ => g.for_labels_deltas_only_by_predicate(move |l| pi.contains(l)),
        },
        Adapter::IncDec(w) => match w % 6 {
            0 => GaugeAdapter::inc_dec_on(inc, dec, g),
            1 => GaugeAdapter::inc_dec_on_many(inc, dec, g),
            2 => GaugeAdapter::inc_dec_by_predicates(move |l| pi.contains(l), move |l| pd.contains(l), g),
            3 => g.inc_dec_on(inc, dec),
            4 => g.inc_dec_on_many(inc, dec),
            _ => g.inc_dec_by_predicates(move |l| pi.contains(l), move |l| pd.contains(l)),
        },
        Adapter::Deaf(w) => match w % 3 {
            0 => GaugeAdapter::deaf(g),
            1 => g.adapter(),
            _ => GaugeAdapter::accept(AcceptNoLabel, g),
        },
    };
    let mut model = c.init;
    let (mut took, mut left) = (0, 0);
    for (i, (label, kind, off)) in c.obs.iter().enumerate() {
        let ts = at(vclock::now_ns() as i128 + *off as i128);
        let r = a.handle_observation(&kind.obs(*label, ts));
        let delta = |d: i64, m: Option<i64>| Some(m.unwrap_or(0).saturating_add(d));
        let (next, want) = match c.adapter {
            Adapter::Plain(_) if c.inc.contains(label) => match kind {
                Kind::Value(Val::Chg(d)) => (delta(*d, model), Some(1)),
                Kind::Value(v) => match as_value(*v, Unit::Us) {
                    Some(v) => (Some(v), Some(1)),
                    None => (model, None),
                },
                _ => (model, Some(0)),
            },
            Adapter::Deltas(_) if c.inc.contains(label) => match kind {
                Kind::Value(Val::Chg(d)) => (delta(*d, model), Some(1)),
                _ => (model, Some(0)),
            },
            Adapter::IncDec(_) if c.inc.contains(label) => (delta(1, model), Some(1)),
            Adapter::IncDec(_) if c.dec.contains(label) => (delta(-1, model), Some(1)),
            _ => (model, Some(0)),
        };
        if want == Some(1) {
            took += 1
        } else {
            left += 1
        }
        model = next;
        ensure_eq!(a.gauge().get(), model, "value after observation {}", i);
        if let Some(w) = want {
            ensure_eq!(r, w, "instruments updated by observation {}", i);
        }
        let s = snap(&a, i % 2 == 0);
        match model {
            Some(v) => {
                ensure!(s.items.len() == 1 && s.items[0].0 == "g" && as_int(&s.items[0].1) == Some(v as i128), "shown {:?}, expected {}", s, v)
            }
            None => ensure!(s.items.is_empty(), "shown {:?} without a value", s),
        }
    }
    ensure_eq!(a.into_inner().get(), model, "inner gauge");
    o.nontrivial_if(took > 0 && left > 0);
    o.label(match c.adapter {
        Adapter::Plain(_) => "plain",
        Adapter::Deltas(_) => "deltas only",
        Adapter::IncDec(_) => "increment and decrement",
        Adapter::Deaf(_) => "deaf",
    });
    o.label_if(c.inc.iter().any(|l| c.dec.contains(l)), "a label both increments and decrements");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "values",
            "gauges in every configuration, up to 40 updates of every kind incl. numeric limits, snapshots; non-trivial: at least two accepted updates and a delta",
            Clock::Local,
            40_000,
            800_000,
            gauge,
            values,
        ),
        facet(
            "adapters",
            "every constructor of a gauge adapter, label sets that overlap, up to 40 observations; non-trivial: some observations change the gauge and some do not",
            Clock::Local,
            100_000,
            1_000_000,
            acase,
            adapters,
        ),
    ]
}
