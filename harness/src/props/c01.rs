//! C01 exactly-once, in-order, unaltered delivery and truthful outcomes.
use super::procmodel::*;
use crate::engine::*;
use crate::kit::*;
use proptest::collection::vec;
use proptest::prelude::*;

fn strat() -> impl Strategy<Value = Strat> {
    prop_oneof![6 => Just(Strat::All), 1 => Just(Strat::Older { max_age_ns: 5, drop_deltas: true })]
}

pub fn case() -> impl Strategy<Value = PCase> {
    let op = prop_oneof![
        8 => (any::<u8>(), any::<u8>(), kind(), -100i64..100).prop_map(|(tx, label, kind, ts_off)| POp::Send { tx, label, kind, ts_off }),
        2 => (any::<u8>(), prop_oneof![0u16..40, 0u16..2500], any::<u8>(), kind()).prop_map(|(tx, n, label, kind)| POp::Burst { tx, n, label, kind }),
        7 => (max_limit(), strat()).prop_map(|(max, strat)| POp::Process { max, strat }),
        1 => (any::<u8>(), 0u8..4).prop_map(|(tx, reports)| POp::AddHandler { tx, reports }),
        1 => (any::<u8>(), proptest::option::of(0u8..4), 0u8..4).prop_map(|(tx, name, reports)| POp::AddCockpit { tx, name, reports }),
        1 => (any::<u8>(), 0u8..4).prop_map(|(tx, name)| POp::RemoveCockpit { tx, name }),
        1 => panel_ops(),
        1 => echo(),
        1 => any::<u8>().prop_map(|tx| POp::CloneTx { tx }),
        1 => (0u8..4, 0u64..10).prop_map(|(reports, advance)| POp::DirectHandler { reports, advance }),
        1 => (proptest::option::of(0u8..4), 0u8..4).prop_map(|(name, reports)| POp::DirectCockpit { name, reports }),
        1 => (0u64..1000).prop_map(POp::Advance),
        1 => Just(POp::Snapshot),
    ];
    (any::<bool>(), 0u8..3, 0u8..3, vec(op, 1..50)).prop_map(|(named, h, k, mut ops)| {
        for i in 0..h {
            ops.insert(0, POp::DirectHandler { reports: i, advance: 0 });
        }
        for i in 0..k {
            ops.insert(0, POp::DirectCockpit { name: if i == 0 { None } else { Some(i) }, reports: i });
        }
        PCase { queue: Queue::Unbounded, named, ops }
    })
}

fn check(c: &PCase, o: &mut Obs) -> Res {
    let mut st = Stats::default();
    run(c, &mut st)?;
    o.nontrivial_if(st.delivered > 1 && st.runs > 1);
    o.label_if(st.partial_runs > 0, "run left messages queued");
    o.label_if(st.delivered > 1000, "more than 1000 delivered");
    o.label_if(st.controls > 0, "structural messages");
    o.label_if(st.dropped > 0, "dropped some");
    o.label_if(st.echoed > 0, "sent from within a handler");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "stream",
        "up to 56 operations (send, burst of up to 2500, run with limit 0..max, structural messages, clones) on a processor with generated consumers; non-trivial: more than one delivery over more than one run",
        Clock::Local,
        60_000,
        600_000,
        case,
        check,
    )]
}
