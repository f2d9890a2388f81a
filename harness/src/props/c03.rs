//! C03 the processing strategy.
use super::procmodel::*;
use crate::engine::*;
use crate::kit::*;
use proptest::collection::vec;
use proptest::prelude::*;

const LIMITS: [u64; 6] = [0, 1, 1_000, SEC, 30 * SEC, 3_600 * SEC];

fn strat() -> impl Strategy<Value = Strat> {
    prop_oneof![
        1 => Just(Strat::All),
        1 => Just(Strat::Drop),
        8 => (0usize..LIMITS.len(), any::<bool>()).prop_map(|(l, drop_deltas)| Strat::Older { max_age_ns: LIMITS[l], drop_deltas }),
        1 => (any_u64(), any::<bool>()).prop_map(|(max_age_ns, drop_deltas)| Strat::Older { max_age_ns, drop_deltas }),
        1 => any::<bool>().prop_map(|drop_deltas| Strat::OlderMax { drop_deltas }),
    ]
}

/// timestamps relative to now: around the negated limits, now, and the future
fn ts_off() -> impl Strategy<Value = i64> {
    prop_oneof![
        6 => (0usize..LIMITS.len(), -2i64..3).prop_map(|(l, d)| -(LIMITS[l] as i64) + d),
        2 => -(40 * SEC as i64)..0,
        1 => 0i64..(10 * SEC as i64),
        1 => -(800_000 * SEC as i64)..(800_000 * SEC as i64),
    ]
}

fn k() -> impl Strategy<Value = Kind> {
    prop_oneof![2 => kind(), 2 => any_i64().prop_map(|v| Kind::Value(Val::Chg(v)))]
}

fn case() -> impl Strategy<Value = PCase> {
    let op = prop_oneof![
        10 => (any::<u8>(), any::<u8>(), k(), ts_off()).prop_map(|(tx, label, kind, ts_off)| POp::Send { tx, label, kind, ts_off }),
        1 => (any::<u8>(), 0u16..60, any::<u8>(), k()).prop_map(|(tx, n, label, kind)| POp::Burst { tx, n, label, kind }),
        5 => (prop_oneof![2 => Just(10_000usize), 1 => max_limit()], strat()).prop_map(|(max, strat)| POp::Process { max, strat }),
        1 => (any::<u8>(), 0u8..4).prop_map(|(tx, reports)| POp::AddHandler { tx, reports }),
        1 => (any::<u8>(), proptest::option::of(0u8..4), 0u8..4).prop_map(|(tx, name, reports)| POp::AddCockpit { tx, name, reports }),
        1 => (any::<u8>(), 0u8..4).prop_map(|(tx, name)| POp::RemoveCockpit { tx, name }),
        1 => panel_ops(),
        1 => echo(),
        2 => prop_oneof![0u64..4, Just(SEC), (0usize..LIMITS.len()).prop_map(|l| LIMITS[l])].prop_map(POp::Advance),
        1 => Just(POp::Snapshot),
    ];
    (any::<bool>(), prop_oneof![Just(0u64), Just(1u64), 0u64..(2 * SEC)], vec(op, 1..45)).prop_map(|(named, advance, mut ops)| {
        ops.insert(0, POp::DirectHandler { reports: 1, advance });
        ops.insert(0, POp::DirectCockpit { name: None, reports: 1 });
        PCase { queue: Queue::Unbounded, named, ops }
    })
}

fn check(c: &PCase, o: &mut Obs) -> Res {
    let mut st = Stats::default();
    run(c, &mut st)?;
    o.nontrivial_if(st.delivered > 0 && st.dropped > 0);
    o.label_if(st.exact_age > 0, "age exactly the limit");
    o.label_if(st.old_deltas_kept > 0, "old delta kept");
    o.label_if(st.controls > 0, "structural messages");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "drop-rules",
        "up to 47 operations with ages around the limits (exactly, one ns less or more), deltas, handlers that take time, structural messages under every strategy; non-trivial: something kept and something dropped",
        Clock::Local,
        75_000,
        750_000,
        case,
        check,
    )]
}
