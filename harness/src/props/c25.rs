//! C25 dropping either end.
use super::hier::*;
use super::inst::step;
use super::procmodel::*;
use crate::engine::*;
use crate::kit::*;
use proptest::collection::vec;
use proptest::prelude::*;

fn case() -> impl Strategy<Value = PCase> {
    let send = || {
        prop_oneof![
            6 => (any::<u8>(), any::<u8>(), kind(), -100i64..100).prop_map(|(tx, label, kind, ts_off)| POp::Send { tx, label, kind, ts_off }),
            2 => (any::<u8>(), prop_oneof![3 => 0u16..30, 1 => 0u16..1500], any::<u8>(), kind()).prop_map(|(tx, n, label, kind)| POp::Burst { tx, n, label, kind }),
            1 => (any::<u8>(), 0u8..4).prop_map(|(tx, reports)| POp::AddHandler { tx, reports }),
            1 => (any::<u8>(), proptest::option::of(0u8..4), 0u8..4).prop_map(|(tx, name, reports)| POp::AddCockpit { tx, name, reports }),
            1 => panel_ops(),
            1 => any::<u8>().prop_map(|tx| POp::CloneTx { tx }),
            1 => any::<u8>().prop_map(|tx| POp::DropTx { tx }),
            2 => max_limit().prop_map(|max| POp::Process { max, strat: Strat::All }),
            1 => Just(POp::Snapshot),
        ]
    };
    let after = || {
        prop_oneof![
            5 => (max_limit(), prop_oneof![4 => Just(Strat::All), 1 => Just(Strat::Drop), 1 => Just(Strat::Older{max_age_ns: 10, drop_deltas: false})]).prop_map(|(max, strat)| POp::Process { max, strat }),
            2 => Just(POp::Snapshot),
            1 => (0u8..4, 0u64..1).prop_map(|(reports, advance)| POp::DirectHandler { reports, advance }),
            1 => (0u64..1_000_000_000_000).prop_map(POp::Advance),
            1 => (any::<u8>(), any::<u8>(), kind(), -100i64..100).prop_map(|(tx, label, kind, ts_off)| POp::Send { tx, label, kind, ts_off }),
            1 => send(),
        ]
    };
    let queue = prop_oneof![
        2 => Just(Queue::Unbounded),
        1 => (1usize..40, any::<bool>()).prop_map(|(cap, block)| Queue::Bounded { cap, block }),
    ];
    (queue, any::<bool>(), vec(send(), 1..30), prop_oneof![5 => Just(POp::DropAllTx), 1 => Just(POp::DropProcessor)], vec(after(), 1..20)).prop_map(
        |(queue, named, mut ops, cut, after)| {
            ops.insert(0, POp::DirectHandler { reports: 1, advance: 0 });
            ops.insert(0, POp::DirectCockpit { name: Some(0), reports: 2 });
            ops.push(cut);
            ops.extend(after);
            PCase { queue, named, ops }
        },
    )
}

fn check(c: &PCase, o: &mut Obs) -> Res {
    let mut st = Stats::default();
    run(c, &mut st)?;
    o.nontrivial_if(st.drained_after_disconnect > 0 || c.ops.iter().any(|x| matches!(x, POp::DropProcessor)));
    o.label_if(st.drained_after_disconnect > 0, "drained after all transmitters were dropped");
    o.label_if(st.partial_runs > 0, "run left messages queued");
    Ok(())
}

// Whole hierarchies: what went quiet before the cut has to stay as it is.
fn hier() -> impl Strategy<Value = HCase> {
    let g = G { limits: 4, kinds: plain_kinds, attached: false, spies: false, tame: true, ops: 25, structural: 3 };
    let cut = || {
        prop_oneof![
            6 => any::<u8>().prop_map(HOp::DropTx),
            3 => hop(g),
            2 => (limit(), strat()).prop_map(|(m, s)| HOp::Process(m, s)),
            2 => step().prop_map(HOp::Advance),
            2 => any::<bool>().prop_map(HOp::Snap),
        ]
    };
    let root = prop_oneof![tele(g, 1).prop_map(ProcSpec::Tele).boxed(), mount(g, 1).prop_map(ProcSpec::Mount).boxed()];
    (hcase(g, root), vec(cut(), 3..30)).prop_map(|(mut c, more)| {
        c.ops.extend(more);
        c
    })
}
fn hier_check(c: &HCase, o: &mut Obs) -> Res {
    let mut s = System::new(&c.root);
    let (mut cut, mut looks) = (0, 0);
    for (i, op) in c.ops.iter().enumerate() {
        if matches!(op, HOp::DropTx(_)) && !s.env.txs.is_empty() {
            cut += 1;
        }
        if cut > 0 && s.env.txs.is_empty() && matches!(op, HOp::Snap(_)) {
            looks += 1;
        }
        s.step(i, op)?;
        if s.env.txs.is_empty() && matches!(op, HOp::Process(..)) {
            s.check("after the cut", i % 2 == 0)?;
            looks += 1;
        }
    }
    s.finish()?;
    o.nontrivial_if(cut > 0 && s.env.took > 0);
    o.label_if(looks > 0, "everything cut off and looked at");
    o.label_if(s.env.hidden > 0, "inactive");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "hierarchies",
            "processors and mounts full of components, most with inactivity limits, whose transmitters are dropped one after the other between runs, clock steps and snapshots, compared with the model; non-trivial: a transmitter dropped and an instrument updated",
            Clock::Local,
            16_000,
            160_000,
            hier,
            hier_check,
        ),
        facet(
        "disconnect",
        "sends, then all transmitters or the processor dropped, then runs, snapshots and sends; non-trivial: messages drained after the cut, or sends to a processor that is gone",
        Clock::Local,
        60_000,
        600_000,
        case,
        check,
        ),
    ]
}
