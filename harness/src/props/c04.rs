//! C04 observations reach exactly the instruments whose filters accept them.
use super::hier::*;
use super::wide;
use super::inst::*;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, ensure_eq, vclock};
use metrix::HandlesObservations;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct FCase(FilterSpec);

fn filters(c: &FCase, o: &mut Obs) -> Res {
    let f = c.0.real();
    let mut yes = 0;
    for l in 0..=255u8 {
        ensure_eq!(f.accepts(&l), c.0.accepts(l), "label {}", l);
        yes += c.0.accepts(l) as usize;
    }
    o.nontrivial_if(yes > 0 && yes < 256);
    o.label_if(yes > 5 && yes < 256, "more than five labels");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Obs(u8, Kind, i64),
    Advance(u64),
    Snap(bool),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct TCase {
    root: NodeSpec,
    ops: Vec<Op>,
}

fn g() -> G {
    G { limits: 0, kinds: all_kinds, attached: false, spies: false, tame: false, ops: 30, structural: 0 }
}

fn tcase() -> impl Strategy<Value = TCase> {
    let op = prop_oneof![
        8 => (label(), kind(), prop_oneof![4 => Just(0i64), 1 => -1_000_000_000i64..1_000_000_000]).prop_map(|(l, k, t)| Op::Obs(l, k, t)),
        2 => step().prop_map(Op::Advance),
        2 => any::<bool>().prop_map(Op::Snap),
    ];
    let root = prop_oneof![
        5 => panel(g(), 3).prop_map(NodeSpec::Panel),
        3 => cockpit(g(), 3).prop_map(NodeSpec::Cockpit),
        1 => node(g(), 0),
    ];
    (root, vec(op, 1..40)).prop_map(|(root, ops)| TCase { root, ops })
}

fn trees(c: &TCase, o: &mut Obs) -> Res {
    let mut env = Env::default();
    env.tick();
    let (mut real, mut model) = build_node(&c.root, &mut env);
    let mut look = |what: &str, d: bool, real: &dyn HandlesObservations<Label = u8>, model: &mut MNode, env: &mut Env| -> Res {
        env.tick();
        let s = snap(real, d);
        let mut want = Level::default();
        model.expect(&mut want, d, env);
        compare(what, &s, &want)
    };
    for (i, op) in c.ops.iter().enumerate() {
        env.tick();
        match op {
            Op::Obs(l, k, off) => {
                let ts = env.now as i128 + *off as i128;
                let n = real.handle_observation(&k.obs(*l, at(ts)));
                let (lo, hi) = model.handle(*l, *k, ts, &mut env);
                ensure!(n >= lo && n <= hi, "op {}: {} instruments updated, expected {} to {}", i, n, lo, hi);
                env.check_logs(&format!("op {}", i))?;
                if i % 4 == 0 {
                    look(&format!("after op {}", i), false, &*real, &mut model, &mut env)?;
                }
            }
            Op::Advance(n) => vclock::advance(*n),
            Op::Snap(d) => look(&format!("op {}", i), *d, &*real, &mut model, &mut env)?,
        }
    }
    look("at the end", true, &*real, &mut model, &mut env)?;
    o.nontrivial_if(env.took > 0 && env.refused > 0);
    o.label_if(env.levels > 3, "nested levels");
    o.label_if(env.recs.iter().any(|r| !r.expected.is_empty()), "handlers");
    o.label_if(env.took > 50, "many updates");
    Ok(())
}

fn processors() -> impl Strategy<Value = HCase> {
    hcase(g(), tele(g(), 3).prop_map(ProcSpec::Tele))
}
fn in_processor(c: &HCase, o: &mut Obs) -> Res {
    let s = run_hier(c)?;
    o.nontrivial_if(s.env.took > 0 && s.env.refused > 0);
    Ok(())
}

fn wide_check(c: &wide::Wide, o: &mut Obs) -> Res {
    let s = c.run()?;
    wide::note(c, &s, o);
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "filters",
            "every way to build a label filter, asked about all 256 labels; non-trivial: accepts some and refuses some",
            Clock::Local,
            200_000,
            2_000_000,
            || filter().prop_map(FCase),
            filters,
        ),
        facet(
            "trees",
            "panels and cockpits nested up to four deep with all instruments, adapters, modifiers, handlers; up to 40 observations; non-trivial: at least one instrument took and one refused an observation",
            Clock::Local,
            36_000,
            360_000,
            tcase,
            trees,
        ),
        facet(
            "processors",
            "the same below a processor fed by a transmitter; non-trivial: as for trees",
            Clock::Local,
            24_000,
            240_000,
            processors,
            in_processor,
        ),
        facet(
            "wide",
            "up to 420 cockpits, panels or handlers side by side, or panels 100 deep, with label filters all over; every handler called and every counter raised exactly when the filters on the way accept the label; non-trivial: more than 20 of one kind and an instrument updated",
            Clock::Local,
            6_000,
            60_000,
            || wide::wide([1, 0, 2, 3, 2, 3, 0]),
            wide_check,
        ),
    ]
}
