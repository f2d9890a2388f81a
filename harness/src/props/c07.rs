//! C07 A counter shows the exact number of observed occurrences.
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, ensure_eq};
use metrix::instruments::*;
use metrix::snapshot::ItemKind;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Up(Kind),
    Inc,
    IncBy(u64),
    Advance(u64),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    name: String,
    ts_off: i64,
    ops: Vec<Op>,
}

fn ops() -> impl Strategy<Value = Vec<Op>> {
    vec(
        prop_oneof![
            8 => kind().prop_map(Op::Up),
            2 => Just(Op::Inc),
            3 => any_u64().prop_map(Op::IncBy),
            1 => gap().prop_map(Op::Advance),
        ],
        0..60,
    )
}

fn case() -> impl Strategy<Value = Case> {
    ("[a-z_]{0,6}", -5_000_000_000i64..5_000_000_000, ops()).prop_map(|(name, ts_off, ops)| Case { name, ts_off, ops })
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let mut counter = Counter::new_with_defaults(c.name.as_str());
    let mut model: u64 = 0;
    let mut wrapped = false;
    ensure_eq!(counter.get(), 0, "initial value");
    for (i, op) in c.ops.iter().enumerate() {
        let add = match op {
            Op::Up(k) => {
                let r = counter.update(&k.update(at(crate::vclock::now_ns() as i128 + c.ts_off as i128)));
                ensure_eq!(r, 1, "updated instruments after op {}", i);
                k.count()
            }
            Op::Inc => {
                counter.inc();
                1
            }
            Op::IncBy(n) => {
                counter.inc_by(*n);
                *n
            }
            Op::Advance(n) => {
                crate::vclock::advance(*n);
                0
            }
        };
        let (m, over) = model.overflowing_add(add);
        wrapped |= over;
        model = if over { u64::MAX } else { m };
        ensure_eq!(counter.get(), model, "value after op {}", i);
        let s = snap(&counter, i % 2 == 0);
        ensure_eq!(s.items.len(), 1, "snapshot entries");
        ensure!(s.items[0].0 == c.name, "snapshot name {:?}", s.items[0].0);
        ensure!(s.items[0].1 == ItemKind::UInt(model), "snapshot shows {:?}, not {}", s.items[0].1, model);
    }
    o.nontrivial_if(c.ops.iter().filter(|x| matches!(x, Op::Up(_))).count() >= 2);
    o.label_if(wrapped, "passes the numeric limit");
    o.label_if(c.ops.iter().any(|x| matches!(x, Op::Up(Kind::Value(_)))), "values");
    o.label_if(c.ops.iter().any(|x| matches!(x, Op::Up(Kind::Many(0)))), "zero counts");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Batch {
    counts: Vec<u16>,
}

/// n occurrences at once equal n single ones
fn batching(c: &Batch, o: &mut Obs) -> Res {
    let mut a = Counter::new_with_defaults("a");
    let mut b = Counter::new_with_defaults("a");
    for n in &c.counts {
        a.update(&Kind::Many(*n as u64).update(real_now()));
        for k in 0..*n {
            let k = if k % 3 == 0 { Kind::Value(Val::I(-(k as i64))) } else { Kind::One };
            b.update(&k.update(real_now()));
        }
        ensure_eq!(a.get(), b.get(), "batched and single");
    }
    o.nontrivial_if(c.counts.iter().filter(|n| **n > 0).count() > 1);
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "model",
            "up to 60 updates of every kind with counts up to u64::MAX; non-trivial: at least two updates",
            Clock::Local,
            120_000,
            1_200_000,
            case,
            check,
        ),
        facet(
            "batching",
            "batches against single observations; non-trivial: at least two non-empty batches",
            Clock::Local,
            40_000,
            400_000,
            || vec(0u16..300, 0..12).prop_map(|counts| Batch { counts }),
            batching,
        ),
    ]
}
