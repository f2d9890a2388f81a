//! C24 convenience senders.
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, ensure_eq, vclock};
use metrix::processor::*;
use metrix::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Observed(u8, u64, i64),
    ObservedOne(u8, i64),
    ObservedOneValue(u8, Val, i64),
    ObservedDuration(u8, u64, u32, i64),
    ObservedNow(u8, u64),
    ObservedOneNow(u8),
    ObservedOneValueNow(u8, Val),
    ObservedOneDurationNow(u8, u64, u32),
    /// start relative to now
    MeasureTime(u8, i64),
    CtorObserved(u8, u64, i64),
    CtorObservedNow(u8, u64),
    CtorOne(u8, i64),
    CtorOneNow(u8),
    CtorValue(u8, Val, i64),
    CtorValueNow(u8, Val),
    Typed(u8, Typed),
    Advance(u64),
}

/// the values as callers write them
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
enum Typed {
    I64(i64),
    I32(i32),
    I16(i16),
    I8(i8),
    U64(u64),
    U32(u32),
    U16(u16),
    U8(u8),
    Usize(u64),
    F64(F),
    B(bool),
    Inc,
    Dec,
    IncBy(u32),
    DecBy(u32),
    ChangeBy(i64),
    DurUnit(u64, Unit),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    tick: u64,
    ops: Vec<Op>,
}

pub fn dur_ns(d: Duration) -> u64 {
    u64::try_from(d.as_nanos()).unwrap_or(u64::MAX)
}

fn secs() -> impl Strategy<Value = u64> {
    prop_oneof![4 => 0u64..100, 2 => any_u64(), 2 => 18_446_744_070u64..18_446_744_080]
}

fn case() -> impl Strategy<Value = Case> {
    let off = || prop_oneof![3 => -3i64..4, 3 => -1_000_000_000_000i64..1_000_000_000_000];
    let typed = prop_oneof![
        any_i64().prop_map(Typed::I64),
        any::<i32>().prop_map(Typed::I32),
        any::<i16>().prop_map(Typed::I16),
        any::<i8>().prop_map(Typed::I8),
        any_u64().prop_map(Typed::U64),
        any::<u32>().prop_map(Typed::U32),
        any::<u16>().prop_map(Typed::U16),
        any::<u8>().prop_map(Typed::U8),
        any_u64().prop_map(Typed::Usize),
        any_f64().prop_map(Typed::F64),
        any::<bool>().prop_map(Typed::B),
        Just(Typed::Inc),
        Just(Typed::Dec),
        prop_oneof![any::<u32>(), Just(u32::MAX), Just(0)].prop_map(Typed::IncBy),
        prop_oneof![any::<u32>(), Just(u32::MAX), Just(0)].prop_map(Typed::DecBy),
        any_i64().prop_map(Typed::ChangeBy),
        (any_u64(), unit()).prop_map(|(v, u)| Typed::DurUnit(v, u)),
    ];
    let l = any::<u8>;
    let op = prop_oneof![
        1 => (l(), any_u64(), off()).prop_map(|(l, n, t)| Op::Observed(l, n, t)),
        1 => (l(), off()).prop_map(|(l, t)| Op::ObservedOne(l, t)),
        1 => (l(), val(), off()).prop_map(|(l, v, t)| Op::ObservedOneValue(l, v, t)),
        1 => (l(), secs(), 0u32..1_000_000_000, off()).prop_map(|(l, s, n, t)| Op::ObservedDuration(l, s, n, t)),
        1 => (l(), any_u64()).prop_map(|(l, n)| Op::ObservedNow(l, n)),
        1 => l().prop_map(Op::ObservedOneNow),
        1 => (l(), val()).prop_map(|(l, v)| Op::ObservedOneValueNow(l, v)),
        1 => (l(), secs(), 0u32..1_000_000_000).prop_map(|(l, s, n)| Op::ObservedOneDurationNow(l, s, n)),
        2 => (l(), off()).prop_map(|(l, t)| Op::MeasureTime(l, t)),
        1 => (l(), any_u64(), off()).prop_map(|(l, n, t)| Op::CtorObserved(l, n, t)),
        1 => (l(), any_u64()).prop_map(|(l, n)| Op::CtorObservedNow(l, n)),
        1 => (l(), off()).prop_map(|(l, t)| Op::CtorOne(l, t)),
        1 => l().prop_map(Op::CtorOneNow),
        1 => (l(), val(), off()).prop_map(|(l, v, t)| Op::CtorValue(l, v, t)),
        1 => (l(), val()).prop_map(|(l, v)| Op::CtorValueNow(l, v)),
        2 => (l(), typed).prop_map(|(l, t)| Op::Typed(l, t)),
        1 => gap().prop_map(Op::Advance),
    ];
    (prop_oneof![Just(0u64), Just(1u64), 1u64..100_000], vec(op, 1..20)).prop_map(|(tick, ops)| Case { tick, ops })
}

enum When {
    At(Instant),
    Now,
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let (tx, mut rx) = TelemetryProcessor::<u8>::new_pair_without_name();
    let (rec, log) = Recorder::new("r", 1);
    rx.add_handler(rec);
    for (i, op) in c.ops.iter().enumerate() {
        let t = |off: i64| at(vclock::now_ns() as i128 + off as i128);
        vclock::set_tick(0);
        let begin = Instant::now();
        // (label, kind, timestamp); None: nothing may be sent
        let expected: Option<(u8, Kind, When)> = match op {
            Op::Advance(n) => {
                vclock::advance(*n);
                None
            }
            Op::Observed(l, n, ts) => {
                let ts = t(*ts);
                vclock::set_tick(c.tick);
                tx.observed(*l, *n, ts);
                Some((*l, Kind::Many(*n), When::At(ts)))
            }
            Op::ObservedOne(l, ts) => {
                let ts = t(*ts);
                vclock::set_tick(c.tick);
                tx.observed_one(*l, ts);
                Some((*l, Kind::One, When::At(ts)))
            }
            Op::ObservedOneValue(l, v, ts) => {
                let ts = t(*ts);
                vclock::set_tick(c.tick);
                tx.observed_one_value(*l, v.ov(), ts);
                Some((*l, Kind::Value(*v), When::At(ts)))
            }
            Op::ObservedDuration(l, s, n, ts) => {
                let ts = t(*ts);
                vclock::set_tick(c.tick);
                let d = Duration::new(*s, *n);
                tx.observed_duration(*l, d, ts);
                Some((*l, Kind::Value(Val::D(dur_ns(d), Unit::Ns)), When::At(ts)))
            }
            Op::ObservedNow(l, n) => {
                vclock::set_tick(c.tick);
                tx.observed_now(*l, *n);
                Some((*l, Kind::Many(*n), When::Now))
            }
            Op::ObservedOneNow(l) => {
                vclock::set_tick(c.tick);
                tx.observed_one_now(*l);
                Some((*l, Kind::One, When::Now))
            }
            Op::ObservedOneValueNow(l, v) => {
                vclock::set_tick(c.tick);
                tx.observed_one_value_now(*l, v.ov());
                Some((*l, Kind::Value(*v), When::Now))
            }
            Op::ObservedOneDurationNow(l, s, n) => {
                vclock::set_tick(c.tick);
                let d = Duration::new(*s, *n);
                tx.observed_one_duration_now(*l, d);
                Some((*l, Kind::Value(Val::D(dur_ns(d), Unit::Ns)), When::Now))
            }
            Op::MeasureTime(l, off) => {
                let from = t(*off);
                // with a ticking clock a start within the call is ambiguous
                let tick = if *off > 0 { 0 } else { c.tick };
                vclock::set_tick(tick);
                tx.measure_time(*l, from);
                vclock::set_tick(0);
                let end = Instant::now();
                rx.process(10, ProcessingStrategy::ProcessAll);
                let mut log = log.lock().unwrap();
                if *off > 0 {
                    ensure!(log.is_empty(), "op {}: sent {:?} for a start in the future", i, log);
                } else {
                    ensure_eq!(log.len(), 1, "op {}: observations", i);
                    let r = log.pop().unwrap();
                    ensure!(r.ts >= begin && r.ts <= end, "op {}: timestamp is not the time of the call", i);
                    ensure_eq!(r.label, *l, "op {}: label", i);
                    ensure_eq!(r.kind, Kind::Value(Val::D(dur_ns(r.ts - from), Unit::Ns)), "op {}: measured time", i);
                    o.label_if(*off == 0, "measured zero");
                }
                continue;
            }
            Op::CtorObserved(l, n, ts) => {
                let ts = t(*ts);
                tx.transmit(Observation::observed(*l, *n, ts));
                Some((*l, Kind::Many(*n), When::At(ts)))
            }
            Op::CtorObservedNow(l, n) => {
                vclock::set_tick(c.tick);
                tx.transmit(Observation::observed_now(*l, *n));
                Some((*l, Kind::Many(*n), When::Now))
            }
            Op::CtorOne(l, ts) => {
                let ts = t(*ts);
                tx.transmit(Observation::observed_one(*l, ts));
                Some((*l, Kind::One, When::At(ts)))
            }
            Op::CtorOneNow(l) => {
                vclock::set_tick(c.tick);
                tx.transmit(Observation::observed_one_now(*l));
                Some((*l, Kind::One, When::Now))
            }
            Op::CtorValue(l, v, ts) => {
                let ts = t(*ts);
                tx.transmit(Observation::observed_one_value(*l, v.ov(), ts));
                Some((*l, Kind::Value(*v), When::At(ts)))
            }
            Op::CtorValueNow(l, v) => {
                vclock::set_tick(c.tick);
                tx.transmit(Observation::observed_one_value_now(*l, v.ov()));
                Some((*l, Kind::Value(*v), When::Now))
            }
            Op::Typed(l, v) => {
                let v = match *v {
                    Typed::I64(v) => {
                        tx.observed_one_value_now(*l, v);
                        Val::I(v)
                    }
                    Typed::I32(v) => {
                        tx.observed_one_value_now(*l, v);
                        Val::I(v as i64)
                    }
                    Typed::I16(v) => {
                        tx.observed_one_value_now(*l, v);
                        Val::I(v as i64)
                    }
                    Typed::I8(v) => {
                        tx.observed_one_value_now(*l, v);
                        Val::I(v as i64)
                    }
                    Typed::U64(v) => {
                        tx.observed_one_value_now(*l, v);
                        Val::U(v)
                    }
                    Typed::U32(v) => {
                        tx.observed_one_value_now(*l, v);
                        Val::U(v as u64)
                    }
                    Typed::U16(v) => {
                        tx.observed_one_value_now(*l, v);
                        Val::U(v as u64)
                    }
                    Typed::U8(v) => {
                        tx.observed_one_value_now(*l, v);
                        Val::U(v as u64)
                    }
                    Typed::Usize(v) => {
                        tx.observed_one_value_now(*l, v as usize);
                        Val::U(v)
                    }
                    Typed::F64(v) => {
                        tx.observed_one_value_now(*l, v.get());
                        Val::F(v)
                    }
                    Typed::B(v) => {
                        tx.observed_one_value_now(*l, v);
                        Val::B(v)
                    }
                    Typed::Inc => {
                        tx.observed_one_value_now(*l, Increment);
                        Val::Chg(1)
                    }
                    Typed::Dec => {
                        tx.observed_one_value_now(*l, Decrement);
                        Val::Chg(-1)
                    }
                    Typed::IncBy(v) => {
                        tx.observed_one_value_now(*l, IncrementBy(v));
                        Val::Chg(v as i64)
                    }
                    Typed::DecBy(v) => {
                        tx.observed_one_value_now(*l, DecrementBy(v));
                        Val::Chg(-(v as i64))
                    }
                    Typed::ChangeBy(v) => {
                        tx.observed_one_value_now(*l, ChangeBy(v));
                        Val::Chg(v)
                    }
                    Typed::DurUnit(v, u) => {
                        tx.observed_one_value_now(*l, (v, u.tu()));
                        Val::D(v, u)
                    }
                };
                Some((*l, Kind::Value(v), When::Now))
            }
        };
        vclock::set_tick(0);
        let end = Instant::now();
        rx.process(10, ProcessingStrategy::ProcessAll);
        let mut log = log.lock().unwrap();
        match expected {
            None => ensure!(log.is_empty(), "op {}: sent {:?}", i, log),
            Some((label, kind, when)) => {
                ensure_eq!(log.len(), 1, "op {}: observations sent", i);
                let r = log.pop().unwrap();
                ensure_eq!(r.label, label, "op {}: label", i);
                ensure_eq!(r.kind, kind, "op {}: observation", i);
                match when {
                    When::At(t) => ensure!(r.ts == t, "op {}: timestamp differs from the given one", i),
                    When::Now => ensure!(r.ts >= begin && r.ts <= end, "op {}: timestamp is not the time of the call", i),
                }
            }
        }
    }
    o.nontrivial_if(c.ops.len() > 1);
    o.label_if(c.tick > 0, "ticking clock");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![facet(
        "convenience",
        "up to 19 calls of every convenience sender and constructor, on a clock that stands still or ticks with every reading; non-trivial: more than one call",
        Clock::Local,
        300_000,
        3_000_000,
        case,
        check,
    )]
}
