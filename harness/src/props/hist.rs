//! Histories of one instrument against its model; shared by C08 to C13.
use super::inst::*;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, vclock};
use metrix::snapshot::ItemKind;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum IOp {
    /// with the timestamp's offset from now
    Up(Kind, i64),
    /// that many times in a row
    Many(u16, Kind),
    Advance(u64),
    /// n steps, each with an update
    Steps(u8, u64, Kind),
    Snap(bool),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ICase {
    pub spec: InstSpec,
    pub ops: Vec<IOp>,
}

pub fn icase<K: Strategy<Value = Kind> + 'static>(spec: impl Strategy<Value = InstSpec>, kind: fn() -> K, n: usize) -> impl Strategy<Value = ICase> {
    fcase(spec, kind, n, 50, 500)
}
/// With leaps of time below two to the power of `bits` nanoseconds, one of `rare` advances.
pub fn fcase<K: Strategy<Value = Kind> + 'static>(spec: impl Strategy<Value = InstSpec>, kind: fn() -> K, n: usize, bits: u32, rare: u32) -> impl Strategy<Value = ICase> {
    let op = prop_oneof![
        8 => (kind(), prop_oneof![4 => Just(0i64), 1 => -100_000_000_000i64..100_000_000_000]).prop_map(|(k, t)| IOp::Up(k, t)),
        1 => (0u16..20, kind()).prop_map(|(n, k)| IOp::Many(n, k)),
        5 => prop_oneof![rare => step(), 1 => leap(bits)].prop_map(IOp::Advance),
        1 => (0u8..20, prop_oneof![Just(SEC / 2), Just(SEC), Just(5 * SEC), step()], kind()).prop_map(|(n, s, k)| IOp::Steps(n, s, k)),
        4 => any::<bool>().prop_map(IOp::Snap),
    ];
    (spec, vec(op, 1..n)).prop_map(|(spec, ops)| ICase { spec, ops })
}

#[derive(Default)]
pub struct IStats {
    pub updates: usize,
    pub ignored: usize,
    pub snaps: usize,
    pub reads_after_silence: usize,
    pub seconds: usize,
    pub expired: usize,
    pub ticks: u64,
    pub on: usize,
    pub off: usize,
    pub inactive: usize,
    pub samples: usize,
    pub shown: usize,
    pub hidden: usize,
    pub last: Level,
}

pub fn run_inst(c: &ICase, st: &mut IStats) -> Res {
    let (mut real, mut model) = c.spec.build();
    let check = |i: usize, d: bool, real: &Real, model: &mut Model, st: &mut IStats| -> Res {
        let now = vclock::now_ns();
        let s = real.snap(d);
        let mut want = Level::default();
        model.expect(&mut want, d, now);
        compare(&format!("after op {}", i), &s, &want)?;
        // an accessor and the snapshot agree, and looking changes nothing
        match real {
            Real::Counter(x) => ensure!(want_int(&want, &c.spec.name, x.get() as i128), "op {}: get() {} against {:?}", i, x.get(), want),
            Real::Gauge(x) => ensure!(x.get() == model.gauge_value(), "op {}: get() {:?}, expected {:?}", i, x.get(), model.gauge_value()),
            Real::Staircase(x) => ensure!(Some(x.state()) == model.switch_state(now), "op {}: state()", i),
            Real::Occ(x) => ensure!(Some(x.state()) == model.switch_state(now), "op {}: state()", i),
            Real::NonOcc(x) => ensure!(Some(x.state()) == model.switch_state(now), "op {}: state()", i),
            Real::Flag(x) => ensure!(x.get_state() == model.switch_state(now), "op {}: get_state()", i),
            Real::Display(x) => {
                let same = match (x.value(), model.display_value(now)) {
                    (None, None) => true,
                    (Some(a), Some(b)) => same_item(&a, &b) || (as_int(&a).is_some() && as_int(&a) == as_int(&b)),
                    _ => false,
                };
                ensure!(same, "op {}: value() {:?}, expected {:?}", i, x.value(), model.display_value(now));
            }
            _ => {}
        }
        let again = real.snap(d);
        ensure!(same_snap(&s, &again), "op {}: a second snapshot differs: {:?} and {:?}", i, s, again);
        st.snaps += 1;
        let (sec, exp) = model.seconds_tracked(now);
        st.seconds = st.seconds.max(sec);
        st.expired = st.expired.max(exp);
        st.ticks = st.ticks.max(model.ticks());
        match model.switch_state(now) {
            Some(true) => st.on += 1,
            Some(false) => st.off += 1,
            None => {}
        }
        if s.items.is_empty() {
            st.hidden += 1;
        } else {
            st.shown += 1;
        }
        if let Some(ItemKind::Boolean(true)) = sub(&s, &c.spec.name).and_then(|l| get(l, "_inactive")) {
            st.inactive += 1;
        }
        st.last = want;
        Ok(())
    };
    let update = |i: usize, k: Kind, off: i64, real: &mut Real, model: &mut Model, st: &mut IStats| -> Res {
        let now = vclock::now_ns();
        let r = real.update(&k.update(at(now as i128 + off as i128)));
        let (lo, hi) = model.update(k, now);
        ensure!(r >= lo && r <= hi, "op {}: update reported {} instruments, expected {}", i, r, lo);
        if hi == 1 && lo == 1 {
            st.updates += 1;
            st.samples += 1;
        } else {
            st.ignored += 1;
        }
        Ok(())
    };
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            IOp::Up(k, off) => update(i, *k, *off, &mut real, &mut model, st)?,
            IOp::Many(n, k) => {
                for _ in 0..*n {
                    update(i, *k, 0, &mut real, &mut model, st)?;
                }
            }
            IOp::Advance(n) => vclock::advance(*n),
            IOp::Steps(n, s, k) => {
                let s = (*s).min(10_000 * SEC);
                for j in 0..*n {
                    vclock::advance(s);
                    update(i, *k, 0, &mut real, &mut model, st)?;
                    if j % 5 == 4 {
                        check(i, false, &real, &mut model, st)?;
                    }
                }
            }
            IOp::Snap(d) => check(i, *d, &real, &mut model, st)?,
        }
    }
    check(c.ops.len(), true, &real, &mut model, st)?;
    check(c.ops.len(), false, &real, &mut model, st)
}

fn want_int(l: &Level, name: &str, v: i128) -> bool {
    l.0.iter().any(|(n, e)| n == name && matches!(e, Exp::Int(x) if *x == v))
}
