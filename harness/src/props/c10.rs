//! C10 meters.
use super::hist::*;
use super::inst::*;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, ensure_eq, vclock};
use metrix::instruments::other_instruments::*;
use metrix::instruments::*;
use metrix::snapshot::{ItemKind, Snapshot};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn mkind() -> impl Strategy<Value = Kind> {
    prop_oneof![
        3 => Just(Kind::One),
        4 => (0u64..1000).prop_map(Kind::Many),
        4 => tame_val().prop_map(Kind::Value),
        1 => kind(),
    ]
}

fn case() -> impl Strategy<Value = ICase> {
    icase(spec(meter_kind()), mkind, 50)
}

fn check(c: &ICase, o: &mut Obs) -> Res {
    let mut st = IStats::default();
    run_inst(c, &mut st)?;
    o.nontrivial_if(st.updates >= 2 && st.ticks >= 2);
    o.label_if(st.ticks > 100, "more than 100 ticks");
    o.label(match c.spec.kind {
        IKind::Meter(_) => "meter",
        _ => "value meter",
    });
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Timing {
    ops: Vec<(u64, u16)>,
    /// extra reads of the second meter after this many of these
    reads: Vec<u8>,
}

fn rate(s: &Snapshot, w: &str) -> Result<f64, String> {
    match get_path(s, &["m", w, "rate"]) {
        Some(ItemKind::Float(f)) => Ok(*f),
        x => Err(format!("{} rate is {:?} in {:?}", w, x, s)),
    }
}

/// Reading a meter in between, and marking one by one or as a batch or by
/// value, makes no difference to what it shows.
fn timing(c: &Timing, o: &mut Obs) -> Res {
    let mut a = Meter::new("m").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true).lower_cutoff(0.0);
    let mut b = Meter::new("m").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true).lower_cutoff(0.0);
    let mut v = ValueMeter::new("m").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true).lower_cutoff(0.0);
    let mut total = 0u64;
    for (i, (gap, n)) in c.ops.iter().enumerate() {
        let reads = c.reads.get(i % c.reads.len().max(1)).copied().unwrap_or(0) as u64;
        let part = gap / (reads + 1);
        for _ in 0..reads {
            vclock::advance(part);
            snap(&b, false);
        }
        vclock::advance(gap - part * reads);
        a.update(&Kind::Many(*n as u64).update(real_now()));
        for _ in 0..*n {
            b.update(&Kind::One.update(real_now()));
        }
        if n % 2 == 0 {
            v.update(&Kind::Value(Val::I(*n as i64)).update(real_now()));
        } else {
            v.update(&Kind::Value(Val::U(*n as u64)).update(real_now()));
        }
        total += *n as u64;
    }
    let (x, y, z) = (snap(&a, false), snap(&b, false), snap(&v, false));
    for s in [&x, &y, &z] {
        ensure_eq!(get_path(s, &["m", "count"]).and_then(as_int), Some(total as i128), "count");
    }
    for w in ["one_minute", "five_minutes", "fifteen_minutes"] {
        let (x, y, z) = (rate(&x, w)?, rate(&y, w)?, rate(&z, w)?);
        let tol = 1e-9 * (1.0 + x.abs());
        ensure!((x - y).abs() <= tol, "{}: {} in a batch and {} one by one with reads", w, x, y);
        ensure!((x - z).abs() <= tol, "{}: {} by occurrences and {} by values", w, x, z);
        ensure!(x >= 0.0 && x.is_finite(), "{}: {}", w, x);
    }
    o.nontrivial_if(total > 0 && c.ops.iter().map(|x| x.0).sum::<u64>() >= 10 * SEC);
    o.label_if(c.reads.iter().any(|r| *r > 0), "reads in between");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Silence {
    before: Vec<(u64, u16)>,
    gaps: Vec<u64>,
}

/// In silence no rate ever grows, each ends at zero, and the count stays.
fn silence(c: &Silence, o: &mut Obs) -> Res {
    let mut m = Meter::new("m").five_minute_rate_enabled(true).fifteen_minute_rate_enabled(true);
    let mut total = 0i128;
    for (gap, n) in &c.before {
        vclock::advance(*gap);
        m.update(&Kind::Many(*n as u64).update(real_now()));
        total += *n as i128;
    }
    // what is still uncounted becomes part of the rates with the next tick
    vclock::advance(5 * SEC);
    let mut prev = snap(&m, false);
    let mut decayed = false;
    for gap in c.gaps.iter().chain([&(4 * 3600 * SEC)]) {
        vclock::advance(*gap);
        let s = snap(&m, false);
        for w in ["one_minute", "five_minutes", "fifteen_minutes"] {
            let (a, b) = (rate(&prev, w)?, rate(&s, w)?);
            ensure!(b <= a, "{}: grew from {} to {} in silence", w, a, b);
            decayed |= b < a;
            ensure!(b == 0.0 || b >= 0.001, "{}: {} is below the cutoff", w, b);
        }
        ensure_eq!(get_path(&s, &["m", "count"]).and_then(as_int), Some(total), "count");
        prev = s;
    }
    for w in ["one_minute", "five_minutes", "fifteen_minutes"] {
        let r = rate(&prev, w)?;
        ensure!(r == 0.0, "{}: still {} after four hours", w, r);
    }
    o.nontrivial_if(decayed);
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    let ops = || vec((prop_oneof![3 => step(), 2 => 0u64..(30 * SEC), 1 => (0u64..40).prop_map(|v| v * 5 * SEC)], 0u16..400), 1..20);
    vec![
        facet(
            "model",
            "meters and value meters in every configuration against the closed form of the moving average, observations and reads around tick boundaries; non-trivial: at least two updates and two ticks",
            Clock::Local,
            40_000,
            800_000,
            case,
            check,
        ),
        facet(
            "timing",
            "a meter read in between and marked one by one, one marked in batches, and a value meter show the same; non-trivial: something counted over at least two ticks",
            Clock::Local,
            40_000,
            400_000,
            move || (ops(), vec(0u8..4, 1..4)).prop_map(|(ops, reads)| Timing { ops, reads }),
            timing,
        ),
        facet(
            "silence",
            "rates in silence only decay, to zero, never below the cutoff; non-trivial: some rate decayed",
            Clock::Local,
            40_000,
            400_000,
            move || (ops(), vec(step(), 0..12)).prop_map(|(before, gaps)| Silence { before, gaps }),
            silence,
        ),
    ]
}
