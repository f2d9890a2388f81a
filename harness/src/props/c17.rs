//! C17 conversions.
use super::c24::dur_ns;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, ensure_eq};
use metrix::instruments::*;
use metrix::snapshot::*;
use metrix::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Conv {
    v: Val,
}

/// Rounded value of a float if it lies in [lo, hi] (exact integer bounds).
fn rounded(v: f64) -> Option<i128> {
    if !v.is_finite() || v.abs() > 1e30 {
        return None;
    }
    Some(v.round() as i128)
}

fn conv(c: &Conv, o: &mut Obs) -> Res {
    let ov = c.v.ov();
    let int: Option<i128> = match c.v {
        Val::I(v) => Some(v as i128),
        Val::U(v) => Some(v as i128),
        Val::F(v) => rounded(v.get()),
        _ => None,
    };
    let want_i = int.and_then(|v| i64::try_from(v).ok());
    let want_u = int.and_then(|v| u64::try_from(v).ok());
    ensure_eq!(ov.convert_to_i64(), want_i, "{:?} to i64", c.v);
    ensure_eq!(ov.convert_to_u64(), want_u, "{:?} to u64", c.v);
    let want_b = match c.v {
        Val::I(v) => Some(v != 0),
        Val::U(v) => Some(v != 0),
        Val::B(b) => Some(b),
        _ => None,
    };
    ensure_eq!(ov.convert_to_bool(), want_b, "{:?} to bool", c.v);
    ensure_eq!(ov.is_delta(), c.v.is_delta(), "{:?} is a delta", c.v);
    let want_item = match c.v {
        Val::I(v) => Some(ItemKind::Int(v)),
        Val::U(v) => Some(ItemKind::UInt(v)),
        Val::F(v) => Some(ItemKind::Float(v.get())),
        Val::B(v) => Some(ItemKind::Boolean(v)),
        _ => None,
    };
    let got1 = ov.to_item_kind();
    let got2: Option<ItemKind> = ov.into();
    for got in [got1, got2] {
        ensure!(
            match (&got, &want_item) {
                (None, None) => true,
                (Some(a), Some(b)) => same_item(a, b),
                _ => false,
            },
            "{:?} as an item: got {:?}, expected {:?}",
            c.v,
            got,
            want_item
        );
    }
    o.nontrivial();
    o.label_if(int.is_some() && want_i.is_none(), "integer out of i64's range");
    o.label_if(int.is_some() && want_u.is_none(), "integer out of u64's range");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Durs {
    secs: u64,
    nanos: u32,
    unit: Unit,
    raw: u64,
    display: Unit,
}

fn durations(c: &Durs, o: &mut Obs) -> Res {
    let d = Duration::new(c.secs, c.nanos);
    ensure_eq!(Val::from_ov(&d.into()), Val::D(dur_ns(d), Unit::Ns), "{:?} as an observed value", d);
    let want = u64::try_from(d.as_nanos() / c.unit.nanos()).unwrap_or(u64::MAX);
    ensure_eq!(Val::from_ov(&(d, c.unit.tu()).into()), Val::D(want, c.unit), "{:?} in {:?}", d, c.unit);
    ensure_eq!(Val::from_ov(&(c.raw, c.unit.tu()).into()), Val::D(c.raw, c.unit), "({}, {:?})", c.raw, c.unit);

    // display units
    let k = Kind::Value(Val::D(c.raw, c.unit));
    let shown = convert_units(c.raw, c.unit, c.display);
    let now = real_now();

    let mut g = Gauge::new_with_defaults("g").display_time_unit(c.display.tu());
    g.update(&k.update(now));
    let shown_i = i64::try_from(shown).unwrap_or(i64::MAX);
    let s = snap(&g, false);
    ensure_eq!(get(&s, "g").and_then(as_int), Some(shown_i as i128), "gauge shows {} {:?} in {:?}", c.raw, c.unit, c.display);

    let mut h = Histogram::new_with_defaults("h").display_time_unit(c.display.tu());
    h.update(&k.update(now));
    let s = snap(&h, false);
    for f in ["max", "min"] {
        ensure_eq!(get_path(&s, &["h", f]).and_then(as_int), Some(shown_i as i128), "histogram {} of {} {:?} in {:?}", f, c.raw, c.unit, c.display);
    }

    let mut m = ValueMeter::new_with_defaults("m").display_time_unit(c.display.tu());
    m.update(&k.update(now));
    let s = snap(&m, false);
    ensure_eq!(get_path(&s, &["m", "count"]).and_then(as_int), Some(shown_i as i128), "value meter of {} {:?} in {:?}", c.raw, c.unit, c.display);
    o.nontrivial_if(c.unit != c.display || c.secs > 0);
    o.label_if(c.raw as u128 * c.unit.nanos() / c.display.nanos() > u64::MAX as u128, "beyond u64");
    o.label_if(d.as_nanos() > u64::MAX as u128, "duration beyond u64 nanoseconds");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Found {
    item: super::c16::Item,
    present: bool,
}

fn found(c: &Found, o: &mut Obs) -> Res {
    let mut s = Snapshot::default();
    s.push("other", 1u64);
    if c.present {
        s.push("x", c.item.kind());
    }
    let f = s.find("x");
    let raw: Option<Option<u64>> = match (&c.item, c.present) {
        (_, false) => None,
        (super::c16::Item::U(v), _) => Some(Some(*v)),
        (super::c16::Item::I(v), _) => Some(u64::try_from(*v).ok()),
        _ => Some(None),
    };
    let pairs: [(FindDurationItem, fn(u64) -> Duration); 4] = [
        (f.to_duration_nanoseconds(), Duration::from_nanos),
        (f.to_duration_microseconds(), Duration::from_micros),
        (f.to_duration_milliseconds(), Duration::from_millis),
        (f.to_duration_seconds(), Duration::from_secs),
    ];
    for (k, (got, mk)) in pairs.iter().enumerate() {
        let want = match raw {
            None => FindDurationItem::NotFound,
            Some(None) => FindDurationItem::NotADuration,
            Some(Some(v)) => FindDurationItem::Duration(mk(v)),
        };
        ensure_eq!(*got, want, "{:?} read as a duration (unit {})", c.item, k);
        let opt = raw.flatten().map(|v| mk(v));
        ensure_eq!(got.opt(), opt, "opt of the duration");
    }
    o.nontrivial_if(c.present);
    o.label_if(raw == Some(None), "refused");
    o.label_if(matches!(c.item, super::c16::Item::I(v) if v < 0), "negative");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Prim {
    i: i64,
    u: u64,
    f: F,
    s: String,
    b: bool,
}

/// Into<ItemKind> and Into<ObservedValue> of every primitive type
fn prims(c: &Prim, o: &mut Obs) -> Res {
    let (i, u) = (c.i, c.u);
    let items: Vec<(ItemKind, ItemKind)> = vec![
        (i.into(), ItemKind::Int(i)),
        ((i as i32).into(), ItemKind::Int(i as i32 as i64)),
        ((i as i16).into(), ItemKind::Int(i as i16 as i64)),
        ((i as i8).into(), ItemKind::Int(i as i8 as i64)),
        ((i as isize).into(), ItemKind::Int(i)),
        (u.into(), ItemKind::UInt(u)),
        ((u as u32).into(), ItemKind::UInt(u as u32 as u64)),
        ((u as u16).into(), ItemKind::UInt(u as u16 as u64)),
        ((u as u8).into(), ItemKind::UInt(u as u8 as u64)),
        ((u as usize).into(), ItemKind::UInt(u)),
        (c.f.get().into(), ItemKind::Float(c.f.get())),
        ((c.f.get() as f32).into(), ItemKind::Float(c.f.get() as f32 as f64)),
        (c.b.into(), ItemKind::Boolean(c.b)),
        (c.s.clone().into(), ItemKind::Text(c.s.clone())),
        (c.s.as_str().into(), ItemKind::Text(c.s.clone())),
    ];
    for (k, (got, want)) in items.iter().enumerate() {
        let nan = matches!((got, want), (ItemKind::Float(a), ItemKind::Float(b)) if a.is_nan() && b.is_nan());
        ensure!(nan || same_item(got, want), "item conversion {}: got {:?}, expected {:?}", k, got, want);
    }
    let vals: Vec<(ObservedValue, Val)> = vec![
        (i.into(), Val::I(i)),
        ((i as i32).into(), Val::I(i as i32 as i64)),
        ((i as i16).into(), Val::I(i as i16 as i64)),
        ((i as i8).into(), Val::I(i as i8 as i64)),
        (u.into(), Val::U(u)),
        ((u as u32).into(), Val::U(u as u32 as u64)),
        ((u as u16).into(), Val::U(u as u16 as u64)),
        ((u as u8).into(), Val::U(u as u8 as u64)),
        ((u as usize).into(), Val::U(u)),
        (c.f.get().into(), Val::F(c.f)),
        (c.b.into(), Val::B(c.b)),
        (Increment.into(), Val::Chg(1)),
        (Decrement.into(), Val::Chg(-1)),
        (IncrementBy(u as u32).into(), Val::Chg(u as u32 as i64)),
        (DecrementBy(u as u32).into(), Val::Chg(-(u as u32 as i64))),
        (ChangeBy(i).into(), Val::Chg(i)),
    ];
    for (k, (got, want)) in vals.iter().enumerate() {
        ensure_eq!(Val::from_ov(got), *want, "observed value conversion {}", k);
    }
    o.nontrivial();
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    let secs = || prop_oneof![4 => 0u64..100_000, 2 => any_u64(), 2 => 18_446_744_070u64..18_446_744_080, 1 => Just(u64::MAX)];
    vec![
        facet("values", "observed values of every kind, weighted towards limits, to i64/u64/bool/item; every case is non-trivial", Clock::Local, 1_200_000, 12_000_000, || val().prop_map(|v| Conv { v }), conv),
        facet(
            "durations",
            "durations up to the greatest, all unit pairs, shown by gauge, histogram and value meter; non-trivial: a unit change or at least a second",
            Clock::Local,
            800_000,
            8_000_000,
            move || (secs(), prop_oneof![3 => 0u32..1_000_000_000, 1 => (0u32..10, 1u32..1000, -1i32..2).prop_map(|(e, m, d)| ((m * 10u32.pow(e % 7)) as i64 + d as i64).clamp(0, 999_999_999) as u32), 1 => (0u32..9).prop_map(|e| 1_000_000_000 - 10u32.pow(e))], unit(), any_u64(), unit()).prop_map(|(secs, nanos, unit, raw, display)| Durs { secs, nanos, unit, raw, display }),
            durations,
        ),
        facet(
            "found-durations",
            "items of every kind, found or missing, read as durations in every unit; non-trivial: found",
            Clock::Local,
            600_000,
            6_000_000,
            || {
                use super::c16::Item;
                (
                    prop_oneof![
                        3 => any_u64().prop_map(Item::U),
                        3 => any_i64().prop_map(Item::I),
                        1 => any_f64().prop_map(Item::F),
                        1 => any::<bool>().prop_map(Item::B),
                        1 => "[0-9]{0,3}".prop_map(Item::Text),
                        1 => Just(Item::S(vec![("a".to_string(), Item::U(3))])),
                    ],
                    prop::bool::weighted(0.9),
                )
                    .prop_map(|(item, present)| Found { item, present })
            },
            found,
        ),
        facet(
            "primitives",
            "every primitive type into an item and into an observed value; every case is non-trivial",
            Clock::Local,
            600_000,
            6_000_000,
            || (any_i64(), any_u64(), any_f64(), "\\PC{0,5}", any::<bool>()).prop_map(|(i, u, f, s, b)| Prim { i, u, f, s, b }),
            prims,
        ),
    ]
}
