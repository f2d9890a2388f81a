//! C19 real threads sending to processors on a running driver.
use super::drv::*;
use super::hier::*;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, vclock};
use metrix::cockpit::*;
use metrix::instruments::*;
use metrix::processor::*;
use metrix::snapshot::Snapshot;
use metrix::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Proc {
    /// blocking queue of this capacity
    cap: Option<u16>,
    mounted: bool,
    /// added while the senders are at work
    late: bool,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Burst {
    to: u8,
    n: u16,
    /// counts of its observations; 0: a value
    count: u8,
    spin: u16,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Case {
    cfg: DCfg,
    procs: Vec<Proc>,
    threads: Vec<Vec<Burst>>,
    /// paused while this many yields of the harness go by, then resumed
    pauses: Vec<u16>,
    lookers: u8,
}
fn case() -> impl Strategy<Value = Case> {
    let p = (prop_oneof![3 => Just(None), 1 => (1u16..50).prop_map(Some)], any::<bool>(), prop_oneof![4 => Just(false), 1 => Just(true)])
        .prop_map(|(cap, mounted, late)| Proc { cap, mounted, late });
    let n = prop_oneof![4 => 0u16..60, 2 => 0u16..1_200, 1 => 1_900u16..2_600];
    let b = (any::<u8>(), n, 0u8..4, prop_oneof![2 => Just(0u16), 1 => 0u16..3_000]).prop_map(|(to, n, count, spin)| Burst { to, n, count, spin });
    // nothing gets old, as time stands still
    let keeps = prop_oneof![
        2 => Just(None),
        2 => Just(Some(Strat::All)),
        1 => (0u64..SEC, any::<bool>()).prop_map(|(max_age_ns, drop_deltas)| Some(Strat::Older { max_age_ns, drop_deltas })),
    ];
    (dcfg(), keeps, vec(p, 1..4), vec(vec(b, 1..5), 1..5), vec(prop_oneof![0u16..20, 0u16..500], 0..3), 0u8..3)
        .prop_map(|(cfg, strat, procs, threads, pauses, lookers)| Case { cfg: DCfg { strat, ..cfg }, procs, threads, pauses, lookers })
}

type L = (u16, u32);
fn read(s: &Snapshot, c: &Case, p: usize) -> Option<(i128, i128, i128, i128)> {
    let name = format!("p{}", p);
    let mount = format!("m{}", p);
    let mut path: Vec<&str> = vec![];
    if let Some(n) = &c.cfg.name {
        path.push(n);
    }
    if c.procs[p].mounted {
        path.push(&mount);
    }
    path.extend([name.as_str(), "k", "q"]);
    let at = |tail: &[&str]| {
        let p: Vec<&str> = path.iter().chain(tail).copied().collect();
        get_path(s, &p).and_then(as_int)
    };
    Some((at(&["count"])?, at(&["meter", "count"])?, at(&["histo", "count"]).unwrap_or(0), at(&["panel_count"])?))
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let clean = Cleanup::new();
    vclock::global_enter(vclock::START_NS, false);
    let mut d = c.cfg.build();
    let probe = Arc::new(AtomicU64::new(0));
    d.add_processor(Probe(probe.clone()));
    let mut txs = vec![];
    let mut logs = vec![];
    let mut late = vec![];
    for (i, p) in c.procs.iter().enumerate() {
        let name = format!("p{}", i);
        let (tx, mut rx) = match p.cap {
            Some(cap) => TelemetryProcessor::<L>::new_pair_bounded(name, cap as usize, true),
            None => TelemetryProcessor::new_pair(name),
        };
        let panel = Panel::accept_all_named("q")
            .counter(Counter::new("count"))
            .meter(Meter::new("meter"))
            .histogram(Histogram::new("histo"))
            .handler(InstrumentAdapter::new(Counter::new("panel_count")));
        let mut k = Cockpit::new("k");
        k.add_panel(panel);
        rx.add_cockpit(k);
        let (rec, log) = Recorder::<L>::new("rec", 0);
        rx.add_handler(rec);
        logs.push(log);
        txs.push(tx);
        let boxed: Box<dyn ProcessesTelemetryMessages> = if p.mounted {
            let mut m = ProcessorMount::new(format!("m{}", i));
            m.add_processor(rx);
            Box::new(m)
        } else {
            Box::new(rx)
        };
        if p.late {
            late.push(DynProc(boxed));
        } else {
            d.add_processor(DynProc(boxed));
        }
    }
    // what each sender has begun to send: occurrences, and values
    let begun: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new(c.procs.iter().map(|_| Default::default()).collect());
    if !c.pauses.is_empty() {
        d.pause();
    }
    let stop = Arc::new(AtomicBool::new(false));
    let mut lookers = vec![];
    for k in 0..c.lookers {
        let (d, c, stop, begun) = (d.clone(), c.clone(), stop.clone(), begun.clone());
        lookers.push(std::thread::spawn(move || -> Result<usize, String> {
            vclock::mark_harness_thread();
            let mut last = vec![(0, 0, 0, 0); c.procs.len()];
            let mut n = 0;
            while !stop.load(SeqCst) && n < 100_000 {
                let s = if (n + k as usize) % 2 == 0 { d.snapshot(false) } else { futures::executor::block_on(d.snapshot_async(n % 3 == 0)) };
                let s = s.map_err(|_| "a snapshot was refused while a handle exists".to_string())?;
                for (i, p) in c.procs.iter().enumerate() {
                    let Some(v) = read(&s, &c, i) else {
                        ensure!(p.late, "processor {} is not in the snapshot: {:?}", i, s);
                        continue;
                    };
                    let (all, values) = (begun[i].0.load(SeqCst) as i128, begun[i].1.load(SeqCst) as i128);
                    ensure!(v.0 <= all && v.1 <= all && v.2 <= values && v.3 <= all, "processor {} shows {:?}, {} occurrences and {} values have been sent", i, v, all, values);
                    let l = last[i];
                    ensure!(v.0 >= l.0 && v.1 >= l.1 && v.2 >= l.2 && v.3 >= l.3, "processor {} shows {:?} after {:?}", i, v, l);
                    ensure!(v.0 == v.1 && v.0 == v.3, "processor {} shows the same occurrences differently: {:?}", i, v);
                    last[i] = v;
                }
                n += 1;
            }
            Ok(n)
        }));
    }
    let mut senders = vec![];
    for (t, script) in c.threads.iter().enumerate() {
        let (txs, script, begun) = (txs.clone(), script.clone(), begun.clone());
        senders.push(std::thread::spawn(move || {
            vclock::mark_harness_thread();
            let mut seq = vec![0u32; txs.len()];
            for b in script {
                let p = b.to as usize % txs.len();
                for i in 0..b.n {
                    if b.spin > 0 && i % 16 == 0 {
                        for _ in 0..b.spin {
                            std::hint::spin_loop();
                        }
                    }
                    let label = (t as u16, seq[p]);
                    seq[p] += 1;
                    let count = b.count.max(1) as u64;
                    begun[p].0.fetch_add(count, SeqCst);
                    match b.count {
                        0 => {
                            begun[p].1.fetch_add(1, SeqCst);
                            txs[p].observed_one_value_now(label, i as u64);
                        }
                        1 => {
                            txs[p].observed_one_now(label);
                        }
                        n => {
                            txs[p].observed_now(label, n as u64);
                        }
                    }
                }
            }
        }));
    }
    for p in late {
        std::thread::yield_now();
        d.add_processor(p);
    }
    for (i, p) in c.pauses.iter().enumerate() {
        for _ in 0..*p {
            std::thread::yield_now();
        }
        if i % 2 == 0 {
            d.resume();
        } else {
            d.pause();
        }
    }
    d.resume();
    for s in senders {
        s.join().map_err(|_| "a sender panicked".to_string())?;
    }
    let left = || txs.iter().map(|t| t.queue_size()).sum::<usize>();
    let from = probe.load(SeqCst);
    wait_until("all queues drain", || left() == 0 || probe.load(SeqCst) > from + 20_000)?;
    ensure!(left() == 0, "{} messages are still there after {} runs", left(), probe.load(SeqCst) - from);
    let from = probe.load(SeqCst);
    wait_until("the driver runs", || probe.load(SeqCst) > from + 2)?;
    stop.store(true, SeqCst);
    let mut looks = 0;
    for l in lookers {
        looks += l.join().map_err(|_| "a looker panicked".to_string())??;
    }
    no_foreign_panic()?;
    let s = d.snapshot(false).map_err(|_| "a snapshot was refused".to_string())?;
    let (mut total, mut biggest) = (0u64, 0u64);
    for i in 0..c.procs.len() {
        let (all, values) = (begun[i].0.load(SeqCst) as i128, begun[i].1.load(SeqCst) as i128);
        let v = read(&s, c, i).ok_or_else(|| format!("processor {} is not in the last snapshot: {:?}", i, s))?;
        ensure!(v == (all, all, values, all), "processor {} shows {:?} in the end, {} occurrences and {} values were sent", i, v, all, values);
        // every sender's observations in the order it sent them
        let log = logs[i].lock().unwrap();
        let mut next = vec![0u32; c.threads.len()];
        for r in log.iter() {
            let n = &mut next[r.label.0 as usize];
            ensure!(r.label.1 == *n, "processor {}: observation {} of sender {} handled where {} is due", i, r.label.1, r.label.0, n);
            *n += 1;
        }
        for (t, script) in c.threads.iter().enumerate() {
            let sent: u32 = script.iter().filter(|b| b.to as usize % c.procs.len() == i).map(|b| b.n as u32).sum();
            ensure!(next[t] == sent, "processor {}: {} observations of sender {} handled, {} sent", i, next[t], t, sent);
        }
        total += log.len() as u64;
        biggest = biggest.max(log.len() as u64);
    }
    let own = match &c.cfg.name {
        Some(n) => sub(&s, n).and_then(|s| sub(s, "_metrix")),
        None => sub(&s, "_metrix"),
    };
    if let Some(own) = own {
        let n = get_path(own, &["observations_processed_per_second", "count"]).and_then(as_int);
        ensure!(n == Some(total as i128), "the driver counts {:?} observations processed of {}", n, total);
    }
    drop(d);
    ensure!(wait_ended(clean.0, 20_000), "the driver does not end");
    no_foreign_panic()?;
    o.nontrivial_if(c.threads.len() > 1 && total > 50);
    o.label_if(biggest > 1_000, "more than one processing batch");
    o.label_if(looks > 3, "looked at meanwhile");
    o.label_if(c.procs.iter().any(|p| p.cap.is_some()), "blocking queue");
    o.label_if(!c.pauses.is_empty(), "paused meanwhile");
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Crowd {
    cfg: DCfg,
    procs: u16,
    /// of the processors: inside of a mount, and added while the driver works
    mounted: u8,
    late: u16,
    snaps: u16,
    senders: u8,
    /// to the i-th processor: one of these many, turned further for each sender
    counts: Vec<u16>,
}
fn crowd() -> impl Strategy<Value = Crowd> {
    let keeps = prop_oneof![2 => Just(None), 2 => Just(Some(Strat::All)), 1 => any::<bool>().prop_map(|drop_deltas| Some(Strat::Older { max_age_ns: SEC, drop_deltas }))];
    let procs = prop_oneof![2 => 4u16..40, 2 => 40u16..150, 1 => 150u16..400];
    (dcfg(), keeps, procs, 1u8..9, prop_oneof![2 => Just(0u16), 1 => 1u16..100], prop_oneof![3 => 0u16..4, 1 => 4u16..200], 1u8..4, vec(prop_oneof![4 => 0u16..6, 2 => 6u16..40, 1 => 900u16..1_300], 1..8))
        .prop_map(|(cfg, strat, procs, mounted, late, snaps, senders, mut counts)| {
            if procs > 40 {
                // not more than a few hundred thousand altogether
                counts.iter_mut().for_each(|n| *n = (*n).min(40 + 4_000 / procs));
            }
            Crowd { cfg: DCfg { strat, ..cfg }, procs, mounted, late, snaps, senders, counts }
        })
}
fn crowded(c: &Crowd, o: &mut Obs) -> Res {
    let clean = Cleanup::new();
    vclock::global_enter(vclock::START_NS, false);
    let mut d = c.cfg.build();
    let probe = Arc::new(AtomicU64::new(0));
    d.add_processor(Probe(probe.clone()));
    let (mut txs, mut logs, mut late) = (vec![], vec![], vec![]);
    let n = c.procs as usize;
    let late_from = n - (c.late as usize).min(n);
    for i in 0..n {
        let (tx, mut rx) = TelemetryProcessor::<L>::new_pair(format!("p{}", i));
        let mut k = Cockpit::new("k");
        k.add_panel(Panel::accept_all_named("q").counter(Counter::new("count")).handler(InstrumentAdapter::new(Counter::new("panel_count"))));
        rx.add_cockpit(k);
        let (rec, log) = Recorder::<L>::new("rec", 0);
        rx.add_handler(rec);
        let boxed: Box<dyn ProcessesTelemetryMessages> = if i % c.mounted as usize == 0 {
            let mut m = ProcessorMount::new(format!("m{}", i));
            m.add_processor(rx);
            Box::new(m)
        } else {
            Box::new(rx)
        };
        if i >= late_from {
            late.push(DynProc(boxed));
        } else {
            d.add_processor(DynProc(boxed));
        }
        txs.push(tx);
        logs.push(log);
    }
    for i in 0..c.snaps {
        d.add_snapshooter(ConstSnap(i));
    }
    let share = |i: usize, t: usize| c.counts[(i + t) % c.counts.len()] as u32;
    let mut senders = vec![];
    for t in 0..c.senders as usize {
        let (txs, counts) = (txs.clone(), (0..n).map(|i| share(i, t)).collect::<Vec<_>>());
        senders.push(std::thread::spawn(move || {
            vclock::mark_harness_thread();
            for (tx, n) in txs.iter().zip(counts) {
                for s in 0..n {
                    tx.observed_one_now((t as u16, s));
                }
            }
        }));
    }
    for p in late {
        d.add_processor(p);
    }
    for s in senders {
        s.join().map_err(|_| "a sender panicked".to_string())?;
    }
    // nothing more is sent: so many runs are enough to take everything in, and for each processor
    let sent = |i: usize| (0..c.senders as usize).map(|t| share(i, t)).sum::<u32>();
    let most = (0..n).map(sent).max().unwrap_or(0) as u64;
    let from = probe.load(SeqCst);
    let enough = most / 1_000 + n as u64 + c.snaps as u64 + 10;
    wait_until("the driver runs", || probe.load(SeqCst) > from + enough)?;
    for i in 0..n {
        ensure!(txs[i].queue_size() == 0, "processor {} of {} has {} messages left after {} runs", i, n, txs[i].queue_size(), enough);
        let mut next = vec![0u32; c.senders as usize];
        for r in logs[i].lock().unwrap().iter() {
            let k = &mut next[r.label.0 as usize];
            ensure!(r.label.1 == *k, "processor {}: observation {} of sender {} handled where {} is due", i, r.label.1, r.label.0, k);
            *k += 1;
        }
        for (t, k) in next.iter().enumerate() {
            ensure!(*k == share(i, t), "processor {} of {}: {} observations of sender {} handled, {} sent", i, n, k, t, share(i, t));
        }
    }
    let s = d.snapshot(false).map_err(|_| "a snapshot was refused".to_string())?;
    let level = match &c.cfg.name {
        Some(n) => sub(&s, n).ok_or("the driver's level is missing")?,
        None => &s,
    };
    let mut want: Vec<String> = (0..n).map(|i| if i % c.mounted as usize == 0 { format!("m{}", i) } else { format!("p{}", i) }).collect();
    want.extend((0..c.snaps).map(|i| format!("s{}", i)));
    let got: Vec<String> = names(level).into_iter().filter(|n| *n != "_metrix").collect();
    ensure!(got == want, "the driver shows {:?}, expected {:?}", got, want);
    for i in 0..n {
        let (m, p) = (format!("m{}", i), format!("p{}", i));
        let mut path = if i % c.mounted as usize == 0 { vec![m.as_str()] } else { vec![] };
        path.extend([p.as_str(), "k", "q"]);
        for name in ["count", "panel_count"] {
            path.push(name);
            let v = get_path(level, &path).and_then(as_int);
            ensure!(v == Some(sent(i) as i128), "{:?} shows {:?}, {} were sent", path, v, sent(i));
            path.pop();
        }
    }
    drop(d);
    ensure!(wait_ended(clean.0, 20_000), "the driver does not end");
    no_foreign_panic()?;
    o.nontrivial_if(n > 20 && most > 0);
    o.label_if(n > 100, "more than 100 processors");
    o.label_if(c.snaps > 20, "more than 20 snapshooters");
    o.label_if(late_from < n, "some added while others work");
    Ok(())
}
struct ConstSnap(u16);
impl PutsSnapshot for ConstSnap {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push(format!("s{}", self.0), self.0 as u64);
    }
}

pub fn facets() -> Vec<Facet> {
    vec![
    facet(
        "crowd",
        "a driver with up to 400 processors (some in mounts, some added while others work) and up to 200 snapshooters, each processor sent a number of its own by up to three threads; everything handled in order within a few runs, everything shown in its place; non-trivial: more than 20 processors",
        Clock::Global,
        1_000,
        20_000,
        crowd,
        crowded,
    ),
    facet(
        "threads",
        "one to four sending threads with bursts of up to 2600 observations, one to three processors (blocking queues, in mounts, added late), up to two threads taking snapshots, pauses; totals in the snapshots, per-sender order at a handler; non-trivial: at least two senders and more than 50 observations",
        Clock::Global,
        1_500,
        20_000,
        case,
        check,
    )]
}
