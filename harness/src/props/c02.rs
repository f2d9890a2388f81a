//! C02 bounded queues.
use super::procmodel::*;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, ensure_eq, vclock};
use metrix::processor::*;
use metrix::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

fn case() -> impl Strategy<Value = PCase> {
    let op = prop_oneof![
        8 => (any::<u8>(), any::<u8>(), kind(), -100i64..100).prop_map(|(tx, label, kind, ts_off)| POp::Send { tx, label, kind, ts_off }),
        4 => (any::<u8>(), 0u16..60, any::<u8>(), kind()).prop_map(|(tx, n, label, kind)| POp::Burst { tx, n, label, kind }),
        5 => (max_limit(), prop_oneof![4 => Just(Strat::All), 1 => Just(Strat::Drop)]).prop_map(|(max, strat)| POp::Process { max, strat }),
        1 => (any::<u8>(), 0u8..4).prop_map(|(tx, reports)| POp::AddHandler { tx, reports }),
        1 => (any::<u8>(), proptest::option::of(0u8..4), 0u8..4).prop_map(|(tx, name, reports)| POp::AddCockpit { tx, name, reports }),
        1 => (any::<u8>(), 0u8..4).prop_map(|(tx, name)| POp::RemoveCockpit { tx, name }),
        1 => panel_ops(),
        1 => echo(),
        1 => any::<u8>().prop_map(|tx| POp::CloneTx { tx }),
        1 => Just(POp::Snapshot),
    ];
    let queue = prop_oneof![
        6 => (1usize..8, any::<bool>()).prop_map(|(cap, block)| Queue::Bounded { cap, block }),
        4 => (8usize..200, any::<bool>()).prop_map(|(cap, block)| Queue::Bounded { cap, block }),
        1 => Just(Queue::Bounded { cap: 0, block: false }),
        1 => Just(Queue::Unbounded),
    ];
    (queue, any::<bool>(), vec(op, 1..50)).prop_map(|(queue, named, mut ops)| {
        ops.insert(0, POp::DirectHandler { reports: 1, advance: 0 });
        PCase { queue, named, ops }
    })
}

fn check(c: &PCase, o: &mut Obs) -> Res {
    let mut st = Stats::default();
    run(c, &mut st)?;
    o.nontrivial_if(st.delivered > 0 && (st.rejected > 0 || st.skipped_blocking > 0));
    o.label_if(st.rejected > 0, "overflow discarded");
    o.label_if(st.skipped_blocking > 0, "blocking queue full");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Conc {
    cap: usize,
    block: bool,
    per_thread: Vec<u16>,
    maxes: Vec<u16>,
    yields: u8,
}

/// Several threads send into a bounded queue while this thread processes.
fn concurrent(c: &Conc, o: &mut Obs) -> Res {
    let (tx, mut rx) = if c.per_thread.len() % 2 == 0 {
        TelemetryProcessor::<(u16, u32)>::new_pair_bounded("p", c.cap, c.block)
    } else {
        TelemetryProcessor::new_pair_bounded_without_name(c.cap, c.block)
    };
    let (rec, log) = Recorder::new("r", 1);
    rx.add_handler(rec);
    let total: usize = c.per_thread.iter().map(|n| *n as usize).sum();
    let done = AtomicUsize::new(0);
    let (mut processed, mut runs) = (0usize, 0usize);
    let mut err: Option<String> = None;
    std::thread::scope(|s| {
        for (t, n) in c.per_thread.iter().enumerate() {
            let (tx, done, yields) = (tx.clone(), &done, c.yields);
            std::thread::Builder::new()
                .name("mxshard-sender".into())
                .spawn_scoped(s, move || {
                    let ts = std::time::Instant::now();
                    for i in 0..*n as u32 {
                        tx.transmit(Observation::ObservedOne { label: (t as u16, i), timestamp: ts });
                        if yields > 0 && i % yields as u32 == 0 {
                            std::thread::yield_now();
                        }
                    }
                    done.fetch_add(1, SeqCst);
                })
                .unwrap();
        }
        let start = vclock::real_ns();
        loop {
            let all_done = done.load(SeqCst) == c.per_thread.len();
            let max = c.maxes[runs % c.maxes.len()] as usize;
            let out = rx.process(max, ProcessingStrategy::ProcessAll);
            runs += 1;
            processed += out.processed;
            if out.processed > max || out.observations_enqueued > c.cap || out.dropped != 0 {
                err.get_or_insert(format!("outcome out of bounds: {} processed, limit {}, {} enqueued, capacity {}", out.processed, max, out.observations_enqueued, c.cap));
            }
            if tx.queue_size() > c.cap {
                err.get_or_insert(format!("queue size {} above capacity {}", tx.queue_size(), c.cap));
            }
            if all_done && out.observations_enqueued == 0 && tx.is_queue_empty() {
                break;
            }
            if vclock::real_ns() - start > 60_000_000_000 {
                err.get_or_insert(format!("{}senders did not finish", INCONCLUSIVE));
                // let the senders go
                drop(std::mem::replace(&mut rx, TelemetryProcessor::new_pair_without_name().1));
                break;
            }
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    let log = log.lock().unwrap();
    ensure_eq!(log.len(), processed, "observations delivered");
    let mut last: Vec<Option<u32>> = vec![None; c.per_thread.len()];
    for r in log.iter() {
        let (t, i) = r.label;
        ensure!(last[t as usize].map_or(true, |l| i > l), "thread {} observation {} after {:?}", t, i, last[t as usize]);
        last[t as usize] = Some(i);
    }
    if c.block {
        ensure_eq!(log.len(), total, "a blocking queue lost messages");
    } else {
        ensure!(log.len() >= total.min(c.cap), "only {} of {} delivered with capacity {}", log.len(), total, c.cap);
        ensure!(log.len() <= total, "duplicates");
    }
    o.nontrivial_if(total > c.cap && c.per_thread.len() > 1);
    o.label_if(log.len() < total, "overflow discarded");
    o.label_if(c.block && total > c.cap, "blocking with more messages than capacity");
    Ok(())
}

// ------------------------------------------------------------------ stalled

/// Messages of every type, each with an effect of its own.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum LMsg {
    Obs,
    Handler,
    Cockpit,
    Panel,
    RemovePanel,
    RemoveCockpit,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lane {
    cap: usize,
    named: bool,
    msgs: Vec<LMsg>,
    /// of the first runs
    maxes: Vec<u8>,
}
/// Senders blocked by full queues for a real while, which only a real clock
/// shows: the library's waits end in futexes. Many lanes wait at once.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Stall {
    lanes: Vec<Lane>,
    hold_ms: u16,
}
fn stall(hold_ms: impl Strategy<Value = u16>, lanes: usize) -> impl Strategy<Value = Stall> {
    stall_n(hold_ms, 1..lanes)
}
fn stall_n(hold_ms: impl Strategy<Value = u16>, lanes: std::ops::Range<usize>) -> impl Strategy<Value = Stall> {
    let msg = prop_oneof![
        6 => Just(LMsg::Obs),
        1 => Just(LMsg::Handler),
        2 => Just(LMsg::Cockpit),
        2 => Just(LMsg::Panel),
        2 => Just(LMsg::RemovePanel),
        1 => Just(LMsg::RemoveCockpit),
    ];
    let lane = (1usize..5, any::<bool>(), vec(msg, 2..20), vec(0u8..4, 0..5)).prop_map(|(cap, named, msgs, maxes)| Lane { cap, named, msgs, maxes });
    (vec(lane, lanes), hold_ms).prop_map(|(lanes, hold_ms)| Stall { lanes, hold_ms })
}
fn lane_sender(tx: &TelemetryTransmitter<u8>, l: &Lane, log: &dyn Fn(usize) -> Recorder<u8>) {
    let ts = std::time::Instant::now();
    for (i, m) in l.msgs.iter().enumerate() {
        match m {
            LMsg::Obs => {
                tx.transmit(Observation::ObservedOne { label: i as u8, timestamp: ts });
            }
            LMsg::Handler => {
                tx.add_handler(log(i));
            }
            LMsg::Cockpit => {
                let mut c = cockpit::Cockpit::new("c");
                c.add_handler(log(i));
                tx.add_cockpit(c);
            }
            LMsg::Panel => {
                let mut p = instruments::Panel::named(instruments::AcceptAllLabels, "p");
                p.add_handler(log(i));
                tx.add_panel_to_cockpit("c", p);
            }
            LMsg::RemovePanel => {
                tx.remove_panel_from_cockpit("c", "p");
            }
            LMsg::RemoveCockpit => {
                tx.remove_cockpit("c");
            }
        }
    }
}
fn stalled(c: &Stall, o: &mut Obs) -> Res {
    use std::sync::Arc;
    let mut blocked = 0;
    std::thread::scope(|s| -> Res {
        let mut lanes = vec![];
        for l in &c.lanes {
            let (tx, mut rx) = match l.named {
                true => TelemetryProcessor::<u8>::new_pair_bounded("p", l.cap, true),
                false => TelemetryProcessor::new_pair_bounded_without_name(l.cap, true),
            };
            let (rec, _) = Recorder::new("all", 1);
            rx.add_handler(rec);
            // the recorders of the messages that bring one
            let recs: Vec<(Recorder<u8>, Log<u8>)> = (0..l.msgs.len()).map(|i| Recorder::new(&format!("m{}", i), 1)).collect();
            let logs: Vec<Log<u8>> = recs.iter().map(|r| r.1.clone()).collect();
            let recs: Vec<_> = recs.into_iter().map(|r| std::sync::Mutex::new(Some(r.0))).collect();
            let sent = Arc::new(std::sync::atomic::AtomicBool::new(false));
            let (tx2, sent2) = (tx.clone(), sent.clone());
            let t = std::thread::Builder::new()
                .name("mxshard-sender".into())
                .spawn_scoped(s, move || {
                    vclock::mark_harness_thread();
                    lane_sender(&tx2, l, &|i| recs[i].lock().unwrap().take().unwrap());
                    sent2.store(true, SeqCst);
                })
                .unwrap();
            lanes.push((tx, rx, logs, t, sent));
        }
        let held = vclock::real_ns();
        while vclock::real_ns() - held < c.hold_ms as u64 * 1_000_000 {
            vclock::real_sleep(std::time::Duration::from_millis((c.hold_ms as u64).min(200)));
            // the watchdog is to see that this is not a deadlock
            let t = vclock::cpu_ns(libc::CLOCK_THREAD_CPUTIME_ID);
            while vclock::cpu_ns(libc::CLOCK_THREAD_CPUTIME_ID) - t < 3_000_000 {}
        }
        let mut res = Ok(());
        for (k, (tx, mut rx, logs, t, sent)) in lanes.into_iter().enumerate() {
            let l = &c.lanes[k];
            let over = l.msgs.len() > l.cap;
            let early = sent.load(SeqCst);
            blocked += over as usize;
            let start = vclock::real_ns();
            let (mut processed, mut runs) = (0, 0);
            // drained also if something is wrong: the sender has to end
            loop {
                let over = t.is_finished();
                let max = l.maxes.get(runs).map_or(1000, |m| *m as usize);
                let out = rx.process(max, ProcessingStrategy::ProcessAll).processed;
                runs += 1;
                processed += out;
                if over && out == 0 && tx.is_queue_empty() && max > 0 {
                    break;
                }
                if vclock::real_ns() - start > 60_000_000_000 {
                    res = Err(format!("{}a sender did not finish", INCONCLUSIVE));
                    break;
                }
            }
            if res.is_err() {
                return res;
            }
            let one = (|| -> Res {
                ensure!(!(over && early), "lane {}: all {} messages were sent into a queue of {} that nobody processed", k, l.msgs.len(), l.cap);
                ensure_eq!(processed, l.msgs.len(), "lane {}: messages processed, sender blocked for {} ms", k, c.hold_ms);
                // who is there when
                let mut want: Vec<Vec<u8>> = vec![vec![]; l.msgs.len()];
                let (mut handlers, mut cockpit): (Vec<usize>, Option<(usize, Option<usize>)>) = (vec![], None);
                for (i, m) in l.msgs.iter().enumerate() {
                    match m {
                        LMsg::Obs => {
                            let inside = cockpit.iter().flat_map(|c| std::iter::once(c.0).chain(c.1));
                            for h in handlers.iter().copied().chain(inside) {
                                want[h].push(i as u8);
                            }
                        }
                        LMsg::Handler => handlers.push(i),
                        LMsg::Cockpit => cockpit = cockpit.or(Some((i, None))),
                        LMsg::Panel => {
                            if let Some(c) = cockpit.as_mut() {
                                c.1 = c.1.or(Some(i));
                            }
                        }
                        LMsg::RemovePanel => {
                            if let Some(c) = cockpit.as_mut() {
                                c.1 = None;
                            }
                        }
                        LMsg::RemoveCockpit => cockpit = None,
                    }
                }
                for (i, log) in logs.iter().enumerate() {
                    let got: Vec<u8> = log.lock().unwrap().iter().map(|r| r.label).collect();
                    ensure_eq!(got, want[i], "lane {}: seen by what message {} brought, sender blocked for {} ms", k, i, c.hold_ms);
                }
                Ok(())
            })();
            res = res.and(one);
        }
        res
    })?;
    o.nontrivial_if(blocked > 0);
    o.label_if(blocked > 3, "more than three blocked senders");
    o.label_if(c.hold_ms > 500, "blocked for more than half a second");
    Ok(())
}

// ----------------------------------------------------------------- capacity

/// Queues of any size filled to the brim and beyond.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Cap {
    cap: u32,
    bounded: bool,
    block: bool,
    extra: u16,
    /// share of the capacity that is consumed in between, per mille
    consume: u16,
}
fn cap_case() -> impl Strategy<Value = Cap> {
    let cap = (0u32..18, any::<u32>()).prop_map(|(bits, x)| (1 << bits) + x % (1 << bits));
    (cap, proptest::bool::weighted(0.9), any::<bool>(), 0u16..300, 0u16..1001).prop_map(|(cap, bounded, block, extra, consume)| Cap { cap, bounded, block, extra, consume })
}
fn capacity(c: &Cap, o: &mut Obs) -> Res {
    let cap = c.cap as usize;
    let (tx, mut rx) = match c.bounded {
        true => TelemetryProcessor::<u32>::new_pair_bounded_without_name(cap, c.block),
        false => TelemetryProcessor::new_pair_without_name(),
    };
    let (rec, log) = Recorder::new("r", 1);
    rx.add_handler(rec);
    ensure_eq!(tx.queue_capacity(), c.bounded.then_some(cap), "capacity");
    let ts = at(0);
    let mut next = 0u32;
    let mut want: std::collections::VecDeque<u32> = Default::default();
    let mut fill = |n: usize, want: &mut std::collections::VecDeque<u32>| -> Res {
        for _ in 0..n {
            if c.bounded && c.block && want.len() == cap {
                break;
            }
            tx.observed_one(next, ts);
            if !c.bounded || want.len() < cap {
                want.push_back(next);
            }
            next += 1;
        }
        ensure_eq!(tx.queue_size(), want.len(), "queue size with {} of {}", want.len(), cap);
        ensure_eq!(tx.is_queue_full(), c.bounded && want.len() == cap, "full with {} of {}", want.len(), cap);
        ensure_eq!(tx.is_queue_empty(), want.is_empty(), "empty with {} of {}", want.len(), cap);
        Ok(())
    };
    fill(cap.saturating_sub(1), &mut want)?;
    fill(1, &mut want)?;
    fill(c.extra as usize, &mut want)?;
    let mut seen = 0;
    for max in [want.len() * c.consume as usize / 1000, usize::MAX] {
        let n = max.min(want.len());
        let out = rx.process(max, ProcessingStrategy::ProcessAll);
        ensure_eq!((out.processed, out.dropped, out.observations_enqueued), (n, 0, want.len() - n), "outcome of a run limited to {}", max);
        let log = log.lock().unwrap();
        ensure_eq!(log.len(), seen + n, "observations delivered");
        for r in &log[seen..] {
            ensure_eq!(Some(r.label), want.pop_front(), "observation delivered");
        }
        seen += n;
        drop(log);
        if max != usize::MAX {
            fill(n + c.extra as usize, &mut want)?;
        }
    }
    o.nontrivial_if(c.bounded && c.extra > 0 && cap > 10);
    o.label_if(cap > 10_000, "more than ten thousand places");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
            "capacity",
            "queues of capacity 1..262143 (or unbounded), filled to the brim, beyond, partly consumed and filled again; non-trivial: bounded, more than ten places, more sent than fits",
            Clock::Local,
            1_500,
            15_000,
            cap_case,
            capacity,
        ),
        facet(
            "overflow",
            "up to 51 operations on bounded queues (capacity 0..200, blocking sends only while there is room); non-trivial: something delivered and the queue overflowed or was full",
            Clock::Local,
            80_000,
            800_000,
            case,
            check,
        ),
        facet(
            "concurrent",
            "1..5 threads send up to 400 observations each into a queue of capacity 1..64, blocking or not, while runs with generated limits drain it; non-trivial: several threads and more messages than capacity",
            Clock::Global,
            4_000,
            40_000,
            || {
                (
                    prop_oneof![Just(1usize), 2usize..8, 8usize..64],
                    any::<bool>(),
                    vec(prop_oneof![0u16..20, 0u16..400], 1..5),
                    vec(prop_oneof![Just(1u16), 1u16..10, 1u16..1000], 1..4),
                    0u8..6,
                )
                    .prop_map(|(cap, block, per_thread, maxes, yields)| Conc { cap, block, per_thread, maxes, yields })
            },
            concurrent,
        ),
        facet(
            "stalled",
            "up to 40 lanes at once, each with a sender of up to 20 messages of every type into a blocking queue of capacity 1..4 that stays full for 5..2500 ms of real time (40 s in the thorough run) before it is drained; every message must have its effect; non-trivial: a sender was blocked",
            Clock::Real,
            4,
            24,
            || {
                let long = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
                let hold = if long { prop_oneof![5u16..50, 500u16..2_500, 2_500u16..12_000, 30_000u16..40_000].boxed() } else { prop_oneof![5u16..50, 700u16..2_500].boxed() };
                stall(hold, 40)
            },
            stalled,
        ),
        facet(
            "stalled-long",
            "the same with 20 to 40 lanes blocked for 10..13 s of real time (61..65 s in the thorough run); non-trivial: a sender was blocked",
            Clock::Real,
            1,
            2,
            || {
                let long = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
                let hold = if long { (61_000u16..65_000).boxed() } else { (10_000u16..13_000).boxed() };
                stall_n(hold, 20..41)
            },
            stalled,
        ),
    ]
}
