//! Model-based histories of a processor and its transmitters; shared by C01,
//! C02, C03 and C25, which weight the operations differently.
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, ensure_eq, vclock};
use metrix::instruments::*;
use metrix::processor::*;
use metrix::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Queue {
    Unbounded,
    Bounded { cap: usize, block: bool },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum POp {
    Send { tx: u8, label: u8, kind: Kind, ts_off: i64 },
    Burst { tx: u8, n: u16, label: u8, kind: Kind },
    Process { max: usize, strat: Strat },
    AddHandler { tx: u8, reports: u8 },
    AddCockpit { tx: u8, name: Option<u8>, reports: u8 },
    RemoveCockpit { tx: u8, name: u8 },
    AddPanel { tx: u8, cockpit: u8, name: Option<u8>, reports: u8 },
    RemovePanel { tx: u8, cockpit: u8, name: u8 },
    CloneTx { tx: u8 },
    DropTx { tx: u8 },
    DropAllTx,
    DropProcessor,
    DirectHandler { reports: u8, advance: u64 },
    DirectCockpit { name: Option<u8>, reports: u8 },
    /// a handler that itself sends while it handles an observation
    DirectEcho { mask: u32, what: EchoWhat, budget: u8, reports: u8 },
    Advance(u64),
    Snapshot,
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum EchoWhat {
    /// one more observation, whose label is greater by one
    Obs,
    /// the same twice
    Twice,
    Handler,
    Cockpit(u8),
    RemoveCockpit(u8),
}
pub fn echo() -> impl Strategy<Value = POp> {
    let what = prop_oneof![
        3 => Just(EchoWhat::Obs),
        1 => Just(EchoWhat::Twice),
        1 => Just(EchoWhat::Handler),
        1 => (0u8..4).prop_map(EchoWhat::Cockpit),
        1 => (0u8..4).prop_map(EchoWhat::RemoveCockpit),
    ];
    (prop_oneof![Just(u32::MAX), any::<u32>()], what, 0u8..6, 0u8..3)
        .prop_map(|(mask, what, budget, reports)| POp::DirectEcho { mask, what, budget, reports })
}
pub fn panel_ops() -> impl Strategy<Value = POp> {
    prop_oneof![
        2 => (any::<u8>(), 0u8..4, proptest::option::of(0u8..4), 0u8..4).prop_map(|(tx, cockpit, name, reports)| POp::AddPanel { tx, cockpit, name, reports }),
        1 => (any::<u8>(), 0u8..4, 0u8..4).prop_map(|(tx, cockpit, name)| POp::RemovePanel { tx, cockpit, name }),
    ]
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PCase {
    pub queue: Queue,
    pub named: bool,
    pub ops: Vec<POp>,
}

pub fn name_of(n: u8) -> String {
    ["a", "b", "", "a/b"][n as usize % 4].to_string()
}

pub fn max_limit() -> impl Strategy<Value = usize> {
    prop_oneof![
        1 => Just(0usize), 3 => Just(1usize), 4 => 2usize..12, 3 => 12usize..200,
        3 => prop_oneof![Just(999usize), Just(1000), Just(1001), Just(5000)],
        1 => Just(usize::MAX),
        1 => (0u32..64, 0usize..3).prop_map(|(s, d)| (1usize << s) - 1 + d),
    ]
}

/// A handler that also moves the clock while it handles an observation.
struct Slow<L>(Recorder<L>, u64);
impl<L: Clone + Send + 'static> HandlesObservations for Slow<L> {
    type Label = L;
    fn handle_observation(&mut self, o: &Observation<L>) -> usize {
        vclock::advance(self.1);
        self.0.handle_observation(o)
    }
}
impl<L: Send + 'static> PutsSnapshot for Slow<L> {
    fn put_snapshot(&self, into: &mut metrix::snapshot::Snapshot, d: bool) {
        self.0.put_snapshot(into, d)
    }
}

/// Sends while it handles an observation.
struct EchoHandler {
    rec: Recorder<u8>,
    tx: TelemetryTransmitter<u8>,
    mask: u32,
    what: EchoWhat,
    /// what it has left to add
    recs: Vec<Recorder<u8>>,
    budget: u8,
}
impl HandlesObservations for EchoHandler {
    type Label = u8;
    fn handle_observation(&mut self, o: &Observation<u8>) -> usize {
        let label = *o.label();
        if self.budget > 0 && self.mask >> (label % 32) & 1 == 1 {
            self.budget -= 1;
            let again = |n| {
                for _ in 0..n {
                    self.tx.observed_one(label.wrapping_add(1), real_now());
                }
            };
            match self.what {
                EchoWhat::Obs => again(1),
                EchoWhat::Twice => again(2),
                EchoWhat::Handler => {
                    self.tx.add_handler(self.recs.remove(0));
                }
                EchoWhat::Cockpit(n) => {
                    self.tx.add_cockpit(cockpit_of(&Some(name_of(n)), self.recs.remove(0)));
                }
                EchoWhat::RemoveCockpit(n) => {
                    self.tx.remove_cockpit(name_of(n));
                }
            }
        }
        self.rec.handle_observation(o)
    }
}
impl PutsSnapshot for EchoHandler {
    fn put_snapshot(&self, into: &mut metrix::snapshot::Snapshot, d: bool) {
        self.rec.put_snapshot(into, d)
    }
}
fn cockpit_of(name: &Option<String>, r: Recorder<u8>) -> Cockpit<u8> {
    let mut cp = match name {
        Some(n) => Cockpit::new(n.clone()),
        None => Cockpit::without_name(),
    };
    cp.add_handler(r);
    cp
}

#[derive(Clone)]
enum Msg {
    Obs { label: u8, kind: Kind, ts: i128 },
    AddHandler(usize),
    AddCockpit(Option<String>, usize),
    RemoveCockpit(String),
    AddPanel(String, Option<String>, usize),
    RemovePanel(String, String),
}

struct MCock {
    name: Option<String>,
    panels: Vec<(Option<String>, usize)>,
    own: usize,
}
struct MEcho {
    mask: u32,
    what: EchoWhat,
    budget: u8,
    next: usize,
}

struct Consumer {
    log: Log<u8>,
    expected: Vec<(u8, Kind, i128)>,
    checked: usize,
    reports: usize,
    advance: u64,
    echo: Option<MEcho>,
}

#[derive(Default)]
pub struct Stats {
    pub delivered: usize,
    pub rejected: usize,
    pub dropped: usize,
    pub partial_runs: usize,
    pub runs: usize,
    pub skipped_blocking: usize,
    pub exact_age: usize,
    pub old_deltas_kept: usize,
    pub drained_after_disconnect: usize,
    pub controls: usize,
    pub echoed: usize,
}

pub fn run(c: &PCase, st: &mut Stats) -> Res {
    let name = "proc";
    let (tx, rx): (TelemetryTransmitter<u8>, TelemetryProcessor<u8>) = match (c.queue, c.named) {
        (Queue::Unbounded, true) => TelemetryProcessor::new_pair(name),
        (Queue::Unbounded, false) => TelemetryProcessor::new_pair_without_name(),
        (Queue::Bounded { cap, block }, true) => TelemetryProcessor::new_pair_bounded(name, cap, block),
        (Queue::Bounded { cap, block }, false) => TelemetryProcessor::new_pair_bounded_without_name(cap, block),
    };
    let mut rx = Some(rx);
    let mut txs: Vec<TelemetryTransmitter<u8>> = vec![tx];
    let cap = match c.queue {
        Queue::Unbounded => None,
        Queue::Bounded { cap, .. } => Some(cap),
    };
    let blocking = matches!(c.queue, Queue::Bounded { block: true, .. });

    let mut queue: VecDeque<Msg> = VecDeque::new();
    let mut consumers: Vec<Consumer> = Vec::new();
    let mut handlers: Vec<usize> = Vec::new();
    let mut cockpits: Vec<MCock> = Vec::new();
    // an echo handler holds a transmitter for as long as the processor lives
    let mut echoes = false;

    fn consumer(consumers: &mut Vec<Consumer>, reports: u8, advance: u64) -> (Recorder<u8>, usize) {
        let id = consumers.len();
        let (r, log) = Recorder::new(&format!("r{}", id), reports as usize);
        consumers.push(Consumer { log, expected: Vec::new(), checked: 0, reports: reports as usize, advance, echo: None });
        (r, id)
    }

    // when a send began that has nothing to wait for
    let mut sending: Option<u64> = None;
    let took_no_time = |sending: Option<u64>| -> Res {
        let took = sending.map_or(0, |t| vclock::now_ns() - t);
        ensure!(took < SEC, "a send that has nothing to wait for took {} ms", took / MS);
        Ok(())
    };
    for (i, op) in c.ops.iter().enumerate() {
        took_no_time(sending.take())?;
        if matches!(op, POp::Send { .. } | POp::Burst { .. } | POp::AddHandler { .. } | POp::AddCockpit { .. } | POp::RemoveCockpit { .. } | POp::AddPanel { .. } | POp::RemovePanel { .. }) {
            sending = Some(vclock::now_ns());
        }
        // what a send does to the model; false = not even attempted
        let room = |queue: &VecDeque<Msg>| cap.map_or(true, |c| queue.len() < c);
        let alive = rx.is_some();
        match op {
            POp::Send { .. } | POp::Burst { .. } | POp::AddHandler { .. } | POp::AddCockpit { .. } | POp::RemoveCockpit { .. } | POp::AddPanel { .. } | POp::RemovePanel { .. }
                if txs.is_empty() => {}
            POp::Send { tx, label, kind, ts_off } => {
                let t = &txs[*tx as usize % txs.len()];
                if alive && blocking && !room(&queue) {
                    st.skipped_blocking += 1;
                    continue;
                }
                let ts = vclock::now_ns() as i128 + *ts_off as i128;
                t.transmit(kind.obs(*label, at(ts)));
                if alive && room(&queue) {
                    queue.push_back(Msg::Obs { label: *label, kind: *kind, ts });
                } else {
                    st.rejected += 1;
                }
            }
            POp::Burst { tx, n, label, kind } => {
                let t = &txs[*tx as usize % txs.len()];
                for k in 0..*n {
                    if alive && blocking && !room(&queue) {
                        st.skipped_blocking += 1;
                        break;
                    }
                    let ts = vclock::now_ns() as i128 - k as i128;
                    let label = label.wrapping_add(k as u8);
                    t.transmit(kind.obs(label, at(ts)));
                    if alive && room(&queue) {
                        queue.push_back(Msg::Obs { label, kind: *kind, ts });
                    } else {
                        st.rejected += 1;
                    }
                }
            }
            POp::AddHandler { tx, reports } => {
                if alive && blocking && !room(&queue) {
                    continue;
                }
                let (r, id) = consumer(&mut consumers, *reports, 0);
                txs[*tx as usize % txs.len()].add_handler(r);
                if alive && room(&queue) {
                    queue.push_back(Msg::AddHandler(id));
                }
            }
            POp::AddCockpit { tx, name, reports } => {
                if alive && blocking && !room(&queue) {
                    continue;
                }
                let (r, id) = consumer(&mut consumers, *reports, 0);
                let name = name.map(name_of);
                txs[*tx as usize % txs.len()].add_cockpit(cockpit_of(&name, r));
                if alive && room(&queue) {
                    queue.push_back(Msg::AddCockpit(name, id));
                }
            }
            POp::RemoveCockpit { tx, name } => {
                if alive && blocking && !room(&queue) {
                    continue;
                }
                txs[*tx as usize % txs.len()].remove_cockpit(name_of(*name));
                if alive && room(&queue) {
                    queue.push_back(Msg::RemoveCockpit(name_of(*name)));
                }
            }
            POp::AddPanel { tx, cockpit, name, reports } => {
                if alive && blocking && !room(&queue) {
                    continue;
                }
                let (r, id) = consumer(&mut consumers, *reports, 0);
                let (cockpit, name) = (name_of(*cockpit), name.map(name_of));
                let mut p = match &name {
                    Some(n) => Panel::named(AcceptAllLabels, n.clone()),
                    None => Panel::new(AcceptAllLabels),
                };
                p.add_handler(r);
                txs[*tx as usize % txs.len()].add_panel_to_cockpit(cockpit.clone(), p);
                if alive && room(&queue) {
                    queue.push_back(Msg::AddPanel(cockpit, name, id));
                }
            }
            POp::RemovePanel { tx, cockpit, name } => {
                if alive && blocking && !room(&queue) {
                    continue;
                }
                let (cockpit, name) = (name_of(*cockpit), name_of(*name));
                txs[*tx as usize % txs.len()].remove_panel_from_cockpit(cockpit.clone(), name.clone());
                if alive && room(&queue) {
                    queue.push_back(Msg::RemovePanel(cockpit, name));
                }
            }
            POp::DirectEcho { mask, what, budget, reports } => {
                if let (Some(p), false, false) = (rx.as_mut(), txs.is_empty(), blocking) {
                    let (r, id) = consumer(&mut consumers, *reports, 0);
                    let next = consumers.len();
                    let mut recs = vec![];
                    if matches!(what, EchoWhat::Handler | EchoWhat::Cockpit(_)) {
                        for _ in 0..*budget {
                            recs.push(consumer(&mut consumers, 1, 0).0);
                        }
                    }
                    consumers[id].echo = Some(MEcho { mask: *mask, what: *what, budget: *budget, next });
                    p.add_handler(EchoHandler { rec: r, tx: txs[0].clone(), mask: *mask, what: *what, recs, budget: *budget });
                    handlers.push(id);
                    echoes = true;
                }
            }
            POp::CloneTx { tx } => {
                if !txs.is_empty() {
                    let t = txs[*tx as usize % txs.len()].clone();
                    txs.push(t);
                }
            }
            POp::DropTx { tx } => {
                if !txs.is_empty() {
                    let k = *tx as usize % txs.len();
                    txs.remove(k);
                }
            }
            POp::DropAllTx => txs.clear(),
            POp::DropProcessor => {
                rx = None;
                queue.clear();
            }
            POp::DirectHandler { reports, advance } => {
                if let Some(p) = rx.as_mut() {
                    let (r, id) = consumer(&mut consumers, *reports, *advance);
                    p.add_handler(Slow(r, *advance));
                    handlers.push(id);
                }
            }
            POp::DirectCockpit { name, reports } => {
                if let Some(p) = rx.as_mut() {
                    let (r, id) = consumer(&mut consumers, *reports, 0);
                    let name = name.map(name_of);
                    p.add_cockpit(cockpit_of(&name, r));
                    if name.is_none() || !cockpits.iter().any(|c| c.name == name) {
                        cockpits.push(MCock { name, panels: vec![], own: id });
                    }
                }
            }
            POp::Advance(n) => vclock::advance(*n),
            POp::Snapshot => {
                if let Some(p) = rx.as_ref() {
                    let s = snap(p, i % 2 == 0);
                    let s = if c.named {
                        ensure_eq!(names(&s), vec![name.to_string()], "op {}: processor level", i);
                        sub(&s, name).unwrap().clone()
                    } else {
                        s
                    };
                    let mut want: Vec<(String, u64)> = Vec::new();
                    let mut got: Vec<(String, u64)> = Vec::new();
                    for c in &cockpits {
                        let prefix = c.name.clone().map(|n| format!("{}>", n)).unwrap_or_default();
                        for (n, id) in &c.panels {
                            let prefix = prefix.clone() + &n.clone().map(|n| format!("{}>", n)).unwrap_or_default();
                            want.push((format!("{}r{}", prefix, id), consumers[*id].expected.len() as u64));
                        }
                        want.push((format!("{}r{}", prefix, c.own), consumers[c.own].expected.len() as u64));
                    }
                    for id in &handlers {
                        want.push((format!("r{}", id), consumers[*id].expected.len() as u64));
                    }
                    fn flat(s: &metrix::snapshot::Snapshot, prefix: &str, got: &mut Vec<(String, u64)>) {
                        for (n, v) in &s.items {
                            match v {
                                metrix::snapshot::ItemKind::Snapshot(l) => flat(l, &format!("{}{}>", prefix, n), got),
                                v => got.push((format!("{}{}", prefix, n), as_int(v).unwrap_or(-1) as u64)),
                            }
                        }
                    }
                    flat(&s, "", &mut got);
                    ensure_eq!(got, want, "op {}: snapshot", i);
                }
            }
            POp::Process { max, strat } => {
                let Some(p) = rx.as_mut() else { continue };
                let start = vclock::now_ns() as i128;
                let out = p.process(*max, strat.get());
                st.runs += 1;
                let (mut processed, mut dropped, mut updated) = (0usize, 0usize, 0usize);
                let before = queue.len();
                let mut advanced: u64 = 0;
                let mut taken = 0usize;
                while taken < *max {
                    let Some(msg) = queue.pop_front() else { break };
                    taken += 1;
                    match msg {
                        Msg::Obs { label, kind, ts } => {
                            let age = start - ts;
                            if let Strat::Older { max_age_ns, drop_deltas } = strat {
                                if age == *max_age_ns as i128 {
                                    st.exact_age += 1;
                                }
                                if age > *max_age_ns as i128 && kind.is_delta() && !drop_deltas {
                                    st.old_deltas_kept += 1;
                                }
                            }
                            if strat.keeps(age, kind.is_delta()) {
                                processed += 1;
                                st.delivered += 1;
                                let all: Vec<usize> =
                                    cockpits.iter().flat_map(|c| std::iter::once(c.own).chain(c.panels.iter().map(|p| p.1))).chain(handlers.iter().copied()).collect();
                                for id in all {
                                    let k = &mut consumers[id];
                                    k.expected.push((label, kind, ts));
                                    updated += k.reports;
                                    advanced += k.advance;
                                    let Some(e) = k.echo.as_mut().filter(|e| e.budget > 0 && e.mask >> (label % 32) & 1 == 1) else { continue };
                                    e.budget -= 1;
                                    st.echoed += 1;
                                    let next = e.next;
                                    let again = Msg::Obs { label: label.wrapping_add(1), kind: Kind::One, ts: start + advanced as i128 };
                                    let msgs = match e.what {
                                        EchoWhat::Obs => vec![again],
                                        EchoWhat::Twice => vec![again.clone(), again],
                                        EchoWhat::Handler => {
                                            e.next += 1;
                                            vec![Msg::AddHandler(next)]
                                        }
                                        EchoWhat::Cockpit(n) => {
                                            e.next += 1;
                                            vec![Msg::AddCockpit(Some(name_of(n)), next)]
                                        }
                                        EchoWhat::RemoveCockpit(n) => vec![Msg::RemoveCockpit(name_of(n))],
                                    };
                                    for m in msgs {
                                        if room(&queue) {
                                            queue.push_back(m);
                                        } else {
                                            st.rejected += 1;
                                        }
                                    }
                                }
                            } else {
                                dropped += 1;
                                st.dropped += 1;
                            }
                        }
                        Msg::AddHandler(id) => {
                            processed += 1;
                            st.controls += 1;
                            handlers.push(id);
                        }
                        Msg::AddCockpit(n, id) => {
                            processed += 1;
                            st.controls += 1;
                            if n.is_none() || !cockpits.iter().any(|c| c.name == n) {
                                cockpits.push(MCock { name: n, panels: vec![], own: id });
                            }
                        }
                        Msg::RemoveCockpit(n) => {
                            processed += 1;
                            st.controls += 1;
                            cockpits.retain(|c| c.name.as_ref() != Some(&n));
                        }
                        Msg::AddPanel(cockpit, n, id) => {
                            processed += 1;
                            st.controls += 1;
                            if let Some(c) = cockpits.iter_mut().find(|c| c.name.as_ref() == Some(&cockpit)) {
                                if n.is_none() || !c.panels.iter().any(|p| p.0 == n) {
                                    c.panels.push((n, id));
                                }
                            }
                        }
                        Msg::RemovePanel(cockpit, n) => {
                            processed += 1;
                            st.controls += 1;
                            if let Some(c) = cockpits.iter_mut().find(|c| c.name.as_ref() == Some(&cockpit)) {
                                c.panels.retain(|p| p.0.as_ref() != Some(&n));
                            }
                        }
                    }
                }
                if !queue.is_empty() {
                    st.partial_runs += 1;
                }
                if txs.is_empty() && before > 0 && !echoes {
                    st.drained_after_disconnect += taken;
                }
                ensure_eq!(out.processed, processed, "op {}: processed", i);
                ensure_eq!(out.dropped, dropped, "op {}: dropped", i);
                ensure_eq!(out.instruments_updated, updated, "op {}: instruments updated", i);
                ensure_eq!(out.observations_enqueued, queue.len(), "op {}: observations enqueued", i);
                ensure_eq!(vclock::now_ns() as i128 - start, advanced as i128, "op {}: time spent by handlers", i);
                ensure_eq!(out.something_happened(), processed + dropped > 0, "op {}: something happened", i);
                let now = vclock::now_ns() as i128;
                let base = real_now();
                for (id, k) in consumers.iter_mut().enumerate() {
                    let log = k.log.lock().unwrap();
                    ensure!(
                        log.len() == k.expected.len(),
                        "op {}: consumer {} saw {} observations, expected {}",
                        i,
                        id,
                        log.len(),
                        k.expected.len()
                    );
                    for j in k.checked..log.len() {
                        let (label, kind, ts) = k.expected[j];
                        let t = if ts >= now {
                            base + std::time::Duration::from_nanos((ts - now) as u64)
                        } else {
                            base - std::time::Duration::from_nanos((now - ts) as u64)
                        };
                        let r = &log[j];
                        ensure!(
                            r.label == label && r.kind == kind && r.ts == t,
                            "op {}: consumer {} observation {}: got {:?} {:?} (timestamp right: {}), expected {:?} {:?}",
                            i,
                            id,
                            j,
                            r.label,
                            r.kind,
                            r.ts == t,
                            label,
                            kind
                        );
                    }
                    k.checked = log.len();
                }
            }
        }
        // nothing may arrive outside of processing
        for (id, k) in consumers.iter().enumerate() {
            let n = k.log.lock().unwrap().len();
            ensure!(n == k.expected.len(), "op {}: consumer {} saw {} observations, expected {}", i, id, n, k.expected.len());
        }
        if rx.is_some() {
            for t in &txs {
                ensure_eq!(t.queue_size(), queue.len(), "op {}: queue_size", i);
                ensure_eq!(t.queue_capacity(), cap, "op {}: queue_capacity", i);
                ensure_eq!(t.is_queue_empty(), queue.is_empty(), "op {}: is_queue_empty", i);
                ensure_eq!(t.is_queue_full(), cap.is_some_and(|c| queue.len() >= c), "op {}: is_queue_full", i);
            }
        }
    }
    took_no_time(sending)
}
