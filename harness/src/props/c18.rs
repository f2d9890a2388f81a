//! C18 the order of requests to a driver, and what its snapshots contain.
use super::drv::*;
use super::hier::*;
use super::inst::name;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, vclock};
use futures::FutureExt;
use metrix::driver::*;
use metrix::processor::*;
use metrix::snapshot::{ItemKind, Snapshot};
use metrix::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// --------------------------------------------------------------- requests

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum ROp {
    /// what its first runs claim to have processed and dropped
    Proc(Vec<(u8, u8)>),
    Snapper,
    Strategy(Strat),
    Pause,
    Resume,
    Async(bool),
    Sync(bool),
    /// lets the driver come to its next rest so many times
    Step(u8),
    /// continue on another handle
    Clone,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct RCase {
    cfg: DCfg,
    /// nobody looks at the asynchronous snapshots before the end
    late: bool,
    ops: Vec<ROp>,
}
fn rcase() -> impl Strategy<Value = RCase> {
    let op = prop_oneof![
        3 => vec((prop_oneof![Just(0u8), Just(101), any::<u8>()], prop_oneof![3 => Just(0u8), 1 => 0u8..3]), 0..6).prop_map(ROp::Proc),
        1 => Just(ROp::Snapper),
        2 => some_strat().prop_map(ROp::Strategy),
        2 => Just(ROp::Pause),
        2 => Just(ROp::Resume),
        4 => any::<bool>().prop_map(ROp::Async),
        1 => any::<bool>().prop_map(ROp::Sync),
        5 => (0u8..6).prop_map(ROp::Step),
        1 => Just(ROp::Clone),
    ];
    (dcfg(), any::<bool>(), vec(op, 1..40)).prop_map(|(cfg, late, ops)| RCase { cfg, late, ops })
}

#[derive(Debug, Clone, Copy)]
enum What {
    Run(usize, ProcessingStrategy),
    Shown(usize, bool),
}
#[derive(Default)]
struct Shared {
    /// requests made so far
    made: AtomicUsize,
    /// what happened, and how many requests had been made by then
    log: Mutex<Vec<(What, usize)>>,
}
impl Shared {
    fn add(&self, w: What) {
        let made = self.made.load(SeqCst);
        self.log.lock().unwrap().push((w, made));
    }
}
struct Part {
    id: usize,
    outcomes: Vec<(u8, u8)>,
    calls: usize,
    sh: Arc<Shared>,
}
impl ProcessesTelemetryMessages for Part {
    fn process(&mut self, _max: usize, s: ProcessingStrategy) -> ProcessingOutcome {
        self.sh.add(What::Run(self.id, s));
        let (p, d) = self.outcomes.get(self.calls).copied().unwrap_or((0, 0));
        self.calls += 1;
        ProcessingOutcome { processed: p as usize, dropped: d as usize, instruments_updated: 0, observations_enqueued: 0 }
    }
}
impl PutsSnapshot for Part {
    fn put_snapshot(&self, into: &mut Snapshot, d: bool) {
        self.sh.add(What::Shown(self.id, d));
        into.push(format!("part{}", self.id), self.calls as u64);
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Req {
    Add(usize),
    Strategy(Strat),
    Pause,
    Resume,
    Snap(bool),
}

fn requests(c: &RCase, o: &mut Obs) -> Res {
    let clean = Cleanup::new();
    vclock::global_enter(vclock::START_NS, false);
    vclock::gate_close();
    let base = clean.0;
    let mut driver = c.cfg.build();
    let sh = Arc::new(Shared::default());
    let mut reqs: Vec<Req> = vec![];
    // processors and snapshooters in the order they were added
    let mut procs: Vec<usize> = vec![];
    let mut snaps: Vec<(usize, usize)> = vec![];
    let mut proc_at: Vec<(usize, usize)> = vec![];
    let mut ids = 0;
    // (index of request, descriptive, future)
    let mut open: Vec<(usize, bool, futures::future::BoxFuture<'static, Result<Snapshot, GetSnapshotError>>)> = vec![];
    let mut answers: Vec<(usize, bool, Snapshot)> = vec![];
    let step = |n: usize| -> Res {
        for _ in 0..n {
            vclock::gate_step();
            rest(base)?;
        }
        Ok(())
    };
    rest(base)?;
    let req = |reqs: &mut Vec<Req>, r: Req| {
        reqs.push(r);
        sh.made.store(reqs.len(), SeqCst);
        reqs.len() - 1
    };
    for op in &c.ops {
        match op {
            ROp::Proc(outcomes) => {
                let i = req(&mut reqs, Req::Add(ids));
                driver.add_processor(Part { id: ids, outcomes: outcomes.clone(), calls: 0, sh: sh.clone() });
                procs.push(ids);
                proc_at.push((ids, i));
                ids += 1;
            }
            ROp::Snapper => {
                let i = req(&mut reqs, Req::Add(ids));
                driver.add_snapshooter(Part { id: ids, outcomes: vec![], calls: 0, sh: sh.clone() });
                snaps.push((ids, i));
                ids += 1;
            }
            ROp::Strategy(s) => {
                req(&mut reqs, Req::Strategy(*s));
                driver.change_processing_stragtegy(s.get());
            }
            ROp::Pause => {
                req(&mut reqs, Req::Pause);
                driver.pause();
            }
            ROp::Resume => {
                req(&mut reqs, Req::Resume);
                driver.resume();
            }
            ROp::Async(d) => {
                let i = req(&mut reqs, Req::Snap(*d));
                open.push((i, *d, driver.snapshot_async(*d).boxed()));
            }
            ROp::Sync(d) => {
                let i = req(&mut reqs, Req::Snap(*d));
                vclock::gate_open();
                let s = driver.snapshot(*d).map_err(|_| "a snapshot was refused".to_string())?;
                vclock::gate_close();
                rest(base)?;
                answers.push((i, *d, s));
                // what was asked for before has been answered by now
                collect(&mut open, &mut answers)?;
                ensure!(open.is_empty(), "a later snapshot was answered and {} earlier ones were not", open.len());
            }
            ROp::Step(n) => step(*n as usize)?,
            ROp::Clone => {
                let other = driver.clone();
                driver = other;
            }
        }
        if !c.late {
            collect(&mut open, &mut answers)?;
        }
    }
    // everything is answered
    let i = req(&mut reqs, Req::Snap(false));
    open.push((i, false, driver.snapshot_async(false).boxed()));
    let mut n = 0;
    while !open.is_empty() {
        step(1)?;
        collect(&mut open, &mut answers)?;
        n += 1;
        ensure!(n < 10 * reqs.len() + 100, "{} snapshots are not answered after {} more rests of the driver", open.len(), n);
    }
    no_foreign_panic()?;

    // the state after each number of requests
    let mut paused = vec![false];
    let mut strat = vec![c.cfg.strat().get()];
    for r in &reqs {
        paused.push(match r {
            Req::Pause => true,
            Req::Resume => false,
            _ => *paused.last().unwrap(),
        });
        strat.push(match r {
            Req::Strategy(s) => s.get(),
            _ => *strat.last().unwrap(),
        });
    }
    let added: Vec<usize> = {
        let mut a = vec![0; ids];
        for (k, r) in reqs.iter().enumerate() {
            if let Req::Add(i) = r {
                a[*i] = k;
            }
        }
        a
    };

    // liveness of the last state
    let runs = |id: usize| sh.log.lock().unwrap().iter().filter(|e| matches!(e.0, What::Run(i, _) if i == id)).count();
    let before: Vec<usize> = procs.iter().map(|p| runs(*p)).collect();
    step(12)?;
    let after: Vec<usize> = procs.iter().map(|p| runs(*p)).collect();
    if paused[reqs.len()] {
        ensure!(before == after, "runs while paused: {:?} before, {:?} after", before, after);
    } else {
        ensure!(before.iter().zip(&after).all(|(b, a)| a > b), "not every processor runs: {:?} before, {:?} after", before, after);
        ensure!(after.iter().zip(&before).all(|(a, b)| a - b == after[0] - before[0]), "some run more often: {:?} before, {:?} after", before, after);
    }

    // the answers
    for (k, d, s) in &answers {
        let mut level = s;
        if let Some(n) = &c.cfg.name {
            ensure!(names(s) == [n.clone()], "snapshot {}: {:?} instead of the driver's name {:?}", k, names(s), n);
            level = match &s.items[0].1 {
                ItemKind::Snapshot(l) => l,
                x => return Err(format!("snapshot {}: {:?} under the driver's name", k, x)),
            };
        }
        let mut want: Vec<String> = vec![];
        if *d {
            want.extend(c.cfg.title.iter().map(|_| "_title".to_string()));
            want.extend(c.cfg.desc.iter().map(|_| "_description".to_string()));
        }
        want.extend(proc_at.iter().filter(|p| p.1 < *k).map(|p| format!("part{}", p.0)));
        want.extend(snaps.iter().filter(|p| p.1 < *k).map(|p| format!("part{}", p.0)));
        if c.cfg.metrics() {
            want.push("_metrix".into());
        }
        ensure!(names(level) == want, "snapshot {} (request {} of {:?}) shows {:?}, expected {:?}", k, k, reqs, names(level), want);
        if *d {
            for (n, t) in [("_title", &c.cfg.title), ("_description", &c.cfg.desc)] {
                let shown = get(level, n).cloned();
                ensure!(shown == t.clone().map(ItemKind::Text), "snapshot {}: {} is {:?}, expected {:?}", k, n, shown, t);
            }
        }
    }

    // every run and every look fits an order in which the requests were taken one after the other
    let log = sh.log.lock().unwrap().clone();
    let mut at = 0usize;
    for (e, (w, made)) in log.iter().enumerate() {
        let fits = |c: usize| match w {
            What::Run(id, s) => c <= *made && added[*id] < c && !paused[c] && strat[c] == *s,
            What::Shown(id, d) => c < *made && added[*id] < c && reqs[c] == Req::Snap(*d),
        };
        match (at..=reqs.len()).find(|c| fits(*c)) {
            Some(c) => at = c,
            None => {
                return Err(format!(
                    "event {} of the driver, {:?}, does not fit: at least {} of {:?} had been taken, {} had been made, the strategy at first was {:?}",
                    e, w, at, reqs, made, strat[0]
                ))
            }
        }
    }
    let kinds = reqs.iter().filter(|r| !matches!(r, Req::Snap(_))).count();
    o.nontrivial_if(answers.len() > 2 && kinds > 2 && log.len() > 10);
    o.label_if(paused.iter().any(|p| *p), "paused");
    o.label_if(log.iter().any(|e| matches!(e.0, What::Run(..)) && strat[0] != match e.0 { What::Run(_, s) => s, _ => strat[0] }), "ran under a changed strategy");
    o.label_if(c.cfg.name.is_some(), "named");
    o.label_if(c.late, "asynchronous snapshots looked at late");
    Ok(())
}
type Open = (usize, bool, futures::future::BoxFuture<'static, Result<Snapshot, GetSnapshotError>>);
fn collect(open: &mut Vec<Open>, answers: &mut Vec<(usize, bool, Snapshot)>) -> Res {
    let mut left = vec![];
    let mut later_answered = false;
    for (i, d, mut f) in open.drain(..).rev() {
        match (&mut f).now_or_never() {
            Some(Ok(s)) => {
                later_answered = true;
                answers.push((i, d, s));
            }
            Some(Err(_)) => return Err("an asynchronous snapshot was refused".into()),
            None => {
                ensure!(!later_answered, "snapshot request {} is open and a later one is answered", i);
                left.push((i, d, f))
            }
        }
    }
    left.reverse();
    *open = left;
    Ok(())
}

// --------------------------------------------------------------- values

fn g() -> G {
    G { limits: 1, kinds: all_kinds, attached: false, spies: false, tame: true, ops: 0, structural: 1 }
}
fn vcase() -> impl Strategy<Value = TCase> {
    (driver_spec(g(), 0).prop_map(ProcSpec::Driver), vec(top(g(), 0), 1..30)).prop_map(|(root, ops)| TCase { root, ops })
}
fn values(c: &TCase, o: &mut Obs) -> Res {
    let (mut snaps, mut processed, mut held, mut took) = (0, 0, 0, 0);
    run_world(c, |w| {
        snaps = w.snapshots;
        processed = w.processed_by_driver;
        held = w.held_back;
        took = w.env.took;
    })?;
    o.nontrivial_if(processed > 2 && snaps > 1);
    o.label_if(held > 0, "messages waited while it was paused");
    o.label_if(took > 0, "instruments updated");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    let _ = name;
    vec![
        facet(
            "requests",
            "up to 40 requests (processors, snapshooters, strategy, pause, resume, both kinds of snapshot, handles cloned) with the driver let run between them from rest to rest; every run and look of every component must fit the requests taken one after the other, every snapshot must show what had been added; non-trivial: more than two snapshots, two other requests and ten events",
            Clock::Global,
            8_000,
            80_000,
            rcase,
            requests,
        ),
        facet(
            "values",
            "a driver with processors and mounts, up to 30 operations, snapshots compared entry by entry with the model; non-trivial: the driver processed more than two messages and was looked at more than once",
            Clock::Global,
            3_000,
            60_000,
            vcase,
            values,
        ),
    ]
}
