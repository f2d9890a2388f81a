//! C21 attached mounts.
use super::hier::*;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, ensure_eq, vclock};
use metrix::attached_mount::AttachedMount;
use metrix::processor::*;
use metrix::snapshot::Snapshot;
use metrix::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

fn g() -> G {
    G { limits: 1, kinds: plain_kinds, attached: true, spies: true, tame: true, ops: 50, structural: 1 }
}
fn case() -> impl Strategy<Value = HCase> {
    let root = (mount(g(), 2), mount(g(), 1), 0u8..5).prop_map(|(mut root, mut m, at)| {
        if at > 0 {
            m.attached = true;
            let at = (at as usize - 1).min(root.items.len());
            root.items.insert(at, MountItem::Proc(ProcSpec::Mount(m)));
        }
        ProcSpec::Mount(root)
    });
    hcase(g(), root)
}
fn check(c: &HCase, o: &mut Obs) -> Res {
    let s = run_hier(c)?;
    let handed = c.ops.iter().filter(|x| matches!(x, HOp::PutProc(..) | HOp::PutSnap(..) | HOp::AttachMount(..))).count();
    o.nontrivial_if(!s.env.pending.is_empty() && handed > 1);
    o.label_if(!s.env.pending.is_empty() && s.env.handles.is_empty(), "all handles gone");
    Ok(())
}

// ------------------------------------------------------------ handed over by what is being run

/// One run of the mount, and what is handed over before and in the midst of it.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Run {
    before: (u8, u8),
    /// the child that hands over, so many processors and snapshooters
    during: Option<(u8, u8, u8)>,
    /// what every child claims to have done
    claim: (u16, u16, u16),
    max: usize,
    look: bool,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct During {
    own: u8,
    runs: Vec<Run>,
    drop_handles_after: Option<u8>,
}
#[derive(Default)]
struct World {
    handle: Option<AttachedMount>,
    next: usize,
    run: usize,
    now: Option<Run>,
    /// which child's turn it is
    turn: usize,
    ran: Vec<Vec<usize>>,
    giver: usize,
}
#[derive(Clone)]
struct Gift(usize, Arc<Mutex<World>>);
struct Shown(usize);
impl PutsSnapshot for Shown {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push(format!("s{}", self.0), true);
    }
}
impl PutsSnapshot for Gift {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push(format!("c{}", self.0), self.1.lock().unwrap().ran[self.0].len() as u64);
    }
}
fn hand(w: &Arc<Mutex<World>>, n: (u8, u8)) {
    let (h, first) = {
        let mut l = w.lock().unwrap();
        let first = l.next;
        l.next += (n.0 + n.1) as usize;
        let next = l.next;
        l.ran.resize(next, vec![]);
        (l.handle.clone(), first)
    };
    let Some(mut h) = h else { return };
    for i in first..first + n.0 as usize {
        if i % 2 == 0 {
            h.add_processor(Gift(i, w.clone()));
        } else {
            h.put_processor(Gift(i, w.clone()));
        }
    }
    for i in first + n.0 as usize..first + (n.0 + n.1) as usize {
        h.add_snapshooter(Shown(i));
    }
}
impl ProcessesTelemetryMessages for Gift {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        let (gives, claim) = {
            let mut w = self.1.lock().unwrap();
            let run = w.run;
            w.ran[self.0].push(run);
            let turn = w.turn;
            w.turn += 1;
            let r = w.now.clone().unwrap();
            (r.during.filter(|_| turn == w.giver).map(|d| (d.1, d.2)), r.claim)
        };
        if let Some(n) = gives {
            hand(&self.1, n);
        }
        ProcessingOutcome { processed: claim.0 as usize, dropped: claim.1 as usize, instruments_updated: 0, observations_enqueued: claim.2 as usize }
    }
}
fn during(c: &During, o: &mut Obs) -> Res {
    let w: Arc<Mutex<World>> = Default::default();
    let mut root = ProcessorMount::default();
    let mut inner = ProcessorMount::new("m");
    // ids of the children, in order, and of the snapshooters
    let (mut children, mut shown, mut waiting): (Vec<usize>, Vec<usize>, Vec<(usize, bool)>) = Default::default();
    for i in 0..c.own as usize {
        w.lock().unwrap().ran.push(vec![]);
        w.lock().unwrap().next += 1;
        inner.add_processor(Gift(i, w.clone()));
        children.push(i);
    }
    let handle = root.attached_mount(inner);
    w.lock().unwrap().handle = Some(handle.clone());
    drop(handle);
    let mut joined: Vec<Option<usize>> = vec![Some(0); c.own as usize];
    let expect = |n: (u8, u8), waiting: &mut Vec<(usize, bool)>, joined: &mut Vec<Option<usize>>, gone: bool| {
        for k in 0..(n.0 + n.1) as usize {
            if !gone {
                waiting.push((joined.len(), k < n.0 as usize));
            }
            joined.push(None);
        }
    };
    let mut given = 0;
    for (i, r) in c.runs.iter().enumerate() {
        let gone = c.drop_handles_after.is_some_and(|d| i > d as usize);
        if gone {
            w.lock().unwrap().handle = None;
        }
        hand(&w, r.before);
        expect(r.before, &mut waiting, &mut joined, gone);
        for (id, p) in waiting.drain(..) {
            if p {
                children.push(id);
                joined[id] = Some(i);
            } else {
                shown.push(id);
            }
        }
        {
            let mut w = w.lock().unwrap();
            w.run = i;
            w.turn = 0;
            w.now = Some(r.clone());
            w.giver = r.during.map_or(0, |d| d.0 as usize % children.len().max(1));
        }
        let out = root.process(r.max, ProcessingStrategy::ProcessAll);
        if let (Some(d), false) = (r.during, children.is_empty()) {
            expect((d.1, d.2), &mut waiting, &mut joined, gone);
            given += (d.1 + d.2) as usize;
        }
        let n = children.len();
        ensure!(
            out.processed == n * r.claim.0 as usize && out.dropped == n * r.claim.1 as usize && out.observations_enqueued == n * r.claim.2 as usize,
            "run {}: outcome {} {} {} of {} children that claim {:?}",
            i,
            out.processed,
            out.dropped,
            out.observations_enqueued,
            n,
            r.claim
        );
        for (id, j) in joined.iter().enumerate() {
            let ran = w.lock().unwrap().ran[id].clone();
            let want: Vec<usize> = j.map_or(vec![], |j| (j..=i).collect());
            ensure!(ran == want, "run {}: processor {} took part in runs {:?}, expected {:?}", i, id, ran, want);
        }
        if r.look {
            let s = snap(&root, false);
            let got: Vec<String> = match s.items.first() {
                Some((n, metrix::snapshot::ItemKind::Snapshot(l))) if n == "m" => l.items.iter().map(|x| x.0.clone()).collect(),
                _ => return Err(format!("run {}: {:?}", i, s)),
            };
            let want: Vec<String> = children.iter().map(|c| format!("c{}", c)).chain(shown.iter().map(|c| format!("s{}", c))).collect();
            ensure_eq!(got, want, "run {}: entries of the mount", i);
        }
    }
    o.nontrivial_if(given > 0 && c.runs.len() > 1);
    o.label_if(c.runs.iter().any(|r| r.claim.0 as usize + r.claim.1 as usize > 500), "busy runs");
    Ok(())
}
fn during_case() -> impl Strategy<Value = During> {
    let n = || (prop_oneof![3 => 0u8..3, 1 => 3u8..40], 0u8..3);
    let claim = || prop_oneof![3 => 0u16..3, 1 => 95u16..105, 1 => 500u16..2_000];
    let run = (n(), proptest::option::of((any::<u8>(), prop_oneof![3 => 0u8..4, 1 => 4u8..60], 0u8..4)), (claim(), prop_oneof![2 => Just(0u16), 1 => claim()], claim()), limit(), any::<bool>())
        .prop_map(|(before, during, claim, max, look)| Run { before, during, claim, max, look });
    (0u8..4, vec(run, 1..10), proptest::option::weighted(0.3, 0u8..9)).prop_map(|(own, runs, drop_handles_after)| During { own, runs, drop_handles_after })
}

// ------------------------------------------------------------ handed over by other threads

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Threads {
    /// per thread: how many things, a yield after every so many
    threads: Vec<(u8, u8)>,
    drop_last: bool,
    late: bool,
}
struct Slot {
    name: String,
    ran: Arc<AtomicUsize>,
}
impl PutsSnapshot for Slot {
    fn put_snapshot(&self, into: &mut Snapshot, _: bool) {
        into.push(self.name.clone(), self.ran.load(SeqCst) as u64);
    }
}
impl ProcessesTelemetryMessages for Slot {
    fn process(&mut self, _: usize, _: ProcessingStrategy) -> ProcessingOutcome {
        self.ran.fetch_add(1, SeqCst);
        ProcessingOutcome::default()
    }
}
fn threads(c: &Threads, o: &mut Obs) -> Res {
    let mut root = ProcessorMount::default();
    let handle = root.attached_mount(ProcessorMount::new("m"));
    let runs = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let names = |s: &Snapshot| -> Vec<(String, u64)> {
        match s.items.first() {
            Some((_, metrix::snapshot::ItemKind::Snapshot(l))) => l.items.iter().map(|x| (x.0.clone(), as_int(&x.1).unwrap_or(-1) as u64)).collect(),
            _ => vec![],
        }
    };
    let (mut looks, mut res) = (0, Ok(()));
    std::thread::scope(|s| {
        for (t, (n, every)) in c.threads.iter().enumerate() {
            let (mut h, done, runs, c) = (handle.clone(), &done, &runs, &c);
            std::thread::Builder::new()
                .name("mxshard-giver".into())
                .spawn_scoped(s, move || {
                    vclock::mark_harness_thread();
                    while c.late && runs.load(SeqCst) == 0 {
                        std::thread::yield_now();
                    }
                    for i in 0..*n {
                        let name = format!("{}-{}", t, i);
                        if i % 5 == 4 {
                            h.add_snapshooter(Slot { name, ran: Default::default() });
                        } else {
                            h.add_processor(Slot { name, ran: Default::default() });
                        }
                        if *every > 0 && i % every == 0 {
                            std::thread::yield_now();
                        }
                    }
                    drop(h);
                    done.fetch_add(1, SeqCst);
                })
                .unwrap();
        }
        let mut last: Vec<(String, u64)> = vec![];
        while done.load(SeqCst) < c.threads.len() {
            root.process(10, ProcessingStrategy::ProcessAll);
            runs.fetch_add(1, SeqCst);
            let now = names(&snap(&root, false));
            looks += 1;
            // those that were there are there, and ran once more if they are processors
            for (n, ran) in &last {
                let shoots = n.split('-').nth(1).and_then(|i| i.parse::<u8>().ok()).unwrap_or(0) % 5 == 4;
                let want = if shoots { 0 } else { ran + 1 };
                if res.is_ok() && !now.iter().any(|x| x.0 == *n && x.1 == want) {
                    res = Err(format!("{} ran {} times before, afterwards the mount shows {:?}", n, ran, now));
                }
            }
            last = now;
        }
    });
    res?;
    if c.drop_last {
        drop(handle);
    }
    root.process(10, ProcessingStrategy::ProcessAll);
    let got = names(&snap(&root, true));
    let total: usize = c.threads.iter().map(|t| t.0 as usize).sum();
    ensure_eq!(got.len(), total, "entries of the mount in the end");
    for (t, (n, _)) in c.threads.iter().enumerate() {
        for part in [true, false] {
            let want: Vec<String> = (0..*n).filter(|i| (i % 5 == 4) == part).map(|i| format!("{}-{}", t, i)).collect();
            let of: Vec<String> = got.iter().map(|x| x.0.clone()).filter(|x| want.contains(x)).collect();
            ensure_eq!(of, want, "what thread {} handed over, in order", t);
        }
    }
    o.nontrivial_if(looks > 1 && total > 1);
    o.label_if(looks > 5, "more than five runs meanwhile");
    Ok(())
}

pub fn facets() -> Vec<Facet> {
    vec![
        facet(
        "during-run",
        "processors that hand further processors and snapshooters to the mount they are in while it is being run, runs that claim to have been busy, handles dropped; each takes part in every run from the next one on; non-trivial: something handed over during a run that is not the last",
        Clock::Local,
        80_000,
        800_000,
        during_case,
        during,
    ),
        facet(
        "threads",
        "up to five threads handing over processors and snapshooters while the mount is being run again and again; non-trivial: several runs meanwhile",
        Clock::Real,
        4_000,
        40_000,
        || (vec((prop_oneof![0u8..10, 10u8..200], 0u8..4), 1..6), any::<bool>(), any::<bool>()).prop_map(|(threads, drop_last, late)| Threads { threads, drop_last, late }),
        threads,
    ),
        facet(
        "model",
        "mounts with attached mounts at any level; processors, snapshooters and further attached mounts handed to original, cloned and dropped handles between runs; the model takes them in at the next run, in order; non-trivial: an attached mount and at least two things handed over",
        Clock::Local,
        16_000,
        160_000,
        case,
        check,
    )]
}
