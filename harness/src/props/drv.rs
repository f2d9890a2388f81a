//! Running drivers: threads of the code under test, with the clock (and where
//! wanted the schedule) in the hands of the harness.
use super::hier::*;
use super::inst::*;
use crate::engine::*;
use crate::kit::*;
use crate::{ensure, vclock};
use metrix::attached_mount::AttachedMount;
use metrix::processor::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

// ------------------------------------------------------------ threads

/// number of threads of this process
pub fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}
/// Waits until only `base` threads are left; free running only.
pub fn wait_ended(base: usize, real_ms: u64) -> bool {
    let start = vclock::real_ns();
    let mut n = 0u32;
    while tasks() > base {
        if vclock::real_ns() - start > real_ms * MS {
            return false;
        }
        n += 1;
        if n > 50 {
            vclock::real_sleep(Duration::from_micros(50));
        } else {
            std::thread::yield_now();
        }
    }
    true
}
/// Leaves no driver behind for the next case.
pub struct Cleanup(pub usize);
impl Cleanup {
    pub fn new() -> Cleanup {
        Cleanup(tasks())
    }
}
impl Drop for Cleanup {
    fn drop(&mut self) {
        vclock::gate_open();
        wait_ended(self.0, 1000);
    }
}
pub fn no_foreign_panic() -> Res {
    let p = take_foreign_panics();
    ensure!(p.is_empty(), "a thread of the library panicked: {:?}", p);
    Ok(())
}
/// Spins until `done`, giving up on a panic or after 30 s of real time.
pub fn wait_until(what: &str, mut done: impl FnMut() -> bool) -> Res {
    let start = vclock::real_ns();
    let mut n = 0u32;
    loop {
        if done() {
            return Ok(());
        }
        n += 1;
        if n > 200 {
            vclock::real_sleep(Duration::from_micros(30));
        } else {
            std::thread::yield_now();
        }
        if n % 256 == 0 {
            no_foreign_panic()?;
            ensure!(vclock::real_ns() - start < 30 * SEC, "never happens: {}", what);
        }
    }
}

/// Waits until the driver's thread sleeps.
pub fn rest(base: usize) -> Res {
    let mut n = 0u32;
    while !vclock::parked_now(1) {
        n += 1;
        if n % 64 == 0 {
            vclock::real_sleep(std::time::Duration::from_micros(20));
        } else {
            std::thread::yield_now();
        }
        if n % 4096 == 0 {
            no_foreign_panic()?;
            ensure!(tasks() > base, "the driver's thread is gone while a handle exists");
        }
        ensure!(n < 500_000, "the driver's thread does not come to rest");
    }
    Ok(())
}

// ------------------------------------------------------------ generators

pub fn some_strat() -> impl Strategy<Value = Strat> {
    prop_oneof![
        6 => Just(Strat::All),
        1 => Just(Strat::Drop),
        3 => (prop_oneof![Just(0u64), 0u64..(3 * SEC), Just(30 * SEC)], any::<bool>()).prop_map(|(max_age_ns, drop_deltas)| Strat::Older { max_age_ns, drop_deltas }),
        1 => any::<bool>().prop_map(|drop_deltas| Strat::OlderMax { drop_deltas }),
    ]
}
pub fn dcfg() -> impl Strategy<Value = DCfg> {
    (
        prop_oneof![2 => Just(None), 1 => comp_name().prop_map(Some)],
        text(),
        text(),
        prop_oneof![1 => Just(None), 2 => some_strat().prop_map(Some)],
        proptest::option::of(any::<bool>()),
        0u8..3,
    )
        .prop_map(|(name, title, desc, strat, metrics, how)| DCfg { name, title, desc, strat, metrics, how })
}
pub fn driver_spec(g: G, nested: u32) -> BoxedStrategy<DriverSpec> {
    (dcfg(), vec(ditem(g, nested), 0..4)).prop_map(|(cfg, items)| DriverSpec { cfg, items }).boxed()
}
fn ditem(g: G, nested: u32) -> BoxedStrategy<MountItem> {
    let snap = snap_spec().prop_map(MountItem::Snap).boxed();
    let tele = tele(g, 1).prop_map(|t| MountItem::Proc(ProcSpec::Tele(t))).boxed();
    let mount = mount(g, 0).prop_map(|t| MountItem::Proc(ProcSpec::Mount(t))).boxed();
    if nested == 0 {
        return prop_oneof![1 => snap, 3 => tele, 1 => mount].boxed();
    }
    let d = driver_spec(g, nested - 1).prop_map(|t| MountItem::Proc(ProcSpec::Driver(t))).boxed();
    let dm = mount_with(g, nested - 1).prop_map(|t| MountItem::Proc(ProcSpec::Mount(t))).boxed();
    prop_oneof![1 => snap, 3 => tele, 1 => mount, 3 => d, 1 => dm].boxed()
}
/// a mount that may have drivers
pub fn mount_with(g: G, nested: u32) -> BoxedStrategy<MountSpec> {
    (proptest::option::of(comp_name()), prop_oneof![3 => Just(None), 1 => dur().prop_map(Some)], vec(ditem(g, nested), 0..4), any::<bool>())
        .prop_map(|(name, limit, items, setters)| MountSpec { name, limit, items, attached: false, setters })
        .boxed()
}

// ------------------------------------------------------------ hierarchies

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum TOp {
    Send { tx: u8, label: u8, kind: Kind, age: i64 },
    Burst { tx: u8, n: u8, label: u8, kind: Kind },
    Msg(u8, SMsg),
    Advance(u64),
    Put(u8, ProcSpec),
    PutSnap(u8, SnapSpec),
    Attached(u8, ProcSpec),
    Pause(u8),
    Resume(u8),
    Strategy(u8, Strat),
    /// of one driver
    Snap(u8, bool, bool),
    Root(bool),
    /// if the outermost is no driver
    Process(usize, Strat),
    /// the harness' handle to a driver that is mounted somewhere
    DropHandle(u8),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TCase {
    pub root: ProcSpec,
    pub ops: Vec<TOp>,
}
pub fn top(g: G, nested: u32) -> BoxedStrategy<TOp> {
    let common = prop_oneof![
        8 => (any::<u8>(), label(), tame_kind(), prop_oneof![2 => Just(0i64), 1 => -10_000_000_000i64..40_000_000_000])
            .prop_map(|(tx, label, kind, age)| TOp::Send { tx, label, kind, age }),
        3 => (any::<u8>(), 0u8..100, label(), tame_kind()).prop_map(|(tx, n, label, kind)| TOp::Burst { tx, n, label, kind }),
        1 => (any::<u8>(), smsg(g)).prop_map(|(t, m)| TOp::Msg(t, m)),
        3 => step().prop_map(TOp::Advance),
        2 => (any::<u8>(), ditem(g, nested)).prop_map(|(d, i)| match i {
            MountItem::Proc(p) => TOp::Put(d, p),
            MountItem::Snap(s) => TOp::PutSnap(d, s),
        }),
        1 => (any::<u8>(), ditem(g, 0)).prop_map(|(d, i)| match i {
            MountItem::Proc(p) => TOp::Attached(d, p),
            MountItem::Snap(s) => TOp::PutSnap(d, s),
        }),
        2 => any::<u8>().prop_map(TOp::Pause),
        3 => any::<u8>().prop_map(TOp::Resume),
        2 => (any::<u8>(), some_strat()).prop_map(|(d, s)| TOp::Strategy(d, s)),
        3 => (any::<u8>(), any::<bool>(), any::<bool>()).prop_map(|(d, a, b)| TOp::Snap(d, a, b)),
        1 => any::<bool>().prop_map(TOp::Root),
    ]
    .boxed();
    if nested == 0 {
        return common;
    }
    prop_oneof![
        30 => common,
        2 => (limit(), strat()).prop_map(|(m, s)| TOp::Process(m, s)),
        1 => any::<u8>().prop_map(TOp::DropHandle),
    ]
    .boxed()
}

pub struct World {
    pub env: Env,
    root: Root,
    attached: Vec<(AttachedMount, usize)>,
    pub snapshots: usize,
    pub processed_by_driver: usize,
    pub held_back: usize,
    _clean: Cleanup,
}
enum Root {
    Local(Box<dyn ProcessesTelemetryMessages>, MChild),
    Driver(usize),
}
impl World {
    pub fn new(root: &ProcSpec) -> World {
        let clean = Cleanup::new();
        vclock::global_enter(vclock::START_NS, false);
        let mut env = Env::default();
        env.tick();
        let root = match root {
            ProcSpec::Driver(d) => Root::Driver(build_driver(d, &mut env).1),
            p => {
                let (r, m) = build_proc(p, &mut env);
                Root::Local(r, m)
            }
        };
        World { env, root, attached: vec![], snapshots: 0, processed_by_driver: 0, held_back: 0, _clean: clean }
    }
    /// Waits until every driver that is not paused has done all there is to do.
    pub fn settle(&mut self, what: &str) -> Res {
        self.env.tick();
        for i in 0..self.env.drivers.len() {
            if self.env.drivers[i].paused {
                continue;
            }
            let mut mine = vec![];
            for c in &self.env.drivers[i].children {
                collect(c, &self.env, &mut mine);
            }
            let runs = self.env.drivers[i].runs.clone();
            let backlog: usize = mine.iter().map(|t| self.env.teles[*t].queue.len()).sum();
            self.processed_by_driver += backlog;
            let from = runs.load(SeqCst);
            let txs: Vec<_> = self.env.txs.iter().filter(|t| mine.contains(&t.1)).map(|t| t.0.clone()).collect();
            let left = || txs.iter().map(|t| t.queue_size()).sum::<usize>();
            // the requests made so far take a run each
            wait_until(&format!("{}: driver {} processes what it was sent", what, i), || {
                left() == 0 || runs.load(SeqCst) > from + 5_000 && left() > 0
            })?;
            ensure!(left() == 0, "{}: {} messages are still there after {} runs of driver {}", what, left(), runs.load(SeqCst) - from, i);
            let from = runs.load(SeqCst);
            let more = if self.attached.is_empty() { 3 } else { 5 };
            wait_until(&format!("{}: driver {} runs", what, i), || runs.load(SeqCst) >= from + more)?;
            ensure!(left() == 0, "{}: messages came back", what);
            with_driver(i, &mut self.env, |d, env| d.run(env));
        }
        self.env.check_logs(what)
    }
    fn driver(&self, i: u8) -> Option<usize> {
        let live: Vec<usize> = (0..self.env.drivers.len()).filter(|k| self.env.drivers[*k].handle.is_some()).collect();
        (!live.is_empty()).then(|| live[i as usize % live.len()])
    }
    fn look(&mut self, what: &str, i: usize, sync: bool, d: bool) -> Res {
        let h = self.env.drivers[i].handle.clone().unwrap();
        let s = if sync { h.snapshot(d) } else { futures::executor::block_on(h.snapshot_async(d)) };
        let s = s.map_err(|_| format!("{}: driver {} refused a snapshot", what, i))?;
        self.snapshots += 1;
        let mut want = Level::default();
        with_driver(i, &mut self.env, |m, env| m.expect(&mut want, d, env));
        compare(what, &s, &want)
    }
    pub fn look_root(&mut self, what: &str, d: bool) -> Res {
        match &mut self.root {
            Root::Driver(i) => {
                let i = *i;
                match self.env.drivers[i].handle {
                    Some(_) => self.look(what, i, true, d),
                    None => Ok(()),
                }
            }
            Root::Local(r, _) => {
                let s = snap(&**r, d);
                let Root::Local(_, m) = &mut self.root else { unreachable!() };
                let mut want = Level::default();
                m.expect(&mut want, d, &mut self.env);
                self.snapshots += 1;
                compare(what, &s, &want)
            }
        }
    }
    pub fn step(&mut self, i: usize, op: &TOp) -> Res {
        let what = format!("op {}", i);
        self.env.tick();
        match op {
            TOp::Send { tx, label, kind, age } => {
                // a bounded queue is full or not depending on the schedule
                self.make_room(&what, *tx, 1)?;
                self.env.send(*tx, *label, *kind, *age);
            }
            TOp::Burst { tx, n, label, kind } => {
                for k in 0..*n {
                    self.make_room(&what, *tx, 1)?;
                    self.env.send(*tx, label.wrapping_add(k % 4), *kind, k as i64);
                }
            }
            TOp::Msg(tx, m) => {
                self.make_room(&what, *tx, 1)?;
                self.env.msg(*tx, m);
            }
            TOp::Advance(n) => {
                self.settle(&what)?;
                vclock::advance(*n);
                self.env.tick();
            }
            TOp::Put(d, p) => {
                if let Some(d) = self.driver(*d) {
                    let mut h = self.env.drivers[d].handle.clone().unwrap();
                    let c = put_proc(&mut h, p, &mut self.env);
                    self.env.drivers[d].children.push(c);
                }
            }
            TOp::Attached(d, p) => {
                if self.attached.is_empty() {
                    if let Some(d) = self.driver(*d) {
                        let mut h = self.env.drivers[d].handle.clone().unwrap();
                        let spec = MountSpec { name: Some("att".into()), limit: None, items: vec![], attached: true, setters: false };
                        let c = put_proc(&mut h, &ProcSpec::Mount(spec), &mut self.env);
                        self.env.drivers[d].children.push(c);
                        let a = self.env.handles.pop().unwrap();
                        self.attached.push(a);
                    }
                }
                if let Some((a, k)) = self.attached.first_mut() {
                    let c = put_proc(a, p, &mut self.env);
                    self.env.pending[*k].push(Pending::Child(c));
                }
            }
            TOp::PutSnap(d, s) => {
                if let Some(d) = self.driver(*d) {
                    let mut h = self.env.drivers[d].handle.clone().unwrap();
                    h.add_snapshooter(DynSnap(build_snap(s)));
                    self.env.drivers[d].snaps.push(s.clone());
                }
            }
            TOp::Pause(d) => {
                if let Some(d) = self.driver(*d) {
                    self.settle(&what)?;
                    self.env.drivers[d].handle.as_ref().unwrap().pause();
                    self.env.drivers[d].paused = true;
                    // from its answer on it does nothing
                    self.look(&what, d, true, false)?;
                    let r = self.env.drivers[d].runs.load(SeqCst);
                    self.look(&what, d, false, false)?;
                    let r2 = self.env.drivers[d].runs.load(SeqCst);
                    ensure!(r == r2, "{}: driver {} was paused and did {} runs", what, d, r2 - r);
                }
            }
            TOp::Resume(d) => {
                if let Some(d) = self.driver(*d) {
                    if self.env.drivers[d].paused {
                        let waiting: usize = self.env.teles.iter().map(|t| t.queue.len()).sum();
                        self.held_back += waiting;
                    }
                    self.env.drivers[d].handle.as_ref().unwrap().resume();
                    self.env.drivers[d].paused = false;
                }
            }
            TOp::Strategy(d, s) => {
                if let Some(d) = self.driver(*d) {
                    self.settle(&what)?;
                    let m = &mut self.env.drivers[d];
                    m.handle.as_ref().unwrap().change_processing_stragtegy(s.get());
                    m.strat = *s;
                    // once it has answered, the request before has been taken
                    self.look(&what, d, true, false)?;
                }
            }
            TOp::Snap(d, sync, desc) => {
                self.settle(&what)?;
                if let Some(d) = self.driver(*d) {
                    self.look(&what, d, *sync, *desc)?;
                }
            }
            TOp::Root(d) => {
                self.settle(&what)?;
                self.look_root(&what, *d)?;
            }
            TOp::Process(max, strat) => {
                self.settle(&what)?;
                if let Root::Local(r, m) = &mut self.root {
                    let o = r.process(*max, strat.get());
                    let w = m.process(*max, *strat, &mut self.env);
                    w.check(&what, &o)?;
                }
            }
            TOp::DropHandle(d) => {
                if let Some(d) = self.driver(*d) {
                    self.settle(&what)?;
                    // not the outermost
                    if !matches!(self.root, Root::Driver(r) if r == d) {
                        self.env.drivers[d].handle = None;
                    }
                }
            }
        }
        no_foreign_panic()
    }
    fn make_room(&mut self, what: &str, tx: u8, n: usize) -> Res {
        let Some(len) = self.env.txs.len().checked_sub(1) else { return Ok(()) };
        let (_, t) = &self.env.txs[tx as usize % (len + 1)];
        let t = &self.env.teles[*t];
        if t.cap().is_some_and(|c| t.queue.len() + n > c) {
            return self.settle(what);
        }
        Ok(())
    }
    /// Resumes everything, lets it finish, compares, drops it.
    pub fn finish(mut self) -> Res {
        let what = "at the end";
        for m in self.env.drivers.iter_mut() {
            if let (true, Some(h)) = (m.paused, &m.handle) {
                h.resume();
                m.paused = false;
            }
        }
        self.settle(what)?;
        for d in [true, false] {
            for i in 0..self.env.drivers.len() {
                if self.env.drivers[i].handle.is_some() {
                    self.look(what, i, d, d)?;
                }
            }
            self.look_root(what, d)?;
        }
        no_foreign_panic()
    }
}
/// the processors a child stands for, without those of other drivers
fn collect(c: &MChild, env: &Env, into: &mut Vec<usize>) {
    match c {
        MChild::Tele(i) => into.push(*i),
        MChild::Mount(m) => {
            m.children.iter().for_each(|c| collect(c, env, into));
            if let Some(p) = m.pending {
                env.pending[p].iter().for_each(|p| {
                    if let Pending::Child(c) = p {
                        collect(c, env, into)
                    }
                });
            }
        }
        MChild::Spy(_) | MChild::Driver(_) => {}
    }
}
pub fn run_world(c: &TCase, mut each: impl FnMut(&World)) -> Res {
    let mut w = World::new(&c.root);
    for (i, op) in c.ops.iter().enumerate() {
        w.step(i, op)?;
        each(&w);
    }
    w.finish()
}
