//! A virtual clock for the code under test.
//!
//! `std::time::Instant::now` and `std::thread::sleep` end in the C library's
//! `clock_gettime`, `nanosleep` and `clock_nanosleep`. This binary defines
//! those symbols itself, so every time the code under test reads the clock or
//! sleeps it does so on a clock the harness owns; nothing in /repo is changed.
//!
//! * thread-local mode: the calling thread has its own clock (single threaded
//!   facets, which can therefore run in parallel);
//! * global mode: all threads share one clock; a thread that is not a harness
//!   thread (the driver's thread) advances it when it sleeps, and can be held
//!   at its sleeps by a gate so that the harness owns the schedule.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

thread_local! {
    static TLS_NOW: Cell<u64> = const { Cell::new(0) };
    static TLS_TICK: Cell<u64> = const { Cell::new(0) };
    static HARNESS: Cell<bool> = const { Cell::new(false) };
    static EXIT_MARK: ExitMark = const { ExitMark(Cell::new(false)) };
}

/// Counts the end of a foreign thread that touched the clock.
struct ExitMark(Cell<bool>);
impl Drop for ExitMark {
    fn drop(&mut self) {
        if self.0.get() {
            FOREIGN_EXITED.fetch_add(1, SeqCst);
            let _g = GATE.0.lock();
            GATE.1.notify_all();
        }
    }
}

static GLOBAL_ON: AtomicBool = AtomicBool::new(false);
static GLOBAL_NOW: AtomicU64 = AtomicU64::new(0);
static GLOBAL_TICK: AtomicU64 = AtomicU64::new(0);
/// sleeps done by foreign (non harness) threads
pub static FOREIGN_SLEEPS: AtomicU64 = AtomicU64::new(0);
pub static FOREIGN_READS: AtomicU64 = AtomicU64::new(0);
pub static FOREIGN_STARTED: AtomicUsize = AtomicUsize::new(0);
pub static FOREIGN_EXITED: AtomicUsize = AtomicUsize::new(0);
/// sleeping foreign threads advance the global clock?
static SLEEP_ADVANCES: AtomicBool = AtomicBool::new(true);

struct GateState {
    closed: bool,
    epoch: u64,
    parked: usize,
}
static GATE: (Mutex<GateState>, Condvar) = (
    Mutex::new(GateState { closed: false, epoch: 0, parked: 0 }),
    Condvar::new(),
);

unsafe fn real_clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int
}

unsafe fn put(ts: *mut libc::timespec, ns: u64) {
    (*ts).tv_sec = (ns / 1_000_000_000) as libc::time_t;
    (*ts).tv_nsec = (ns % 1_000_000_000) as libc::c_long;
}

fn virtual_now() -> Option<u64> {
    let t = TLS_NOW.with(|c| c.get());
    if t != 0 {
        let tick = TLS_TICK.with(|c| c.get());
        if tick != 0 {
            TLS_NOW.with(|c| c.set(t + tick));
        }
        return Some(t);
    }
    if GLOBAL_ON.load(SeqCst) {
        if !HARNESS.with(|h| h.get()) {
            FOREIGN_READS.fetch_add(1, SeqCst);
            // Creates the marker, whose drop reports the thread's end.
            let _ = EXIT_MARK.try_with(|m| {
                if !m.0.replace(true) {
                    FOREIGN_STARTED.fetch_add(1, SeqCst);
                }
            });
            let tick = GLOBAL_TICK.load(SeqCst);
            return Some(GLOBAL_NOW.fetch_add(tick, SeqCst));
        }
        return Some(GLOBAL_NOW.load(SeqCst));
    }
    None
}

/// # Safety
/// C ABI replacement of the libc function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_MONOTONIC {
        if let Some(ns) = virtual_now() {
            put(ts, ns);
            return 0;
        }
    }
    real_clock_gettime(clk, ts)
}

/// true if the sleep was virtual
fn virtual_sleep(ns: u64) -> bool {
    let t = TLS_NOW.with(|c| c.get());
    if t != 0 {
        TLS_NOW.with(|c| c.set(t.saturating_add(ns)));
        return true;
    }
    if !GLOBAL_ON.load(SeqCst) {
        return false;
    }
    if HARNESS.with(|h| h.get()) {
        return false;
    }
    if SLEEP_ADVANCES.load(SeqCst) {
        GLOBAL_NOW.fetch_add(ns, SeqCst);
    }
    let mut g = GATE.0.lock().unwrap_or_else(|p| p.into_inner());
    FOREIGN_SLEEPS.fetch_add(1, SeqCst);
    if g.closed {
        g.parked += 1;
        let e = g.epoch;
        GATE.1.notify_all();
        while g.closed && g.epoch == e {
            g = GATE.1.wait(g).unwrap_or_else(|p| p.into_inner());
        }
        drop(g);
    } else {
        GATE.1.notify_all();
        drop(g);
        // free running: give the core away, without it being a clock
        unsafe { libc::sched_yield() };
    }
    true
}

/// # Safety
/// C ABI replacement of the libc function.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    let ns = ((*req).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*req).tv_nsec as u64);
    if virtual_sleep(ns) {
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as libc::c_int
}

/// # Safety
/// C ABI replacement of the libc function.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: libc::c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> libc::c_int {
    if clk == libc::CLOCK_MONOTONIC {
        let mut ns = ((*req).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*req).tv_nsec as u64);
        if flags & libc::TIMER_ABSTIME != 0 {
            let now = now_ns();
            ns = ns.saturating_sub(now);
        }
        if virtual_sleep(ns) {
            return 0;
        }
    }
    let r = libc::syscall(libc::SYS_clock_nanosleep, clk as libc::c_long, flags as libc::c_long, req, rem);
    if r == -1 {
        *libc::__errno_location()
    } else {
        0
    }
}

// ---------------------------------------------------------------- control

/// Real monotonic time in ns (for watchdogs and `wall_s` only).
pub fn real_ns() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        real_clock_gettime(libc::CLOCK_MONOTONIC, &mut ts);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

/// CPU time in ns consumed according to the given CPU clock
pub fn cpu_ns(clk: libc::clockid_t) -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        real_clock_gettime(clk, &mut ts);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

pub fn real_sleep(d: Duration) {
    unsafe {
        let ts = libc::timespec { tv_sec: d.as_secs() as _, tv_nsec: d.subsec_nanos() as _ };
        libc::syscall(libc::SYS_nanosleep, &ts as *const _, std::ptr::null_mut::<libc::timespec>());
    }
}

pub fn mark_harness_thread() {
    HARNESS.with(|h| h.set(true));
}

/// Current time on whichever clock applies to this thread, without ticking.
pub fn now_ns() -> u64 {
    let t = TLS_NOW.with(|c| c.get());
    if t != 0 {
        return t;
    }
    if GLOBAL_ON.load(SeqCst) {
        return GLOBAL_NOW.load(SeqCst);
    }
    real_ns()
}

/// Start of the virtual time line: 10 days.
pub const START_NS: u64 = 864_000 * 1_000_000_000;

pub fn tls_enter(start: u64) {
    assert!(start > 0);
    TLS_NOW.with(|c| c.set(start));
    TLS_TICK.with(|c| c.set(0));
}
pub fn tls_leave() {
    TLS_NOW.with(|c| c.set(0));
    TLS_TICK.with(|c| c.set(0));
}
pub fn set_tick(ns: u64) {
    TLS_TICK.with(|c| c.set(ns));
}
pub fn set_global_tick(ns: u64) {
    GLOBAL_TICK.store(ns, SeqCst);
}
/// Moves the clock that applies to this thread forward.
pub fn advance(ns: u64) {
    let t = TLS_NOW.with(|c| c.get());
    if t != 0 {
        TLS_NOW.with(|c| c.set(t.saturating_add(ns)));
    } else {
        assert!(GLOBAL_ON.load(SeqCst));
        GLOBAL_NOW.fetch_add(ns, SeqCst);
    }
}

pub fn global_enter(start: u64, sleep_advances: bool) {
    GLOBAL_NOW.store(start, SeqCst);
    GLOBAL_TICK.store(0, SeqCst);
    SLEEP_ADVANCES.store(sleep_advances, SeqCst);
    GLOBAL_ON.store(true, SeqCst);
}
pub fn global_leave() {
    gate_open();
    GLOBAL_TICK.store(0, SeqCst);
    GLOBAL_ON.store(false, SeqCst);
}

/// Foreign threads stop at their next sleep.
pub fn gate_close() {
    let mut g = GATE.0.lock().unwrap();
    g.parked = 0;
    g.closed = true;
}
pub fn gate_open() {
    let mut g = GATE.0.lock().unwrap_or_else(|p| p.into_inner());
    g.closed = false;
    g.parked = 0;
    g.epoch += 1;
    GATE.1.notify_all();
}
/// Waits until `pred(number of foreign threads parked since the last step)`
/// holds. Returns false on a real-time watchdog (inconclusive, not a
/// violation).
pub fn wait_parked(pred: impl Fn(usize) -> bool) -> bool {
    let start = real_ns();
    let mut spins = 0u32;
    loop {
        {
            let g = GATE.0.lock().unwrap();
            if pred(g.parked) {
                return true;
            }
        }
        spins += 1;
        if spins % 64 == 0 {
            real_sleep(Duration::from_micros(20));
        } else {
            unsafe { libc::sched_yield() };
        }
        if real_ns() - start > 60_000_000_000 {
            return false;
        }
    }
}
/// Lets every parked thread run on to its next sleep.
pub fn gate_step() {
    let mut g = GATE.0.lock().unwrap();
    g.epoch += 1;
    g.parked = 0;
    GATE.1.notify_all();
}
/// at least `n` foreign threads have parked since the last step
pub fn parked_now(n: usize) -> bool {
    GATE.0.lock().unwrap_or_else(|p| p.into_inner()).parked >= n
}
