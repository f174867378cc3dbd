//! Deterministic scheduler for real threads: exactly one runs at a time, and the plan decides at
//! which step (control-flow edge, load or store of the code under test) it hands over to which
//! other thread. Futex waits of `std` primitives become cooperative blocking.
use crate::hooks::*;
use crate::rng::fold;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

pub const MAX: usize = 8;
const QUANTUM: u64 = 2_000_000;
const MAX_SLICES: u64 = 400;

#[derive(Clone, Copy)]
struct Blocked {
    address: usize,
    value: u32,
    woken: bool,
}

struct State {
    n: usize,
    done: [bool; MAX],
    blocked: [Option<Blocked>; MAX],
    plan: [&'static [(u64, usize)]; MAX],
    position: [usize; MAX],
    base: [u64; MAX],
    slice_start: [u64; MAX],
    slices: u64,
    pub switches: u64,
    pub waits: u64,
    waits_of: [u64; MAX],
    spurious: &'static [(usize, u64)],
    pub spurious_fired: u64,
    trace: u64,
    preempted: u64,
    preempted_in_lib: u64,
}

static mut S: State = State {
    n: 0,
    done: [false; MAX],
    blocked: [None; MAX],
    plan: [&[]; MAX],
    position: [0; MAX],
    base: [0; MAX],
    slice_start: [0; MAX],
    slices: 0,
    switches: 0,
    waits: 0,
    waits_of: [0; MAX],
    spurious: &[],
    spurious_fired: 0,
    trace: 0,
    preempted: 0,
    preempted_in_lib: 0,
};
static GO: [AtomicU32; MAX + 1] = [const { AtomicU32::new(0) }; MAX + 1];

#[allow(static_mut_refs)]
fn s() -> &'static mut State {
    unsafe { &mut S }
}

#[derive(serde::Serialize, serde::Deserialize)]
pub struct Report {
    pub switches: u64,
    pub preempted: u64,
    /// of these: in the middle of a library call
    pub inside: u64,
    pub waits: u64,
    pub spurious: u64,
    pub trace: u64,
}

fn wait_go(t: usize) {
    while GO[t].swap(0, AcqRel) == 0 {
        raw_futex_wait(&GO[t], 0);
    }
}
fn go(t: usize) {
    GO[t].store(1, Release);
    raw_futex_wake(&GO[t]);
}

fn runnable(t: usize) -> bool {
    let st = s();
    if t >= st.n || st.done[t] {
        return false;
    }
    match st.blocked[t] {
        None => true,
        // as in the kernel, only a wake-up ends a wait, not a changed value; the wake-ups of threads
        // that the library started itself are not seen here, so their effect has to do
        Some(b) => b.woken || (FOREIGN.load(SeqCst) && unsafe { (*(b.address as *const AtomicU32)).load(SeqCst) } != b.value),
    }
}

static END: AtomicU32 = AtomicU32::new(0);
/// Threads that are not simulated (started by the library) wake others
static FOREIGN: AtomicBool = AtomicBool::new(false);

pub fn foreign_wake() {
    if s().n > 0 {
        FOREIGN.store(true, SeqCst);
    }
}

fn foreign_threads() -> bool {
    tasks() > s().n + 1
}

/// Nobody can run. Returns when a thread of the library has changed that, or ends the process.
fn stalled() -> usize {
    loop {
        // in this order: such a thread may change the word and end at any time
        let foreign = foreign_threads();
        if foreign || FOREIGN.load(SeqCst) {
            FOREIGN.store(true, SeqCst);
            if let Some(u) = (0..s().n).find(|u| runnable(*u)) {
                return u;
            }
        }
        if !foreign {
            progress().reason.store(2, Relaxed);
            unsafe { libc::_exit(EXIT_DEADLOCK) }
        }
        std::thread::sleep(std::time::Duration::from_micros(100));
    }
}

fn next_runnable(t: usize) -> Option<usize> {
    let st = s();
    (1..=st.n).map(|k| (t + k) % st.n).find(|u| *u != t && runnable(*u))
}

fn set_next_trip(t: usize) {
    let st = s();
    let planned = st.plan[t].get(st.position[t]).map(|p| st.base[t].saturating_add(p.0)).unwrap_or(u64::MAX);
    set_trip(planned.min(st.slice_start[t] + QUANTUM));
}

/// Hands the processor to `to` and returns when this thread is scheduled again.
fn switch(from: usize, to: usize) {
    let st = s();
    st.switches += 1;
    st.trace = fold(fold(fold(st.trace, from as u64), steps()), to as u64);
    go(to);
    wait_go(from);
    let st = s();
    st.blocked[from] = None;
    st.slice_start[from] = steps();
    set_next_trip(from);
}

pub fn on_step(now: u64) {
    let t = thread();
    let st = s();
    if t >= st.n {
        set_trip(u64::MAX);
        return;
    }
    let mut target = None;
    while let Some((at, to)) = st.plan[t].get(st.position[t]).copied() {
        if st.base[t].saturating_add(at) > now {
            break;
        }
        st.position[t] += 1;
        target = Some(to);
    }
    if let Some(to) = target {
        let to = to % st.n;
        if to != t && runnable(to) {
            st.preempted += 1;
            st.preempted_in_lib += in_lib() as u64;
            set_next_trip(t);
            switch(t, to);
            return;
        }
    }
    if now >= st.slice_start[t] + QUANTUM {
        st.slices += 1;
        if st.slices > MAX_SLICES {
            no_progress();
        }
        st.slice_start[t] = now;
        if let Some(to) = next_runnable(t) {
            switch(t, to);
            return;
        }
    }
    set_next_trip(t);
}

/// Called by a simulated thread before an operation: its preemptions, in steps from here.
pub fn arm(plan: &'static [(u64, usize)]) {
    let t = thread();
    let st = s();
    st.base[t] = steps();
    st.plan[t] = plan;
    st.position[t] = 0;
    set_next_trip(t);
}

pub fn voluntary_yield() {
    let t = thread();
    let st = s();
    st.slices += 1;
    if st.slices > 200_000 {
        no_progress();
    }
    if let Some(to) = next_runnable(t) {
        switch(t, to);
    }
}

pub fn futex(address: usize, op: i32, value: u32, timeout: usize) -> i64 {
    let t = thread();
    let st = s();
    match op & 0x7f {
        0 | 9 => {
            let word = unsafe { &*(address as *const AtomicU32) };
            if word.load(SeqCst) != value {
                return -(libc::EAGAIN as i64);
            }
            st.waits += 1;
            let k = st.waits_of[t];
            st.waits_of[t] += 1;
            if st.spurious.contains(&(t, k)) {
                st.spurious_fired += 1;
                return -(libc::EINTR as i64);
            }
            st.blocked[t] = Some(Blocked { address, value, woken: false });
            match next_runnable(t) {
                Some(to) => {
                    switch(t, to);
                    0
                }
                None => {
                    if timeout != 0 {
                        st.blocked[t] = None;
                        return -(libc::ETIMEDOUT as i64);
                    }
                    let to = unsimulated(stalled);
                    if to == t {
                        st.blocked[t] = None;
                    } else {
                        switch(t, to);
                    }
                    0
                }
            }
        }
        1 | 10 => {
            let mut n = 0;
            for u in 0..st.n {
                if let Some(b) = &mut st.blocked[u] {
                    if b.address == address && !b.woken && n < value as i64 {
                        b.woken = true;
                        n += 1;
                    }
                }
            }
            // a thread that the library started itself may really wait
            if n < value as i64 {
                n += raw_futex_wake_n(address, value - n as u32);
            }
            n
        }
        _ => -(libc::ENOSYS as i64),
    }
}

/// Runs the bodies as simulated threads; each announces its preemptions with `arm`. Must be called at most once per process.
pub fn run(
    first: usize,
    spurious: Vec<(usize, u64)>,
    bodies: Vec<Box<dyn FnOnce() + Send>>,
) -> Report {
    let n = bodies.len();
    assert!(n <= MAX);
    let st = s();
    st.n = n;
    st.spurious = Box::leak(spurious.into_boxed_slice());
    create_arenas();
    let mut handles = Vec::new();
    for (t, body) in bodies.into_iter().enumerate() {
        handles.push(
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    wait_go(t);
                    set_thread(t);
                    set_steps(0);
                    set_alloc(AllocMode::Arena);
                    set_mode(Mode::Sched);
                    set_next_trip(t);
                    body();
                    set_mode(Mode::Off);
                    set_trip(u64::MAX);
                    set_alloc(AllocMode::Normal);
                    let st = s();
                    st.done[t] = true;
                    st.trace = fold(fold(st.trace, 0xd0e), steps());
                    match next_runnable(t) {
                        Some(to) => go(to),
                        None => {
                            if (0..st.n).all(|u| st.done[u]) {
                                go(MAX)
                            } else {
                                go(stalled())
                            }
                        }
                    }
                    // all stay until the end: any further thread is one of the library's
                    while END.load(SeqCst) == 0 {
                        raw_futex_wait(&END, 0);
                    }
                })
                .expect("spawn"),
        );
    }
    go(first % n);
    wait_go(MAX);
    END.store(1, SeqCst);
    raw_futex_wake(&END);
    for h in handles {
        let _ = h.join();
    }
    let st = s();
    Report { switches: st.switches, preempted: st.preempted, inside: st.preempted_in_lib, waits: st.waits, spurious: st.spurious_fired, trace: st.trace }
}
