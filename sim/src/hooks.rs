//! The seams: everything through which the code under test could meet nondeterminism or faults.
//!
//! - control flow and memory accesses: call-backs compiled into the crate under test (rustc-wrap.sh)
//! - heap: the global allocator below
//! - blocking, time, randomness, environment: interposed C functions (`syscall`, `clock_gettime`,
//!   `getrandom`, `getenv`, `sched_yield`, `nanosleep`), diverted only while inside a library call
//!   of a simulated run
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const EXIT_NO_PROGRESS: i32 = 77;
pub const EXIT_DEADLOCK: i32 = 78;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Off,
    Budget,
    Profile,
    Sched,
}

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static TRIP: Cell<u64> = const { Cell::new(u64::MAX) };
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static THREAD: Cell<usize> = const { Cell::new(usize::MAX) };
    static ALLOC: Cell<AllocMode> = const { Cell::new(AllocMode::Normal) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static DENIED: Cell<u64> = const { Cell::new(0) };
}

// Coverage --------------------------------------------------------------------------------------

const COV_SIZE: usize = 1 << 16;
static mut COV: [u8; COV_SIZE] = [0; COV_SIZE];
static COV_NEXT: AtomicUsize = AtomicUsize::new(1);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = COV_NEXT.fetch_add(1, Relaxed).min(COV_SIZE - 1) as u32;
        }
        p = p.add(1);
    }
}

pub fn coverage_bytes() -> Vec<u8> {
    let n = coverage_total();
    unsafe { std::slice::from_raw_parts(std::ptr::addr_of!(COV) as *const u8, n + 1).to_vec() }
}

pub fn coverage_total() -> usize {
    COV_NEXT.load(Relaxed).min(COV_SIZE) - 1
}

/// Moves the coverage map to shared memory-like storage owned by the parent: children of a fork
/// report theirs through this.
pub fn merge_coverage(bytes: &[u8]) {
    for (i, b) in bytes.iter().enumerate().take(COV_SIZE) {
        if *b != 0 {
            unsafe { COV[i] = 1 };
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    COV[*guard as usize & (COV_SIZE - 1)] = 1;
    step(0, 0);
}

macro_rules! access {
    ($($load:ident $store:ident)*) => {$(
        #[no_mangle]
        pub extern "C" fn $load(address: usize) { step(address, 1); }
        #[no_mangle]
        pub extern "C" fn $store(address: usize) { step(address, 2); }
    )*};
}
access!(
    __sanitizer_cov_load1 __sanitizer_cov_store1
    __sanitizer_cov_load2 __sanitizer_cov_store2
    __sanitizer_cov_load4 __sanitizer_cov_store4
    __sanitizer_cov_load8 __sanitizer_cov_store8
    __sanitizer_cov_load16 __sanitizer_cov_store16
);

#[inline(always)]
fn step(address: usize, kind: u8) {
    STEPS.with(|s| {
        let v = s.get() + 1;
        s.set(v);
        if v >= TRIP.with(|t| t.get()) {
            slow(v, address, kind);
        }
    })
}

#[cold]
#[inline(never)]
fn slow(steps: u64, address: usize, kind: u8) {
    match MODE.with(|m| m.get()) {
        Mode::Off => TRIP.with(|t| t.set(u64::MAX)),
        Mode::Budget => no_progress(),
        Mode::Profile => profile(steps, address, kind),
        Mode::Sched => crate::sched::on_step(steps),
    }
}

/// Ends the process: the step budget of a library call is exhausted.
pub fn no_progress() -> ! {
    progress().reason.store(1, Relaxed);
    unsafe { libc::_exit(EXIT_NO_PROGRESS) }
}

/// An extra preemption point in harness code (operation boundaries, caller-supplied functions).
pub fn yield_point() {
    step(0, 3);
}

pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}
pub fn set_steps(v: u64) {
    STEPS.with(|s| s.set(v))
}
pub fn set_trip(v: u64) {
    TRIP.with(|t| t.set(v))
}
pub fn set_mode(m: Mode) {
    MODE.with(|c| c.set(m))
}
pub fn set_thread(id: usize) {
    THREAD.with(|t| t.set(id))
}
pub fn thread() -> usize {
    THREAD.with(|t| t.get())
}

// Profiling: accesses to memory other threads could see --------------------------------------------

static mut HOT: [u64; 4096] = [0; 4096];
static HOT_LEN: AtomicUsize = AtomicUsize::new(0);
static DATA_LO: AtomicUsize = AtomicUsize::new(0);
static DATA_HI: AtomicUsize = AtomicUsize::new(0);

/// Finds the writable static data of this executable.
pub fn locate_static_data() {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let exe = std::env::current_exe().map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    let (mut lo, mut hi) = (usize::MAX, 0);
    let mut last_end = 0;
    for line in maps.lines() {
        let mut w = line.split_whitespace();
        let range = w.next().unwrap_or("");
        let perms = w.next().unwrap_or("");
        let path = line.split_whitespace().nth(5).unwrap_or("");
        let mut e = range.split('-');
        let a = usize::from_str_radix(e.next().unwrap_or("0"), 16).unwrap_or(0);
        let b = usize::from_str_radix(e.next().unwrap_or("0"), 16).unwrap_or(0);
        if path == exe && perms.starts_with("rw") {
            lo = lo.min(a);
            hi = hi.max(b);
        } else if path.is_empty() && perms.starts_with("rw") && a == last_end && hi == a {
            hi = b; // .bss
        }
        last_end = b;
    }
    DATA_LO.store(lo, Relaxed);
    DATA_HI.store(hi, Relaxed);
}

#[inline(never)]
fn profile(steps: u64, address: usize, kind: u8) {
    if kind == 0 || kind == 3 {
        return;
    }
    let is_static = address >= DATA_LO.load(Relaxed) && address < DATA_HI.load(Relaxed);
    let here = &address as *const usize as usize;
    let on_stack = address.wrapping_add(1 << 16) >= here && address < here.wrapping_add(16 << 20);
    if is_static || (kind == 2 && !on_stack && !in_arena(address)) {
        let n = HOT_LEN.load(Relaxed);
        if n < 4096 {
            unsafe { HOT[n] = steps };
            HOT_LEN.store(n + 1, Relaxed);
        }
    }
}

pub fn profile_start() {
    HOT_LEN.store(0, Relaxed);
    set_mode(Mode::Profile);
    set_trip(0);
}

pub fn profile_stop() -> Vec<u64> {
    set_mode(Mode::Off);
    set_trip(u64::MAX);
    let n = HOT_LEN.load(Relaxed);
    unsafe { HOT[..n].to_vec() }
}

// Heap --------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
pub enum AllocMode {
    Normal,
    /// per-thread bump arena: no lock shared between simulated threads, repeatable addresses
    Arena,
    /// every allocation fails
    Deny,
    /// the k-th allocation from now (0-based) fails, alone or with all later ones
    Nth { at: u64, persistent: bool },
}

pub struct Alloc;
#[global_allocator]
static GLOBAL: Alloc = Alloc;

const ARENA: usize = 64 << 20;
const ARENAS: usize = 16;
static ARENA_BASE: AtomicUsize = AtomicUsize::new(0);
static ARENA_USED: [AtomicUsize; ARENAS] = [const { AtomicUsize::new(0) }; ARENAS];

pub fn in_arena(address: usize) -> bool {
    let base = ARENA_BASE.load(Relaxed);
    base != 0 && address >= base && address < base + ARENA * ARENAS
}

pub fn create_arenas() {
    if ARENA_BASE.load(Relaxed) == 0 {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                ARENA * ARENAS,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        ARENA_BASE.store(p as usize, Relaxed);
    }
}

unsafe fn arena_alloc(layout: Layout) -> *mut u8 {
    let t = thread().min(ARENAS - 1);
    let used = ARENA_USED[t].load(Relaxed);
    let base = ARENA_BASE.load(Relaxed) + t * ARENA;
    let start = (base + used + layout.align() - 1) & !(layout.align() - 1);
    let end = start + layout.size();
    if end > base + ARENA {
        return std::ptr::null_mut();
    }
    ARENA_USED[t].store(end - base, Relaxed);
    start as *mut u8
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        match ALLOC.with(|a| a.get()) {
            AllocMode::Normal => {
                ALLOCS.with(|a| a.set(a.get() + 1));
                System.alloc(layout)
            }
            AllocMode::Arena => arena_alloc(layout),
            AllocMode::Deny => {
                DENIED.with(|d| d.set(d.get() + 1));
                std::ptr::null_mut()
            }
            AllocMode::Nth { at, persistent } => {
                let n = ALLOCS.with(|a| {
                    let n = a.get();
                    a.set(n + 1);
                    n
                });
                if n == at || (persistent && n > at) {
                    DENIED.with(|d| d.set(d.get() + 1));
                    let p = progress();
                    p.denied.fetch_add(1, Relaxed);
                    return std::ptr::null_mut();
                }
                System.alloc(layout)
            }
        }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if !in_arena(ptr as usize) {
            System.dealloc(ptr, layout)
        }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let new = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
        if !new.is_null() {
            std::ptr::copy_nonoverlapping(ptr, new, layout.size().min(new_size));
            self.dealloc(ptr, layout);
        }
        new
    }
}

pub fn with_alloc<T>(mode: AllocMode, f: impl FnOnce() -> T) -> T {
    let saved = ALLOC.with(|a| a.replace(mode));
    ALLOCS.with(|a| a.set(0));
    let r = f();
    ALLOC.with(|a| a.set(saved));
    r
}
pub fn set_alloc(mode: AllocMode) {
    ALLOC.with(|a| a.set(mode))
}
pub fn alloc_count() -> u64 {
    ALLOCS.with(|a| a.get())
}
pub fn denied_count() -> u64 {
    DENIED.with(|d| d.get())
}

// Progress page shared with the supervisor -----------------------------------------------------------

#[repr(C)]
pub struct Progress {
    /// index of the run being executed
    pub index: AtomicU64,
    /// 1 while inside a library call
    pub in_lib: AtomicU64,
    /// 0 none, 1 step budget exhausted, 2 deadlock
    pub reason: AtomicU64,
    pub denied: AtomicU64,
    /// uses of interposed environment functions from inside the library
    pub env_calls: AtomicU64,
    pub beat: AtomicU64,
    /// set by the supervisor: runs at or above this index are not needed any more (0: none)
    pub stop: AtomicU64,
}

impl Progress {
    pub fn bound(&self) -> u64 {
        match self.stop.load(Relaxed) {
            0 => u64::MAX,
            v => v,
        }
    }
}

static mut PROGRESS_LOCAL: Progress = Progress {
    index: AtomicU64::new(0),
    in_lib: AtomicU64::new(0),
    reason: AtomicU64::new(0),
    denied: AtomicU64::new(0),
    env_calls: AtomicU64::new(0),
    beat: AtomicU64::new(0),
    stop: AtomicU64::new(0),
};
static PROGRESS: AtomicUsize = AtomicUsize::new(0);

pub fn progress() -> &'static Progress {
    let p = PROGRESS.load(Relaxed);
    if p == 0 {
        unsafe { &*std::ptr::addr_of!(PROGRESS_LOCAL) }
    } else {
        unsafe { &*(p as *const Progress) }
    }
}

pub fn map_progress(path: &str) -> &'static Progress {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("progress file");
    f.set_len(4096).expect("progress file");
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    unsafe { &*(p as *const Progress) }
}

pub fn use_progress(p: &'static Progress) {
    PROGRESS.store(p as *const Progress as usize, Relaxed);
}

// Library calls --------------------------------------------------------------------------------------

/// The default budget: far above any legitimate call, far below a watchdog's patience.
pub const DEFAULT_BUDGET: u64 = 40_000_000;

pub struct Panic(pub String);

/// Runs a library call: panics are caught and returned, the work is metered.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    lib_budget(DEFAULT_BUDGET, f).0
}

pub fn lib_budget<T>(budget: u64, f: impl FnOnce() -> T) -> (Result<T, Panic>, u64) {
    let start = steps();
    let metered = MODE.with(|m| m.get()) == Mode::Off;
    if metered {
        set_mode(Mode::Budget);
        set_trip(start + budget);
    }
    let outer = IN_LIB.with(|i| i.replace(true));
    progress().in_lib.store(1, Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_LIB.with(|i| i.set(outer));
    if !outer {
        progress().in_lib.store(0, Relaxed);
    }
    if metered {
        set_mode(Mode::Off);
        set_trip(u64::MAX);
    }
    let used = steps() - start;
    (
        r.map_err(|e| {
            Panic(if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            })
        }),
        used,
    )
}

pub fn in_lib() -> bool {
    IN_LIB.with(|i| i.get())
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !in_lib() {
            default(info);
        }
    }));
}

// Interposed environment -------------------------------------------------------------------------------

static SIM_ENV: AtomicBool = AtomicBool::new(false);
/// Simulated clock, ns. Only visible to the library: the harness never asks it.
static SIM_CLOCK: AtomicU64 = AtomicU64::new(0);
static SIM_RANDOM: AtomicU64 = AtomicU64::new(0);

pub fn simulate_environment(clock_ns: u64, random: u64) {
    SIM_CLOCK.store(clock_ns, Relaxed);
    SIM_RANDOM.store(random, Relaxed);
    SIM_ENV.store(true, Relaxed);
}
fn diverted() -> bool {
    SIM_ENV.load(Relaxed) && IN_LIB.with(|i| i.get())
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

/// Threads of this process
pub fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count())
}

/// Runs harness code in the middle of a library call with the real environment and heap
pub fn unsimulated<T>(f: impl FnOnce() -> T) -> T {
    let mode = MODE.with(|m| m.replace(Mode::Off));
    let lib = IN_LIB.with(|i| i.replace(false));
    let alloc = ALLOC.with(|a| a.replace(AllocMode::Normal));
    let r = f();
    ALLOC.with(|a| a.set(alloc));
    IN_LIB.with(|i| i.set(lib));
    MODE.with(|m| m.set(mode));
    r
}

pub fn raw_futex_wait(word: &std::sync::atomic::AtomicU32, value: u32) {
    unsafe {
        raw(libc::SYS_futex, word as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, value as i64, 0, 0, 0);
    }
}
pub fn raw_futex_wake(word: &std::sync::atomic::AtomicU32) {
    unsafe {
        raw(libc::SYS_futex, word as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 64, 0, 0, 0);
    }
}

pub fn raw_futex_wake_n(address: usize, n: u32) -> i64 {
    unsafe { raw(libc::SYS_futex, address as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, n as i64, 0, 0, 0) }.max(0)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && MODE.with(|m| m.get()) == Mode::Sched {
        return ret(crate::sched::futex(a as usize, b as i32, c as u32, d as usize));
    }
    if n == libc::SYS_futex && matches!(b as i32 & 0x7f, 1 | 10) {
        crate::sched::foreign_wake();
    }
    // outside the scheduler there is only one thread, unless the library has started one: nobody could wake it
    if n == libc::SYS_futex && in_lib() && matches!(b as i32 & 0x7f, 0 | 9) && d == 0 && unsimulated(tasks) == 1
        && std::ptr::read_volatile(a as *const u32) == c as u32
    {
        progress().reason.store(2, Relaxed);
        libc::_exit(EXIT_DEADLOCK);
    }
    ret(raw(n, a, b, c, d, e, f))
}

extern "C" {
    static environ: *const *const i8;
}

/// The environment: what the library asks for is set or unset as the simulated world decides.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const i8) -> *const i8 {
    // the standard library's own variables are not the business of the code under test
    if diverted() && !std::ffi::CStr::from_ptr(name).to_bytes().starts_with(b"RUST_") {
        progress().env_calls.fetch_add(1, Relaxed);
        return if SIM_RANDOM.load(Relaxed) & 1 == 0 { c"1".as_ptr() } else { std::ptr::null() };
    }
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let entry = std::ffi::CStr::from_ptr(*p).to_bytes();
        if entry.len() > name.len() && entry.starts_with(name) && entry[name.len()] == b'=' {
            return (*p).add(name.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if diverted() {
        progress().env_calls.fetch_add(1, Relaxed);
        let now = SIM_CLOCK.fetch_add(1_000, Relaxed);
        (*ts).tv_sec = (now / 1_000_000_000) as i64;
        (*ts).tv_nsec = (now % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buffer: *mut u8, n: usize, flags: u32) -> isize {
    if diverted() {
        progress().env_calls.fetch_add(1, Relaxed);
        for i in 0..n {
            let v = SIM_RANDOM.fetch_add(1, Relaxed);
            *buffer.add(i) = crate::rng::mix(v) as u8;
        }
        return n as isize;
    }
    ret(raw(libc::SYS_getrandom, buffer as i64, n as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if MODE.with(|m| m.get()) == Mode::Sched {
        crate::sched::voluntary_yield();
        return 0;
    }
    ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if diverted() {
        progress().env_calls.fetch_add(1, Relaxed);
        SIM_CLOCK.fetch_add(((*req).tv_sec as u64).wrapping_mul(1_000_000_000).wrapping_add((*req).tv_nsec as u64), Relaxed);
        if MODE.with(|m| m.get()) == Mode::Sched {
            crate::sched::voluntary_yield();
        }
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if diverted() {
        progress().env_calls.fetch_add(1, Relaxed);
        SIM_CLOCK.fetch_add(((*req).tv_sec as u64).wrapping_mul(1_000_000_000).wrapping_add((*req).tv_nsec as u64), Relaxed);
        if MODE.with(|m| m.get()) == Mode::Sched {
            crate::sched::voluntary_yield();
        }
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32
}
