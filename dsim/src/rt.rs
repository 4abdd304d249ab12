//! Safe-ish wrappers around the C runtime (rt/rt.c), the simulated global allocator and panic plumbing.
use core::alloc::{GlobalAlloc, Layout};
use core::ffi::c_void;
use std::any::Any;

pub const NFK: usize = 24;
pub const MAXW: usize = 16384;
pub const MAXS: usize = 16384;
pub const MAXF: usize = 2048;
pub const MAXST: usize = 512;
pub const LOGSZ: usize = 1 << 18;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Sp {
    pub idx: u32,
    pub val: u32,
}

/// Mirrors `struct result` in rt.h.
#[repr(C)]
pub struct RunResult {
    pub status: u32,
    pub replay: u32,
    pub seed: u64,
    pub log_on: u32,
    pub tid: u32,
    pub cls: [u8; 64],
    pub msg: [u8; 1024],
    pub op: [u8; 192],
    pub hash: u64,
    pub ticks: u64,
    pub steps: u64,
    pub switches: u64,
    pub simtime: u64,
    pub atomics: u64,
    pub allocs: u64,
    pub accesses: u64,
    pub stale: u64,
    pub nthreads: u32,
    pub strat: u32,
    pub n_w: u32,
    pub n_s: u32,
    pub n_f: u32,
    pub overflow: u32,
    pub n_st: u32,
    pub nontrivial: u32,
    pub ops: u32,
    pub fine: u32,
    pub fq: [u64; NFK],
    pub fi: [u64; NFK],
    pub st: [u64; MAXST],
    pub w: [u32; MAXW],
    pub s: [Sp; MAXS],
    pub f: [Sp; MAXF],
    pub loglen: u32,
    pub pad2: u32,
    pub log: [u8; LOGSZ],
}

pub fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

mod ffi {
    use super::*;
    extern "C" {
        pub fn sim_w(n: u32) -> u32;
        pub fn sim_fault(kind: u32, n: u32, boost: u32) -> u32;
        pub fn sim_pick(kind: u32, n: u32) -> u32;
        pub fn sim_violation(cls: *const u8, msg: *const u8) -> !;
        pub fn sim_point(tag: u32);
        pub fn sim_spawn(f: extern "C" fn(*mut c_void), a: *mut c_void) -> i32;
        pub fn sim_join(id: i32);
        pub fn sim_room() -> i32;
        pub fn sim_wait(key: u64);
        pub fn sim_wake(key: u64);
        pub fn sim_clk_release(o: *mut u32);
        pub fn sim_clk_acquire(i: *const u32);
        pub fn sim_alloc(size: usize, align: usize) -> *mut u8;
        pub fn sim_dealloc(p: *mut u8, size: usize, align: usize) -> i32;
        pub fn sim_realloc(p: *mut u8, size: usize, align: usize, n: usize) -> *mut u8;
        pub fn sim_in_arena(p: *const u8) -> i32;
        pub fn sim_block(p: *const u8) -> u32;
        pub fn sim_live() -> i32;
        pub fn sim_live_blocks() -> u32;
        pub fn sim_blocks() -> u32;
        pub fn sim_op(p: *const u8, n: usize);
        pub fn sim_logs(p: *const u8, n: usize);
        pub fn sim_log_on() -> i32;
        pub fn sim_note(x: u64);
        pub fn sim_state(x: u64);
        pub fn sim_nontrivial();
        pub fn sim_set_ignore(v: i32) -> i32;
        pub fn sim_faults(on: i32) -> i32;
        pub fn sim_noalloc(d: i32) -> i32;
        pub fn sim_tid() -> i32;
        pub fn sim_leak_ok();
        pub fn sim_seed() -> u64;
        pub fn sim_profile(what: u32);
        pub fn sim_check_range(p: *const u8, n: usize, wr: i32);
        pub fn sim_global_init();
        pub fn sim_run(r: *mut RunResult, f: extern "C" fn(*mut c_void), a: *mut c_void);
        pub fn sim_yield();
        pub fn sim_extend(n: u64);
        pub fn sim_time() -> u64;
        pub fn sim_advance(ns: u64);
    }
}

/// Fault kinds (index into the counters).
pub mod fk {
    pub const ALLOC: u32 = 0;
    pub const STALE: u32 = 1;
    pub const FUTEX_EINTR: u32 = 2;
    pub const FUTEX_SPURIOUS: u32 = 3;
    pub const WAKE_ORDER: u32 = 4;
    pub const CB_PANIC: u32 = 5;
    pub const CB_ERR: u32 = 6;
    pub const CB_LIE: u32 = 7;
    pub const CANCEL: u32 = 8;
    pub const PENDING: u32 = 9;
    pub const SHORT: u32 = 10;
    pub const ABANDON: u32 = 11;
    pub const LEAK: u32 = 12;
    pub const REFUSE: u32 = 13;
    pub const DROP_PANIC: u32 = 14;
    pub const STREAM_ERR: u32 = 15;
    pub const REENTER: u32 = 16;
    pub const OVERWRITE: u32 = 17;
    pub const MIGRATE: u32 = 18;
    pub const NAMES: [&str; super::NFK] = [
        "allocation_failure", "stale_atomic_load", "futex_eintr", "futex_spurious_wake", "futex_wake_order", "callback_panic", "callback_error",
        "callback_lies_about_size", "cancellation", "extra_suspension", "short_transfer", "abandoned_iterator", "leaked_value", "refused_argument",
        "destructor_panic", "stream_error", "reentrant_callback", "transient_buffer_overwritten", "migrated_to_other_thread", "-", "-", "-", "-", "-",
    ];
}

pub fn w(n: u32) -> u32 {
    unsafe { ffi::sim_w(n) }
}
/// Uniform in `lo..=hi`.
pub fn wr(lo: usize, hi: usize) -> usize {
    lo + w((hi - lo + 1) as u32) as usize
}
/// True with probability 1/n; false is the "smaller" choice.
pub fn one_in(n: u32) -> bool {
    n <= 1 || w(n) == n - 1
}
pub fn fault(kind: u32, n: u32) -> u32 {
    unsafe { ffi::sim_fault(kind, n, 1) }
}
pub fn fault_often(kind: u32, n: u32) -> u32 {
    unsafe { ffi::sim_fault(kind, n, 4) }
}
pub fn pick(kind: u32, n: u32) -> u32 {
    unsafe { ffi::sim_pick(kind, n) }
}
pub fn point() {
    unsafe { ffi::sim_point(1) }
}
/// More data, more steps.
pub fn extend(n: usize) {
    unsafe { ffi::sim_extend(n as u64) }
}
pub fn yield_now() {
    unsafe { ffi::sim_yield() }
}
pub fn note(x: u64) {
    unsafe { ffi::sim_note(x) }
}
pub fn state(x: u64) {
    unsafe { ffi::sim_state(x) }
}
pub fn nontrivial() {
    unsafe { ffi::sim_nontrivial() }
}
pub fn live() -> bool {
    unsafe { ffi::sim_live() != 0 }
}
pub fn tid() -> i32 {
    unsafe { ffi::sim_tid() }
}
/// This thread's vector clock: what happened before now.  A later one, in any thread, covers this one if its component
/// for this thread is at least as large.
pub fn clock() -> [u32; 6] {
    let mut c = [0u32; 6];
    unsafe { ffi::sim_clk_release(c.as_mut_ptr()) };
    c
}
pub fn leak_ok() {
    unsafe { ffi::sim_leak_ok() }
}
pub fn seed() -> u64 {
    unsafe { ffi::sim_seed() }
}
pub fn time() -> u64 {
    unsafe { ffi::sim_time() }
}
pub fn advance(ns: u64) {
    unsafe { ffi::sim_advance(ns) }
}
pub fn in_arena(p: *const u8) -> bool {
    unsafe { ffi::sim_in_arena(p) != 0 }
}
/// Number of the simulated block that holds `p` (0: none).
pub fn block(p: *const u8) -> u32 {
    unsafe { ffi::sim_block(p) }
}
/// Blocks allocated so far.
pub fn blocks() -> u32 {
    unsafe { ffi::sim_blocks() }
}
pub fn live_blocks() -> u32 {
    unsafe { ffi::sim_live_blocks() }
}
pub const PF_ALLOC: u32 = 1;
pub const PF_GEN: u32 = 2;
/// Which families of faults this workload takes part in.
pub fn profile(what: u32) {
    unsafe { ffi::sim_profile(what) }
}
pub fn check_read(s: &[u8]) {
    unsafe { ffi::sim_check_range(s.as_ptr(), s.len(), 0) }
}

pub fn violation(cls: &str, msg: &str) -> ! {
    let mut c = [0u8; 64];
    let mut m = [0u8; 1024];
    let n = cls.len().min(63);
    c[..n].copy_from_slice(&cls.as_bytes()[..n]);
    let n = msg.len().min(1023);
    m[..n].copy_from_slice(&msg.as_bytes()[..n]);
    unsafe { ffi::sim_violation(c.as_ptr(), m.as_ptr()) }
}
#[macro_export]
macro_rules! viol {
    ($cls:expr, $($a:tt)*) => {{ $crate::rt::quiet(|| $crate::rt::violation($cls, &format!($($a)*))) }};
}

/// Run harness code outside the simulation: accesses unchecked, no preemption, no faults, allocations not leak-checked.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G(i32);
    impl Drop for G {
        fn drop(&mut self) {
            unsafe {
                ffi::sim_set_ignore(self.0);
                ffi::sim_noalloc(-1);
            }
        }
    }
    let g = unsafe {
        ffi::sim_noalloc(1);
        G(ffi::sim_set_ignore(1))
    };
    let r = f();
    drop(g);
    r
}
pub fn set_ignore(v: i32) -> i32 {
    unsafe { ffi::sim_set_ignore(v) }
}

/// Fixed-size formatting buffer, so that logging does not allocate.
pub struct Buf<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
}
impl<const N: usize> Buf<N> {
    pub fn new() -> Self {
        Buf { b: [0; N], n: 0 }
    }
    pub fn s(&self) -> &str {
        core::str::from_utf8(&self.b[..self.n]).unwrap_or("?")
    }
}
impl<const N: usize> core::fmt::Write for Buf<N> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for c in s.chars() {
            let l = c.len_utf8();
            if self.n + l > N {
                break;
            }
            c.encode_utf8(&mut self.b[self.n..]);
            self.n += l;
        }
        Ok(())
    }
}
pub fn op_fmt(a: core::fmt::Arguments<'_>) {
    let o = set_ignore(1);
    let mut b = Buf::<159>::new();
    let _ = core::fmt::Write::write_fmt(&mut b, a);
    unsafe { ffi::sim_op(b.b.as_ptr(), b.n) };
    set_ignore(o);
}
pub fn log_fmt(a: core::fmt::Arguments<'_>) {
    if unsafe { ffi::sim_log_on() } == 0 {
        return;
    }
    let o = set_ignore(1);
    let mut b = Buf::<300>::new();
    let _ = core::fmt::Write::write_fmt(&mut b, a);
    unsafe { ffi::sim_logs(b.b.as_ptr(), b.n) };
    set_ignore(o);
}
/// Declares the operation in progress (also a scheduling point).
#[macro_export]
macro_rules! op { ($($a:tt)*) => {{ $crate::rt::op_fmt(format_args!($($a)*)); $crate::rt::point(); }}; }
#[macro_export]
macro_rules! slog { ($($a:tt)*) => { $crate::rt::log_fmt(format_args!($($a)*)) }; }

// ------------------------------------------------------------------ allocator
pub struct SimAlloc;
/// No allocation failures while a panic is being raised or unwound: std itself cannot survive those.
#[inline]
unsafe fn no_faults_while_panicking<R>(f: impl FnOnce() -> R) -> R {
    let o = ffi::sim_faults(0);
    if o == 0 {
        return f();
    }
    let i = ffi::sim_set_ignore(1);
    let p = std::thread::panicking();
    ffi::sim_set_ignore(i);
    if !p {
        ffi::sim_faults(o);
        return f();
    }
    let r = f();
    ffi::sim_faults(o);
    r
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ffi::sim_live() != 0 {
            return no_faults_while_panicking(|| ffi::sim_alloc(l.size(), l.align()));
        }
        let mut p = core::ptr::null_mut();
        if libc::posix_memalign(&mut p, l.align().max(16), l.size()) != 0 {
            return core::ptr::null_mut();
        }
        p.cast()
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ffi::sim_dealloc(p, l.size(), l.align()) == 0 {
            libc::free(p.cast());
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            core::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ffi::sim_live() != 0 && ffi::sim_in_arena(p) != 0 {
            return no_faults_while_panicking(|| ffi::sim_realloc(p, l.size(), l.align(), n));
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

// ------------------------------------------------------------------ panics
pub struct AllocFault;
pub struct Injected(pub u32);

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Unwound {
    Alloc,
    Injected(u32),
    Lib(String),
}
impl Unwound {
    pub fn is_lib(&self) -> bool {
        matches!(self, Unwound::Lib(_))
    }
}

fn classify(p: Box<dyn Any + Send>) -> Unwound {
    let o = set_ignore(1);
    let r = if p.is::<AllocFault>() {
        Unwound::Alloc
    } else if let Some(i) = p.downcast_ref::<Injected>() {
        Unwound::Injected(i.0)
    } else {
        Unwound::Lib(quiet(|| {
            if let Some(s) = p.downcast_ref::<&'static str>() {
                (*s).to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            }
        }))
    };
    set_ignore(o);
    drop(p);
    r
}

/// Runs library code that may unwind; fault state is restored afterwards.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Unwound> {
    let (fa, ig) = unsafe {
        let fa = ffi::sim_faults(0);
        ffi::sim_faults(fa);
        let ig = ffi::sim_set_ignore(0);
        ffi::sim_set_ignore(ig);
        (fa, ig)
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            unsafe { ffi::sim_set_ignore(ig) };
            unsafe { ffi::sim_faults(0) };
            let u = classify(p);
            unsafe { ffi::sim_faults(fa) };
            slog!("unwound: {:?}", u);
            Err(u)
        }
    }
}
/// Runs library code with allocation failures allowed.
pub fn faulty<R>(f: impl FnOnce() -> R) -> Result<R, Unwound> {
    catch(|| {
        let o = unsafe { ffi::sim_faults(1) };
        let r = f();
        unsafe { ffi::sim_faults(o) };
        r
    })
}
/// Suspend allocation faults (inside callbacks running harness code).
pub fn nofault<R>(f: impl FnOnce() -> R) -> R {
    let o = unsafe { ffi::sim_faults(0) };
    let r = f();
    unsafe { ffi::sim_faults(o) };
    r
}
/// Panic out of a callback with a recognisable payload, without running the panic hook.
pub fn inject_panic(n: u32) -> ! {
    unsafe { ffi::sim_faults(0) };
    std::panic::resume_unwind(Box::new(Injected(n)))
}
fn oom(_: Layout) {
    unsafe { ffi::sim_faults(0) };
    std::panic::resume_unwind(Box::new(AllocFault))
}

pub fn install() {
    std::alloc::set_alloc_error_hook(oom);
    std::panic::set_hook(Box::new(|info| {
        let live = live();
        let o = set_ignore(1);
        if !live {
            eprintln!("harness panic: {info}");
            return;
        }
        let mut b = Buf::<900>::new();
        let _ = core::fmt::Write::write_fmt(&mut b, format_args!("{info}"));
        if !info.can_unwind() {
            violation("abort", b.s());
        }
        if unsafe { ffi::sim_log_on() } != 0 {
            unsafe { ffi::sim_logs(b.b.as_ptr(), b.n) };
        }
        set_ignore(o);
    }));
    unsafe { ffi::sim_global_init() };
}

// ------------------------------------------------------------------ simulated threads
struct Start(Box<dyn FnOnce() + Send>);
extern "C" fn tramp(p: *mut c_void) {
    let b = unsafe { Box::from_raw(p as *mut Start) };
    let r = catch(move || (b.0)());
    if let Err(u) = r {
        quiet(|| violation("panic", &format!("unexpected panic in T{}: {:?}", tid(), u)));
    }
}
/// Whether another thread can be started now.
pub fn room() -> bool {
    unsafe { ffi::sim_room() != 0 }
}
pub struct Join(i32);
pub fn spawn(f: impl FnOnce() + Send + 'static) -> Join {
    let b = Box::new(Start(Box::new(f)));
    Join(unsafe { ffi::sim_spawn(tramp, Box::into_raw(b) as *mut c_void) })
}
impl Join {
    pub fn join(self) {
        unsafe { ffi::sim_join(self.0) }
    }
}
extern "C" fn root(p: *mut c_void) {
    let f: fn() = unsafe { core::mem::transmute(p) };
    if let Err(u) = catch(f) {
        quiet(|| violation("panic", &format!("unexpected panic in T0: {:?}", u)));
    }
}
/// In the forked child.
pub fn run_child(r: *mut RunResult, f: fn()) {
    unsafe { ffi::sim_run(r, root, f as *mut c_void) }
}

/// Message passing between simulated threads: receiving synchronises with that one send only.
pub struct Mailbox<T>(std::cell::UnsafeCell<std::collections::VecDeque<(T, [u32; 6])>>);
unsafe impl<T: Send> Sync for Mailbox<T> {}
unsafe impl<T: Send> Send for Mailbox<T> {}
impl<T> Mailbox<T> {
    pub fn new() -> Self {
        Mailbox(std::cell::UnsafeCell::new(quiet(|| std::collections::VecDeque::with_capacity(64))))
    }
    pub fn send(&self, v: T) {
        point();
        let mut c = [0u32; 6];
        unsafe { ffi::sim_clk_release(c.as_mut_ptr()) };
        quiet(|| unsafe { (*self.0.get()).push_back((v, c)) });
        unsafe { ffi::sim_wake(self as *const _ as u64) };
    }
    pub fn try_recv(&self) -> Option<T> {
        point();
        let r = quiet(|| unsafe { (*self.0.get()).pop_front() });
        r.map(|(v, c)| {
            unsafe { ffi::sim_clk_acquire(c.as_ptr()) };
            v
        })
    }
    pub fn recv(&self) -> T {
        loop {
            if let Some(v) = self.try_recv() {
                return v;
            }
            unsafe { ffi::sim_wait(self as *const _ as u64) };
        }
    }
}
impl<T> Drop for Mailbox<T> {
    fn drop(&mut self) {
        while let Some((v, c)) = quiet(|| unsafe { (*self.0.get()).pop_front() }) {
            unsafe { ffi::sim_clk_acquire(c.as_ptr()) };
            drop(v);
        }
        quiet(|| unsafe { *self.0.get() = Default::default() });
    }
}

/// A cell shared by simulated threads whose accesses are part of the harness, not of the system under test.
pub struct Shared<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> {
    pub const fn new(v: T) -> Self {
        Shared(std::cell::UnsafeCell::new(v))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        quiet(|| f(unsafe { &mut *self.0.get() }))
    }
}
