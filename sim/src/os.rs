//! The simulated operating environment: every seam through which the code under test can meet
//! nondeterminism or faults.
//!
//! * logical clock and pre-emption points: edge callbacks compiled into the crate under test,
//!   allocator calls and futex system calls (std's Mutex, Condvar, Once, RwLock, park);
//! * scheduler: real threads, exactly one of which holds the baton; who runs next is read from the
//!   case's explicit schedule;
//! * allocator: counting, failure injection, garbage fill, layout shift;
//! * clock, entropy, environment variables, file system, descriptors: interposed libc symbols.
//!
//! The seams act only while `SESSION` is set on the calling thread, that is, while it is inside a
//! call to the code under test; everything else passes through.
#![allow(static_mut_refs)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const NO_TID: usize = usize::MAX;
pub const MAX_T: usize = 16;

thread_local! {
    static SESSION: Cell<bool> = const { Cell::new(false) };
    static TID: Cell<usize> = const { Cell::new(NO_TID) };
    static STACK_LOW: Cell<usize> = const { Cell::new(usize::MAX) };
}

// ---------------------------------------------------------------- raw system calls

pub unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut c_int;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn malloc(n: usize) -> *mut c_void;
}
extern "C" {
    static mut environ: *const *mut c_char;
}
static mut SIM_ENVIRON: [*const c_char; 5] = [std::ptr::null(); 5];
static mut SIM_WORD: *const c_char = std::ptr::null();
static mut ARGC: c_int = 0;
static mut ARGV: *mut *const c_char = std::ptr::null_mut();
#[used]
#[link_section = ".init_array"]
static SAVE_ARGS: unsafe extern "C" fn(c_int, *mut *const c_char) = {
    unsafe extern "C" fn save(c: c_int, v: *mut *const c_char) {
        ARGC = c;
        ARGV = v;
    }
    save
};
const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;

unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}
unsafe fn fail(errno: c_int) -> isize {
    *__errno_location() = errno;
    -1
}

const SYS_FUTEX: usize = 202;
const SYS_GETRANDOM: usize = 318;

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw(231, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}

pub fn raw_write(fd: i32, mut data: &[u8]) {
    while !data.is_empty() {
        let r = unsafe { raw(1, fd as usize, data.as_ptr() as usize, data.len(), 0, 0, 0) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return;
        }
        data = &data[r as usize..];
    }
}

// ---------------------------------------------------------------- plan and state

/// What the simulated environment does in one run.
#[derive(Clone, Debug, PartialEq)]
pub struct Env {
    /// Events after which a run counts as not progressing.
    pub budget: u64,
    /// Pre-emptions: at global event number `.0`, hand the baton to thread `.1` (mod threads).
    pub preempt: Vec<(u64, usize)>,
    /// Allocation requests that fail: from, count, of at least this size (ordinals count only
    /// requests of that size).
    pub alloc_fail: Option<(u64, u64, u64)>,
    pub fill: Option<u8>,
    pub junk: usize,
    pub clock0: i64,
    pub clock_step: i64,
    pub clock_jump_at: u64,
    pub clock_jump: i64,
    pub entropy: u64,
    pub envvars: u8,
    /// Value of every variable when `envvars` is 7; also a name in the environment block and an argument.
    pub word: String,
    pub fs: u8,
    /// Where the call finds its stack (frames below the usual place) and the text (offset from a multiple of 64).
    pub place: (usize, usize),
}

impl Default for Env {
    fn default() -> Self {
        Env {
            budget: u64::MAX,
            preempt: vec![],
            alloc_fail: None,
            fill: None,
            junk: 0,
            clock0: 1_500_000_000_000_000_000,
            clock_step: 1000,
            clock_jump_at: u64::MAX,
            clock_jump: 0,
            entropy: 42,
            envvars: 0,
            word: String::new(),
            fs: 0,
            place: (0, 0),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum TState {
    Unused,
    Runnable,
    Blocked(usize),
    Done,
}

pub struct Counters {
    pub events: u64,
    pub allocs: u64,
    pub alloc_bytes: u64,
    pub alloc_failed: u64,
    pub switches: u64,
    pub switch_hash: u64,
    pub futex_blocks: u64,
    pub clock_reads: u64,
    pub entropy_reads: u64,
    pub env_reads: u64,
    pub fs_calls: u64,
    pub bytes: u64,
}

/// Steps after which a simulated thread is pre-empted whatever the schedule says.
const QUANTUM: u64 = 100_000;

struct State {
    next: u64,
    fair: u64,
    foreign: bool,
    env: Option<Env>,
    pi: usize,
    nthreads: usize,
    ts: [TState; MAX_T],
    clock: i64,
    entropy: u64,
    memfd: i32,
    effects: [Option<&'static str>; 8],
    neffects: usize,
    sched: bool,
}

static mut EV: u64 = 0;
/// Bytes requested from the allocator, moved, filled or compared by the code under test.
static mut BYTES: u64 = 0;
static mut CNT: Counters = Counters {
    events: 0, allocs: 0, alloc_bytes: 0, alloc_failed: 0, switches: 0, switch_hash: 0, futex_blocks: 0,
    clock_reads: 0, entropy_reads: 0, env_reads: 0, fs_calls: 0, bytes: 0,
};
static mut ST: State = State {
    next: u64::MAX, fair: u64::MAX, foreign: false, env: None, pi: 0, nthreads: 0, ts: [TState::Unused; MAX_T], clock: 0, entropy: 0,
    memfd: -1, effects: [None; 8], neffects: 0, sched: false,
};
static GO: [AtomicU32; MAX_T] = [const { AtomicU32::new(0) }; MAX_T];
static MAIN_GO: AtomicU32 = AtomicU32::new(0);
pub static mut REPORT_FD: i32 = -1;

fn futex_wait_raw(w: &AtomicU32, v: u32) {
    unsafe { raw(SYS_FUTEX, w as *const _ as usize, 128, v as usize, 0, 0, 0) };
}
fn futex_wake_raw(w: &AtomicU32) {
    unsafe { raw(SYS_FUTEX, w as *const _ as usize, 129, 1, 0, 0, 0) };
}
fn wait_word(w: &AtomicU32) {
    while w.swap(0, SeqCst) == 0 {
        futex_wait_raw(w, 0);
    }
}
fn post_word(w: &AtomicU32) {
    w.store(1, SeqCst);
    futex_wake_raw(w);
}

/// Ends the run from inside the simulator with a verdict line on the report pipe.
fn die(what: &str) -> ! {
    unsafe {
        raw_write(REPORT_FD, b"DIE ");
        raw_write(REPORT_FD, what.as_bytes());
        raw_write(REPORT_FD, b"\n");
    }
    exit_now(70)
}

// ---------------------------------------------------------------- coverage and events

pub const MAP: usize = 1 << 16;
pub static mut COV: *mut u8 = std::ptr::null_mut();
static mut NGUARDS: u32 = 0;
/// Per edge: how often it was taken, and when first.
static mut TRACE: *mut (u32, u64) = std::ptr::null_mut();

pub fn trace_on() {
    unsafe {
        let p = raw(9, 0, MAP * 16, 3, 0x22, usize::MAX, 0);
        if p > 0 {
            TRACE = p as *mut (u32, u64);
        }
        let p = raw(9, 0, SITES_MAX * 12, 3, 0x22, usize::MAX, 0);
        if p > 0 {
            SITES = p as *mut [u32; 3];
        }
    }
}
/// Times at which edges taken once or twice were first taken.
pub fn rare_times() -> Vec<u64> {
    unsafe {
        if TRACE.is_null() {
            return vec![];
        }
        let mut v: Vec<u64> =
            (0..MAP).map(|i| *TRACE.add(i)).filter(|e| e.0 > 0 && e.0 <= 2).map(|e| e.1).collect();
        v.sort();
        v
    }
}

static mut PCS: (*const [usize; 2], *const [usize; 2]) = (std::ptr::null(), std::ptr::null());
/// Per edge: 1 if it lies in a function that touches what threads can share (locks, atomics, cells).
static mut SHARED: *mut u8 = std::ptr::null_mut();
/// Times at which such edges were taken, while tracing.
const SHARED_MAX: usize = 4096;
static mut SHARED_AT: [u64; SHARED_MAX] = [0; SHARED_MAX];
static mut SHARED_N: usize = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const [usize; 2], stop: *const [usize; 2]) {
    PCS = (start, stop);
}

/// Finds the edges in functions that lock, use atomics or cells, by the names in this program's symbol table.
/// Without a symbol table nothing is found and the schedules are the undirected ones.
pub fn find_shared() -> usize {
    let f = match std::fs::read("/proc/self/exe") {
        Ok(f) => f,
        Err(_) => return 0,
    };
    let u = |at: usize, n: usize| f.get(at..at + n).map_or(0, |b| b.iter().rev().fold(0usize, |a, x| a << 8 | *x as usize));
    let (sh, es, n) = (u(40, 8), u(58, 2), u(60, 2));
    let mut base = 0;
    let mut ranges = vec![];
    for i in 0..n {
        let h = sh + i * es;
        if u(h + 4, 4) != 2 {
            continue;
        }
        let strs = u(sh + u(h + 40, 4) * es + 24, 8);
        for k in 0..u(h + 32, 8) / 24 {
            let s = u(h + 24, 8) + 24 * k;
            if u(s + 4, 1) & 15 != 2 {
                continue;
            }
            let name: String = match f.get(strs + u(s, 4)..) {
                Some(b) => b.iter().take(400).take_while(|c| **c != 0).map(|c| *c as char).collect(),
                None => continue,
            };
            if name == "__sanitizer_cov_trace_pc_guard" {
                base = (__sanitizer_cov_trace_pc_guard as *const () as usize).wrapping_sub(u(s + 8, 8));
            }
            if ["sync", "tomic", "LocalKey", "4cell", "..cell..", "RefCell", "lazy"].iter().any(|w| name.contains(w)) {
                ranges.push((u(s + 8, 8), u(s + 8, 8) + u(s + 16, 8)));
            }
        }
    }
    let mut found = 0;
    unsafe {
        let p = raw(9, 0, MAP, 3, 0x22, usize::MAX, 0);
        if p <= 0 || PCS.0.is_null() {
            return 0;
        }
        SHARED = p as *mut u8;
        let mut q = PCS.0;
        let mut id = 1usize;
        while q < PCS.1 {
            let pc = (*q)[0].wrapping_sub(base);
            if ranges.iter().any(|r| r.0 <= pc && pc < r.1) {
                *SHARED.add(id & (MAP - 1)) = 1;
                found += 1;
            }
            id += 1;
            q = q.add(1);
        }
    }
    found
}
/// The last edges taken, while tracing.
static mut RING: [u32; 8] = [0; 8];
/// Where the allocation requests come from, while tracing: three names for each request, from coarse to fine.
pub const SITES_MAX: usize = 20_000;
static mut SITES: *mut [u32; 3] = std::ptr::null_mut();
static mut SITES_N: usize = 0;
unsafe fn site() {
    if SITES_N < SITES_MAX {
        let h = |n: usize| RING[8 - n..].iter().fold(0u32, |a, x| (a ^ x).wrapping_mul(0x9e37_79b1).rotate_left(11));
        *SITES.add(SITES_N) = [h(1), h(3), h(8)];
        SITES_N += 1;
    }
}
pub fn sites() -> Vec<[u32; 3]> {
    unsafe { (0..SITES_N).map(|i| *SITES.add(i)).collect() }
}
pub fn shared_times() -> Vec<u64> {
    unsafe { (0..SHARED_N).map(|i| SHARED_AT[i]).collect() }
}

pub fn guards() -> usize {
    unsafe { NGUARDS as usize }
}
pub fn cov_count() -> usize {
    unsafe {
        if COV.is_null() {
            return 0;
        }
        (0..MAP).filter(|i| *COV.add(*i) != 0).count()
    }
}
/// Shared mapping: all forked runs add to one edge map.
pub fn cov_init() {
    unsafe {
        let p = raw(9, 0, MAP, 3, 0x21, usize::MAX, 0);
        if p > 0 {
            COV = p as *mut u8;
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !SESSION.with(|s| s.get()) {
        return;
    }
    if !COV.is_null() {
        *COV.add(*g as usize & (MAP - 1)) = 1;
    }
    if !TRACE.is_null() {
        let e = &mut *TRACE.add(*g as usize & (MAP - 1));
        if e.0 == 0 {
            e.1 = EV;
        }
        e.0 += 1;
        RING = [RING[1], RING[2], RING[3], RING[4], RING[5], RING[6], RING[7], *g];
        if !SHARED.is_null() && *SHARED.add(*g as usize & (MAP - 1)) != 0 && SHARED_N < SHARED_MAX {
            SHARED_AT[SHARED_N] = EV;
            SHARED_N += 1;
        }
    }
    event();
}

#[inline(always)]
fn event() {
    let here = 0u8;
    let sp = &here as *const u8 as usize;
    STACK_LOW.with(|s| {
        if sp < s.get() {
            s.set(sp)
        }
    });
    unsafe {
        EV += 1;
        if EV >= ST.next {
            slow();
        }
    }
}

#[inline(never)]
fn slow() {
    SESSION.with(|s| s.set(false));
    unsafe {
        let env = ST.env.as_ref().unwrap();
        if EV > env.budget {
            die("no-progress");
        }
        // round robin now and then, so that no thread waits for ever for another one
        if ST.sched && EV >= ST.fair {
            ST.fair = EV + QUANTUM;
            let me = TID.with(|x| x.get());
            if let Some(c) = (1..ST.nthreads).map(|k| (me + k) % ST.nthreads).find(|c| ST.ts[*c] == TState::Runnable) {
                set_next();
                switch_to(c);
                SESSION.with(|s| s.set(true));
                return;
            }
        }
        let mut target = None;
        while ST.pi < env.preempt.len() && env.preempt[ST.pi].0 <= EV {
            target = Some(env.preempt[ST.pi].1);
            ST.pi += 1;
        }
        set_next();
        if let (Some(t), true) = (target, ST.sched) {
            let t = t % ST.nthreads;
            // the named thread, or the next runnable one after it
            for k in 0..ST.nthreads {
                let c = (t + k) % ST.nthreads;
                if ST.ts[c] == TState::Runnable {
                    switch_to(c);
                    break;
                }
            }
        }
    }
    SESSION.with(|s| s.set(true));
}

unsafe fn set_next() {
    let env = ST.env.as_ref().unwrap();
    let p = env.preempt.get(ST.pi).map(|x| x.0).unwrap_or(u64::MAX);
    ST.next = p.min(env.budget.saturating_add(1)).min(if ST.sched { ST.fair } else { u64::MAX });
}

unsafe fn switch_to(t: usize) {
    let me = TID.with(|x| x.get());
    if t == me {
        return;
    }
    CNT.switches += 1;
    CNT.switch_hash = crate::rng::mix(CNT.switch_hash ^ EV.wrapping_mul(31) ^ ((t as u64) << 56));
    ST.fair = EV + QUANTUM;
    set_next();
    post_word(&GO[t]);
    wait_word(&GO[me]);
}

/// The calling simulated thread cannot continue; give the baton to someone else.
unsafe fn yield_blocked(has_timeout: bool) -> bool {
    let me = TID.with(|x| x.get());
    let n = ST.nthreads;
    for k in 1..n {
        let c = (me + k) % n;
        if ST.ts[c] == TState::Runnable {
            switch_to(c);
            return true;
        }
    }
    if has_timeout {
        return false;
    }
    die("deadlock")
}

unsafe fn sim_futex(addr: usize, op: usize, val: usize, timeout: usize) -> isize {
    match op & 127 {
        0 | 9 => {
            if *(addr as *const AtomicU32) .as_ref().unwrap().as_ptr() != val as u32 {
                return fail(11);
            }
            CNT.futex_blocks += 1;
            if !ST.sched {
                if ST.foreign {
                    return ret(raw(SYS_FUTEX, addr, op, val, timeout, 0, usize::MAX & 0xffffffff));
                }
                if timeout != 0 {
                    ST.clock += 1_000_000_000;
                    return fail(110);
                }
                die("deadlock");
            }
            let me = TID.with(|x| x.get());
            if ST.foreign && !(1..ST.nthreads).any(|k| ST.ts[(me + k) % ST.nthreads] == TState::Runnable) {
                return ret(raw(SYS_FUTEX, addr, op, val, timeout, 0, usize::MAX & 0xffffffff));
            }
            ST.ts[me] = TState::Blocked(addr);
            let ok = yield_blocked(timeout != 0);
            ST.ts[me] = TState::Runnable;
            if ok {
                0
            } else {
                ST.clock += 1_000_000_000;
                fail(110)
            }
        }
        1 | 10 => {
            let mut n = 0;
            for t in 0..ST.nthreads {
                if n < val && ST.ts[t] == TState::Blocked(addr) {
                    ST.ts[t] = TState::Runnable;
                    n += 1;
                }
            }
            if ST.foreign {
                return n as isize + ret(raw(SYS_FUTEX, addr, op, val, timeout, 0, usize::MAX & 0xffffffff));
            }
            n as isize
        }
        _ => ret(raw(SYS_FUTEX, addr, op, val, timeout, 0, 0)),
    }
}

// ---------------------------------------------------------------- sessions

/// Runs `f` (a call into the code under test) with the seams on.
pub fn session<R>(f: impl FnOnce() -> R) -> R {
    let here = 0u8;
    STACK_LOW.with(|s| s.set(&here as *const u8 as usize));
    session_more(f)
}

/// The same, going on with the measurement of the stack.
pub fn session_more<R>(f: impl FnOnce() -> R) -> R {
    SESSION.with(|s| s.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    SESSION.with(|s| s.set(false));
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// Stack bytes between `top` and the deepest point any event of the last session saw.
pub fn stack_used(top: usize) -> usize {
    STACK_LOW.with(|s| top.saturating_sub(s.get()))
}

pub fn begin(env: &Env) {
    unsafe {
        EV = 0;
        BYTES = 0;
        ST.env = Some(env.clone());
        ST.pi = 0;
        ST.clock = env.clock0;
        ST.entropy = env.entropy;
        ST.neffects = 0;
        ST.effects = [None; 8];
        ST.sched = false;
        ST.nthreads = 1;
        CNT = Counters {
            events: 0, allocs: 0, alloc_bytes: 0, alloc_failed: 0, switches: 0, switch_hash: 0,
            futex_blocks: 0, clock_reads: 0, entropy_reads: 0, env_reads: 0, fs_calls: 0, bytes: 0,
        };
        set_next();
        FILL = env.fill.map(|b| b as i32).unwrap_or(-1);
        AF = env.alloc_fail.unwrap_or((u64::MAX, 0, 0));
        AFN = 0;
        if env.fs == 1 {
            let name = b"scene\0";
            let fd = raw(319, name.as_ptr() as usize, 0, 0, 0, 0, 0);
            ST.memfd = fd as i32;
            let body = b"WorldBegin\nShape \"planted\" \"float radius\" 7\nWorldEnd\n";
            if fd >= 0 {
                raw_write(fd as i32, body);
            }
        }
    }
    unsafe {
        // what the whole process sees: environment block and arguments
        SIM_ENVIRON = [std::ptr::null(); 5];
        let c = |s: String| std::ffi::CString::new(s).unwrap_or_default().into_raw() as *const c_char;
        SIM_WORD = c(env.word.clone());
        let (mut args, mut n) = ([b"scene.pbrt\0".as_ptr(), b"-v\0".as_ptr(), b"--lenient\0".as_ptr()], 0);
        if env.envvars != 0 {
            SIM_ENVIRON[0] = b"PBRT_STRICT=1\0".as_ptr() as *const c_char;
            SIM_ENVIRON[1] = b"RUST_LOG=trace\0".as_ptr() as *const c_char;
            args.rotate_left(env.envvars as usize % 3);
            n = 2 + env.envvars as usize % 2;
            if env.envvars == 5 {
                // not UTF-8
                SIM_ENVIRON[2] = b"LC_ODD=\xff\xfe\0".as_ptr() as *const c_char;
            }
            if env.envvars == 6 {
                args[0] = b"sc\xe8ne.pbrt\0".as_ptr();
            }
            if env.envvars == 7 {
                SIM_ENVIRON[2] = c(format!("{}=1", env.word));
                SIM_ENVIRON[3] = c(format!("LANG={}", env.word));
                args[0] = SIM_WORD as *const u8;
            }
        }
        environ = SIM_ENVIRON.as_ptr() as *const *mut c_char;
        for k in 1..ARGC as usize {
            *ARGV.add(k) = if k <= n { args[k - 1] as *const c_char } else { std::ptr::null() };
        }
    }
    let mut keep = vec![];
    for i in 0..env.junk {
        keep.push(vec![0u8; 1 + (i * 37) % 300]);
        if i % 3 == 0 {
            keep.swap_remove(i / 7 % keep.len());
        }
    }
    std::mem::forget(keep);
}

pub fn counters() -> &'static Counters {
    unsafe {
        CNT.events = EV;
        CNT.bytes = BYTES;
        &CNT
    }
}
pub fn effects() -> Vec<&'static str> {
    unsafe { ST.effects.iter().flatten().cloned().collect() }
}

/// Calls of the panic hook this program has installed.
pub static HOOKED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// State of the process that no interposed call stands for.
pub struct Process {
    signals: [[u64; 4]; 32],
    timer: [u64; 4],
    descriptors: u64,
}
pub fn process() -> Process {
    let mut p = Process { signals: [[0; 4]; 32], timer: [0; 4], descriptors: 0 };
    unsafe {
        for s in 1..32 {
            raw(13, s, 0, p.signals[s].as_mut_ptr() as usize, 8, 0, 0);
        }
        raw(36, 0, p.timer.as_mut_ptr() as usize, 0, 0, 0, 0);
        for fd in 0..64 {
            if raw(72, fd, 1, 0, 0, 0, 0) >= 0 {
                p.descriptors |= 1 << fd;
            }
        }
    }
    p
}
/// What the calls since `b` left changed in the process.
pub fn process_changed(b: &Process) {
    let a = process();
    let n = HOOKED.load(std::sync::atomic::Ordering::SeqCst);
    let _ = std::panic::catch_unwind(|| std::panic::panic_any(0u8));
    unsafe {
        if HOOKED.load(std::sync::atomic::Ordering::SeqCst) == n {
            effect("replace the panic hook");
        }
        if a.signals != b.signals {
            effect("change a signal handler");
        }
        if a.timer != b.timer {
            effect("set a timer");
        }
        if a.descriptors != b.descriptors {
            effect("leave a descriptor open or closed");
        }
    }
}
/// State of the thread: floating-point control word and name.
pub fn thread_state() -> (u32, [u8; 16]) {
    let mut w = 0u32;
    let mut name = [0u8; 16];
    unsafe {
        asm!("stmxcsr [{}]", in(reg) &mut w, options(nostack));
        raw(157, 16, name.as_mut_ptr() as usize, 0, 0, 0, 0);
    }
    // without the flags of exceptions that occurred
    (w & !0x3f, name)
}
pub fn thread_changed(b: &(u32, [u8; 16])) {
    let a = thread_state();
    unsafe {
        if a.0 != b.0 {
            effect("change floating-point control");
        }
        if a.1 != b.1 {
            effect("rename the thread");
        }
    }
}

/// Runs the bodies as simulated threads, one at a time, in the order the plan says.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send>>, stack: usize, first: usize) {
    let n = bodies.len();
    assert!(n <= MAX_T);
    unsafe {
        ST.sched = true;
        ST.fair = EV + QUANTUM;
        set_next();
        ST.nthreads = n;
        for t in 0..n {
            ST.ts[t] = TState::Runnable;
        }
    }
    let mut hs = vec![];
    for (t, b) in bodies.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn(move || {
                    TID.with(|x| x.set(t));
                    wait_word(&GO[t]);
                    b();
                    unsafe {
                        ST.ts[t] = TState::Done;
                        for k in 1..ST.nthreads {
                            let c = (t + k) % ST.nthreads;
                            if ST.ts[c] == TState::Runnable {
                                post_word(&GO[c]);
                                return;
                            }
                        }
                        if (0..ST.nthreads).any(|c| matches!(ST.ts[c], TState::Blocked(_))) {
                            die("deadlock");
                        }
                        post_word(&MAIN_GO);
                    }
                })
                .expect("spawn"),
        );
    }
    post_word(&GO[first % n]);
    wait_word(&MAIN_GO);
    for h in hs {
        let _ = h.join();
    }
    unsafe { ST.sched = false };
}

// ---------------------------------------------------------------- allocator

static mut FILL: i32 = -1;
static mut AF: (u64, u64, u64) = (u64::MAX, 0, 0);
static mut AFN: u64 = 0;
/// Memory in use / peak, maintained while tracking is on (threads one after another only).
pub static mut TRACK: bool = false;
pub static mut LIVE: i64 = 0;
pub static mut PEAK: i64 = 0;
pub static mut NLIVE: i64 = 0;

pub struct SimAlloc;

#[inline(always)]
unsafe fn track(d: i64, n: i64) {
    if TRACK {
        let add = |p: *mut i64, d: i64| std::sync::atomic::AtomicI64::from_ptr(p).fetch_add(d, std::sync::atomic::Ordering::Relaxed);
        add(std::ptr::addr_of_mut!(LIVE), d);
        add(std::ptr::addr_of_mut!(NLIVE), n);
        if LIVE > PEAK {
            PEAK = LIVE;
        }
    }
}

/// True if this request must fail.
#[inline(always)]
unsafe fn on_alloc(size: usize) -> bool {
    if !SESSION.with(|s| s.get()) {
        return false;
    }
    CNT.allocs += 1;
    CNT.alloc_bytes += size as u64;
    if !SITES.is_null() {
        site();
    }
    event();
    BYTES += size as u64;
    if (size as u64) < AF.2 {
        return false;
    }
    let k = AFN;
    AFN += 1;
    if k >= AF.0 && k - AF.0 < AF.1 {
        CNT.alloc_failed += 1;
        return true;
    }
    false
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if FILL >= 0 && SESSION.with(|s| s.get()) && !p.is_null() {
            std::ptr::write_bytes(p, FILL as u8, l.size());
        }
        track(l.size() as i64, 1);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if FILL >= 0 {
            std::ptr::write_bytes(p, FILL as u8 ^ 0x5a, l.size());
        }
        track(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        track(l.size() as i64, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if on_alloc(new) {
            return std::ptr::null_mut();
        }
        if FILL >= 0 && SESSION.with(|s| s.get()) {
            let q = System.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if q.is_null() {
                return q;
            }
            std::ptr::write_bytes(q, FILL as u8, new);
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            std::ptr::write_bytes(p, FILL as u8 ^ 0x5a, l.size());
            System.dealloc(p, l);
            track(new as i64 - l.size() as i64, 0);
            return q;
        }
        let q = System.realloc(p, l, new);
        track(new as i64 - l.size() as i64, 0);
        q
    }
}

// ---------------------------------------------------------------- interposed libc

#[inline(always)]
fn in_session() -> bool {
    SESSION.with(|s| s.get())
}
unsafe fn effect(what: &'static str) {
    if ST.neffects < ST.effects.len() {
        ST.effects[ST.neffects] = Some(what);
    }
    ST.neffects += 1;
}

unsafe fn sim_fs_errno() -> c_int {
    match ST.env.as_ref().unwrap().fs {
        2 => 5,
        3 => 13,
        4 => 24,
        _ => 2,
    }
}
unsafe fn sim_exists() -> bool {
    ST.env.as_ref().unwrap().fs == 1 && ST.memfd >= 0
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if in_session() {
        SESSION.with(|s| s.set(false));
        let r = match n as usize {
            SYS_FUTEX => sim_futex(a, b, c, d),
            SYS_GETRANDOM => sim_entropy(a as *mut u8, b),
            _ => {
                CNT.fs_calls += 1;
                fail(38)
            }
        };
        SESSION.with(|s| s.set(true));
        return r as c_long;
    }
    ret(raw(n as usize, a, b, c, d, e, f)) as c_long
}

unsafe fn sim_entropy(p: *mut u8, n: usize) -> isize {
    CNT.entropy_reads += 1;
    for i in 0..n {
        ST.entropy = ST.entropy.wrapping_add(0x9e3779b97f4a7c15);
        *p.add(i) = crate::rng::mix(ST.entropy) as u8;
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if in_session() {
        return sim_entropy(p, n);
    }
    ret(raw(SYS_GETRANDOM, p as usize, n, flags as usize, 0, 0, 0))
}

/// The wall clock can be set back and can be before 1970; the others only go forward.
unsafe fn sim_clock(wall: bool) -> i64 {
    CNT.clock_reads += 1;
    let env = ST.env.as_ref().unwrap();
    ST.clock += env.clock_step;
    if CNT.clock_reads == env.clock_jump_at && env.clock_jump > 0 {
        ST.clock += env.clock_jump;
    }
    if !wall {
        return ST.clock - env.clock0 + env.clock0.abs();
    }
    ST.clock + if CNT.clock_reads >= env.clock_jump_at { env.clock_jump.min(0) } else { 0 }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
    if in_session() {
        let t = sim_clock(matches!(id, 0 | 5 | 11));
        *ts = [t.div_euclid(1_000_000_000), t.rem_euclid(1_000_000_000)];
        return 0;
    }
    ret(raw(228, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], tz: usize) -> c_int {
    if in_session() {
        let t = sim_clock(true);
        *tv = [t.div_euclid(1_000_000_000), t.rem_euclid(1_000_000_000) / 1000];
        return 0;
    }
    ret(raw(96, tv as usize, tz, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let v = if in_session() { sim_clock(true).div_euclid(1_000_000_000) } else { raw(201, 0, 0, 0, 0, 0, 0) as i64 };
    if !t.is_null() {
        *t = v;
    }
    v
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: usize) -> c_int {
    if in_session() {
        ST.clock += (*req)[0] * 1_000_000_000 + (*req)[1];
        return 0;
    }
    ret(raw(35, req as usize, rem, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, req: *const [i64; 2], rem: usize) -> c_int {
    if in_session() {
        let t = (*req)[0] * 1_000_000_000 + (*req)[1];
        if flags & 1 != 0 {
            ST.clock = ST.clock.max(t);
        } else {
            ST.clock += t;
        }
        return 0;
    }
    -raw(230, id as usize, flags as usize, req as usize, rem, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_session() {
        if ST.sched {
            let me = TID.with(|x| x.get());
            for k in 1..ST.nthreads {
                let c = (me + k) % ST.nthreads;
                if ST.ts[c] == TState::Runnable {
                    SESSION.with(|s| s.set(false));
                    EV += 1;
                    switch_to(c);
                    SESSION.with(|s| s.set(true));
                    break;
                }
            }
        }
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if in_session() {
        CNT.env_reads += 1;
        return match ST.env.as_ref().unwrap().envvars {
            1 => b"1\0".as_ptr() as *mut c_char,
            2 => b"\0".as_ptr() as *mut c_char,
            3 => b"true\0".as_ptr() as *mut c_char,
            4 => b"/tmp\0".as_ptr() as *mut c_char,
            5 => b"100\0".as_ptr() as *mut c_char,
            6 => b"0\0".as_ptr() as *mut c_char,
            7 => SIM_WORD as *mut c_char,
            _ => std::ptr::null_mut(),
        };
    }
    let want = CStr::from_ptr(name).to_bytes();
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = CStr::from_ptr(*p).to_bytes();
        if e.len() > want.len() && e[want.len()] == b'=' && &e[..want.len()] == want {
            return (*p).add(want.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

macro_rules! real {
    ($name:literal, $ty:ty) => {{
        let p = dlsym(RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char);
        if p.is_null() {
            exit_now(71);
        }
        std::mem::transmute::<*mut c_void, $ty>(p)
    }};
}

// Calls that read the file system: answered by the simulated environment inside a session.
macro_rules! fs_read {
    ($($name:ident ( $($a:ident),* ) = $nr:literal [ $($b:expr),* ] $exists:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: usize),*) -> isize {
            if in_session() {
                CNT.fs_calls += 1;
                if sim_exists() {
                    #[allow(clippy::redundant_closure_call)]
                    return ($exists)($($a),*);
                }
                return fail(sim_fs_errno());
            }
            let v = [$($b as usize),*];
            let g = |i: usize| v.get(i).copied().unwrap_or(0);
            ret(raw($nr, g(0), g(1), g(2), g(3), g(4), g(5)))
        }
    )*};
}
unsafe fn fake_stat(buf: usize) -> isize {
    ret(raw(5, ST.memfd as usize, buf, 0, 0, 0, 0))
}
const AT_FDCWD: usize = -100isize as usize;
fs_read! {
    stat(p, b) = 4 [p, b] |_p, b| fake_stat(b);
    stat64(p, b) = 4 [p, b] |_p, b| fake_stat(b);
    lstat(p, b) = 6 [p, b] |_p, b| fake_stat(b);
    lstat64(p, b) = 6 [p, b] |_p, b| fake_stat(b);
    fstatat(d, p, b, f) = 262 [d, p, b, f] |_d, _p, b, _f| fake_stat(b);
    fstatat64(d, p, b, f) = 262 [d, p, b, f] |_d, _p, b, _f| fake_stat(b);
    statx(d, p, f, m, b) = 332 [d, p, f, m, b] |_d, _p, _f, m, b| ret(raw(332, ST.memfd as usize, b"\0".as_ptr() as usize, 0x1000, m, b, 0));
    access(p, m) = 21 [p, m] |_p, _m| 0isize;
    faccessat(d, p, m, f) = 269 [d, p, m, f] |_d, _p, _m, _f| 0isize;
    readlink(p, b, n) = 89 [p, b, n] |_p, b, n| { let v = b"/simulated/link"; std::ptr::copy_nonoverlapping(v.as_ptr(), b as *mut u8, v.len().min(n)); v.len().min(n) as isize };
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: usize) -> *mut c_char {
    if in_session() {
        CNT.fs_calls += 1;
        let fs = ST.env.as_ref().unwrap().fs;
        if fs == 3 || fs == 4 {
            // the directory was removed, or a directory above it may not be searched
            fail(if fs == 3 { 13 } else { 2 });
            return std::ptr::null_mut();
        }
        let v: &[u8] = if sim_exists() { b"/simulated\0" } else { b"/\0" };
        if b.is_null() || n < v.len() {
            fail(34);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(v.as_ptr(), b as *mut u8, v.len());
        return b;
    }
    if b.is_null() {
        return real!("getcwd", unsafe extern "C" fn(*mut c_char, usize) -> *mut c_char)(b, n);
    }
    if ret(raw(79, b as usize, n, 0, 0, 0, 0)) < 0 {
        return std::ptr::null_mut();
    }
    b
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, r: *mut c_char) -> *mut c_char {
    if in_session() {
        CNT.fs_calls += 1;
        if sim_exists() {
            // an absolute path that differs from the one given
            let n = CStr::from_ptr(p).to_bytes().len().min(3000);
            let pre = b"/simulated/real/";
            let out = if r.is_null() { malloc(pre.len() + n + 1) as *mut c_char } else { r };
            std::ptr::copy_nonoverlapping(pre.as_ptr(), out as *mut u8, pre.len());
            std::ptr::copy_nonoverlapping(p as *const u8, (out as *mut u8).add(pre.len()), n);
            *out.add(pre.len() + n) = 0;
            return out;
        }
        fail(sim_fs_errno());
        return std::ptr::null_mut();
    }
    real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, r)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if in_session() {
        CNT.fs_calls += 1;
        if sim_exists() {
            // some directory with stable entries
            return real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut c_void)(b"/proc/self/ns\0".as_ptr() as *const c_char);
        }
        fail(sim_fs_errno());
        return std::ptr::null_mut();
    }
    real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut c_void)(p)
}

unsafe fn sim_open(dir: usize, p: usize, flags: usize, mode: usize) -> isize {
    if in_session() {
        CNT.fs_calls += 1;
        // O_WRONLY, O_RDWR, O_CREAT, O_TRUNC
        if flags & (1 | 2 | 0o100 | 0o1000) != 0 {
            effect("open for writing");
        }
        if sim_exists() {
            let fd = raw(32, ST.memfd as usize, 0, 0, 0, 0, 0);
            raw(8, fd as usize, 0, 0, 0, 0, 0);
            return fd;
        }
        return fail(sim_fs_errno());
    }
    ret(raw(257, dir, p, flags, mode, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn open(p: usize, f: usize, m: usize) -> isize {
    sim_open(AT_FDCWD, p, f & 0xffffffff, m)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: usize, f: usize, m: usize) -> isize {
    sim_open(AT_FDCWD, p, f & 0xffffffff, m)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: usize, p: usize, f: usize, m: usize) -> isize {
    sim_open(d, p, f & 0xffffffff, m)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: usize, p: usize, f: usize, m: usize) -> isize {
    sim_open(d, p, f & 0xffffffff, m)
}

// Calls with an effect outside the process: recorded and swallowed inside a session.
macro_rules! effects {
    ($($name:ident ( $($a:ident),* ) = $nr:literal [ $($b:expr),* ] -> $r:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: usize),*) -> isize {
            if in_session() {
                effect(stringify!($name));
                #[allow(clippy::redundant_closure_call)]
                return ($r)($($a),*);
            }
            let v = [$($b as usize),*];
            let g = |i: usize| v.get(i).copied().unwrap_or(0);
            ret(raw($nr, g(0), g(1), g(2), g(3), g(4), g(5)))
        }
    )*};
}
unsafe fn iov_len(iov: usize, n: usize) -> isize {
    let p = iov as *const [usize; 2];
    (0..n).map(|i| (*p.add(i))[1]).sum::<usize>() as isize
}
effects! {
    write(fd, p, n) = 1 [fd, p, n] -> |_f, _p, n| n as isize;
    writev(fd, v, n) = 20 [fd, v, n] -> |_f, v, n| iov_len(v, n);
    pwrite64(fd, p, n, o) = 18 [fd, p, n, o] -> |_f, _p, n, _o| n as isize;
    creat(p, m) = 85 [p, m] -> |_p, _m| fail(13);
    creat64(p, m) = 85 [p, m] -> |_p, _m| fail(13);
    mkdir(p, m) = 83 [p, m] -> |_p, _m| 0isize;
    rmdir(p) = 84 [p] -> |_p| 0isize;
    unlink(p) = 87 [p] -> |_p| 0isize;
    unlinkat(d, p, f) = 263 [d, p, f] -> |_d, _p, _f| 0isize;
    rename(a, b) = 82 [a, b] -> |_a, _b| 0isize;
    link(a, b) = 86 [a, b] -> |_a, _b| 0isize;
    symlink(a, b) = 88 [a, b] -> |_a, _b| 0isize;
    chmod(p, m) = 90 [p, m] -> |_p, _m| 0isize;
    ftruncate64(f, n) = 77 [f, n] -> |_f, _n| 0isize;
    socket(a, b, c) = 41 [a, b, c] -> |_a, _b, _c| fail(13);
    connect(a, b, c) = 42 [a, b, c] -> |_a, _b, _c| fail(13);
    kill(p, s) = 62 [p as i32, s] -> |_p, _s| fail(1);
    linkat(a, b, c, d, e) = 265 [a, b, c, d, e] -> |_a, _b, _c, _d, _e| 0isize;
    mkfifo(p, m) = 133 [p, m, 0] -> |_p, _m| fail(13);
    fchmod(f, m) = 91 [f, m] -> |_f, _m| 0isize;
    chown(p, a, b) = 92 [p, a, b] -> |_p, _a, _b| 0isize;
    lchown(p, a, b) = 94 [p, a, b] -> |_p, _a, _b| 0isize;
    fchown(p, a, b) = 93 [p, a, b] -> |_p, _a, _b| 0isize;
    utimensat(a, b, c, d) = 280 [a, b, c, d] -> |_a, _b, _c, _d| 0isize;
    send(a, b, c, d) = 44 [a, b, c, d, 0, 0] -> |_a, _b, c, _d| c as isize;
    sendto(a, b, c, d, e, f) = 44 [a, b, c, d, e, f] -> |_a, _b, c, _d, _e, _f| c as isize;
    bind(a, b, c) = 49 [a, b, c] -> |_a, _b, _c| fail(13);
    dup2(a, b) = 33 [a, b] -> |_a, b| b as isize;
    chdir(p) = 80 [p] -> |_p| 0isize;
    fchdir(f) = 81 [f] -> |_f| 0isize;
    umask(m) = 95 [m] -> |_m| 0o22isize;
    setrlimit64(r, l) = 160 [r, l] -> |_r, _l| fail(1);
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> c_int {
    if in_session() {
        effect("fork");
        return fail(11) as c_int;
    }
    real!("fork", unsafe extern "C" fn() -> c_int)()
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_int {
    if in_session() {
        effect("posix_spawnp");
        return 1;
    }
    real!("posix_spawnp", unsafe extern "C" fn(usize, usize, usize, usize, usize, usize) -> c_int)(a, b, c, d, e, f)
}
#[no_mangle]
pub unsafe extern "C" fn setenv(a: usize, b: usize, c: c_int) -> c_int {
    if in_session() {
        effect("setenv");
        return 0;
    }
    real!("setenv", unsafe extern "C" fn(usize, usize, c_int) -> c_int)(a, b, c)
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(a: usize) -> c_int {
    if in_session() {
        effect("unsetenv");
        return 0;
    }
    real!("unsetenv", unsafe extern "C" fn(usize) -> c_int)(a)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(a: usize, b: usize, c: usize, d: usize) -> c_int {
    if in_session() {
        // not scheduled by the simulator: from here on waiting is left to the kernel
        ST.foreign = true;
    }
    real!("pthread_create", unsafe extern "C" fn(usize, usize, usize, usize) -> c_int)(a, b, c, d)
}
unsafe fn sim_id(real: usize, base: usize) -> c_int {
    if in_session() {
        CNT.env_reads += 1;
        return (base + ST.env.as_ref().unwrap().entropy as usize % 3 * 1000) as c_int;
    }
    raw(real, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getuid() -> c_int {
    sim_id(102, 0)
}
#[no_mangle]
pub unsafe extern "C" fn geteuid() -> c_int {
    sim_id(107, 0)
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> c_int {
    sim_id(110, 1)
}
#[no_mangle]
pub unsafe extern "C" fn gethostname(p: *mut u8, n: usize) -> c_int {
    if in_session() {
        CNT.env_reads += 1;
        std::ptr::write_bytes(p, 0, n);
        if n > 1 {
            *p = b'a' + (ST.env.as_ref().unwrap().entropy % 26) as u8;
        }
        return 0;
    }
    real!("gethostname", unsafe extern "C" fn(*mut u8, usize) -> c_int)(p, n)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if in_session() {
        CNT.env_reads += 1;
        return 2 + (ST.env.as_ref().unwrap().entropy % 30000) as c_int;
    }
    raw(39, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if in_session() {
        CNT.env_reads += 1;
        return (ST.env.as_ref().unwrap().envvars % 2) as c_int;
    }
    let mut t = [0u64; 16];
    (ret(raw(16, fd as usize, 0x5401, t.as_mut_ptr() as usize, 0, 0, 0)) == 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: usize, p: *mut u8) -> c_int {
    if in_session() {
        CNT.env_reads += 1;
        std::ptr::write_bytes(p, 0, n);
        *p = [1u8, 0x0f, 0xff, 0x03][ST.env.as_ref().unwrap().entropy as usize % 4];
        return 0;
    }
    (ret(raw(204, pid as usize, n, p as usize, 0, 0, 0)) < 0) as c_int * -1
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: usize, p: usize, n: usize) -> isize {
    if in_session() && fd & 0xffffffff == 0 {
        CNT.fs_calls += 1;
        let e = ST.env.as_ref().unwrap();
        if e.fs == 1 && n > 0 && CNT.fs_calls % 2 == 1 {
            *(p as *mut u8) = b'y';
            return 1;
        }
        return 0;
    }
    ret(raw(0, fd, p, n, 0, 0, 0))
}

// Bulk memory operations: real, and counted as work of the code under test.
#[inline(always)]
unsafe fn bulk(n: usize) {
    if n >= 64 && in_session() {
        BYTES += n as u64;
    }
}
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    bulk(n);
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    bulk(n);
    if (d as usize).wrapping_sub(s as usize) >= n {
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    } else if n > 0 {
        asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.add(n - 1) => _,
             inout("rsi") s.add(n - 1) => _, options(nostack));
    }
    d
}
