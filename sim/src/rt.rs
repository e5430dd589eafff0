//! The simulator's runtime: everything nondeterministic that yamd's code can touch inside this
//! process goes through here.
//!
//! * thread scheduling: yamd is compiled with a callback at every basic block, load and store;
//!   real threads run one at a time and change only where the schedule says so;
//! * blocking (futex), sleeping and yielding;
//! * the allocator (address layout, failures, exact accounting);
//! * clocks, entropy (hash seeds) and environment variables.
#![allow(static_mut_refs)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub const MAIN: i32 = 100;
const NONE: i32 = -1;

thread_local! {
    /// who is executing: NONE = harness, 0.. = simulated task, MAIN = yamd called from the main thread
    static CUR: Cell<i32> = const { Cell::new(NONE) };
}

#[inline]
pub fn cur() -> i32 {
    CUR.try_with(|c| c.get()).unwrap_or(NONE)
}
#[inline]
pub fn set_cur(v: i32) -> i32 {
    CUR.try_with(|c| c.replace(v)).unwrap_or(NONE)
}

/// Runs harness code inside a task: no preemption, no simulated faults.
#[inline]
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    struct G(i32);
    impl Drop for G {
        fn drop(&mut self) {
            set_cur(self.0);
        }
    }
    let _g = G(set_cur(NONE));
    f()
}

/// Runs yamd code on the main thread of a run (no scheduler), under the simulator's seams.
#[inline]
pub fn as_main<R>(f: impl FnOnce() -> R) -> R {
    struct G(i32);
    impl Drop for G {
        fn drop(&mut self) {
            set_cur(self.0);
        }
    }
    let c = cur();
    let _g = G(set_cur(if c == NONE { MAIN } else { c }));
    f()
}

thread_local! {
    /// how often the panic hook of the process ran on this thread
    pub static HOOKED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

// ---------------------------------------------------------------- raw system calls

#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

unsafe fn ret_errno(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

fn raw_futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        raw6(libc::SYS_futex, a as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, v as i64, 0, 0, 0);
    }
}
fn raw_futex_wake(a: &AtomicU32) {
    unsafe {
        raw6(libc::SYS_futex, a as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
    }
}

// ---------------------------------------------------------------- ending a run at once

pub static mut RESULT_FD: i32 = -1;

/// Ends the run with a violation found inside the runtime.
pub fn die(class: &str, msg: &str) -> ! {
    unsafe {
        let mut buf = [0u8; 1024];
        let mut n = 0;
        for part in ["!", class, "\n", msg] {
            for b in part.bytes() {
                if n < buf.len() {
                    buf[n] = b;
                    n += 1;
                }
            }
        }
        raw6(libc::SYS_write, RESULT_FD as i64, buf.as_ptr() as i64, n as i64, 0, 0, 0);
        raw6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
        core::hint::unreachable_unchecked()
    }
}

// ---------------------------------------------------------------- scheduler

pub const MAXT: usize = 8;
const CTRL: usize = MAXT;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ready,
    Blocked,
    Stalled,
    Done,
}

pub struct Sched {
    pub active: bool,
    pub n: usize,
    pub st: [St; MAXT],
    pub addr: [usize; MAXT],
    pub deadline: [u64; MAXT],
    pub timed_out: [bool; MAXT],
    pub stall_at: [u64; MAXT],
    pub was_stalled: [bool; MAXT],
    pub tsteps: [u64; MAXT],
    pub steps: u64,
    pub since_switch: u64,
    pub budget: u64,
    /// steps the tasks that are not stalled may take while others are stalled
    pub others_budget: u64,
    pub sw: Vec<(u64, u8)>,
    pub sw_next: usize,
    /// switches at the n-th access to a writable static
    /// (access, to whom, how many steps after the access)
    pub ssw: Vec<(u64, u8, u8)>,
    pub ssw_next: usize,
    /// a switch that is due at this step
    pub ssw_due: (u64, u8),
    pub static_accesses: u64,
    /// (caller, its step) of the first accesses
    pub static_at: Vec<(u8, u64)>,
    pub rr: usize,
    // measures
    pub trace: u64,
    pub switches: u64,
    pub forced: u64,
    pub blocks: u64,
    pub stalls: u64,
    pub wakes: u64,
}

static mut S: Sched = Sched {
    active: false,
    n: 0,
    st: [St::Done; MAXT],
    addr: [0; MAXT],
    deadline: [0; MAXT],
    timed_out: [false; MAXT],
    stall_at: [0; MAXT],
    was_stalled: [false; MAXT],
    tsteps: [0; MAXT],
    steps: 0,
    since_switch: 0,
    budget: u64::MAX,
    others_budget: u64::MAX,
    sw: Vec::new(),
    sw_next: 0,
    ssw: Vec::new(),
    ssw_next: 0,
    ssw_due: (u64::MAX, 0),
    static_accesses: 0,
    static_at: Vec::new(),
    rr: 0,
    trace: 0,
    switches: 0,
    forced: 0,
    blocks: 0,
    stalls: 0,
    wakes: 0,
};

static GO: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];

fn park(i: usize) {
    while GO[i].load(Ordering::Acquire) == 0 {
        raw_futex_wait(&GO[i], 0);
    }
    GO[i].store(0, Ordering::Release);
}
fn grant(i: usize) {
    GO[i].store(1, Ordering::Release);
    raw_futex_wake(&GO[i]);
}

pub fn sched() -> &'static mut Sched {
    unsafe { &mut *std::ptr::addr_of_mut!(S) }
}

impl Sched {
    fn hash(&mut self, a: u64) {
        let mut x = self.trace ^ a;
        self.trace = crate::rng::splitmix(&mut x);
    }
    fn ready_except(&self, me: usize, pick: usize) -> Option<usize> {
        let c = (0..self.n).filter(|&i| i != me && self.st[i] == St::Ready).count();
        if c == 0 {
            return None;
        }
        (0..self.n).filter(|&i| i != me && self.st[i] == St::Ready).nth(pick % c)
    }
    /// the next task when the current one cannot continue; decides wake-ups by time-out and the
    /// release of stalled tasks
    fn next_task(&mut self, me: usize) -> Option<usize> {
        for d in 1..=self.n {
            let i = (me + d) % self.n;
            if self.st[i] == St::Ready {
                return Some(i);
            }
        }
        // nobody can run: let time pass until the first deadline
        let dl = (0..self.n).filter(|&i| self.st[i] == St::Blocked && self.deadline[i] != u64::MAX).min_by_key(|&i| self.deadline[i]);
        if let Some(i) = dl {
            unsafe {
                if NOW < self.deadline[i] {
                    NOW = self.deadline[i];
                }
            }
            self.timed_out[i] = true;
            self.st[i] = St::Ready;
            return Some(i);
        }
        let blocked = (0..self.n).any(|i| self.st[i] == St::Blocked);
        let stalled = (0..self.n).any(|i| self.st[i] == St::Stalled);
        if blocked && stalled {
            die("waits-for-stalled", "a caller waits for a caller that is stalled inside its call");
        }
        if blocked {
            die("deadlock", "all callers wait for each other");
        }
        for i in 0..self.n {
            if self.st[i] == St::Stalled {
                self.st[i] = St::Ready;
                // the bound on the others no longer applies
                self.budget = self.steps + 400_000_000;
                return Some(i);
            }
        }
        None
    }
    fn switch_to(&mut self, me: usize, to: usize) {
        self.switches += 1;
        self.since_switch = 0;
        let k = ((me as u64) << 56) ^ ((to as u64) << 48) ^ self.tsteps[me];
        self.hash(k);
        grant(to);
        park(me);
    }
    #[cold]
    fn yield_now(&mut self, me: usize, pick: usize) {
        if let Some(t) = self.ready_except(me, pick) {
            self.switch_to(me, t);
        }
    }
    #[inline]
    fn step(&mut self, me: usize) {
        self.steps += 1;
        self.tsteps[me] += 1;
        self.since_switch += 1;
        if self.steps > self.budget {
            die("no-progress", "the step budget of the run is used up");
        }
        if self.tsteps[me] == self.stall_at[me] {
            self.stall(me);
        } else if self.sw_next < self.sw.len() && self.sw[self.sw_next].0 <= self.steps {
            let p = self.sw[self.sw_next].1;
            self.sw_next += 1;
            self.yield_now(me, p as usize);
        } else if self.steps >= self.ssw_due.0 {
            let p = self.ssw_due.1;
            self.ssw_due = (u64::MAX, 0);
            self.yield_now(me, p as usize);
        } else if self.since_switch > 1_000_000 {
            self.forced += 1;
            self.since_switch = 0;
            self.rr += 1;
            let p = self.rr;
            self.yield_now(me, p);
        }
    }
    #[cold]
    fn stall(&mut self, me: usize) {
        // a task may only stall while another one can go on
        if self.ready_except(me, 0).is_none() {
            return;
        }
        self.st[me] = St::Stalled;
        self.was_stalled[me] = true;
        self.stalls += 1;
        let first = self.stalls == 1;
        if first && self.others_budget != u64::MAX {
            self.budget = self.steps + self.others_budget;
        }
        if let Some(t) = self.next_task(me) {
            if t != me {
                self.switch_to(me, t);
            }
        }
    }
}

/// A yield point of harness-controlled code (sinks, readers, lexer slots) inside a task.
pub fn point() {
    let c = cur();
    if c >= 0 && c < MAXT as i32 && sched().active {
        sched().step(c as usize);
    }
}

/// Runs the given task bodies on real threads, one at a time, in the order the schedule says.
pub fn run_tasks(bodies: Vec<Box<dyn FnOnce() + Send>>, sw: Vec<(u64, u8)>, ssw: Vec<(u64, u8, u8)>, stalls: &[(u8, u64)], budget: u64, others_budget: u64, first: usize) {
    let n = bodies.len();
    assert!(n <= MAXT && n > 0);
    {
        let s = sched();
        *s = Sched {
            active: true,
            n,
            st: [St::Done; MAXT],
            addr: [0; MAXT],
            deadline: [u64::MAX; MAXT],
            timed_out: [false; MAXT],
            stall_at: [0; MAXT],
            was_stalled: [false; MAXT],
            tsteps: [0; MAXT],
            steps: 0,
            since_switch: 0,
            budget,
            others_budget,
            sw,
            sw_next: 0,
            ssw,
            ssw_next: 0,
            ssw_due: (u64::MAX, 0),
            static_accesses: 0,
            static_at: Vec::with_capacity(256),
            rr: 0,
            trace: s.trace,
            switches: s.switches,
            forced: s.forced,
            blocks: s.blocks,
            stalls: 0,
            wakes: s.wakes,
        };
        s.sw.sort();
        s.ssw.sort();
        for i in 0..n {
            s.st[i] = St::Ready;
        }
        for &(t, at) in stalls {
            if (t as usize) < n {
                s.stall_at[t as usize] = at.max(1);
            }
        }
    }
    let mut handles: Vec<Option<std::thread::JoinHandle<()>>> = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                park(i);
                set_cur(i as i32);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                // thread-local destructors of yamd still run as this task, after this hand-over
                let s = sched();
                s.st[i] = St::Done;
                drop(r);
                s.active = false;
                grant(CTRL);
            })
            .expect("spawn");
        handles.push(Some(h));
    }
    let mut next = Some(first % n);
    let mut me = first % n;
    while let Some(t) = next {
        sched().active = true;
        grant(t);
        park(CTRL);
        // the task that just finished is the one whose handle is live and which is Done
        let s = sched();
        for i in 0..n {
            if s.st[i] == St::Done {
                if let Some(h) = handles[i].take() {
                    h.join().ok();
                    me = i;
                    let k = (0xD0 << 56) ^ ((i as u64) << 48) ^ s.tsteps[i];
                    s.hash(k);
                }
            }
        }
        s.active = true;
        next = s.next_task(me);
        s.active = false;
    }
    sched().active = false;
}

// ---------------------------------------------------------------- instrumentation callbacks

pub static mut NGUARDS: u32 = 0;
pub static mut COV: [u8; 1 << 16] = [0; 1 << 16];
/// total number of instrumented steps executed as MAIN
pub static mut MAIN_STEPS: u64 = 0;
pub static mut MAIN_BUDGET: u64 = u64::MAX;
/// lowest stack pointer seen while simulated code ran on the main thread
pub static mut SP_MIN: usize = usize::MAX;

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let c = cur();
    if c < 0 {
        return;
    }
    COV[(*guard as usize) & 0xffff] = 1;
    step(c);
}

#[inline]
unsafe fn step(c: i32) {
    if c == MAIN {
        let sp: usize;
        core::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags));
        if sp < SP_MIN {
            SP_MIN = sp;
        }
        MAIN_STEPS += 1;
        if MAIN_STEPS > MAIN_BUDGET {
            die("no-progress", "the step budget of the run is used up");
        }
    } else {
        let s = sched();
        if s.active {
            s.step(c as usize);
        }
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline]
unsafe fn mem(a: usize) {
    let c = cur();
    if c < 0 {
        return;
    }
    let lo = &raw const __data_start as usize;
    let hi = &raw const _end as usize;
    if a >= lo && a < hi {
        let s = sched();
        if s.active && c != MAIN {
            s.static_accesses += 1;
            if s.static_at.len() < s.static_at.capacity() {
                let k = s.tsteps[c as usize];
                s.static_at.push((c as u8, k));
            }
            if s.ssw_next < s.ssw.len() && s.ssw[s.ssw_next].0 <= s.static_accesses {
                let (_, p, d) = s.ssw[s.ssw_next];
                s.ssw_next += 1;
                if d == 0 {
                    s.yield_now(c as usize, p as usize);
                } else {
                    s.ssw_due = (s.steps + d as u64, p);
                }
            }
        }
    }
    step(c);
}

macro_rules! memcb {
    ($($n:ident),*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $n(a: *const u8) { mem(a as usize) }
    )*};
}
memcb!(
    __sanitizer_cov_load1,
    __sanitizer_cov_load2,
    __sanitizer_cov_load4,
    __sanitizer_cov_load8,
    __sanitizer_cov_load16,
    __sanitizer_cov_store1,
    __sanitizer_cov_store2,
    __sanitizer_cov_store4,
    __sanitizer_cov_store8,
    __sanitizer_cov_store16
);

// ---------------------------------------------------------------- clock, entropy, environment

pub static mut NOW: u64 = 1_700_000_000_000_000_000;
pub static mut CLOCK_STEP: u64 = 1000;
/// every `.0`-th reading of the clock jumps by `.1` nanoseconds (may be negative)
pub static mut CLOCK_JUMP: (u64, i64) = (0, 0);
pub static mut CLOCK_READS: u64 = 0;
pub static mut ENTROPY: u64 = 1;
pub static mut ENTROPY_READS: u64 = 0;
/// 0: the environment is empty, otherwise variables have values derived from this number
pub static mut ENV_SEED: u64 = 0;
pub static mut ENV_READS: u64 = 0;
pub static mut FUTEX_WAITS: u64 = 0;
pub static mut SLEEPS: u64 = 0;

unsafe fn fill(buf: *mut u8, len: usize) {
    ENTROPY_READS += 1;
    for i in 0..len {
        *buf.add(i) = crate::rng::splitmix(&mut ENTROPY) as u8;
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill(buf, len);
    len as isize
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if cur() < 0 {
        return ret_errno(raw6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as i32;
    }
    CLOCK_READS += 1;
    NOW = NOW.wrapping_add(CLOCK_STEP);
    if CLOCK_JUMP.0 != 0 && CLOCK_READS % CLOCK_JUMP.0 == 0 {
        // the monotonic clock only ever jumps forwards
        NOW = if id == libc::CLOCK_REALTIME { NOW.wrapping_add_signed(CLOCK_JUMP.1) } else { NOW.wrapping_add(CLOCK_JUMP.1.unsigned_abs()) };
    }
    (*ts).tv_sec = (NOW / 1_000_000_000) as i64;
    (*ts).tv_nsec = (NOW % 1_000_000_000) as i64;
    0
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    let c = cur();
    if c < 0 {
        return ret_errno(raw6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as i32;
    }
    sim_sleep(c, ((*req).tv_sec as u64) * 1_000_000_000 + (*req).tv_nsec as u64);
    0
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    let c = cur();
    if c < 0 {
        return -(raw6(libc::SYS_clock_nanosleep, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32);
    }
    let t = ((*req).tv_sec as u64) * 1_000_000_000 + (*req).tv_nsec as u64;
    sim_sleep(c, if flags & 1 != 0 { t.saturating_sub(NOW) } else { t });
    0
}

unsafe fn sim_sleep(c: i32, ns: u64) {
    SLEEPS += 1;
    let s = sched();
    if c == MAIN || !s.active {
        NOW = NOW.wrapping_add(ns);
        return;
    }
    let me = c as usize;
    s.st[me] = St::Blocked;
    s.addr[me] = 0;
    s.deadline[me] = NOW.wrapping_add(ns);
    if let Some(t) = s.next_task(me) {
        if t != me {
            s.switch_to(me, t);
        }
    }
    s.deadline[me] = u64::MAX;
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let c = cur();
    if c >= 0 && c != MAIN && sched().active {
        let s = sched();
        s.steps += 1;
        if s.steps > s.budget {
            die("no-progress", "the step budget of the run is used up");
        }
        s.yield_now(c as usize, 0);
    } else if c < 0 {
        raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
    0
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let len = libc::strlen(name);
    let name = std::slice::from_raw_parts(name as *const u8, len);
    if cur() >= 0 {
        ENV_READS += 1;
        if ENV_SEED == 0 {
            return std::ptr::null_mut();
        }
        static VALS: [&[u8]; 6] = [b"1\0", b"0\0", b"\0", b"true\0", b"full\0", b"yes please\0"];
        let h = crate::rng::hash_bytes(name) ^ ENV_SEED;
        let h = crate::rng::mix(&[h]);
        return VALS[(h % 6) as usize].as_ptr() as *mut _;
    }
    extern "C" {
        static environ: *const *mut libc::c_char;
    }
    if environ.is_null() {
        return std::ptr::null_mut();
    }
    let mut p = environ;
    while !(*p).is_null() {
        let e = *p as *const u8;
        if std::slice::from_raw_parts(e, libc::strnlen(e as *const _, len + 1)).get(..len) == Some(name) && *e.add(len) == b'=' {
            return e.add(len + 1) as *mut _;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

/// std's locks, parking and hash seeds reach the system through this function.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom {
        fill(a as *mut u8, b as usize);
        return b;
    }
    let me = cur();
    if n == libc::SYS_futex && me >= 0 && me != MAIN && sched().active {
        let me = me as usize;
        let s = sched();
        let op = (b as i32) & 0x7f;
        match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                FUTEX_WAITS += 1;
                let v = &*(a as *const AtomicU32);
                if v.load(Ordering::SeqCst) != c as u32 {
                    *libc::__errno_location() = libc::EAGAIN;
                    return -1;
                }
                s.blocks += 1;
                s.st[me] = St::Blocked;
                s.addr[me] = a as usize;
                s.timed_out[me] = false;
                s.deadline[me] = u64::MAX;
                if d != 0 {
                    let ts = &*(d as *const libc::timespec);
                    let t = (ts.tv_sec as u64).wrapping_mul(1_000_000_000).wrapping_add(ts.tv_nsec as u64);
                    s.deadline[me] = if op == libc::FUTEX_WAIT { NOW.wrapping_add(t) } else { t };
                }
                s.hash((0xB1 << 56) ^ me as u64);
                if let Some(t) = s.next_task(me) {
                    if t != me {
                        s.switch_to(me, t);
                    }
                }
                s.deadline[me] = u64::MAX;
                if s.timed_out[me] {
                    *libc::__errno_location() = libc::ETIMEDOUT;
                    return -1;
                }
                return 0;
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                let mut k = 0;
                for i in 0..s.n {
                    if k < c && s.st[i] == St::Blocked && s.addr[i] == a as usize && a != 0 {
                        s.st[i] = St::Ready;
                        s.addr[i] = 0;
                        k += 1;
                        s.wakes += 1;
                    }
                }
                return k;
            }
            _ => {}
        }
    }
    ret_errno(raw6(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- allocator

/// Allocations made while simulated code runs come from an arena at a fixed address with
/// last-in-first-out reuse; everything else goes to the system allocator.
pub struct Alloc;

const ABASE: usize = 0x5000_0000_0000;
const ASIZE: usize = 4 << 30;
const HDR: usize = 32;
const MAGIC: u32 = 0x51A1_10C8;
const FREED: u32 = 0xDEAD_F9EE;
const NCLS: usize = 128;

#[derive(Clone, Copy, Default, Debug)]
pub struct AStats {
    pub live_bytes: u64,
    pub live_blocks: u64,
    pub allocs: u64,
    pub frees: u64,
    pub peak: u64,
}

struct Arena {
    lock: AtomicBool,
    init: bool,
    top: usize,
    free: [usize; NCLS],
    st: AStats,
}

static mut A: Arena = Arena { lock: AtomicBool::new(false), init: false, top: ABASE, free: [0; NCLS], st: AStats { live_bytes: 0, live_blocks: 0, allocs: 0, frees: 0, peak: 0 } };

pub static mut ARMED: bool = false;
/// index (from 1) of the armed request that is refused; 0: none
pub static mut FAIL_AT: u64 = 0;
/// refuse only this one request, or it and every later one
pub static mut FAIL_ONCE: bool = true;
/// only requests of at least this size count
pub static mut FAIL_MIN: usize = 0;
pub static mut ARMED_REQ: u64 = 0;
pub static mut REFUSED: u64 = 0;
/// remembers the sizes of the armed requests, so that faults can be aimed
pub static mut REQ_LOG: [u32; 4096] = [0; 4096];
pub static mut REQ_LOGN: usize = 0;

pub fn astats() -> AStats {
    unsafe { A.st }
}

#[repr(C)]
struct Hdr {
    size: usize,
    align: u32,
    magic: u32,
    next: usize,
    cls: usize,
}

fn class_of(total: usize) -> (usize, usize) {
    if total <= 1024 {
        let c = total.div_ceil(16);
        (c, c * 16)
    } else {
        let p = total.next_power_of_two();
        (64 + p.trailing_zeros() as usize, p)
    }
}

unsafe fn lock() {
    while A.lock.swap(true, Ordering::Acquire) {
        raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
}
unsafe fn unlock() {
    A.lock.store(false, Ordering::Release);
}

unsafe fn refuse(size: usize) -> bool {
    if !ARMED || size < FAIL_MIN {
        return false;
    }
    ARMED_REQ += 1;
    if REQ_LOGN < REQ_LOG.len() {
        REQ_LOG[REQ_LOGN] = size.min(u32::MAX as usize) as u32;
        REQ_LOGN += 1;
    }
    let r = FAIL_AT != 0 && (ARMED_REQ == FAIL_AT || (!FAIL_ONCE && ARMED_REQ > FAIL_AT));
    if r {
        REFUSED += 1;
    }
    r
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if cur() < 0 || l.align() > 16 {
            return System.alloc(l);
        }
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        if l.size() > (1 << 31) {
            return std::ptr::null_mut();
        }
        lock();
        if !A.init {
            A.init = true;
            let r = raw6(libc::SYS_mmap, ABASE as i64, ASIZE as i64, 3, (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE) as i64, -1, 0);
            if r != ABASE as i64 {
                die("harness", "cannot map the simulated heap");
            }
        }
        let (cls, total) = class_of(l.size() + HDR);
        let p = if A.free[cls] != 0 {
            let p = A.free[cls];
            A.free[cls] = (*(p as *const Hdr)).next;
            p
        } else {
            let p = A.top;
            A.top += total;
            if A.top > ABASE + ASIZE {
                A.top -= total;
                unlock();
                return std::ptr::null_mut();
            }
            p
        };
        let h = &mut *(p as *mut Hdr);
        h.size = l.size();
        h.align = l.align() as u32;
        h.magic = MAGIC;
        h.next = 0;
        h.cls = cls;
        A.st.live_bytes += l.size() as u64;
        A.st.live_blocks += 1;
        A.st.allocs += 1;
        if A.st.live_bytes > A.st.peak {
            A.st.peak = A.st.live_bytes;
        }
        unlock();
        let u = (p + HDR) as *mut u8;
        std::ptr::write_bytes(u, 0xAA, l.size().min(4096));
        u
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if !(ABASE..ABASE + ASIZE).contains(&a) {
            return System.dealloc(p, l);
        }
        let h = &mut *((a - HDR) as *mut Hdr);
        if h.magic == FREED {
            die("double-free", "a block was released twice");
        }
        if h.magic != MAGIC {
            die("heap-corruption", "a block's header was overwritten or a foreign pointer was released");
        }
        if h.size != l.size() || h.align as usize != l.align() {
            die("layout-mismatch", "a block was released with another layout than it was requested with");
        }
        lock();
        h.magic = FREED;
        std::ptr::write_bytes(p, 0xDD, l.size().min(4096));
        h.next = A.free[h.cls];
        A.free[h.cls] = a - HDR;
        A.st.live_bytes -= h.size as u64;
        A.st.live_blocks -= 1;
        A.st.frees += 1;
        unlock();
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let a = p as usize;
        let nl = Layout::from_size_align_unchecked(new, l.align());
        if !(ABASE..ABASE + ASIZE).contains(&a) && cur() < 0 {
            return System.realloc(p, l, new);
        }
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

// ---------------------------------------------------------------- forked runs

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    /// what the child reported
    Ok(Vec<u8>),
    /// the runtime ended the run: class and message
    Viol(String, String),
    Signal(i32),
    Exit(i32),
    Timeout,
}

/// Runs `f` in a forked child and returns what it produced. The child starts from a process that
/// has never called yamd.
pub fn forked(timeout_ms: u64, f: impl FnOnce() -> Vec<u8>) -> Outcome {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            panic!("pipe failed");
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork failed");
        }
        if pid == 0 {
            libc::close(fds[0]);
            RESULT_FD = fds[1];
            let lim = libc::rlimit { rlim_cur: timeout_ms / 1000 + 5, rlim_max: timeout_ms / 1000 + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            set_cur(NONE);
            let out = match r {
                Ok(v) => {
                    let mut o = vec![b'='];
                    o.extend(v);
                    o
                }
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    format!("!harness-panic\n{m}").into_bytes()
                }
            };
            let mut off = 0;
            while off < out.len() {
                let n = raw6(libc::SYS_write, fds[1] as i64, out[off..].as_ptr() as i64, (out.len() - off) as i64, 0, 0, 0);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut data = Vec::new();
        let mut buf = [0u8; 65536];
        let mut timed_out = false;
        let t0 = std::time::Instant::now();
        loop {
            let left = timeout_ms as i64 - t0.elapsed().as_millis() as i64;
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, left.max(0) as i32);
            if r == 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            if r < 0 {
                continue;
            }
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n > 0 {
                data.extend_from_slice(&buf[..n as usize]);
            } else if n == 0 {
                break;
            }
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if timed_out {
            return Outcome::Timeout;
        }
        match data.first() {
            Some(b'=') => {
                data.remove(0);
                return Outcome::Ok(data);
            }
            Some(b'!') => {
                let s = String::from_utf8_lossy(&data[1..]).into_owned();
                let (c, m) = s.split_once('\n').unwrap_or((&s, ""));
                return Outcome::Viol(c.to_string(), m.to_string());
            }
            _ => {}
        }
        if libc::WIFSIGNALED(st) {
            return Outcome::Signal(libc::WTERMSIG(st));
        }
        Outcome::Exit(libc::WEXITSTATUS(st))
    }
}

/// Seeds everything outside the schedule for this run.
pub fn environment(entropy: u64, now: u64, clock_step: u64, jump: (u64, i64), env: u64) {
    unsafe {
        ENTROPY = entropy;
        NOW = now;
        CLOCK_STEP = clock_step;
        CLOCK_JUMP = jump;
        ENV_SEED = env;
    }
}
