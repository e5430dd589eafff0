//! Everything a program can do to the world outside its memory, intercepted below std: done by
//! simulated code it is recorded, and refused if the run says so.
use crate::rt::{cur, raw6};
use libc::*;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

pub static COUNT: AtomicU64 = AtomicU64::new(0);
static FIRST: AtomicUsize = AtomicUsize::new(0);
/// what is attempted fails
pub static mut REFUSE: bool = false;

const NAMES: &[&str] = &[
    "",
    "writes to a file descriptor",
    "reads from a file descriptor",
    "opens a file",
    "opens a socket",
    "connects",
    "starts a thread",
    "starts a process",
    "replaces the process",
    "changes the environment",
    "changes the current directory",
    "changes a signal handler",
    "sends a signal",
    "ends the process",
    "removes or renames a file",
    "creates a directory",
    "inspects a file",
    "changes the locale",
    "changes process settings",
    "duplicates a descriptor",
    "changes the file mode mask",
    "runs the panic hook",
];

/// true: the call is simulated code's and is refused
fn seen(what: usize) -> bool {
    if cur() < 0 {
        return false;
    }
    COUNT.fetch_add(1, Ordering::SeqCst);
    let _ = FIRST.compare_exchange(0, what, Ordering::SeqCst, Ordering::SeqCst);
    unsafe { REFUSE }
}
/// something that is not a call into the system
pub fn note(what: usize) {
    COUNT.fetch_add(1, Ordering::SeqCst);
    let _ = FIRST.compare_exchange(0, what, Ordering::SeqCst, Ordering::SeqCst);
}
pub fn first() -> &'static str {
    NAMES[FIRST.load(Ordering::SeqCst)]
}

unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64) -> i64 {
    let r = raw6(n, a, b, c, d, e, 0);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: i32) -> i64 {
    *__errno_location() = e;
    -1
}

macro_rules! raw {
    ($($what:literal $e:ident $n:ident ($($a:ident),*) $nr:ident;)*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $n($($a: i64),*) -> i64 {
            if seen($what) {
                return fail($e);
            }
            let v: &[i64] = &[$($a),*];
            let g = |i: usize| v.get(i).copied().unwrap_or(0);
            sys($nr, g(0), g(1), g(2), g(3), g(4))
        }
    )*};
}
raw! {
    1 EIO write(a, b, c) SYS_write;
    1 EIO writev(a, b, c) SYS_writev;
    1 EIO pwrite64(a, b, c, d) SYS_pwrite64;
    1 EIO sendto(a, b, c, d, e) SYS_sendto;
    2 EIO read(a, b, c) SYS_read;
    2 EIO readv(a, b, c) SYS_readv;
    2 EIO pread64(a, b, c, d) SYS_pread64;
    3 EMFILE open(a, b, c) SYS_open;
    3 EMFILE open64(a, b, c) SYS_open;
    3 EMFILE openat(a, b, c, d) SYS_openat;
    3 EMFILE openat64(a, b, c, d) SYS_openat;
    3 EMFILE pipe2(a, b) SYS_pipe2;
    4 EMFILE socket(a, b, c) SYS_socket;
    5 ECONNREFUSED connect(a, b, c) SYS_connect;
    5 EADDRINUSE bind(a, b, c) SYS_bind;
    10 EACCES chdir(a) SYS_chdir;
    12 EPERM kill(a, b) SYS_kill;
    14 EACCES unlink(a) SYS_unlink;
    14 EACCES rename(a, b) SYS_rename;
    14 EACCES rmdir(a) SYS_rmdir;
    14 EACCES ftruncate64(a, b) SYS_ftruncate;
    15 EACCES mkdir(a, b) SYS_mkdir;
    16 EACCES stat64(a, b) SYS_stat;
    16 EACCES fstat64(a, b) SYS_fstat;
    16 EACCES lstat64(a, b) SYS_lstat;
    16 EACCES statx(a, b, c, d, e) SYS_statx;
    16 EACCES readlink(a, b, c) SYS_readlink;
    18 EPERM setrlimit64(a, b) SYS_setrlimit;
    19 EMFILE dup(a) SYS_dup;
    19 EMFILE dup2(a, b) SYS_dup2;
    20 EPERM umask(a) SYS_umask;
}

macro_rules! next {
    ($($what:literal $bad:expr; $n:ident ($($a:ident),*);)*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $n($($a: usize),*) -> isize {
            if seen($what) {
                return $bad as isize;
            }
            static REAL: AtomicUsize = AtomicUsize::new(0);
            let mut p = REAL.load(Ordering::Relaxed);
            if p == 0 {
                p = dlsym(RTLD_NEXT, concat!(stringify!($n), "\0").as_ptr() as *const c_char) as usize;
                REAL.store(p, Ordering::Relaxed);
            }
            let f: unsafe extern "C" fn($(next!(@t $a)),*) -> isize = std::mem::transmute(p);
            f($($a),*)
        }
    )*};
    (@t $a:ident) => { usize };
}
next! {
    6 EAGAIN; pthread_create(a, b, c, d);
    7 fail(EAGAIN); fork();
    7 EAGAIN; posix_spawn(a, b, c, d, e, f);
    7 EAGAIN; posix_spawnp(a, b, c, d, e, f);
    8 fail(EACCES); execve(a, b, c);
    8 fail(EACCES); execvp(a, b);
    9 fail(ENOMEM); setenv(a, b, c);
    9 fail(ENOMEM); unsetenv(a);
    9 fail(ENOMEM); putenv(a);
    11 fail(EINVAL); sigaction(a, b, c);
    11 fail(EINVAL); signal(a, b);
    17 0; setlocale(a, b);
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    if cur() >= 0 {
        crate::rt::die("effect", "a call ends the process");
    }
    let f: unsafe extern "C" fn(i32) -> ! = std::mem::transmute(dlsym(RTLD_NEXT, c"exit".as_ptr()));
    f(code)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn _exit(code: i32) -> ! {
    if cur() >= 0 {
        crate::rt::die("effect", "a call ends the process");
    }
    raw6(SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    core::hint::unreachable_unchecked()
}
