//! R12-R15: the real tool binary, run to completion under a simulated operating system
//! (utilsbin/shim.c): every open, stat, read, write, getrandom, clock and getenv result is decided
//! by the seeded plan.
use crate::driver::*;
use crate::gen;
use crate::rng::{mix, Rng};
use crate::rt::{self, Outcome};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};

const NSTEP: usize = 64;

#[repr(C)]
#[derive(Clone, Copy, Default)]
struct CStep {
    kind: u32,
    arg: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CPlan {
    magic: u32,
    open_err: u32,
    open_eintr: u32,
    stat_mode: u32,
    stat_size: u64,
    nread: u32,
    nwrite: u32,
    nrand: u32,
    lseek_err: u32,
    rd: [CStep; NSTEP],
    wr: [CStep; NSTEP],
    rn: [CStep; NSTEP],
    wlimit: u64,
    wlimit_errno: u32,
    err_broken: u32,
    entropy: u64,
    now: u64,
    clock_step: u64,
    jump_every: u32,
    jump_s: i32,
    env_seed: u64,
    layout: u32,
    pid: u32,
    no_getrandom: u32,
    urandom_err: u32,
    path: [u8; 512],
    refuse: u32,
    oom_at: u32,
    oom_min: u32,
    oom_on: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
struct CLog {
    magic: u32,
    opens: u32,
    open_errs: u32,
    open_eintrs: u32,
    reads: u32,
    rshort: u32,
    reintr: u32,
    rerr: u32,
    stats: u32,
    writes: u32,
    wshort: u32,
    weintr: u32,
    werr: u32,
    after_err: u32,
    rands: u32,
    rshorts: u32,
    rintr: u32,
    rfail: u32,
    clocks: u32,
    envs: u32,
    seeks: u32,
    mmaps: u32,
    nogr: u32,
    urerr: u32,
    delivered: u64,
    accepted: u64,
    entropy_used: u64,
    seeded: u64,
    effects: u32,
    effect: u32,
    what: [[u8; 30]; 4],
    allocs: u32,
    refused: u32,
}

/// what one call returns: at most n bytes, EINTR, an error, nothing
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Ret {
    Upto(u32),
    Eintr,
    Fail(u32),
    Zero,
}

/// Everything a run of the tool can see of the system.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Os {
    open_err: u32,
    open_eintr: u32,
    /// 0: the truth, 1: fstat fails, 2: `stat_size`
    stat_mode: u32,
    stat_size: u64,
    lseek_err: u32,
    reads: Vec<Ret>,
    writes: Vec<Ret>,
    rands: Vec<Ret>,
    /// bytes standard output accepts, if limited
    full_after: Option<u64>,
    full_errno: u32,
    stderr_broken: bool,
    entropy: u64,
    now: u64,
    clock_step: u64,
    jump_every: u32,
    jump_s: i32,
    env_seed: u64,
    layout: u32,
    pid: u32,
    /// the system has no getrandom / no /dev/urandom
    no_getrandom: u32,
    urandom_err: u32,
    /// effects on the world outside are refused
    #[serde(default)]
    refuse: bool,
    /// the memory request of at least `oom_min` bytes that is refused, and whether all later ones are
    #[serde(default)]
    oom_at: u32,
    #[serde(default)]
    oom_min: u32,
    #[serde(default)]
    oom_on: bool,
    /// real environment variables of the process
    vars: Vec<(String, String)>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Tool {
    /// file name, content pieces
    Stat(String, Vec<Piece>),
    Random(u64, Option<u64>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Piece {
    Text(String),
    Bytes(Vec<u8>),
    /// the text, this many times
    Times(String, u32),
}

fn content(p: &[Piece]) -> Vec<u8> {
    let mut o = vec![];
    for x in p {
        match x {
            Piece::Text(s) => o.extend(s.as_bytes()),
            Piece::Bytes(b) => o.extend(b),
            Piece::Times(s, n) => {
                for _ in 0..(*n).min(400_000) {
                    o.extend(s.as_bytes())
                }
            }
        }
    }
    o
}

struct Ran {
    /// the file is not what it was
    changed: bool,
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: String,
    log: CLog,
}
impl Ran {
    fn end(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {c}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "?".into(),
        }
    }
    fn hung(&self) -> bool {
        matches!(self.signal, Some(libc::SIGXCPU) | Some(libc::SIGALRM) | Some(libc::SIGKILL))
    }
}

fn memfd(name: &str, data: &[u8]) -> File {
    let n = std::ffi::CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(n.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create");
    let mut f = unsafe { File::from_raw_fd(fd) };
    f.write_all(data).expect("memfd");
    f.seek(SeekFrom::Start(0)).unwrap();
    f
}
fn bytes_of<T>(t: &T) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(t as *const T as *const u8, std::mem::size_of::<T>()).to_vec() }
}
fn steps(v: &[Ret]) -> ([CStep; NSTEP], u32) {
    let mut a = [CStep::default(); NSTEP];
    for (i, r) in v.iter().take(NSTEP).enumerate() {
        a[i] = match r {
            Ret::Upto(n) => CStep { kind: 0, arg: *n },
            Ret::Eintr => CStep { kind: 1, arg: 0 },
            Ret::Fail(e) => CStep { kind: 2, arg: if *e == 0 { 5 } else { *e } },
            Ret::Zero => CStep { kind: 3, arg: 0 },
        };
    }
    (a, v.len().min(NSTEP) as u32)
}

/// The file exists under that name (empty), so that looking at the path itself works; what it holds
/// only the simulated system knows.
fn decoy(name: &str) -> OsString {
    let d = verif_dir().join("target/decoy");
    std::fs::create_dir_all(&d).ok();
    // "\u{1}" stands for a byte that is not UTF-8
    let b: Vec<u8> = name
        .bytes()
        .map(|c| {
            if c == 1 {
                0xff
            } else if c == b'/' || c == 0 {
                b'_'
            } else {
                c
            }
        })
        .take(200)
        .collect();
    let mut p = d.as_os_str().to_owned().into_vec();
    p.extend(b"/f");
    p.extend(b);
    let p = OsString::from_vec(p);
    if !std::path::Path::new(&p).exists() {
        let _ = File::create(&p);
    }
    p
}

fn run_tool(t: &Tool, os: &Os) -> Ran {
    let exe = verif_dir().join("target/utils/release/yamd_utlis");
    let (mut path, mut data) = (OsString::new(), vec![]);
    let mut args: Vec<OsString> = vec![];
    match t {
        Tool::Stat(name, c) => {
            path = decoy(name);
            data = content(c);
            args.push("token-stat".into());
            args.push(path.clone());
        }
        Tool::Random(n, m) => {
            args.push("random".into());
            args.push(n.to_string().into());
            if let Some(m) = m {
                args.push("--max-literal-len".into());
                args.push(m.to_string().into());
            }
        }
    }
    let (rd, nread) = steps(&os.reads);
    let (wr, nwrite) = steps(&os.writes);
    let (rn, nrand) = steps(&os.rands);
    let mut p = CPlan {
        magic: 0x59534D31,
        open_err: os.open_err,
        open_eintr: os.open_eintr,
        stat_mode: os.stat_mode,
        stat_size: os.stat_size,
        nread,
        nwrite,
        nrand,
        lseek_err: os.lseek_err,
        rd,
        wr,
        rn,
        wlimit: os.full_after.unwrap_or(u64::MAX / 2),
        wlimit_errno: if os.full_errno == 0 { 28 } else { os.full_errno },
        err_broken: os.stderr_broken as u32,
        entropy: os.entropy,
        now: os.now,
        clock_step: os.clock_step,
        jump_every: os.jump_every,
        jump_s: os.jump_s,
        env_seed: os.env_seed,
        layout: os.layout,
        pid: os.pid,
        no_getrandom: os.no_getrandom,
        urandom_err: os.urandom_err,
        path: [0; 512],
        refuse: os.refuse as u32,
        oom_at: os.oom_at,
        oom_min: os.oom_min,
        oom_on: os.oom_on as u32,
    };
    let pb = path.as_bytes();
    p.path[..pb.len().min(511)].copy_from_slice(&pb[..pb.len().min(511)]);
    let plan = memfd("plan", &bytes_of(&p));
    let log = memfd("log", &bytes_of(&CLog::default()));
    let file = memfd("content", &data);
    let mut out = memfd("out", b"");
    let mut err = memfd("err", b"");
    let mut c = std::process::Command::new(&exe);
    c.args(&args).env_clear().env("LD_PRELOAD", verif_dir().join("target/shim.so"));
    for (k, v) in &os.vars {
        c.env(k, v);
    }
    c.stdin(std::process::Stdio::null()).stdout(out.try_clone().unwrap()).stderr(err.try_clone().unwrap());
    let (a, b, d) = (plan.as_raw_fd(), log.as_raw_fd(), file.as_raw_fd());
    unsafe {
        c.pre_exec(move || {
            libc::dup2(a, 200);
            libc::dup2(b, 201);
            libc::dup2(d, 202);
            let cpu = libc::rlimit { rlim_cur: 10, rlim_max: 12 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            let mem = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::alarm(60);
            Ok(())
        });
    }
    let st = c.status().expect("start the tool");
    let mut o = vec![];
    out.seek(SeekFrom::Start(0)).unwrap();
    out.read_to_end(&mut o).unwrap();
    let mut e = vec![];
    err.seek(SeekFrom::Start(0)).unwrap();
    err.read_to_end(&mut e).unwrap();
    let mut lb = vec![];
    let mut log = log;
    log.seek(SeekFrom::Start(0)).unwrap();
    log.read_to_end(&mut lb).unwrap();
    let log = unsafe { std::ptr::read_unaligned(lb.as_ptr() as *const CLog) };
    assert!(log.magic == 0x59534D32, "the simulated system was not loaded into the tool: {} {}", st, String::from_utf8_lossy(&e));
    let changed = os.refuse && {
        let mut now = vec![];
        let mut f = file;
        let _ = f.seek(SeekFrom::Start(0));
        let _ = f.read_to_end(&mut now);
        now != data
    };
    Ran { changed, code: st.code(), signal: st.signal(), out: o, err: String::from_utf8_lossy(&e).chars().take(300).collect(), log }
}

fn account(rep: &mut Report, r: &Ran, t: &Tool, os: &Os) {
    let l = &r.log;
    rep.fault("open refused", l.open_errs as u64);
    rep.fault("open interrupted", l.open_eintrs as u64);
    rep.fault("short read", l.rshort as u64);
    rep.fault("interrupted read", l.reintr as u64);
    rep.fault("read error", l.rerr as u64);
    rep.fault("short write", l.wshort as u64);
    rep.fault("interrupted write", l.weintr as u64);
    rep.fault("write error", l.werr as u64);
    rep.fault("write tried after the error", l.after_err as u64);
    rep.fault("short entropy read", l.rshorts as u64);
    rep.fault("interrupted entropy read", l.rintr as u64);
    rep.fault("entropy source failed", l.rfail as u64);
    rep.fault("getrandom not available", l.nogr as u64);
    rep.fault("/dev/urandom refused", l.urerr as u64);
    if l.stats > 0 && os.stat_mode == 1 {
        rep.fault("stat failed", l.stats as u64);
    }
    if l.stats > 0 && os.stat_mode == 2 {
        rep.fault("stat lied", l.stats as u64);
    }
    if l.seeks > 0 && os.lseek_err > 0 {
        rep.fault("seek failed", l.seeks as u64);
    }
    if os.jump_every > 0 && l.clocks >= os.jump_every {
        rep.fault("clock jump", (l.clocks / os.jump_every) as u64);
    }
    rep.probe("environment variable read", l.envs as u64);
    rep.probe("clock read", l.clocks as u64);
    rep.steps += (l.opens + l.reads + l.stats + l.writes + l.rands + l.clocks + l.envs + l.seeks) as u64;
    rep.sim_ns += l.clocks as u64 * os.clock_step.min(1_000_000_000);
    rep.evals += 1;
    rep.hash(&r.out);
    rep.hash(r.end().as_bytes());
    for x in [l.opens, l.open_errs, l.open_eintrs, l.reads, l.rshort, l.reintr, l.rerr, l.stats, l.writes, l.wshort, l.weintr, l.werr, l.rands, l.rshorts, l.rintr, l.rfail] {
        rep.hash64(x as u64);
    }
    rep.hash64(l.delivered);
    rep.hash64(l.accepted);
    match t {
        Tool::Stat(..) => rep.probe("token-stat run", 1),
        Tool::Random(..) => rep.probe("random run", 1),
    }
    match (r.code, r.signal) {
        (Some(0), _) => rep.probe("exit 0", 1),
        (Some(_), _) => rep.probe("failure status", 1),
        _ => rep.probe("ended by a signal", 1),
    }
}

fn cut(b: &[u8]) -> String {
    let s: String = String::from_utf8_lossy(b).chars().take(240).collect();
    format!("{s:?}")
}

// ------------------------------------------------------------------ generation

const OPEN_ERRS: &[u32] = &[2, 13, 20, 21, 23, 24, 40, 5, 12, 1, 6];
const READ_ERRS: &[u32] = &[5, 21, 9, 12, 116, 22, 11, 110, 104, 75];
const WRITE_ERRS: &[u32] = &[28, 32, 5, 27, 122, 11, 22, 104, 110];

fn pieces(r: &mut Rng, thorough: bool) -> Vec<Piece> {
    let n = r.range(0, 3);
    let mut v: Vec<Piece> = vec![];
    for d in gen::family(r, n.max(1)) {
        if n == 0 {
            break;
        }
        v.push(Piece::Text(d));
    }
    if r.chance(1, 5) {
        // sizes around the steps in which files are read
        let unit = match r.below(6) {
            0 => "a".into(),
            1 => "\u{e9}".into(),
            2 => "\u{1F600}".into(),
            3 => "*b* \n".into(),
            4 => "{% x\n\n".into(),
            _ => gen::special_run(r),
        };
        let want = *r.pick(&[31usize, 32, 4095, 4096, 8191, 8192, 8193, 16384, 65536, 100_000, if thorough { 600_000 } else { 140_000 }]) + r.below(9);
        let k = (want / unit.len().max(1)).max(1) as u32;
        let at = r.below(v.len() + 1);
        v.insert(at, Piece::Times(unit, k));
    }
    if r.chance(1, 150) {
        // files of megabytes
        let unit = *r.pick(&["[", "a ", "a", "\n", "*b* \n", "x\u{e9}\n\n", "\u{1F600}", "\\ "]);
        let mb = if r.chance(1, if thorough { 3 } else { 12 }) { r.range(9, 34) } else { r.range(1, 5) };
        let want = (mb << 20) + r.below(9) * r.below(5000);
        let at = r.below(v.len() + 1);
        v.insert(at, Piece::Times(unit.into(), (want / unit.len()) as u32));
    }
    if r.chance(1, 5) {
        let bad: &[&[u8]] = &[&[0xff], &[0xc3], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98], &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0x80], &[0xfe, 0xff, 0, 0x41], &[0xf4, 0x90, 0x80, 0x80]];
        let b = r.pick(bad).to_vec();
        let at = if r.chance(1, 3) { v.len() } else { r.below(v.len() + 1) };
        v.insert(at, Piece::Bytes(b));
    }
    if r.chance(1, 6) {
        let s: String = (0..r.range(1, 4)).map(|_| gen::odd(r)).collect();
        let at = r.below(v.len() + 1);
        v.insert(at, Piece::Text(s));
    }
    if r.chance(1, 25) {
        // what other kinds of files begin with
        let s = *r.pick(&[
            "#!/bin/sh\n",
            "%PDF-1.4\n",
            "<?xml version=\"1.0\"?>\n",
            "\u{1f}",
            "PK\u{3}\u{4}",
            "// a\n",
            "#include\n",
            "---\n",
            "+++\n",
            "%YAML 1.2\n",
            "\r\n",
            "\n",
            "\u{c}",
        ]);
        v.insert(0, Piece::Text(s.into()));
    }
    if r.chance(1, 12) {
        v.insert(0, Piece::Bytes(vec![0xef, 0xbb, 0xbf]));
    }
    if r.chance(1, 12) {
        let at = r.below(v.len() + 1);
        v.insert(at, Piece::Bytes(vec![0]));
    }
    v
}
fn name(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "with space.yamd".into(),
        1 => "\u{43f}\u{440}\u{438}.yamd".into(),
        2 => "\u{1}.yamd".into(),
        3 => "x".repeat(150),
        4 => "{% a %}".into(),
        5 => "-".into(),
        _ => "doc.yamd".into(),
    }
}
/// conditions the tool must not notice at all
fn ambient(r: &mut Rng, os: &mut Os) {
    os.entropy = match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        _ => r.u64() | 2,
    };
    os.now = match r.below(5) {
        0 => 0,
        1 => (i32::MAX as u64 + r.below(3) as u64) * 1_000_000_000,
        _ => r.below(4_000_000_000) as u64 * 1_000_000_000 + r.below(1_000_000_000) as u64,
    };
    os.clock_step = *r.pick(&[0, 1, 1000, 50_000_000, 3_600_000_000_000]);
    if r.chance(1, 3) {
        os.jump_every = r.range(1, 5) as u32;
        os.jump_s = *r.pick(&[-86400, -1, 1, 3600, 31_536_000]);
    }
    if r.chance(1, 2) {
        os.env_seed = r.u64() | 1;
    }
    os.layout = if r.chance(1, 3) { 0 } else { r.below(100_000) as u32 + 1 };
    os.pid = r.range(1, 4_000_000) as u32;
    let all: &[(&str, &[&str])] = &[
        ("LANG", &["C", "de_DE.UTF-8", "ja_JP.SJIS", ""]),
        ("LC_ALL", &["C", "POSIX", "tr_TR.UTF-8"]),
        ("COLUMNS", &["1", "20", "80", "100000", "x"]),
        ("LINES", &["1", "50"]),
        ("RUST_BACKTRACE", &["0", "1", "full"]),
        ("NO_COLOR", &["1", ""]),
        ("CLICOLOR_FORCE", &["1"]),
        ("TERM", &["dumb", "xterm-256color", ""]),
        ("TZ", &["UTC", "Asia/Kolkata", ":bad"]),
        ("HOME", &["/", "/nonexistent", ""]),
        ("RUST_LOG", &["trace", "off"]),
    ];
    for (k, v) in all {
        if r.chance(1, 4) {
            os.vars.push((k.to_string(), r.pick(v).to_string()));
        }
    }
}
fn soft_reads(r: &mut Rng, os: &mut Os, len: usize) {
    let n = r.skewed(40);
    let fine = r.chance(1, 3);
    for _ in 0..n {
        os.reads.push(match r.below(6) {
            0 => Ret::Eintr,
            1 => Ret::Upto(1),
            2 => Ret::Upto(*r.pick(&[2, 3, 31, 32, 33, 4095, 4096, 8191])),
            _ => Ret::Upto(if fine { 1 + r.below(6) as u32 } else { 1 + r.skewed(len.max(1)) as u32 }),
        });
    }
    if r.chance(1, 4) {
        os.open_eintr = r.range(1, 3) as u32;
    }
    match r.below(6) {
        0 => os.stat_mode = 1,
        1 | 2 => {
            os.stat_mode = 2;
            os.stat_size = match r.below(5) {
                0 => 0,
                1 => 1,
                2 => (len / 2) as u64,
                3 => len as u64 + 1 + r.below(5000) as u64,
                _ => r.below(4 << 20) as u64,
            };
        }
        _ => {}
    }
    if r.chance(1, 5) {
        os.lseek_err = *r.pick(&[29, 22, 5]);
    }
}
fn soft_rands(r: &mut Rng, os: &mut Os) {
    let n = r.skewed(12);
    for _ in 0..n {
        os.rands.push(if r.chance(1, 2) { Ret::Eintr } else { Ret::Upto(1 + r.skewed(32) as u32) });
    }
}
fn soft_writes(r: &mut Rng, os: &mut Os) {
    let n = r.skewed(50);
    for _ in 0..n {
        os.writes.push(match r.below(5) {
            0 => Ret::Eintr,
            1 => Ret::Upto(1),
            _ => Ret::Upto(1 + r.skewed(3000) as u32),
        });
    }
}
fn hard_write(r: &mut Rng, os: &mut Os) {
    if r.chance(1, 2) {
        let max = *r.pick(&[200, 4000]);
        os.full_after = Some(r.skewed(max) as u64);
        os.full_errno = *r.pick(WRITE_ERRS);
    } else {
        let at = r.skewed(os.writes.len().max(24));
        while os.writes.len() < at {
            os.writes.push(Ret::Upto(1 << 20));
        }
        let f = if r.chance(1, 8) { Ret::Zero } else { Ret::Fail(*r.pick(WRITE_ERRS)) };
        os.writes.insert(at.min(os.writes.len()), f);
    }
}
fn random_args(r: &mut Rng, thorough: bool) -> Tool {
    let len = match r.below(10) {
        0 => 0,
        1 => 1,
        2 | 3 => r.below(12),
        4 => *r.pick(&[63, 64, 65, 127, 128, 255, 256, 257]),
        5 if thorough => r.below(6000),
        _ => r.skewed(700),
    } as u64;
    let m = match r.below(10) {
        0..=2 => None,
        3 => Some(0),
        4 => Some(1),
        5 => Some(2),
        6 => Some(3),
        7 => Some(4),
        _ => Some(r.skewed(80) as u64),
    };
    Tool::Random(len, m)
}

// ------------------------------------------------------------------ what is expected of token-stat

const KINDS: &[&str] = &[
    "Terminator",
    "Eol",
    "LeftCurlyBrace",
    "RightCurlyBrace",
    "CollapsibleStart",
    "CollapsibleEnd",
    "Tilde",
    "Star",
    "Space",
    "Minus",
    "Hash",
    "GreaterThan",
    "Bang",
    "Backtick",
    "Plus",
    "LeftSquareBracket",
    "RightSquareBracket",
    "LeftParenthesis",
    "RightParenthesis",
    "Underscore",
    "Pipe",
    "Literal",
];

/// counts by kind of the real lexer over the whole text, worked out in a process of its own
fn counts(text: &str) -> Option<BTreeMap<String, u64>> {
    let o = rt::forked(60_000, || {
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for t in yamd::lexer::Lexer::new(text) {
            *m.entry(format!("{:?}", t.kind)).or_insert(0) += 1;
        }
        serde_json::to_vec(&m).unwrap()
    });
    match o {
        Outcome::Ok(b) => serde_json::from_slice(&b).ok(),
        _ => None,
    }
}
/// the statistics in a report, by name; an error if a line occurs twice
fn parse(out: &[u8], path: &[u8]) -> (BTreeMap<String, Vec<u64>>, Vec<u64>) {
    let mut m: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    let mut tot = vec![];
    // the report repeats the path; it is not part of the statistics
    let s = String::from_utf8_lossy(out).replace(&*String::from_utf8_lossy(path), "");
    for l in s.lines() {
        let Some((k, v)) = l.split_once(':') else {
            continue;
        };
        let (k, v) = (k.trim(), v.trim());
        let Ok(n) = v.parse::<u64>() else { continue };
        if k == "Total token count" {
            tot.push(n);
        } else if KINDS.contains(&k) {
            m.entry(k.to_string()).or_default().push(n);
        }
    }
    (m, tot)
}

// ------------------------------------------------------------------ R12

#[derive(Serialize, Deserialize, Clone, Debug)]
struct CaseT {
    tool: Tool,
    os: Os,
    other: Vec<Os>,
}

fn case(v: &Value) -> Option<CaseT> {
    serde_json::from_value(v.clone()).ok()
}
fn skip() -> Report {
    Report { skip: true, ..Default::default() }
}

pub struct R12;
impl Prop for R12 {
    fn id(&self) -> &'static str {
        "R12"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            12_000
        } else {
            250_000
        }
    }
    fn in_worker(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Rng, tier: Tier, _i: u64) -> Value {
        let p = pieces(r, tier == Tier::Thorough);
        let len = content(&p).len();
        let mut os = Os::default();
        ambient(r, &mut os);
        if !r.chance(1, 12) {
            soft_reads(r, &mut os, len);
        }
        if r.chance(1, 2) {
            match r.below(5) {
                0 => os.open_err = *r.pick(OPEN_ERRS),
                1 if r.chance(1, 2) => {
                    os.stat_mode = 2;
                    os.stat_size = *r.pick(&[1u64 << 33, 1 << 46, u64::MAX >> 1]);
                }
                _ => {
                    let at = r.below(os.reads.len() + 3);
                    while os.reads.len() < at {
                        let k = *r.pick(&[1u32, 7, 1000, 1 << 20]);
                        os.reads.push(Ret::Upto(k));
                    }
                    os.reads.insert(at, Ret::Fail(*r.pick(READ_ERRS)));
                    // a file that can be read again after the error
                    if r.chance(1, 4) {
                        os.reads.insert(at, Ret::Fail(*r.pick(READ_ERRS)));
                    }
                }
            }
        }
        soft_rands(r, &mut os);
        os.stderr_broken = r.chance(1, 8);
        serde_json::to_value(CaseT { tool: Tool::Stat(name(r), p), os, other: vec![] }).unwrap()
    }
    fn run(&self, v: &Value) -> Report {
        let Some(c) = case(v) else { return skip() };
        let Tool::Stat(nm, p) = &c.tool else {
            return skip();
        };
        let data = content(p);
        let text = String::from_utf8(data.clone()).ok();
        let want = match &text {
            Some(t) => match counts(t) {
                Some(w) => Some(w),
                None => {
                    let mut rep = Report::default();
                    rep.probe("no-reference", 1);
                    return rep;
                }
            },
            None => None,
        };
        let mut rep = Report::default();
        let r = run_tool(&c.tool, &c.os);
        account(&mut rep, &r, &c.tool, &c.os);
        rep.nontrivial = rep.faults.values().sum::<u64>() > 0 || text.is_none();
        if text.is_none() {
            rep.fault("content that is not UTF-8", 1);
        }
        let path = decoy(nm);
        let (got, tot) = parse(&r.out, path.as_bytes());
        let l = &r.log;
        let ctx = || format!("{}; standard output {}; standard error {:?}; {} of {} bytes delivered", r.end(), cut(&r.out), r.err, l.delivered, data.len());
        if r.hung() {
            rep.violate("hang", format!("the tool did not end: {}", ctx()));
        } else if r.code == Some(0) {
            match &want {
                None => rep.violate("invalid-accepted", format!("content that is not UTF-8 was reported on: {}", ctx())),
                Some(w) => {
                    let g: BTreeMap<String, u64> = got.iter().filter(|(_, v)| v != &&vec![0]).map(|(k, v)| (k.clone(), v[0])).collect();
                    if got.values().any(|v| v.len() > 1) || &g != w {
                        rep.violate("wrong-counts", format!("expected {w:?}: {}", ctx()));
                    } else if tot != [w.values().sum::<u64>()] {
                        rep.violate("wrong-total", format!("expected a total of {}: {}", w.values().sum::<u64>(), ctx()));
                    }
                }
            }
        } else {
            if !got.is_empty() || !tot.is_empty() {
                rep.violate("statistics-of-a-failed-run", ctx());
            }
            let hard = l.rerr > 0 || l.open_errs > 0 || text.is_none() || std::str::from_utf8(path.as_bytes()).is_err() || (c.os.stat_mode == 2 && c.os.stat_size > 64 << 20);
            if !hard {
                rep.violate("needless-failure", format!("nothing failed for good, but: {}", ctx()));
            }
        }
        rep
    }
    fn rule(&self) -> &'static str {
        "a run executes the token-stat tool on one seeded content under a seeded plan of open, stat, seek, read and getrandom results; non-trivial if a fault actually fired or the content is not UTF-8"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "counts are compared with those of the real lexer over the whole content in another process; whether the lexer itself is right is R07's business",
            "a file size of more than 64 MB claimed by the system may make the tool fail (memory)",
            "a path that is not Unicode may make the tool fail",
        ]
    }
    fn real(&self) -> &'static str {
        "the whole yamd_utlis binary built from utils/src: clap, std, yamd"
    }
    fn stub(&self) -> &'static str {
        "open, stat, seek, read, write, getrandom, clock, getenv, getpid as seen by the process (LD_PRELOAD)"
    }
}

// ------------------------------------------------------------------ R13

pub struct R13;
impl Prop for R13 {
    fn id(&self) -> &'static str {
        "R13"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            12_000
        } else {
            200_000
        }
    }
    fn in_worker(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Rng, tier: Tier, _i: u64) -> Value {
        let th = tier == Tier::Thorough;
        let tool = if r.chance(1, 2) {
            let mut p: Vec<Piece> = pieces(r, false);
            p.retain(|x| !matches!(x, Piece::Bytes(b) if std::str::from_utf8(b).is_err()));
            Tool::Stat(name(r).replace('\u{1}', "u"), p)
        } else {
            random_args(r, th)
        };
        let mut os = Os::default();
        ambient(r, &mut os);
        if r.chance(2, 3) {
            soft_writes(r, &mut os);
        }
        if r.chance(3, 4) {
            hard_write(r, &mut os);
        }
        if r.chance(1, 4) {
            soft_rands(r, &mut os);
        }
        os.stderr_broken = r.chance(1, 6);
        serde_json::to_value(CaseT { tool, os, other: vec![] }).unwrap()
    }
    fn run(&self, v: &Value) -> Report {
        let Some(c) = case(v) else { return skip() };
        let mut rep = Report::default();
        let calm = Os { writes: vec![], full_after: None, stderr_broken: false, ..c.os.clone() };
        let want = run_tool(&c.tool, &calm);
        if want.code != Some(0) {
            rep.probe("no-reference", 1);
            return rep;
        }
        let r = run_tool(&c.tool, &c.os);
        account(&mut rep, &r, &c.tool, &c.os);
        let l = &r.log;
        rep.nontrivial = l.werr + l.wshort + l.weintr > 0;
        let ctx = || format!("{}; {} of {} bytes written: {}, expected {}; standard error {:?}", r.end(), r.out.len(), want.out.len(), cut(&r.out), cut(&want.out), r.err);
        if r.hung() {
            rep.violate("hang", format!("the tool did not end: {}", ctx()));
        } else if !want.out.starts_with(&r.out) {
            rep.violate("not-a-prefix", ctx());
        } else if r.code == Some(0) && r.out != want.out {
            rep.violate("lost-output", format!("success reported: {}", ctx()));
        } else if l.werr > 0 && r.code == Some(0) {
            // everything had arrived, and yet a write failed: nothing was lost
            rep.probe("error after the last byte", 1);
        } else if l.werr == 0 && r.code != Some(0) {
            rep.violate("needless-failure", format!("no write failed for good, but: {}", ctx()));
        }
        if l.werr > 0 && r.code != Some(0) {
            rep.probe("loss reported", 1);
        }
        if r.out.is_empty() && l.werr > 0 {
            rep.probe("nothing at all written", 1);
        }
        rep
    }
    fn rule(&self) -> &'static str {
        "a run executes one tool under a seeded plan of write results and compares with the same run whose writes all succeed; non-trivial if a write actually was cut short, interrupted or failed"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "once a write failed for good, later writes fail too",
            "EBADF (standard output closed before the start) is excluded: Rust's standard library treats it as a sink by design",
        ]
    }
    fn real(&self) -> &'static str {
        "the whole yamd_utlis binary built from utils/src: clap, std's buffered standard output, rand, yamd"
    }
    fn stub(&self) -> &'static str {
        "write, open, stat, read, getrandom, clock, getenv, getpid as seen by the process (LD_PRELOAD)"
    }
}

// ------------------------------------------------------------------ R14

pub struct R14;
impl Prop for R14 {
    fn id(&self) -> &'static str {
        "R14"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            8_000
        } else {
            150_000
        }
    }
    fn in_worker(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Rng, tier: Tier, _i: u64) -> Value {
        let tool = random_args(r, tier == Tier::Thorough);
        let mut os = Os::default();
        ambient(r, &mut os);
        soft_rands(r, &mut os);
        if r.chance(2, 5) {
            let at = if r.chance(2, 3) { r.below(4) } else { r.below(30) };
            let e = *r.pick(&[38u32, 1, 11, 5, 14, 22]);
            while os.rands.len() < at {
                os.rands.push(if r.chance(1, 4) { Ret::Eintr } else { Ret::Upto(256) });
            }
            let k = if r.chance(1, 2) { NSTEP } else { 1 + r.below(3) };
            os.rands.truncate(at);
            for _ in 0..k {
                os.rands.push(Ret::Fail(e));
            }
        }
        if r.chance(1, 4) {
            os.no_getrandom = *r.pick(&[38, 1]);
            if r.chance(1, 3) {
                os.urandom_err = *r.pick(&[2, 13, 24, 23]);
            }
        }
        let mut o2 = Os::default();
        ambient(r, &mut o2);
        if r.chance(1, 6) {
            o2.no_getrandom = 38;
        }
        o2.entropy = os.entropy;
        soft_rands(r, &mut o2);
        serde_json::to_value(CaseT { tool, os, other: vec![o2] }).unwrap()
    }
    fn run(&self, v: &Value) -> Report {
        let Some(c) = case(v) else { return skip() };
        let Tool::Random(len, m) = &c.tool else {
            return skip();
        };
        let (len, m) = (*len as usize, m.unwrap_or(10) as usize);
        let mut rep = Report::default();
        let mut outs: Vec<Vec<u8>> = vec![];
        for (i, os) in std::iter::once(&c.os).chain(c.other.iter()).enumerate() {
            if i > 0 && os.entropy != c.os.entropy {
                return skip();
            }
            let r = run_tool(&c.tool, os);
            account(&mut rep, &r, &c.tool, os);
            let l = &r.log;
            let ctx = || {
                format!(
                    "random {len} with literals up to {m}: {}; {} bytes {}; standard error {:?}; {} bytes of entropy delivered, {} failures",
                    r.end(),
                    r.out.len(),
                    cut(&r.out),
                    r.err,
                    l.seeded,
                    l.rfail
                )
            };
            if r.hung() {
                rep.violate("hang", format!("the tool did not end: {}", ctx()));
                continue;
            }
            if r.code != Some(0) {
                if !r.out.is_empty() {
                    rep.violate("output-of-a-failed-run", ctx());
                }
                if l.rfail == 0 && l.urerr == 0 {
                    rep.violate("needless-failure", ctx());
                } else {
                    rep.probe("refused without entropy", 1);
                }
                continue;
            }
            if l.rfail > 0 {
                rep.probe("went on after an entropy failure", 1);
            }
            if l.seeded < 32 && len > 0 {
                rep.violate("no-entropy", format!("printed without having been seeded: {}", ctx()));
            }
            match std::str::from_utf8(&r.out) {
                Err(_) => rep.violate("not-utf8", ctx()),
                Ok(s) => {
                    let Some(b) = s.strip_suffix('\n') else {
                        rep.violate("no-newline", ctx());
                        continue;
                    };
                    // one token is at most two ASCII characters or a literal
                    let token = 2.max(4 * m.max(2));
                    if b.len() < len {
                        rep.violate("too-short", ctx());
                    }
                    if b.len() >= len + token || (len == 0 && !b.is_empty()) {
                        rep.violate("too-long", ctx());
                    }
                    if b.len() > len {
                        rep.probe("overshoot", 1);
                    }
                }
            }
            outs.push(r.out);
        }
        // same arguments and entropy: same output, unless the source failed on the way (a failed
        // call may be answered from another source)
        if outs.len() == 2 && outs[0] != outs[1] && !c.os.rands.iter().chain(c.other.iter().flat_map(|o| o.rands.iter())).any(|x| matches!(x, Ret::Fail(_))) {
            rep.violate("not-a-function", format!("same arguments and entropy, but {} and {}", cut(&outs[0]), cut(&outs[1])));
        }
        rep.nontrivial = rep.faults.values().sum::<u64>() > 0 || c.os.entropy == 0 || c.os.entropy == u64::MAX;
        rep
    }
    fn rule(&self) -> &'static str {
        "a run executes the random tool twice with the same seeded entropy stream (also constant ones) under different clocks, environments and layouts, with short, interrupted or failing entropy reads; non-trivial if a fault fired or the stream was constant"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["lengths up to 6000 bytes", "the generator needs 32 bytes of entropy before it may print"]
    }
    fn real(&self) -> &'static str {
        "the whole yamd_utlis binary built from utils/src: clap, std, rand, rand_chacha, getrandom"
    }
    fn stub(&self) -> &'static str {
        "getrandom and /dev/urandom, write, clock, getenv, getpid as seen by the process (LD_PRELOAD)"
    }
}

// ------------------------------------------------------------------ R15

pub struct R15;
impl Prop for R15 {
    fn id(&self) -> &'static str {
        "R15"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            20_000
        } else {
            120_000
        }
    }
    fn in_worker(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Rng, tier: Tier, _i: u64) -> Value {
        let mut p = pieces(r, tier == Tier::Thorough);
        p.retain(|x| !matches!(x, Piece::Bytes(b) if std::str::from_utf8(b).is_err()));
        if r.chance(1, 3) {
            // many kinds with the same count
            let all = ["\n\n", "\n", "{", "}", "{%", "%}", "~", "*", " ", "-", "#", ">", "!", "`", "+", "[", "]", "(", ")", "_", "|", "a"];
            let mut s: Vec<&str> = all.iter().copied().filter(|_| r.chance(2, 3)).collect();
            r.shuffle(&mut s);
            p = vec![Piece::Text(s.concat())];
            if r.chance(1, 4) {
                p.push(Piece::Text(gen::special_run(r)));
            }
        }
        let len = content(&p).len();
        let k = r.range(2, 4);
        let mut v: Vec<Os> = (0..k)
            .map(|_| {
                let mut o = Os::default();
                ambient(r, &mut o);
                if r.chance(1, 3) {
                    soft_reads(r, &mut o, len);
                }
                if r.chance(1, 4) {
                    soft_rands(r, &mut o);
                }
                if r.chance(1, 6) {
                    soft_writes(r, &mut o);
                }
                o.stderr_broken = r.chance(1, 8);
                o
            })
            .collect();
        let os = v.pop().unwrap();
        serde_json::to_value(CaseT { tool: Tool::Stat(name(r).replace('\u{1}', "u"), p), os, other: v }).unwrap()
    }
    fn run(&self, v: &Value) -> Report {
        let Some(c) = case(v) else { return skip() };
        if c.other.is_empty() {
            return skip();
        }
        let mut rep = Report::default();
        let mut first: Option<Ran> = None;
        for os in std::iter::once(&c.os).chain(c.other.iter()) {
            let r = run_tool(&c.tool, os);
            account(&mut rep, &r, &c.tool, os);
            rep.fault("other hash seed", 1);
            if os.layout > 0 {
                rep.fault("other memory layout", 1);
            }
            if os.env_seed > 0 || !os.vars.is_empty() {
                rep.fault("other environment", 1);
            }
            if r.hung() {
                rep.violate("hang", "the tool did not end");
            }
            match &first {
                None => first = Some(r),
                Some(f) => {
                    if f.out != r.out || f.code != r.code || f.signal != r.signal {
                        let k = f.out.iter().zip(&r.out).take_while(|(a, b)| a == b).count();
                        rep.violate(
                            "differs",
                            format!(
                                "first difference at byte {k}: {} with {} and {} with {}",
                                f.end(),
                                cut(&f.out[k.saturating_sub(60)..]),
                                r.end(),
                                cut(&r.out[k.saturating_sub(60)..])
                            ),
                        );
                    }
                }
            }
        }
        rep.nontrivial = true;
        rep.hash64(mix(&[rep.evals]));
        rep
    }
    fn rule(&self) -> &'static str {
        "a run executes the token-stat tool two to four times on one seeded content, each time with other hash seeds, clock, environment, memory layout, process id and read sizes, and compares the bytes; every run is non-trivial"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["same path and arguments in all executions of a run"]
    }
    fn real(&self) -> &'static str {
        "the whole yamd_utlis binary built from utils/src: clap, std's hash tables, yamd"
    }
    fn stub(&self) -> &'static str {
        "getrandom (hash seeds), clock, getenv, getpid, memory layout, read sizes (LD_PRELOAD)"
    }
}

// ------------------------------------------------------------------ R29

const EFFECTS: &[&str] = &[
    "?",
    "opened for writing",
    "read from its standard input",
    "removed",
    "renamed",
    "created",
    "truncated",
    "changed the mode, owner or times of",
    "locked",
    "opened a socket",
    "started a process",
    "replaced itself by",
    "sent a signal",
    "changed its own settings:",
];

pub struct R29;
impl Prop for R29 {
    fn id(&self) -> &'static str {
        "R29"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            9_000
        } else {
            200_000
        }
    }
    fn in_worker(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Rng, tier: Tier, i: u64) -> Value {
        // the situations of the other tool properties
        let v = match r.below(4) {
            0 | 1 => R12.gen(r, tier, i),
            2 => R13.gen(r, tier, i),
            _ => R14.gen(r, tier, i),
        };
        let mut c: CaseT = serde_json::from_value(v).unwrap();
        c.other.clear();
        if r.chance(1, 4) {
            hard_write(r, &mut c.os);
        }
        if r.chance(1, 4) {
            // the variables by which programs find places to write to
            for k in ["HOME", "TMPDIR", "XDG_CACHE_HOME", "XDG_STATE_HOME", "XDG_CONFIG_HOME", "LOGNAME", "RUST_LOG", "CI", "DEBUG", "VERBOSE"] {
                if r.chance(1, 2) {
                    c.os.vars.push((k.into(), r.pick(&["/nonexistent/x", "1", "/tmp", "debug", ""]).to_string()));
                }
            }
        }
        c.os.refuse = true;
        serde_json::to_value(c).unwrap()
    }
    fn run(&self, v: &Value) -> Report {
        let Some(c) = case(v) else { return skip() };
        let mut os = c.os.clone();
        os.refuse = true;
        let mut rep = Report::default();
        let r = run_tool(&c.tool, &os);
        account(&mut rep, &r, &c.tool, &os);
        rep.nontrivial = true;
        let l = &r.log;
        if l.effects > 0 {
            let what: Vec<u8> = l.what.concat().into_iter().take_while(|b| *b != 0).collect();
            let what = String::from_utf8_lossy(&what).replace(verif_dir().to_str().unwrap_or("?"), "…");
            rep.violate("effect", format!("the tool {} {what:?}; {}; standard error {:?}", EFFECTS[(l.effect as usize).min(EFFECTS.len() - 1)], r.end(), r.err));
        } else if r.changed {
            rep.violate("file-changed", format!("the file the tool was to read has changed; {}", r.end()));
        }
        rep
    }
    fn rule(&self) -> &'static str {
        "a run executes one tool in one of the situations of R12, R13 and R14, in a system that records and refuses everything that would have an effect besides output on the standard streams; every run is non-trivial"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["effects are seen as libc calls of the process; opening files for reading, threads and terminal devices do not count"]
    }
    fn real(&self) -> &'static str {
        "the whole yamd_utlis binary built from utils/src: clap, std, rand, yamd"
    }
    fn stub(&self) -> &'static str {
        "the system calls of the process as seen by libc (LD_PRELOAD)"
    }
}

// ------------------------------------------------------------------ R31

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case31 {
    tool: Tool,
    os: Os,
    /// only requests of at least so many bytes are refused
    min: u32,
    on: bool,
    /// refused requests in thousandths of all; empty: every one
    at: Vec<u32>,
}

pub struct R31;
impl Prop for R31 {
    fn id(&self) -> &'static str {
        "R31"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            4_500
        } else {
            30_000
        }
    }
    fn in_worker(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Rng, tier: Tier, _i: u64) -> Value {
        let tool = if r.chance(2, 3) {
            let mut p: Vec<Piece> = pieces(r, false);
            p.retain(|x| match x {
                Piece::Bytes(b) => std::str::from_utf8(b).is_ok(),
                Piece::Times(s, n) => s.len() * *n as usize <= 3 << 20,
                _ => true,
            });
            Tool::Stat(name(r).replace('\u{1}', "u"), p)
        } else {
            random_args(r, tier == Tier::Thorough)
        };
        let len = match &tool {
            Tool::Stat(_, p) => content(p).len(),
            _ => 0,
        };
        let mut os = Os::default();
        ambient(r, &mut os);
        if r.chance(1, 3) {
            soft_reads(r, &mut os, len);
        }
        if r.chance(1, 4) {
            soft_writes(r, &mut os);
        }
        // with backtraces on, std itself locks up when memory runs out while it prints one
        os.env_seed = 0;
        os.vars.retain(|v| v.0 != "RUST_BACKTRACE");
        let all = r.chance(1, 3);
        let at = if all {
            vec![]
        } else {
            let k = r.range(4, 24);
            // the later ones are the tool's own, the first ones the runtime's and the argument parser's
            (0..k).map(|_| if r.chance(1, 2) { 1000 - r.skewed(300) as u32 } else { r.below(1001) as u32 }).collect()
        };
        let min = if r.chance(1, 2) { 0 } else { *r.pick(&[17, 65, 257, 1025, 4097, 65_537]) };
        serde_json::to_value(Case31 { tool, os, min, on: r.chance(1, 3), at }).unwrap()
    }
    fn run(&self, v: &Value) -> Report {
        let Ok(c) = serde_json::from_value::<Case31>(v.clone()) else {
            return skip();
        };
        let mut rep = Report::default();
        let mut calm = Os { oom_at: 0, oom_min: c.min, ..c.os.clone() };
        let mut want = run_tool(&c.tool, &calm);
        if want.log.allocs == 0 {
            // nothing that big is ever requested
            calm.oom_min = 0;
            want = run_tool(&c.tool, &calm);
        }
        account(&mut rep, &want, &c.tool, &calm);
        let n = want.log.allocs;
        if want.code != Some(0) || n == 0 {
            rep.probe("no-reference", 1);
            return rep;
        }
        let mut at: Vec<u32> = if c.at.is_empty() { (1..=n.min(500)).collect() } else { c.at.iter().map(|k| 1 + (*k as u64 * (n - 1) as u64 / 1000) as u32).collect() };
        at.sort();
        at.dedup();
        for k in at {
            let os = Os { oom_at: k, oom_on: c.on, ..calm.clone() };
            let r = run_tool(&c.tool, &os);
            account(&mut rep, &r, &c.tool, &os);
            rep.fault("memory refused", r.log.refused as u64);
            let ctx = || format!("memory request {k} of {n} refused: {}; standard output {}, expected {}; standard error {:?}", r.end(), cut(&r.out), cut(&want.out), r.err);
            if r.hung() {
                rep.violate("hang", format!("the tool did not end: {}", ctx()));
            } else if r.code == Some(0) && r.out != want.out {
                rep.violate("wrong-result", format!("success reported: {}", ctx()));
            } else if !want.out.starts_with(&r.out) {
                rep.violate("not-a-prefix", ctx());
            } else if r.log.refused == 0 && r.code != Some(0) {
                rep.violate("needless-failure", format!("nothing was refused, but: {}", ctx()));
            }
            if r.code == Some(0) {
                rep.probe("succeeded all the same", 1);
            }
            if rep.viol.is_some() {
                break;
            }
        }
        rep.nontrivial = rep.faults.contains_key("memory refused");
        rep
    }
    fn rule(&self) -> &'static str {
        "a run executes one tool on seeded input once without and then again and again with one memory request (and in a third of the runs all later ones) refused, every one or up to 24 seeded ones; non-trivial if a request was refused"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["memory is requested through malloc, calloc, realloc and the aligned forms, as Rust's system allocator does", "ending by abort (signal 6) is a failure like any other", "RUST_BACKTRACE is not set: with it std locks up by itself when memory runs out while it prints a backtrace"]
    }
    fn real(&self) -> &'static str {
        "the whole yamd_utlis binary built from utils/src: clap, std, rand, yamd"
    }
    fn stub(&self) -> &'static str {
        "malloc and its relatives, open, stat, read, write, getrandom, clock, getenv, getpid as seen by the process (LD_PRELOAD)"
    }
}
