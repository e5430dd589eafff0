//! R02 isolation, R03 no waiting, R04 no trace of abandoned calls: concurrent callers with
//! histories, compared call by call with the same call made alone by a pristine process.
use crate::calls::*;
use crate::driver::*;
use crate::gen;
use crate::rng::Rng;
use crate::rt;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct EnvCase {
    pub entropy: u64,
    pub start_s: u64,
    pub clock_step_ns: u64,
    pub jump_every: u64,
    pub jump_s: i32,
    pub env: u64,
}

pub fn gen_env(r: &mut Rng) -> EnvCase {
    EnvCase {
        entropy: r.u64() >> 16,
        start_s: if r.chance(1, 2) { 1_700_000_000 } else { r.below(4_000_000_000) as u64 },
        clock_step_ns: *r.pick(&[1, 1000, 1_000_000, 5_000_000_000, 0]),
        jump_every: *r.pick(&[0, 0, 1, 3]),
        jump_s: *r.pick(&[-100_000, -5, 5, 90_000]),
        env: if r.chance(1, 2) { 0 } else { 1 + (r.u64() >> 40) },
    }
}

pub fn apply_env(e: &EnvCase) {
    rt::environment(e.entropy, e.start_s * 1_000_000_000, e.clock_step_ns, (e.jump_every, e.jump_s as i64 * 1_000_000_000), e.env);
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Task {
    pub calls: Vec<Call>,
    pub reuse: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Scenario {
    pub docs: Vec<String>,
    pub shared: Vec<String>,
    pub env: EnvCase,
    /// calls made before the concurrent phase, on the main thread
    pub before: Vec<Call>,
    /// how often `before` is repeated
    pub repeat: u32,
    pub reuse_before: bool,
    pub tasks: Vec<Task>,
    /// calls made afterwards, on the main thread
    pub after: Vec<Call>,
    pub first: u8,
    /// preemptions: position in millionths of the total work, which other caller goes on
    pub sw: Vec<(u32, u8)>,
    /// preemptions at the n-th access to a static
    pub ssw: Vec<(u32, u8, u8)>,
    /// caller, position in millionths of its own work
    pub stalls: Vec<(u8, u32)>,
    /// caller, step of its own work
    #[serde(default)]
    pub stall_steps: Vec<(u8, u64)>,
    pub warm: bool,
    /// 1: the system refuses everything; 2: and there are no descriptors
    #[serde(default)]
    pub outside: u8,
}

pub fn gen_switches(r: &mut Rng, tasks: usize) -> Vec<(u32, u8)> {
    if tasks < 2 {
        return vec![];
    }
    let k = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => r.range(3, 8),
        4 => r.range(8, 60),
        _ => r.range(60, 400),
    };
    let mut v: Vec<(u32, u8)> = vec![];
    // dense bursts find windows of a few instructions, sparse ones long overlaps
    let burst = r.chance(1, 3);
    let base = r.below(1_000_000) as u32;
    for _ in 0..k {
        let f = if burst { (base + r.below(20_000) as u32) % 1_000_000 } else { r.below(1_000_000) as u32 };
        v.push((f, r.below(tasks) as u8));
    }
    v.sort();
    v
}

pub fn gen_ssw(r: &mut Rng, tasks: usize) -> Vec<(u32, u8, u8)> {
    if tasks < 2 || r.chance(1, 3) {
        return vec![];
    }
    let k = *r.pick(&[1, 2, 4, 12]);
    let m = *r.pick(&[4, 20, 200]);
    (0..k).map(|_| (1 + r.below(m) as u32, r.below(tasks) as u8, if r.chance(1, 2) { 0 } else { r.below(12) as u8 })).collect()
}

fn refs(sc: &Scenario) -> HashMap<String, (String, u64)> {
    let mut ks = vec![];
    for c in sc.before.iter().chain(sc.tasks.iter().flat_map(|t| t.calls.iter())).chain(sc.after.iter()) {
        keys(c, &mut ks);
    }
    let mut m = HashMap::new();
    for k in ks {
        let key = serde_json::to_string(&k).unwrap();
        if !m.contains_key(&key) {
            if let Some(x) = pristine(&k, &sc.docs, &sc.shared) {
                m.insert(key, x);
            }
        }
    }
    m
}

fn work(c: &Call, refs: &HashMap<String, (String, u64)>) -> u64 {
    let mut ks = vec![];
    keys(c, &mut ks);
    let w = ks.iter().map(|k| refs.get(&serde_json::to_string(k).unwrap()).map(|x| x.1).unwrap_or(1000)).sum();
    match c {
        // inner calls are made up to 12 times
        Call::Reenter { .. } => 12 * w,
        Call::Suspend { more, .. } => w + 3 * *more as u64 * w,
        _ => w,
    }
}

fn diff(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let mut i = k.saturating_sub(30).min(s.len());
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s[i..].chars().take(90).collect::<String>()
    };
    format!("first difference at byte {k}: expected …{:?}, got …{:?}", cut(a), cut(b))
}

fn check(rep: &mut Report, refs: &HashMap<String, (String, u64)>, res: &Results, who: &str) {
    for (i, (c, got)) in res.iter().enumerate() {
        let key = serde_json::to_string(c).unwrap();
        rep.hash(got.as_bytes());
        let Some((want, _)) = refs.get(&key) else {
            rep.probe("no-reference", 1);
            continue;
        };
        rep.evals += 1;
        if want != got {
            rep.violate("wrong-result", format!("{who}, result {i}: {key} differs from the same call made alone: {}", diff(want, got)));
        }
    }
}

pub fn run_scenario(sc: &Scenario) -> Report {
    let mut rep = Report::default();
    let refs = refs(sc);
    let total: u64 = sc.tasks.iter().flat_map(|t| t.calls.iter()).map(|c| work(c, &refs)).sum();
    apply_env(&sc.env);
    if sc.outside > 0 {
        unsafe {
            crate::effects::REFUSE = true;
            if sc.outside > 1 {
                for fd in 0..3 {
                    libc::close(fd);
                }
                let no = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_NOFILE, &no);
                libc::setrlimit(libc::RLIMIT_FSIZE, &no);
                rep.fault("no descriptors and closed standard streams", 1);
            }
        }
        rep.fault("system calls refused", 1);
    }
    let now0 = unsafe { rt::NOW };
    unsafe { rt::MAIN_BUDGET = 4_000_000_000 };
    // history
    let shared: Arc<Vec<Shared>> = Arc::new(rt::as_main(|| make_shared(&sc.shared)));
    let docs = Arc::new(sc.docs.clone());
    let mut before: Results = vec![];
    {
        let mut ctx = Ctx::new(&docs, &shared, sc.reuse_before);
        for k in 0..sc.repeat.max(1) {
            let mut res: Results = vec![];
            for c in &sc.before {
                rt::as_main(|| exec(c, &mut ctx, &mut res));
            }
            if k == 0 {
                before = res;
            } else {
                // later repetitions must agree with the first
                for (a, b) in before.iter().zip(res.iter()) {
                    rep.evals += 1;
                    if a.1 != b.1 {
                        let m = format!("history, repetition {k}: {} gave another result than before: {}", serde_json::to_string(&a.0).unwrap(), diff(&a.1, &b.1));
                        rep.violate("wrong-result", m);
                    }
                }
            }
        }
    }
    check(&mut rep, &refs, &before, "history");
    if sc.warm {
        // one-time initialisation, on this thread, of everything the callers will use
        let mut ctx = Ctx::new(&docs, &shared, false);
        let mut res: Results = vec![];
        for c in sc.tasks.iter().flat_map(|t| t.calls.iter()) {
            rt::as_main(|| exec(c, &mut ctx, &mut res));
        }
    }
    let slots: Arc<Mutex<Vec<Results>>> = Arc::new(Mutex::new(vec![vec![]; sc.tasks.len()]));
    let n = sc.tasks.len();
    if n > 0 {
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (i, t) in sc.tasks.iter().enumerate().take(rt::MAXT) {
            let (t, docs, shared, slots) = (t.clone(), docs.clone(), shared.clone(), slots.clone());
            let shared = SendPtr(shared);
            bodies.push(Box::new(move || {
                let shared = shared;
                let mut out: Results = vec![];
                let mut ctx = rt::harness(|| Ctx::new(&docs, &shared.0, t.reuse));
                for c in &t.calls {
                    exec(c, &mut ctx, &mut out);
                }
                rt::harness(|| drop(ctx));
                rt::harness(move || {
                    slots.lock().unwrap()[i] = out;
                    drop(shared);
                    drop(docs);
                    drop(slots);
                    drop(t);
                });
            }));
        }
        let sw = sc.sw.iter().map(|&(f, t)| (1 + (f as u64 * total) / 1_000_000, t)).collect();
        let ssw = sc.ssw.iter().map(|&(f, t, d)| (f as u64, t, d)).collect();
        let mut stalls: Vec<(u8, u64)> = sc
            .stalls
            .iter()
            .filter(|s| (s.0 as usize) < n)
            .map(|&(t, f)| {
                let w: u64 = sc.tasks[t as usize].calls.iter().map(|c| work(c, &refs)).sum();
                (t, 1 + (f as u64 * w) / 1_000_000)
            })
            .collect();
        stalls.extend(sc.stall_steps.iter().filter(|s| (s.0 as usize) < n));
        let budget = 50 * total + 20_000_000;
        let others = if stalls.is_empty() { u64::MAX } else { 12 * total + 300_000 };
        rt::run_tasks(bodies, sw, ssw, &stalls, budget, others, sc.first as usize);
    }
    let s = rt::sched();
    rep.switches = s.switches;
    rep.trace = s.trace;
    rep.hint = s.static_at.clone();
    rep.steps = s.steps + unsafe { rt::MAIN_STEPS };
    rep.fault("preemption", s.switches);
    rep.fault("stalled caller", s.stalls);
    rep.fault("lock wait", s.blocks);
    rep.probe("access to a writable static", s.static_accesses);
    rep.probe("forced switch", s.forced);
    for (i, res) in slots.lock().unwrap().iter().enumerate() {
        check(&mut rep, &refs, res, &format!("caller {i}"));
    }
    let mut after: Results = vec![];
    {
        let mut ctx = Ctx::new(&docs, &shared, sc.reuse_before);
        for c in &sc.after {
            rt::as_main(|| exec(c, &mut ctx, &mut after));
        }
    }
    check(&mut rep, &refs, &after, "afterwards");
    for c in sc.before.iter().chain(sc.tasks.iter().flat_map(|t| t.calls.iter())) {
        match c {
            Call::RenderFail { plan, .. } => rep.fault(if plan.panic { "writer unwinds" } else { "writer fails" }, 1),
            Call::LexDrop { .. } => rep.fault("lexer dropped early", 1),
            Call::ConvertPanic { .. } | Call::TryLossy { .. } => rep.fault("event lost", 1),
            Call::JsonTorn { .. } | Call::CborTorn { .. } => rep.fault("torn record", 1),
            Call::JsonWriteFail { unwind, .. } => rep.fault(if *unwind { "serializer's writer unwinds" } else { "serializer's writer fails" }, 1),
            Call::ReadFail { unwind, .. } => rep.fault(if *unwind { "reader unwinds" } else { "read failed" }, 1),
            Call::Reenter { .. } => rep.fault("writer re-enters the library", 1),
            Call::Suspend { more, .. } => rep.fault("lexer suspended", 1 + *more as u64),
            _ => {}
        }
    }
    unsafe {
        rep.probe("sleep", rt::SLEEPS);
        rep.probe("clock read by yamd", rt::CLOCK_READS);
        rep.probe("entropy read", rt::ENTROPY_READS);
        rep.probe("environment read by yamd", rt::ENV_READS);
        rep.cov = (*std::ptr::addr_of!(rt::COV)).iter().map(|&x| x as u64).sum();
        rep.sim_ns = rt::NOW.wrapping_sub(now0).min(1 << 62) + rep.steps * 100;
    }
    rep.nontrivial = rep.switches > 0 || rep.evals > 1;
    rep
}

struct SendPtr(Arc<Vec<Shared>>);
unsafe impl Send for SendPtr {}

/// Whether a type can be shared with and sent to other threads, without failing to compile if it
/// can not.
pub mod auto {
    use std::marker::PhantomData;
    pub struct W<T>(pub PhantomData<T>);
    #[allow(dead_code)]
    pub trait Not {
        fn send(&self) -> bool {
            false
        }
        fn sync(&self) -> bool {
            false
        }
    }
    impl<T> Not for &W<T> {}
    pub trait IsSend {
        fn send(&self) -> bool;
    }
    impl<T: Send> IsSend for W<T> {
        fn send(&self) -> bool {
            true
        }
    }
    pub trait IsSync {
        fn sync(&self) -> bool;
    }
    impl<T: Sync> IsSync for W<T> {
        fn sync(&self) -> bool {
            true
        }
    }
}
/// the first of the shared types that could not be used by several threads
pub fn unshareable() -> Option<&'static str> {
    #[allow(unused_imports)]
    use auto::{IsSend, IsSync, Not, W};
    use std::marker::PhantomData as P;
    let d: W<yamd::Yamd> = W(P);
    let o: W<yamd::op::Op> = W(P);
    if !(&d).send() || !(&d).sync() {
        return Some("a document (Yamd)");
    }
    if !(&o).send() || !(&o).sync() {
        return Some("an event (Op)");
    }
    None
}
pub fn lexer_moves() -> bool {
    #[allow(unused_imports)]
    use auto::{IsSend, IsSync, Not, W};
    let l: W<yamd::lexer::Lexer<'static>> = W(std::marker::PhantomData);
    (&l).send()
}

pub fn gen_scenario(r: &mut Rng, kind: u8, idx: u64) -> Scenario {
    let nd = r.range(1, 5);
    let docs = if r.chance(1, 8) { gen::fixtures(r, nd) } else { gen::family(r, nd) };
    let ns = if r.chance(1, 2) { r.range(1, 2) } else { 0 };
    let shared: Vec<String> = (0..ns)
        .map(|_| {
            if r.chance(1, 3) {
                let c = gen::cfg(r);
                gen::text_doc(r, &c)
            } else {
                r.pick(&docs).clone()
            }
        })
        .collect();
    let serde = r.chance(1, 3);
    let env = gen_env(r);
    // themed runs: all callers do the same kind of call on related texts
    let theme = if r.chance(1, 2) { Some(gen_call(r, nd, ns, serde)) } else { None };
    let call = |r: &mut Rng| -> Call {
        if let Some(t) = &theme {
            if r.chance(3, 4) {
                return retarget(t, r, nd);
            }
        }
        gen_call(r, nd, ns, serde)
    };
    let mut sc = Scenario {
        docs,
        shared,
        env,
        before: vec![],
        repeat: 1,
        reuse_before: r.chance(1, 2),
        tasks: vec![],
        after: vec![],
        first: 0,
        sw: vec![],
        ssw: vec![],
        stalls: vec![],
        stall_steps: vec![],
        warm: false,
        outside: 0,
    };
    match kind {
        2 => {
            let mode = r.below(10);
            if mode < 7 {
                let nt = r.range(2, 4);
                for _ in 0..nt {
                    let k = r.range(1, 4);
                    let reuse = r.chance(1, 2);
                    sc.tasks.push(Task { calls: (0..k).map(|_| call(r)).collect(), reuse });
                }
                if r.chance(1, 3) {
                    let k = r.range(1, 3);
                    sc.before = (0..k).map(|_| call(r)).collect();
                }
                sc.sw = gen_switches(r, nt);
                sc.ssw = gen_ssw(r, nt);
                sc.first = r.below(nt) as u8;
            } else {
                // histories on one thread, and on a chain of short-lived threads
                let k = r.range(2, 10);
                sc.before = (0..k).map(|_| call(r)).collect();
                sc.repeat = if r.chance(1, 3) { r.range(2, 4) as u32 } else { 1 };
                if mode == 9 {
                    let nt = r.range(1, 6);
                    for _ in 0..nt {
                        let k = r.range(1, 3);
                        sc.tasks.push(Task { calls: (0..k).map(|_| call(r)).collect(), reuse: r.chance(1, 2) });
                    }
                }
            }
            if r.chance(1, 4) {
                sc.after = vec![call(r)];
            }
            if r.chance(1, 12) {
                sc.after.push(Call::Canary);
            }
            if idx % 500 == 7 || idx % 40 == 13 {
                // a long-lived process
                let nd = r.range(2, 6);
                sc.docs = gen::fixtures(r, nd);
                let k = r.range(3, 9);
                sc.before = (0..k).map(|_| if r.chance(1, 2) { Call::Deser { d: r.below(nd) } } else { gen_call(r, nd, 0, false) }).collect();
                sc.shared.clear();
                sc.repeat = if idx % 500 == 7 { 70_000 } else { 2_000 } / k as u32;
                sc.tasks.clear();
                sc.after.clear();
            }
        }
        3 => {
            let mode = r.below(3);
            sc.warm = true;
            let inner = |r: &mut Rng| -> Vec<Call> {
                let k = r.range(1, 3);
                (0..k).map(|_| gen_call(r, nd, ns, serde)).collect()
            };
            let nt = if mode == 2 { 1 } else { r.range(2, 4) };
            for _ in 0..nt {
                let k = r.range(1, 3);
                let calls = (0..k)
                    .map(|_| match if mode == 0 { 9 } else { r.below(4) } {
                        0 | 1 => gen_reenter(r, nd, ns, serde),
                        2 => Call::Suspend { d: r.below(nd), n: r.skewed(30), calls: inner(r), more: gen_more(r) },
                        _ => call(r),
                    })
                    .collect();
                sc.tasks.push(Task { calls, reuse: r.chance(1, 3) });
            }
            if nt > 1 {
                let k = r.range(1, nt - 1);
                for t in 0..k {
                    sc.stalls.push((t as u8, r.below(1_000_000) as u32));
                }
                sc.sw = if r.chance(1, 2) { gen_switches(r, nt) } else { vec![] };
                sc.sw.truncate(40);
            }
            sc.first = 0;
        }
        _ => {
            // abandoned calls, with checked calls behind and beside them
            let mix = |r: &mut Rng, k: usize| -> Vec<Call> {
                let mut v = vec![];
                for _ in 0..k {
                    v.push(if r.chance(1, 2) { gen_abandoned(r, nd) } else { call(r) });
                }
                v
            };
            let mode = r.below(4);
            let k = r.range(1, 6);
            if mode != 0 {
                sc.before = mix(r, k);
                if let Some(c) = sc.before.first_mut() {
                    *c = gen_abandoned(r, nd);
                }
                sc.before.push(call(r));
                sc.before.push(gen_call(r, nd, ns, serde));
                sc.repeat = if r.chance(1, 6) { r.range(2, 40) as u32 } else { 1 };
            }
            if mode != 1 {
                let nt = r.range(2, 3);
                for _ in 0..nt {
                    let k = r.range(1, 5);
                    let mut c = mix(r, k);
                    c.push(call(r));
                    sc.tasks.push(Task { calls: c, reuse: r.chance(1, 3) });
                }
                if mode == 2 {
                    sc.sw = gen_switches(r, nt);
                    sc.ssw = gen_ssw(r, nt);
                }
                sc.first = r.below(nt) as u8;
            }
            sc.after = vec![call(r), gen_call(r, nd, ns, serde)];
            if r.chance(1, 2) {
                sc.after.insert(0, Call::Canary);
            }
            for t in &mut sc.tasks {
                if r.chance(1, 3) {
                    t.calls.push(Call::Canary);
                }
            }
            if !sc.before.is_empty() && r.chance(1, 3) {
                sc.before.push(Call::Canary);
            }
            for i in 0..ns {
                sc.after.push(Call::SRender { i });
            }
        }
    }
    sc
}

/// A further run in which all callers do what touched a static, with preemptions (or stalls) in
/// and around those accesses.
pub fn follow(r: &mut Rng, sc: &Scenario, hint: &[(u8, u64)], stall: bool) -> Option<Scenario> {
    if sc.tasks.len() < 2 || hint.is_empty() {
        return None;
    }
    let mut sc = sc.clone();
    let n = sc.tasks.len();
    if stall && r.chance(1, 2) {
        let k = r.range(1, n - 1);
        sc.stalls.clear();
        sc.sw.clear();
        sc.stall_steps.clear();
        for _ in 0..k {
            let (t, at) = *r.pick(hint);
            sc.stall_steps.push((t, (at + r.below(30) as u64).saturating_sub(3).max(1)));
        }
        sc.stall_steps.sort();
        sc.stall_steps.dedup_by_key(|x| x.0);
        sc.stall_steps.truncate(n - 1);
        return Some(sc);
    }
    // same kind of call on texts of the same shape
    let t = r.pick(hint).0 as usize % n;
    let calls: Vec<Call> = sc.tasks[t].calls.iter().filter(|c| doc_of(c).is_some()).cloned().collect();
    if !calls.is_empty() {
        let c = r.pick(&calls).clone();
        let d = doc_of(&c).unwrap();
        if d < sc.docs.len() && sc.docs[d].len() < 30_000 {
            let base = sc.docs[d].clone();
            let first = sc.docs.len();
            let reps = r.range(1, 3);
            for i in 0..n {
                sc.docs.push(gen::same_shape(r, &base));
                sc.tasks[i].calls = vec![with_doc(&c, first + i); reps];
            }
        }
    }
    let m = 2 * hint.len().max(1);
    let k = *r.pick(&[1, 2, 4, 12]);
    sc.ssw = (0..k).map(|_| (1 + r.below(m) as u32, r.below(n) as u8, if r.chance(1, 3) { 0 } else { r.below(40) as u8 })).collect();
    if r.chance(1, 2) {
        sc.sw.clear();
    }
    sc.stalls.clear();
    sc.stall_steps.clear();
    Some(sc)
}

fn doc_of(c: &Call) -> Option<usize> {
    match c {
        Call::Deser { d }
        | Call::Parse { d }
        | Call::Convert { d }
        | Call::Lex { d }
        | Call::Render { d }
        | Call::Blocks { d }
        | Call::Json { d }
        | Call::Cbor { d }
        | Call::OpsJson { d }
        | Call::Clone { d }
        | Call::TryLossy { d, .. } => Some(*d),
        _ => None,
    }
}
fn with_doc(c: &Call, n: usize) -> Call {
    let mut c = c.clone();
    match &mut c {
        Call::Deser { d }
        | Call::Parse { d }
        | Call::Convert { d }
        | Call::Lex { d }
        | Call::Render { d }
        | Call::Blocks { d }
        | Call::Json { d }
        | Call::Cbor { d }
        | Call::OpsJson { d }
        | Call::Clone { d }
        | Call::TryLossy { d, .. } => *d = n,
        _ => {}
    }
    c
}

fn retarget(c: &Call, r: &mut Rng, nd: usize) -> Call {
    with_doc(c, r.below(nd))
}

macro_rules! scenario_prop {
    ($t:ident, $id:literal, $kind:literal, $quick:literal, $thorough:literal, $rule:literal) => {
        pub struct $t;
        impl Prop for $t {
            fn id(&self) -> &'static str {
                $id
            }
            fn runs(&self, tier: Tier) -> u64 {
                if tier == Tier::Quick {
                    $quick
                } else {
                    $thorough
                }
            }
            fn gen(&self, r: &mut Rng, _t: Tier, idx: u64) -> Value {
                serde_json::to_value(gen_scenario(r, $kind, idx)).unwrap()
            }
            fn run(&self, case: &Value) -> Report {
                match serde_json::from_value::<Scenario>(case.clone()) {
                    Ok(sc) => {
                        let mut rep = run_scenario(&sc);
                        if $kind == 3 {
                            // initialisation is over, so whoever waits or sleeps does so because of others
                            if rep.faults.contains_key("lock wait") {
                                rep.violate("waits", "a caller waited for another caller");
                            }
                            if rep.probes.contains_key("sleep") {
                                rep.violate("sleeps", "a caller went to sleep");
                            }
                        }
                        if $kind == 2 && !sc.shared.is_empty() {
                            if let Some(t) = unshareable() {
                                rep.violate("not-shareable", format!("{t} can not be shared between threads"));
                            }
                        }
                        rep
                    }
                    Err(_) => Report { skip: true, ..Default::default() },
                }
            }
            fn follow(&self, r: &mut Rng, case: &Value, rep: &Report) -> Option<Value> {
                let sc = serde_json::from_value::<Scenario>(case.clone()).ok()?;
                serde_json::to_value(follow(r, &sc, &rep.hint, $kind == 3)?).ok()
            }
            fn rule(&self) -> &'static str {
                $rule
            }
            fn assumptions(&self) -> Vec<&'static str> {
                vec![
                    "interleavings are sequentially consistent: one caller runs at a time, preempted at basic blocks and memory accesses of yamd (its code and the generic code compiled into it)",
                    "the reference is the same call made alone by a fresh process of the same build",
                    "texts nest at most a few levels; sizes up to about 20 KB",
                ]
            }
            fn real(&self) -> &'static str {
                "all of yamd (lexer, parser, conversion, rendering, serde derives), std, serde_json, ciborium; real OS threads"
            }
            fn stub(&self) -> &'static str {
                "thread scheduling, futex waits, sleeping, clock, entropy, environment variables, heap, writers"
            }
        }
    };
}

scenario_prop!(R02, "R02", 2, 12000, 200000, "a run is a set of 1-6 caller threads with 1-4 calls each on a family of related texts (plus calls made before and after), a seeded set of preemption points, and a seeded environment (hash seeds, clock, variables); non-trivial if callers were preempted or a history of several calls was checked");
scenario_prop!(R03, "R03", 3, 9000, 150000, "a run stalls one or more callers at a seeded instruction inside a call, or re-enters the library from a writer or from between two pulls of a lexer, while the other callers must finish within a step bound with their usual results; non-trivial if more than one result was checked");
scenario_prop!(R04, "R04", 4, 8000, 150000, "a run mixes abandoned calls (unwinding or failing writers, dropped lexers, failed conversions, torn records, failing serializers) with ordinary calls on one or several threads, and compares every ordinary call with its pristine result; non-trivial if more than one result was checked");

/// R27: nothing but results.
pub struct R27;
impl Prop for R27 {
    fn id(&self) -> &'static str {
        "R27"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            5000
        } else {
            150_000
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, idx: u64) -> Value {
        let kind = *r.pick(&[2, 3, 4, 4]);
        let mut sc = gen_scenario(r, kind, if idx % 100 == 13 { 13 } else { 1 });
        if r.chance(1, 3) {
            // failures that may want to be heard
            sc.before.push(Call::ConvertPanic { d: 0, at: r.below(200) });
            for t in &mut sc.tasks {
                t.calls.push(if r.chance(1, 2) { Call::ConvertPanic { d: r.below(5), at: r.below(200) } } else { Call::TryLossy { d: r.below(5), at: r.below(200) } });
            }
        }
        if idx % 50 == 3 {
            let k = r.below(sc.docs.len());
            sc.docs[k] = gen::vast(r);
            sc.before.truncate(1);
            sc.after.truncate(1);
            sc.repeat = 1;
            for t in &mut sc.tasks {
                t.calls.truncate(1);
            }
        }
        sc.outside = *r.pick(&[0, 1, 2]);
        serde_json::to_value(sc).unwrap()
    }
    fn run(&self, case: &Value) -> Report {
        let Ok(sc) = serde_json::from_value::<Scenario>(case.clone()) else {
            return Report { skip: true, ..Default::default() };
        };
        unsafe {
            CWD = cwd();
        }
        let mut rep = run_scenario(&sc);
        if let Some((c, m)) = rep.viol.take() {
            // a wrong result matters here only if the system being unavailable is what made it wrong
            if sc.outside > 0 || crate::effects::first() != "" {
                rep.viol = Some((c, m));
            }
        }
        let n = crate::effects::COUNT.load(std::sync::atomic::Ordering::SeqCst);
        rep.evals += 1;
        if n > 0 {
            rep.viol = None;
            rep.violate("effect", format!("a call {} ({n} such attempts in this run)", crate::effects::first()));
        }
        let h = rt::HOOKED.with(|h| h.get());
        let _ = std::panic::catch_unwind(|| panic!("witness"));
        if rt::HOOKED.with(|h| h.get()) != h + 1 {
            rep.violate("panic-hook", "the panic hook of the process was replaced");
        }
        if unsafe { CWD } != cwd() {
            rep.violate("effect", "a call changes the current directory");
        }
        rep
    }
    fn follow(&self, r: &mut Rng, case: &Value, rep: &Report) -> Option<Value> {
        let sc = serde_json::from_value::<Scenario>(case.clone()).ok()?;
        serde_json::to_value(follow(r, &sc, &rep.hint, false)?).ok()
    }
    fn rule(&self) -> &'static str {
        "a run is a set of concurrent, stalled, re-entrant, abandoned and repeated calls in a process whose every system call is intercepted below std, and, in two thirds of the runs, refused (no descriptors, closed standard streams); non-trivial if calls were made"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "effects are seen where libc is called (files, descriptors, sockets, threads, processes, signals, environment, directory, locale, exit), at the panic hook, and by comparing the process before and after; raw system calls are not seen",
            "reading clocks, entropy and environment variables is no effect (what results may depend on is R02); memory is R05 and R06",
        ]
    }
    fn real(&self) -> &'static str {
        "all of yamd, std, serde_json, ciborium; real OS threads"
    }
    fn stub(&self) -> &'static str {
        "the operating system behind libc, thread scheduling, clock, entropy, environment variables, heap, writers"
    }
}
static mut CWD: u64 = 0;
fn cwd() -> u64 {
    let mut b = [0u8; 4096];
    unsafe { rt::raw6(libc::SYS_getcwd, b.as_mut_ptr() as i64, b.len() as i64, 0, 0, 0, 0) };
    crate::rng::hash_bytes(&b)
}
