//! R05 conservation of memory, R06 refusing allocator.
use super::conc::{apply_env, gen_env, gen_switches, EnvCase};
use crate::calls::*;
use crate::driver::*;
use crate::gen;
use crate::rng::Rng;
use crate::rt::{self, Outcome};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case5 {
    docs: Vec<String>,
    env: EnvCase,
    calls: Vec<Call>,
    rounds: u32,
    /// 0: on one thread; otherwise each round runs on this many short-lived threads
    threads: u8,
    sw: Vec<(u32, u8)>,
}

pub struct R05;

/// a text of the same shape that no earlier round used: every word is another one in every round
fn distinct(s: &str, n: u32, out: &mut String) {
    out.clear();
    let mut w: u64 = 0;
    let mut len = 0;
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if !c.is_ascii_lowercase() {
            out.push(c);
            continue;
        }
        if len == 0 {
            w = n as u64;
        }
        w = crate::rng::mix(&[w, c as u64]);
        len += 1;
        if it.peek().map_or(true, |x| !x.is_ascii_lowercase()) {
            // the same word twice becomes the same word twice; short words are extended
            let mut h = w;
            for i in 0..len.max(4) {
                out.push((b'a' + (h % 26) as u8) as char);
                h = crate::rng::mix(&[h, i as u64]);
            }
            len = 0;
        }
    }
    out.push_str("\n\nround ");
    let mut n = n as u64 * 7919 + 13;
    for _ in 0..5 {
        out.push((b'a' + (n % 26) as u8) as char);
        n /= 26;
    }
}

impl Prop for R05 {
    fn id(&self) -> &'static str {
        "R05"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            3000
        } else {
            40000
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, _i: u64) -> Value {
        let c = gen::cfg(r);
        let nd = r.range(1, 3);
        let mut docs: Vec<String> = (0..nd).map(|_| gen::text_doc(r, &c)).collect();
        // now and then texts of kilobytes
        let big = r.chance(1, 25);
        for d in &mut docs {
            if big && d.len() < 1500 {
                *d = format!("{d}\n\n").repeat(1 + r.range(1500, 5000) / (d.len() + 2));
            }
            let cap = if big { 6_000 } else { 400 };
            if d.len() > cap {
                let mut k = cap;
                while !d.is_char_boundary(k) {
                    k -= 1;
                }
                d.truncate(k);
            }
        }
        let k = r.range(1, 3);
        let calls: Vec<Call> = (0..k)
            .map(|_| match r.below(5) {
                0 | 1 => gen_call(r, nd, 0, true),
                2 if !big => {
                    let inner = vec![gen_call(r, nd, 0, true)];
                    if r.chance(1, 2) {
                        Call::Reenter { d: r.below(nd), calls: inner, parts: r.below(4) as u32 }
                    } else {
                        Call::Suspend { d: r.below(nd), n: r.skewed(20), calls: inner, more: *r.pick(&[0, 0, 1, 9]) }
                    }
                }
                _ => gen_abandoned(r, nd),
            })
            .collect();
        let threads = *r.pick(&[0, 0, 0, 1, 2]);
        let size: usize = docs.iter().map(|d| d.len() + 20).sum::<usize>() * k;
        let rounds = if big {
            24
        } else if threads > 0 {
            60
        } else {
            (60_000 / size.max(20)).clamp(40, 1500) as u32
        };
        let sw = gen_switches(r, threads as usize);
        serde_json::to_value(Case5 { docs, env: gen_env(r), calls, rounds, threads, sw: sw.into_iter().take(20).collect() }).unwrap()
    }
    fn run(&self, case: &Value) -> Report {
        let Ok(c) = serde_json::from_value::<Case5>(case.clone()) else {
            return Report { skip: true, ..Default::default() };
        };
        let mut rep = Report::default();
        if c.rounds < 16 || c.docs.is_empty() {
            rep.skip = true;
            return rep;
        }
        apply_env(&c.env);
        unsafe { rt::MAIN_BUDGET = 20_000_000_000 };
        let mut live = vec![];
        let mut texts: Vec<String> = c.docs.iter().map(|_| String::new()).collect();
        for round in 0..c.rounds {
            for (t, d) in texts.iter_mut().zip(c.docs.iter()) {
                distinct(d, round, t);
            }
            if c.threads == 0 {
                let mut out: Results = vec![];
                let mut ctx = Ctx::new(&texts, &[], round % 2 == 1);
                for k in &c.calls {
                    rt::as_main(|| exec(k, &mut ctx, &mut out));
                }
                rep.evals += out.len() as u64;
                if round == c.rounds - 1 {
                    for o in &out {
                        rep.hash(o.1.as_bytes());
                    }
                }
            } else {
                let docs = Arc::new(texts.clone());
                let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..c.threads.min(4))
                    .map(|_| {
                        let (docs, calls) = (docs.clone(), c.calls.clone());
                        Box::new(move || {
                            let mut out: Results = vec![];
                            let mut ctx = rt::harness(|| Ctx::new(&docs, &[], false));
                            for k in &calls {
                                exec(k, &mut ctx, &mut out);
                            }
                            rt::harness(|| drop(ctx));
                            rt::harness(move || {
                                drop(out);
                                drop(docs);
                                drop(calls);
                            });
                        }) as Box<dyn FnOnce() + Send>
                    })
                    .collect();
                let sw = c.sw.iter().map(|&(f, t)| (1 + f as u64 / 50, t)).collect();
                rt::run_tasks(bodies, sw, vec![], &[], 4_000_000_000, u64::MAX, 0);
                rep.evals += c.threads as u64;
                rep.steps += rt::sched().steps;
            }
            live.push(rt::astats());
        }
        let n = live.len();
        let (q2, q3, q4) = (live[n / 2 - 1], live[n * 3 / 4 - 1], live[n - 1]);
        let half = (n - n / 2) as u64;
        let gb = q4.live_blocks.saturating_sub(q2.live_blocks);
        let gy = q4.live_bytes.saturating_sub(q2.live_bytes);
        let rising = (q3.live_blocks > q2.live_blocks && q4.live_blocks > q3.live_blocks) || (q3.live_bytes > q2.live_bytes && q4.live_bytes > q3.live_bytes);
        if rising && (gb * 4 >= half || gy >= half * 8) {
            rep.violate(
                "memory-grows",
                format!(
                    "after {} rounds {} bytes in {} blocks are retained, after {} rounds {} bytes in {} blocks, with every result dropped",
                    n / 2,
                    q2.live_bytes,
                    q2.live_blocks,
                    n,
                    q4.live_bytes,
                    q4.live_blocks
                ),
            );
        }
        rep.steps += unsafe { rt::MAIN_STEPS };
        rep.switches = rt::sched().switches;
        rep.fault("preemption", rep.switches);
        if c.threads > 0 {
            rep.fault("thread exit", c.threads as u64 * c.rounds as u64);
        }
        for k in &c.calls {
            match k {
                Call::RenderFail { plan, .. } => rep.fault(if plan.panic { "writer unwinds" } else { "writer fails" }, c.rounds as u64),
                Call::LexDrop { .. } => rep.fault("lexer dropped early", c.rounds as u64),
                Call::ConvertPanic { .. } | Call::TryLossy { .. } => rep.fault("event lost", c.rounds as u64),
                Call::JsonTorn { .. } | Call::CborTorn { .. } => rep.fault("torn record", c.rounds as u64),
                Call::JsonWriteFail { unwind, .. } => rep.fault(if *unwind { "serializer's writer unwinds" } else { "serializer's writer fails" }, c.rounds as u64),
                Call::ReadFail { unwind, .. } => rep.fault(if *unwind { "reader unwinds" } else { "read failed" }, c.rounds as u64),
                Call::Reenter { .. } => rep.fault("writer re-enters the library", c.rounds as u64),
                Call::Suspend { .. } => rep.fault("lexer suspended", c.rounds as u64),
                _ => {}
            }
        }
        rep.probe("allocations", q4.allocs);
        rep.probe("releases", q4.frees);
        rep.probe("bytes retained at the end", q4.live_bytes);
        rep.hash64(q4.allocs);
        rep.hash64(rt::sched().trace);
        unsafe {
            rep.cov = (*std::ptr::addr_of!(rt::COV)).iter().map(|&x| x as u64).sum();
            rep.sim_ns = rep.steps * 100;
        }
        rep.nontrivial = q4.allocs > 50;
        rep
    }
    fn rule(&self) -> &'static str {
        "a run repeats 1-3 calls (completed, abandoned, re-entrant, on one thread or on short-lived preempted threads) 40-1500 times on ever new texts of one shape, under an allocator with exact accounting; non-trivial if more than 50 blocks were requested"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "memory retained after the first half of the rounds counts as warm-up; retention that keeps rising by a quarter of a block or 8 bytes per round counts as growth",
            "every release is checked against the request (double release, other layout, overwritten header)",
        ]
    }
    fn real(&self) -> &'static str {
        "all of yamd, std collections, serde_json, ciborium; real OS threads"
    }
    fn stub(&self) -> &'static str {
        "heap (own arena), thread scheduling, clock, entropy, writers"
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case6 {
    docs: Vec<String>,
    shared: Vec<String>,
    env: EnvCase,
    call: Call,
    /// which requests are refused, in thousandths of all requests of the call; empty: all of them
    at: Vec<u32>,
    once: bool,
    /// refuse only requests of at least this size
    min: u32,
}

pub struct R06;

fn attempt(c: &Case6, fail_at: u64) -> Outcome {
    rt::forked(30_000, || {
        unsafe {
            // the messages of the aborting processes
            let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(fd, 2);
        }
        apply_env(&c.env);
        unsafe { rt::MAIN_BUDGET = 2_000_000_000 };
        let needs = matches!(c.call, Call::SRender { .. } | Call::SConvert { .. } | Call::SEq { .. } | Call::SJson { .. } | Call::SClone { .. });
        let mut out: Results = vec![];
        let sh = if needs { rt::as_main(|| make_shared(&c.shared)) } else { vec![] };
        let mut ctx = Ctx::new(&c.docs, &sh, false);
        unsafe {
            rt::FAIL_AT = fail_at;
            rt::FAIL_ONCE = c.once;
            rt::FAIL_MIN = c.min as usize;
            rt::ARMED = true;
        }
        rt::as_main(|| exec(&c.call, &mut ctx, &mut out));
        unsafe { rt::ARMED = false };
        let refused = unsafe { rt::REFUSED };
        let n = unsafe { rt::ARMED_REQ };
        let first = out.pop().map(|x| x.1).unwrap_or_default();
        // with memory available again, the call works
        let mut ctx = Ctx::new(&c.docs, &sh, false);
        let mut out: Results = vec![];
        rt::as_main(|| exec(&c.call, &mut ctx, &mut out));
        let second = out.pop().map(|x| x.1).unwrap_or_default();
        let steps = unsafe { rt::MAIN_STEPS };
        let cov: u64 = unsafe { (*std::ptr::addr_of!(rt::COV)).iter().map(|&x| x as u64).sum() };
        serde_json::to_vec(&(first, second, n, refused, steps, cov)).unwrap()
    })
}

impl Prop for R06 {
    fn id(&self) -> &'static str {
        "R06"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            4000
        } else {
            30000
        }
    }
    fn gen(&self, r: &mut Rng, tier: Tier, _i: u64) -> Value {
        let nd = r.range(1, 2);
        let docs = gen::family(r, nd);
        let ns = r.below(2);
        let shared: Vec<String> = (0..ns).map(|_| r.pick(&docs).clone()).collect();
        let call = gen_call(r, nd, ns, true);
        let all = r.chance(1, 2) && docs.iter().map(|d| d.len()).sum::<usize>() < if tier == Tier::Quick { 200 } else { 800 };
        let k = r.range(4, 14);
        serde_json::to_value(Case6 {
            docs,
            shared,
            env: EnvCase { env: 0, ..gen_env(r) },
            call,
            at: if all { vec![] } else { (0..k).map(|_| r.below(1000) as u32).collect() },
            once: r.chance(1, 2),
            min: *r.pick(&[0, 0, 0, 16, 64, 200, 1000]),
        })
        .unwrap()
    }
    fn run(&self, case: &Value) -> Report {
        let Ok(c) = serde_json::from_value::<Case6>(case.clone()) else {
            return Report { skip: true, ..Default::default() };
        };
        let mut rep = Report::default();
        type R = (String, String, u64, u64, u64, u64);
        let (want, n) = match attempt(&c, 0) {
            Outcome::Ok(b) => {
                let r: R = serde_json::from_slice(&b).unwrap();
                rep.cov = r.5;
                rep.steps = r.4;
                (r.0, r.2)
            }
            _ => {
                rep.probe("no-reference", 1);
                return rep;
            }
        };
        let points: Vec<u64> = if c.at.is_empty() {
            (1..=n.min(400)).collect()
        } else {
            let mut v: Vec<u64> = c.at.iter().map(|&x| 1 + x as u64 * n.max(1) / 1000).filter(|&x| x <= n).collect();
            v.sort();
            v.dedup();
            v
        };
        for k in points {
            rep.evals += 1;
            match attempt(&c, k) {
                Outcome::Ok(b) => {
                    let r: R = serde_json::from_slice(&b).unwrap();
                    rep.fault("allocation refused", r.3);
                    rep.hash(r.0.as_bytes());
                    rep.steps += r.4;
                    if r.3 > 0 {
                        rep.probe("survived a refused allocation", 1);
                    }
                    if r.0 != want && r.0 != "PANIC" && r.0 != "ERR" {
                        rep.violate("wrong-result", format!("request {k} of {n} refused: {:?} gave {:?} instead of {:?}", c.call, cut(&r.0), cut(&want)));
                    }
                    if r.1 != want {
                        rep.violate("wrong-later-result", format!("after request {k} of {n} was refused: {:?} gave {:?} instead of {:?}", c.call, cut(&r.1), cut(&want)));
                    }
                }
                Outcome::Signal(6) => {
                    rep.fault("allocation refused", 1);
                    rep.probe("process aborted", 1);
                    rep.hash64(k);
                }
                Outcome::Signal(s) => rep.violate(&format!("crash-signal-{s}"), format!("request {k} of {n} refused: the process died of signal {s}")),
                Outcome::Viol(a, m) => rep.violate(&a, format!("request {k} of {n} refused: {m}")),
                Outcome::Exit(x) => rep.violate("exit", format!("request {k} of {n} refused: exit status {x}")),
                Outcome::Timeout => rep.violate("hang", format!("request {k} of {n} refused: no end")),
            }
        }
        rep.hash64(n);
        rep.hash(want.as_bytes());
        rep.nontrivial = rep.faults.get("allocation refused").copied().unwrap_or(0) > 0;
        rep.sim_ns = rep.steps * 100;
        rep
    }
    fn rule(&self) -> &'static str {
        "a run makes one call on a seeded text, counts its allocation requests, and repeats it in fresh processes with requests refused (every one of them for small texts, seeded ones otherwise; once or for good; any size or only big ones); non-trivial if a request was actually refused"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["an abort, a panic or an error counts as a loud end", "the reference is the same call with all requests granted"]
    }
    fn real(&self) -> &'static str {
        "all of yamd, std collections and allocation error handling, serde_json, ciborium"
    }
    fn stub(&self) -> &'static str {
        "heap (refuses requests), clock, entropy"
    }
}

fn cut(s: &str) -> String {
    s.chars().take(200).collect()
}
