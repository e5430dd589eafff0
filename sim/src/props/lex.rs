//! R07: lexers pulled in every way, suspended, moved between threads and dropped.
use super::conc::{apply_env, gen_env, gen_switches, EnvCase};
use crate::calls::{pristine, Call};
use crate::driver::*;
use crate::gen;
use crate::mirror;
use crate::rng::Rng;
use crate::rt;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use yamd::lexer::{Lexer, Token};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Pull {
    Next(u32),
    Nth(u32),
    /// by_ref().take(k).collect()
    Take(u32),
    /// by_ref().skip(k).next()
    Skip(u32),
    /// by_ref().step_by(k).take(n)
    StepBy(u32, u32),
    SizeHint,
    /// first token from here on whose kind is that of token k
    Find(u32),
    Position(u32),
    TryFold(u32),
    TakeWhile(u32),
    /// an unfused peekable dropped without being drained loses one peeked token
    Peek,
    Zip(u32),
    Chunked(u32),
    /// filter/map/enumerate chain, n results
    Chain(u32),
    // consuming
    Collect,
    Count,
    Last,
    Fold,
    ForEach,
    MaxBy,
    Partition,
    Extend,
    Fuse(u32),
    ForLoop(u32),
    Reduce,
    EqSelf,
    Drop,
    /// forgets the pulled state by replacing the lexer
    Renew,
}

fn consuming(p: &Pull) -> bool {
    use Pull::*;
    matches!(p, Collect | Count | Last | Fold | ForEach | MaxBy | Partition | Extend | Fuse(_) | ForLoop(_) | Reduce | EqSelf | Drop)
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step7 {
    /// which lexer
    l: u8,
    pulls: Vec<Pull>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case7 {
    docs: Vec<String>,
    env: EnvCase,
    /// text of each lexer
    lexers: Vec<u8>,
    /// per task: what it does, one step after the other
    tasks: Vec<Vec<Step7>>,
    sw: Vec<(u32, u8)>,
    first: u8,
    boxed: bool,
}

pub struct R07;

fn gen_pull(r: &mut Rng) -> Pull {
    let k = |r: &mut Rng| r.skewed(12) as u32;
    match r.below(34) {
        0..=5 => Pull::Next(1 + r.skewed(6) as u32),
        6 | 7 => Pull::Nth(k(r)),
        8 => Pull::Take(k(r)),
        9 => Pull::Skip(k(r)),
        10 => Pull::StepBy(1 + r.skewed(4) as u32, k(r)),
        11..=13 => Pull::SizeHint,
        14 => Pull::Find(r.below(60) as u32),
        15 => Pull::Position(r.below(60) as u32),
        16 => Pull::TryFold(k(r)),
        17 => Pull::TakeWhile(r.below(60) as u32),
        18 => Pull::Peek,
        19 => Pull::Zip(k(r)),
        20 => Pull::Chunked(1 + r.skewed(5) as u32),
        21 => Pull::Chain(k(r)),
        22 => Pull::Collect,
        23 => Pull::Count,
        24 => Pull::Last,
        25 => Pull::Fold,
        26 => r.pick(&[Pull::ForEach, Pull::Extend, Pull::Reduce, Pull::EqSelf]).clone(),
        27 => Pull::MaxBy,
        28 => Pull::Partition,
        29 => Pull::Fuse(k(r)),
        30 => Pull::ForLoop(k(r)),
        31 => Pull::Drop,
        32 => Pull::Renew,
        _ => Pull::Next(40),
    }
}

fn tok(t: &Token) -> String {
    rt::harness(|| mirror::tok(t))
}
fn kind(s: &str) -> &str {
    s.split('|').next().unwrap_or("")
}

/// Performs one pull on the real lexer. Returns what was observed.
fn pull(p: &Pull, slot: &mut Option<Lexer<'static>>, doc: &'static str, refs: &[String]) -> Vec<String> {
    let mut out: Vec<String> = rt::harness(|| Vec::with_capacity(64));
    let push = |out: &mut Vec<String>, t: Option<&Token>| {
        rt::harness(|| out.push(t.map(mirror::tok).unwrap_or_else(|| "END".into())));
    };
    let want = |k: &u32| -> &str {
        if refs.is_empty() {
            ""
        } else {
            kind(&refs[*k as usize % refs.len()])
        }
    };
    let is = |t: &Token, k: &u32| rt::harness(|| format!("{:?}", t.kind) == want(k));
    if *p == Pull::Renew {
        *slot = Some(Lexer::new(doc));
        return out;
    }
    if consuming(p) {
        let lx = slot.take().unwrap();
        match p {
            Pull::Collect => {
                let v: Vec<Token> = lx.collect();
                for t in &v {
                    push(&mut out, Some(t));
                }
            }
            Pull::Extend => {
                let mut v: std::collections::VecDeque<Token> = Default::default();
                v.extend(lx);
                for t in &v {
                    push(&mut out, Some(t));
                }
            }
            Pull::Count => {
                let n = lx.count();
                rt::harness(|| out.push(n.to_string()));
            }
            Pull::Last => {
                let t = lx.last();
                push(&mut out, t.as_ref());
            }
            Pull::Fold => {
                let o = &mut out;
                lx.fold((), |_, t| push(o, Some(&t)));
            }
            Pull::ForEach => {
                let o = &mut out;
                lx.for_each(|t| push(o, Some(&t)));
            }
            Pull::Reduce => {
                let t = lx.reduce(|a, b| if b.range.len() >= a.range.len() { b } else { a });
                push(&mut out, t.as_ref());
            }
            Pull::MaxBy => {
                let t = lx.max_by_key(|t| t.range.len());
                push(&mut out, t.as_ref());
            }
            Pull::Partition => {
                let (a, b): (Vec<Token>, Vec<Token>) = lx.partition(|t| t.range.start % 2 == 0);
                for t in a.iter().chain(b.iter()) {
                    push(&mut out, Some(t));
                }
            }
            Pull::Fuse(n) => {
                let mut f = lx.fuse();
                for _ in 0..*n {
                    let t = f.next();
                    push(&mut out, t.as_ref());
                }
                let v: Vec<Token> = f.collect();
                for t in &v {
                    push(&mut out, Some(t));
                }
            }
            Pull::ForLoop(n) => {
                let mut k = 0;
                for t in lx {
                    if k >= *n {
                        break;
                    }
                    k += 1;
                    push(&mut out, Some(&t));
                }
            }
            Pull::EqSelf => {
                let other = Lexer::new(doc);
                let a: Vec<Token> = lx.collect();
                let b: Vec<Token> = other.skip(0).collect();
                let e = b.ends_with(&a);
                rt::harness(|| out.push(e.to_string()));
            }
            _ => drop(lx),
        }
        return out;
    }
    let lx = slot.as_mut().unwrap();
    match p {
        Pull::Next(n) => {
            for _ in 0..*n {
                let t = lx.next();
                push(&mut out, t.as_ref());
            }
        }
        Pull::Nth(k) => {
            let t = lx.nth(*k as usize);
            push(&mut out, t.as_ref());
        }
        Pull::Take(k) => {
            let v: Vec<Token> = lx.by_ref().take(*k as usize).collect();
            for t in &v {
                push(&mut out, Some(t));
            }
        }
        Pull::Skip(k) => {
            let t = lx.by_ref().skip(*k as usize).next();
            push(&mut out, t.as_ref());
        }
        Pull::StepBy(k, n) => {
            let mut it = lx.by_ref().step_by((*k).max(1) as usize);
            for _ in 0..*n {
                let t = it.next();
                push(&mut out, t.as_ref());
            }
        }
        Pull::SizeHint => {
            let (lo, hi) = lx.size_hint();
            rt::harness(|| {
                out.push(lo.to_string());
                out.push(hi.map(|h| h.to_string()).unwrap_or_default());
            });
        }
        Pull::Find(k) => {
            let t = lx.find(|t| is(t, k));
            push(&mut out, t.as_ref());
        }
        Pull::Position(k) => {
            let n = lx.position(|t| is(&t, k));
            rt::harness(|| out.push(format!("{n:?}")));
        }
        Pull::TryFold(n) => {
            let mut left = *n as i64;
            let o = &mut out;
            let _ = lx.try_fold((), |_, t| {
                push(o, Some(&t));
                left -= 1;
                if left < 0 {
                    Err(())
                } else {
                    Ok(())
                }
            });
        }
        Pull::TakeWhile(k) => {
            let v: Vec<Token> = lx.by_ref().take_while(|t| !is(t, k)).collect();
            for t in &v {
                push(&mut out, Some(t));
            }
        }
        Pull::Peek => {
            let mut p = lx.by_ref().peekable();
            rt::harness(|| out.push(p.peek().map(mirror::tok).unwrap_or_else(|| "END".into())));
        }
        Pull::Zip(k) => {
            let v: Vec<(u32, Token)> = (0..*k).zip(lx.by_ref()).collect();
            for t in &v {
                push(&mut out, Some(&t.1));
            }
        }
        Pull::Chunked(k) => loop {
            let v: Vec<Token> = lx.by_ref().take(*k as usize).collect();
            rt::harness(|| out.push(format!("chunk {}", v.len())));
            for t in &v {
                push(&mut out, Some(t));
            }
            if v.is_empty() || out.len() > 60 {
                break;
            }
        },
        Pull::Chain(n) => {
            let v: Vec<(usize, Token)> = lx.by_ref().enumerate().filter(|(i, _)| i % 2 == 0).map(|(i, t)| (i, t)).take(*n as usize).collect();
            for t in &v {
                push(&mut out, Some(&t.1));
            }
        }
        _ => {}
    }
    let _ = tok;
    out
}

/// What the same pull gives on the reference sequence, and where it leaves it.
/// `Err` describes a bound instead of a value.
fn model(p: &Pull, at: &mut usize, refs: &[String], got: &[String]) -> Result<(), Vec<String>> {
    let mut out: Vec<String> = vec![];
    let next = |at: &mut usize| -> String {
        let s = refs.get(*at).cloned().unwrap_or_else(|| "END".into());
        if *at < refs.len() {
            *at += 1;
        }
        s
    };
    let range = |s: &String| -> (usize, usize) {
        let x = s.split('|').nth(1).unwrap();
        let (a, b) = x.split_once("..").unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    };
    let want = |k: &u32| -> &str {
        if refs.is_empty() {
            ""
        } else {
            kind(&refs[*k as usize % refs.len()])
        }
    };
    match p {
        Pull::Renew => *at = 0,
        Pull::Next(n) => {
            for _ in 0..*n {
                out.push(next(at));
            }
        }
        Pull::Nth(k) | Pull::Skip(k) => {
            for _ in 0..*k {
                next(at);
            }
            out.push(next(at));
        }
        Pull::Take(k) | Pull::Zip(k) => {
            for _ in 0..*k {
                let t = next(at);
                if t == "END" {
                    break;
                }
                out.push(t);
            }
        }
        Pull::StepBy(k, n) => {
            let k = (*k).max(1);
            for i in 0..*n {
                if i > 0 {
                    for _ in 0..k - 1 {
                        next(at);
                    }
                }
                out.push(next(at));
            }
        }
        Pull::SizeHint => {
            let left = refs.len() - *at;
            let lo: usize = got.first().and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
            let hi: usize = got.get(1).and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
            if lo > left || hi < left {
                return Err(vec![format!("bounds of {left}")]);
            }
            return Ok(());
        }
        Pull::Find(k) => loop {
            let t = next(at);
            if t == "END" || kind(&t) == want(k) {
                out.push(t);
                break;
            }
        },
        Pull::Position(k) => {
            let mut n = 0usize;
            out.push(loop {
                let t = next(at);
                if t == "END" {
                    break "None".to_string();
                }
                if kind(&t) == want(k) {
                    break format!("Some({n})");
                }
                n += 1;
            });
        }
        Pull::TryFold(n) => {
            for _ in 0..=*n {
                let t = next(at);
                if t == "END" {
                    break;
                }
                out.push(t);
            }
        }
        Pull::TakeWhile(k) => loop {
            let t = next(at);
            if t == "END" || kind(&t) == want(k) {
                break;
            }
            out.push(t);
        },
        Pull::Peek => out.push(next(at)),
        Pull::Chunked(k) => loop {
            let mut v = vec![];
            for _ in 0..*k {
                let t = next(at);
                if t == "END" {
                    break;
                }
                v.push(t);
            }
            let e = v.is_empty();
            out.push(format!("chunk {}", v.len()));
            out.extend(v);
            if e || out.len() > 60 {
                break;
            }
        },
        Pull::Chain(n) => {
            let mut i = 0;
            let mut found = 0;
            while found < *n {
                let t = next(at);
                if t == "END" {
                    break;
                }
                if i % 2 == 0 {
                    out.push(t);
                    found += 1;
                }
                i += 1;
            }
        }
        Pull::Collect | Pull::Extend | Pull::Fold | Pull::ForEach => out.extend(refs[*at..].iter().cloned()),
        Pull::Count => out.push((refs.len() - *at).to_string()),
        Pull::Last => out.push(refs[*at..].last().cloned().unwrap_or_else(|| "END".into())),
        Pull::Reduce | Pull::MaxBy => {
            let mut best: Option<&String> = None;
            for t in &refs[*at..] {
                let (a, b) = range(t);
                if best.map(|x| range(x)).map(|(c, d)| b - a >= d - c).unwrap_or(true) {
                    best = Some(t);
                }
            }
            out.push(best.cloned().unwrap_or_else(|| "END".into()));
        }
        Pull::Partition => {
            let v = &refs[*at..];
            out.extend(v.iter().filter(|t| range(t).0 % 2 == 0).cloned());
            out.extend(v.iter().filter(|t| range(t).0 % 2 != 0).cloned());
        }
        Pull::Fuse(n) => {
            for _ in 0..*n {
                out.push(next(at));
            }
            out.extend(refs[*at..].iter().cloned());
        }
        Pull::ForLoop(n) => {
            for _ in 0..*n {
                let t = next(at);
                if t == "END" {
                    break;
                }
                out.push(t);
            }
        }
        Pull::EqSelf => out.push("true".into()),
        Pull::Drop => {}
    }
    if out.as_slice() == got {
        Ok(())
    } else {
        Err(out)
    }
}

type Log = Vec<(usize, Pull, Vec<String>)>;
struct Slot {
    lx: Option<Lexer<'static>>,
    busy: bool,
    log: Log,
}
struct Table(Vec<Mutex<Slot>>, Vec<String>, Vec<Vec<String>>);
unsafe impl Send for Table {}
unsafe impl Sync for Table {}

fn step(t: &Table, task: usize, s: &Step7, lexers: &[u8]) {
    let l = s.l as usize % t.0.len();
    let d = lexers[l] as usize % t.1.len();
    let doc: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(t.1[d].as_str()) };
    let refs = &t.2[d];
    // take the lexer out of the table: it moves to this task
    let mut lx = rt::harness(|| {
        let mut g = t.0[l].lock().unwrap();
        if g.busy {
            return None;
        }
        g.busy = true;
        Some(g.lx.take())
    });
    let Some(lx) = lx.as_mut() else { return };
    for p in &s.pulls {
        if lx.is_none() {
            *lx = Some(Lexer::new(doc));
            rt::harness(|| t.0[l].lock().unwrap().log.push((task, Pull::Renew, vec![])));
        }
        let r = catch_unwind(AssertUnwindSafe(|| pull(p, lx, doc, refs)));
        rt::harness(|| {
            let r = r.unwrap_or_else(|_| vec!["PANIC".into()]);
            t.0[l].lock().unwrap().log.push((task, p.clone(), r));
        });
        rt::point();
    }
    rt::harness(|| {
        let mut g = t.0[l].lock().unwrap();
        g.lx = lx.take();
        g.busy = false;
    });
    rt::point();
}

impl Prop for R07 {
    fn id(&self) -> &'static str {
        "R07"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            24_000
        } else {
            600_000
        }
    }
    fn gen(&self, r: &mut Rng, _tier: Tier, idx: u64) -> Value {
        let nd = r.range(1, 3);
        let mut docs = gen::family(r, nd);
        if idx % 50 == 9 {
            docs[0] = gen::special_run(r);
        }
        let nl = r.range(1, 4);
        let lexers: Vec<u8> = (0..nl).map(|_| r.below(nd) as u8).collect();
        let nt = r.range(1, 3);
        let mut tasks = vec![];
        for _ in 0..nt {
            let ns = r.range(1, 6);
            tasks.push((0..ns).map(|_| Step7 { l: r.below(nl) as u8, pulls: (0..r.range(1, 5)).map(|_| gen_pull(r)).collect() }).collect());
        }
        serde_json::to_value(Case7 { docs, env: gen_env(r), lexers, tasks, sw: gen_switches(r, nt), first: r.below(nt) as u8, boxed: r.chance(1, 2) }).unwrap()
    }
    fn run(&self, case: &Value) -> Report {
        let Ok(c) = serde_json::from_value::<Case7>(case.clone()) else {
            return Report { skip: true, ..Default::default() };
        };
        let mut rep = Report::default();
        if !super::conc::lexer_moves() {
            rep.violate("not-movable", "a lexer can not be moved to another thread");
        }
        if c.docs.is_empty() || c.lexers.is_empty() || c.tasks.is_empty() {
            rep.skip = true;
            return rep;
        }
        let mut refs: Vec<Vec<String>> = vec![];
        let mut total = 0;
        for d in 0..c.docs.len() {
            let Some((s, w)) = pristine(&Call::Lex { d }, &c.docs, &[]) else {
                rep.probe("no-reference", 1);
                return rep;
            };
            if s == "PANIC" {
                rep.probe("no-reference", 1);
                return rep;
            }
            total += w + 50;
            refs.push(s.split_terminator(';').map(|x| x.to_string()).collect());
        }
        apply_env(&c.env);
        unsafe { rt::MAIN_BUDGET = 4_000_000_000 };
        let table = Arc::new(Table(c.lexers.iter().map(|_| Mutex::new(Slot { lx: None, busy: false, log: vec![] })).collect(), c.docs.clone(), refs));
        let steps: usize = c.tasks.iter().map(|t| t.len()).sum();
        let work = total * steps as u64;
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (i, t) in c.tasks.iter().enumerate().take(rt::MAXT) {
            let (t, table, lexers) = (t.clone(), table.clone(), c.lexers.clone());
            bodies.push(Box::new(move || {
                for s in &t {
                    step(&table, i, s, &lexers);
                }
                rt::harness(move || {
                    drop(t);
                    drop(table);
                    drop(lexers);
                });
            }));
        }
        let sw = c.sw.iter().map(|&(f, t)| (1 + (f as u64 * work / 3) / 1_000_000, t)).collect();
        rt::run_tasks(bodies, sw, vec![], &[], work * 400 + 50_000_000, u64::MAX, c.first as usize);
        let s = rt::sched();
        rep.switches = s.switches;
        rep.steps = s.steps;
        rep.trace = s.trace;
        rep.fault("preemption", s.switches);
        // what is left in the table is drained on the main thread
        for (l, slot) in table.0.iter().enumerate() {
            let d = c.lexers[l] as usize % c.docs.len();
            let doc: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(table.1[d].as_str()) };
            let mut g = slot.lock().unwrap();
            let mut log = std::mem::take(&mut g.log);
            let mut lx = g.lx.take();
            if lx.is_some() {
                for p in [Pull::SizeHint, if c.boxed { Pull::Collect } else { Pull::Next(table.2[d].len() as u32 + 3) }] {
                    let r = rt::as_main(|| catch_unwind(AssertUnwindSafe(|| pull(&p, &mut lx, doc, &table.2[d]))));
                    log.push((99, p, r.unwrap_or_else(|_| vec!["PANIC".into()])));
                }
            }
            rt::as_main(|| drop(lx));
            let refs = &table.2[d];
            let mut at = 0;
            let mut last_task = None;
            for (k, (task, p, got)) in log.iter().enumerate() {
                rep.evals += 1;
                if last_task.is_some() && last_task != Some(*task) {
                    rep.fault("lexer moved to another thread", 1);
                }
                last_task = Some(*task);
                match p {
                    Pull::Drop => rep.fault("lexer dropped early", 1),
                    Pull::Next(_) | Pull::SizeHint => {}
                    _ => rep.fault("pull by an adaptor", 1),
                }
                if at >= refs.len() && !consuming(p) && *p != Pull::Renew {
                    rep.probe("polled after the end", 1);
                }
                for g in got {
                    rep.hash(g.as_bytes());
                }
                let from = at;
                if let Err(want) = model(p, &mut at, refs, got) {
                    rep.violate(
                        "other-tokens",
                        format!(
                            "lexer {l} over {:?}, pull {k} ({p:?}) by caller {task} at token {from} of {}: got {:?}, expected {:?}",
                            cut(doc),
                            refs.len(),
                            got.iter().take(6).collect::<Vec<_>>(),
                            want.iter().take(6).collect::<Vec<_>>()
                        ),
                    );
                    return rep;
                }
                if consuming(p) {
                    at = 0;
                }
            }
        }
        rep.nontrivial = !rep.faults.is_empty();
        rep.sim_ns = rep.steps * 100;
        unsafe {
            rep.cov = (*std::ptr::addr_of!(rt::COV)).iter().map(|&x| x as u64).sum();
        }
        rep
    }
    fn rule(&self) -> &'static str {
        "a run has up to 4 lexers over related texts, handed around between up to 3 callers that are preempted inside the lexer and that pull by next, nth, skip, step_by, take, zip, try_fold, peekable, find and all consuming methods, poll beyond the end, and drop them early; non-trivial if a lexer was pulled by an adaptor, moved, dropped or preempted"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the tokens next() gives to a pristine process are the reference sequence", "the reference iterator semantics are those of std for a vector of tokens"]
    }
    fn real(&self) -> &'static str {
        "yamd::lexer, std iterator adaptors; real OS threads"
    }
    fn stub(&self) -> &'static str {
        "thread scheduling, clock, entropy, heap"
    }
}

fn cut(s: &str) -> String {
    s.chars().take(120).collect()
}
