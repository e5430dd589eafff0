//! R08: event streams damaged between producer and consumer. R09: streams paired with another or
//! a damaged source.
use super::conc::{apply_env, gen_env, EnvCase};
use crate::driver::*;
use crate::gen;
use crate::mirror::{self, MDoc, MOp, MB, MC, NODE_NAMES, N_DOCUMENT, N_HEADING, N_METADATA};
use crate::rng::Rng;
use crate::rt;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Fault {
    Lose(u32),
    /// a run of events
    LoseRun(u32, u32),
    Dup(u32),
    /// event delivered again later
    Late(u32, u32),
    Swap(u32, u32),
    /// one event overtakes others
    Move(u32, u32),
    Truncate(u32),
    /// the beginning is lost
    Behead(u32),
    /// events i.. of another stream arrive at position j
    Splice(u8, u32, u32, u32),
    /// as Splice, but a complete bracketed group
    SpliceGroup(u8, u32, u32),
    /// all events but the ones of one group
    OnlyGroup(u32),
    LoseGroup(u32),
    DupGroup(u32),
    MoveGroup(u32, u32),
    /// the stream is delivered twice
    Twice,
    /// only the closing (or opening) event of a node is lost
    LoseEnd(u32),
    LoseStart(u32),
    /// a node's closing event is exchanged with that of another node
    SwapEnds(u32, u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum BFault {
    Lose(u32),
    Dup(u32),
    Move(u32, u32),
    Reverse,
    LoseAll,
    Meta(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case8 {
    docs: Vec<String>,
    env: EnvCase,
    /// alternative sequences of faults applied to the stream of the first text
    faults: Vec<Vec<Fault>>,
    blocks: Vec<Vec<BFault>>,
    /// every single event loss, duplication and truncation is tried too
    every: bool,
}

pub struct R08;

fn gen_fault(r: &mut Rng) -> Fault {
    let p = |r: &mut Rng| r.below(1000) as u32;
    match r.below(22) {
        0 | 1 => Fault::Lose(p(r)),
        2 => Fault::LoseRun(p(r), r.skewed(12) as u32 + 1),
        3 => Fault::Dup(p(r)),
        4 => Fault::Late(p(r), p(r)),
        5 => Fault::Swap(p(r), p(r)),
        6 => Fault::Move(p(r), p(r)),
        7 => Fault::Truncate(p(r)),
        8 => Fault::Behead(p(r)),
        9 => Fault::Splice(r.below(3) as u8, p(r), r.skewed(10) as u32 + 1, p(r)),
        10..=12 => Fault::SpliceGroup(r.below(3) as u8, p(r), p(r)),
        13 => Fault::OnlyGroup(p(r)),
        14 => Fault::LoseGroup(p(r)),
        15 => Fault::DupGroup(p(r)),
        16 => Fault::MoveGroup(p(r), p(r)),
        17 => Fault::Twice,
        18 => Fault::LoseEnd(p(r)),
        19 => Fault::LoseStart(p(r)),
        _ => Fault::SwapEnds(p(r), p(r)),
    }
}

/// end (exclusive) of the bracketed group beginning at i, if it has one
fn group(o: &[MOp], i: usize) -> Option<usize> {
    if o.get(i)?.k != 'S' {
        return None;
    }
    let mut d = 0i64;
    for (j, x) in o.iter().enumerate().skip(i) {
        match x.k {
            'S' => d += 1,
            'E' => d -= 1,
            _ => {}
        }
        if d == 0 {
            return Some(j + 1);
        }
    }
    None
}
fn nth(o: &[MOp], k: char, p: u32) -> Option<usize> {
    let v: Vec<usize> = (0..o.len()).filter(|&i| o[i].k == k).collect();
    if v.is_empty() {
        None
    } else {
        Some(v[p as usize * v.len() / 1000])
    }
}

fn damage(f: &Fault, o: &mut Vec<MOp>, others: &[Vec<MOp>]) -> Option<&'static str> {
    let n = o.len();
    let ix = |p: &u32| (*p as usize * n / 1000).min(n.saturating_sub(1));
    if n == 0 && !matches!(f, Fault::Splice(..) | Fault::SpliceGroup(..)) {
        return None;
    }
    Some(match f {
        Fault::Lose(p) => {
            o.remove(ix(p));
            "event lost"
        }
        Fault::LoseRun(p, k) => {
            let a = ix(p);
            o.drain(a..(a + *k as usize).min(n));
            "run of events lost"
        }
        Fault::Dup(p) => {
            let a = ix(p);
            o.insert(a, o[a].clone());
            "event duplicated"
        }
        Fault::Late(p, q) => {
            let (a, b) = (ix(p), ix(q));
            let x = o[a.min(b)].clone();
            o.insert(a.max(b) + 1, x);
            "event duplicated"
        }
        Fault::Swap(p, q) => {
            let (a, b) = (ix(p), ix(q));
            o.swap(a, b);
            "events reordered"
        }
        Fault::Move(p, q) => {
            let x = o.remove(ix(p));
            let b = ix(q).min(o.len());
            o.insert(b, x);
            "events reordered"
        }
        Fault::Truncate(p) => {
            o.truncate(ix(p));
            "stream cut short"
        }
        Fault::Behead(p) => {
            o.drain(..ix(p));
            "beginning of the stream lost"
        }
        Fault::Splice(d, p, k, q) => {
            let x = &others[*d as usize % others.len()];
            if x.is_empty() {
                return None;
            }
            let a = *p as usize * x.len() / 1000;
            let v: Vec<MOp> = x[a..(a + *k as usize).min(x.len())].to_vec();
            let b = (*q as usize * (n + 1) / 1000).min(n);
            o.splice(b..b, v);
            "foreign events spliced in"
        }
        Fault::SpliceGroup(d, p, q) => {
            let x = &others[*d as usize % others.len()];
            let i = nth(x, 'S', *p)?;
            let j = group(x, i)?;
            let b = (*q as usize * (n + 1) / 1000).min(n);
            o.splice(b..b, x[i..j].to_vec());
            "foreign events spliced in"
        }
        Fault::OnlyGroup(p) => {
            let i = nth(o, 'S', *p)?;
            let j = group(o, i)?;
            *o = o[i..j].to_vec();
            "run of events lost"
        }
        Fault::LoseGroup(p) => {
            let i = nth(o, 'S', *p)?;
            let j = group(o, i)?;
            o.drain(i..j);
            "run of events lost"
        }
        Fault::DupGroup(p) => {
            let i = nth(o, 'S', *p)?;
            let j = group(o, i)?;
            let v = o[i..j].to_vec();
            o.splice(j..j, v);
            "run of events duplicated"
        }
        Fault::MoveGroup(p, q) => {
            let i = nth(o, 'S', *p)?;
            let j = group(o, i)?;
            let v: Vec<MOp> = o.drain(i..j).collect();
            let b = (*q as usize * (o.len() + 1) / 1000).min(o.len());
            o.splice(b..b, v);
            "events reordered"
        }
        Fault::Twice => {
            let v = o.clone();
            o.extend(v);
            "stream duplicated"
        }
        Fault::LoseEnd(p) => {
            let i = nth(o, 'E', *p)?;
            o.remove(i);
            "event lost"
        }
        Fault::LoseStart(p) => {
            let i = nth(o, 'S', *p)?;
            o.remove(i);
            "event lost"
        }
        Fault::SwapEnds(p, q) => {
            let (i, j) = (nth(o, 'E', *p)?, nth(o, 'E', *q)?);
            o.swap(i, j);
            "events reordered"
        }
    })
}

fn balanced(o: &[MOp]) -> bool {
    let mut st: Vec<u8> = vec![];
    for x in o {
        match x.k {
            'S' => st.push(x.n),
            'E' => {
                if st.pop() != Some(x.n) {
                    return false;
                }
            }
            _ => {}
        }
    }
    st.is_empty()
}

fn describe(o: &[MOp]) -> String {
    let mut s = String::new();
    for x in o.iter().take(40) {
        match x.k {
            'V' => s.push_str("V "),
            k => {
                s.push(k);
                s.push('(');
                s.push_str(NODE_NAMES[x.n as usize]);
                s.push_str(") ");
            }
        }
    }
    if o.len() > 40 {
        s.push_str(&format!("… {} more", o.len() - 40));
    }
    s
}

/// every range replaced by its text
fn materialise(o: &[MOp], src: &str) -> Vec<MOp> {
    o.iter()
        .map(|x| match &x.c {
            MC::Span(a, b) if a < b => MOp { c: src.get(*a..*b).map(|t| MC::Text(t.to_string())).unwrap_or_else(|| x.c.clone()), ..x.clone() },
            _ => x.clone(),
        })
        .collect()
}

enum Res {
    Doc(MDoc),
    Err,
    Panic,
}
fn try_convert(ops: &[yamd::op::Op], src: &str) -> Res {
    match rt::as_main(|| catch_unwind(AssertUnwindSafe(|| yamd::try_to_yamd(ops, src)))) {
        Ok(Ok(y)) => Res::Doc(mirror::doc(&y)),
        Ok(Err(_)) => Res::Err,
        Err(_) => Res::Panic,
    }
}

fn cut(s: &str) -> String {
    s.chars().take(200).collect()
}

impl R08 {
    fn judge(&self, rep: &mut Report, ms: &[MOp], src: &str, what: &str) {
        rep.evals += 1;
        let ops = mirror::build_ops(ms);
        let ok = balanced(ms);
        rep.hash64(ok as u64 + 2 * ms.len() as u64);
        if ok {
            rep.probe("damaged but still balanced", 1);
        }
        match (try_convert(&ops, src), ok) {
            (Res::Panic, _) => rep.violate("panic", format!("{what}: try_to_yamd panicked on {}", describe(ms))),
            (Res::Err, true) => rep.violate("rejected", format!("{what}: every event has its partner, yet the stream is rejected: {}", describe(ms))),
            (Res::Doc(d), false) => {
                rep.violate("misread", format!("{what}: an event lacks its partner, yet the stream converts to {}: {}", cut(&serde_json::to_string(&d).unwrap()), describe(ms)))
            }
            (Res::Doc(d), true) => {
                rep.hash(serde_json::to_string(&d).unwrap().as_bytes());
                if let Some(w) = crate::model::read(ms, src) {
                    rep.probe("compared with the model", 1);
                    if w != d {
                        rep.violate(
                            "misread",
                            format!(
                                "{what}: the stream says {} but converts to {}: {}",
                                cut(&serde_json::to_string(&w).unwrap()),
                                cut(&serde_json::to_string(&d).unwrap()),
                                describe(ms)
                            ),
                        );
                    }
                }
                match rt::as_main(|| catch_unwind(AssertUnwindSafe(|| yamd::to_yamd(&ops, src)))) {
                    Ok(y) => {
                        if mirror::doc(&y) != d {
                            rep.violate("forms-differ", format!("{what}: to_yamd and try_to_yamd give different documents for {}", describe(ms)));
                        }
                    }
                    Err(_) => rep.violate("panic", format!("{what}: to_yamd panicked on a balanced stream: {}", describe(ms))),
                }
            }
            (Res::Err, false) => {
                if rt::as_main(|| catch_unwind(AssertUnwindSafe(|| yamd::to_yamd(&ops, src)))).is_ok() {
                    rep.violate("misread", format!("{what}: to_yamd accepts a stream try_to_yamd rejects: {}", describe(ms)));
                }
            }
        }
    }
}

impl Prop for R08 {
    fn id(&self) -> &'static str {
        "R08"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            20_000
        } else {
            500_000
        }
    }
    fn gen(&self, r: &mut Rng, _tier: Tier, _idx: u64) -> Value {
        let nd = r.range(1, 3);
        let docs = gen::family(r, nd);
        let faults = (0..r.range(2, 14))
            .map(|_| {
                let k = 1 + r.skewed(4);
                (0..k).map(|_| gen_fault(r)).collect()
            })
            .collect();
        let blocks = (0..r.range(1, 5))
            .map(|_| {
                let k = 1 + r.skewed(3);
                (0..k)
                    .map(|_| match r.below(9) {
                        0 | 1 => BFault::Lose(r.below(1000) as u32),
                        2 | 3 => BFault::Dup(r.below(1000) as u32),
                        4 | 5 => BFault::Move(r.below(1000) as u32, r.below(1000) as u32),
                        6 => BFault::Reverse,
                        7 => BFault::LoseAll,
                        _ => BFault::Meta(r.below(3) as u8),
                    })
                    .collect()
            })
            .collect();
        serde_json::to_value(Case8 { docs, env: gen_env(r), faults, blocks, every: r.chance(1, 2) }).unwrap()
    }
    fn run(&self, case: &Value) -> Report {
        let Ok(c) = serde_json::from_value::<Case8>(case.clone()) else {
            return Report { skip: true, ..Default::default() };
        };
        let mut rep = Report::default();
        if c.docs.is_empty() {
            rep.skip = true;
            return rep;
        }
        apply_env(&c.env);
        unsafe { rt::MAIN_BUDGET = 20_000_000_000 };
        // the producers; foreign text travels with its events
        let mut streams = vec![];
        for d in &c.docs {
            match rt::as_main(|| catch_unwind(|| yamd::parse(d))) {
                Ok(o) => streams.push(materialise(&mirror::ops(&o), d)),
                Err(_) => {
                    rep.probe("parse panics", 1);
                    return rep;
                }
            }
        }
        let src = &c.docs[0];
        let plain = mirror::ops(&rt::as_main(|| yamd::parse(src)));
        // intact
        rep.evals += 1;
        let whole = rt::as_main(|| yamd::deserialize(src));
        let whole = mirror::doc(&whole);
        match try_convert(&mirror::build_ops(&plain), src) {
            Res::Doc(d) if d == whole => {}
            Res::Doc(d) => rep.violate(
                "differs",
                format!(
                    "the intact stream of {:?} converts to {}, the source to {}",
                    cut(src),
                    cut(&serde_json::to_string(&d).unwrap()),
                    cut(&serde_json::to_string(&whole).unwrap())
                ),
            ),
            Res::Err => rep.violate("rejected", format!("the intact stream of {:?} is rejected: {}", cut(src), describe(&plain))),
            Res::Panic => rep.violate("panic", format!("the intact stream of {:?} makes try_to_yamd panic", cut(src))),
        }
        if !balanced(&plain) {
            rep.violate("unbalanced", format!("parse gives an unbalanced stream for {:?}: {}", cut(src), describe(&plain)));
        }
        if rep.viol.is_some() {
            return rep;
        }
        if c.every && plain.len() <= 120 {
            for i in 0..plain.len() {
                let mut a = plain.clone();
                a.remove(i);
                self.judge(&mut rep, &a, src, &format!("event {i} lost"));
                rep.fault("event lost", 1);
                let mut a = plain.clone();
                a.insert(i, plain[i].clone());
                self.judge(&mut rep, &a, src, &format!("event {i} duplicated"));
                rep.fault("event duplicated", 1);
                self.judge(&mut rep, &plain[..i], src, &format!("stream cut before event {i}"));
                rep.fault("stream cut short", 1);
                self.judge(&mut rep, &plain[i..], src, &format!("stream without its first {i} events"));
                if i + 1 < plain.len() {
                    let mut a = plain.clone();
                    a.swap(i, i + 1);
                    self.judge(&mut rep, &a, src, &format!("event {i} overtaken"));
                    rep.fault("events reordered", 1);
                }
                if rep.viol.is_some() {
                    return rep;
                }
            }
        }
        for fs in &c.faults {
            let mut a = plain.clone();
            for f in fs {
                if let Some(k) = damage(f, &mut a, &streams) {
                    rep.fault(k, 1);
                }
                if a.len() > 40_000 {
                    break;
                }
            }
            self.judge(&mut rep, &a, src, &format!("{fs:?}"));
            if rep.viol.is_some() {
                return rep;
            }
        }
        // complete blocks
        let Some(start) = plain.iter().position(|x| x.k == 'S' && x.n == N_DOCUMENT) else {
            rep.probe("no document in the stream", 1);
            finish(&mut rep);
            return rep;
        };
        let Some(end) = group(&plain, start) else {
            return rep;
        };
        // a block travels with the separators behind it
        let mut groups: Vec<Vec<MOp>> = vec![];
        let mut head: Vec<MOp> = vec![];
        let mut i = start + 1;
        while i < end - 1 {
            match group(&plain, i) {
                Some(j) => {
                    groups.push(plain[i..j].to_vec());
                    i = j;
                }
                None => {
                    groups.last_mut().unwrap_or(&mut head).push(plain[i].clone());
                    i += 1;
                }
            }
        }
        if groups.len() != whole.body.len() || end != plain.len() {
            rep.probe("blocks are not groups", 1);
            if std::env::var_os("YSIM_DEBUG").is_some() {
                eprintln!("{src:?}: {} groups, {} blocks: {}", groups.len(), whole.body.len(), describe(&plain));
            }
            finish(&mut rep);
            return rep;
        }
        let meta = plain[..start].to_vec();
        for bs in &c.blocks {
            let mut order: Vec<usize> = (0..groups.len()).collect();
            let mut m: Vec<Vec<MOp>> = vec![meta.clone()];
            let mut wm = whole.meta.clone();
            let mut tail: Vec<MOp> = vec![];
            for b in bs {
                let n = order.len();
                match b {
                    BFault::Lose(p) if n > 0 => {
                        order.remove(*p as usize * n / 1000);
                        rep.fault("block lost", 1);
                    }
                    BFault::Dup(p) if n > 0 && n < 200 => {
                        let k = *p as usize * n / 1000;
                        order.insert(k, order[k]);
                        rep.fault("block duplicated", 1);
                    }
                    BFault::Move(p, q) if n > 0 => {
                        let x = order.remove(*p as usize * n / 1000);
                        order.insert(*q as usize * n / 1000, x);
                        rep.fault("block reordered", 1);
                    }
                    BFault::Reverse => {
                        order.reverse();
                        rep.fault("block reordered", 1);
                    }
                    BFault::LoseAll => order.clear(),
                    BFault::Meta(0) => {
                        m.clear();
                        tail.clear();
                        wm = None;
                        rep.fault("block lost", 1);
                    }
                    BFault::Meta(1) => {
                        if !m.is_empty() {
                            m.push(meta.clone());
                            rep.fault("block duplicated", 1);
                        }
                    }
                    BFault::Meta(_) => {
                        // metadata arrives last
                        if !m.is_empty() {
                            m.clear();
                            tail = meta.clone();
                            rep.fault("block reordered", 1);
                        }
                    }
                    _ => {}
                }
            }
            let mut a: Vec<MOp> = m.concat();
            a.push(plain[start].clone());
            a.extend(head.iter().cloned());
            for &k in &order {
                a.extend(groups[k].iter().cloned());
            }
            a.push(plain[end - 1].clone());
            a.extend(tail);
            let want = MDoc { meta: wm, body: order.iter().map(|&k| whole.body[k].clone()).collect() };
            rep.evals += 1;
            match try_convert(&mirror::build_ops(&a), src) {
                Res::Doc(d) if d == want => rep.hash(serde_json::to_string(&d).unwrap().as_bytes()),
                Res::Doc(d) => rep.violate(
                    "blocks-differ",
                    format!("{bs:?} on the blocks of {:?}: {} instead of {}", cut(src), cut(&serde_json::to_string(&d).unwrap()), cut(&serde_json::to_string(&want).unwrap())),
                ),
                Res::Err => rep.violate("rejected", format!("{bs:?} on the blocks of {:?}: rejected", cut(src))),
                Res::Panic => rep.violate("panic", format!("{bs:?} on the blocks of {:?}: try_to_yamd panicked", cut(src))),
            }
            if rep.viol.is_some() {
                return rep;
            }
        }
        finish(&mut rep);
        rep
    }
    fn rule(&self) -> &'static str {
        "a run parses up to three related texts and delivers the events of one to the converter through a link that loses, duplicates, reorders, truncates and splices events and whole nodes (every single-event fault for streams of up to 120 events, seeded combinations otherwise), and loses, repeats and reorders complete blocks; non-trivial if a fault was applied"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the reference for acceptance is a 10-line bracket matcher; the reference for block faults is the same fault applied to the blocks of the intact document",
            "events spliced in from another stream carry their text with them",
        ]
    }
    fn real(&self) -> &'static str {
        "yamd::parse, try_to_yamd, to_yamd, deserialize"
    }
    fn stub(&self) -> &'static str {
        "the link between producer and consumer, clock, entropy, heap"
    }
}

fn finish(rep: &mut Report) {
    rep.steps = unsafe { rt::MAIN_STEPS };
    rep.sim_ns = rep.steps * 100;
    rep.nontrivial = !rep.faults.is_empty();
    unsafe {
        rep.cov = (*std::ptr::addr_of!(rt::COV)).iter().map(|&x| x as u64).sum();
    }
}

// ---------------------------------------------------------------- R09

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum SFault {
    /// only this many thousandths of the bytes survive (at a character boundary)
    Truncate(u32),
    /// the first part is lost
    Behead(u32),
    /// bytes in front
    Shift(String),
    Insert(u32, String),
    Remove(u32, u32),
    /// another version of the text
    Other(u8),
    /// letters replaced, same shape
    Letters(u8),
    /// one character replaced by one of another width
    Wide(u32, char),
    /// every line end rewritten
    Eol,
    /// the n-th sign of the kind replaced
    Mark(u32, char, char),
    Append(String),
    Empty,
    /// bytes inside the text of one event overwritten: kind of node, which of them, where, with what
    Within(u32, u32, u32, String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case9 {
    docs: Vec<String>,
    env: EnvCase,
    faults: Vec<Vec<SFault>>,
    /// every truncation is tried too
    every: bool,
    /// the stream itself also suffered: events lost (thousandths)
    lose: Vec<u32>,
}

pub struct R09;

fn boundary(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

fn damage_src(f: &SFault, s: &str, docs: &[String], spans: &[Vec<(usize, usize)>]) -> String {
    let at = |p: u32| boundary(s, p as usize * (s.len() + 1) / 1000);
    match f {
        SFault::Truncate(p) => s[..at(*p)].to_string(),
        SFault::Behead(p) => s[at(*p)..].to_string(),
        SFault::Shift(t) => format!("{t}{s}"),
        SFault::Insert(p, t) => {
            let i = at(*p);
            format!("{}{t}{}", &s[..i], &s[i..])
        }
        SFault::Remove(p, k) => {
            let i = at(*p);
            let j = boundary(s, i + *k as usize).max(i);
            format!("{}{}", &s[..i], &s[j..])
        }
        SFault::Other(d) => docs[*d as usize % docs.len()].clone(),
        SFault::Letters(k) => s.chars().map(|c| if c.is_ascii_lowercase() { (b'a' + (c as u8 - b'a' + k % 26) % 26) as char } else { c }).collect(),
        SFault::Wide(p, c) => {
            let i = at(*p);
            let mut it = s[i..].chars();
            it.next();
            format!("{}{c}{}", &s[..i], it.as_str())
        }
        SFault::Mark(p, m, c) => {
            let v: Vec<usize> = s.match_indices(*m).map(|x| x.0).collect();
            if v.is_empty() {
                return s.to_string();
            }
            let i = v[*p as usize * v.len() / 1001];
            format!("{}{c}{}", &s[..i], &s[i + m.len_utf8()..])
        }
        SFault::Eol => s.replace('\n', "\r\n"),
        SFault::Append(t) => format!("{s}{t}"),
        SFault::Empty => String::new(),
        SFault::Within(k, i, p, t) => {
            if spans.is_empty() {
                return s.to_string();
            }
            let v = &spans[*k as usize * spans.len() / 1001];
            let (a, b) = v[*i as usize * v.len() / 1001];
            // as many bytes as there is room for
            let n = boundary(t, t.len().min(b - a));
            let at = match p % 3 {
                0 => a,
                1 => b - n,
                _ => a + *p as usize * (b - a - n + 1) / 1001,
            };
            if s.is_char_boundary(at) && s.is_char_boundary(at + n) && at + n <= s.len() {
                format!("{}{}{}", &s[..at], &t[..n], &s[at + n..])
            } else {
                s.to_string()
            }
        }
    }
}

fn gen_sfault(r: &mut Rng) -> SFault {
    let p = |r: &mut Rng| r.below(1001) as u32;
    let t = |r: &mut Rng| r.pick(&["a", "é", "🤔", "\n", "#", "###", "x\n\ny", "中", "\\", "**"]).to_string();
    match r.below(22) {
        17..=21 => {
            let mut t = String::new();
            for _ in 0..r.range(1, 3) {
                t.push_str(*r.pick(&["\n", "\n", " ", "\r\n", "\t", "#", "|", "`", "```", "!!", "%}", "\\", "*", "é", "-", "\0", "&"]));
            }
            SFault::Within(p(r), p(r), p(r), t)
        }
        14..=16 => SFault::Mark(p(r), *r.pick(&['#', '#', '#', ' ', '|', '*', '\n']), *r.pick(&['x', ' ', '#', '\n', '|', 'é'])),
        0 | 1 => SFault::Truncate(p(r)),
        2 => SFault::Behead(p(r)),
        3 => SFault::Shift(t(r)),
        4 | 5 => SFault::Insert(p(r), t(r)),
        6 => SFault::Remove(p(r), 1 + r.skewed(9) as u32),
        7 => SFault::Other(r.below(3) as u8),
        8 => SFault::Letters(1 + r.below(25) as u8),
        9 | 10 => SFault::Wide(p(r), *r.pick(&['é', '🤔', '中', 'x', '#', '\n'])),
        11 => SFault::Eol,
        12 => SFault::Append(t(r)),
        _ => SFault::Empty,
    }
}

fn heading_levels(b: &[MB], out: &mut Vec<u8>) {
    for x in b {
        match x {
            MB::Head(l, _) => out.push(*l),
            MB::Coll(_, v) => heading_levels(v, out),
            _ => {}
        }
    }
}

impl R09 {
    /// `whole`: no event of the stream was lost
    fn judge(&self, rep: &mut Report, plain: &[MOp], src: &str, what: &str, whole: bool) {
        rep.evals += 1;
        let ops = mirror::build_ops(plain);
        // which texts are needed, by the node they belong to
        let mut st: Vec<u8> = vec![];
        let (mut bad, mut unneeded) = (None, false);
        let mut m = vec![];
        for (i, x) in plain.iter().enumerate() {
            let mut y = x.clone();
            if let MC::Span(a, b) = x.c {
                if a < b {
                    match src.get(a..b) {
                        Some(t) => y.c = MC::Text(t.to_string()),
                        None => {
                            let needed = match (x.k, st.last()) {
                                ('S', _) => x.n == N_HEADING,
                                ('V', Some(&n)) => {
                                    let ignored = matches!(
                                        NODE_NAMES[n as usize],
                                        "ThematicBreak"
                                            | "Document"
                                            | "Highlight"
                                            | "Anchor"
                                            | "Image"
                                            | "Images"
                                            | "Collapsible"
                                            | "UnorderedList"
                                            | "OrderedList"
                                            | "ListItem"
                                            | "Embed"
                                    );
                                    unneeded |= ignored;
                                    !ignored
                                }
                                ('V', None) => {
                                    unneeded = true;
                                    false
                                }
                                _ => false,
                            };
                            if needed && bad.is_none() {
                                bad = Some(i);
                            }
                            y.c = MC::Text(String::new());
                        }
                    }
                } else {
                    y.c = MC::Text(String::new());
                }
            }
            match x.k {
                'S' => st.push(x.n),
                'E' => {
                    st.pop();
                }
                _ => {}
            }
            m.push(y);
        }
        let got = try_convert(&ops, src);
        if !balanced(plain) {
            match got {
                Res::Panic => rep.violate("panic", format!("{what}: try_to_yamd panicked")),
                Res::Doc(_) => rep.violate("misread", format!("{what}: an unbalanced stream is accepted")),
                Res::Err => {}
            }
            return;
        }
        match (&got, bad) {
            (Res::Panic, _) => rep.violate("panic", format!("{what}: try_to_yamd panicked on a source of {} bytes", src.len())),
            (Res::Doc(d), Some(i)) => rep.violate(
                "misread",
                format!(
                    "{what}: the text of event {i} ({:?}) is no valid range of the source ({} bytes), yet the stream converts to {}",
                    plain[i],
                    src.len(),
                    cut(&serde_json::to_string(d).unwrap())
                ),
            ),
            (Res::Err, Some(_)) => {
                rep.probe("range no longer valid", 1);
            }
            (Res::Err, None) if unneeded => {}
            (Res::Err, None) => rep.violate("rejected", format!("{what}: every range is valid in the source {:?}, yet the stream is rejected", cut(src))),
            (Res::Doc(d), None) if unneeded => {
                let _ = d;
            }
            (Res::Doc(d), None) => {
                // reference: the text substituted beforehand; and then the source must not matter
                for other in ["", "\u{10ffff}# other text of its own, and quite some of it, so that ranges would be valid in it"] {
                    match try_convert(&mirror::build_ops(&m), other) {
                        Res::Doc(w) if w == *d => {}
                        Res::Doc(w) => rep.violate(
                            "substitution-differs",
                            format!("{what}, source {:?}: {} instead of {}", cut(src), cut(&serde_json::to_string(d).unwrap()), cut(&serde_json::to_string(&w).unwrap())),
                        ),
                        Res::Err => rep.violate("rejected", format!("{what}: a stream that carries all its text is rejected with source {other:?}")),
                        Res::Panic => rep.violate("panic", format!("{what}: a stream that carries all its text makes try_to_yamd panic")),
                    }
                }
                // a heading's level is what its opening text says
                let levels: Vec<u8> = m
                    .iter()
                    .filter(|x| x.k == 'S' && x.n == N_HEADING)
                    .map(|x| match &x.c {
                        MC::Text(t) => t.chars().take_while(|&c| c == '#').count() as u8,
                        _ => 0,
                    })
                    .collect();
                let mut have = vec![];
                heading_levels(&d.body, &mut have);
                // nodes in places where they mean nothing do not reach the document
                let mut k = 0;
                if have.len() > levels.len() || !have.iter().all(|l| levels[k..].iter().position(|x| x == l).map(|p| k += p + 1).is_some()) || (whole && have != levels) {
                    rep.violate("heading-level", format!("{what}, source {:?}: headings of levels {have:?} instead of {levels:?}", cut(src)));
                }
                if let Some(w) = crate::model::read(&m, "") {
                    rep.probe("compared with the model", 1);
                    if w != *d {
                        rep.violate(
                            "substitution-differs",
                            format!("{what}, source {:?}: {} instead of {}", cut(src), cut(&serde_json::to_string(d).unwrap()), cut(&serde_json::to_string(&w).unwrap())),
                        );
                    }
                }
                rep.hash(serde_json::to_string(&d).unwrap().as_bytes());
            }
        }
        if let Res::Err = got {
            if rt::as_main(|| catch_unwind(AssertUnwindSafe(|| yamd::to_yamd(&ops, src)))).is_ok() {
                rep.violate("misread", format!("{what}: to_yamd accepts what try_to_yamd rejects"));
            }
        }
    }
}

impl Prop for R09 {
    fn id(&self) -> &'static str {
        "R09"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            40_000
        } else {
            500_000
        }
    }
    fn gen(&self, r: &mut Rng, _tier: Tier, _idx: u64) -> Value {
        let nd = r.range(1, 3);
        let docs = gen::family(r, nd);
        let faults = (0..r.range(3, 16)).map(|_| (0..1 + r.skewed(3)).map(|_| gen_sfault(r)).collect()).collect();
        let lose = if r.chance(1, 5) { (0..r.range(1, 2)).map(|_| r.below(1000) as u32).collect() } else { vec![] };
        serde_json::to_value(Case9 { docs, env: gen_env(r), faults, every: r.chance(1, 2), lose }).unwrap()
    }
    fn run(&self, case: &Value) -> Report {
        let Ok(c) = serde_json::from_value::<Case9>(case.clone()) else {
            return Report { skip: true, ..Default::default() };
        };
        let mut rep = Report::default();
        if c.docs.is_empty() {
            rep.skip = true;
            return rep;
        }
        apply_env(&c.env);
        unsafe { rt::MAIN_BUDGET = 20_000_000_000 };
        let src = &c.docs[0];
        let mut plain = match rt::as_main(|| catch_unwind(|| yamd::parse(src))) {
            Ok(o) => mirror::ops(&o),
            Err(_) => {
                rep.probe("parse panics", 1);
                return rep;
            }
        };
        for p in &c.lose {
            if !plain.is_empty() {
                let k = *p as usize * plain.len() / 1000;
                plain.remove(k);
                rep.fault("event lost", 1);
            }
        }
        let _ = N_METADATA;
        let whole = c.lose.is_empty();
        self.judge(&mut rep, &plain, src, "its own source", whole);
        if c.every && src.len() <= 260 {
            for i in 0..=src.len() {
                if src.is_char_boundary(i) {
                    self.judge(&mut rep, &plain, &src[..i], &format!("source cut to {i} bytes"), whole);
                    rep.fault("source truncated", 1);
                    self.judge(&mut rep, &plain, &src[i..], &format!("first {i} bytes of the source lost"), whole);
                    rep.fault("source shifted", 1);
                }
                if rep.viol.is_some() {
                    return rep;
                }
            }
        }
        // the texts of the events, by the node they belong to
        let mut by = std::collections::BTreeMap::<u8, Vec<(usize, usize)>>::new();
        let mut st = vec![];
        for x in &plain {
            match x.k {
                'S' => st.push(x.n),
                'E' => {
                    st.pop();
                }
                _ => {}
            }
            if let MC::Span(a, b) = x.c {
                if a < b && x.k != 'E' {
                    by.entry(st.last().copied().unwrap_or(99)).or_default().push((a, b));
                }
            }
        }
        let spans: Vec<Vec<(usize, usize)>> = by.into_values().collect();
        for fs in &c.faults {
            let mut s = src.clone();
            for f in fs {
                s = damage_src(f, &s, &c.docs, &spans);
                rep.fault(
                    match f {
                        SFault::Truncate(_) | SFault::Empty => "source truncated",
                        SFault::Behead(_) | SFault::Shift(_) | SFault::Insert(..) | SFault::Remove(..) | SFault::Eol | SFault::Wide(..) | SFault::Mark(..) => "source shifted",
                        SFault::Other(_) => "source replaced",
                        _ => "source overwritten",
                    },
                    1,
                );
            }
            self.judge(&mut rep, &plain, &s, &format!("{fs:?}"), whole);
            if rep.viol.is_some() {
                return rep;
            }
        }
        finish(&mut rep);
        rep
    }
    fn rule(&self) -> &'static str {
        "a run parses one text and converts its events against sources that were truncated (every length for texts of up to 260 bytes), shifted, replaced, overwritten or re-encoded since; non-trivial if a fault was applied"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "text is needed if it belongs to a heading's opening event or is a value of a node that keeps values; for values a node ignores (and embeds, which ignore some) both answers are accepted",
            "the reference document is the conversion of the same stream with every range replaced by its text, made without the source",
        ]
    }
    fn real(&self) -> &'static str {
        "yamd::parse, try_to_yamd, to_yamd"
    }
    fn stub(&self) -> &'static str {
        "the storage the source is read back from, clock, entropy, heap"
    }
}
