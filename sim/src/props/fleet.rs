//! R30: records outlive the build that wrote them. A fleet of nodes, some running the present
//! build and some the released one (the pinned types), replicate documents and event streams over
//! a faulty network while they are edited, relayed, crashed, restarted, upgraded and rolled back.
use super::conc::{apply_env, gen_env, EnvCase};
use crate::driver::*;
use crate::gen;
use crate::mirror::{self, MDoc, MOp, MB};
use crate::pinned;
use crate::rng::Rng;
use crate::rt;
use crate::sinks::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use yamd::op::Op;
use yamd::Yamd;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Act {
    /// the owner of the key puts a document
    Put {
        key: u8,
        d: u32,
        fmt: u8,
    },
    /// the owner of the key puts a text's events
    PutEvents {
        key: u8,
        d: u32,
        fmt: u8,
    },
    /// the owner changes the document it has stored
    Edit {
        key: u8,
        i: u32,
        b: Option<MB>,
        fmt: u8,
    },
    /// a node sends what it has stored under the key, as it is or read and written again
    Send {
        from: u8,
        to: u8,
        key: u8,
        again: Option<u8>,
    },
    Deliver {
        i: u32,
    },
    Lose {
        i: u32,
    },
    Repeat {
        i: u32,
    },
    /// a node is down until it is started again, in one release or the other
    Crash {
        n: u8,
    },
    Start {
        n: u8,
        new: bool,
    },
    /// a node reads everything it has
    Scrub {
        n: u8,
    },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case30 {
    docs: Vec<MDoc>,
    texts: Vec<String>,
    env: EnvCase,
    /// who runs the present build
    new: Vec<bool>,
    acts: Vec<Act>,
    io: Vec<IoStep>,
}

#[derive(Clone, PartialEq, Debug)]
enum Val {
    Doc(MDoc),
    Ops(Vec<MOp>),
}
#[derive(Clone)]
struct Rec {
    ver: u32,
    fmt: u8,
    ops: bool,
    /// the release that wrote it
    by: bool,
    bytes: Vec<u8>,
}
struct Node {
    new: bool,
    up: bool,
    disk: BTreeMap<u8, Rec>,
}
struct Msg {
    to: u8,
    key: u8,
    rec: Rec,
}

const KEYS: u8 = 12;

fn write<T: Serialize>(v: &T, fmt: u8, io: &[IoStep]) -> Result<Vec<u8>, String> {
    let e = |e: &dyn std::fmt::Display| e.to_string();
    let mut s = IoSink::new(io, false);
    match fmt % 5 {
        0 => serde_json::to_vec(v).map_err(|x| e(&x)),
        1 => serde_json::to_writer_pretty(&mut s, v).map(|_| s.got).map_err(|x| e(&x)),
        2 => serde_json::to_value(v).and_then(|v| serde_json::to_vec(&v)).map_err(|x| e(&x)),
        3 => ciborium::into_writer(v, &mut s).map(|_| s.got).map_err(|x| e(&x)),
        _ => {
            let v = ciborium::Value::serialized(v).map_err(|x| e(&x))?;
            ciborium::into_writer(&v, &mut s).map(|_| s.got).map_err(|x| e(&x))
        }
    }
}
fn read<T: for<'a> Deserialize<'a>>(b: &[u8], fmt: u8, io: &[IoStep]) -> Result<T, String> {
    let e = |e: &dyn std::fmt::Display| e.to_string();
    match fmt % 5 {
        0 => serde_json::from_slice(b).map_err(|x| e(&x)),
        1 => serde_json::from_reader(IoSource::new(b, io)).map_err(|x| e(&x)),
        2 => serde_json::from_slice::<Value>(b).and_then(serde_json::from_value).map_err(|x| e(&x)),
        3 => ciborium::from_reader(IoSource::new(b, io)).map_err(|x| e(&x)),
        _ => ciborium::from_reader::<ciborium::Value, _>(b).map_err(|x| e(&x))?.deserialized().map_err(|x| e(&x)),
    }
}
fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    rt::as_main(|| catch_unwind(AssertUnwindSafe(f))).unwrap_or_else(|_| Err("panicked".into()))
}
fn encode(new: bool, v: &Val, fmt: u8, io: &[IoStep]) -> Result<Vec<u8>, String> {
    match (v, new) {
        (Val::Doc(d), true) => {
            let y = mirror::build(d);
            guard(|| write(&y, fmt, io))
        }
        (Val::Doc(d), false) => write(&pinned::doc(d), fmt, io),
        (Val::Ops(o), true) => {
            let o = mirror::build_ops(o);
            guard(|| write(&o, fmt, io))
        }
        (Val::Ops(o), false) => write(&o.iter().map(pinned::op).collect::<Vec<_>>(), fmt, io),
    }
}
fn decode(new: bool, r: &Rec, io: &[IoStep]) -> Result<Val, String> {
    match (r.ops, new) {
        (false, true) => guard(|| read::<Yamd>(&r.bytes, r.fmt, io)).map(|y| Val::Doc(mirror::doc(&y))),
        (false, false) => read::<pinned::Yamd>(&r.bytes, r.fmt, io).map(|y| Val::Doc(pinned::mdoc(y))),
        (true, true) => guard(|| read::<Vec<Op>>(&r.bytes, r.fmt, io)).map(|o| Val::Ops(mirror::ops(&o))),
        (true, false) => read::<Vec<pinned::Op>>(&r.bytes, r.fmt, io).map(|o| Val::Ops(o.into_iter().map(pinned::mop).collect())),
    }
}
fn show(v: &Val) -> String {
    let s = match v {
        Val::Doc(d) => serde_json::to_string(d),
        Val::Ops(o) => serde_json::to_string(o),
    };
    s.unwrap().chars().take(220).collect()
}
fn release(new: bool) -> &'static str {
    if new {
        "present"
    } else {
        "released"
    }
}

struct Fleet<'a> {
    nodes: Vec<Node>,
    net: Vec<Msg>,
    truth: BTreeMap<(u8, u32), Val>,
    last: BTreeMap<u8, u32>,
    io: &'a [IoStep],
    rep: Report,
}
impl Fleet<'_> {
    /// a node reads a record it holds
    fn open(&mut self, n: usize, key: u8) -> Option<Val> {
        let r = self.nodes[n].disk.get(&key)?.clone();
        let new = self.nodes[n].new;
        self.rep.evals += 1;
        let what = format!("{} of version {} written by the {} build and read by the {} build", if r.ops { "events" } else { "a document" }, r.ver, release(r.by), release(new));
        if r.by != new {
            self.rep.probe(if new { "written by the released build, read by the present one" } else { "written by the present build, read by the released one" }, 1);
        }
        let Some(want) = self.truth.get(&(key, r.ver)).cloned() else {
            self.rep.violate("harness", "a version nobody wrote");
            return None;
        };
        match decode(new, &r, self.io) {
            Err(e) => self
                .rep
                .violate("not-readable", format!("{what}: {e}; content {}; record {}", show(&want), String::from_utf8_lossy(&r.bytes).chars().take(300).collect::<String>())),
            Ok(v) if v != want => self.rep.violate("differs", format!("{what}: {} instead of {}", show(&v), show(&want))),
            Ok(v) => return Some(v),
        }
        None
    }
    fn store(&mut self, n: usize, key: u8, ver: u32, v: &Val, fmt: u8) -> bool {
        let new = self.nodes[n].new;
        match encode(new, v, fmt, self.io) {
            Ok(bytes) => {
                self.rep.hash(&bytes);
                self.nodes[n].disk.insert(key, Rec { ver, fmt, ops: matches!(v, Val::Ops(_)), by: new, bytes });
                true
            }
            Err(e) => {
                self.rep.violate("not-written", format!("the {} build cannot write {}: {e}", release(new), show(v)));
                false
            }
        }
    }
    fn put(&mut self, n: usize, key: u8, v: Val, fmt: u8) {
        let ver = self.last.get(&key).copied().unwrap_or(0) + 1;
        if self.store(n, key, ver, &v, fmt) {
            self.last.insert(key, ver);
            self.truth.insert((key, ver), v);
        }
    }
    fn send(&mut self, from: usize, to: usize, key: u8, again: Option<u8>) {
        if !self.nodes[from].up || !self.nodes[from].disk.contains_key(&key) {
            return;
        }
        if let Some(fmt) = again {
            let Some(v) = self.open(from, key) else { return };
            let ver = self.nodes[from].disk[&key].ver;
            if !self.store(from, key, ver, &v, fmt) {
                return;
            }
            self.rep.probe("relayed in another form", 1);
        }
        let rec = self.nodes[from].disk[&key].clone();
        self.net.push(Msg { to: to as u8, key, rec });
    }
    fn deliver(&mut self, m: Msg) {
        let n = m.to as usize;
        if !self.nodes[n].up {
            self.rep.fault("message to a node that is down", 1);
            return;
        }
        let have = self.nodes[n].disk.get(&m.key).map(|r| r.ver).unwrap_or(0);
        if m.rec.ver < have {
            self.rep.fault("late message", 1);
            return;
        }
        self.nodes[n].disk.insert(m.key, m.rec);
        self.open(n, m.key);
    }
}

pub struct R30;
impl Prop for R30 {
    fn id(&self) -> &'static str {
        "R30"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            40_000
        } else {
            300_000
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, idx: u64) -> Value {
        let n = r.range(2, 5);
        let docs: Vec<MDoc> = (0..r.range(1, 4)).map(|_| gen::mdoc(r, idx % 60 == 7)).collect();
        let k = r.range(1, 3);
        let texts: Vec<String> = gen::family(r, k).into_iter().filter(|t| t.len() < 5000).collect();
        let k = r.range(4, 40);
        let mut acts = vec![];
        for i in 0..k {
            let key = if r.chance(1, 2) { r.below(n) as u8 } else { r.below(KEYS as usize) as u8 };
            let node = r.below(n) as u8;
            let fmt = r.below(5) as u8;
            acts.push(match if i < 2 { r.below(5) } else { r.below(26) } {
                0..=2 => Act::Put { key, d: r.below(100) as u32, fmt },
                3 | 4 => Act::PutEvents { key, d: r.below(100) as u32, fmt },
                5 | 6 => Act::Edit { key, i: r.below(100) as u32, b: r.chance(2, 3).then(|| gen::mblock(r, 1)), fmt },
                7..=13 => Act::Send { from: if r.chance(1, 2) { key % n as u8 } else { node }, to: r.below(n) as u8, key, again: r.chance(1, 2).then_some(fmt) },
                14..=18 => Act::Deliver { i: r.below(1000) as u32 },
                19 => Act::Lose { i: r.below(1000) as u32 },
                20 => Act::Repeat { i: r.below(1000) as u32 },
                21 => Act::Crash { n: node },
                22..=24 => Act::Start { n: node, new: r.chance(1, 2) },
                _ => Act::Scrub { n: node },
            });
        }
        let io = (0..r.skewed(20))
            .map(|_| match r.below(3) {
                0 => IoStep::Interrupted,
                1 => IoStep::Short(1),
                _ => IoStep::Short(1 + r.below(40) as u32),
            })
            .collect();
        serde_json::to_value(Case30 { docs, texts, env: gen_env(r), new: (0..n).map(|_| r.chance(1, 2)).collect(), acts, io }).unwrap()
    }
    fn run(&self, case: &Value) -> Report {
        let Ok(c) = serde_json::from_value::<Case30>(case.clone()) else {
            return Report { skip: true, ..Default::default() };
        };
        if c.new.is_empty() || c.new.len() > 8 {
            return Report { skip: true, ..Default::default() };
        }
        apply_env(&c.env);
        unsafe { rt::MAIN_BUDGET = 20_000_000_000 };
        let n = c.new.len();
        let mut f = Fleet {
            nodes: c.new.iter().map(|&new| Node { new, up: true, disk: BTreeMap::new() }).collect(),
            net: vec![],
            truth: BTreeMap::new(),
            last: BTreeMap::new(),
            io: &c.io,
            rep: Report::default(),
        };
        if c.io.iter().any(|s| matches!(s, IoStep::Interrupted)) {
            f.rep.fault("interrupted read or write", 1);
        }
        if c.io.iter().any(|s| matches!(s, IoStep::Short(_))) {
            f.rep.fault("short read or write", 1);
        }
        for a in &c.acts {
            if f.rep.viol.is_some() {
                break;
            }
            match a {
                Act::Put { key, d, fmt } => {
                    let o = *key as usize % n;
                    if !f.nodes[o].up {
                        continue;
                    }
                    // only the present build has a parser to take texts with
                    let all = c.docs.len() + if f.nodes[o].new { c.texts.len() } else { 0 };
                    if all == 0 {
                        continue;
                    }
                    let i = *d as usize % all;
                    let v = if i < c.docs.len() { Val::Doc(c.docs[i].clone()) } else { Val::Doc(mirror::doc(&rt::as_main(|| yamd::deserialize(&c.texts[i - c.docs.len()])))) };
                    f.put(o, *key, v, *fmt);
                }
                Act::PutEvents { key, d, fmt } => {
                    let o = *key as usize % n;
                    if !f.nodes[o].up || c.texts.is_empty() {
                        continue;
                    }
                    let v = mirror::ops(&rt::as_main(|| yamd::parse(&c.texts[*d as usize % c.texts.len()])));
                    f.put(o, *key, Val::Ops(v), *fmt);
                }
                Act::Edit { key, i, b, fmt } => {
                    let o = *key as usize % n;
                    if !f.nodes[o].up || f.nodes[o].disk.get(key).map(|r| r.ver) != f.last.get(key).copied() {
                        continue;
                    }
                    match f.open(o, *key) {
                        Some(Val::Doc(mut d)) => {
                            let i = *i as usize % (d.body.len() + 1);
                            match b {
                                Some(b) => d.body.insert(i, b.clone()),
                                None if i < d.body.len() => drop(d.body.remove(i)),
                                None => d.meta = None,
                            }
                            f.put(o, *key, Val::Doc(d), *fmt);
                        }
                        Some(Val::Ops(mut v)) => {
                            if !v.is_empty() {
                                let i = *i as usize % v.len();
                                v.remove(i);
                            }
                            f.put(o, *key, Val::Ops(v), *fmt);
                        }
                        None => {}
                    }
                }
                Act::Send { from, to, key, again } => f.send(*from as usize % n, *to as usize % n, *key, *again),
                Act::Deliver { i } => {
                    if !f.net.is_empty() {
                        let i = *i as usize % f.net.len();
                        if i > 0 {
                            f.rep.fault("message overtaken", 1);
                        }
                        let m = f.net.remove(i);
                        f.deliver(m);
                    }
                }
                Act::Lose { i } => {
                    if !f.net.is_empty() {
                        let i = *i as usize % f.net.len();
                        f.net.remove(i);
                        f.rep.fault("message lost", 1);
                    }
                }
                Act::Repeat { i } => {
                    if !f.net.is_empty() {
                        let m = &f.net[*i as usize % f.net.len()];
                        let m = Msg { to: m.to, key: m.key, rec: m.rec.clone() };
                        f.net.push(m);
                        f.rep.fault("message repeated", 1);
                    }
                }
                Act::Crash { n: x } => {
                    let x = *x as usize % n;
                    if f.nodes[x].up {
                        f.nodes[x].up = false;
                        f.rep.fault("node crashed", 1);
                    }
                }
                Act::Start { n: x, new } => {
                    let x = &mut f.nodes[*x as usize % n];
                    if x.new != *new {
                        f.rep.fault(if *new { "node upgraded" } else { "node rolled back" }, 1);
                    }
                    x.new = *new;
                    x.up = true;
                }
                Act::Scrub { n: x } => {
                    let x = *x as usize % n;
                    for key in 0..KEYS {
                        if f.nodes[x].up {
                            f.open(x, key);
                        }
                    }
                }
            }
        }
        // the faults stop; every owner sends what it has to everybody, and everybody agrees
        for x in &mut f.nodes {
            x.up = true;
        }
        while f.rep.viol.is_none() && !f.net.is_empty() {
            let m = f.net.remove(0);
            f.deliver(m);
        }
        let keys: Vec<(u8, u32)> = f.last.iter().map(|(k, v)| (*k, *v)).collect();
        for (key, ver) in keys {
            let o = key as usize % n;
            for to in 0..n {
                if f.rep.viol.is_none() {
                    f.send(o, to, key, None);
                    while let Some(m) = f.net.pop() {
                        f.deliver(m);
                    }
                }
                if f.rep.viol.is_none() && f.nodes[to].disk.get(&key).map(|r| r.ver) != Some(ver) {
                    f.rep.violate("harness", format!("node {to} has no version {ver} of {key}"));
                }
            }
        }
        let mut rep = f.rep;
        rep.steps = unsafe { rt::MAIN_STEPS };
        rep.sim_ns = rep.steps * 100;
        rep.nontrivial = !rep.faults.is_empty() && rep.evals > 1;
        unsafe {
            rep.cov = (*std::ptr::addr_of!(rt::COV)).iter().map(|&x| x as u64).sum();
        }
        rep
    }
    fn rule(&self) -> &'static str {
        "a run is a fleet of 2-5 nodes, each with the present or the released build, that put, edit, re-encode, relay and replicate up to 12 versioned records (documents and event streams; JSON and CBOR, through readers, writers and values) while messages are lost, repeated, reordered and late, and nodes crash, restart, are upgraded and rolled back; every record read is compared with the content its version was written with; when the faults stop everybody receives every latest version; non-trivial if a fault fired and more than one record was read"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the released build's layout is that of the types at the pinned commit with serde's derives (pinned.rs); a layout both sides understand may be changed",
            "records are written atomically (torn ones are R10 and R11)",
        ]
    }
    fn real(&self) -> &'static str {
        "serde impls of all document and event types of the present build, yamd::parse, yamd::deserialize, serde_json, ciborium"
    }
    fn stub(&self) -> &'static str {
        "the nodes, their disks, the network, the released build's types (copies of the definitions), clock, entropy, heap"
    }
}
