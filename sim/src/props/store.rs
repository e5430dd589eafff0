//! R10: documents stored through faulty media. R11: event logs and crashes.
use super::conc::{apply_env, gen_env, EnvCase};
use crate::driver::*;
use crate::gen;
use crate::mirror::{self, MDoc, MOp};
use crate::rng::Rng;
use crate::rt;
use crate::sinks::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};
use yamd::op::Op;
use yamd::Yamd;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case10 {
    text: Option<String>,
    doc: MDoc,
    env: EnvCase,
    pretty: bool,
    wsteps: Vec<IoStep>,
    rsteps: Vec<IoStep>,
    /// where records are torn, in thousandths; with `every` at each byte of short records
    cuts: Vec<u32>,
    every: bool,
    /// seeds of field orders
    orders: Vec<u64>,
    /// which required part is lost
    parts: Vec<u32>,
    /// corrupted bytes: (position in thousandths, xor)
    bits: Vec<Vec<(u32, u8)>>,
}

pub struct R10;

fn gen_steps(r: &mut Rng, hard: bool) -> Vec<IoStep> {
    let k = r.skewed(30);
    let mut v: Vec<IoStep> = (0..k)
        .map(|_| match r.below(4) {
            0 => IoStep::Interrupted,
            1 => IoStep::Short(1),
            2 => IoStep::Short(1 + r.below(30) as u32),
            _ => IoStep::Short(1_000_000),
        })
        .collect();
    if hard && r.chance(1, 2) {
        v.push(if r.chance(1, 3) { IoStep::Zero } else { IoStep::Fail(r.below(4) as u8) });
    }
    v
}

fn cut(s: &str) -> String {
    s.chars().take(260).collect()
}

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    rt::as_main(|| catch_unwind(AssertUnwindSafe(f))).map_err(|_| ())
}

/// the same record with the fields of every object in another order
fn permute(v: &Value, r: &mut Rng, out: &mut String) {
    match v {
        Value::Object(m) => {
            let mut e: Vec<(&String, &Value)> = m.iter().collect();
            r.shuffle(&mut e);
            out.push('{');
            for (i, (k, x)) in e.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(&serde_json::to_string(k).unwrap());
                out.push(':');
                permute(x, r, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                permute(x, r, out);
            }
            out.push(']');
        }
        _ => out.push_str(&v.to_string()),
    }
}
fn permute_cbor(v: &ciborium::Value, r: &mut Rng) -> ciborium::Value {
    use ciborium::Value as C;
    match v {
        C::Map(m) => {
            let mut m: Vec<(C, C)> = m.iter().map(|(k, v)| (k.clone(), permute_cbor(v, r))).collect();
            r.shuffle(&mut m);
            C::Map(m)
        }
        C::Array(a) => C::Array(a.iter().map(|x| permute_cbor(x, r)).collect()),
        x => x.clone(),
    }
}

/// paths of the parts a record cannot do without
fn required(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                let optional = match k.as_str() {
                    "metadata" | "icon" | "nested_list" => true,
                    "title" => m.contains_key("icon"),
                    _ => false,
                };
                if !optional {
                    out.push(at.clone());
                }
                required(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                required(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn remove(v: &mut Value, p: &[String]) -> bool {
    match v {
        Value::Object(m) if p.len() == 1 => m.remove(&p[0]).is_some(),
        Value::Object(m) => m.get_mut(&p[0]).map(|x| remove(x, &p[1..])).unwrap_or(false),
        Value::Array(a) => p[0].parse::<usize>().ok().and_then(|i| a.get_mut(i)).map(|x| remove(x, &p[1..])).unwrap_or(false),
        _ => false,
    }
}

impl Prop for R10 {
    fn id(&self) -> &'static str {
        "R10"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            36_000
        } else {
            300_000
        }
    }
    fn gen(&self, r: &mut Rng, _tier: Tier, idx: u64) -> Value {
        let text = if r.chance(1, 2) { Some(gen::family(r, 1).remove(0)) } else { None };
        let doc = if text.is_none() { gen::mdoc(r, idx % 30 == 5) } else { MDoc { meta: None, body: vec![] } };
        serde_json::to_value(Case10 {
            text,
            doc,
            env: gen_env(r),
            pretty: r.chance(1, 4),
            wsteps: gen_steps(r, true),
            rsteps: gen_steps(r, true),
            cuts: (0..r.range(1, 12)).map(|_| r.below(1000) as u32).collect(),
            every: r.chance(1, 3),
            orders: (0..r.range(0, 3)).map(|_| r.u64() >> 12).collect(),
            parts: (0..r.range(0, 6)).map(|_| r.below(1000) as u32).collect(),
            bits: (0..r.range(0, 6))
                .map(|_| (0..1 + r.skewed(4)).map(|_| (r.below(1000) as u32, if r.chance(1, 2) { 1u8 << r.below(8) } else { r.below(256) as u8 })).collect())
                .collect(),
        })
        .unwrap()
    }
    fn run(&self, case: &Value) -> Report {
        let Ok(c) = serde_json::from_value::<Case10>(case.clone()) else {
            return Report { skip: true, ..Default::default() };
        };
        let mut rep = Report::default();
        apply_env(&c.env);
        unsafe { rt::MAIN_BUDGET = 20_000_000_000 };
        let doc: Yamd = match &c.text {
            Some(t) => rt::as_main(|| yamd::deserialize(t)),
            None => mirror::build(&c.doc),
        };
        let want = mirror::doc(&doc);
        let ws = || cut(&serde_json::to_string(&want).unwrap());
        // fault-free writes
        let ser = guard(|| {
            let j = if c.pretty { serde_json::to_vec_pretty(&doc) } else { serde_json::to_vec(&doc) }.ok();
            let mut b = vec![];
            let cb = ciborium::into_writer(&doc, &mut b).ok().map(|_| b);
            let bi = bincode::serialize(&doc).ok();
            (j, cb, bi)
        });
        let Ok((Some(json), Some(cbor), bin)) = ser else {
            rep.violate("not-written", format!("storing a document fails on a sound medium: {}", ws()));
            return rep;
        };
        rep.hash(&json);
        let same = |rep: &mut Report, r: Result<Result<Yamd, String>, ()>, what: &str| {
            rep.evals += 1;
            match r {
                Err(()) => rep.violate("panic", format!("{what}: reading panicked")),
                Ok(Err(e)) => rep.violate("not-read-back", format!("{what}: {e}; document {}", ws())),
                Ok(Ok(z)) => {
                    let m = mirror::doc(&z);
                    if m != want {
                        rep.violate("differs", format!("{what}: read back as {} instead of {}", cut(&serde_json::to_string(&m).unwrap()), ws()));
                    } else if guard(|| z == doc) != Ok(true) {
                        rep.violate("differs", format!("{what}: what was read back does not compare equal: {}", ws()));
                    }
                }
            }
        };
        let es = |e: &dyn std::fmt::Display| e.to_string();
        same(&mut rep, guard(|| serde_json::from_slice::<Yamd>(&json).map_err(|e| es(&e))), "JSON");
        same(&mut rep, guard(|| serde_json::from_str::<Yamd>(std::str::from_utf8(&json).unwrap_or("")).map_err(|e| es(&e))), "JSON text");
        same(&mut rep, guard(|| serde_json::to_value(&doc).and_then(serde_json::from_value::<Yamd>).map_err(|e| es(&e))), "JSON value");
        same(&mut rep, guard(|| ciborium::from_reader::<Yamd, _>(&cbor[..]).map_err(|e| es(&e))), "CBOR");
        same(&mut rep, guard(|| ciborium::Value::serialized(&doc).map_err(|e| es(&e)).and_then(|v| v.deserialized::<Yamd>().map_err(|e| es(&e)))), "CBOR value");
        match &bin {
            Some(b) => match guard(|| bincode::deserialize::<Yamd>(b).map_err(|e| es(&e))) {
                Ok(Ok(z)) => {
                    rep.probe("bincode read back", 1);
                    same(&mut rep, Ok(Ok(z)), "bincode");
                }
                Ok(Err(_)) => rep.probe("bincode refused", 1),
                Err(()) => rep.violate("panic", "bincode: reading panicked"),
            },
            None => rep.probe("bincode refused", 1),
        }
        if rep.viol.is_some() {
            return rep;
        }
        // writes through a faulty medium
        for fmt in 0..2 {
            rep.evals += 1;
            let full: &[u8] = if fmt == 0 { &json } else { &cbor };
            let mut w = IoSink::new(&c.wsteps, false);
            let r = guard(|| match fmt {
                0 if c.pretty => serde_json::to_writer_pretty(&mut w, &doc).map_err(|e| es(&e)),
                0 => serde_json::to_writer(&mut w, &doc).map_err(|e| es(&e)),
                _ => ciborium::into_writer(&doc, &mut w).map_err(|e| es(&e)),
            });
            let name = ["JSON", "CBOR"][fmt];
            rep.fault("short write", w.shorts);
            rep.fault("interrupted write", w.intr);
            if w.hard.is_some() {
                rep.fault("write failed", 1);
            }
            match (&r, w.hard.is_some()) {
                (Err(()), _) => rep.violate("panic", format!("writing {name} panicked ({:?})", c.wsteps)),
                (Ok(Ok(())), true) => rep.violate("success-claimed", format!("writing {name} failed ({:?}) and was reported as success", c.wsteps)),
                (Ok(Err(e)), false) => rep.violate("spurious-failure", format!("writing {name} in short and interrupted pieces failed: {e}")),
                _ => {}
            }
            if !full.starts_with(&w.got) || (w.hard.is_none() && w.got != full) {
                rep.violate(
                    "wrong-bytes",
                    format!("writing {name} in pieces gave {:?} instead of {:?}", cut(&String::from_utf8_lossy(&w.got)), cut(&String::from_utf8_lossy(full))),
                );
            }
            // reads through a faulty medium
            let mut s = IoSource::new(full, &c.rsteps);
            let r = guard(|| match fmt {
                0 => serde_json::from_reader::<_, Yamd>(&mut s).map_err(|e| es(&e)),
                _ => ciborium::from_reader::<Yamd, _>(&mut s).map_err(|e| es(&e)),
            });
            rep.fault("short read", s.shorts);
            rep.fault("interrupted read", s.intr);
            if s.hard {
                rep.fault("read failed", 1);
                rep.evals += 1;
                match &r {
                    Err(()) => rep.violate("panic", format!("reading {name} from a failing medium panicked")),
                    // the failure may have hit after the last byte of the record was read
                    Ok(Ok(z)) if mirror::doc(z) != want => {
                        rep.violate("misread", format!("{name} from a failing medium ({:?}) was read as {} instead of {}", c.rsteps, cut(&mirror::canon(z)), ws()))
                    }
                    _ => {}
                }
            } else {
                same(&mut rep, r, &format!("{name} read in pieces ({:?})", c.rsteps));
            }
            // torn records
            let mut cuts: Vec<usize> = c.cuts.iter().map(|&x| x as usize * full.len() / 1000).collect();
            if c.every && full.len() <= 400 {
                cuts = (0..full.len()).collect();
            }
            for k in cuts {
                if k >= full.len() {
                    continue;
                }
                rep.evals += 1;
                rep.fault("torn record", 1);
                let t = &full[..k];
                let r = guard(|| match fmt {
                    0 => serde_json::from_slice::<Yamd>(t).map_err(|e| es(&e)),
                    _ => ciborium::from_reader::<Yamd, _>(t).map_err(|e| es(&e)),
                });
                match r {
                    Err(()) => rep.violate("panic", format!("reading {k} of {} bytes of {name} panicked", full.len())),
                    Ok(Ok(z)) => rep.violate("torn-accepted", format!("{k} of {} bytes of {name} were read as the document {}", full.len(), cut(&mirror::canon(&z)))),
                    Ok(Err(_)) => {}
                }
            }
            for b in &c.bits {
                rep.evals += 1;
                rep.fault("corrupted bytes", b.len() as u64);
                let mut t = full.to_vec();
                for &(p, x) in b {
                    let k = p as usize * t.len() / 1000;
                    t[k] ^= x;
                }
                let r = guard(|| match fmt {
                    0 => serde_json::from_slice::<Yamd>(&t).is_ok(),
                    _ => ciborium::from_reader::<Yamd, _>(&t[..]).is_ok(),
                });
                match r {
                    Err(()) => rep.violate("panic", format!("reading a corrupted {name} record panicked: {:?}", cut(&String::from_utf8_lossy(&t)))),
                    Ok(ok) => rep.hash64(ok as u64),
                }
            }
            if rep.viol.is_some() {
                return rep;
            }
        }
        // other field orders
        let tree: Value = serde_json::from_slice(&json).unwrap();
        for o in &c.orders {
            let mut r = Rng::new(*o);
            let mut s = String::new();
            permute(&tree, &mut r, &mut s);
            rep.fault("fields reordered", 1);
            same(&mut rep, guard(|| serde_json::from_str::<Yamd>(&s).map_err(|e| es(&e))), "JSON with its fields in another order");
            let cv: ciborium::Value = ciborium::from_reader(&cbor[..]).unwrap();
            let cv = permute_cbor(&cv, &mut r);
            let mut b = vec![];
            ciborium::into_writer(&cv, &mut b).unwrap();
            same(&mut rep, guard(|| ciborium::from_reader::<Yamd, _>(&b[..]).map_err(|e| es(&e))), "CBOR with its fields in another order");
        }
        // lost parts
        let mut ps = vec![];
        required(&tree, &mut vec![], &mut ps);
        for k in &c.parts {
            if ps.is_empty() {
                break;
            }
            let p = &ps[*k as usize * ps.len() / 1000];
            let mut t = tree.clone();
            if !remove(&mut t, p) {
                continue;
            }
            rep.evals += 1;
            rep.fault("required part lost", 1);
            let s = t.to_string();
            let mut b = vec![];
            ciborium::into_writer(&t, &mut b).unwrap();
            for (name, r) in [
                ("JSON", guard(|| serde_json::from_str::<Yamd>(&s).map_err(|e| es(&e)))),
                ("JSON value", guard(|| serde_json::from_value::<Yamd>(t.clone()).map_err(|e| es(&e)))),
                ("CBOR", guard(|| ciborium::from_reader::<Yamd, _>(&b[..]).map_err(|e| es(&e)))),
            ] {
                match r {
                    Err(()) => rep.violate("panic", format!("reading {name} without {} panicked", p.join("."))),
                    Ok(Ok(z)) => rep.violate("part-lost-accepted", format!("{name} without {} was read as the document {}", p.join("."), cut(&mirror::canon(&z)))),
                    Ok(Err(_)) => {}
                }
            }
        }
        if mirror::doc(&doc) != want {
            rep.violate("document-changed", "storing the document changed it");
        }
        finish(&mut rep);
        rep
    }
    fn rule(&self) -> &'static str {
        "a run stores a seeded document (parsed, or built from arbitrary values) as JSON, CBOR and in-memory values through media with seeded short, interrupted and failing reads and writes, reorders stored fields, tears records (at every byte of short ones), loses required parts and flips bits; non-trivial if a fault fired"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "nesting stays below the recursion limits of the formats (128 levels in JSON)",
            "an absent optional part (metadata, icon, nested list, title of a highlight) may read as none; everything else is required",
            "bit flips may yield another valid record: only panics count there",
        ]
    }
    fn real(&self) -> &'static str {
        "yamd with feature serde, serde derives, serde_json, ciborium, bincode"
    }
    fn stub(&self) -> &'static str {
        "the storage medium, clock, entropy, heap"
    }
}

fn finish(rep: &mut Report) {
    rep.steps = unsafe { rt::MAIN_STEPS };
    rep.sim_ns = rep.steps * 100;
    rep.nontrivial = !rep.faults.is_empty();
    unsafe {
        rep.cov = (*std::ptr::addr_of!(rt::COV)).iter().map(|&x| x as u64).sum();
    }
}

// ---------------------------------------------------------------- R11

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Crash {
    /// the writer dies when this much of what it still has to write is on the medium (thousandths)
    at: u32,
    /// the medium loses this much of the end of what was written since the last sync
    lost: u32,
    /// garbage (zeros) that the medium shows behind what survived
    zeros: u32,
    /// events per sync
    sync: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case11 {
    doc: String,
    env: EnvCase,
    cbor: bool,
    wsteps: Vec<IoStep>,
    rsteps: Vec<IoStep>,
    crashes: Vec<Crash>,
    /// crash points tried one by one: every byte of short logs
    every: bool,
}

pub struct R11;

struct Medium {
    bytes: Vec<u8>,
    synced: usize,
}

fn record(cbor: bool, o: &Op) -> Result<Vec<u8>, String> {
    if cbor {
        let mut b = vec![];
        ciborium::into_writer(o, &mut b).map_err(|e| e.to_string())?;
        // length, checksum, record
        let mut v = (b.len() as u32).to_le_bytes().to_vec();
        v.extend((crate::rng::hash_bytes(&b) as u32).to_le_bytes());
        v.extend(b);
        Ok(v)
    } else {
        let mut v = serde_json::to_vec(o).map_err(|e| e.to_string())?;
        v.push(b'\n');
        Ok(v)
    }
}

/// Reads a log: the complete records in front, and how many bytes they cover.
fn recover(cbor: bool, b: &[u8], steps: &[IoStep]) -> (Vec<Op>, usize) {
    let mut ops = vec![];
    let mut at = 0;
    let _ = steps;
    loop {
        let rest = &b[at..];
        if cbor {
            if rest.len() < 8 {
                break;
            }
            let n = u32::from_le_bytes([rest[0], rest[1], rest[2], rest[3]]) as usize;
            let sum = u32::from_le_bytes([rest[4], rest[5], rest[6], rest[7]]);
            if n == 0 || rest.len() - 8 < n || crate::rng::hash_bytes(&rest[8..8 + n]) as u32 != sum {
                break;
            }
            match ciborium::from_reader::<Op, _>(&rest[8..8 + n]) {
                Ok(o) => ops.push(o),
                Err(_) => break,
            }
            at += 8 + n;
        } else {
            // the line may be torn: whatever of it parses counts as complete only with its end
            let Some(k) = rest.iter().position(|&x| x == b'\n') else {
                break;
            };
            match serde_json::from_slice::<Op>(&rest[..k]) {
                Ok(o) => ops.push(o),
                Err(_) => break,
            }
            at += k + 1;
        }
    }
    (ops, at)
}

fn balanced(o: &[MOp]) -> bool {
    let mut st: Vec<u8> = vec![];
    for x in o {
        match x.k {
            'S' => st.push(x.n),
            'E' => {
                if st.pop() != Some(x.n) {
                    return false;
                }
            }
            _ => {}
        }
    }
    st.is_empty()
}

impl Prop for R11 {
    fn id(&self) -> &'static str {
        "R11"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            30_000
        } else {
            300_000
        }
    }
    fn gen(&self, r: &mut Rng, _tier: Tier, idx: u64) -> Value {
        let doc = if idx % 150 == 11 {
            // positions beyond 16 bits
            let a = gen::word(r, 1, 8);
            // in one piece, or many
            let whole = r.chance(1, 2);
            let mut s = r.pick(&["", "# ", "- ", "**", "```x\n", "!!\n", "`"]).to_string();
            while s.len() < 70_000 {
                s.push_str(&a);
                s.push_str(if !whole && r.chance(1, 300) { "\n\n# h\n\n" } else { " w " });
            }
            s.push_str(r.pick(&["", "**", "\n```", "\n!!", "`"]));
            s.push_str("\n\n- **a** _b_\n\n## é");
            s
        } else {
            gen::family(r, 1).remove(0)
        };
        serde_json::to_value(Case11 {
            doc,
            env: gen_env(r),
            cbor: r.chance(1, 2),
            wsteps: gen_steps(r, false),
            rsteps: gen_steps(r, false),
            crashes: (0..r.range(0, 6))
                .map(|_| Crash {
                    at: r.below(1001) as u32,
                    lost: if r.chance(1, 2) { r.below(1001) as u32 } else { 0 },
                    zeros: if r.chance(1, 4) { r.below(20) as u32 } else { 0 },
                    sync: *r.pick(&[1, 2, 5, 1000]),
                })
                .collect(),
            every: r.chance(1, 3),
        })
        .unwrap()
    }
    fn run(&self, case: &Value) -> Report {
        let Ok(c) = serde_json::from_value::<Case11>(case.clone()) else {
            return Report { skip: true, ..Default::default() };
        };
        let mut rep = Report::default();
        apply_env(&c.env);
        unsafe { rt::MAIN_BUDGET = 20_000_000_000 };
        let src = &c.doc;
        let Ok(ops) = guard(|| yamd::parse(src)) else {
            rep.probe("parse panics", 1);
            return rep;
        };
        let want_ops = mirror::ops(&ops);
        let Ok(want) = guard(|| yamd::deserialize(src)) else {
            rep.probe("parse panics", 1);
            return rep;
        };
        let want = mirror::doc(&want);
        let name = if c.cbor { "CBOR" } else { "JSON" };
        let es = |e: &dyn std::fmt::Display| e.to_string();
        // the whole stream as one record, through the medium
        let mut w = IoSink::new(&c.wsteps, false);
        let r = guard(|| if c.cbor { ciborium::into_writer(&ops, &mut w).map_err(|e| es(&e)) } else { serde_json::to_writer(&mut w, &ops).map_err(|e| es(&e)) });
        rep.fault("short write", w.shorts);
        rep.fault("interrupted write", w.intr);
        rep.evals += 1;
        match r {
            Err(()) => rep.violate("panic", format!("storing the events of {:?} panicked", cut(src))),
            Ok(Err(e)) => rep.violate("not-written", format!("storing the events of {:?} failed: {e}", cut(src))),
            _ => {}
        }
        let bytes = std::mem::take(&mut w.got);
        let mut s = IoSource::new(&bytes, &c.rsteps);
        let r = guard(|| if c.cbor { ciborium::from_reader::<Vec<Op>, _>(&mut s).map_err(|e| es(&e)) } else { serde_json::from_reader::<_, Vec<Op>>(&mut s).map_err(|e| es(&e)) });
        rep.fault("short read", s.shorts);
        rep.fault("interrupted read", s.intr);
        match r {
            Err(()) => rep.violate("panic", format!("reading the events of {:?} panicked", cut(src))),
            Ok(Err(e)) => rep.violate("not-read-back", format!("{name} of the events of {:?}: {e}", cut(src))),
            Ok(Ok(z)) => {
                let m = mirror::ops(&z);
                if m != want_ops {
                    let i = m.iter().zip(&want_ops).position(|(a, b)| a != b).unwrap_or(m.len().min(want_ops.len()));
                    rep.violate("differs", format!("{name}: event {i} was read back as {:?} instead of {:?}", m.get(i), want_ops.get(i)));
                } else if guard(|| z == ops) != Ok(true) {
                    rep.violate("differs", format!("{name}: the events read back do not compare equal"));
                }
                rep.evals += 1;
                match guard(|| yamd::try_to_yamd(&z, src)) {
                    Ok(Ok(y)) if mirror::doc(&y) == want => {}
                    Ok(Ok(y)) => rep.violate("other-document", format!("{name}: the stored events of {:?} convert to {}", cut(src), cut(&mirror::canon(&y)))),
                    Ok(Err(_)) => rep.violate("rejected", format!("{name}: the stored events of {:?} are rejected", cut(src))),
                    Err(()) => rep.violate("panic", "converting the stored events panicked"),
                }
            }
        }
        if rep.viol.is_some() {
            return rep;
        }
        // torn as a whole
        for k in c.crashes.iter().map(|x| x.at as usize * bytes.len() / 1001) {
            rep.evals += 1;
            rep.fault("torn record", 1);
            let r = guard(|| if c.cbor { ciborium::from_reader::<Vec<Op>, _>(&bytes[..k]).is_ok() } else { serde_json::from_slice::<Vec<Op>>(&bytes[..k]).is_ok() });
            match r {
                Err(()) => rep.violate("panic", format!("reading {k} bytes of {name} events panicked")),
                Ok(true) if k < bytes.len() => rep.violate("torn-accepted", format!("{k} of {} bytes of {name} events were read as a complete stream", bytes.len())),
                _ => {}
            }
        }
        // event by event, with crashes
        let mut recs = vec![];
        for o in &ops {
            match guard(|| record(c.cbor, o)) {
                Ok(Ok(b)) => recs.push(b),
                Ok(Err(e)) => {
                    rep.violate("not-written", format!("storing {:?} failed: {e}", mirror::op(o)));
                    return rep;
                }
                Err(()) => {
                    rep.violate("panic", "storing an event panicked");
                    return rep;
                }
            }
        }
        let mut m = Medium { bytes: vec![], synced: 0 };
        let mut next = 0; // first event not yet handed to the medium
        for (ci, cr) in c.crashes.iter().enumerate() {
            // this incarnation writes until it dies
            let rest: usize = recs[next..].iter().map(|x| x.len()).sum();
            let mut room = rest * cr.at as usize / 1001;
            let base = m.bytes.len();
            for (k, x) in recs[next..].iter().enumerate() {
                let n = x.len().min(room);
                m.bytes.extend_from_slice(&x[..n]);
                room -= n;
                if n < x.len() {
                    break;
                }
                if (k + 1) % cr.sync.max(1) as usize == 0 {
                    m.synced = m.bytes.len();
                }
            }
            let _ = base;
            rep.fault("crash of the writer", 1);
            // what was not synced may be lost
            let loose = m.bytes.len() - m.synced;
            let lost = loose * cr.lost as usize / 1000;
            if lost > 0 {
                rep.fault("unsynced bytes lost", 1);
            }
            let keep = m.bytes.len() - lost;
            m.bytes.truncate(keep);
            if cr.zeros > 0 {
                rep.fault("garbage behind the end", 1);
                m.bytes.extend(std::iter::repeat(0).take(cr.zeros as usize));
            }
            // restart
            let Ok((got, used)) = guard(|| recover(c.cbor, &m.bytes, &c.rsteps)) else {
                rep.violate("panic", "reading the log panicked");
                return rep;
            };
            let gm = mirror::ops(&got);
            rep.evals += 1;
            rep.hash64(gm.len() as u64);
            if gm.len() > want_ops.len() || gm[..] != want_ops[..gm.len()] {
                let i = gm.iter().zip(&want_ops).position(|(a, b)| a != b).unwrap_or(want_ops.len());
                rep.violate("differs", format!("crash {ci}: event {i} of the log was read back as {:?} instead of {:?}", gm.get(i), want_ops.get(i)));
                return rep;
            }
            // every event wholly on the medium must be there
            let mut whole = 0;
            let mut sum = 0;
            for x in &recs {
                if sum + x.len() > keep {
                    break;
                }
                sum += x.len();
                whole += 1;
            }
            if gm.len() < whole {
                rep.violate("event-lost", format!("crash {ci}: {whole} events are on the medium, {} were read; the next is {:?}", gm.len(), want_ops.get(gm.len())));
                return rep;
            }
            let open = !balanced(&gm);
            match (guard(|| yamd::try_to_yamd(&got, src)), open) {
                (Err(()), _) => rep.violate("panic", format!("crash {ci}: converting {} of {} events panicked", gm.len(), want_ops.len())),
                (Ok(Ok(y)), true) => rep.violate(
                    "incomplete-accepted",
                    format!("crash {ci}: {} of {} events, broken off inside a node, convert to {}", gm.len(), want_ops.len(), cut(&mirror::canon(&y))),
                ),
                (Ok(Err(_)), false) => rep.violate("rejected", format!("crash {ci}: {} of {} events, nothing open, are rejected", gm.len(), want_ops.len())),
                (Ok(Ok(y)), false) if gm.len() == want_ops.len() && mirror::doc(&y) != want => {
                    rep.violate("other-document", format!("crash {ci}: the complete log converts to {}", cut(&mirror::canon(&y))))
                }
                (Ok(Err(_)), true) => rep.probe("incomplete log rejected", 1),
                _ => {}
            }
            if rep.viol.is_some() {
                return rep;
            }
            m.bytes.truncate(used);
            m.synced = used;
            next = gm.len();
        }
        // the last incarnation finishes
        for x in &recs[next..] {
            m.bytes.extend_from_slice(x);
        }
        let Ok((got, used)) = guard(|| recover(c.cbor, &m.bytes, &c.rsteps)) else {
            rep.violate("panic", "reading the log panicked");
            return rep;
        };
        rep.evals += 1;
        if used != m.bytes.len() || mirror::ops(&got) != want_ops {
            let gm = mirror::ops(&got);
            let i = gm.iter().zip(&want_ops).position(|(a, b)| a != b).unwrap_or(gm.len().min(want_ops.len()));
            rep.violate("differs", format!("after the last restart event {i} was read back as {:?} instead of {:?}", gm.get(i), want_ops.get(i)));
            return rep;
        }
        match guard(|| yamd::try_to_yamd(&got, src)) {
            Ok(Ok(y)) if mirror::doc(&y) == want => rep.hash(mirror::canon(&y).as_bytes()),
            Ok(Ok(y)) => {
                rep.violate("other-document", format!("the resumed log converts to {} instead of {}", cut(&mirror::canon(&y)), cut(&serde_json::to_string(&want).unwrap())))
            }
            Ok(Err(_)) => rep.violate("rejected", "the resumed log is rejected"),
            Err(()) => rep.violate("panic", "converting the resumed log panicked"),
        }
        // every cut of a short log; half records must not pass for other events
        if c.every && rep.viol.is_none() {
            let total: Vec<u8> = recs.concat();
            if total.len() <= 3000 && !c.cbor {
                let mut sum = 0;
                for (i, x) in recs.iter().enumerate() {
                    for k in 1..x.len() - 1 {
                        rep.evals += 1;
                        match guard(|| serde_json::from_slice::<Op>(&x[..k])) {
                            Err(()) => rep.violate("panic", format!("reading half an event panicked: {:?}", String::from_utf8_lossy(&x[..k]))),
                            Ok(Ok(o)) => rep.violate("torn-accepted", format!("{:?} was read as {:?}", String::from_utf8_lossy(&x[..k]), mirror::op(&o))),
                            Ok(Err(_)) => {}
                        }
                    }
                    rep.fault("torn record", x.len() as u64 - 1);
                    sum += x.len();
                    let _ = (i, sum);
                    if rep.viol.is_some() {
                        return rep;
                    }
                }
                for k in 0..ops.len() {
                    rep.evals += 1;
                    rep.fault("crash of the writer", 1);
                    let ok = balanced(&want_ops[..k]);
                    match guard(|| yamd::try_to_yamd(&ops[..k], src)) {
                        Err(()) => rep.violate("panic", format!("converting the first {k} events panicked")),
                        Ok(Ok(y)) if !ok => rep.violate("incomplete-accepted", format!("the first {k} of {} events convert to {}", ops.len(), cut(&mirror::canon(&y)))),
                        _ => {}
                    }
                }
            }
        }
        finish(&mut rep);
        rep
    }
    fn rule(&self) -> &'static str {
        "a run logs the events of a text record by record (JSON lines or length-prefixed, checksummed CBOR) to a simulated medium, kills the writer at seeded bytes, loses unsynced bytes, shows garbage behind the end, restarts, recovers, appends the rest, up to 6 crashes deep; short logs are cut at every event and every byte of every record; non-trivial if a fault fired"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the log reader drops the incomplete last record; it is the simulator's, the records' format is yamd's",
            "a log that breaks off with no node open (before the document's first event) cannot be told from a complete one by the events alone",
        ]
    }
    fn real(&self) -> &'static str {
        "yamd::parse, try_to_yamd, serde impls of Op, OpKind, Node, Content, serde_json, ciborium"
    }
    fn stub(&self) -> &'static str {
        "the storage medium, its sync and crash behaviour, the log reader, clock, entropy, heap"
    }
}
