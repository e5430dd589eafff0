//! The calls simulated callers make, and their results in canonical form.
use crate::mirror;
use crate::rt;
use crate::sinks::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use yamd::lexer::Lexer;
use yamd::op::Op;
use yamd::Yamd;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Call {
    /// text -> document
    Deser {
        d: usize,
    },
    /// text -> events
    Parse {
        d: usize,
    },
    /// text -> events -> document (infallible form)
    Convert {
        d: usize,
    },
    /// text -> tokens
    Lex {
        d: usize,
    },
    /// text -> document -> text
    Render {
        d: usize,
    },
    /// every block of the document rendered on its own
    Blocks {
        d: usize,
    },
    /// document -> JSON -> document
    Json {
        d: usize,
    },
    /// document -> CBOR -> document
    Cbor {
        d: usize,
    },
    /// events -> JSON -> events
    OpsJson {
        d: usize,
    },
    /// clone, compare, drop
    Clone {
        d: usize,
    },
    /// on documents and events shared between callers
    SRender {
        i: usize,
    },
    SConvert {
        i: usize,
    },
    SEq {
        i: usize,
        j: usize,
    },
    SJson {
        i: usize,
    },
    SClone {
        i: usize,
    },
    /// events with one of them lost
    TryLossy {
        d: usize,
        at: usize,
    },
    /// fixed texts and documents in which every construct holds what other constructs must escape
    Canary,
    // ---- calls that end early
    RenderFail {
        d: usize,
        plan: SinkPlan,
        /// which block is rendered on its own; None: the document
        #[serde(default)]
        block: Option<u32>,
    },
    LexDrop {
        d: usize,
        n: usize,
    },
    ConvertPanic {
        d: usize,
        at: usize,
    },
    JsonTorn {
        d: usize,
        cut: usize,
    },
    CborTorn {
        d: usize,
        cut: usize,
    },
    JsonWriteFail {
        d: usize,
        at: u32,
        #[serde(default)]
        unwind: bool,
    },
    /// the medium fails (or its reader unwinds) in the middle of a record
    ReadFail {
        d: usize,
        at: u32,
        cbor: bool,
        unwind: bool,
    },
    // ---- calls within calls
    Reenter {
        d: usize,
        calls: Vec<Call>,
        /// 0: the whole document; otherwise every node on its own
        #[serde(default)]
        parts: u32,
    },
    Suspend {
        d: usize,
        n: usize,
        calls: Vec<Call>,
        /// further lexers (and documents) alive meanwhile
        #[serde(default)]
        more: u32,
    },
}

pub struct Shared {
    pub src: String,
    pub ops: Vec<Op>,
    pub doc: Yamd,
}

pub struct Ctx<'a> {
    pub docs: &'a [String],
    pub shared: &'a [Shared],
    /// parse from a buffer that is reused (same address, edited in place) by successive calls
    pub reuse: bool,
    pub bufs: Vec<Box<Vec<u8>>>,
    pub depth: usize,
}

impl<'a> Ctx<'a> {
    pub fn new(docs: &'a [String], shared: &'a [Shared], reuse: bool) -> Self {
        Ctx { docs, shared, reuse, bufs: (0..6).map(|_| Box::new(Vec::with_capacity(1 << 16))).collect(), depth: 0 }
    }
    fn src(&mut self, d: usize) -> &'a str {
        if self.docs.is_empty() {
            return "";
        }
        let docs: &'a [String] = self.docs;
        let s: &'a str = &docs[d % docs.len()];
        if !self.reuse || self.depth >= self.bufs.len() || s.len() > (1 << 16) {
            return s;
        }
        let b = &mut self.bufs[self.depth];
        b.clear();
        b.extend_from_slice(s.as_bytes());
        // the buffer at this depth is only rewritten by a later call at the same depth
        unsafe { std::mem::transmute::<&str, &'a str>(std::str::from_utf8_unchecked(&b[..])) }
    }
}

pub fn make_shared(docs: &[String]) -> Vec<Shared> {
    docs.iter()
        .map(|s| {
            let src = rt::harness(|| s.clone());
            let ops = yamd::parse(&src);
            let doc = yamd::deserialize(&src);
            rt::harness(|| Shared { src, ops, doc })
        })
        .collect()
}

/// the nodes of a document, the first few hundred
fn parts_of(y: &Yamd) -> Vec<&dyn std::fmt::Display> {
    let mut v: Vec<&dyn std::fmt::Display> = crate::props::render::Nodes::of(y).0.into_iter().map(|x| x.1).collect();
    v.truncate(300);
    v
}

fn is_plain(c: &Call) -> bool {
    !matches!(c, Call::Reenter { .. } | Call::Suspend { .. })
}

/// the plain calls a call consists of
pub fn keys(c: &Call, out: &mut Vec<Call>) {
    match c {
        Call::Reenter { d, calls, parts } => {
            out.push(if *parts > 0 { Call::Blocks { d: *d } } else { Call::Render { d: *d } });
            calls.iter().for_each(|c| keys(c, out));
        }
        Call::Suspend { d, calls, .. } => {
            out.push(Call::Lex { d: *d });
            calls.iter().for_each(|c| keys(c, out));
        }
        c => out.push(c.clone()),
    }
}

pub type Results = Vec<(Call, String)>;

pub fn err(e: impl std::fmt::Display) -> String {
    let _ = e;
    "ERR".to_string()
}

struct ReSink<'x, 'a> {
    got: String,
    calls: &'x [Call],
    k: usize,
    /// writes before the next call
    wait: u32,
    gap: u32,
    ctx: *mut Ctx<'a>,
    out: *mut Results,
}
impl std::fmt::Write for ReSink<'_, '_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        rt::point();
        rt::harness(|| self.got.push_str(s));
        if self.wait > 0 {
            self.wait -= 1;
        } else if !self.calls.is_empty() && self.k < 12 {
            self.wait = if self.gap > 0 { (crate::rng::mix(&[self.gap as u64, self.k as u64]) % self.gap as u64) as u32 } else { 0 };
            let c = &self.calls[self.k % self.calls.len()];
            self.k += 1;
            unsafe { exec(c, &mut *self.ctx, &mut *self.out) };
        }
        Ok(())
    }
}

pub fn exec(c: &Call, ctx: &mut Ctx, out: &mut Results) {
    if ctx.depth > 4 {
        return;
    }
    ctx.depth += 1;
    let depth = ctx.depth;
    match c {
        Call::Reenter { d, calls, parts } => {
            let src = ctx.src(*d);
            let pc = ctx as *mut Ctx;
            let po = out as *mut Results;
            let r = catch_unwind(AssertUnwindSafe(|| {
                let doc = yamd::deserialize(src);
                let gap = parts.saturating_sub(1);
                let wait = if gap > 0 { (crate::rng::mix(&[gap as u64, 77]) % gap as u64) as u32 } else { 0 };
                let mut s = ReSink { got: String::new(), calls, k: 0, wait, gap, ctx: pc, out: po };
                let r = if *parts > 0 {
                    let nodes = rt::harness(|| parts_of(&doc));
                    let r = nodes.iter().try_for_each(|n| {
                        write!(s, "{n}")?;
                        rt::harness(|| s.got.push('\u{1}'));
                        Ok::<(), std::fmt::Error>(())
                    });
                    rt::harness(|| drop(nodes));
                    r
                } else {
                    write!(s, "{doc}")
                };
                rt::harness(|| if r.is_ok() { std::mem::take(&mut s.got) } else { "ERR".into() })
            }));
            let key = if *parts > 0 { Call::Blocks { d: *d } } else { Call::Render { d: *d } };
            rt::harness(|| out.push((key, r.unwrap_or_else(|_| "PANIC".into()))));
        }
        Call::Suspend { d, n, calls, more } => {
            let src = ctx.src(*d);
            let pc = ctx as *mut Ctx;
            let po = out as *mut Results;
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut others = rt::harness(|| Vec::with_capacity(*more as usize));
                let mut kept = rt::harness(|| Vec::with_capacity(*more as usize));
                for i in 0..*more as usize {
                    let mut lx = Lexer::new(src);
                    for _ in 0..(n + i) % 7 {
                        lx.next();
                    }
                    if i % 4 == 3 {
                        kept.push((yamd::parse(src), yamd::deserialize(src)));
                    }
                    others.push(lx);
                }
                let mut lx = Lexer::new(src);
                let mut s = rt::harness(String::new);
                let mut i = 0;
                loop {
                    if i == *n {
                        for c in calls {
                            unsafe { exec(c, &mut *pc, &mut *po) };
                        }
                    }
                    i += 1;
                    match lx.next() {
                        Some(t) => rt::harness(|| {
                            s.push_str(&mirror::tok(&t));
                            s.push(';')
                        }),
                        None => break,
                    }
                }
                // the others go on; each must give what it gives alone
                for (i, mut lx) in others.into_iter().enumerate() {
                    if i > 20 && i % 16 != 0 {
                        continue;
                    }
                    let mut k = (n + i) % 7;
                    let mut t = rt::harness(String::new);
                    let mut fresh = Lexer::new(src);
                    while k > 0 {
                        match fresh.next() {
                            Some(x) => rt::harness(|| {
                                t.push_str(&mirror::tok(&x));
                                t.push(';')
                            }),
                            None => break,
                        }
                        k -= 1;
                    }
                    while let Some(x) = lx.next() {
                        rt::harness(|| {
                            t.push_str(&mirror::tok(&x));
                            t.push(';')
                        });
                    }
                    rt::harness(|| {
                        if t != s {
                            s = t
                        }
                    });
                }
                for (o, y) in kept {
                    let z = yamd::try_to_yamd(&o, src);
                    if z.as_ref().ok() != Some(&y) {
                        rt::harness(|| s.push_str("!kept"));
                    }
                }
                s
            }));
            rt::harness(|| out.push((Call::Lex { d: *d }, r.unwrap_or_else(|_| "PANIC".into()))));
        }
        _ => {
            let hooked = rt::HOOKED.with(|h| h.get());
            let r = catch_unwind(AssertUnwindSafe(|| plain(c, ctx)));
            let hooked = rt::HOOKED.with(|h| h.get()) - hooked;
            if r.is_ok() && hooked > matches!(c, Call::ConvertPanic { .. }) as u64 {
                crate::effects::note(21);
            }
            rt::harness(|| out.push((c.clone(), r.unwrap_or_else(|_| "PANIC".into()))));
        }
    }
    ctx.depth = depth - 1;
}

fn h<R>(f: impl FnOnce() -> R) -> R {
    rt::harness(f)
}

fn plain(c: &Call, ctx: &mut Ctx) -> String {
    debug_assert!(is_plain(c));
    let sh = |i: usize| {
        if ctx.shared.is_empty() {
            None
        } else {
            Some(&ctx.shared[i % ctx.shared.len()])
        }
    };
    match c {
        Call::Deser { d } => {
            let s = ctx.src(*d);
            let y = yamd::deserialize(s);
            h(|| mirror::canon(&y))
        }
        Call::Parse { d } => {
            let s = ctx.src(*d);
            let o = yamd::parse(s);
            h(|| mirror::canon_ops(&o))
        }
        Call::Convert { d } => {
            let s = ctx.src(*d);
            let o = yamd::parse(s);
            let y = yamd::to_yamd(&o, s);
            h(|| mirror::canon(&y))
        }
        Call::Lex { d } => {
            let mut lx = Lexer::new(ctx.src(*d));
            let mut s = h(String::new);
            while let Some(t) = lx.next() {
                h(|| {
                    s.push_str(&mirror::tok(&t));
                    s.push(';')
                });
            }
            s
        }
        Call::Render { d } => {
            let y = yamd::deserialize(ctx.src(*d));
            let s = y.to_string();
            h(|| String::from(s.as_str()))
        }
        Call::Blocks { d } => {
            let y = yamd::deserialize(ctx.src(*d));
            let mut out = h(String::new);
            let nodes = h(|| parts_of(&y));
            for b in &nodes {
                let s = format!("{b}");
                h(|| {
                    out.push_str(&s);
                    out.push('\u{1}')
                });
            }
            h(|| drop(nodes));
            out
        }
        Call::Json { d } => {
            let y = yamd::deserialize(ctx.src(*d));
            let j = match serde_json::to_string(&y) {
                Ok(j) => j,
                Err(e) => return h(|| err(e)),
            };
            match serde_json::from_str::<Yamd>(&j) {
                Ok(z) => h(|| format!("{}\n{}\n{}", j, mirror::canon(&z), y == z)),
                Err(e) => h(|| err(e)),
            }
        }
        Call::Cbor { d } => {
            let y = yamd::deserialize(ctx.src(*d));
            let mut b = Vec::new();
            if let Err(e) = ciborium::into_writer(&y, &mut b) {
                return h(|| err(e));
            }
            match ciborium::from_reader::<Yamd, _>(&b[..]) {
                Ok(z) => h(|| format!("{}\n{}", crate::rng::hash_bytes(&b), mirror::canon(&z))),
                Err(e) => h(|| err(e)),
            }
        }
        Call::OpsJson { d } => {
            let s = ctx.src(*d);
            let o = yamd::parse(s);
            let j = match serde_json::to_string(&o) {
                Ok(j) => j,
                Err(e) => return h(|| err(e)),
            };
            match serde_json::from_str::<Vec<Op>>(&j) {
                Ok(z) => {
                    let y = yamd::try_to_yamd(&z, s);
                    h(|| format!("{}\n{}\n{}", mirror::canon_ops(&z), y.as_ref().map(mirror::canon).unwrap_or_else(err), o == z))
                }
                Err(e) => h(|| err(e)),
            }
        }
        Call::Clone { d } => {
            let y = yamd::deserialize(ctx.src(*d));
            let z = y.clone();
            let eq = y == z;
            drop(y);
            h(|| format!("{} {}", eq, mirror::canon(&z)))
        }
        Call::SRender { i } => match sh(*i) {
            Some(s) => {
                let t = s.doc.to_string();
                h(|| String::from(t.as_str()))
            }
            None => String::new(),
        },
        Call::SConvert { i } => match sh(*i) {
            Some(s) => {
                let y = yamd::try_to_yamd(&s.ops, &s.src);
                h(|| y.as_ref().map(mirror::canon).unwrap_or_else(err))
            }
            None => String::new(),
        },
        Call::SEq { i, j } => match (sh(*i), sh(*j)) {
            (Some(a), Some(b)) => {
                let e = a.doc == b.doc;
                let f = a.ops == b.ops;
                h(|| format!("{e} {f}"))
            }
            _ => String::new(),
        },
        Call::SJson { i } => match sh(*i) {
            Some(s) => {
                let j = serde_json::to_string(&s.doc);
                h(|| j.map(|j| String::from(j.as_str())).unwrap_or_else(err))
            }
            None => String::new(),
        },
        Call::SClone { i } => match sh(*i) {
            Some(s) => {
                let z = s.doc.clone();
                h(|| mirror::canon(&z))
            }
            None => String::new(),
        },
        Call::TryLossy { d, at } => {
            let s = ctx.src(*d);
            let mut o = yamd::parse(s);
            if !o.is_empty() {
                let k = at % o.len();
                o.remove(k);
            }
            let y = yamd::try_to_yamd(&o, s);
            h(|| y.as_ref().map(mirror::canon).unwrap_or_else(err))
        }
        Call::Canary => {
            let (docs, text) = canary();
            let mut out = h(String::new);
            for y in &docs {
                for b in &y.body {
                    let s = b.to_string();
                    h(|| {
                        out.push_str(&s);
                        out.push('\u{1}')
                    });
                }
                let s = y.to_string();
                h(|| out.push_str(&s));
            }
            let y = yamd::deserialize(&text);
            h(|| {
                out.push_str(&mirror::canon(&y));
                drop((text, docs));
            });
            out
        }
        Call::RenderFail { d, plan, block } => {
            let y = yamd::deserialize(ctx.src(*d));
            let mut s = h(|| Sink::new(plan, 64));
            let nodes = h(|| parts_of(&y));
            let r = catch_unwind(AssertUnwindSafe(|| match block {
                Some(b) if !nodes.is_empty() => write!(s, "{}", nodes[*b as usize % nodes.len()]),
                _ => write!(s, "{y}"),
            }));
            h(|| drop(nodes));
            // rendering again could repair what the failure left behind
            let t = if block.is_none() && !plan.partial { y.to_string() } else { String::new() };
            h(|| {
                format!(
                    "{} {}\u{1}{}",
                    match r {
                        Ok(Ok(())) => "ok",
                        Ok(Err(_)) => "err",
                        Err(_) => "unwound",
                    },
                    s.got,
                    t
                )
            })
        }
        Call::LexDrop { d, n } => {
            let mut lx = Lexer::new(ctx.src(*d));
            let mut s = h(String::new);
            for _ in 0..*n {
                match lx.next() {
                    Some(t) => h(|| s.push_str(&mirror::tok(&t))),
                    None => break,
                }
            }
            drop(lx);
            s
        }
        Call::ConvertPanic { d, at } => {
            let s = ctx.src(*d);
            let mut o = yamd::parse(s);
            if !o.is_empty() {
                let k = at % o.len();
                o.remove(k);
            }
            let hooked = rt::HOOKED.with(|h| h.get());
            let r = catch_unwind(AssertUnwindSafe(|| yamd::to_yamd(&o, s)));
            let hooked = rt::HOOKED.with(|h| h.get()) - hooked;
            h(|| r.as_ref().map(mirror::canon).unwrap_or_else(|_| format!("unwound, seen by the panic hook: {hooked}")))
        }
        Call::JsonTorn { d, cut } => {
            let y = yamd::deserialize(ctx.src(*d));
            let j = serde_json::to_vec(&y).unwrap_or_default();
            let k = cut % (j.len() + 1);
            let r = serde_json::from_slice::<Yamd>(&j[..k]);
            h(|| r.as_ref().map(mirror::canon).unwrap_or_else(err))
        }
        Call::CborTorn { d, cut } => {
            let y = yamd::deserialize(ctx.src(*d));
            let mut b = Vec::new();
            let _ = ciborium::into_writer(&y, &mut b);
            let k = cut % (b.len() + 1);
            let r = ciborium::from_reader::<Yamd, _>(&b[..k]);
            h(|| r.as_ref().map(mirror::canon).unwrap_or_else(err))
        }
        Call::ReadFail { d, at, cbor, unwind } => {
            let y = yamd::deserialize(ctx.src(*d));
            let mut b = Vec::new();
            if *cbor {
                let _ = ciborium::into_writer(&y, &mut b);
            } else {
                b = serde_json::to_vec(&y).unwrap_or_default();
            }
            let mut s = h(|| {
                let k = *at as usize % (b.len() + 1);
                let mut s = IoSource::new(&b[..k], &[]);
                s.at_end = if *unwind { 2 } else { 1 };
                s
            });
            let r =
                catch_unwind(AssertUnwindSafe(
                    || {
                        if *cbor {
                            ciborium::from_reader::<Yamd, _>(&mut s).map_err(err)
                        } else {
                            serde_json::from_reader::<_, Yamd>(&mut s).map_err(err)
                        }
                    },
                ));
            h(|| match r {
                Ok(r) => r.as_ref().map(mirror::canon).unwrap_or_else(err),
                Err(_) => "unwound".into(),
            })
        }
        Call::JsonWriteFail { d, at, unwind } => {
            let y = yamd::deserialize(ctx.src(*d));
            let mut steps = h(Vec::new);
            h(|| {
                for _ in 0..*at {
                    steps.push(IoStep::Short(u32::MAX))
                }
                steps.push(IoStep::Fail(1))
            });
            let mut w = h(|| IoSink::new(&steps, false));
            w.unwind = *unwind;
            let r = catch_unwind(AssertUnwindSafe(|| serde_json::to_writer(&mut w, &y).is_ok()));
            h(|| format!("{:?} {}", r.ok(), w.got.len()))
        }
        Call::Reenter { .. } | Call::Suspend { .. } => unreachable!(),
    }
}

/// The result of one plain call made alone by a fresh process, and the number of steps it took.
pub fn pristine(c: &Call, docs: &[String], shared: &[String]) -> Option<(String, u64)> {
    let o = rt::forked(30_000, || {
        rt::environment(0x1111, 1_600_000_000_000_000_000, 1000, (0, 0), 0);
        unsafe { rt::MAIN_BUDGET = 2_000_000_000 };
        let mut out: Results = vec![];
        rt::as_main(|| {
            let needs = matches!(c, Call::SRender { .. } | Call::SConvert { .. } | Call::SEq { .. } | Call::SJson { .. } | Call::SClone { .. });
            let sh = if needs { make_shared(shared) } else { vec![] };
            unsafe { rt::MAIN_STEPS = 0 };
            let mut ctx = rt::harness(|| Ctx::new(docs, unsafe { std::mem::transmute::<&[Shared], &[Shared]>(&sh[..]) }, false));
            exec(c, &mut ctx, &mut out);
        });
        let steps = unsafe { rt::MAIN_STEPS };
        serde_json::to_vec(&(out.pop().map(|x| x.1).unwrap_or_default(), steps)).unwrap()
    });
    match o {
        rt::Outcome::Ok(b) => serde_json::from_slice(&b).ok(),
        _ => None,
    }
}

// ---------------------------------------------------------------- generation of calls

use crate::rng::Rng;

/// a call that completes
pub fn gen_call(r: &mut Rng, nd: usize, ns: usize, serde: bool) -> Call {
    let d = r.below(nd);
    let n = if ns > 0 { 15 } else { 11 };
    match r.below(n) {
        0 | 1 => Call::Deser { d },
        2 => Call::Parse { d },
        3 => Call::Convert { d },
        4 => Call::Lex { d },
        5 | 6 => Call::Render { d },
        7 => Call::Blocks { d },
        8 => {
            if serde {
                match r.below(3) {
                    0 => Call::Json { d },
                    1 => Call::Cbor { d },
                    _ => Call::OpsJson { d },
                }
            } else {
                Call::Render { d }
            }
        }
        9 => Call::Clone { d },
        10 => Call::TryLossy { d, at: r.below(200) },
        11 => Call::SRender { i: r.below(ns) },
        12 => Call::SConvert { i: r.below(ns) },
        13 => Call::SEq { i: r.below(ns), j: r.below(ns) },
        _ => {
            let i = r.below(ns);
            if serde && r.chance(1, 2) {
                Call::SJson { i }
            } else {
                Call::SClone { i }
            }
        }
    }
}

/// a writer that calls the library while a document, or every one of its nodes, is rendered into it
pub fn gen_reenter(r: &mut Rng, nd: usize, ns: usize, serde: bool) -> Call {
    let d = r.below(nd);
    let k = r.range(1, 3);
    let calls = (0..k)
        .map(|_| match r.below(4) {
            0 => Call::Blocks { d },
            1 => Call::Render { d: r.below(nd) },
            _ => gen_call(r, nd, ns, serde),
        })
        .collect();
    Call::Reenter { d, calls, parts: *r.pick(&[0, 1, 1, 2, 5, 12, 30]) }
}

/// a call that is abandoned or fails
pub fn gen_abandoned(r: &mut Rng, nd: usize) -> Call {
    let d = r.below(nd);
    match r.below(11) {
        9 | 10 => Call::ReadFail { d, at: r.below(5000) as u32, cbor: r.chance(1, 2), unwind: r.chance(2, 3) },
        0..=2 => {
            let by_call = r.chance(1, 2);
            Call::RenderFail {
                d,
                block: r.chance(1, 2).then(|| r.below(60) as u32),
                plan: SinkPlan {
                    fail_call: by_call.then(|| r.skewed(12) as u32),
                    fail_byte: (!by_call).then(|| r.skewed(300) as u32),
                    partial: r.chance(1, 2),
                    transient: r.chance(1, 4),
                    panic: r.chance(2, 3),
                },
            }
        }
        3 | 4 => Call::LexDrop { d, n: r.skewed(40) },
        5 => Call::ConvertPanic { d, at: r.below(200) },
        6 => Call::TryLossy { d, at: r.below(200) },
        7 => {
            if r.chance(1, 2) {
                Call::JsonTorn { d, cut: r.below(5000) }
            } else {
                Call::CborTorn { d, cut: r.below(5000) }
            }
        }
        _ => Call::JsonWriteFail { d, at: r.skewed(60) as u32, unwind: r.chance(1, 2) },
    }
}

/// how many lexers and documents are alive at once
pub fn gen_more(r: &mut Rng) -> u32 {
    *r.pick(&[0, 0, 0, 1, 3, 9, 17, 40, 70])
}

/// documents and a text that show whether anything of an earlier call is still around
fn canary() -> (Vec<Yamd>, String) {
    h(|| {
        use crate::mirror::*;
        let x = "a!! b%} c}} d|e ]f (g) `h` *i* _j_ ~~k~~ **l** #m -n +o \\p\nq\n\nr\n- s\n# t\n```u\n!v\n{w";
        let t = || x.to_string();
        let ps = || vec![MP::T(t()), MP::A(t(), t()), MP::B(vec![MBo::T(t()), MBo::I(t()), MBo::S(t())]), MP::I(t()), MP::S(t()), MP::C(t()), MP::E(t())];
        let list = |o: bool| ML {
            ordered: o,
            level: 0,
            items: vec![MI { text: ps(), nested: Some(Box::new(ML { ordered: !o, level: 1, items: vec![MI { text: vec![MP::T(t())], nested: None }] })) }],
        };
        let blocks = || {
            vec![
                MB::Par(ps()),
                MB::Head(2, vec![MH::T(t()), MH::A(t(), t())]),
                MB::Img(t(), t()),
                MB::Imgs(vec![(t(), t()), (t(), t())]),
                MB::Code(t(), t()),
                MB::List(list(false)),
                MB::List(list(true)),
                MB::High(Some(t()), Some(t()), vec![ps(), ps()]),
                MB::Break,
                MB::Embed(t(), t()),
            ]
        };
        let mut b = blocks();
        b.push(MB::Coll(t(), blocks()));
        b.extend(blocks().into_iter().take(1));
        let doc = build(&MDoc { meta: Some("m\n---".into()), body: b });
        let text = "---\nk: v\n---\n\na!! b `c` *d* _e_ **f _g_** ~~h~~ [i](j) \\* #\n\n## k [l](m)\n\n- n\n - o\n  + p\n\n+ q\n\n!! r\n! s\nt\n\nu\n!!\n\n{% v\n\nw\n\n{% x\ny\n%}\n%}\n\n```z\na\n```\n\n-----\n\n{{b|c}}\n\n![d](e)\n![f](g)\n\n**h\n\n{% i";
        (vec![doc], text.to_string())
    })
}
