//! R01: rendering into writers that fail, cut short or get interrupted.
use super::conc::{apply_env, gen_env, EnvCase};
use crate::driver::*;
use crate::gen;
use crate::mirror::{self, MDoc};
use crate::rng::Rng;
use crate::rt;
use crate::sinks::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::fmt::{self, Display};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yamd::nodes as n;
use yamd::Yamd;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct IoPlan {
    steps: Vec<IoStep>,
    transient: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case1 {
    /// a text to parse, or else a document built from values
    text: Option<String>,
    doc: MDoc,
    env: EnvCase,
    /// which node is rendered (0: the document), modulo their number
    node: u32,
    /// how: plain, alternate, padded, cut
    how: u8,
    /// refused writes: by number and by size, in thousandths; empty: every one
    at: Vec<u32>,
    partial: bool,
    transient: bool,
    panic: bool,
    io: Vec<IoPlan>,
}

pub struct Nodes<'a>(pub Vec<(&'static str, &'a dyn Display)>);
impl<'a> Nodes<'a> {
    pub fn of(y: &'a n::Yamd) -> Self {
        let mut v = Nodes(vec![]);
        for b in &y.body {
            v.block(b);
        }
        v
    }
    fn par(&mut self, p: &'a [n::ParagraphNodes]) {
        use n::ParagraphNodes as P;
        for x in p {
            self.0.push(("ParagraphNodes", x));
            match x {
                P::Anchor(a) => self.0.push(("Anchor", a)),
                P::Bold(b) => {
                    self.0.push(("Bold", b));
                    for y in &b.body {
                        self.0.push(("BoldNodes", y));
                        match y {
                            n::BoldNodes::Italic(i) => self.0.push(("Italic", i)),
                            n::BoldNodes::Strikethrough(i) => self.0.push(("Strikethrough", i)),
                            n::BoldNodes::Text(_) => {}
                        }
                    }
                }
                P::Italic(i) => self.0.push(("Italic", i)),
                P::Strikethrough(i) => self.0.push(("Strikethrough", i)),
                P::CodeSpan(i) => self.0.push(("CodeSpan", i)),
                P::Emphasis(i) => self.0.push(("Emphasis", i)),
                P::Text(_) => {}
            }
        }
    }
    fn list(&mut self, l: &'a n::List) {
        self.0.push(("List", l));
        self.0.push(("ListTypes", &l.list_type));
        for i in &l.body {
            self.0.push(("ListItem", i));
            self.par(&i.text);
            if let Some(l) = &i.nested_list {
                self.list(l);
            }
        }
    }
    fn block(&mut self, b: &'a n::YamdNodes) {
        use n::YamdNodes as Y;
        self.0.push(("YamdNodes", b));
        match b {
            Y::Paragraph(p) => {
                self.0.push(("Paragraph", p));
                self.par(&p.body);
            }
            Y::Heading(h) => {
                self.0.push(("Heading", h));
                for x in &h.body {
                    self.0.push(("HeadingNodes", x));
                    if let n::HeadingNodes::Anchor(a) = x {
                        self.0.push(("Anchor", a));
                    }
                }
            }
            Y::Image(i) => self.0.push(("Image", i)),
            Y::Images(i) => {
                self.0.push(("Images", i));
                for x in &i.body {
                    self.0.push(("Image", x));
                }
            }
            Y::Code(c) => self.0.push(("Code", c)),
            Y::List(l) => self.list(l),
            Y::Highlight(h) => {
                self.0.push(("Highlight", h));
                for p in &h.body {
                    self.0.push(("Paragraph", p));
                    self.par(&p.body);
                }
            }
            Y::ThematicBreak(t) => self.0.push(("ThematicBreak", t)),
            Y::Embed(e) => self.0.push(("Embed", e)),
            Y::Collapsible(c) => {
                self.0.push(("Collapsible", c));
                for b in &c.body {
                    self.block(b);
                }
            }
        }
    }
}

fn put(s: &mut dyn fmt::Write, how: u8, d: &dyn Display) -> fmt::Result {
    match how {
        1 => write!(s, "{d:#}"),
        2 => write!(s, "{d:>40}"),
        3 => write!(s, "{d:.3}"),
        _ => write!(s, "{d}"),
    }
}
fn put_io(s: &mut dyn std::io::Write, how: u8, d: &dyn Display) -> std::io::Result<()> {
    match how {
        1 => write!(s, "{d:#}"),
        2 => write!(s, "{d:>40}"),
        3 => write!(s, "{d:.3}"),
        _ => write!(s, "{d}"),
    }
}

pub struct R01;

fn gen_io(r: &mut Rng) -> IoPlan {
    let k = r.below(30);
    let mut steps: Vec<IoStep> = (0..k)
        .map(|_| match r.below(4) {
            0 => IoStep::Interrupted,
            1 => IoStep::Short(1),
            2 => IoStep::Short(1 + r.below(20) as u32),
            _ => IoStep::Short(1_000_000),
        })
        .collect();
    match r.below(4) {
        0 => {}
        1 => steps.push(IoStep::Zero),
        _ => steps.push(IoStep::Fail(r.below(6) as u8)),
    }
    IoPlan { steps, transient: r.chance(1, 2) }
}

impl Prop for R01 {
    fn id(&self) -> &'static str {
        "R01"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            16_000
        } else {
            400_000
        }
    }
    fn gen(&self, r: &mut Rng, _tier: Tier, idx: u64) -> Value {
        let text = if r.chance(1, 2) { Some(gen::family(r, 1).remove(0)) } else { None };
        let mut doc = if text.is_none() { gen::mdoc(r, idx % 40 == 3) } else { MDoc { meta: None, body: vec![] } };
        gen::renderable(&mut doc);
        let all = r.chance(2, 3);
        serde_json::to_value(Case1 {
            text,
            doc,
            env: gen_env(r),
            node: if r.chance(1, 2) { 0 } else { r.below(1000) as u32 },
            how: if r.chance(4, 5) { 0 } else { r.range(1, 3) as u8 },
            at: if all { vec![] } else { (0..r.range(3, 20)).map(|_| r.below(1001) as u32).collect() },
            partial: r.chance(1, 2),
            transient: r.chance(1, 2),
            panic: r.chance(1, 6),
            io: (0..r.below(6)).map(|_| gen_io(r)).collect(),
        })
        .unwrap()
    }
    fn run(&self, case: &Value) -> Report {
        let Ok(c) = serde_json::from_value::<Case1>(case.clone()) else {
            return Report { skip: true, ..Default::default() };
        };
        let mut rep = Report::default();
        apply_env(&c.env);
        unsafe { rt::MAIN_BUDGET = 20_000_000_000 };
        let mut small = c.doc.clone();
        gen::renderable(&mut small);
        let doc: Yamd = match &c.text {
            Some(t) => rt::as_main(|| yamd::deserialize(t)),
            None => mirror::build(&small),
        };
        let before = mirror::canon(&doc);
        let mut ns = Nodes(vec![("Yamd", &doc)]);
        for b in &doc.body {
            ns.block(b);
        }
        let ix = c.node as usize % ns.0.len();
        let (name, d) = ns.0[ix];
        // fault free
        let full = match rt::as_main(|| {
            catch_unwind(AssertUnwindSafe(|| {
                let mut s = Sink::new(&SinkPlan::default(), 256);
                let r = put(&mut s, c.how, d);
                (r.is_ok(), s)
            }))
        }) {
            Ok((ok, s)) => {
                if !ok {
                    rep.violate("spurious-failure", format!("rendering the {name} failed though its writer never did"));
                    return rep;
                }
                s
            }
            Err(_) => {
                // rendering itself panics: not a matter of the writer
                rep.probe("rendering panics", 1);
                return rep;
            }
        };
        let (ncalls, full) = (full.calls, full.got);
        if c.how == 0 {
            let t = rt::as_main(|| d.to_string());
            rep.evals += 1;
            if t != full {
                rep.violate("differs", format!("rendering the {name} in pieces gives {:?}, in one {:?}", short(&full), short(&t)));
            }
        }
        rep.hash(full.as_bytes());
        rep.hash64(ncalls as u64);
        let mut plans: Vec<SinkPlan> = vec![];
        let base = SinkPlan { fail_call: None, fail_byte: None, partial: c.partial, transient: c.transient, panic: c.panic };
        let len = full.len() as u64;
        let pick = |n: u64, cap: u64| -> Vec<u32> {
            let mut v: Vec<u32> = if c.at.is_empty() && n <= cap {
                (0..n as u32).collect()
            } else if c.at.is_empty() {
                // evenly, plus both ends
                (0..cap / 2).map(|i| (i * n / (cap / 2)) as u32).chain((0..cap / 4).map(|i| i as u32)).chain((0..cap / 4).map(|i| (n - 1 - i) as u32)).collect()
            } else {
                c.at.iter().map(|&x| (x as u64 * n.saturating_sub(1) / 1000) as u32).collect()
            };
            v.sort();
            v.dedup();
            v.retain(|&x| (x as u64) < n);
            v
        };
        for k in pick(ncalls as u64, 160) {
            plans.push(SinkPlan { fail_call: Some(k), ..base.clone() });
        }
        for k in pick(len, 200) {
            plans.push(SinkPlan { fail_byte: Some(k), ..base.clone() });
        }
        let mut retries = 0;
        for p in &plans {
            rep.evals += 1;
            let (res, s) = rt::as_main(|| {
                let mut s = rt::harness(|| Sink::new(p, 256));
                let r = catch_unwind(AssertUnwindSafe(|| put(&mut s, c.how, d)));
                (r, s)
            });
            let at = match (p.fail_call, p.fail_byte) {
                (Some(k), _) => format!("write {k} of {ncalls}"),
                (_, Some(b)) => format!("the write passing byte {b} of {len}"),
                _ => String::new(),
            };
            match &res {
                Ok(Ok(())) if s.failed => {
                    rep.violate("success-claimed", format!("{name}: {at} was refused, yet the render reports success; written {:?} of {:?}", short(&s.got), short(&full)))
                }
                Ok(Err(_)) if !s.failed => rep.violate("spurious-failure", format!("{name}: the render failed though no write did")),
                Err(_) if !p.panic => rep.violate("panic", format!("{name}: {at} was refused and the render panicked")),
                _ => {}
            }
            if s.after > 0 {
                rep.violate("written-after-failure", format!("{name}: after {at} was refused, {} more writes with {} bytes were offered", s.after, s.after_text));
            }
            if !full.starts_with(&s.got) {
                rep.violate("not-a-prefix", format!("{name}: after {at} was refused the writer holds {:?}, no prefix of {:?}", short(&s.got), short(&full)));
            }
            if !s.failed && s.got != full {
                rep.violate("differs", format!("{name}: complete, but {:?} instead of {:?}", short(&s.got), short(&full)));
            }
            if s.failed {
                rep.fault(
                    match (p.panic, p.partial) {
                        (true, _) => "writer unwinds",
                        (_, true) => "write cut short and refused",
                        _ => "write refused",
                    },
                    1,
                );
                rep.hash64(s.got.len() as u64);
            }
            if retries < 12 || rep.evals % 16 == 0 {
                retries += 1;
                let mut t = Sink::new(&SinkPlan::default(), 256);
                let ok = rt::as_main(|| put(&mut t, c.how, d).is_ok());
                if !ok || t.got != full {
                    rep.violate("retry-differs", format!("{name}: rendered again after {at} was refused: {:?} instead of {:?}", short(&t.got), short(&full)));
                }
            }
            if rep.viol.is_some() {
                return rep;
            }
        }
        for p in &c.io {
            rep.evals += 1;
            let (res, w) = rt::as_main(|| {
                let mut w = rt::harness(|| IoSink::new(&p.steps, p.transient));
                let r = catch_unwind(AssertUnwindSafe(|| put_io(&mut w, c.how, d)));
                (r, w)
            });
            rep.fault("short write", w.shorts);
            rep.fault("interrupted write", w.intr);
            if let Some(k) = &w.hard {
                rep.fault(if k.is_some() { "I/O error" } else { "write of zero bytes" }, 1);
            }
            match &res {
                Ok(Ok(())) if w.hard.is_some() => rep.violate("success-claimed", format!("{name}: a byte stream failed ({:?}), yet the render reports success", p.steps)),
                Ok(Err(e)) if w.hard.is_none() => rep.violate("spurious-failure", format!("{name}: short and interrupted writes only, yet the render failed: {e}")),
                Ok(Err(e)) => {
                    let want = w.hard.unwrap().unwrap_or(std::io::ErrorKind::WriteZero);
                    if e.kind() != want {
                        rep.violate("wrong-error", format!("{name}: the stream failed with {want:?}, the render with {:?}", e.kind()));
                    }
                }
                Err(_) => rep.violate("panic", format!("{name}: the render into a byte stream panicked ({:?})", p.steps)),
                _ => {}
            }
            if w.after > 0 {
                rep.violate("written-after-failure", format!("{name}: {} more writes after the byte stream failed", w.after));
            }
            if !full.as_bytes().starts_with(&w.got) {
                rep.violate("not-a-prefix", format!("{name}: the byte stream holds {:?}, no prefix of {:?}", String::from_utf8_lossy(&w.got), short(&full)));
            }
            if w.hard.is_none() && w.got != full.as_bytes() {
                rep.violate("differs", format!("{name}: the byte stream got {:?} instead of {:?}", String::from_utf8_lossy(&w.got), short(&full)));
            }
            rep.hash64(w.got.len() as u64);
        }
        let t = mirror::canon(&doc);
        if t != before {
            rep.violate("document-changed", format!("rendering changed the document from {} to {}", short(&before), short(&t)));
        }
        let mut s = Sink::new(&SinkPlan::default(), 256);
        rt::as_main(|| put(&mut s, c.how, d).ok());
        if s.got != full {
            rep.violate("retry-differs", format!("{name}: rendered again: {:?} instead of {:?}", short(&s.got), short(&full)));
        }
        rep.steps = unsafe { rt::MAIN_STEPS };
        rep.sim_ns = rep.steps * 100;
        rep.nontrivial = !rep.faults.is_empty();
        unsafe {
            rep.cov = (*std::ptr::addr_of!(rt::COV)).iter().map(|&x| x as u64).sum();
        }
        rep
    }
    fn rule(&self) -> &'static str {
        "a run renders one node of a seeded document (parsed, or built from arbitrary values) into text sinks refusing every single write and passing every single byte limit (seeded ones for long texts), and into byte streams with seeded short, interrupted, zero and failing writes; non-trivial if a fault fired"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the fault-free rendering of the same node is the reference", "documents whose fault-free rendering panics are left out"]
    }
    fn real(&self) -> &'static str {
        "all Display impls of yamd, core::fmt, io::Write::write_fmt"
    }
    fn stub(&self) -> &'static str {
        "the writers"
    }
}

fn short(s: &str) -> String {
    if s.len() <= 300 {
        return s.to_string();
    }
    let a: String = s.chars().take(140).collect();
    let b: String = s.chars().rev().take(140).collect::<Vec<_>>().into_iter().rev().collect();
    format!("{a}…{b}")
}
