//! R26: stack use does not depend on the length of the text.
use super::conc::{apply_env, gen_env, EnvCase};
use crate::calls::*;
use crate::driver::*;
use crate::gen;
use crate::mirror::{self, MDoc, MB};
use crate::rng::Rng;
use crate::rt;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use yamd::Yamd;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum What {
    /// a text: the unit repeated inside some nesting
    Text { pre: String, unit: String, post: String, call: Call },
    /// a document: the blocks repeated
    Doc { blocks: Vec<MB>, wrap: u8, call: u8 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case26 {
    env: EnvCase,
    what: What,
    short: u32,
    long: u32,
    /// size of the callers' stacks
    stack_kb: u32,
}

pub struct R26;

const INLINE: &[&str] = &[
    "a",
    "a ",
    " ",
    "\\*",
    "\\\\",
    "\\",
    "*",
    "**",
    "_",
    "~",
    "~~",
    "`",
    "``",
    "[",
    "]",
    "(",
    ")",
    "[a]",
    "](",
    "!",
    "!!",
    "#",
    "-",
    "+",
    "- ",
    "|",
    "{",
    "}",
    "%",
    ">",
    "é",
    "🤔",
    "\r",
    "\t",
    "**b** ",
    "_i_",
    "~~s~~",
    "`c`",
    "*e*",
    "[t](d)",
    "**_i_ ~~s~~** ",
    "a\nb ",
    "**a ",
    "_a ",
    "[a",
    "![a",
    "{{a",
    "`a",
    "~~a",
    "*a",
    "![a](b)",
    "{{a|b}}",
    "a|",
    "\\é",
];
const LINES: &[&str] = &[
    "\n",
    "\n\n",
    "\r\n",
    "a\n",
    "a\n\n",
    "- a\n",
    "+ a\n",
    "- a\n - b\n",
    "+ a\n - b\n  + c\n",
    "![a](b)\n",
    "![a](b)\n\n",
    "# a\n\n",
    "# a [b](c)\n",
    "-----\n\n",
    "----\n",
    "{{a|b}}\n\n",
    "!! t\n! i\na\n\nb\n!!\n\n",
    "!!\na\n!!\n\n",
    "!! a\nb\n",
    "```l\nc\n```\n\n",
    "```l\n",
    "{% t\nx\n%}\n\n",
    "{% o\n{% i\nx\n%}\n%}\n\n",
    "**a\n",
    "[a](\n",
    " - a\n",
    "---\n",
    "%}\n",
    "! a\n",
    "# \n",
    "**b** _i_ `c` [t](d)\n\n",
    "  \n",
];

fn docs_of(w: &What, k: u32) -> (String, MDoc) {
    match w {
        What::Text { pre, unit, post, .. } => (format!("{pre}{}{post}", unit.repeat(k as usize)), MDoc { meta: None, body: vec![] }),
        What::Doc { blocks, wrap, .. } => {
            let mut body = vec![];
            for _ in 0..k {
                body.extend(blocks.iter().cloned());
            }
            for _ in 0..*wrap {
                body = vec![MB::Coll("t".into(), body)];
            }
            (String::new(), MDoc { meta: None, body })
        }
    }
}

/// the stack one call takes, on a thread that has little of it
fn depth(w: &What, k: u32, kb: u32) -> usize {
    let (text, md) = docs_of(w, k);
    let w = w.clone();
    std::thread::Builder::new()
        .stack_size(kb as usize * 1024)
        .spawn(move || {
            let docs = vec![text];
            let mut out: Results = vec![];
            let top = &out as *const _ as usize;
            unsafe { rt::SP_MIN = usize::MAX };
            match &w {
                What::Text { call, .. } => {
                    let mut ctx = Ctx::new(&docs, &[], false);
                    rt::as_main(|| exec(call, &mut ctx, &mut out));
                }
                What::Doc { call, .. } => {
                    let y = mirror::build(&md);
                    rt::as_main(|| match call {
                        0 => drop(y.to_string()),
                        1 => drop(y.clone()),
                        2 => {
                            let z = y.clone();
                            assert!(z == y);
                        }
                        3 => {
                            let j = serde_json::to_string(&y).unwrap();
                            drop(serde_json::from_str::<Yamd>(&j));
                        }
                        4 => {
                            let mut b = vec![];
                            ciborium::into_writer(&y, &mut b).unwrap();
                            drop(ciborium::from_reader::<Yamd, _>(&b[..]));
                        }
                        5 => drop(format!("{y:?}")),
                        _ => drop(y),
                    });
                }
            }
            top.saturating_sub(unsafe { rt::SP_MIN })
        })
        .expect("spawn")
        .join()
        .unwrap_or(0)
}

impl Prop for R26 {
    fn id(&self) -> &'static str {
        "R26"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            6000
        } else {
            100_000
        }
    }
    fn gen(&self, r: &mut Rng, _t: Tier, idx: u64) -> Value {
        let short = r.range(10, 40) as u32;
        let what = if r.chance(3, 4) {
            let mut unit = String::new();
            let lines = r.chance(1, 2);
            let k = if r.chance(1, 2) { 1 } else { r.range(2, 4) };
            for _ in 0..k {
                if lines {
                    let mut l = *r.pick(LINES);
                    // what a fence or a highlight swallows could leave collapsibles open
                    if k > 1 && l.contains("{%") {
                        l = "a\n";
                    }
                    unit.push_str(l);
                } else {
                    unit.push_str(r.pick(INLINE));
                }
            }
            let (pre, post) = match r.below(16) {
                0 => ("```a\n", "\n```"),
                1 => ("!! t\n", "\n!!"),
                2 => ("!! t\n! ", "\nx\n!!"),
                3 => ("!! ", "\nx\n!!"),
                4 => ("---\n", "\n---"),
                5 => ("# ", ""),
                6 => ("- ", ""),
                7 => ("- a\n - b\n  - ", ""),
                8 => ("**", "**"),
                9 => ("[", "](u)"),
                10 => ("[t](", ")"),
                11 => ("{{k|", "}}"),
                12 => ("{% ", "\nx\n%}"),
                _ => ("", ""),
            };
            let (mut pre, mut post) = (pre.to_string(), post.to_string());
            if r.chance(1, 4) {
                let d = r.range(1, 12);
                pre = format!("{}{pre}", "{% t\n".repeat(d));
                post = format!("{post}{}", "\n%}".repeat(d));
            }
            What::Text { pre, unit, post, call: gen_call(r, 1, 0, true) }
        } else {
            let blocks = (0..r.range(1, 2)).map(|_| gen::mblock(r, 2)).collect();
            let mut d = MDoc { meta: None, body: blocks };
            gen::renderable(&mut d);
            What::Doc { blocks: d.body, wrap: if r.chance(1, 3) { r.range(1, 8) as u8 } else { 0 }, call: r.below(7) as u8 }
        };
        let size = match &what {
            What::Text { unit, .. } => unit.len(),
            What::Doc { .. } => 30,
        };
        // now and then a really long one, of what parses in linear time
        let cheap = match &what {
            What::Text { pre, unit, .. } => pre.is_empty() && (unit.ends_with("\n\n") || unit == "a " || unit == "\n"),
            _ => false,
        };
        let long = if cheap && idx % 4 == 3 { (100_000 / size.max(1)).clamp(1200, 60_000) as u32 } else { (short * 32).min((8000 / size.max(1)) as u32).max(short * 2) };
        serde_json::to_value(Case26 { env: gen_env(r), what, short, long, stack_kb: *r.pick(&[192, 256, 320]) }).unwrap()
    }
    fn run(&self, case: &Value) -> Report {
        let Ok(c) = serde_json::from_value::<Case26>(case.clone()) else {
            return Report { skip: true, ..Default::default() };
        };
        let mut rep = Report::default();
        if c.short < 4 || c.long < c.short || c.stack_kb < 192 {
            rep.skip = true;
            return rep;
        }
        apply_env(&c.env);
        unsafe { rt::MAIN_BUDGET = 40_000_000_000 };
        let _ = depth(&c.what, c.short, c.stack_kb);
        let a = depth(&c.what, c.short, c.stack_kb).max(depth(&c.what, c.short + 1, c.stack_kb));
        let b = depth(&c.what, c.long, c.stack_kb);
        rep.evals += 2;
        rep.fault("caller with a small stack", 4);
        if b > a + 8192 {
            let t = match &c.what {
                What::Text { pre, unit, post, call } => format!("{call:?} of {pre:?} {unit:?}… {post:?}"),
                What::Doc { blocks, call, .. } => format!("call {call} on a document of {} repeated blocks", blocks.len()),
            };
            rep.violate("stack-grows", format!("{t}: {a} bytes of stack for {} repetitions, {b} for {}", c.short, c.long));
        }
        rep.hash64(a as u64);
        rep.hash64(b as u64);
        rep.hash(&serde_json::to_vec(&c.what).unwrap());
        rep.probe("stack bytes, sum over runs", b as u64);
        rep.steps = unsafe { rt::MAIN_STEPS };
        rep.sim_ns = rep.steps * 100;
        unsafe {
            rep.cov = (*std::ptr::addr_of!(rt::COV)).iter().map(|&x| x as u64).sum();
        }
        rep.nontrivial = b > 0;
        rep
    }
    fn rule(&self) -> &'static str {
        "a run makes one call on threads with 192-320 KiB of stack, on a text (or document) in which a seeded unit is repeated 10-40 times and 32 times as often (sometimes 200 KB), inside up to 12 levels of nesting, and compares the stack both took; non-trivial if the call was measured"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "stack use is the distance to the lowest stack pointer seen at an instrumented step of yamd; growth by more than 8 KiB between the short and the long text counts",
            "frames are those of yamd compiled without optimisation, as in a debug build; repeated units are properly closed or never nest",
        ]
    }
    fn real(&self) -> &'static str {
        "all of yamd, std, serde_json, ciborium; real OS threads"
    }
    fn stub(&self) -> &'static str {
        "size of the callers' stacks, clock, entropy, environment variables, heap"
    }
}
