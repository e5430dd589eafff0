//! R28: documents are plain values. Simulated editors on several threads build, parse, clone,
//! edit in place, take apart, swap, hand over, store and drop documents while a reference model
//! (the mirror of each document) goes along; what a document renders as is compared with a
//! document of the same content built by a pristine process.
use super::conc::{apply_env, gen_env, gen_ssw, gen_switches, EnvCase};
use crate::driver::*;
use crate::gen;
use crate::mirror::{self, MBo, MDoc, MB, MH, ML, MP};
use crate::rng::Rng;
use crate::rt;
use crate::sinks::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use yamd::nodes as n;
use yamd::Yamd;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Edit {
    /// the k-th text of the document
    Str {
        k: u32,
        how: u8,
        at: u32,
        w: String,
    },
    SwapStr {
        j: u32,
        k: u32,
    },
    /// metadata, title or icon
    Opt {
        k: u32,
        to: Option<String>,
    },
    /// level of a heading or list
    Num {
        k: u32,
        to: u8,
    },
    /// kind of a list
    Kind {
        k: u32,
    },
    /// blocks: the v-th sequence of blocks (the document's own, those of its collapsibles)
    Blocks {
        v: u32,
        how: u8,
        i: u32,
        j: u32,
        b: Option<MB>,
    },
    /// the k-th sequence of inline nodes
    Inline {
        k: u32,
        how: u8,
        with: Vec<MP>,
    },
    /// items of the k-th list
    Items {
        k: u32,
        how: u8,
    },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Act {
    Parse {
        s: u8,
        d: u32,
    },
    Events {
        s: u8,
        d: u32,
    },
    Build {
        s: u8,
        d: u32,
    },
    Clone {
        from: u8,
        to: u8,
    },
    CloneFrom {
        from: u8,
        to: u8,
    },
    Edit {
        s: u8,
        e: Edit,
    },
    Swap {
        a: u8,
        b: u8,
    },
    Take {
        from: u8,
        to: u8,
    },
    /// a block moves from one document to another
    Graft {
        from: u8,
        to: u8,
        i: u32,
        j: u32,
    },
    Grow {
        s: u8,
    },
    /// 0 text, 1 its blocks, 2 JSON, 3 CBOR
    Show {
        s: u8,
        how: u8,
    },
    Fail {
        s: u8,
        plan: SinkPlan,
    },
    Eq {
        a: u8,
        b: u8,
    },
    /// every block of one with every block of the other
    EqBlocks {
        a: u8,
        b: u8,
    },
    Store {
        from: u8,
        to: u8,
        cbor: bool,
    },
    /// rendered into a writer that acts on other documents meanwhile
    Nested {
        s: u8,
        acts: Vec<Act>,
    },
    Drop {
        s: u8,
    },
    Give {
        s: u8,
        post: u8,
    },
    Get {
        s: u8,
        post: u8,
    },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case28 {
    texts: Vec<String>,
    docs: Vec<MDoc>,
    env: EnvCase,
    tasks: Vec<Vec<Act>>,
    first: u8,
    sw: Vec<(u32, u8)>,
    ssw: Vec<(u32, u8, u8)>,
}

// ---------------------------------------------------------------- parts of documents, in the same order on both sides

#[derive(Default)]
struct Parts<'a> {
    strs: Vec<&'a mut String>,
}
impl<'a> Parts<'a> {
    fn par(&mut self, p: &'a mut [n::ParagraphNodes]) {
        use n::ParagraphNodes as P;
        for x in p {
            match x {
                P::Anchor(a) => self.strs.extend([&mut a.text, &mut a.url]),
                P::Bold(b) => {
                    for y in &mut b.body {
                        self.strs.push(match y {
                            n::BoldNodes::Italic(i) => &mut i.0,
                            n::BoldNodes::Strikethrough(i) => &mut i.0,
                            n::BoldNodes::Text(t) => t,
                        })
                    }
                }
                P::Italic(i) => self.strs.push(&mut i.0),
                P::Strikethrough(i) => self.strs.push(&mut i.0),
                P::CodeSpan(i) => self.strs.push(&mut i.0),
                P::Emphasis(i) => self.strs.push(&mut i.0),
                P::Text(t) => self.strs.push(t),
            }
        }
    }
    fn list(&mut self, l: &'a mut n::List) {
        for i in &mut l.body {
            self.par(&mut i.text);
            if let Some(l) = &mut i.nested_list {
                self.list(l);
            }
        }
    }
    fn block(&mut self, b: &'a mut n::YamdNodes) {
        use n::YamdNodes as Y;
        match b {
            Y::Paragraph(p) => self.par(&mut p.body),
            Y::Heading(h) => {
                for x in &mut h.body {
                    match x {
                        n::HeadingNodes::Text(t) => self.strs.push(t),
                        n::HeadingNodes::Anchor(a) => self.strs.extend([&mut a.text, &mut a.url]),
                    }
                }
            }
            Y::Image(i) => self.strs.extend([&mut i.alt, &mut i.src]),
            Y::Images(i) => i.body.iter_mut().for_each(|i| self.strs.extend([&mut i.alt, &mut i.src])),
            Y::Code(c) => self.strs.extend([&mut c.lang, &mut c.code]),
            Y::List(l) => self.list(l),
            Y::Highlight(h) => {
                self.strs.extend(h.title.as_mut());
                self.strs.extend(h.icon.as_mut());
                h.body.iter_mut().for_each(|p| self.par(&mut p.body));
            }
            Y::ThematicBreak(_) => {}
            Y::Embed(e) => self.strs.extend([&mut e.kind, &mut e.args]),
            Y::Collapsible(c) => {
                self.strs.push(&mut c.title);
                c.body.iter_mut().for_each(|b| self.block(b));
            }
        }
    }
    fn doc(&mut self, y: &'a mut Yamd) {
        self.strs.extend(y.metadata.as_mut());
        y.body.iter_mut().for_each(|b| self.block(b));
    }
    fn mpar(&mut self, p: &'a mut [MP]) {
        for x in p {
            match x {
                MP::A(a, b) => self.strs.extend([a, b]),
                MP::B(b) => b.iter_mut().for_each(|y| match y {
                    MBo::I(t) | MBo::S(t) | MBo::T(t) => self.strs.push(t),
                }),
                MP::I(t) | MP::S(t) | MP::T(t) | MP::C(t) | MP::E(t) => self.strs.push(t),
            }
        }
    }
    fn mlist(&mut self, l: &'a mut ML) {
        for i in &mut l.items {
            self.mpar(&mut i.text);
            if let Some(l) = &mut i.nested {
                self.mlist(l);
            }
        }
    }
    fn mblock(&mut self, b: &'a mut MB) {
        match b {
            MB::Par(p) => self.mpar(p),
            MB::Head(_, v) => v.iter_mut().for_each(|x| match x {
                MH::T(t) => self.strs.push(t),
                MH::A(a, b) => self.strs.extend([a, b]),
            }),
            MB::Img(a, b) | MB::Code(a, b) | MB::Embed(a, b) => self.strs.extend([a, b]),
            MB::Imgs(v) => v.iter_mut().for_each(|(a, b)| self.strs.extend([a, b])),
            MB::List(l) => self.mlist(l),
            MB::High(t, i, v) => {
                self.strs.extend(t.as_mut());
                self.strs.extend(i.as_mut());
                v.iter_mut().for_each(|p| self.mpar(p));
            }
            MB::Break => {}
            MB::Coll(t, v) => {
                self.strs.push(t);
                v.iter_mut().for_each(|b| self.mblock(b));
            }
        }
    }
    fn mdoc(&mut self, y: &'a mut MDoc) {
        self.strs.extend(y.meta.as_mut());
        y.body.iter_mut().for_each(|b| self.mblock(b));
    }
}

fn opts<'a>(b: &'a mut [n::YamdNodes], out: &mut Vec<&'a mut Option<String>>) {
    for x in b {
        match x {
            n::YamdNodes::Highlight(h) => out.extend([&mut h.title, &mut h.icon]),
            n::YamdNodes::Collapsible(c) => opts(&mut c.body, out),
            _ => {}
        }
    }
}
fn mopts<'a>(b: &'a mut [MB], out: &mut Vec<&'a mut Option<String>>) {
    for x in b {
        match x {
            MB::High(t, i, _) => out.extend([t, i]),
            MB::Coll(_, v) => mopts(v, out),
            _ => {}
        }
    }
}

/// runs `f` on every block; true ends the walk
fn walk(b: &mut [n::YamdNodes], f: &mut dyn FnMut(&mut n::YamdNodes) -> bool) -> bool {
    for x in b {
        if f(x) {
            return true;
        }
        if let n::YamdNodes::Collapsible(c) = x {
            if walk(&mut c.body, f) {
                return true;
            }
        }
    }
    false
}
fn mwalk(b: &mut [MB], f: &mut dyn FnMut(&mut MB) -> bool) -> bool {
    for x in b {
        if f(x) {
            return true;
        }
        if let MB::Coll(_, v) = x {
            if mwalk(v, f) {
                return true;
            }
        }
    }
    false
}
fn lists<'a>(l: &'a mut n::List, k: &mut i64, f: &mut dyn FnMut(&mut n::List)) -> bool {
    if *k == 0 {
        f(l);
        return true;
    }
    *k -= 1;
    for i in &mut l.body {
        if let Some(l) = &mut i.nested_list {
            if lists(l, k, f) {
                return true;
            }
        }
    }
    false
}
fn mlists(l: &mut ML, k: &mut i64, f: &mut dyn FnMut(&mut ML)) -> bool {
    if *k == 0 {
        f(l);
        return true;
    }
    *k -= 1;
    for i in &mut l.items {
        if let Some(l) = &mut i.nested {
            if mlists(l, k, f) {
                return true;
            }
        }
    }
    false
}
/// the k-th list of the document
fn on_list(y: &mut Yamd, k: u32, f: &mut dyn FnMut(&mut n::List)) -> bool {
    let mut k = k as i64;
    walk(&mut y.body, &mut |b| if let n::YamdNodes::List(l) = b { lists(l, &mut k, f) } else { false })
}
fn on_mlist(y: &mut MDoc, k: u32, f: &mut dyn FnMut(&mut ML)) -> bool {
    let mut k = k as i64;
    mwalk(&mut y.body, &mut |b| if let MB::List(l) = b { mlists(l, &mut k, f) } else { false })
}

fn inline_list<'a>(l: &'a mut n::List, out: &mut Vec<&'a mut Vec<n::ParagraphNodes>>) {
    for i in &mut l.body {
        out.push(&mut i.text);
        if let Some(l) = &mut i.nested_list {
            inline_list(l, out);
        }
    }
}
fn inlines<'a>(b: &'a mut [n::YamdNodes], out: &mut Vec<&'a mut Vec<n::ParagraphNodes>>) {
    for x in b {
        match x {
            n::YamdNodes::Paragraph(p) => out.push(&mut p.body),
            n::YamdNodes::List(l) => inline_list(l, out),
            n::YamdNodes::Highlight(h) => h.body.iter_mut().for_each(|p| out.push(&mut p.body)),
            n::YamdNodes::Collapsible(c) => inlines(&mut c.body, out),
            _ => {}
        }
    }
}
fn minline_list<'a>(l: &'a mut ML, out: &mut Vec<&'a mut Vec<MP>>) {
    for i in &mut l.items {
        out.push(&mut i.text);
        if let Some(l) = &mut i.nested {
            minline_list(l, out);
        }
    }
}
fn minlines<'a>(b: &'a mut [MB], out: &mut Vec<&'a mut Vec<MP>>) {
    for x in b {
        match x {
            MB::Par(p) => out.push(p),
            MB::List(l) => minline_list(l, out),
            MB::High(_, _, v) => out.extend(v.iter_mut()),
            MB::Coll(_, v) => minlines(v, out),
            _ => {}
        }
    }
}
fn seqs<'a>(b: &'a mut Vec<n::YamdNodes>, k: &mut i64) -> Option<&'a mut Vec<n::YamdNodes>> {
    if *k == 0 {
        return Some(b);
    }
    *k -= 1;
    for x in b {
        if let n::YamdNodes::Collapsible(c) = x {
            if let Some(v) = seqs(&mut c.body, k) {
                return Some(v);
            }
        }
    }
    None
}
fn mseqs<'a>(b: &'a mut Vec<MB>, k: &mut i64) -> Option<&'a mut Vec<MB>> {
    if *k == 0 {
        return Some(b);
    }
    *k -= 1;
    for x in b {
        if let MB::Coll(_, v) = x {
            if let Some(v) = mseqs(v, k) {
                return Some(v);
            }
        }
    }
    None
}
fn nseqs(b: &[MB]) -> u32 {
    1 + b.iter().map(|x| if let MB::Coll(_, v) = x { nseqs(v) } else { 0 }).sum::<u32>()
}

// ---------------------------------------------------------------- edits

fn edit_str(s: &mut String, how: u8, at: u32, w: &str) {
    let mut k = at as usize % (s.len() + 1);
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    match how % 8 {
        0 => s.push_str(w),
        1 => s.insert_str(k, w),
        2 => {
            s.pop();
        }
        3 | 4 => {
            // same length, same place in memory
            if let Some(c) = s[k..].chars().next() {
                let c2 = match c {
                    'a'..='y' | 'A'..='Y' | '0'..='8' => (c as u8 + 1) as char,
                    'z' | 'Z' | '9' => '#',
                    '\\' => ']',
                    c if c.is_ascii() => '\\',
                    c => c,
                };
                s.replace_range(k..k + c.len_utf8(), c2.encode_utf8(&mut [0; 4]));
            }
        }
        5 => s.clear(),
        6 => s.truncate(k),
        _ => *s = w.into(),
    }
}

/// the same edit on both; false if there is nothing to edit
fn edit(y: &mut Yamd, m: &mut MDoc, e: &Edit) -> bool {
    match e {
        Edit::Str { k, how, at, w } => {
            let (mut a, mut b) = (Parts::default(), Parts::default());
            a.doc(y);
            b.mdoc(m);
            if a.strs.is_empty() || a.strs.len() != b.strs.len() {
                return false;
            }
            let k = *k as usize % a.strs.len();
            edit_str(a.strs[k], *how, *at, w);
            edit_str(b.strs[k], *how, *at, w);
        }
        Edit::SwapStr { j, k } => {
            let (mut a, mut b) = (Parts::default(), Parts::default());
            a.doc(y);
            b.mdoc(m);
            if a.strs.is_empty() || a.strs.len() != b.strs.len() {
                return false;
            }
            let (j, k) = (*j as usize % a.strs.len(), *k as usize % a.strs.len());
            for p in [&mut a.strs, &mut b.strs] {
                let x = std::mem::take(p[j]);
                let x = std::mem::replace(p[k], x);
                if j != k {
                    *p[j] = x;
                } else {
                    // taken from itself
                    let _ = x;
                }
            }
        }
        Edit::Opt { k, to } => {
            let (mut a, mut b) = (vec![&mut y.metadata], vec![&mut m.meta]);
            opts(&mut y.body, &mut a);
            mopts(&mut m.body, &mut b);
            if a.len() != b.len() {
                return false;
            }
            let k = *k as usize % a.len();
            *a[k] = to.clone();
            *b[k] = to.clone();
        }
        Edit::Num { k, to } => {
            if k % 2 == 0 {
                let lv = *to as usize % 12;
                let f = on_list(y, k / 2, &mut |l| l.level = lv);
                on_mlist(m, k / 2, &mut |l| l.level = lv);
                return f;
            }
            let mut j = k / 2;
            walk(&mut y.body, &mut |b| {
                if let n::YamdNodes::Heading(h) = b {
                    if j == 0 {
                        h.level = *to;
                        return true;
                    }
                    j -= 1;
                }
                false
            });
            let mut j = k / 2;
            return mwalk(&mut m.body, &mut |b| {
                if let MB::Head(l, _) = b {
                    if j == 0 {
                        *l = *to;
                        return true;
                    }
                    j -= 1;
                }
                false
            });
        }
        Edit::Kind { k } => {
            on_list(y, *k, &mut |l| {
                l.list_type = match l.list_type {
                    n::ListTypes::Ordered => n::ListTypes::Unordered,
                    n::ListTypes::Unordered => n::ListTypes::Ordered,
                }
            });
            return on_mlist(m, *k, &mut |l| l.ordered = !l.ordered);
        }
        Edit::Blocks { v, how, i, j, b } => {
            let v = (v % nseqs(&m.body)) as i64;
            let (Some(a), Some(c)) = (seqs(&mut y.body, &mut v.clone()), mseqs(&mut m.body, &mut v.clone())) else {
                return false;
            };
            if a.len() != c.len() {
                return false;
            }
            let len = a.len();
            let at = |k: u32| k as usize % len.max(1);
            match how % 9 {
                0 | 1 => {
                    let b = b.clone().unwrap_or(MB::Break);
                    let at = *i as usize % (len + 1);
                    a.insert(at, mirror::build_block(&b));
                    c.insert(at, b);
                }
                _ if len == 0 => return false,
                2 => {
                    a.remove(at(*i));
                    c.remove(at(*i));
                }
                3 => {
                    a.swap(at(*i), at(*j));
                    c.swap(at(*i), at(*j));
                }
                4 => {
                    a.reverse();
                    c.reverse();
                }
                5 => {
                    let x = a[at(*i)].clone();
                    a.insert(at(*j), x);
                    let x = c[at(*i)].clone();
                    c.insert(at(*j), x);
                }
                6 => {
                    a.truncate(at(*i));
                    c.truncate(at(*i));
                }
                7 => {
                    let b = b.clone().unwrap_or(MB::Break);
                    a[at(*i)] = mirror::build_block(&b);
                    c[at(*i)] = b;
                }
                _ => {
                    let x = a[at(*i)].clone();
                    a[at(*j)].clone_from(&x);
                    c[at(*j)] = c[at(*i)].clone();
                }
            }
        }
        Edit::Inline { k, how, with } => {
            let (mut a, mut b) = (vec![], vec![]);
            inlines(&mut y.body, &mut a);
            minlines(&mut m.body, &mut b);
            if a.is_empty() || a.len() != b.len() {
                return false;
            }
            let k = *k as usize % a.len();
            let (a, b) = (&mut a[k], &mut b[k]);
            match how % 5 {
                0 => {
                    a.pop();
                    b.pop();
                }
                1 => {
                    a.reverse();
                    b.reverse();
                }
                2 => {
                    a.extend(mirror::build_par(with));
                    b.extend(with.iter().cloned());
                }
                3 => {
                    **a = mirror::build_par(with);
                    **b = with.clone();
                }
                _ => {
                    let x = a.clone();
                    a.clear();
                    a.extend(x.into_iter().rev());
                    b.reverse();
                }
            }
        }
        Edit::Items { k, how } => {
            let how = how % 6;
            on_list(y, *k, &mut |l| match how {
                0 => drop(l.body.pop()),
                1 => l.body.reverse(),
                2 => {
                    if let Some(x) = l.body.first_mut() {
                        x.nested_list = None;
                    }
                }
                3 => {
                    if let Some(x) = l.body.first().cloned() {
                        l.body.push(x);
                    }
                }
                4 => {
                    if l.body.len() > 1 {
                        let x = l.body[0].clone();
                        l.body.last_mut().unwrap().clone_from(&x);
                    }
                }
                _ => {
                    if let Some(x) = l.body.first_mut().and_then(|x| x.nested_list.take()) {
                        *l = x;
                    }
                }
            });
            return on_mlist(m, *k, &mut |l| match how {
                0 => drop(l.items.pop()),
                1 => l.items.reverse(),
                2 => {
                    if let Some(x) = l.items.first_mut() {
                        x.nested = None;
                    }
                }
                3 => {
                    if let Some(x) = l.items.first().cloned() {
                        l.items.push(x);
                    }
                }
                4 => {
                    if l.items.len() > 1 {
                        *l.items.last_mut().unwrap() = l.items[0].clone();
                    }
                }
                _ => {
                    if let Some(x) = l.items.first_mut().and_then(|x| x.nested.take()) {
                        *l = *x;
                    }
                }
            });
        }
    }
    true
}

// ---------------------------------------------------------------- what a document shows

fn show(y: &Yamd, how: u8) -> String {
    match how % 4 {
        0 => y.to_string(),
        1 => {
            let mut out = String::new();
            for b in &y.body {
                let _ = write!(out, "{b}\u{1}");
            }
            out
        }
        2 => serde_json::to_string(y).unwrap_or_else(|_| "ERR".into()),
        _ => {
            let mut b = vec![];
            match ciborium::into_writer(y, &mut b) {
                Ok(()) => format!("{}:{}", b.len(), crate::rng::hash_bytes(&b)),
                Err(_) => "ERR".into(),
            }
        }
    }
}

/// a process that never calls yamd itself, but has its own children do
fn references() -> std::os::unix::net::UnixStream {
    let (mut a, b) = std::os::unix::net::UnixStream::pair().expect("socketpair");
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid > 0 {
        return b;
    }
    drop(b);
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let mut q = vec![];
    let _ = a.read_to_end(&mut q);
    let q: Vec<(MDoc, u8)> = serde_json::from_slice(&q).unwrap_or_default();
    let out: Vec<Option<String>> = q
        .iter()
        .map(|(m, how)| {
            let o = rt::forked(30_000, || {
                rt::environment(0x1111, 1_600_000_000_000_000_000, 1000, (0, 0), 0);
                unsafe { rt::MAIN_BUDGET = 2_000_000_000 };
                rt::as_main(|| show(&mirror::build(m), *how)).into_bytes()
            });
            match o {
                rt::Outcome::Ok(b) => String::from_utf8(b).ok(),
                _ => None,
            }
        })
        .collect();
    let _ = a.write_all(&serde_json::to_vec(&out).unwrap());
    unsafe { libc::_exit(0) }
}

// ---------------------------------------------------------------- a run

type Slot = Option<(Yamd, MDoc)>;
struct Boxed(Slot);
unsafe impl Send for Boxed {}

#[derive(Default)]
struct Seen {
    shown: Vec<(MDoc, u8, String)>,
    bad: Vec<(&'static str, String)>,
    evals: u64,
    did: BTreeMap<&'static str, u64>,
}
impl Seen {
    fn bad(&mut self, class: &'static str, m: String) {
        if self.bad.len() < 3 {
            self.bad.push((class, m));
        }
    }
}

const SLOTS: usize = 4;
const POSTS: usize = 3;

struct World {
    texts: Vec<String>,
    docs: Vec<MDoc>,
    posts: Mutex<Vec<Boxed>>,
}

struct Editor<'w> {
    w: &'w World,
    slots: Vec<Slot>,
    seen: Seen,
    who: usize,
}

struct Acting<'e, 'w> {
    e: *mut Editor<'w>,
    acts: &'e [Act],
    k: usize,
    got: String,
}
impl std::fmt::Write for Acting<'_, '_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        rt::point();
        rt::harness(|| self.got.push_str(s));
        if self.k < self.acts.len() {
            let a = &self.acts[self.k];
            self.k += 1;
            unsafe { (*self.e).act(a, true) };
        }
        Ok(())
    }
}

fn size(m: &MDoc) -> usize {
    fn b(x: &MB) -> usize {
        1 + match x {
            MB::Coll(_, v) => v.iter().map(b).sum(),
            MB::List(l) => li(l),
            MB::Par(p) => p.len(),
            _ => 0,
        }
    }
    fn li(l: &ML) -> usize {
        1 + l.items.iter().map(|i| 1 + i.text.len() + i.nested.as_ref().map(|l| li(l)).unwrap_or(0)).sum::<usize>()
    }
    m.body.iter().map(b).sum()
}

impl Editor<'_> {
    fn put(&mut self, s: u8, v: Slot) {
        let s = s as usize % SLOTS;
        let old = std::mem::replace(&mut self.slots[s], v);
        if let Some((y, m)) = old {
            drop(y);
            rt::harness(|| drop(m));
        }
    }
    fn did(&mut self, k: &'static str) {
        rt::harness(|| *self.seen.did.entry(k).or_insert(0) += 1);
    }
    fn model(y: &Yamd) -> MDoc {
        rt::harness(|| mirror::doc(y))
    }
    fn act(&mut self, a: &Act, inner: bool) {
        let i = |s: &u8| *s as usize % SLOTS;
        match a {
            Act::Parse { s, d } | Act::Events { s, d } => {
                if self.w.texts.is_empty() {
                    return;
                }
                // the text does not outlive the parse
                let mut t = rt::harness(|| self.w.texts[*d as usize % self.w.texts.len()].clone());
                let y = if matches!(a, Act::Parse { .. }) {
                    yamd::deserialize(&t)
                } else {
                    let ops = yamd::parse(&t);
                    let copy = rt::harness(|| mirror::build_ops(&mirror::ops(&ops)));
                    drop(ops);
                    let y = yamd::to_yamd(&copy, &t);
                    rt::harness(|| drop(copy));
                    y
                };
                let m = Self::model(&y);
                rt::harness(|| {
                    unsafe { t.as_bytes_mut() }.fill(b'~');
                    drop(t)
                });
                self.put(*s, Some((y, m)));
            }
            Act::Build { s, d } => {
                if self.w.docs.is_empty() {
                    return;
                }
                let m = rt::harness(|| self.w.docs[*d as usize % self.w.docs.len()].clone());
                let y = mirror::build(&m);
                self.put(*s, Some((y, m)));
            }
            Act::Clone { from, to } => {
                if let Some((y, m)) = &self.slots[i(from)] {
                    let y = y.clone();
                    let m = rt::harness(|| m.clone());
                    self.did("cloned");
                    self.put(*to, Some((y, m)));
                }
            }
            Act::CloneFrom { from, to } => {
                if i(from) == i(to) {
                    return;
                }
                let Some((y, m)) = self.slots[i(from)].take() else { return };
                if let Some((z, k)) = &mut self.slots[i(to)] {
                    z.clone_from(&y);
                    rt::harness(|| *k = m.clone());
                }
                self.slots[i(from)] = Some((y, m));
                self.did("overwritten by a clone");
            }
            Act::Edit { s, e } => {
                if let Some((y, m)) = &mut self.slots[i(s)] {
                    // edits are the editor's own doing; what they drop and clone is yamd's
                    if size(m) < 400 && edit(y, m, e) {
                        self.did("edited in place");
                    }
                }
            }
            Act::Swap { a, b } => self.slots.swap(i(a), i(b)),
            Act::Take { from, to } => {
                if i(from) == i(to) {
                    return;
                }
                if let Some((y, m)) = &mut self.slots[i(from)] {
                    let y = std::mem::take(y);
                    let m = rt::harness(|| std::mem::replace(m, MDoc { meta: None, body: vec![] }));
                    self.put(*to, Some((y, m)));
                }
            }
            Act::Graft { from, to, i: at, j } => {
                if i(from) == i(to) {
                    return;
                }
                let Some((mut y, mut m)) = self.slots[i(from)].take() else { return };
                if let Some((z, k)) = &mut self.slots[i(to)] {
                    if !y.body.is_empty() && m.body.len() == y.body.len() && z.body.len() == k.body.len() && size(k) < 400 {
                        let at = *at as usize % y.body.len();
                        let j = *j as usize % (z.body.len() + 1);
                        let x = y.body.remove(at);
                        z.body.insert(j, x);
                        rt::harness(|| {
                            let x = m.body.remove(at);
                            k.body.insert(j, x);
                        });
                    }
                }
                self.slots[i(from)] = Some((y, m));
                self.did("block moved to another document");
            }
            Act::Grow { s } => {
                // everything moves in memory
                if let Some((y, _)) = &mut self.slots[i(s)] {
                    let n = y.body.capacity() * 2 + 8;
                    y.body.reserve(n);
                }
            }
            Act::Show { s, how } => {
                if let Some((y, m)) = &self.slots[i(s)] {
                    let got = show(y, *how);
                    rt::harness(|| self.seen.shown.push((m.clone(), *how, got.as_str().into())));
                }
            }
            Act::Fail { s, plan } => {
                if let Some((y, _)) = &self.slots[i(s)] {
                    let mut k = rt::harness(|| Sink::new(plan, 256));
                    let _ = catch_unwind(AssertUnwindSafe(|| write!(k, "{y}")));
                    rt::harness(|| drop(k));
                    self.did(if plan.panic { "writer unwinds" } else { "writer fails" });
                }
            }
            Act::Eq { a, b } => {
                if let (Some((y, m)), Some((z, k))) = (&self.slots[i(a)], &self.slots[i(b)]) {
                    let (eq, ne) = (y == z, y != z);
                    let want = rt::harness(|| m == k);
                    self.seen.evals += 1;
                    if eq != want || ne == want {
                        rt::harness(|| {
                            self.seen.bad(
                                "wrong-equality",
                                format!("editor {}: documents that are {} compare as {eq} (!=: {ne}): {} and {}", self.who, if want { "equal" } else { "different" }, js(m), js(k)),
                            )
                        });
                    }
                }
            }
            Act::EqBlocks { a, b } => {
                if let (Some((y, m)), Some((z, k))) = (&self.slots[i(a)], &self.slots[i(b)]) {
                    for (x, u) in y.body.iter().zip(&m.body).take(12) {
                        for (w, v) in z.body.iter().zip(&k.body).take(12) {
                            let eq = x == w;
                            let want = rt::harness(|| u == v);
                            self.seen.evals += 1;
                            if eq != want {
                                rt::harness(|| {
                                    self.seen.bad(
                                        "wrong-equality",
                                        format!("editor {}: blocks that are {} compare as {eq}: {u:?} and {v:?}", self.who, if want { "equal" } else { "different" }),
                                    )
                                });
                            }
                        }
                    }
                }
            }
            Act::Store { from, to, cbor } => {
                if let Some((y, m)) = &self.slots[i(from)] {
                    let z = if *cbor {
                        let mut b = vec![];
                        ciborium::into_writer(y, &mut b).ok().and_then(|_| ciborium::from_reader::<Yamd, _>(&b[..]).ok())
                    } else {
                        serde_json::to_string(y).ok().and_then(|j| serde_json::from_str::<Yamd>(&j).ok())
                    };
                    let m = rt::harness(|| m.clone());
                    match z {
                        Some(z) => self.put(*to, Some((z, m))),
                        None => rt::harness(|| self.seen.bad("not-read-back", format!("editor {}: a stored document could not be read back: {}", self.who, js(&m)))),
                    }
                    self.did("stored and read back");
                }
            }
            Act::Nested { s, acts } => {
                if inner {
                    return;
                }
                let Some((y, m)) = self.slots[i(s)].take() else { return };
                let mut k = Acting { e: self, acts, k: 0, got: String::new() };
                let ok = write!(k, "{y}").is_ok();
                let got = rt::harness(|| if ok { k.got.as_str().into() } else { String::from("ERR") });
                rt::harness(|| drop(k));
                rt::harness(|| self.seen.shown.push((m.clone(), 0, got)));
                if self.slots[i(s)].is_none() {
                    self.slots[i(s)] = Some((y, m));
                }
                self.did("others edited while one is rendered");
            }
            Act::Drop { s } => self.put(*s, None),
            Act::Give { s, post } => {
                let v = self.slots[i(s)].take();
                let old = rt::harness(|| std::mem::replace(&mut self.w.posts.lock().unwrap()[*post as usize % POSTS], Boxed(v)));
                if let Some((y, m)) = old.0 {
                    drop(y);
                    rt::harness(|| drop(m));
                }
            }
            Act::Get { s, post } => {
                let v = rt::harness(|| std::mem::replace(&mut self.w.posts.lock().unwrap()[*post as usize % POSTS], Boxed(None)));
                if v.0.is_some() {
                    self.did("handed to another thread");
                    self.put(*s, v.0);
                }
            }
        }
        // every document is what the model says, whatever was done to the others
        rt::harness(|| {
            for (k, x) in self.slots.iter().enumerate() {
                if let Some((y, m)) = x {
                    self.seen.evals += 1;
                    let got = mirror::doc(y);
                    if &got != m {
                        let t = format!("editor {}: after {a:?} document {k} is {} instead of {}", self.who, js(&got), js(m));
                        self.seen.bad.push(("wrong-content", t));
                        return;
                    }
                }
            }
        });
    }
}

fn js(m: &MDoc) -> String {
    let s = serde_json::to_string(m).unwrap();
    s.chars().take(300).collect()
}

fn gen_edit(r: &mut Rng) -> Edit {
    let k = r.below(40) as u32;
    match r.below(12) {
        0..=3 => Edit::Str { k, how: r.below(8) as u8, at: r.below(60) as u32, w: gen::word(r, 3, 8) },
        4 => Edit::SwapStr { j: r.below(40) as u32, k },
        5 => Edit::Opt { k: r.below(5) as u32, to: if r.chance(1, 2) { None } else { Some(gen::word(r, 3, 8)) } },
        6 => Edit::Num { k: r.below(8) as u32, to: r.below(20) as u8 },
        7 => Edit::Kind { k: r.below(4) as u32 },
        8 | 9 => {
            let b = if r.chance(1, 2) {
                let mut d = MDoc { meta: None, body: vec![gen::mblock(r, 2)] };
                gen::renderable(&mut d);
                d.body.pop()
            } else {
                None
            };
            Edit::Blocks { v: if r.chance(1, 2) { 0 } else { k }, how: r.below(9) as u8, i: r.below(12) as u32, j: r.below(12) as u32, b }
        }
        10 => Edit::Inline { k, how: r.below(5) as u8, with: gen::mpar(r, 3) },
        _ => Edit::Items { k: r.below(4) as u32, how: r.below(6) as u8 },
    }
}

fn gen_act(r: &mut Rng, inner: bool) -> Act {
    let s = r.below(SLOTS) as u8;
    let t = r.below(SLOTS) as u8;
    let d = r.below(8) as u32;
    match r.below(if inner { 26 } else { 30 }) {
        0 => Act::Parse { s, d },
        1 => Act::Events { s, d },
        2 | 3 => Act::Build { s, d },
        4 | 5 => Act::Clone { from: s, to: t },
        6 => Act::CloneFrom { from: s, to: t },
        7..=12 => Act::Edit { s, e: gen_edit(r) },
        13 => Act::Swap { a: s, b: t },
        14 => Act::Take { from: s, to: t },
        15 => Act::Graft { from: s, to: t, i: r.below(12) as u32, j: r.below(12) as u32 },
        16 => Act::Grow { s },
        17..=19 => Act::Show { s, how: *r.pick(&[0, 0, 0, 1, 2, 3]) },
        20 => Act::Eq { a: s, b: t },
        21 => Act::EqBlocks { a: s, b: t },
        22 => Act::Store { from: s, to: t, cbor: r.chance(1, 2) },
        23 => Act::Drop { s },
        24 => Act::Give { s, post: r.below(POSTS) as u8 },
        25 => Act::Get { s, post: r.below(POSTS) as u8 },
        26 | 27 => {
            Act::Fail { s, plan: SinkPlan { fail_call: Some(r.skewed(40) as u32), fail_byte: None, partial: r.chance(1, 2), transient: r.chance(1, 3), panic: r.chance(1, 2) } }
        }
        _ => Act::Nested { s, acts: (0..r.range(1, 6)).map(|_| gen_act(r, true)).collect() },
    }
}

pub struct R28;
impl Prop for R28 {
    fn id(&self) -> &'static str {
        "R28"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            12_000
        } else {
            150_000
        }
    }
    fn gen(&self, r: &mut Rng, _tier: Tier, _i: u64) -> Value {
        let nt = r.range(1, 4);
        let texts: Vec<String> = gen::family(r, nt).into_iter().filter(|t| t.len() < 4000).collect();
        let docs: Vec<MDoc> = (0..r.range(1, 4))
            .map(|_| {
                let mut d = gen::mdoc(r, false);
                gen::renderable(&mut d);
                d
            })
            .collect();
        let nt = if r.chance(1, 3) { 1 } else { r.range(2, 4) };
        let tasks: Vec<Vec<Act>> = (0..nt)
            .map(|_| {
                let mut v = vec![];
                for s in 0..r.range(1, SLOTS) as u8 {
                    v.push(match r.below(3) {
                        0 => Act::Build { s, d: r.below(8) as u32 },
                        1 => Act::Events { s, d: r.below(8) as u32 },
                        _ => Act::Parse { s, d: r.below(8) as u32 },
                    });
                }
                for _ in 0..r.range(4, 26) {
                    let a = gen_act(r, false);
                    // what is shown, changed and shown again
                    if let Act::Edit { s, .. } = &a {
                        let s = *s;
                        let how = *r.pick(&[0, 0, 0, 1, 2]);
                        if r.chance(1, 2) {
                            v.push(Act::Show { s, how });
                            v.push(a);
                            v.push(Act::Show { s, how });
                            continue;
                        }
                        if r.chance(1, 4) {
                            v.push(Act::Clone { from: s, to: s + 1 });
                            v.push(a);
                            v.push(Act::Eq { a: s, b: s + 1 });
                            continue;
                        }
                    }
                    v.push(a);
                }
                v
            })
            .collect();
        let c = Case28 { texts, docs, env: gen_env(r), sw: gen_switches(r, nt), ssw: gen_ssw(r, nt), first: r.below(nt) as u8, tasks };
        serde_json::to_value(c).unwrap()
    }
    fn run(&self, v: &Value) -> Report {
        let mut rep = Report::default();
        let Ok(c) = serde_json::from_value::<Case28>(v.clone()) else {
            rep.skip = true;
            return rep;
        };
        let mut refs = references();
        apply_env(&c.env);
        let now0 = unsafe { rt::NOW };
        let w = Arc::new(World { texts: c.texts.clone(), docs: c.docs.clone(), posts: Mutex::new((0..POSTS).map(|_| Boxed(None)).collect()) });
        let all: Arc<Mutex<Vec<Option<Seen>>>> = Arc::new(Mutex::new(c.tasks.iter().map(|_| None).collect()));
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (i, acts) in c.tasks.iter().enumerate().take(rt::MAXT) {
            let (acts, w, all) = (acts.clone(), w.clone(), all.clone());
            bodies.push(Box::new(move || {
                let mut e = rt::harness(|| Editor { w: &w, slots: (0..SLOTS).map(|_| None).collect(), seen: Seen::default(), who: i });
                for a in &acts {
                    let r = catch_unwind(AssertUnwindSafe(|| e.act(a, false)));
                    if r.is_err() {
                        rt::harness(|| e.seen.bad("panic", format!("editor {i}: {a:?} panicked")));
                    }
                    if !e.seen.bad.is_empty() {
                        break;
                    }
                }
                for s in 0..SLOTS as u8 {
                    e.put(s, None);
                }
                rt::harness(move || {
                    all.lock().unwrap()[i] = Some(std::mem::take(&mut e.seen));
                    drop(e);
                    drop(acts);
                    drop(all);
                });
                rt::harness(move || drop(w));
            }));
        }
        if bodies.is_empty() {
            rep.skip = true;
            return rep;
        }
        // about what the acts of this case take
        let total = 3_000 * c.tasks.iter().map(|t| t.len() as u64).sum::<u64>();
        let sw = c.sw.iter().map(|&(f, t)| (1 + (f as u64 * total) / 1_000_000, t)).collect();
        let ssw = c.ssw.iter().map(|&(f, t, d)| (f as u64, t, d)).collect();
        rt::run_tasks(bodies, sw, ssw, &[], 4_000_000_000, u64::MAX, c.first as usize);
        let s = rt::sched();
        rep.switches = s.switches;
        rep.trace = s.trace;
        rep.steps = s.steps;
        rep.fault("preemption", s.switches);
        let all = std::mem::take(&mut *all.lock().unwrap());
        let mut shown = vec![];
        for x in all.into_iter().flatten() {
            rep.evals += x.evals;
            for (k, v) in x.did {
                rep.fault(k, v);
            }
            for (k, m) in x.bad {
                rep.violate(k, m);
            }
            shown.extend(x.shown);
        }
        if rep.viol.is_none() && !shown.is_empty() {
            let mut q: Vec<(&MDoc, u8)> = vec![];
            for (m, how, _) in &shown {
                if !q.contains(&(m, *how)) {
                    q.push((m, *how));
                }
            }
            let _ = refs.write_all(&serde_json::to_vec(&q).unwrap());
            let _ = refs.shutdown(std::net::Shutdown::Write);
            let mut b = vec![];
            let _ = refs.read_to_end(&mut b);
            let ans: Vec<Option<String>> = serde_json::from_slice(&b).unwrap_or_default();
            for (m, how, got) in &shown {
                let k = q.iter().position(|x| *x == (m, *how)).unwrap();
                rep.hash(got.as_bytes());
                match ans.get(k) {
                    Some(Some(want)) => {
                        rep.evals += 1;
                        if want != got {
                            rep.violate(
                                "wrong-rendering",
                                format!(
                                    "{} of a document with the content {} is {:?}, that of the same content built anew is {:?}",
                                    ["the text", "the text of the blocks", "the JSON", "the CBOR"][*how as usize % 4],
                                    js(m),
                                    cut(got),
                                    cut(want)
                                ),
                            );
                        }
                    }
                    _ => rep.probe("no-reference", 1),
                }
            }
        }
        unsafe {
            rep.cov = (*std::ptr::addr_of!(rt::COV)).iter().map(|&x| x as u64).sum();
            rep.sim_ns = rt::NOW.wrapping_sub(now0).min(1 << 62) + rep.steps * 100;
        }
        rep.nontrivial = rep.evals > 1;
        rep
    }
    fn rule(&self) -> &'static str {
        "a run is a set of 1-4 editors on threads of their own, each with up to four documents that are parsed, built, cloned, edited in place, taken apart, rendered, compared, stored, handed over and dropped in seeded order under seeded preemption; non-trivial if more than one result was checked"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "what a document is, is what its public fields hold; the reference for what it shows is a document of the same content built with the public constructors by a fresh process",
            "list levels below 40; documents of up to a few hundred nodes",
        ]
    }
    fn real(&self) -> &'static str {
        "all of yamd (parser, conversion, nodes, rendering, comparison, clone, drop, serde derives), serde_json, ciborium; real OS threads"
    }
    fn stub(&self) -> &'static str {
        "thread scheduling, clock, entropy, environment variables, heap, writers; the editors"
    }
}

fn cut(s: &str) -> String {
    s.chars().take(200).collect()
}
