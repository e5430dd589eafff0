//! Workload: yamd texts and documents, swarm style (each family enables its own subset of
//! constructs, alphabets and sizes).
use crate::mirror::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Cfg {
    blocks: Vec<u8>,
    inl: Vec<u8>,
    alpha: u8,
    max_blocks: usize,
    max_inl: usize,
    word: usize,
    crlf: bool,
    noise: usize,
    depth: usize,
    meta: bool,
    escapes: usize,
}

const NB: u8 = 12;
const NI: u8 = 9;

pub fn cfg(r: &mut Rng) -> Cfg {
    let pickset = |r: &mut Rng, n: u8| -> Vec<u8> {
        let k = match r.below(4) {
            0 => 1,
            1 => 2,
            2 => r.range(3, 5),
            _ => n as usize,
        };
        let mut v: Vec<u8> = (0..n).collect();
        r.shuffle(&mut v);
        v.truncate(k);
        v
    };
    Cfg {
        blocks: pickset(r, NB),
        inl: pickset(r, NI),
        alpha: r.below(5) as u8,
        max_blocks: *r.pick(&[1, 2, 3, 5, 8]),
        max_inl: *r.pick(&[1, 2, 3, 6]),
        word: *r.pick(&[1, 3, 8, 20]),
        crlf: r.chance(1, 10),
        noise: *r.pick(&[0, 0, 1, 4]),
        depth: r.range(0, 3),
        meta: r.chance(1, 4),
        escapes: *r.pick(&[0, 0, 1, 3]),
    }
}

const UNI: &[char] = &['é', 'ß', 'λ', '中', '文', '🤔', '😉', '\u{2028}', '\u{a0}', '\u{301}', '\u{200b}', '\u{feff}', '\u{10ffff}', '\u{7f}', '\t', '\u{85}'];
const SPECIAL: &[char] = &['~', '*', '}', '{', ' ', '-', '#', '>', '!', '`', '+', '[', ']', '(', ')', '_', '|', '\\', '%', '"', '\'', '<', '&', '\0', '\r'];

/// characters that programs like to treat specially
pub fn odd(r: &mut Rng) -> char {
    match r.below(6) {
        0 | 1 => r.below(32) as u8 as char,
        2 => char::from_u32(0x7f + r.below(0x30) as u32).unwrap(),
        3 => *r.pick(&[
            '\u{1680}',
            '\u{2000}',
            '\u{2003}',
            '\u{200a}',
            '\u{200c}',
            '\u{200d}',
            '\u{200e}',
            '\u{2029}',
            '\u{202e}',
            '\u{202f}',
            '\u{205f}',
            '\u{2060}',
            '\u{3000}',
            '\u{fffd}',
            '\u{fffe}',
            '\u{ffff}',
            '\u{fe0f}',
            '\u{d7ff}',
            '\u{e000}',
            '\u{10000}',
            '\u{1f3fb}',
            '\u{e0001}',
        ]),
        4 => *r.pick(&['İ', 'ı', 'ſ', 'K', 'ẞ', 'ﬁ', 'Ａ', '＊', '０', '٣', '‐', '–', '—', '‘', '“', '…', '٭', '∗', '＃', '｀']),
        _ => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
    }
}

pub fn word(r: &mut Rng, alpha: u8, max: usize) -> String {
    let n = 1 + r.skewed(max.max(1));
    let mut s = String::new();
    for _ in 0..n {
        let c = match alpha {
            0 => (b'a' + r.below(3) as u8) as char,
            1 => (b'a' + r.below(26) as u8) as char,
            2 => {
                if r.chance(1, 3) {
                    if r.chance(1, 3) {
                        odd(r)
                    } else {
                        *r.pick(UNI)
                    }
                } else {
                    (b'a' + r.below(26) as u8) as char
                }
            }
            3 => (b'0' + r.below(10) as u8) as char,
            _ => match r.below(8) {
                0 => *r.pick(UNI),
                1 => (b'A' + r.below(26) as u8) as char,
                _ => (b'a' + r.below(26) as u8) as char,
            },
        };
        s.push(c);
    }
    s
}

fn text(r: &mut Rng, c: &Cfg) -> String {
    let mut s = word(r, c.alpha, c.word);
    for _ in 0..r.skewed(3) {
        s.push(' ');
        s.push_str(&word(r, c.alpha, c.word));
    }
    if c.escapes > 0 && r.chance(c.escapes, 4) {
        let mut i = r.below(s.len() + 1);
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        let e = format!("\\{}", r.pick(SPECIAL));
        s.insert_str(i, &e);
    }
    if c.noise > 0 && r.chance(c.noise, 8) {
        let t = *r.pick(&["*", "**", "~~", "_", "`", "[", "](", "!", "!!", "{%", "%}", "{{", "}}", "#", "- ", "+ ", "|", "```", "-----", "---", "\\", "\n", "  "]);
        s.push_str(t);
    }
    s
}

fn inline(r: &mut Rng, c: &Cfg) -> String {
    match *r.pick(&c.inl) {
        0 => text(r, c),
        1 => {
            let t = text(r, c);
            match r.below(4) {
                0 => format!("**{t}**"),
                1 => format!("**_{t}_**"),
                2 => format!("**~~{t}~~**"),
                _ => {
                    let u = text(r, c);
                    format!("**{t} _{u}_**")
                }
            }
        }
        2 => format!("_{}_", text(r, c)),
        3 => format!("~~{}~~", text(r, c)),
        4 => format!("`{}`", text(r, c)),
        5 => format!("*{}*", text(r, c)),
        6 => {
            let t = text(r, c);
            format!("[{t}]({})", word(r, c.alpha, c.word))
        }
        7 => format!("\\{}", r.pick(SPECIAL)),
        _ => format!("{}\n{}", text(r, c), text(r, c)),
    }
}

fn inlines(r: &mut Rng, c: &Cfg) -> String {
    let n = r.range(1, c.max_inl);
    let mut v = vec![];
    for _ in 0..n {
        v.push(inline(r, c));
    }
    v.join(if r.chance(1, 2) { " " } else { "" })
}

fn list_text(r: &mut Rng, c: &Cfg, level: usize, ordered: bool, out: &mut String) {
    let n = r.range(1, 3);
    for i in 0..n {
        if i > 0 {
            out.push('\n');
        }
        out.push_str(&" ".repeat(level));
        out.push_str(if ordered { "+ " } else { "- " });
        out.push_str(&inlines(r, c));
        if level < c.depth && r.chance(1, 2) {
            out.push('\n');
            let o = if r.chance(1, 3) { !ordered } else { ordered };
            list_text(r, c, level + 1, o, out);
        }
    }
}

fn block_text(r: &mut Rng, c: &Cfg, depth: usize) -> String {
    match *r.pick(&c.blocks) {
        0 => inlines(r, c),
        1 => {
            let l = if r.chance(1, 8) { r.range(5, 9) } else { r.range(1, 4) };
            format!("{} {}", "#".repeat(l), inlines(r, c).replace('\n', " "))
        }
        2 => format!("![{}]({})", text(r, c), word(r, c.alpha, c.word)),
        3 => {
            let n = r.range(2, 4);
            (0..n).map(|_| format!("![{}]({})", text(r, c), word(r, c.alpha, c.word))).collect::<Vec<_>>().join("\n")
        }
        4 => {
            let n = r.below(4);
            let lines = (0..n).map(|_| text(r, c)).collect::<Vec<_>>().join("\n");
            format!("```{}\n{}\n```", word(r, c.alpha.min(1), 6), lines)
        }
        5 => {
            let mut s = String::new();
            let o = r.chance(1, 2);
            list_text(r, c, 0, o, &mut s);
            s
        }
        6 => {
            let mut s = String::from("!!");
            if r.chance(2, 3) {
                s.push(' ');
                s.push_str(&text(r, c));
            }
            s.push('\n');
            if r.chance(1, 2) {
                s.push_str("! ");
                s.push_str(&word(r, c.alpha, c.word));
                s.push('\n');
            }
            let n = r.range(1, 3);
            s.push_str(&(0..n).map(|_| inlines(r, c)).collect::<Vec<_>>().join("\n\n"));
            s.push_str("\n!!");
            s
        }
        7 => "-----".to_string(),
        8 => format!("{{{{{}|{}}}}}", word(r, c.alpha, c.word), text(r, c)),
        9 => {
            let mut s = format!("{{% {}\n", text(r, c).replace('\n', " "));
            if depth < c.depth {
                let n = r.below(3);
                s.push_str(&(0..n).map(|_| block_text(r, c, depth + 1)).collect::<Vec<_>>().join("\n\n"));
            }
            s.push_str("\n%}");
            s
        }
        10 => {
            // something unclosed
            let t = *r.pick(&[
                "```a\nb",
                "!! t\nb",
                "{% t\nb",
                "{{a|b",
                "![a](b",
                "[a](",
                "**a",
                "~~a",
                "_a",
                "`a",
                "*a",
                "---\nmeta",
                "- ",
                "+",
                "- a\n  - b",
                "# ",
                "#",
                "-",
                "----",
                "!",
                "\\",
            ]);
            t.to_string()
        }
        _ => {
            let n = r.range(1, 8);
            (0..n).map(|_| if r.chance(1, 2) { r.pick(SPECIAL).to_string() } else { word(r, c.alpha, 3) }).collect()
        }
    }
}

/// a text of roughly the configured size
pub fn text_doc(r: &mut Rng, c: &Cfg) -> String {
    let n = r.range(1, c.max_blocks);
    let mut s = String::new();
    if c.meta && r.chance(2, 3) {
        let k = r.below(3);
        s.push_str("---\n");
        for _ in 0..k {
            s.push_str(&text(r, c));
            s.push('\n');
        }
        s.push_str("---\n");
        if r.chance(3, 4) {
            s.push('\n');
        }
    }
    for i in 0..n {
        if i > 0 {
            s.push_str(match r.below(12) {
                0 => "\n",
                1 => "\n\n\n",
                2 => "\n\n\n\n",
                _ => "\n\n",
            });
        }
        s.push_str(&block_text(r, c, 0));
    }
    if r.chance(1, 6) {
        s.push('\n');
    }
    if c.crlf {
        s = s.replace('\n', "\r\n");
    }
    if c.noise > 0 && r.chance(c.noise, 8) {
        s = mutate(r, &s);
    }
    s
}

/// a text of at least `size` bytes
pub fn big_doc(r: &mut Rng, size: usize) -> String {
    let mut s = String::new();
    let c = Cfg { max_blocks: 8, ..cfg(r) };
    while s.len() < size {
        s.push_str(&text_doc(r, &c));
        s.push_str("\n\n");
    }
    tame(&s)
}

/// a text beyond 32 or 64 KB, of the kind that parses in linear time
pub fn vast(r: &mut Rng) -> String {
    let size = *r.pick(&[33_000, 40_000, 66_000, 66_000, 70_000, 132_000]);
    let units: Vec<&str> = {
        let n = r.range(1, 3);
        (0..n)
            .map(|_| {
                *r.pick(&[
                    "some words of plain text that go on for a while, as they do\n",
                    "words and **bold** and _italic_ and `code` and [a link](to it)\n\n",
                    "# heading of a section\n\n",
                    "- item of a list\n- another \\* one\n\n",
                    "+ one\n + two\n  + three\n\n",
                    "```rust\nlet a = 1;\nlet b = 2;\n```\n\n",
                    "![alt](src)\n\n",
                    "\u{e9}\u{1f914} text that is not ASCII\r\n",
                    "a paragraph of some text with an \\_escape in it\n\n",
                    "-----\n\n",
                    "{{youtube|abcdef}}\n\n",
                ])
            })
            .collect()
    };
    let mut s = String::new();
    while s.len() < size {
        s.push_str(r.pick(&units));
        if r.chance(1, 20) {
            s.push_str(&word(r, 1, 8));
            s.push(' ');
        }
    }
    s
}

/// Unclosed nesting blocks make parsing superlinear: keep only so many openers that one parse
/// stays affordable.
fn tame(s: &str) -> String {
    let mut left = if s.len() > 3000 { 12 } else { 20 };
    let mut o = String::with_capacity(s.len());
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if i + 1 < b.len() && ((b[i] == '{' && b[i + 1] == '%') || (b[i] == '!' && b[i + 1] == '!')) {
            if left == 0 {
                i += 1;
                continue;
            }
            left -= 1;
            o.push(b[i]);
            i += 1;
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(v.len() + 1);
        match r.below(4) {
            0 => v.insert(i, *r.pick(SPECIAL)),
            1 => {
                if i < v.len() {
                    v.remove(i);
                }
            }
            2 => {
                if i < v.len() {
                    v[i] = (b'a' + r.below(26) as u8) as char;
                }
            }
            _ => v.truncate(i.max(1)),
        }
    }
    v.into_iter().collect()
}

/// same length in bytes, other letters
pub fn same_shape(r: &mut Rng, s: &str) -> String {
    let k = r.range(1, 25) as u8;
    s.chars().map(|c| if c.is_ascii_lowercase() { (b'a' + (c as u8 - b'a' + k) % 26) as char } else { c }).collect()
}

/// the same characters, some of them in other places
pub fn permuted(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let at: Vec<usize> = (0..v.len()).filter(|&i| v[i].is_alphanumeric()).collect();
    if at.len() > 1 {
        for _ in 0..r.range(1, 3) {
            let i = *r.pick(&at);
            for _ in 0..10 {
                let j = *r.pick(&at);
                if v[i] != v[j] {
                    v.swap(i, j);
                    break;
                }
            }
        }
    }
    v.into_iter().collect()
}

/// a family of related texts: variants of the same shape, common prefixes, near duplicates
pub fn family(r: &mut Rng, n: usize) -> Vec<String> {
    let c = cfg(r);
    let mut v: Vec<String> = vec![];
    if n > 1 && r.chance(1, 12) {
        // near twins of one text, often a long one
        let base = if r.chance(1, 2) {
            tame(&scaled(r))
        } else {
            let size = 16usize << r.below(10);
            let mut s = r.pick(&["", "- ", "# ", "!!\n", "```\n", "", "> "]).to_string();
            while s.len() < size {
                s.push_str(&word(r, 1, 9));
                s.push_str(*r.pick(&[" ", " ", " ", ", ", "\\*", "\n"]));
            }
            s
        };
        v.push(base.clone());
        while v.len() < n {
            v.push(match r.below(4) {
                0 => same_shape(r, &base),
                1 => mutate(r, &base),
                _ => permuted(r, &base),
            });
        }
        return v;
    }
    while v.len() < n {
        let s = if v.is_empty() || r.chance(1, 3) {
            if r.chance(1, 10) {
                scaled(r)
            } else if r.chance(1, 200) {
                vast(r)
            } else if r.chance(1, 60) {
                let n = r.range(4000, 20000);
                big_doc(r, n)
            } else if r.chance(1, 12) {
                big_doc(r, 600)
            } else if r.chance(1, 40) {
                String::new()
            } else {
                text_doc(r, &c)
            }
        } else {
            let b = r.pick(&v).clone();
            match r.below(6) {
                0 | 1 => same_shape(r, &b),
                5 => permuted(r, &b),
                2 => mutate(r, &b),
                3 => format!("{b}\n\n{}", text_doc(r, &c)),
                _ => {
                    let mut k = r.below(b.len() + 1);
                    while !b.is_char_boundary(k) {
                        k -= 1;
                    }
                    b[..k].to_string()
                }
            }
        };
        v.push(if s.len() > 1500 { tame(&s) } else { s });
    }
    v
}

// ---------------------------------------------------------------- documents as values

fn ms(r: &mut Rng) -> String {
    match r.below(13) {
        12 => {
            // something at the ends that reading might trim
            const W: &[&str] = &["\n", " ", "\t", "\r\n", "\n\n", "\u{a0}", "\u{feff}", "\0", "-", "\"", "  "];
            let (a, b) = (*r.pick(W), *r.pick(W));
            let w = word(r, 4, 6);
            match r.below(4) {
                0 => format!("{a}{w}"),
                1 => format!("{w}{b}"),
                2 => format!("{a}{w}{b}"),
                _ => format!("{a}{b}"),
            }
        }
        0 => String::new(),
        1 => r.pick(SPECIAL).to_string(),
        2 => r.pick(UNI).to_string(),
        3 => {
            let n = r.range(1, 6);
            (0..n).map(|_| if r.chance(1, 2) { *r.pick(SPECIAL) } else { *r.pick(UNI) }).collect()
        }
        4 => format!("{}\n{}", word(r, 1, 5), word(r, 1, 5)),
        5 => format!("{}\n\n{}", word(r, 1, 5), word(r, 1, 5)),
        6 => {
            let n = *r.pick(&[100, 300, 1000, 5000]);
            word(r, 1, 8).repeat(n / 4)
        }
        7 => r.pick(&["!!", "**", "```", "%}", "- a", "\n- b", "# x", "\\", "null", "Text", "0", "true", "{\"type\":\"Text\"}", " ", "\r\n"]).to_string(),
        _ => word(r, 4, 10),
    }
}
fn mbold(r: &mut Rng) -> Vec<MBo> {
    let n = r.below(4);
    (0..n)
        .map(|_| match r.below(3) {
            0 => MBo::I(ms(r)),
            1 => MBo::S(ms(r)),
            _ => MBo::T(ms(r)),
        })
        .collect()
}
pub fn mpar(r: &mut Rng, max: usize) -> Vec<MP> {
    let n = r.below(max + 1);
    (0..n)
        .map(|_| match r.below(7) {
            0 => MP::A(ms(r), ms(r)),
            1 => MP::B(mbold(r)),
            2 => MP::I(ms(r)),
            3 => MP::S(ms(r)),
            4 => MP::C(ms(r)),
            5 => MP::E(ms(r)),
            _ => MP::T(ms(r)),
        })
        .collect()
}
fn mlist(r: &mut Rng, depth: usize) -> ML {
    let n = r.below(4);
    ML {
        ordered: r.chance(1, 2),
        level: if r.chance(1, 8) { *r.pick(&[7, 200, 65536, 100_000]) } else { r.below(4) },
        items: (0..n).map(|_| MI { text: mpar(r, 3), nested: if depth > 0 && r.chance(1, 2) { Some(Box::new(mlist(r, depth - 1))) } else { None } }).collect(),
    }
}
fn mlist_small(l: &mut ML) {
    l.level = l.level.min(40);
    for i in &mut l.items {
        if let Some(n) = &mut i.nested {
            mlist_small(n);
        }
    }
}
pub fn mblock(r: &mut Rng, depth: usize) -> MB {
    match r.below(11) {
        0 | 1 => MB::Par(mpar(r, 5)),
        2 => {
            let n = r.below(4);
            MB::Head(
                if r.chance(1, 5) { *r.pick(&[0, 7, 100, 128, 255]) } else { r.range(1, 6) as u8 },
                (0..n).map(|_| if r.chance(1, 2) { MH::T(ms(r)) } else { MH::A(ms(r), ms(r)) }).collect(),
            )
        }
        3 => MB::Img(ms(r), ms(r)),
        4 => {
            let n = r.below(4);
            MB::Imgs((0..n).map(|_| (ms(r), ms(r))).collect())
        }
        5 => MB::Code(ms(r), ms(r)),
        6 => MB::List(mlist(r, 3)),
        7 => {
            let n = r.below(4);
            MB::High(if r.chance(1, 2) { Some(ms(r)) } else { None }, if r.chance(1, 2) { Some(ms(r)) } else { None }, (0..n).map(|_| mpar(r, 3)).collect())
        }
        8 => MB::Break,
        9 => MB::Embed(ms(r), ms(r)),
        _ => {
            let n = if depth == 0 { 0 } else { r.below(4) };
            MB::Coll(ms(r), (0..n).map(|_| mblock(r, depth - 1)).collect())
        }
    }
}
pub fn mdoc(r: &mut Rng, big: bool) -> MDoc {
    let n = if big { r.range(10, 40) } else { r.below(6) };
    let depth = r.range(0, 4);
    MDoc { meta: if r.chance(1, 2) { Some(ms(r)) } else { None }, body: (0..n).map(|_| mblock(r, depth)).collect() }
}
/// levels small enough for rendering
pub fn renderable(d: &mut MDoc) {
    fn f(b: &mut MB) {
        match b {
            MB::List(l) => mlist_small(l),
            MB::Coll(_, v) => v.iter_mut().for_each(f),
            _ => {}
        }
    }
    d.body.iter_mut().for_each(f);
}

/// long runs of one special character, long literals, many line ends
pub fn special_run(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 6) {
        let n = *r.pick(&[1, 2, 3, 7, 63, 64, 65, 255, 256, 257, 300]);
        match r.below(5) {
            0 => s.push_str(&r.pick(SPECIAL).to_string().repeat(n)),
            1 => s.push_str(&"\n".repeat(n.min(70))),
            2 => s.push_str(&"\r\n".repeat(n.min(70))),
            3 => s.push_str(&word(r, 4, 2).repeat(n)),
            _ => s.push_str(&"\\a".repeat(n)),
        }
    }
    s
}

const CLOSED: &[&str] = &[
    "# h [a](u) t",
    "###### h",
    "a **b _i_ ~~s~~ c** d",
    "_i_ ~~s~~ `c` *e* [t](d)",
    "- a\n - b\n- c",
    "+ a\n - b\n  + c",
    "```l\ncode\n```",
    "!! t\n! i\na\n\nb\n!!",
    "!!\na\n!!",
    "{% t\na\n\n- b\n%}",
    "{% o\n{% i\nx\n%}\n%}",
    "{{k|v}}",
    "-----",
    "![a](s)",
    "![a](s)\n![b](t)",
    "x \\*y\\* \\# \\[",
    "\u{e9}\u{1F600} **\u{4e2d}**",
];
const OPEN: &[&str] = &[
    "{% never closed\n\nx",
    "{% a\n{% b\nx\n%}",
    "!! t\n! i\nx",
    "```l\ncode",
    "{{k|v",
    "![a](s",
    "![a](s)\n![b](t",
    "**b _i_",
    "**b ~~s",
    "_i",
    "~~s",
    "`c",
    "*e",
    "[t](d",
    "[t](d\n\n",
    "[t]",
    "- ",
    "- a\n   - b",
    "+",
    "# ",
    "#",
    "----",
    "\\",
    "---\nmeta",
    "!!",
    "{%",
    "{% t",
    "x\\",
    "a [b **c",
    "{{",
    "%}",
    "!! a !!",
];
/// small texts that go through every construct, properly closed and not
pub fn fixtures(r: &mut Rng, n: usize) -> Vec<String> {
    (0..n)
        .map(|_| {
            let k = r.range(1, 6);
            let mut v: Vec<&str> = (0..k).map(|_| *r.pick(CLOSED)).collect();
            for _ in 0..r.below(3) {
                v.push(r.pick(OPEN));
            }
            if r.chance(1, 4) {
                v.insert(0, "---\nm: 1\n---");
            }
            if r.chance(1, 6) {
                v = vec![*r.pick(OPEN)];
            }
            v.join(if r.chance(1, 8) { "\n" } else { "\n\n" })
        })
        .collect()
}

/// one dimension of a text taken far: long runs of one thing inside one construct
pub fn scaled(r: &mut Rng) -> String {
    let k = *r.pick(&[9, 17, 33, 40, 65, 70, 129, 260, 600, 2600]);
    let k = r.range(k / 2, k);
    let esc = r.chance(1, 2);
    let mut body = String::new();
    let unit = *r.pick(&[
        "a ",
        "\\*b",
        "\\~",
        "x\\\\y ",
        "a\\_\u{e9} ",
        "**b** ",
        "_i_ ",
        "[t](d) ",
        "` ` ",
        "~~s~~",
        "a - ",
        "(",
        "\\[c\\]",
        "\\{",
        "# ",
        "| ",
        "w! ",
        "**_i_ ~~s~~** ",
        "a\n",
    ]);
    for i in 0..k {
        body.push_str(unit);
        if r.chance(1, 12) {
            body.push((b'a' + (i % 26) as u8) as char);
        }
        if esc && r.chance(1, 10) {
            body.push('\\');
            body.push(*r.pick(SPECIAL));
        }
    }
    let flat = body.replace('\n', " ");
    match r.below(14) {
        0 => format!("# {flat}"),
        1 => format!("```l\n{body}\n```"),
        2 => format!("!! {flat}\n! {}\n{body}\n!!", flat.chars().take(20).collect::<String>()),
        3 => format!("{{% {flat}\n{body}\n%}}"),
        4 => format!("- {flat}\n - {flat}"),
        5 => format!("---\n{body}\n---\n\nx"),
        6 => format!("[{flat}]({flat}"),
        7 => format!("{{{{k|{flat}}}}}"),
        8 => (0..k).map(|i| format!("{}- i{i}", " ".repeat(i.min(12) % (1 + i % 12)))).collect::<Vec<_>>().join("\n"),
        9 => (0..k.min(20)).map(|i| format!("{}+ i{i}", " ".repeat(i))).collect::<Vec<_>>().join("\n"),
        10 => (0..k).map(|i| if i % 3 == 0 { format!("# h{i}") } else { format!("p{i} \\*") }).collect::<Vec<_>>().join("\n\n"),
        11 => (0..k).map(|i| format!("![a{i}](s{i})")).collect::<Vec<_>>().join("\n"),
        12 => {
            let d = k.min(12);
            format!("{}x{}", "{% t\n".repeat(d), "\n%}".repeat(d))
        }
        _ => body,
    }
}
