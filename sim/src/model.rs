//! What a well-formed event stream says, by an independent and deliberately plain reading of it.
//! `None` for streams that are balanced but put nodes where the language has no place for them.
use crate::mirror::{MBo, MDoc, MOp, MB, MC, MH, MI, ML, MP, NODE_NAMES};

struct Tree {
    name: &'static str,
    open: String,
    kids: Vec<Kid>,
}
enum Kid {
    V(String),
    N(Tree),
}
use Kid::*;

fn text(c: &MC, src: &str) -> Option<String> {
    match c {
        MC::Text(t) => Some(t.clone()),
        MC::Span(a, b) if a < b => src.get(*a..*b).map(str::to_string),
        _ => Some(String::new()),
    }
}

fn tree(ops: &[MOp], src: &str) -> Option<Vec<Kid>> {
    let mut open: Vec<Tree> = vec![Tree { name: "", open: String::new(), kids: vec![] }];
    for o in ops {
        match o.k {
            'S' => open.push(Tree { name: NODE_NAMES[o.n as usize], open: text(&o.c, src).unwrap_or_default(), kids: vec![] }),
            'E' => {
                let t = open.pop()?;
                if t.name != NODE_NAMES[o.n as usize] {
                    return None;
                }
                open.last_mut()?.kids.push(N(t));
            }
            _ => {
                let t = text(&o.c, src)?;
                open.last_mut()?.kids.push(V(t));
            }
        }
    }
    if open.len() != 1 {
        return None;
    }
    Some(open.pop()?.kids)
}

/// the text of a node that holds nothing else
fn leaf(t: &Tree) -> Option<String> {
    let mut s = String::new();
    for k in &t.kids {
        match k {
            V(v) => s.push_str(v),
            N(_) => return None,
        }
    }
    Some(s)
}
/// title and destination
fn link(t: &Tree) -> Option<(String, String)> {
    match &t.kids[..] {
        [N(a), N(b)] if a.name == "Title" && b.name == "Destination" => Some((leaf(a)?, leaf(b)?)),
        _ => None,
    }
}
fn inline(t: &Tree) -> Option<Vec<MP>> {
    t.kids
        .iter()
        .map(|k| {
            Some(match k {
                V(v) => MP::T(v.clone()),
                N(n) => match n.name {
                    "Anchor" => {
                        let (a, b) = link(n)?;
                        MP::A(a, b)
                    }
                    "Italic" => MP::I(leaf(n)?),
                    "Strikethrough" => MP::S(leaf(n)?),
                    "CodeSpan" => MP::C(leaf(n)?),
                    "Emphasis" => MP::E(leaf(n)?),
                    "Bold" => MP::B(
                        n.kids
                            .iter()
                            .map(|k| {
                                Some(match k {
                                    V(v) => MBo::T(v.clone()),
                                    N(n) if n.name == "Italic" => MBo::I(leaf(n)?),
                                    N(n) if n.name == "Strikethrough" => MBo::S(leaf(n)?),
                                    _ => return None,
                                })
                            })
                            .collect::<Option<_>>()?,
                    ),
                    _ => return None,
                },
            })
        })
        .collect()
}
/// inside lists and highlights the line ends that separate paragraphs from what follows are no text
fn inner(t: &Tree) -> Option<Vec<MP>> {
    let mut v = inline(t)?;
    if let Some(MP::T(s)) = v.last_mut() {
        while s.ends_with('\n') {
            s.pop();
        }
        if s.is_empty() {
            v.pop();
        }
    }
    Some(v)
}
fn list(t: &Tree, level: usize) -> Option<ML> {
    let mut items = vec![];
    for k in &t.kids {
        let N(i) = k else { return None };
        if i.name != "ListItem" {
            return None;
        }
        let (p, l) = match &i.kids[..] {
            [N(p)] => (p, None),
            [N(p), N(l)] => (p, Some(l)),
            _ => return None,
        };
        if p.name != "Paragraph" || l.is_some_and(|l| !l.name.ends_with("List")) {
            return None;
        }
        let nested = match l {
            Some(l) => Some(Box::new(list(l, level + 1)?)),
            None => None,
        };
        items.push(MI { text: inner(p)?, nested });
    }
    Some(ML { ordered: t.name == "OrderedList", level, items })
}
fn blocks(t: &Tree) -> Option<Vec<MB>> {
    let mut out = vec![];
    for k in &t.kids {
        let N(n) = k else { continue };
        out.push(match n.name {
            "Paragraph" => MB::Par(inline(n)?),
            "Heading" => MB::Head(
                n.open.chars().take_while(|&c| c == '#').count() as u8,
                n.kids
                    .iter()
                    .map(|k| {
                        Some(match k {
                            V(v) => MH::T(v.clone()),
                            N(a) if a.name == "Anchor" => {
                                let (a, b) = link(a)?;
                                MH::A(a, b)
                            }
                            _ => return None,
                        })
                    })
                    .collect::<Option<_>>()?,
            ),
            "Image" => {
                let (a, b) = link(n)?;
                MB::Img(a, b)
            }
            "Images" => MB::Imgs(
                n.kids
                    .iter()
                    .map(|k| match k {
                        N(i) if i.name == "Image" => link(i),
                        _ => None,
                    })
                    .collect::<Option<_>>()?,
            ),
            "Code" => {
                let (mut lang, mut code) = (None, String::new());
                for k in &n.kids {
                    match k {
                        V(v) => code.push_str(v),
                        N(m) if m.name == "Modifier" && lang.is_none() => lang = Some(leaf(m)?),
                        _ => return None,
                    }
                }
                MB::Code(lang.unwrap_or_default(), code.trim_end_matches('\n').to_string())
            }
            "UnorderedList" | "OrderedList" => MB::List(list(n, 0)?),
            "Highlight" => {
                let (mut title, mut icon, mut body) = (None, None, vec![]);
                for k in &n.kids {
                    match k {
                        V(_) => {}
                        N(m) if m.name == "Modifier" && title.is_none() => title = Some(leaf(m)?),
                        N(m) if m.name == "Icon" && icon.is_none() => icon = Some(leaf(m)?),
                        N(m) if m.name == "Paragraph" => body.push(inner(m)?),
                        _ => return None,
                    }
                }
                MB::High(title, icon, body)
            }
            "ThematicBreak" => {
                leaf(n)?;
                MB::Break
            }
            "Embed" => match &n.kids[..] {
                [V(a), V(_), V(b)] => MB::Embed(a.clone(), b.clone()),
                _ => return None,
            },
            "Collapsible" => match &n.kids[..] {
                [N(m), N(d)] if m.name == "Modifier" && d.name == "Document" => MB::Coll(leaf(m)?, blocks(d)?),
                _ => return None,
            },
            _ => return None,
        });
    }
    Some(out)
}

/// what the stream says about `src`
pub fn read(ops: &[MOp], src: &str) -> Option<MDoc> {
    let t = tree(ops, src)?;
    let (m, d) = match &t[..] {
        [N(d)] => (None, d),
        [N(m), N(d)] if m.name == "Metadata" => (Some(m), d),
        _ => return None,
    };
    if d.name != "Document" {
        return None;
    }
    let meta = match m {
        Some(m) => Some(leaf(m)?.trim_matches('\n').to_string()),
        None => None,
    };
    Some(MDoc { meta, body: blocks(d)? })
}
