//! The storage layout of the released build: the types as they were when these checks were
//! written, with serde's derives. A node of the fleet that "runs the old release" uses these.
use crate::mirror::*;
use serde::{Deserialize, Serialize};
use std::ops::Range;

#[derive(Serialize, Deserialize)]
pub struct Anchor {
    text: String,
    url: String,
}
#[derive(Serialize, Deserialize)]
pub struct Strikethrough(String);
#[derive(Serialize, Deserialize)]
pub struct Italic(String);
#[derive(Serialize, Deserialize)]
pub struct Emphasis(String);
#[derive(Serialize, Deserialize)]
pub struct CodeSpan(String);
#[derive(Serialize, Deserialize)]
#[serde(tag = "type", content = "value")]
pub enum BoldNodes {
    Italic(Italic),
    Strikethrough(Strikethrough),
    Text(String),
}
#[derive(Serialize, Deserialize)]
pub struct Bold {
    body: Vec<BoldNodes>,
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "type", content = "value")]
pub enum ParagraphNodes {
    Anchor(Anchor),
    Bold(Bold),
    Italic(Italic),
    Strikethrough(Strikethrough),
    Text(String),
    CodeSpan(CodeSpan),
    Emphasis(Emphasis),
}
#[derive(Serialize, Deserialize)]
pub struct Paragraph {
    body: Vec<ParagraphNodes>,
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "type", content = "value")]
pub enum HeadingNodes {
    Text(String),
    Anchor(Anchor),
}
#[derive(Serialize, Deserialize)]
pub struct Heading {
    level: u8,
    body: Vec<HeadingNodes>,
}
#[derive(Serialize, Deserialize)]
pub struct Image {
    alt: String,
    src: String,
}
#[derive(Serialize, Deserialize)]
pub struct Images {
    body: Vec<Image>,
}
#[derive(Serialize, Deserialize)]
pub struct Code {
    lang: String,
    code: String,
}
#[derive(Serialize, Deserialize)]
pub enum ListTypes {
    Unordered,
    Ordered,
}
#[derive(Serialize, Deserialize)]
pub struct ListItem {
    text: Vec<ParagraphNodes>,
    nested_list: Option<List>,
}
#[derive(Serialize, Deserialize)]
pub struct List {
    list_type: ListTypes,
    level: usize,
    body: Vec<ListItem>,
}
#[derive(Serialize, Deserialize)]
pub struct Highlight {
    title: Option<String>,
    icon: Option<String>,
    body: Vec<Paragraph>,
}
#[derive(Serialize, Deserialize)]
pub struct ThematicBreak {}
#[derive(Serialize, Deserialize)]
pub struct Embed {
    kind: String,
    args: String,
}
#[derive(Serialize, Deserialize)]
pub struct Collapsible {
    title: String,
    body: Vec<YamdNodes>,
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "type", content = "value")]
pub enum YamdNodes {
    Paragraph(Paragraph),
    Heading(Heading),
    Image(Image),
    Images(Images),
    Code(Code),
    List(List),
    Highlight(Highlight),
    ThematicBreak(ThematicBreak),
    Embed(Embed),
    Collapsible(Collapsible),
}
#[derive(Serialize, Deserialize)]
pub struct Yamd {
    metadata: Option<String>,
    body: Vec<YamdNodes>,
}

// ---- from and to the mirror
fn par(p: &[MP]) -> Vec<ParagraphNodes> {
    p.iter()
        .map(|x| match x {
            MP::A(t, u) => ParagraphNodes::Anchor(Anchor { text: t.clone(), url: u.clone() }),
            MP::B(b) => ParagraphNodes::Bold(Bold {
                body: b
                    .iter()
                    .map(|x| match x {
                        MBo::I(t) => BoldNodes::Italic(Italic(t.clone())),
                        MBo::S(t) => BoldNodes::Strikethrough(Strikethrough(t.clone())),
                        MBo::T(t) => BoldNodes::Text(t.clone()),
                    })
                    .collect(),
            }),
            MP::I(t) => ParagraphNodes::Italic(Italic(t.clone())),
            MP::S(t) => ParagraphNodes::Strikethrough(Strikethrough(t.clone())),
            MP::T(t) => ParagraphNodes::Text(t.clone()),
            MP::C(t) => ParagraphNodes::CodeSpan(CodeSpan(t.clone())),
            MP::E(t) => ParagraphNodes::Emphasis(Emphasis(t.clone())),
        })
        .collect()
}
fn list(l: &ML) -> List {
    List {
        list_type: if l.ordered { ListTypes::Ordered } else { ListTypes::Unordered },
        level: l.level,
        body: l.items.iter().map(|i| ListItem { text: par(&i.text), nested_list: i.nested.as_ref().map(|l| list(l)) }).collect(),
    }
}
fn block(b: &MB) -> YamdNodes {
    match b {
        MB::Par(p) => YamdNodes::Paragraph(Paragraph { body: par(p) }),
        MB::Head(level, h) => YamdNodes::Heading(Heading {
            level: *level,
            body: h
                .iter()
                .map(|x| match x {
                    MH::T(t) => HeadingNodes::Text(t.clone()),
                    MH::A(t, u) => HeadingNodes::Anchor(Anchor { text: t.clone(), url: u.clone() }),
                })
                .collect(),
        }),
        MB::Img(a, s) => YamdNodes::Image(Image { alt: a.clone(), src: s.clone() }),
        MB::Imgs(v) => YamdNodes::Images(Images { body: v.iter().map(|(a, s)| Image { alt: a.clone(), src: s.clone() }).collect() }),
        MB::Code(l, c) => YamdNodes::Code(Code { lang: l.clone(), code: c.clone() }),
        MB::List(l) => YamdNodes::List(list(l)),
        MB::High(t, i, b) => YamdNodes::Highlight(Highlight { title: t.clone(), icon: i.clone(), body: b.iter().map(|p| Paragraph { body: par(p) }).collect() }),
        MB::Break => YamdNodes::ThematicBreak(ThematicBreak {}),
        MB::Embed(k, a) => YamdNodes::Embed(Embed { kind: k.clone(), args: a.clone() }),
        MB::Coll(t, b) => YamdNodes::Collapsible(Collapsible { title: t.clone(), body: b.iter().map(block).collect() }),
    }
}
pub fn doc(d: &MDoc) -> Yamd {
    Yamd { metadata: d.meta.clone(), body: d.body.iter().map(block).collect() }
}

fn mpar(p: Vec<ParagraphNodes>) -> Vec<MP> {
    p.into_iter()
        .map(|x| match x {
            ParagraphNodes::Anchor(a) => MP::A(a.text, a.url),
            ParagraphNodes::Bold(b) => MP::B(
                b.body
                    .into_iter()
                    .map(|x| match x {
                        BoldNodes::Italic(t) => MBo::I(t.0),
                        BoldNodes::Strikethrough(t) => MBo::S(t.0),
                        BoldNodes::Text(t) => MBo::T(t),
                    })
                    .collect(),
            ),
            ParagraphNodes::Italic(t) => MP::I(t.0),
            ParagraphNodes::Strikethrough(t) => MP::S(t.0),
            ParagraphNodes::Text(t) => MP::T(t),
            ParagraphNodes::CodeSpan(t) => MP::C(t.0),
            ParagraphNodes::Emphasis(t) => MP::E(t.0),
        })
        .collect()
}
fn mlist(l: List) -> ML {
    ML {
        ordered: matches!(l.list_type, ListTypes::Ordered),
        level: l.level,
        items: l.body.into_iter().map(|i| MI { text: mpar(i.text), nested: i.nested_list.map(|l| Box::new(mlist(l))) }).collect(),
    }
}
fn mblock(b: YamdNodes) -> MB {
    match b {
        YamdNodes::Paragraph(p) => MB::Par(mpar(p.body)),
        YamdNodes::Heading(h) => MB::Head(
            h.level,
            h.body
                .into_iter()
                .map(|x| match x {
                    HeadingNodes::Text(t) => MH::T(t),
                    HeadingNodes::Anchor(a) => MH::A(a.text, a.url),
                })
                .collect(),
        ),
        YamdNodes::Image(i) => MB::Img(i.alt, i.src),
        YamdNodes::Images(i) => MB::Imgs(i.body.into_iter().map(|i| (i.alt, i.src)).collect()),
        YamdNodes::Code(c) => MB::Code(c.lang, c.code),
        YamdNodes::List(l) => MB::List(mlist(l)),
        YamdNodes::Highlight(h) => MB::High(h.title, h.icon, h.body.into_iter().map(|p| mpar(p.body)).collect()),
        YamdNodes::ThematicBreak(_) => MB::Break,
        YamdNodes::Embed(e) => MB::Embed(e.kind, e.args),
        YamdNodes::Collapsible(c) => MB::Coll(c.title, c.body.into_iter().map(mblock).collect()),
    }
}
pub fn mdoc(y: Yamd) -> MDoc {
    MDoc { meta: y.metadata, body: y.body.into_iter().map(mblock).collect() }
}

// ---- events
#[derive(Serialize, Deserialize)]
#[serde(tag = "type", content = "value")]
pub enum Content {
    Span(Range<usize>),
    Materialized(String),
}
#[derive(Serialize, Deserialize, Clone, Copy)]
pub enum Node {
    Anchor,
    Bold,
    Code,
    CodeSpan,
    Collapsible,
    Destination,
    Document,
    Embed,
    Emphasis,
    Heading,
    Highlight,
    Icon,
    Image,
    Images,
    Italic,
    ListItem,
    Modifier,
    Metadata,
    OrderedList,
    Paragraph,
    Strikethrough,
    ThematicBreak,
    Title,
    UnorderedList,
}
const NODES: [Node; 24] = [
    Node::Anchor,
    Node::Bold,
    Node::Code,
    Node::CodeSpan,
    Node::Collapsible,
    Node::Destination,
    Node::Document,
    Node::Embed,
    Node::Emphasis,
    Node::Heading,
    Node::Highlight,
    Node::Icon,
    Node::Image,
    Node::Images,
    Node::Italic,
    Node::ListItem,
    Node::Modifier,
    Node::Metadata,
    Node::OrderedList,
    Node::Paragraph,
    Node::Strikethrough,
    Node::ThematicBreak,
    Node::Title,
    Node::UnorderedList,
];
#[derive(Serialize, Deserialize)]
#[serde(tag = "type", content = "value")]
pub enum OpKind {
    Start(Node),
    End(Node),
    Value,
}
#[derive(Serialize, Deserialize)]
pub struct Op {
    kind: OpKind,
    content: Content,
}
pub fn op(o: &MOp) -> Op {
    Op {
        kind: match o.k {
            'S' => OpKind::Start(NODES[o.n as usize % 24]),
            'E' => OpKind::End(NODES[o.n as usize % 24]),
            _ => OpKind::Value,
        },
        content: match &o.c {
            MC::Span(a, b) => Content::Span(*a..*b),
            MC::Text(s) => Content::Materialized(s.clone()),
        },
    }
}
pub fn mop(o: Op) -> MOp {
    let c = match o.content {
        Content::Span(r) => MC::Span(r.start, r.end),
        Content::Materialized(s) => MC::Text(s),
    };
    match o.kind {
        OpKind::Start(n) => MOp { k: 'S', n: n as u8, c },
        OpKind::End(n) => MOp { k: 'E', n: n as u8, c },
        OpKind::Value => MOp { k: 'V', n: 0, c },
    }
}
