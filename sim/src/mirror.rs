//! An independent description of documents, event streams and tokens: built from the public
//! fields of yamd's types, serialized by its own derives. Two values are "the same" for the
//! oracles when their mirrors are; yamd's own PartialEq, Debug or serde impls are never trusted.
use serde::{Deserialize, Serialize};
use yamd::lexer::Token;
use yamd::nodes as n;
use yamd::op::{Content, Node, Op, OpKind};

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct MDoc {
    pub meta: Option<String>,
    pub body: Vec<MB>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum MB {
    Par(Vec<MP>),
    Head(u8, Vec<MH>),
    Img(String, String),
    Imgs(Vec<(String, String)>),
    Code(String, String),
    List(ML),
    High(Option<String>, Option<String>, Vec<Vec<MP>>),
    Break,
    Embed(String, String),
    Coll(String, Vec<MB>),
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct ML {
    pub ordered: bool,
    pub level: usize,
    pub items: Vec<MI>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct MI {
    pub text: Vec<MP>,
    pub nested: Option<Box<ML>>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum MP {
    A(String, String),
    B(Vec<MBo>),
    I(String),
    S(String),
    T(String),
    C(String),
    E(String),
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum MBo {
    I(String),
    S(String),
    T(String),
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum MH {
    T(String),
    A(String, String),
}

// ---- from yamd
pub fn doc(y: &n::Yamd) -> MDoc {
    MDoc { meta: y.metadata.clone(), body: y.body.iter().map(block).collect() }
}
pub fn block(b: &n::YamdNodes) -> MB {
    use n::YamdNodes as Y;
    match b {
        Y::Paragraph(p) => MB::Par(par(&p.body)),
        Y::Heading(h) => MB::Head(
            h.level,
            h.body
                .iter()
                .map(|x| match x {
                    n::HeadingNodes::Text(t) => MH::T(t.clone()),
                    n::HeadingNodes::Anchor(a) => MH::A(a.text.clone(), a.url.clone()),
                })
                .collect(),
        ),
        Y::Image(i) => MB::Img(i.alt.clone(), i.src.clone()),
        Y::Images(i) => MB::Imgs(i.body.iter().map(|i| (i.alt.clone(), i.src.clone())).collect()),
        Y::Code(c) => MB::Code(c.lang.clone(), c.code.clone()),
        Y::List(l) => MB::List(list(l)),
        Y::Highlight(h) => MB::High(h.title.clone(), h.icon.clone(), h.body.iter().map(|p| par(&p.body)).collect()),
        Y::ThematicBreak(_) => MB::Break,
        Y::Embed(e) => MB::Embed(e.kind.clone(), e.args.clone()),
        Y::Collapsible(c) => MB::Coll(c.title.clone(), c.body.iter().map(block).collect()),
    }
}
pub fn list(l: &n::List) -> ML {
    ML {
        ordered: matches!(l.list_type, n::ListTypes::Ordered),
        level: l.level,
        items: l.body.iter().map(|i| MI { text: par(&i.text), nested: i.nested_list.as_ref().map(|l| Box::new(list(l))) }).collect(),
    }
}
pub fn par(p: &[n::ParagraphNodes]) -> Vec<MP> {
    use n::ParagraphNodes as P;
    p.iter()
        .map(|x| match x {
            P::Anchor(a) => MP::A(a.text.clone(), a.url.clone()),
            P::Bold(b) => MP::B(
                b.body
                    .iter()
                    .map(|x| match x {
                        n::BoldNodes::Italic(i) => MBo::I(i.0.clone()),
                        n::BoldNodes::Strikethrough(i) => MBo::S(i.0.clone()),
                        n::BoldNodes::Text(t) => MBo::T(t.clone()),
                    })
                    .collect(),
            ),
            P::Italic(i) => MP::I(i.0.clone()),
            P::Strikethrough(i) => MP::S(i.0.clone()),
            P::Text(t) => MP::T(t.clone()),
            P::CodeSpan(c) => MP::C(c.0.clone()),
            P::Emphasis(e) => MP::E(e.0.clone()),
        })
        .collect()
}

// ---- to yamd, through public constructors
pub fn build(d: &MDoc) -> n::Yamd {
    let mut y = n::Yamd::new(None, d.body.iter().map(build_block).collect());
    // what `new` would trim
    y.metadata = d.meta.clone();
    y
}
pub fn build_block(b: &MB) -> n::YamdNodes {
    match b {
        MB::Par(p) => n::Paragraph::new(build_par(p)).into(),
        MB::Head(l, b) => {
            let mut h = n::Heading::new(
                *l,
                b.iter()
                    .map(|x| match x {
                        MH::T(t) => n::HeadingNodes::Text(t.clone()),
                        MH::A(t, u) => n::HeadingNodes::Anchor(n::Anchor::new(t.clone(), u.clone())),
                    })
                    .collect(),
            );
            h.level = *l;
            h.into()
        }
        MB::Img(a, s) => n::Image::new(a.clone(), s.clone()).into(),
        MB::Imgs(v) => n::Images::new(v.iter().map(|(a, s)| n::Image::new(a.clone(), s.clone())).collect()).into(),
        MB::Code(l, c) => {
            let mut x = n::Code::new(l.clone(), String::new());
            x.code = c.clone();
            x.into()
        }
        MB::List(l) => build_list(l).into(),
        MB::High(t, i, b) => n::Highlight::new(t.clone(), i.clone(), b.iter().map(|p| n::Paragraph::new(build_par(p))).collect()).into(),
        MB::Break => n::ThematicBreak::new().into(),
        MB::Embed(k, a) => n::Embed::new(k.clone(), a.clone()).into(),
        MB::Coll(t, b) => n::Collapsible::new(t.clone(), b.iter().map(build_block).collect()).into(),
    }
}
pub fn build_list(l: &ML) -> n::List {
    n::List::new(
        if l.ordered { n::ListTypes::Ordered } else { n::ListTypes::Unordered },
        l.level,
        l.items.iter().map(|i| n::ListItem::new(build_par(&i.text), i.nested.as_ref().map(|l| build_list(l)))).collect(),
    )
}
pub fn build_par(p: &[MP]) -> Vec<n::ParagraphNodes> {
    use n::ParagraphNodes as P;
    p.iter()
        .map(|x| match x {
            MP::A(t, u) => P::Anchor(n::Anchor::new(t.clone(), u.clone())),
            MP::B(b) => P::Bold(n::Bold::new(
                b.iter()
                    .map(|x| match x {
                        MBo::I(i) => n::BoldNodes::Italic(n::Italic::new(i.clone())),
                        MBo::S(i) => n::BoldNodes::Strikethrough(n::Strikethrough::new(i.clone())),
                        MBo::T(t) => n::BoldNodes::Text(t.clone()),
                    })
                    .collect(),
            )),
            MP::I(i) => P::Italic(n::Italic::new(i.clone())),
            MP::S(i) => P::Strikethrough(n::Strikethrough::new(i.clone())),
            MP::T(t) => P::Text(t.clone()),
            MP::C(c) => P::CodeSpan(n::CodeSpan::new(c.clone())),
            MP::E(e) => P::Emphasis(n::Emphasis::new(e.clone())),
        })
        .collect()
}

pub fn canon(y: &n::Yamd) -> String {
    serde_json::to_string(&doc(y)).unwrap()
}

// ---- event streams
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct MOp {
    /// 'S', 'E' or 'V'
    pub k: char,
    pub n: u8,
    pub c: MC,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum MC {
    Span(usize, usize),
    Text(String),
}

pub const NODE_NAMES: [&str; 24] = [
    "Anchor",
    "Bold",
    "Code",
    "CodeSpan",
    "Collapsible",
    "Destination",
    "Document",
    "Embed",
    "Emphasis",
    "Heading",
    "Highlight",
    "Icon",
    "Image",
    "Images",
    "Italic",
    "ListItem",
    "Modifier",
    "Metadata",
    "OrderedList",
    "Paragraph",
    "Strikethrough",
    "ThematicBreak",
    "Title",
    "UnorderedList",
];
pub const N_DOCUMENT: u8 = 6;
pub const N_HEADING: u8 = 9;
pub const N_METADATA: u8 = 17;

pub fn node_ix(x: &Node) -> u8 {
    match x {
        Node::Anchor => 0,
        Node::Bold => 1,
        Node::Code => 2,
        Node::CodeSpan => 3,
        Node::Collapsible => 4,
        Node::Destination => 5,
        Node::Document => 6,
        Node::Embed => 7,
        Node::Emphasis => 8,
        Node::Heading => 9,
        Node::Highlight => 10,
        Node::Icon => 11,
        Node::Image => 12,
        Node::Images => 13,
        Node::Italic => 14,
        Node::ListItem => 15,
        Node::Modifier => 16,
        Node::Metadata => 17,
        Node::OrderedList => 18,
        Node::Paragraph => 19,
        Node::Strikethrough => 20,
        Node::ThematicBreak => 21,
        Node::Title => 22,
        Node::UnorderedList => 23,
    }
}
pub fn node_of(i: u8) -> Node {
    match i % 24 {
        0 => Node::Anchor,
        1 => Node::Bold,
        2 => Node::Code,
        3 => Node::CodeSpan,
        4 => Node::Collapsible,
        5 => Node::Destination,
        6 => Node::Document,
        7 => Node::Embed,
        8 => Node::Emphasis,
        9 => Node::Heading,
        10 => Node::Highlight,
        11 => Node::Icon,
        12 => Node::Image,
        13 => Node::Images,
        14 => Node::Italic,
        15 => Node::ListItem,
        16 => Node::Modifier,
        17 => Node::Metadata,
        18 => Node::OrderedList,
        19 => Node::Paragraph,
        20 => Node::Strikethrough,
        21 => Node::ThematicBreak,
        22 => Node::Title,
        _ => Node::UnorderedList,
    }
}
pub fn op(o: &Op) -> MOp {
    let c = match &o.content {
        Content::Span(r) => MC::Span(r.start, r.end),
        Content::Materialized(s) => MC::Text(s.clone()),
    };
    match &o.kind {
        OpKind::Start(n) => MOp { k: 'S', n: node_ix(n), c },
        OpKind::End(n) => MOp { k: 'E', n: node_ix(n), c },
        OpKind::Value => MOp { k: 'V', n: 0, c },
    }
}
pub fn build_op(o: &MOp) -> Op {
    let content = match &o.c {
        MC::Span(a, b) => Content::Span(*a..*b),
        MC::Text(s) => Content::Materialized(s.clone()),
    };
    match o.k {
        'S' => Op::new_start(node_of(o.n), content),
        'E' => Op::new_end(node_of(o.n), content),
        _ => Op::new_value(content),
    }
}
pub fn ops(o: &[Op]) -> Vec<MOp> {
    o.iter().map(op).collect()
}
pub fn build_ops(o: &[MOp]) -> Vec<Op> {
    o.iter().map(build_op).collect()
}
pub fn canon_ops(o: &[Op]) -> String {
    serde_json::to_string(&ops(o)).unwrap()
}

// ---- tokens
pub fn tok(t: &Token) -> String {
    format!("{:?}|{}..{}|{}:{}:{}|{}", t.kind, t.range.start, t.range.end, t.position.byte_index, t.position.row, t.position.column, t.escaped)
}
