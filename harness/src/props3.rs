//! Monitors of event streams as an interface: streams that a program builds or edits.
use crate::props::{balanced, c05, clone_node, clone_op, content, fold, tree_sig, Case, Obs, Verdict};
use crate::rng::{mix, Rng};
use crate::treeio::enc;
use yamd::nodes::*;
use yamd::op::{Content, Node, Op, OpKind};

macro_rules! want {
    ($c:expr, $($x:tt)*) => { if !($c) { return Err(format!($($x)*)) } };
}
fn short<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}").chars().take(900).collect()
}
fn show(ops: &[Op], src: &str) -> String {
    format!("{} over the source {}", ops.iter().take(60).map(|o| format!("{:?} {:?}", o.kind, o.content)).collect::<Vec<_>>().join(", "), short(&src))
}

// ------------------------------------------------------------------ C33

const BRK: [char; 2] = ['\n', '\r'];

/// Writes the events of a tree, with contents of every form.
struct Emit {
    ops: Vec<Op>,
    src: String,
    /// 0: all owned, 1: all borrowed, 2: mixed
    form: usize,
    /// delimiters: 0 as in the format, 1 empty, 2 anything
    delim: usize,
    split: bool,
    r: Rng,
}

impl Emit {
    fn new(r: &mut Rng) -> Emit {
        Emit { ops: vec![], src: r.pick(&["", "", "x", "é", "**\n"]).to_string(), form: r.below(3), delim: r.below(3), split: r.chance(1, 2), r: Rng::new(r.next()) }
    }
    fn content(&mut self, t: &str) -> Content {
        if self.form == 0 || self.form == 2 && self.r.chance(1, 2) {
            return Content::Materialized(t.to_string());
        }
        if t.is_empty() {
            return Content::Span(match self.r.below(2) {
                0 => 0..0,
                _ => self.src.len()..self.src.len(),
            });
        }
        // a text may be borrowed from any place that has it
        if self.src.len() < 20_000 && self.r.chance(1, 2) {
            if let Some(i) = if self.r.chance(1, 2) { self.src.find(t) } else { self.src.rfind(t) } {
                return Content::Span(i..i + t.len());
            }
        }
        self.src += self.r.pick(&["", "", "#", "\n", " é", "\\"]);
        let i = self.src.len();
        self.src += t;
        Content::Span(i..i + t.len())
    }
    fn delim(&mut self, t: &str) -> Content {
        let t = match self.delim {
            0 => t,
            1 => "",
            _ => self.r.pick(&["", "#", "text", "\n", "é", "%}", "##"]),
        };
        self.content(t)
    }
    fn start(&mut self, n: Node, t: &str) {
        let c = self.delim(t);
        let o = if self.r.chance(1, 2) { Op::new_start(n, c) } else { Op { kind: OpKind::Start(n), content: c } };
        self.ops.push(o)
    }
    fn end(&mut self, n: Node, t: &str) {
        let c = self.delim(t);
        let o = if self.r.chance(1, 2) { Op::new_end(n, c) } else { Op { kind: OpKind::End(n), content: c } };
        self.ops.push(o)
    }
    fn value(&mut self, t: &str) {
        let c = self.content(t);
        let o = if self.r.chance(1, 2) { Op::new_value(c) } else { Op { kind: OpKind::Value, content: c } };
        self.ops.push(o)
    }
    /// text of a node that holds one text: in one value, or in pieces
    fn pieces(&mut self, t: &str) {
        if !self.split {
            return self.value(t);
        }
        let mut rest = t;
        while self.r.chance(2, 3) {
            let mut k = self.r.below(rest.len() + 1);
            while !rest.is_char_boundary(k) {
                k += 1
            }
            self.value(&rest[..k]);
            rest = &rest[k..];
        }
        if !rest.is_empty() || self.r.chance(1, 2) {
            self.value(rest)
        }
    }
    fn leaf(&mut self, n: Node, a: &str, t: &str, b: &str) {
        self.start(clone_node(&n), a);
        self.pieces(t);
        self.end(n, b)
    }
    fn pair(&mut self, n: Node, a: &str, t: &str, u: &str) {
        self.start(clone_node(&n), a);
        self.leaf(Node::Title, "[", t, "]");
        self.leaf(Node::Destination, "(", u, ")");
        self.end(n, "")
    }
    fn inl(&mut self, b: &[ParagraphNodes]) {
        self.start(Node::Paragraph, "");
        for x in b {
            match x {
                ParagraphNodes::Text(t) => self.value(t),
                ParagraphNodes::Anchor(a) => self.pair(Node::Anchor, "", &a.text, &a.url),
                ParagraphNodes::Italic(t) => self.leaf(Node::Italic, "_", &t.0, "_"),
                ParagraphNodes::Strikethrough(t) => self.leaf(Node::Strikethrough, "~~", &t.0, "~~"),
                ParagraphNodes::CodeSpan(t) => self.leaf(Node::CodeSpan, "`", &t.0, "`"),
                ParagraphNodes::Emphasis(t) => self.leaf(Node::Emphasis, "*", &t.0, "*"),
                ParagraphNodes::Bold(b) => {
                    self.start(Node::Bold, "**");
                    for x in &b.body {
                        match x {
                            BoldNodes::Text(t) => self.value(t),
                            BoldNodes::Italic(t) => self.leaf(Node::Italic, "_", &t.0, "_"),
                            BoldNodes::Strikethrough(t) => self.leaf(Node::Strikethrough, "~~", &t.0, "~~"),
                        }
                    }
                    self.end(Node::Bold, "**")
                }
            }
        }
        self.end(Node::Paragraph, "")
    }
    fn list(&mut self, l: &List) {
        let n = || if l.list_type == ListTypes::Ordered { Node::OrderedList } else { Node::UnorderedList };
        self.start(n(), "");
        for i in &l.body {
            self.start(Node::ListItem, "- ");
            self.inl(&i.text);
            if let Some(l) = &i.nested_list {
                self.list(l)
            }
            self.end(Node::ListItem, "")
        }
        self.end(n(), "")
    }
    fn blocks(&mut self, b: &[YamdNodes]) {
        self.start(Node::Document, "");
        for x in b {
            while self.r.chance(1, 3) {
                let t = *self.r.pick(&["\n\n", "\n\n\n", "", "text", "é"]);
                self.value(t)
            }
            match x {
                YamdNodes::Paragraph(p) => self.inl(&p.body),
                YamdNodes::Heading(h) => {
                    let mut t = "#".repeat(h.level as usize);
                    t += self.r.pick(&["", " ", "  "]);
                    let c = self.content(&t);
                    self.ops.push(Op::new_start(Node::Heading, c));
                    for x in &h.body {
                        match x {
                            HeadingNodes::Text(t) => self.value(t),
                            HeadingNodes::Anchor(a) => self.pair(Node::Anchor, "", &a.text, &a.url),
                        }
                    }
                    self.end(Node::Heading, "")
                }
                YamdNodes::Image(i) => self.pair(Node::Image, "!", &i.alt, &i.src),
                YamdNodes::Images(i) => {
                    self.start(Node::Images, "");
                    for i in &i.body {
                        self.pair(Node::Image, "!", &i.alt, &i.src)
                    }
                    self.end(Node::Images, "")
                }
                YamdNodes::Code(c) => {
                    self.start(Node::Code, "```");
                    if !c.lang.is_empty() || self.r.chance(1, 2) {
                        self.leaf(Node::Modifier, "", &c.lang, "\n")
                    }
                    self.pieces(&c.code);
                    self.end(Node::Code, "\n```")
                }
                YamdNodes::Embed(e) => {
                    self.start(Node::Embed, "{{");
                    self.value(&e.kind);
                    let sep = self.delim("|");
                    self.ops.push(Op::new_value(sep));
                    self.value(&e.args);
                    self.end(Node::Embed, "}}")
                }
                YamdNodes::ThematicBreak(_) => {
                    self.start(Node::ThematicBreak, "");
                    let c = self.delim("-----");
                    self.ops.push(Op::new_value(c));
                    self.end(Node::ThematicBreak, "")
                }
                YamdNodes::List(l) => self.list(l),
                YamdNodes::Collapsible(c) => {
                    self.start(Node::Collapsible, "{%");
                    if !c.title.is_empty() || self.r.chance(1, 2) {
                        self.leaf(Node::Modifier, " ", &c.title, "\n")
                    }
                    self.blocks(&c.body);
                    self.end(Node::Collapsible, "\n%}")
                }
                YamdNodes::Highlight(h) => {
                    self.start(Node::Highlight, "!!");
                    if let Some(t) = &h.title {
                        self.leaf(Node::Modifier, " ", t, "\n")
                    }
                    if let Some(t) = &h.icon {
                        self.leaf(Node::Icon, "! ", t, "\n")
                    }
                    for p in &h.body {
                        if self.r.chance(1, 3) {
                            let c = self.delim("\n\n");
                            self.ops.push(Op::new_value(c));
                        }
                        self.inl(&p.body)
                    }
                    self.end(Node::Highlight, "!!")
                }
            }
        }
        self.end(Node::Document, "")
    }
    fn all(&mut self, y: &Yamd) {
        if let Some(m) = &y.metadata {
            self.leaf(Node::Metadata, "---\n", m, "---\n")
        }
        self.blocks(&y.body)
    }
}

/// The tree that the events of a tree denote: levels are given by nesting, and surrounding line breaks of code,
/// metadata, list items and the paragraphs of highlights are not part of them.
fn denoted(y: &Yamd) -> Yamd {
    fn tail(b: &mut Vec<ParagraphNodes>) {
        if let Some(ParagraphNodes::Text(t)) = b.last_mut() {
            t.truncate(t.trim_end_matches(BRK).len());
            if t.is_empty() {
                b.pop();
            }
        }
    }
    fn list(l: &mut List, level: usize) {
        l.level = level;
        for i in &mut l.body {
            tail(&mut i.text);
            if let Some(l) = &mut i.nested_list {
                list(l, level + 1)
            }
        }
    }
    fn blocks(b: &mut [YamdNodes]) {
        for x in b {
            match x {
                YamdNodes::Code(c) => c.code.truncate(c.code.trim_end_matches(BRK).len()),
                YamdNodes::List(l) => list(l, 0),
                YamdNodes::Collapsible(c) => blocks(&mut c.body),
                YamdNodes::Highlight(h) => {
                    for p in &mut h.body {
                        tail(&mut p.body)
                    }
                    h.body.retain(|p| !p.body.is_empty())
                }
                _ => {}
            }
        }
    }
    let mut y = y.clone();
    y.metadata = y.metadata.map(|m| m.trim_matches(BRK).to_string());
    blocks(&mut y.body);
    y
}

fn owned(ops: &[Op], src: &str) -> Vec<Op> {
    ops.iter()
        .map(|o| {
            let mut o = clone_op(o);
            o.content = Content::Materialized(content(&o.content, src).unwrap_or("").to_string());
            o
        })
        .collect()
}

fn builds(ops: &[Op], src: &str, e: &Yamd, what: &str) -> Result<(), String> {
    match yamd::try_to_yamd(ops, src) {
        Err(x) => Err(format!("{what} is rejected ({x}): {}", show(ops, src))),
        Ok(y) if enc(&y) != enc(e) => Err(format!("{what} builds {} instead of {}: {}", short(&y), short(e), show(ops, src))),
        Ok(_) => {
            let y = yamd::to_yamd(ops, src);
            want!(enc(&y) == enc(e), "{what}: to_yamd gives {} instead of {}", short(&y), short(e));
            Ok(())
        }
    }
}

/// the blocks of the outermost document: (front, blocks with the values before each, rest)
fn groups(ops: &[Op]) -> Option<(usize, Vec<std::ops::Range<usize>>, usize)> {
    let front = ops.iter().position(|o| o.kind == OpKind::Start(Node::Document))? + 1;
    let mut v = vec![];
    let (mut i, mut from) = (front, front);
    while i < ops.len() {
        match ops[i].kind {
            OpKind::Value => i += 1,
            OpKind::End(_) => return Some((front, v, from)),
            OpKind::Start(_) => {
                let mut d = 0;
                loop {
                    match ops.get(i)?.kind {
                        OpKind::Start(_) => d += 1,
                        OpKind::End(_) => d -= 1,
                        _ => {}
                    }
                    i += 1;
                    if d == 0 {
                        break;
                    }
                }
                v.push(from..i);
                from = i;
            }
        }
    }
    None
}

pub fn c33(c: &Case) -> Verdict {
    let s = c.text.as_str();
    let mut r = Rng::new(c.aux ^ 33);
    let y = match &c.tree {
        Some(t) => t.clone(),
        None => yamd::deserialize(s),
    };
    let e = denoted(&y);
    let mut n = 0;
    for form in 0..3 {
        let mut m = Emit::new(&mut r);
        m.form = form;
        m.all(&y);
        assert!(balanced(&m.ops) && enc(&fold(&m.ops, &m.src)) == enc(&e), "the events written for {} do not denote it", short(&y));
        n += m.ops.len();
        builds(&m.ops, &m.src, &e, "a stream written for a tree")?;
    }
    if c.tree.is_none() && c05(c).is_ok() {
        let ops = yamd::parse(s);
        let own = owned(&ops, s);
        builds(&own, "", &y, "the stream with owned contents")?;
        // the text as a part of a larger source
        let front = *r.pick(&["é", "\n\n", "# x\n\n", "\\"]);
        let big = format!("{front}{s}{front}");
        let moved: Vec<Op> = ops
            .iter()
            .map(|o| {
                let mut o = clone_op(o);
                if let Content::Span(x) = &mut o.content {
                    *x = x.start + front.len()..x.end + front.len();
                }
                o
            })
            .collect();
        builds(&moved, &big, &y, "the stream over a larger source")?;
        n += 2 * ops.len();
        // blocks
        let Some((a, v, z)) = groups(&ops) else { return Err(format!("no document in the stream {}", show(&ops, s))) };
        want!(v.len() == y.body.len(), "{} blocks in the stream, {} in the tree {}", v.len(), y.body.len(), short(&y));
        let mut seq: Vec<usize> = (0..v.len()).collect();
        for _ in 0..1 + r.below(4) {
            let k = seq.len();
            match r.below(5) {
                0 if k > 0 => {
                    seq.remove(r.below(k));
                }
                1 if k > 0 => {
                    let x = seq[r.below(k)];
                    seq.insert(r.below(k + 1), x)
                }
                2 if k > 1 => {
                    let (i, j) = (r.below(k), r.below(k));
                    seq.swap(i, j)
                }
                3 => seq.reverse(),
                _ if k > 0 => seq.rotate_left(r.below(k)),
                _ => {}
            }
        }
        let mut edit: Vec<Op> = ops[..a].iter().map(clone_op).collect();
        for &i in &seq {
            let from = if r.chance(1, 2) { &own } else { &ops };
            edit.extend(from[v[i].clone()].iter().map(clone_op));
        }
        edit.extend(ops[z..].iter().map(clone_op));
        let body: Vec<YamdNodes> = seq.iter().map(|&i| y.body[i].clone()).collect();
        builds(&edit, s, &Yamd { metadata: y.metadata.clone(), body: body.clone() }, "the stream with its blocks rearranged")?;
        n += edit.len();
        // everything inside a collapsible, and back
        let doc = ops.iter().position(|o| o.kind == OpKind::Start(Node::Document)).unwrap_or(0);
        let mut wrap: Vec<Op> = ops[..doc].iter().map(clone_op).collect();
        wrap.push(Op::new_start(Node::Document, Content::Span(0..0)));
        wrap.push(Op::new_start(Node::Collapsible, Content::Span(0..0)));
        wrap.extend(ops[doc..].iter().map(clone_op));
        wrap.push(Op::new_end(Node::Collapsible, Content::Span(0..0)));
        wrap.push(Op::new_end(Node::Document, Content::Span(0..0)));
        let w = Collapsible { title: String::new(), body: y.body.clone() };
        builds(&wrap, s, &Yamd { metadata: y.metadata.clone(), body: vec![w.into()] }, "the stream wrapped into a collapsible")?;
        // texts replaced: the shape stays, the texts of single-text nodes are the new ones
        let mut z: Vec<Op> = ops.iter().map(clone_op).collect();
        let new = *r.pick(&["", "x", "é\u{301}", "**", "\n\n", "a\\b", "{{", " "]);
        let vals: Vec<usize> = (0..z.len()).filter(|&i| z[i].kind == OpKind::Value).collect();
        if !vals.is_empty() {
            for _ in 0..1 + r.below(3) {
                let i = *r.pick(&vals);
                z[i].content = Content::Materialized(new.to_string());
            }
        }
        builds(&z, s, &fold(&z, s), "the stream with texts replaced")?;
        // a metadata section taken off
        if doc > 0 {
            builds(&ops[doc..], s, &Yamd { metadata: None, body: y.body.clone() }, "the stream without its metadata")?;
        }
    }
    Ok(Obs { sig: mix(tree_sig(&y) ^ 33), nontrivial: y.metadata.is_some() || !y.body.is_empty(), events: n as u64 })
}

