//! Monitors of the node and content building blocks: printing of arbitrary trees, content from tokens, equality.
use crate::props::{tree_sig, Case, Obs, Verdict};
use crate::rng::{mix, Rng};
use crate::treeio::{each, each_mut, enc};
use yamd::lexer::{Lexer, Token};
use yamd::nodes::*;
use yamd::op::{Content, Node, Op, OpKind};

macro_rules! want {
    ($c:expr, $($x:tt)*) => { if !($c) { return Err(format!($($x)*)) } };
}
fn short<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}").chars().take(900).collect()
}

// ------------------------------------------------------------------ C27

/// Takes a tree out of what the grammar can denote: any level, empty and single-element collections, odd texts.
fn distort(y: &mut Yamd, r: &mut Rng) {
    fn level(r: &mut Rng) -> usize {
        *r.pick(&[0usize, 0, 1, 2, 3, 5, 7, 31, 64, 127, 128, 255, 256, 300])
    }
    fn inl(b: &mut Vec<ParagraphNodes>, r: &mut Rng) {
        match r.below(9) {
            0 => b.clear(),
            1 => b.insert(0, ParagraphNodes::Text(String::new())),
            2 => b.push(ParagraphNodes::Bold(Bold::default())),
            3 => b.push(ParagraphNodes::Bold(Bold { body: vec![BoldNodes::Text(String::new())] })),
            4 => b.push(ParagraphNodes::Italic(Italic(String::new()))),
            5 => b.push(ParagraphNodes::CodeSpan(CodeSpan(String::new()))),
            6 => b.push(ParagraphNodes::Anchor(Anchor { text: String::new(), url: String::new() })),
            _ => {}
        }
    }
    fn list(l: &mut List, r: &mut Rng) {
        if r.chance(1, 2) {
            l.level = level(r)
        }
        match r.below(8) {
            0 => l.body.clear(),
            1 => l.list_type = ListTypes::Ordered,
            2 => l.list_type = ListTypes::Unordered,
            _ => {}
        }
        for i in &mut l.body {
            inl(&mut i.text, r);
            if let Some(n) = &mut i.nested_list {
                list(n, r)
            }
        }
    }
    fn blocks(b: &mut Vec<YamdNodes>, r: &mut Rng) {
        if r.chance(1, 12) {
            b.clear()
        }
        for x in b.iter_mut() {
            match x {
                YamdNodes::Paragraph(p) => inl(&mut p.body, r),
                YamdNodes::Heading(h) => {
                    if r.chance(1, 2) {
                        h.level = *r.pick(&[0u8, 1, 6, 7, 8, 100, 127, 128, 254, 255])
                    }
                    match r.below(5) {
                        0 => h.body.clear(),
                        1 => h.body.push(HeadingNodes::Text(String::new())),
                        _ => {}
                    }
                }
                YamdNodes::Images(i) => {
                    if r.chance(1, 2) {
                        let n = r.below(2).min(i.body.len());
                        i.body.truncate(n)
                    }
                }
                YamdNodes::Code(c) => {
                    if r.chance(1, 3) {
                        c.code.push_str("\n\r\n")
                    }
                }
                YamdNodes::List(l) => list(l, r),
                YamdNodes::Highlight(h) => {
                    match r.below(6) {
                        0 => h.title = Some(String::new()),
                        1 => h.icon = Some(String::new()),
                        2 => h.body.clear(),
                        _ => {}
                    }
                    for p in &mut h.body {
                        inl(&mut p.body, r)
                    }
                }
                YamdNodes::Collapsible(c) => {
                    if r.chance(1, 4) {
                        c.title.clear()
                    }
                    blocks(&mut c.body, r)
                }
                _ => {}
            }
        }
        if r.chance(1, 10) {
            b.push(Paragraph::default().into())
        }
    }
    if r.chance(1, 8) {
        y.metadata = Some((*r.pick(&["", "---", "\n---\n", "a\r\n", "\\", "\n\n"])).to_string())
    }
    blocks(&mut y.body, r)
}

fn p_inline(x: &ParagraphNodes) -> String {
    match x {
        ParagraphNodes::Anchor(a) => a.to_string(),
        ParagraphNodes::Bold(a) => a.to_string(),
        ParagraphNodes::Italic(a) => a.to_string(),
        ParagraphNodes::Strikethrough(a) => a.to_string(),
        ParagraphNodes::CodeSpan(a) => a.to_string(),
        ParagraphNodes::Emphasis(a) => a.to_string(),
        ParagraphNodes::Text(t) => ParagraphNodes::Text(t.clone()).to_string(),
    }
}
fn p_block(x: &YamdNodes) -> String {
    match x {
        YamdNodes::Paragraph(a) => a.to_string(),
        YamdNodes::Heading(a) => a.to_string(),
        YamdNodes::Image(a) => a.to_string(),
        YamdNodes::Images(a) => a.to_string(),
        YamdNodes::Code(a) => a.to_string(),
        YamdNodes::List(a) => a.to_string(),
        YamdNodes::Highlight(a) => a.to_string(),
        YamdNodes::ThematicBreak(a) => a.to_string(),
        YamdNodes::Embed(a) => a.to_string(),
        YamdNodes::Collapsible(a) => a.to_string(),
    }
}

struct Prints {
    n: usize,
}
impl Prints {
    fn inl(&mut self, b: &[ParagraphNodes]) -> Result<(), String> {
        for x in b {
            self.n += 1;
            let (a, e) = (x.to_string(), p_inline(x));
            want!(a == e, "{} prints {a:?} through ParagraphNodes, {e:?} on its own", short(x));
            // documented: without content these two collapse to nothing
            let hollow = match x {
                ParagraphNodes::Bold(b) => b.body.iter().all(|y| matches!(y, BoldNodes::Text(t) if t.is_empty())),
                ParagraphNodes::CodeSpan(c) => c.0.is_empty(),
                _ => false,
            };
            want!(!hollow || a.is_empty(), "{} has no content and prints {a:?}", short(x));
            if let ParagraphNodes::Bold(b) = x {
                for y in &b.body {
                    let (a, e) = match y {
                        BoldNodes::Italic(i) => (y.to_string(), i.to_string()),
                        BoldNodes::Strikethrough(i) => (y.to_string(), i.to_string()),
                        BoldNodes::Text(_) => continue,
                    };
                    want!(a == e, "{} prints {a:?} through BoldNodes, {e:?} on its own", short(y));
                }
            }
        }
        Ok(())
    }
    fn list(&mut self, l: &List) -> Result<(), String> {
        for i in &l.body {
            self.n += 1;
            self.inl(&i.text)?;
            std::hint::black_box(i.to_string());
            if let Some(n) = &i.nested_list {
                self.list(n)?
            }
        }
        Ok(())
    }
    fn blocks(&mut self, b: &[YamdNodes]) -> Result<(), String> {
        for x in b {
            self.n += 1;
            let (a, e) = (x.to_string(), p_block(x));
            want!(a == e, "{} prints {a:?} through YamdNodes, {e:?} on its own", short(x));
            let alone = Yamd { metadata: None, body: vec![x.clone()] }.to_string();
            match x {
                // the first characters of a paragraph may need an escape where a block can start
                YamdNodes::Paragraph(p) => {
                    self.inl(&p.body)?;
                    want!(alone == a || alone == format!("\\{a}"), "{} prints {a:?} on its own, {alone:?} as a document", short(x));
                }
                _ => want!(alone == a, "{} prints {a:?} on its own, {alone:?} as a document", short(x)),
            }
            match x {
                YamdNodes::Heading(h) => {
                    for y in &h.body {
                        if let HeadingNodes::Anchor(z) = y {
                            let (a, e) = (y.to_string(), z.to_string());
                            want!(a == e, "{} prints {a:?} through HeadingNodes, {e:?} on its own", short(y));
                        }
                    }
                }
                YamdNodes::Images(i) => {
                    let e = i.body.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("\n");
                    want!(a == e, "a gallery prints {a:?}, its images {e:?}");
                }
                YamdNodes::List(l) => self.list(l)?,
                YamdNodes::Highlight(h) => {
                    for p in &h.body {
                        self.inl(&p.body)?
                    }
                }
                YamdNodes::Collapsible(c) => self.blocks(&c.body)?,
                _ => {}
            }
        }
        Ok(())
    }
}

pub fn c27(c: &Case) -> Verdict {
    let mut y = c.tree.as_ref().unwrap().clone();
    let mut r = Rng::new(c.aux ^ 27);
    for _ in 0..r.below(3) {
        distort(&mut y, &mut r)
    }
    let before = enc(&y);
    let t = y.to_string();
    want!(t == y.to_string(), "printing {} twice gives different texts", short(&y));
    want!(enc(&y) == before, "printing changed {}", short(&y));
    let mut p = Prints { n: 0 };
    p.blocks(&y.body)?;
    // what was printed is a text like any other: it parses, and saving it again is stable
    let d = yamd::deserialize(&t);
    let t2 = d.to_string();
    let d2 = yamd::deserialize(&t2);
    want!(d == d2, "{} prints as {t:?}, read as {}, which prints as {t2:?}, read as {}", short(&y), short(&d), short(&d2));
    // nothing that can be read was lost by printing: words of the tree, in order
    let words = |y: &Yamd| {
        let mut s = String::new();
        each(y, &mut |_, t| s.extend(t.chars().filter(|c| c.is_alphanumeric())));
        s
    };
    let (a, b): (String, String) = (words(&y), t.chars().filter(|c| c.is_alphanumeric()).collect());
    want!(a == b, "letters and digits of the tree {} are printed as {}", short(&a), short(&b));
    Ok(Obs { sig: mix(tree_sig(&y) ^ 27), nontrivial: p.n > 1, events: p.n as u64 + 3 })
}

// ------------------------------------------------------------------ C32

/// Accepts `room` bytes, then fails; a write after the failure is remembered.
struct Sink {
    got: String,
    room: usize,
    whole: bool,
    failed: bool,
    after: usize,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(std::fmt::Error);
        }
        if s.len() <= self.room {
            self.room -= s.len();
            self.got.push_str(s);
            return Ok(());
        }
        if !self.whole {
            let mut k = self.room;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            self.got.push_str(&s[..k]);
        }
        self.failed = true;
        Err(std::fmt::Error)
    }
}

fn judge_print(what: &str, x: &dyn std::fmt::Display, r: &mut Rng) -> Result<usize, String> {
    use std::fmt::Write;
    let t = x.to_string();
    let w = r.below(40);
    for (how, o) in [
        ("width", format!("{x:w$}")),
        ("right", format!("{x:>w$}")),
        ("centre, fill", format!("{x:*^w$}")),
        ("precision", format!("{x:.0$}", w % 5)),
        ("alternate", format!("{x:#}")),
        ("sign and zeros", format!("{x:+09}")),
    ] {
        want!(o == t, "{what} with the format option {how} ({w}) prints {o:?} instead of {t:?}");
    }
    let mut rooms = vec![0, t.len().saturating_sub(1), r.below(t.len() + 1), r.below(t.len() + 1)];
    if t.len() < 24 {
        rooms.extend(0..t.len());
    }
    for room in rooms {
        let mut k = Sink { got: String::new(), room, whole: r.chance(1, 2), failed: false, after: 0 };
        let e = write!(k, "{x}");
        want!(t.starts_with(&k.got), "{what} wrote {:?} into a writer of {room} bytes, the text is {t:?}", k.got);
        want!(e.is_err() == k.failed, "{what} into a writer of {room} bytes: the writer failed: {}, printing reports {e:?}", k.failed);
        want!(k.failed || k.got == t, "{what} wrote {:?} instead of {t:?}", k.got);
        want!(k.after == 0, "{what} goes on writing after the writer failed at {room} bytes");
    }
    Ok(7)
}

pub fn c32(c: &Case) -> Verdict {
    let mut r = Rng::new(c.aux ^ 32);
    let mut y = match &c.tree {
        Some(t) => t.clone(),
        None => yamd::deserialize(&c.text),
    };
    if c.tree.is_some() && r.chance(1, 3) {
        distort(&mut y, &mut r)
    }
    let mut n = judge_print("a document", &y, &mut r)?;
    fn blocks(b: &[YamdNodes], r: &mut Rng, n: &mut usize, depth: usize) -> Result<(), String> {
        fn inl(b: &[ParagraphNodes], r: &mut Rng, n: &mut usize) -> Result<(), String> {
            for x in b.iter().take(12) {
                *n += judge_print("an inline node", x, r)?;
                match x {
                    ParagraphNodes::Anchor(a) => *n += judge_print("an anchor", a, r)?,
                    ParagraphNodes::Italic(a) => *n += judge_print("italic", a, r)?,
                    ParagraphNodes::Strikethrough(a) => *n += judge_print("strikethrough", a, r)?,
                    ParagraphNodes::CodeSpan(a) => *n += judge_print("a code span", a, r)?,
                    ParagraphNodes::Emphasis(a) => *n += judge_print("emphasis", a, r)?,
                    ParagraphNodes::Bold(a) => {
                        *n += judge_print("bold", a, r)?;
                        for z in a.body.iter().take(4) {
                            *n += judge_print("a part of bold", z, r)?
                        }
                    }
                    ParagraphNodes::Text(_) => {}
                }
            }
            Ok(())
        }
        fn list(l: &List, r: &mut Rng, n: &mut usize, depth: usize) -> Result<(), String> {
            *n += judge_print("a list", l, r)? + judge_print("a list type", &l.list_type, r)?;
            for i in l.body.iter().take(6) {
                *n += judge_print("a list item", i, r)?;
                inl(&i.text, r, n)?;
                if let Some(m) = i.nested_list.as_ref().filter(|_| depth < 6) {
                    list(m, r, n, depth + 1)?
                }
            }
            Ok(())
        }
        for x in b.iter().take(12) {
            *n += judge_print("a block", x, r)?;
            match x {
                YamdNodes::Paragraph(p) => {
                    *n += judge_print("a paragraph", p, r)?;
                    inl(&p.body, r, n)?
                }
                YamdNodes::Heading(h) => {
                    *n += judge_print("a heading", h, r)?;
                    for z in h.body.iter().take(6) {
                        *n += judge_print("a part of a heading", z, r)?
                    }
                }
                YamdNodes::Image(i) => *n += judge_print("an image", i, r)?,
                YamdNodes::Images(i) => *n += judge_print("a gallery", i, r)?,
                YamdNodes::Code(i) => *n += judge_print("code", i, r)?,
                YamdNodes::List(l) => list(l, r, n, 0)?,
                YamdNodes::Highlight(h) => {
                    *n += judge_print("a highlight", h, r)?;
                    for p in h.body.iter().take(4) {
                        inl(&p.body, r, n)?
                    }
                }
                YamdNodes::ThematicBreak(t) => *n += judge_print("a thematic break", t, r)?,
                YamdNodes::Embed(e) => *n += judge_print("an embed", e, r)?,
                YamdNodes::Collapsible(k) => {
                    *n += judge_print("a collapsible", k, r)?;
                    if depth < 6 {
                        blocks(&k.body, r, n, depth + 1)?
                    }
                }
            }
        }
        Ok(())
    }
    blocks(&y.body, &mut r, &mut n, 0)?;
    if c.tree.is_none() {
        for t in Lexer::new(&c.text).take(8) {
            n += judge_print("a token kind", &t.kind, &mut r)?;
        }
        n += judge_print("the error of the fallible conversion", &yamd::UnbalancedOpStream, &mut r)?;
    }
    Ok(Obs { sig: mix(tree_sig(&y) ^ 32), nontrivial: !y.body.is_empty(), events: n as u64 })
}

// ------------------------------------------------------------------ C28

/// `Content::from_tokens` alone: tokens in any order.
fn judge_tokens(toks: &[Token], s: &str) -> Result<(), String> {
    let text: String = toks.iter().map(|t| &s[t.range.clone()]).collect();
    let tight = toks.windows(2).all(|w| w[0].range.end == w[1].range.start);
    let c = Content::from_tokens(toks, s);
    let r: Vec<_> = toks.iter().map(|t| t.range.clone()).collect();
    want!(c.as_str(s) == text, "content of {r:?} of {} is {:?} instead of {text:?}", short(&s), c.as_str(s));
    want!(c.to_string(s) == text, "owned content of {r:?} of {} is {:?} instead of {text:?}", short(&s), c.to_string(s));
    want!(c.is_empty() == text.is_empty(), "is_empty of the content {text:?} is {}", c.is_empty());
    match &c {
        Content::Span(x) => {
            want!(tight, "content of {r:?} of {} is a span although the tokens are not adjacent", short(&s));
            want!(
                toks.is_empty() && x.is_empty() || !toks.is_empty() && *x == (toks[0].range.start..toks[toks.len() - 1].range.end),
                "content of {r:?} is the span {x:?}"
            );
        }
        Content::Materialized(_) => want!(!tight, "content of the adjacent tokens {r:?} of {} is copied", short(&s)),
    }
    Ok(())
}

fn judge_content(toks: &[Token], s: &str) -> Result<(), String> {
    judge_tokens(toks, s)?;
    let r: Vec<_> = toks.iter().map(|t| t.range.clone()).collect();
    // the source-less conversions are the span from the first to the last token
    let all = if toks.is_empty() { 0..0 } else { toks[0].range.start..toks[toks.len() - 1].range.end };
    let whole = if toks.is_empty() { "" } else { &s[all.clone()] };
    let by = [
        Content::from(toks),
        Content::from(toks.to_vec()),
        Op::new_value(toks).content,
        Op::new_start(Node::Paragraph, toks).content,
        Op::new_end(Node::Paragraph, toks.to_vec()).content,
    ];
    for c in by {
        match &c {
            Content::Span(x) => want!(*x == all || x.is_empty() && all.is_empty(), "conversion of {r:?} gives {x:?}"),
            Content::Materialized(m) => return Err(format!("conversion of {r:?} gives an owned {m:?}")),
        }
        want!(c.as_str(s) == whole && c.is_empty() == whole.is_empty(), "conversion of {r:?} resolves to {:?}", c.as_str(s));
    }
    if let [a, b, ..] = toks {
        if a.range.start <= b.range.end {
            let c = Content::from(&[a.clone(), b.clone()]);
            want!(c == Content::Span(a.range.start..b.range.end), "conversion of two tokens gives {c:?}");
        }
    }
    Ok(())
}

pub fn c28(c: &Case) -> Verdict {
    let s = c.text.as_str();
    let t: Vec<Token> = Lexer::new(s).collect();
    let mut r = Rng::new(c.aux ^ 28);
    let mut n = 0u64;
    if t.len() <= 7 {
        // every run of adjacent tokens, every selection of tokens in order
        for i in 0..=t.len() {
            for j in i..=t.len() {
                judge_content(&t[i..j], s)?;
                n += 1;
            }
        }
        for m in 0..1u32 << t.len().min(6) {
            let pick: Vec<Token> = t.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, t)| t.clone()).collect();
            judge_content(&pick, s)?;
            n += 1;
        }
    } else {
        judge_content(&t, s)?;
        for _ in 0..6 {
            let i = r.below(t.len());
            let span = if r.chance(1, 3) { t.len() } else { 12 };
            let j = (i + r.below(span)).min(t.len());
            judge_content(&t[i..j], s)?;
            let k = 1 + r.below(4);
            let pick: Vec<Token> = t[i..j].iter().filter(|_| !r.chance(1, 1 + k)).cloned().collect();
            judge_content(&pick, s)?;
            n += 2;
        }
    }
    // tokens in any order, repeated ones included: only `from_tokens` promises their text
    for _ in 0..if t.len() <= 7 { 24 } else { 8 } {
        if t.len() < 2 {
            break;
        }
        let lo = r.below(t.len());
        let hi = (lo + 2 + r.below(7)).min(t.len());
        let lo = lo.min(hi - 2);
        let mut pick: Vec<Token> = t[lo..hi].to_vec();
        let last = pick.len() - 1;
        match r.below(5) {
            0 => pick.reverse(),
            1 => pick.swap(0, last),
            // first and last stay in their places
            2 if last > 2 => {
                let (a, b) = (1 + r.below(last - 1), 1 + r.below(last - 1));
                pick.swap(a, b);
            }
            3 => {
                let k = r.below(pick.len());
                pick.insert(k, pick[k].clone());
            }
            _ => {
                for k in (1..pick.len()).rev() {
                    let j = r.below(k + 1);
                    pick.swap(k, j);
                }
            }
        }
        judge_tokens(&pick, s)?;
        n += 1;
    }
    // events keep what they are given
    let x = Content::Materialized(s.to_string());
    want!(x.as_str("") == s && x.as_str(s) == s && x.to_string("") == s, "owned content does not resolve to its text");
    want!(x.is_empty() == s.is_empty(), "is_empty of owned content");
    let o = Op::new_start(Node::Code, x);
    want!(o.kind == OpKind::Start(Node::Code) && o.content == Content::Materialized(s.to_string()), "an event does not hold its content");
    let o = Op::new_end(Node::Code, Content::Span(0..s.len()));
    want!(o.kind == OpKind::End(Node::Code) && o.content.as_str(s) == s, "an event does not hold its content");
    let o = Op::new_value(Content::Span(0..s.len()));
    want!(o.kind == OpKind::Value && o.content.to_string(s) == s, "an event does not hold its content");
    let mut sig = 28u64;
    for k in &t {
        sig = mix(sig ^ crate::props::k_id(&k.kind) as u64 ^ (k.escaped as u64) << 8);
    }
    Ok(Obs { sig, nontrivial: t.len() > 1, events: n })
}

// ------------------------------------------------------------------ C29

fn op_key(o: &Op) -> String {
    let c = match &o.content {
        Content::Span(r) => format!("S{}-{}", r.start, r.end),
        Content::Materialized(m) => format!("M{m}"),
    };
    match &o.kind {
        OpKind::Start(n) => format!("s{} {c}", crate::props::node_id(n)),
        OpKind::End(n) => format!("e{} {c}", crate::props::node_id(n)),
        OpKind::Value => format!("v {c}"),
    }
}

fn judge_eq(a: &Yamd, b: &Yamd) -> Result<(), String> {
    let same = enc(a) == enc(b);
    want!((a == b) == same && (b == a) == same && (a != b) != same, "{} == {} is {}", short(a), short(b), a == b);
    want!((format!("{a:?}") == format!("{b:?}")) == same, "the debug output of {} and {} does not tell them apart", short(a), short(b));
    Ok(())
}

/// the same tree through constructors and conversions
fn rebuild(y: &Yamd) -> Yamd {
    fn inl(b: &[ParagraphNodes], alt: bool) -> Vec<ParagraphNodes> {
        b.iter()
            .map(|x| match x {
                ParagraphNodes::Anchor(a) => Anchor::new(a.text.as_str(), a.url.as_str()).into(),
                ParagraphNodes::Bold(b) => {
                    let body: Vec<BoldNodes> = b
                        .body
                        .iter()
                        .map(|x| match x {
                            BoldNodes::Italic(i) => Italic::new(i.0.clone()).into(),
                            BoldNodes::Strikethrough(i) => Strikethrough::new(i.0.as_str()).into(),
                            BoldNodes::Text(t) => t.clone().into(),
                        })
                        .collect();
                    if alt { Bold::from(body).into() } else { Bold::new(body).into() }
                }
                ParagraphNodes::Italic(i) => if alt { Italic::from(i.0.clone()) } else { Italic::new(i.0.as_str()) }.into(),
                ParagraphNodes::Strikethrough(i) => if alt { Strikethrough::from(i.0.clone()) } else { Strikethrough::new(i.0.as_str()) }.into(),
                ParagraphNodes::Text(t) => t.clone().into(),
                ParagraphNodes::CodeSpan(i) => if alt { CodeSpan::from(i.0.clone()) } else { CodeSpan::new(i.0.as_str()) }.into(),
                ParagraphNodes::Emphasis(i) => if alt { Emphasis::from(i.0.clone()) } else { Emphasis::new(i.0.as_str()) }.into(),
            })
            .collect()
    }
    fn par(p: &Paragraph, alt: bool) -> Paragraph {
        if alt { Paragraph::from(inl(&p.body, alt)) } else { Paragraph::new(inl(&p.body, alt)) }
    }
    fn list(l: &List) -> List {
        List::new(l.list_type.clone(), l.level, l.body.iter().map(|i| ListItem::new(inl(&i.text, false), i.nested_list.as_ref().map(list))).collect())
    }
    fn blocks(b: &[YamdNodes]) -> Vec<YamdNodes> {
        let img = |i: &Image| Image::new(i.alt.as_str(), i.src.as_str());
        b.iter()
            .enumerate()
            .map(|(k, x)| match x {
                YamdNodes::Paragraph(p) => par(p, k % 2 == 0).into(),
                YamdNodes::Heading(h) => Heading::new(
                    h.level,
                    h.body
                        .iter()
                        .map(|x| match x {
                            HeadingNodes::Text(t) => t.clone().into(),
                            HeadingNodes::Anchor(a) => Anchor::new(a.text.clone(), a.url.clone()).into(),
                        })
                        .collect(),
                )
                .into(),
                YamdNodes::Image(i) => img(i).into(),
                YamdNodes::Images(i) => Images::new(i.body.iter().map(img).collect()).into(),
                YamdNodes::Code(c) => Code::new(c.lang.as_str(), c.code.as_str()).into(),
                YamdNodes::List(l) => list(l).into(),
                YamdNodes::Highlight(h) => {
                    Highlight::new(h.title.as_deref(), h.icon.clone(), h.body.iter().map(|p| par(p, k % 2 == 1)).collect()).into()
                }
                YamdNodes::ThematicBreak(_) => ThematicBreak::new().into(),
                YamdNodes::Embed(e) => Embed::new(e.kind.as_str(), e.args.clone()).into(),
                YamdNodes::Collapsible(c) => Collapsible::new(c.title.as_str(), blocks(&c.body)).into(),
            })
            .collect()
    }
    Yamd::new(y.metadata.clone(), blocks(&y.body))
}

/// trailing line breaks of code are dropped by its constructor
fn trim_code(b: &mut [YamdNodes]) {
    for x in b {
        match x {
            YamdNodes::Code(c) => c.code.truncate(c.code.trim_end_matches(['\r', '\n']).len()),
            YamdNodes::Collapsible(c) => trim_code(&mut c.body),
            _ => {}
        }
    }
}

/// one change to one part of the tree
fn touch(y: &mut Yamd, r: &mut Rng) {
    let mut n = 0;
    each(y, &mut |_, _| n += 1);
    match r.below(8) {
        0..=3 if n > 0 => {
            let k = r.below(n);
            let how = r.below(5);
            let mut i = 0;
            each_mut(y, &mut |_, s| {
                if i == k {
                    match how {
                        0 => s.push(' '),
                        1 => s.insert(0, '\n'),
                        2 => s.clear(),
                        3 => {
                            let l: String = s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                            *s = l
                        }
                        _ => {
                            s.pop();
                        }
                    }
                }
                i += 1;
            })
        }
        4 => {
            y.metadata = match &y.metadata {
                None => Some(String::new()),
                Some(m) if m.is_empty() => None,
                Some(m) => Some(format!("{m}x")),
            }
        }
        5 if !y.body.is_empty() => {
            let k = r.below(y.body.len());
            y.body.remove(k);
        }
        6 if y.body.len() > 1 => {
            let k = r.below(y.body.len() - 1);
            y.body.swap(k, k + 1)
        }
        _ => {
            fn walk(b: &mut [YamdNodes], r: &mut Rng) {
                for x in b {
                    match x {
                        YamdNodes::Heading(h) => h.level = h.level.wrapping_add(r.below(2) as u8),
                        YamdNodes::List(l) => list(l, r),
                        YamdNodes::Highlight(h) => match r.below(4) {
                            0 => h.title = Some(h.title.take().unwrap_or_default()),
                            1 => h.icon = Some(h.icon.take().unwrap_or_default()),
                            2 => {
                                h.body.pop();
                            }
                            _ => {}
                        },
                        YamdNodes::Images(i) => {
                            if r.chance(1, 2) {
                                i.body.reverse()
                            }
                        }
                        YamdNodes::Image(i) => {
                            if r.chance(1, 2) {
                                std::mem::swap(&mut i.alt, &mut i.src)
                            }
                        }
                        YamdNodes::Collapsible(c) => walk(&mut c.body, r),
                        _ => {}
                    }
                }
            }
            fn list(l: &mut List, r: &mut Rng) {
                match r.below(5) {
                    0 => l.level += 1,
                    1 => l.list_type = if l.list_type == ListTypes::Ordered { ListTypes::Unordered } else { ListTypes::Ordered },
                    2 => l.body.reverse(),
                    _ => {}
                }
                for i in &mut l.body {
                    if r.chance(1, 6) {
                        i.nested_list = None
                    }
                    if let Some(n) = &mut i.nested_list {
                        list(n, r)
                    }
                }
            }
            walk(&mut y.body, r)
        }
    }
}

pub fn c29(c: &Case) -> Verdict {
    let mut r = Rng::new(c.aux ^ 29);
    let s = c.text.as_str();
    let y = match &c.tree {
        Some(t) => t.clone(),
        None => yamd::deserialize(s),
    };
    let mut n = 0;
    let copy = y.clone();
    judge_eq(&y, &copy)?;
    want!(enc(&copy) == enc(&y), "the clone of {} is {}", short(&y), short(&copy));
    let construct = |y: &Yamd| -> Result<(), String> {
        let built = rebuild(y);
        let mut e = y.clone();
        trim_code(&mut e.body);
        e.metadata = e.metadata.map(|m| m.trim_matches(['\r', '\n']).to_string());
        want!(enc(&built) == enc(&e), "{} built through constructors is {}", short(y), short(&built));
        Ok(())
    };
    construct(&y)?;
    // the same tree with hostile surroundings of every text
    let mut z = y.clone();
    const PAD: [&str; 12] = ["", "", "\n", "\r\n", "\n\n", " ", "\r", "\t", "\\", "\u{a0}", "\u{85}", "\u{2028}"];
    each_mut(&mut z, &mut |_, s| {
        s.insert_str(0, r.pick(&PAD));
        s.push_str(r.pick(&PAD));
    });
    construct(&z)?;
    judge_eq(&y, &z)?;
    for _ in 0..4 {
        let mut z = y.clone();
        touch(&mut z, &mut r);
        judge_eq(&y, &z)?;
        let mut w = z.clone();
        touch(&mut w, &mut r);
        judge_eq(&z, &w)?;
        judge_eq(&w, &y)?;
        for a in y.body.iter().zip(&z.body) {
            let e = |b: &YamdNodes| enc(&Yamd { metadata: None, body: vec![b.clone()] });
            want!((a.0 == a.1) == (e(a.0) == e(a.1)), "{} == {} is {}", short(a.0), short(a.1), a.0 == a.1);
        }
        n += 3;
    }
    want!(enc(&copy) == enc(&y), "changing a clone changed {}", short(&y));
    if c.tree.is_none() {
        // events and tokens
        let (a, b) = (yamd::parse(s), yamd::parse(s));
        for _ in 0..12.min(a.len()) {
            let (i, j) = (r.below(a.len()), r.below(b.len()));
            let same = op_key(&a[i]) == op_key(&b[j]);
            want!((a[i] == b[j]) == same, "{:?} == {:?} is {}", a[i], b[j], a[i] == b[j]);
        }
        // contents and events of every form against each other
        let mut vs: Vec<Content> = vec![Content::Span(0..0), Content::Span(0..s.len()), Content::Materialized(String::new()), Content::Materialized(s.to_string())];
        for _ in 0..4.min(a.len()) {
            match &a[r.below(a.len())].content {
                Content::Span(x) => {
                    vs.push(Content::Span(x.clone()));
                    vs.push(Content::Span(x.end..x.end));
                    vs.push(Content::Span(x.start..x.end + 1));
                    vs.push(Content::Materialized(s.get(x.clone()).unwrap_or_default().to_string()));
                }
                Content::Materialized(m) => {
                    vs.push(Content::Materialized(m.clone()));
                    vs.push(Content::Materialized(m.to_uppercase()));
                    vs.push(Content::Span(0..m.len()));
                }
            }
        }
        let key = |c: &Content| match c {
            Content::Span(x) => format!("S{}-{}", x.start, x.end),
            Content::Materialized(m) => format!("M{m}"),
        };
        for x in &vs {
            for y in &vs {
                let same = key(x) == key(y);
                want!((x == y) == same && (x != y) != same, "{x:?} == {y:?} is {}", x == y);
                want!((format!("{x:?}") == format!("{y:?}")) == same, "the debug output of {x:?} and {y:?}");
            }
        }
        const KINDS: [fn() -> OpKind; 7] = [
            || OpKind::Value,
            || OpKind::Start(Node::Bold),
            || OpKind::End(Node::Bold),
            || OpKind::Start(Node::UnorderedList),
            || OpKind::Start(Node::OrderedList),
            || OpKind::End(Node::OrderedList),
            || OpKind::Start(Node::Document),
        ];
        for _ in 0..6 {
            let (k, l) = (r.below(7), r.below(7));
            let (x, y) = (vs.swap_remove(r.below(vs.len() - 2)), &vs[r.below(vs.len())]);
            let same = k == l && key(&x) == key(y);
            let c = |c: &Content| match c {
                Content::Span(x) => Content::Span(x.clone()),
                Content::Materialized(m) => Content::Materialized(m.clone()),
            };
            let (p, q) = (Op { kind: KINDS[k](), content: c(&x) }, Op { kind: KINDS[l](), content: c(y) });
            want!((p == q) == same, "{p:?} == {q:?} is {}", p == q);
            vs.push(x);
        }
        let t: Vec<Token> = Lexer::new(s).collect();
        for _ in 0..12.min(t.len()) {
            let (i, j) = (r.below(t.len()), r.below(t.len()));
            let (x, z) = (&t[i], &t[j].clone());
            want!((x == z) == (i == j), "{x:?} == {z:?} is {}", x == z);
            let k = |t: &Token| crate::props::k_id(&t.kind);
            want!((x.kind == z.kind) == (k(x) == k(z)), "{:?} == {:?} is {}", x.kind, z.kind, x.kind == z.kind);
            want!(x.kind.to_string() == format!("{:?}", x.kind), "{:?} is shown as {}", x.kind, x.kind);
            let h = |k: &yamd::lexer::TokenKind| {
                use std::hash::{BuildHasher, RandomState};
                thread_local!(static S: RandomState = RandomState::new());
                S.with(|s| s.hash_one(k))
            };
            want!((h(&x.kind) == h(&z.kind)) == (x.kind == z.kind), "hashes of {:?} and {:?}", x.kind, z.kind);
            // tokens differ when any one field does
            let d = 1 + r.below(3);
            let mut w = x.clone();
            match r.below(7) {
                0 => w.position.row += d,
                1 => w.position.column += d,
                2 => w.position.byte_index += d,
                3 => w.range.end += d,
                4 => w.range.start = w.range.start.wrapping_sub(d),
                5 => w.escaped = !w.escaped,
                _ => w.kind = if x.kind == z.kind { continue } else { z.kind.clone() },
            }
            want!(w != *x && *x != w && !(w == *x), "{w:?} equals {x:?}");
            want!((w.position == x.position) == (format!("{:?}", w.position) == format!("{:?}", x.position)), "{:?} == {:?}", w.position, x.position);
            want!(format!("{w:?}") != format!("{x:?}"), "the debug output of {w:?} and {x:?}");
        }
        n += 24;
    }
    Ok(Obs { sig: mix(tree_sig(&y) ^ 29), nontrivial: !y.body.is_empty(), events: n })
}

// ------------------------------------------------------------------ C30

const HOSTILE: [&str; 40] = [
    "x", " ", "\n", "\n\n", "\r\n", "a\nb", "\\", "# ", "- ", "+ ", " - ", "-----", "---", "!", "!! a", "!!", "> ", "![", "](", ")", "[a](b)", "(", "]", "|", "}}", "{{",
    "{%", "%}", "\n%}", "```", "\n```", "`", "*", "**", "_", "~~", "a\n- b", "\n!!\n", "é漢😀", "---\nm\n---\n",
];

/// some text: hostile, or a piece of the document itself
fn stuff(s: &str, r: &mut Rng) -> String {
    let mut o = String::new();
    for _ in 0..1 + r.below(3) {
        match r.below(5) {
            0 | 1 => o.push_str(r.pick(&HOSTILE)),
            2 if !s.is_empty() => {
                let c: Vec<char> = s.chars().take(4000).collect();
                let i = r.below(c.len());
                o.extend(&c[i..(i + 1 + r.below(12)).min(c.len())]);
            }
            _ => o.push_str(r.pick(&["word", "two words", "a", "Z9"])),
        }
    }
    o
}

fn lists_of<'a>(b: &'a [YamdNodes], o: &mut Vec<&'a List>) {
    for x in b {
        match x {
            YamdNodes::List(l) => o.push(l),
            YamdNodes::Collapsible(c) => lists_of(&c.body, o),
            _ => {}
        }
    }
}

/// what an editor does to a loaded document
fn edit(y: &mut Yamd, s: &str, r: &mut Rng) {
    /// the blocks of some container of the document
    fn some_body<'a>(b: &'a mut Vec<YamdNodes>, r: &mut Rng) -> &'a mut Vec<YamdNodes> {
        let cs: Vec<usize> = b.iter().enumerate().filter(|(_, n)| matches!(n, YamdNodes::Collapsible(_))).map(|x| x.0).collect();
        if !cs.is_empty() && r.chance(2, 3) {
            let k = *r.pick(&cs);
            if let YamdNodes::Collapsible(c) = &mut b[k] {
                return some_body(&mut c.body, r);
            }
            unreachable!()
        }
        b
    }
    fn attr(b: &mut Vec<YamdNodes>, s: &str, r: &mut Rng, ls: &[List]) {
        for x in b {
            if r.chance(1, 2) {
                continue;
            }
            match x {
                YamdNodes::Heading(h) => h.level = 1 + r.below(6) as u8,
                YamdNodes::List(l) => list(l, r, ls),
                YamdNodes::Highlight(h) => match r.below(5) {
                    0 => h.title = Some(stuff(s, r)),
                    1 => h.icon = Some(stuff(s, r)),
                    2 => h.title = None,
                    3 => h.icon = None,
                    _ => {
                        let p = Paragraph::new(vec![stuff(s, r).into()]);
                        let k = r.below(h.body.len() + 1);
                        h.body.insert(k, p)
                    }
                },
                YamdNodes::Images(i) => i.body.push(Image::new(stuff(s, r), stuff(s, r))),
                YamdNodes::Paragraph(p) => {
                    let t = stuff(s, r);
                    let n: ParagraphNodes = match r.below(8) {
                        0 => Italic::new(t).into(),
                        1 => Bold::new(vec![t.into(), Italic::new("i").into()]).into(),
                        2 => Emphasis::new(t).into(),
                        3 => Strikethrough::new(t).into(),
                        4 => CodeSpan::new(t).into(),
                        5 => Anchor::new(t, stuff(s, r)).into(),
                        _ => t.into(),
                    };
                    let k = r.below(p.body.len() + 1);
                    if r.chance(1, 4) && k < p.body.len() {
                        p.body[k] = n
                    } else {
                        p.body.insert(k, n)
                    }
                }
                YamdNodes::Collapsible(c) => attr(&mut c.body, s, r, ls),
                _ => {}
            }
        }
    }
    fn list(l: &mut List, r: &mut Rng, ls: &[List]) {
        if r.chance(1, 3) {
            l.list_type = if r.chance(1, 2) { ListTypes::Ordered } else { ListTypes::Unordered }
        }
        match r.below(6) {
            0 => l.body.reverse(),
            1 if l.body.len() > 1 => {
                let k = r.below(l.body.len());
                l.body.remove(k);
            }
            2 if !l.body.is_empty() => {
                let k = r.below(l.body.len());
                l.body[k].nested_list = if r.chance(1, 4) || ls.is_empty() { None } else { Some(r.pick(ls).clone()) };
            }
            _ => {}
        }
        for i in &mut l.body {
            if let Some(n) = &mut i.nested_list {
                if r.chance(1, 2) {
                    list(n, r, ls)
                }
            }
        }
    }
    let mut n = 0;
    each(y, &mut |_, _| n += 1);
    match r.below(10) {
        0..=3 if n > 0 => {
            let k = r.below(n);
            let t = stuff(s, r);
            let how = r.below(4);
            let mut i = 0;
            each_mut(y, &mut |_, x| {
                if i == k {
                    match how {
                        0 => *x = t.clone(),
                        1 => x.push_str(&t),
                        2 => x.insert_str(0, &t),
                        _ => {
                            let mid = x.char_indices().nth(x.chars().count() / 2).map_or(0, |x| x.0);
                            x.insert_str(mid, &t)
                        }
                    }
                }
                i += 1;
            })
        }
        4 => {
            // a block moves to another place
            let b = some_body(&mut y.body, r);
            if !b.is_empty() {
                let k = r.below(b.len());
                let x = if r.chance(1, 2) { b.remove(k) } else { b[k].clone() };
                let b = some_body(&mut y.body, r);
                let k = r.below(b.len() + 1);
                b.insert(k, x)
            }
        }
        5 => {
            let t = stuff(s, r);
            let b = some_body(&mut y.body, r);
            let i = r.below(b.len() + 1);
            let j = i + r.below(b.len() - i + 1);
            let x: Vec<_> = b.drain(i..j).collect();
            b.insert(i, Collapsible::new(t, x).into())
        }
        6 => {
            let t = stuff(s, r);
            let n: YamdNodes = match r.below(8) {
                0 => Heading::new(1 + r.below(6) as u8, vec![t.into()]).into(),
                1 => Code::new(stuff(s, r), t).into(),
                2 => Embed::new(stuff(s, r), t).into(),
                3 => Image::new(stuff(s, r), t).into(),
                4 => ThematicBreak::new().into(),
                5 => List::new(ListTypes::Unordered, 0, vec![ListItem::new(vec![t.into()], None)]).into(),
                6 => Highlight::new(Some(stuff(s, r)), None::<String>, vec![Paragraph::new(vec![t.into()])]).into(),
                _ => Paragraph::new(vec![t.into()]).into(),
            };
            let b = some_body(&mut y.body, r);
            let k = r.below(b.len() + 1);
            b.insert(k, n)
        }
        7 => y.metadata = if r.chance(1, 4) { None } else { Some(stuff(s, r)) },
        _ => {
            let mut ls = vec![];
            lists_of(&y.body, &mut ls);
            let ls: Vec<List> = ls.into_iter().filter(|l| l.body.len() < 20).take(3).cloned().collect();
            attr(&mut y.body, s, r, &ls)
        }
    }
    crate::tree::normalize(y, crate::tree::Style::Dirty);
}

pub fn c30(c: &Case) -> Verdict {
    let s = c.text.as_str();
    let mut r = Rng::new(c.aux ^ 30);
    let mut y = yamd::deserialize(s);
    crate::tree::normalize(&mut y, crate::tree::Style::Dirty);
    let mut sig = 30;
    let mut n = 0;
    for round in 0..3 {
        for _ in 0..1 + r.below(2) {
            edit(&mut y, s, &mut r)
        }
        let t = y.to_string();
        if !crate::gen::affordable(&t) || t.len() > 40_000 {
            break;
        }
        let z = yamd::deserialize(&t);
        want!(y == z, "round {round}: the edited document {} is saved as {t:?} and loaded as {}", short(&y), short(&z));
        sig = mix(sig ^ tree_sig(&z));
        n += 1;
        y = z;
    }
    Ok(Obs { sig, nontrivial: n > 0 && !y.body.is_empty(), events: n })
}
