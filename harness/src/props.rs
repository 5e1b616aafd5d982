//! The monitors: one deterministic oracle per property over one observed execution.
use crate::model_lex::{brk, lex};
use crate::model_parse::parse_tree;
use crate::rng::{hash_bytes, mix, Rng};
use crate::tree::{self, canon};
use crate::treeio::{each, each_block, F};
use yamd::lexer::{Lexer, Token, TokenKind as K};
use yamd::nodes::*;
use yamd::op::{Content, Node, Op, OpKind};

pub struct Case {
    pub text: String,
    pub tree: Option<Yamd>,
    pub aux: u64,
}

/// What one execution showed: a signature of its shape, whether it is non-trivial for the property,
/// and how many events the monitor judged.
pub struct Obs {
    pub sig: u64,
    pub nontrivial: bool,
    pub events: u64,
}
pub type Verdict = Result<Obs, String>;

fn obs(sig: u64, nontrivial: bool, events: usize) -> Verdict {
    Ok(Obs { sig, nontrivial, events: events as u64 })
}

macro_rules! bail {
    ($($x:tt)*) => { return Err(format!($($x)*)) };
}
macro_rules! want {
    ($c:expr, $($x:tt)*) => { if !($c) { return Err(format!($($x)*)) } };
}

fn tokens(s: &str) -> Vec<Token> {
    Lexer::new(s).collect()
}

fn kinds_sig<'a>(t: impl Iterator<Item = &'a K>) -> u64 {
    let mut h = 7u64;
    for k in t {
        h = mix(h ^ (k_id(k) as u64 + 1));
    }
    h
}

pub fn k_id(k: &K) -> u8 {
    match k {
        K::CollapsibleStart => 1,
        K::CollapsibleEnd => 2,
        K::LeftCurlyBrace => 3,
        K::RightCurlyBrace => 4,
        K::Terminator => 5,
        K::Eol => 6,
        K::Tilde => 7,
        K::Star => 8,
        K::Minus => 9,
        K::Hash => 10,
        K::GreaterThan => 11,
        K::Bang => 12,
        K::Backtick => 13,
        K::Plus => 14,
        K::LeftSquareBracket => 15,
        K::RightSquareBracket => 16,
        K::LeftParenthesis => 17,
        K::RightParenthesis => 18,
        K::Underscore => 19,
        K::Pipe => 20,
        K::Space => 21,
        K::Literal => 22,
        #[allow(unreachable_patterns)]
        _ => 23,
    }
}

pub fn node_id(n: &Node) -> u8 {
    match n {
        Node::Anchor => 1,
        Node::Bold => 2,
        Node::Code => 3,
        Node::CodeSpan => 4,
        Node::Collapsible => 5,
        Node::Destination => 6,
        Node::Document => 7,
        Node::Embed => 8,
        Node::Emphasis => 9,
        Node::Heading => 10,
        Node::Highlight => 11,
        Node::Icon => 12,
        Node::Image => 13,
        Node::Images => 14,
        Node::Italic => 15,
        Node::ListItem => 16,
        Node::Modifier => 17,
        Node::Metadata => 18,
        Node::OrderedList => 19,
        Node::Paragraph => 20,
        Node::Strikethrough => 21,
        Node::ThematicBreak => 22,
        Node::Title => 23,
        Node::UnorderedList => 24,
        #[allow(unreachable_patterns)]
        _ => 25,
    }
}

pub fn ops_sig(ops: &[Op]) -> u64 {
    let mut h = 3u64;
    for o in ops {
        let v = match &o.kind {
            OpKind::Start(n) => 64 + node_id(n) as u64,
            OpKind::End(n) => 128 + node_id(n) as u64,
            OpKind::Value => 1,
        };
        h = mix(h ^ v);
    }
    h
}

/// shape of a tree: node kinds and nesting, not texts
pub fn tree_sig(y: &Yamd) -> u64 {
    let mut h = if y.metadata.is_some() { 5 } else { 6 };
    sig_blocks(&y.body, &mut h);
    h
}
fn m(h: &mut u64, v: u64) {
    *h = mix(*h ^ v)
}
fn sig_inl(b: &[ParagraphNodes], h: &mut u64) {
    m(h, 900);
    for x in b {
        match x {
            ParagraphNodes::Anchor(_) => m(h, 11),
            ParagraphNodes::Bold(b) => {
                m(h, 12);
                for y in &b.body {
                    m(h, match y {
                        BoldNodes::Italic(_) => 13,
                        BoldNodes::Strikethrough(_) => 14,
                        BoldNodes::Text(_) => 15,
                    })
                }
            }
            ParagraphNodes::Italic(_) => m(h, 16),
            ParagraphNodes::Strikethrough(_) => m(h, 17),
            ParagraphNodes::Text(_) => m(h, 18),
            ParagraphNodes::CodeSpan(_) => m(h, 19),
            ParagraphNodes::Emphasis(_) => m(h, 20),
        }
    }
    m(h, 901);
}
fn sig_list(l: &List, h: &mut u64) {
    m(h, if l.list_type == ListTypes::Ordered { 30 } else { 31 });
    for i in &l.body {
        sig_inl(&i.text, h);
        if let Some(n) = &i.nested_list {
            sig_list(n, h)
        }
    }
    m(h, 32);
}
fn sig_blocks(b: &[YamdNodes], h: &mut u64) {
    for x in b {
        match x {
            YamdNodes::Paragraph(p) => sig_inl(&p.body, h),
            YamdNodes::Heading(x) => {
                m(h, 40 + x.level as u64);
                for y in &x.body {
                    m(h, matches!(y, HeadingNodes::Anchor(_)) as u64)
                }
            }
            YamdNodes::Image(_) => m(h, 50),
            YamdNodes::Images(i) => m(h, 51 + 100 * i.body.len() as u64),
            YamdNodes::Code(c) => m(h, 52 + c.lang.is_empty() as u64),
            YamdNodes::List(l) => sig_list(l, h),
            YamdNodes::Highlight(x) => {
                m(h, 55 + x.title.is_some() as u64 + 2 * x.icon.is_some() as u64);
                for p in &x.body {
                    sig_inl(&p.body, h)
                }
            }
            YamdNodes::ThematicBreak(_) => m(h, 60),
            YamdNodes::Embed(_) => m(h, 61),
            YamdNodes::Collapsible(c) => {
                m(h, 62 + c.title.is_empty() as u64);
                sig_blocks(&c.body, h);
                m(h, 64);
            }
        }
    }
}

/// Source with escaping backslashes removed: (text, source offset of every byte, end offset, escaped).
struct Plain {
    text: String,
    src_at: Vec<usize>,
    esc: Vec<bool>,
}
fn unescape(s: &str) -> Plain {
    let mut p = Plain { text: String::with_capacity(s.len()), src_at: vec![], esc: vec![] };
    let mut it = s.char_indices();
    while let Some((i, c)) = it.next() {
        let (i, c, e) = if c == '\\' {
            match it.next() {
                Some((j, d)) => (j, d, true),
                None => break,
            }
        } else {
            (i, c, false)
        };
        for k in 0..c.len_utf8() {
            p.src_at.push(i + k);
            p.esc.push(e);
        }
        p.text.push(c);
    }
    p
}

fn short(s: &str) -> String {
    if s.len() > 300 {
        let mut k = 300;
        while !s.is_char_boundary(k) {
            k -= 1
        }
        format!("{:?}…({} bytes)", &s[..k], s.len())
    } else {
        format!("{s:?}")
    }
}
fn dbg<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    if s.len() > 1500 {
        let mut k = 1500;
        while !s.is_char_boundary(k) {
            k -= 1
        }
        format!("{}…", &s[..k])
    } else {
        s
    }
}

// ------------------------------------------------------------------ C01

pub fn c01(c: &Case) -> Verdict {
    if let Some(y) = &c.tree {
        // a tree made by hand is printed, compared, copied and dropped without trouble
        let p = y.to_string();
        let z = y.clone();
        want!(z == *y, "a tree is not equal to its clone");
        std::hint::black_box(format!("{z:?}").len());
        drop(z);
        std::hint::black_box(yamd::deserialize(&p).body.len());
        return obs(hash_bytes(p.as_bytes()), true, p.len());
    }
    let s = c.text.as_str();
    let mut n = 0usize;
    for t in Lexer::new(s) {
        n += 1 + (t.range.end > s.len()) as usize;
    }
    let ops = yamd::parse(s);
    let y = yamd::to_yamd(&ops, s);
    let z = yamd::try_to_yamd(&ops, s);
    want!(z.is_ok(), "parse() result rejected by try_to_yamd");
    for o in &ops {
        std::hint::black_box(o.content.as_str(s).len() + o.content.to_string(s).len());
        std::hint::black_box(o.content.is_empty());
    }
    let d = yamd::deserialize(s);
    let p = y.to_string();
    for b in &y.body {
        std::hint::black_box(b.to_string());
    }
    std::hint::black_box(format!("{d:?}").len());
    std::hint::black_box(format!("{ops:?}").len());
    let again = yamd::deserialize(&p).to_string();
    std::hint::black_box(again.len());
    let c2 = y.clone();
    std::hint::black_box(c2 == y);
    obs(ops_sig(&ops), ops.len() > 4, n + ops.len())
}

// ------------------------------------------------------------------ C02

/// every way to consume the token stream gives the same tokens
fn stream(s: &str, all: &[yamd::lexer::Token]) -> Result<(), String> {
    let n = all.len();
    want!(Lexer::new(s).count() == n, "count() gives {}, there are {n} tokens", Lexer::new(s).count());
    want!(Lexer::new(s).last().as_ref() == all.last(), "last() gives {:?}", Lexer::new(s).last());
    let mut h = hash_bytes(s.as_bytes());
    let mut lx = Lexer::new(s);
    let mut at = 0;
    loop {
        let (lo, hi) = lx.size_hint();
        want!(lo <= n - at && hi.map_or(true, |h| h >= n - at), "after {at} of {n} tokens size_hint() is {lo}..{hi:?}");
        h = mix(h);
        let k = (h % 4) as usize;
        let t = if k == 0 { lx.next() } else { lx.nth(k - 1) };
        let k = k.max(1) - 1;
        want!(t.as_ref() == all.get(at + k), "{} after {at} tokens gives {t:?} instead of {:?}", if k == 0 { "next()".into() } else { format!("nth({k})") }, all.get(at + k));
        at = (at + k + 1).min(n);
        if t.is_none() {
            break;
        }
    }
    let k = (mix(h) % (n as u64 + 2)) as usize;
    let mut lx = Lexer::new(s);
    let a: Vec<_> = lx.by_ref().take(k).collect();
    let b: Vec<_> = lx.collect();
    want!(a.iter().chain(&b).eq(all), "tokens taken in two parts at {k} differ");
    want!(Lexer::new(s).skip(k).eq(all.iter().skip(k).cloned()), "skip({k}) differs");
    want!(Lexer::new(s).step_by(2).eq(all.iter().step_by(2).cloned()), "step_by(2) differs");
    let mut v = vec![];
    Lexer::new(s).for_each(|t| v.push(t));
    want!(v == all, "for_each differs");
    let f = Lexer::new(s).fold(0, |a, t| a + t.range.len());
    want!(f == all.iter().map(|t| t.range.len()).sum::<usize>(), "fold differs");
    let x = all.get(k).map(|t| t.range.start);
    want!(Lexer::new(s).position(|t| Some(t.range.start) == x) == x.map(|_| k), "position() differs");
    Ok(())
}

pub fn c02(c: &Case) -> Verdict {
    let s = c.text.as_str();
    let mut lx = Lexer::new(s);
    let mut at = 0;
    let mut n = 0;
    let mut esc = 0;
    let mut h = 1u64;
    for t in lx.by_ref() {
        let (a, b) = (t.range.start, t.range.end);
        want!(a < b, "token {n} is empty: {t:?}");
        want!(a >= at, "token {n} overlaps or precedes the token before it: {t:?}, previous end {at}");
        want!(b <= s.len(), "token {n} ends beyond the text: {t:?}");
        want!(s.is_char_boundary(a) && s.is_char_boundary(b), "token {n} cuts a character: {t:?}");
        let gap = &s[at..a];
        want!(gap.is_empty() || gap == "\\", "bytes {} before token {n} {t:?} are in no token", short(gap));
        if gap == "\\" {
            esc += 1;
        }
        h = mix(h ^ (k_id(&t.kind) as u64) ^ ((gap.len() as u64) << 8));
        at = b;
        n += 1;
        want!(n <= s.len(), "more tokens than bytes");
    }
    want!(&s[at..] == "" || &s[at..] == "\\", "the last bytes {} are in no token", short(&s[at..]));
    // every backslash outside the tokens escapes what follows, every other backslash was escaped
    let b = s.as_bytes();
    let mut i = 0;
    let mut expect = vec![];
    while i < b.len() {
        if b[i] == b'\\' {
            expect.push(i);
            i += 1;
        }
        i += 1;
    }
    let mut gaps = vec![];
    let mut at = 0;
    for t in tokens(s) {
        if t.range.start > at {
            gaps.push(at)
        }
        at = t.range.end;
    }
    if at < s.len() {
        gaps.push(at)
    }
    want!(gaps == expect, "bytes outside the tokens {gaps:?}, escaping backslashes {expect:?}");
    if s.len() <= 3000 {
        stream(s, &tokens(s))?;
    }
    for k in 0..4 {
        want!(lx.next().is_none(), "the exhausted token stream produced another token (call {k})");
    }
    obs(h, n > 2, n + esc)
}

// ------------------------------------------------------------------ C03

pub fn c03(c: &Case) -> Verdict {
    let s = c.text.as_str();
    let got = tokens(s);
    let exp = lex(s);
    for (i, (g, e)) in got.iter().zip(&exp).enumerate() {
        if g.kind != e.kind || g.range != (e.start..e.end) || g.escaped != e.escaped {
            bail!("token {i}: got {g:?} {}, expected {e:?}", short(s.get(g.range.clone()).unwrap_or("<bad range>")));
        }
    }
    want!(got.len() == exp.len(), "{} tokens, expected {}: {:?} / {:?}", got.len(), exp.len(), got.last(), exp.last());
    obs(kinds_sig(got.iter().map(|t| &t.kind)), got.len() > 2, got.len())
}

// ------------------------------------------------------------------ C04

pub fn c04(c: &Case) -> Verdict {
    let s = c.text.as_str();
    // (row, column) of every character offset, and of the end
    let b = s.as_bytes();
    let mut pos = vec![(0usize, 0usize); s.len() + 1];
    let (mut row, mut col, mut i) = (0, 0, 0);
    while i < s.len() {
        pos[i] = (row, col);
        let w = brk(b, i);
        if w > 0 {
            for k in 1..w {
                pos[i + k] = (row, col + k);
            }
            row += 1;
            col = 0;
            i += w;
            continue;
        }
        if b[i] == b'\\' && i + 1 < s.len() {
            // the backslash counts for nothing; the character after it is plain text
            i += 1;
            pos[i] = (row, col);
        }
        i += s[i..].chars().next().unwrap().len_utf8();
        col += 1;
    }
    let mut n = 0;
    let mut h = 1u64;
    for t in Lexer::new(s) {
        let p = &t.position;
        let a = t.range.start;
        want!(p.byte_index == a, "token {n} {t:?} starts at byte {a} but reports {}", p.byte_index);
        want!(a < pos.len() && s.is_char_boundary(a), "token {n} {t:?} does not start at a character");
        let (r, k) = pos[a];
        want!(p.row == r && p.column == k, "token {n} {t:?}: reports row {} column {}, is at row {r} column {k}", p.row, p.column);
        h = mix(h ^ ((p.row as u64) << 32) ^ p.column as u64 ^ ((k_id(&t.kind) as u64) << 56));
        n += 1;
    }
    obs(h, n > 2, n)
}

// ------------------------------------------------------------------ C05

fn is_block(n: &Node) -> bool {
    matches!(
        n,
        Node::Paragraph | Node::Heading | Node::Image | Node::Images | Node::Code | Node::OrderedList | Node::UnorderedList
            | Node::Highlight | Node::ThematicBreak | Node::Embed | Node::Collapsible
    )
}

enum Ev<'a> {
    Val,
    Child(&'a Node),
}

fn children_ok(node: &Node, ch: &[Ev], top: bool) -> Result<(), String> {
    use Node as N;
    let names: Vec<String> = ch
        .iter()
        .map(|e| match e {
            Ev::Val => "Value".to_string(),
            Ev::Child(n) => format!("{n:?}"),
        })
        .collect();
    let only = |val: bool, allowed: &[Node]| {
        ch.iter().all(|e| match e {
            Ev::Val => val,
            Ev::Child(n) => allowed.contains(n),
        })
    };
    let seq = |x: &[&str]| names.iter().map(|s| s.as_str()).eq(x.iter().copied());
    let no_adjacent_values = || !ch.windows(2).any(|w| matches!(w, [Ev::Val, Ev::Val]));
    let ok = match node {
        N::Document => ch.iter().all(|e| match e {
            Ev::Val => true,
            Ev::Child(n) => is_block(n),
        }),
        N::Paragraph => {
            only(true, &[N::Bold, N::Italic, N::Strikethrough, N::Anchor, N::CodeSpan, N::Emphasis]) && no_adjacent_values()
        }
        N::Bold => only(true, &[N::Italic, N::Strikethrough]) && no_adjacent_values(),
        N::Heading => only(true, &[N::Anchor]) && no_adjacent_values(),
        N::Anchor | N::Image => seq(&["Title", "Destination"]),
        N::Images => only(false, &[N::Image]) && ch.len() >= 2,
        N::Code => seq(&["Modifier", "Value"]) || seq(&["Value"]),
        N::Embed => seq(&["Value", "Value", "Value"]),
        N::Highlight => {
            let mut i = 0;
            if matches!(ch.get(i), Some(Ev::Child(N::Modifier))) {
                i += 1
            }
            if matches!(ch.get(i), Some(Ev::Child(N::Icon))) {
                i += 1
            }
            ch[i..].iter().all(|e| matches!(e, Ev::Val | Ev::Child(N::Paragraph)))
        }
        N::Collapsible => seq(&["Modifier", "Document"]) || seq(&["Document"]),
        N::OrderedList | N::UnorderedList => only(false, &[N::ListItem]) && !ch.is_empty(),
        N::ListItem => {
            seq(&["Paragraph"]) || seq(&["Paragraph", "OrderedList"]) || seq(&["Paragraph", "UnorderedList"])
        }
        N::Italic | N::Strikethrough | N::CodeSpan | N::Emphasis | N::Title | N::Destination | N::Modifier | N::Icon
        | N::Metadata | N::ThematicBreak => seq(&["Value"]),
        #[allow(unreachable_patterns)]
        _ => true,
    };
    let _ = top;
    if ok {
        Ok(())
    } else {
        Err(format!("{node:?} contains {names:?}"))
    }
}

pub fn c05(c: &Case) -> Verdict {
    let s = c.text.as_str();
    let ops = yamd::parse(s);
    let mut stack: Vec<(&Node, Vec<Ev>)> = vec![];
    let mut roots: Vec<&Node> = vec![];
    let mut depth = 0;
    for (i, o) in ops.iter().enumerate() {
        match &o.kind {
            OpKind::Start(n) => {
                match stack.last_mut() {
                    Some(p) => p.1.push(Ev::Child(n)),
                    None => roots.push(n),
                }
                stack.push((n, vec![]));
                depth = depth.max(stack.len());
            }
            OpKind::Value => match stack.last_mut() {
                Some(p) => p.1.push(Ev::Val),
                None => bail!("event {i} is a value outside the document"),
            },
            OpKind::End(n) => {
                let Some((top, ch)) = stack.pop() else { bail!("event {i} ends {n:?} but nothing is open") };
                want!(top == n, "event {i} ends {n:?} but {top:?} is open");
                if let Err(e) = children_ok(n, &ch, stack.is_empty()) {
                    bail!("event {i}: {e}")
                }
            }
        }
    }
    want!(stack.is_empty(), "{} nodes are never ended", stack.len());
    want!(
        matches!(roots[..], [Node::Document] | [Node::Metadata, Node::Document]),
        "the stream consists of {roots:?}"
    );
    obs(ops_sig(&ops), depth > 2, ops.len())
}

// ------------------------------------------------------------------ C06 / C07

pub fn c06(c: &Case) -> Verdict {
    let s = c.text.as_str();
    let ops = yamd::parse(s);
    let p = unescape(s);
    let mut at = 0;
    for (i, o) in ops.iter().enumerate() {
        let Some(t) = content(&o.content, s) else { bail!("event {i} {o:?} has an invalid range") };
        if matches!(o.kind, OpKind::End(Node::Collapsible)) && !p.text[at..].starts_with(t) {
            at += skip_brk(&p, at);
        }
        if !p.text[at..].starts_with(t) {
            bail!("event {i} {o:?} carries {} where the source continues with {}", short(t), short(&p.text[at..]));
        }
        at += t.len();
    }
    want!(at == p.text.len(), "the source text {} is in no event", short(&p.text[at..]));
    obs(ops_sig(&ops), ops.len() > 4, ops.len())
}

pub fn content<'a>(c: &'a Content, s: &'a str) -> Option<&'a str> {
    match c {
        Content::Span(r) if r.is_empty() => Some(""),
        Content::Span(r) => s.get(r.clone()),
        Content::Materialized(t) => Some(t),
    }
}
/// length of an unescaped line break at `at`
fn skip_brk(p: &Plain, at: usize) -> usize {
    if p.esc.get(at) == Some(&true) {
        return 0;
    }
    let w = brk(p.text.as_bytes(), at);
    if w == 2 && p.esc[at + 1] {
        0
    } else {
        w
    }
}

pub fn c07(c: &Case) -> Verdict {
    let s = c.text.as_str();
    let ops = yamd::parse(s);
    let p = unescape(s);
    let mut at = 0;
    let mut owned = 0;
    for (i, o) in ops.iter().enumerate() {
        let Some(t) = content(&o.content, s) else { bail!("event {i} {o:?} is not a range of the source on character boundaries") };
        if t != o.content.as_str(s) || t != o.content.to_string(s) || t.is_empty() != o.content.is_empty() {
            bail!("event {i} {o:?} does not resolve to its content");
        }
        if t.is_empty() {
            match &o.content {
                Content::Span(r) => want!(r.start <= s.len() && r.end <= s.len(), "event {i} {o:?}: empty range outside the source"),
                Content::Materialized(_) => bail!("event {i} {o:?}: empty text is owned"),
            }
            continue;
        }
        if matches!(o.kind, OpKind::End(Node::Collapsible)) && !p.text[at..].starts_with(t) {
            at += skip_brk(&p, at);
        }
        if !p.text[at..].starts_with(t) {
            bail!("event {i} {o:?} resolves to {}, the source continues with {}", short(t), short(&p.text[at..]));
        }
        let (a, b) = (p.src_at[at], p.src_at[at + t.len() - 1] + 1);
        let contiguous = b - a == t.len();
        match &o.content {
            Content::Span(r) => {
                want!(contiguous, "event {i} {o:?} is a range although backslashes have to be removed from {}", short(&s[a..b]));
                want!(*r == (a..b), "event {i} {o:?} names range {r:?}, its text is at {a}..{b}");
            }
            Content::Materialized(_) => {
                owned += 1;
                want!(!contiguous, "event {i} {o:?} is owned although the source has it contiguously at {a}..{b}");
            }
        }
        at += t.len();
    }
    obs(mix(ops_sig(&ops) ^ owned), ops.len() > 4, ops.len())
}

// ------------------------------------------------------------------ C08

/// The tree an event stream denotes, by recursive descent over the events.
struct Fold<'a> {
    ops: &'a [Op],
    src: &'a str,
    i: usize,
}
impl<'a> Fold<'a> {
    fn text(&self, c: &Content) -> String {
        content(c, self.src).unwrap_or("").to_string()
    }
    /// text of a node that holds values only; cursor after its end
    fn leaf(&mut self) -> String {
        let mut t = String::new();
        self.i += 1;
        while let OpKind::Value = self.ops[self.i].kind {
            t += &self.text(&self.ops[self.i].content);
            self.i += 1;
        }
        self.i += 1;
        t
    }
    fn pair(&mut self) -> (String, String) {
        self.i += 1;
        let a = self.leaf();
        let b = self.leaf();
        self.i += 1;
        (a, b)
    }
    fn inl(&mut self) -> Vec<ParagraphNodes> {
        use ParagraphNodes as P;
        let mut v = vec![];
        self.i += 1;
        loop {
            let o = &self.ops[self.i];
            match &o.kind {
                OpKind::Value => {
                    v.push(P::Text(self.text(&o.content)));
                    self.i += 1
                }
                OpKind::Start(Node::Italic) => v.push(P::Italic(Italic(self.leaf()))),
                OpKind::Start(Node::Strikethrough) => v.push(P::Strikethrough(Strikethrough(self.leaf()))),
                OpKind::Start(Node::CodeSpan) => v.push(P::CodeSpan(CodeSpan(self.leaf()))),
                OpKind::Start(Node::Emphasis) => v.push(P::Emphasis(Emphasis(self.leaf()))),
                OpKind::Start(Node::Anchor) => {
                    let (text, url) = self.pair();
                    v.push(P::Anchor(Anchor { text, url }))
                }
                OpKind::Start(_) => {
                    let mut body = vec![];
                    self.i += 1;
                    loop {
                        let o = &self.ops[self.i];
                        match &o.kind {
                            OpKind::Value => {
                                body.push(BoldNodes::Text(self.text(&o.content)));
                                self.i += 1
                            }
                            OpKind::Start(Node::Italic) => body.push(BoldNodes::Italic(Italic(self.leaf()))),
                            OpKind::Start(_) => body.push(BoldNodes::Strikethrough(Strikethrough(self.leaf()))),
                            OpKind::End(_) => break,
                        }
                    }
                    self.i += 1;
                    v.push(P::Bold(Bold { body }));
                }
                OpKind::End(_) => break,
            }
        }
        self.i += 1;
        v
    }
    fn trimmed(&mut self) -> Vec<ParagraphNodes> {
        let mut v = self.inl();
        if let Some(ParagraphNodes::Text(t)) = v.last_mut() {
            let k = t.trim_end_matches(['\n', '\r']).len();
            t.truncate(k);
            if t.is_empty() {
                v.pop();
            }
        }
        v
    }
    fn list(&mut self, level: usize) -> List {
        let list_type = if let OpKind::Start(Node::OrderedList) = self.ops[self.i].kind { ListTypes::Ordered } else { ListTypes::Unordered };
        self.i += 1;
        let mut body = vec![];
        while let OpKind::Start(_) = self.ops[self.i].kind {
            self.i += 1;
            let text = self.trimmed();
            let nested_list = if let OpKind::Start(_) = self.ops[self.i].kind { Some(self.list(level + 1)) } else { None };
            self.i += 1;
            body.push(ListItem { text, nested_list });
        }
        self.i += 1;
        List { list_type, level, body }
    }
    fn blocks(&mut self) -> Vec<YamdNodes> {
        let mut v: Vec<YamdNodes> = vec![];
        self.i += 1;
        loop {
            let o = &self.ops[self.i];
            let node = match &o.kind {
                OpKind::End(_) => break,
                OpKind::Value => {
                    self.i += 1;
                    continue;
                }
                OpKind::Start(n) => n,
            };
            match node {
                Node::Paragraph => v.push(Paragraph { body: self.inl() }.into()),
                Node::Heading => {
                    let level = self.text(&o.content).chars().filter(|&c| c == '#').count() as u8;
                    let body = self
                        .inl()
                        .into_iter()
                        .map(|x| match x {
                            ParagraphNodes::Anchor(a) => HeadingNodes::Anchor(a),
                            ParagraphNodes::Text(t) => HeadingNodes::Text(t),
                            _ => HeadingNodes::Text("?".into()),
                        })
                        .collect();
                    v.push(Heading { level, body }.into())
                }
                Node::Image => {
                    let (alt, src) = self.pair();
                    v.push(Image { alt, src }.into())
                }
                Node::Images => {
                    self.i += 1;
                    let mut body = vec![];
                    while let OpKind::Start(_) = self.ops[self.i].kind {
                        let (alt, src) = self.pair();
                        body.push(Image { alt, src })
                    }
                    self.i += 1;
                    v.push(Images { body }.into())
                }
                Node::Code => {
                    self.i += 1;
                    let lang = if let OpKind::Start(_) = self.ops[self.i].kind { self.leaf() } else { String::new() };
                    self.i -= 1;
                    let code = self.leaf().trim_end_matches(['\n', '\r']).to_string();
                    v.push(Code { lang, code }.into())
                }
                Node::Embed => {
                    let kind = self.text(&self.ops[self.i + 1].content);
                    let args = self.text(&self.ops[self.i + 3].content);
                    self.i += 5;
                    v.push(Embed { kind, args }.into())
                }
                Node::ThematicBreak => {
                    self.leaf();
                    v.push(ThematicBreak {}.into())
                }
                Node::OrderedList | Node::UnorderedList => v.push(self.list(0).into()),
                Node::Collapsible => {
                    self.i += 1;
                    let title = if let OpKind::Start(Node::Modifier) = self.ops[self.i].kind { self.leaf() } else { String::new() };
                    let body = self.blocks();
                    self.i += 1;
                    v.push(Collapsible { title, body }.into())
                }
                _ => {
                    // highlight
                    self.i += 1;
                    let mut h = Highlight { title: None, icon: None, body: vec![] };
                    loop {
                        match self.ops[self.i].kind {
                            OpKind::End(_) => break,
                            OpKind::Value => self.i += 1,
                            OpKind::Start(Node::Modifier) => h.title = Some(self.leaf()),
                            OpKind::Start(Node::Icon) => h.icon = Some(self.leaf()),
                            OpKind::Start(_) => {
                                let body = self.trimmed();
                                if !body.is_empty() {
                                    h.body.push(Paragraph { body })
                                }
                            }
                        }
                    }
                    self.i += 1;
                    v.push(h.into())
                }
            }
        }
        self.i += 1;
        v
    }
}

pub fn fold(ops: &[Op], src: &str) -> Yamd {
    let mut f = Fold { ops, src, i: 0 };
    let mut y = Yamd { metadata: None, body: vec![] };
    if let Some(OpKind::Start(Node::Metadata)) = ops.first().map(|o| &o.kind) {
        y.metadata = Some(f.leaf().trim_matches(['\n', '\r']).to_string());
    }
    y.body = f.blocks();
    y
}

pub fn balanced(ops: &[Op]) -> bool {
    let mut st = vec![];
    for o in ops {
        match &o.kind {
            OpKind::Start(n) => st.push(n),
            OpKind::End(n) => {
                if st.pop() != Some(n) {
                    return false;
                }
            }
            OpKind::Value => {}
        }
    }
    st.is_empty()
}

fn all_nodes() -> Vec<Node> {
    use Node as N;
    vec![
        N::Anchor, N::Bold, N::Code, N::CodeSpan, N::Collapsible, N::Destination, N::Document, N::Embed, N::Emphasis, N::Heading,
        N::Highlight, N::Icon, N::Image, N::Images, N::Italic, N::ListItem, N::Modifier, N::Metadata, N::OrderedList, N::Paragraph,
        N::Strikethrough, N::ThematicBreak, N::Title, N::UnorderedList,
    ]
}
pub fn clone_node(n: &Node) -> Node {
    let id = node_id(n);
    all_nodes().into_iter().find(|m| node_id(m) == id).unwrap()
}
pub fn clone_op(o: &Op) -> Op {
    let kind = match &o.kind {
        OpKind::Start(n) => OpKind::Start(clone_node(n)),
        OpKind::End(n) => OpKind::End(clone_node(n)),
        OpKind::Value => OpKind::Value,
    };
    let content = match &o.content {
        Content::Span(r) => Content::Span(r.clone()),
        Content::Materialized(s) => Content::Materialized(s.clone()),
    };
    Op { kind, content }
}

fn mutate_ops(ops: &[Op], r: &mut Rng) -> Vec<Op> {
    let mut v: Vec<Op> = ops.iter().map(clone_op).collect();
    for _ in 0..1 + r.below(3) {
        let n = v.len();
        let i = r.below(n.max(1));
        match r.below(10) {
            0 | 1 if n > 0 => {
                v.remove(i);
            }
            2 if n > 0 => {
                let o = clone_op(&v[i]);
                let j = r.below(n + 1);
                v.insert(j, o)
            }
            3 if n > 1 => {
                let j = r.below(n);
                v.swap(i, j)
            }
            4 if n > 1 => {
                let j = (i + 1) % n;
                v.swap(i, j)
            }
            5 => v.truncate(i),
            6 if n > 0 => {
                let mut k = all_nodes();
                let node = k.swap_remove(r.below(k.len()));
                match &mut v[i].kind {
                    OpKind::Start(x) | OpKind::End(x) => *x = node,
                    k => *k = if r.chance(1, 2) { OpKind::Start(node) } else { OpKind::End(node) },
                }
            }
            7 => {
                v.drain(..i);
            }
            8 if n > 0 => {
                // change both ends of one node to another node
                let mut k = all_nodes();
                let node = k.swap_remove(r.below(k.len()));
                if let OpKind::Start(_) = v[i].kind {
                    let mut d = 0;
                    let mut end = None;
                    for (j, o) in v.iter().enumerate().skip(i) {
                        match o.kind {
                            OpKind::Start(_) => d += 1,
                            OpKind::End(_) => d -= 1,
                            _ => {}
                        }
                        if d == 0 {
                            end = Some(j);
                            break;
                        }
                    }
                    v[i].kind = OpKind::Start(clone_node(&node));
                    if let Some(j) = end {
                        v[j].kind = OpKind::End(node)
                    }
                }
            }
            _ => {
                let mut k = all_nodes();
                let node = k.swap_remove(r.below(k.len()));
                let kind = if r.chance(1, 2) { OpKind::Start(node) } else { OpKind::End(node) };
                v.insert(i.min(n), Op { kind, content: Content::Span(0..0) })
            }
        }
    }
    v
}

pub fn c08(c: &Case) -> Verdict {
    let s = c.text.as_str();
    let ops = yamd::parse(s);
    let d = yamd::deserialize(s);
    let y = yamd::to_yamd(&ops, s);
    want!(d == y, "deserialize gives {}, to_yamd of the events {}", dbg(&d), dbg(&y));
    match yamd::try_to_yamd(&ops, s) {
        Ok(t) => want!(t == y, "try_to_yamd gives {}, to_yamd {}", dbg(&t), dbg(&y)),
        Err(e) => bail!("try_to_yamd rejects the events of parse(): {e:?}"),
    }
    // The denotation is only defined on a well-formed stream (C05 decides that).
    if c05(c).is_ok() {
        let f = fold(&ops, s);
        want!(f == y, "the events denote {}, to_yamd gives {}", dbg(&f), dbg(&y));
    }
    let mut events = ops.len();
    let mut rejected = 0;
    let mut sig = ops_sig(&ops);
    let mut r = Rng::new(c.aux ^ 0xC08);
    for _ in 0..4 {
        let v = mutate_ops(&ops, &mut r);
        let bal = balanced(&v);
        let res = std::panic::catch_unwind(|| yamd::try_to_yamd(&v, s));
        let show = || v.iter().map(|o| format!("{:?}", o.kind)).collect::<Vec<_>>().join(" ");
        match res {
            Err(_) => bail!("try_to_yamd panicked on the event stream {}", show()),
            Ok(Ok(_)) if !bal => bail!("try_to_yamd accepted an unbalanced or mismatched event stream: {}", show()),
            Ok(_) => {}
        }
        rejected += !bal as usize;
        events += v.len();
        sig = mix(sig ^ ops_sig(&v));
    }
    obs(sig, rejected > 0, events)
}

// ------------------------------------------------------------------ C09 - C13 projections

fn alnum(s: &str, out: &mut String) {
    out.extend(s.chars().filter(|c| c.is_alphanumeric()))
}
fn flat(b: &[ParagraphNodes]) -> String {
    let mut o = String::new();
    let v = vec![YamdNodes::Paragraph(Paragraph { body: b.to_vec() })];
    each_block(&v, &mut |_, s| alnum(s, &mut o));
    o
}
fn flat_heading(h: &Heading) -> String {
    let mut o = String::new();
    for x in &h.body {
        match x {
            HeadingNodes::Text(t) => alnum(t, &mut o),
            HeadingNodes::Anchor(a) => {
                alnum(&a.text, &mut o);
                alnum(&a.url, &mut o)
            }
        }
    }
    o
}
fn flat_list(l: &List) -> String {
    let mut o = String::new();
    each_block(&vec![YamdNodes::List(l.clone())], &mut |_, s| alnum(s, &mut o));
    o
}

fn p09(b: &[YamdNodes], o: &mut String) {
    use std::fmt::Write;
    for x in b {
        let _ = match x {
            YamdNodes::Paragraph(p) => write!(o, "P({}) ", flat(&p.body)),
            YamdNodes::Heading(h) => write!(o, "H{}({}) ", h.level, flat_heading(h)),
            YamdNodes::Image(i) => write!(o, "I({:?} {:?}) ", i.alt, i.src),
            YamdNodes::Images(i) => {
                let v: Vec<_> = i.body.iter().map(|i| (&i.alt, &i.src)).collect();
                write!(o, "G{v:?} ")
            }
            YamdNodes::Code(c) => write!(o, "C({:?} {:?}) ", c.lang, c.code),
            YamdNodes::List(l) => write!(o, "L({}) ", flat_list(l)),
            YamdNodes::Highlight(h) => {
                let v: Vec<_> = h.body.iter().map(|p| flat(&p.body)).collect();
                write!(o, "Hl({} {} {v:?}) ", h.title.is_some(), h.icon.is_some())
            }
            YamdNodes::ThematicBreak(_) => write!(o, "--- "),
            YamdNodes::Embed(e) => write!(o, "E({:?} {:?}) ", e.kind, e.args),
            YamdNodes::Collapsible(c) => {
                o.push_str("Co[");
                p09(&c.body, o);
                write!(o, "] ")
            }
        };
    }
}

fn differ(what: &str, got: &str, exp: &str) -> String {
    format!("{what}: got {}, expected {}", short(got), short(exp))
}

pub fn c09(c: &Case) -> Verdict {
    let y = yamd::deserialize(&c.text);
    let e = parse_tree(&c.text);
    let (mut a, mut b) = (String::new(), String::new());
    p09(&y.body, &mut a);
    p09(&e.body, &mut b);
    if a != b {
        return Err(differ("blocks", &a, &b));
    }
    let n = count_blocks(&y.body);
    obs(tree_sig(&y), n > 1 || !matches!(y.body.first(), None | Some(YamdNodes::Paragraph(_))), n)
}
fn count_blocks(b: &[YamdNodes]) -> usize {
    b.iter()
        .map(|x| match x {
            YamdNodes::Collapsible(c) => 1 + count_blocks(&c.body),
            YamdNodes::Images(i) => i.body.len(),
            _ => 1,
        })
        .sum()
}

/// all inline bodies with the kind of block they stand in
fn p10<'a>(b: &'a [YamdNodes], o: &mut Vec<(&'static str, Vec<ParagraphNodes>)>) {
    fn lists(l: &List, o: &mut Vec<(&'static str, Vec<ParagraphNodes>)>) {
        for i in &l.body {
            o.push(("item", i.text.clone()));
            if let Some(n) = &i.nested_list {
                lists(n, o)
            }
        }
    }
    for x in b {
        match x {
            YamdNodes::Paragraph(p) => o.push(("paragraph", p.body.clone())),
            YamdNodes::Heading(h) => o.push((
                "heading",
                h.body
                    .iter()
                    .map(|x| match x {
                        HeadingNodes::Text(t) => ParagraphNodes::Text(t.clone()),
                        HeadingNodes::Anchor(a) => ParagraphNodes::Anchor(a.clone()),
                    })
                    .collect(),
            )),
            YamdNodes::List(l) => {
                o.push(("list", vec![]));
                lists(l, o)
            }
            YamdNodes::Highlight(h) => {
                o.push(("highlight", vec![]));
                for p in &h.body {
                    o.push(("highlight paragraph", p.body.clone()))
                }
            }
            YamdNodes::Collapsible(c) => {
                o.push(("collapsible", vec![]));
                p10(&c.body, o);
                o.push(("end", vec![]));
            }
            YamdNodes::Image(_) => o.push(("image", vec![])),
            YamdNodes::Images(_) => o.push(("images", vec![])),
            YamdNodes::Code(_) => o.push(("code", vec![])),
            YamdNodes::Embed(_) => o.push(("embed", vec![])),
            YamdNodes::ThematicBreak(_) => o.push(("break", vec![])),
        }
    }
}

pub fn c10(c: &Case) -> Verdict {
    let y = yamd::deserialize(&c.text);
    let e = parse_tree(&c.text);
    let (mut a, mut b) = (vec![], vec![]);
    p10(&y.body, &mut a);
    p10(&e.body, &mut b);
    let mut inl = 0;
    // where the blocks themselves differ, C09/C11/C12 decide; inline structure is compared block by block
    for (x, z) in a.iter().zip(&b) {
        if x.0 != z.0 {
            break;
        }
        if x.1 != z.1 {
            if flat(&x.1) != flat(&z.1) && a.iter().map(|t| t.0).ne(b.iter().map(|t| t.0)) {
                break;
            }
            bail!("inline content of {}: got {}, expected {}", x.0, dbg(&x.1), dbg(&z.1));
        }
        inl += x.1.len();
    }
    obs(tree_sig(&y), a.iter().any(|x| x.1.iter().any(|n| !matches!(n, ParagraphNodes::Text(_)))), inl)
}

fn p11(b: &[YamdNodes], o: &mut String) {
    use std::fmt::Write;
    fn l11(l: &List, o: &mut String) {
        let _ = write!(o, "{:?}@{}[", l.list_type, l.level);
        for i in &l.body {
            let _ = write!(o, "({})", flat(&i.text));
            if let Some(n) = &i.nested_list {
                l11(n, o)
            }
        }
        o.push(']');
    }
    for x in b {
        match x {
            YamdNodes::List(l) => l11(l, o),
            YamdNodes::Collapsible(c) => {
                o.push_str("Co[");
                p11(&c.body, o);
                o.push(']');
            }
            YamdNodes::Paragraph(p) => {
                let _ = write!(o, "P({})", flat(&p.body));
            }
            YamdNodes::Heading(_) => o.push('H'),
            YamdNodes::Image(_) => o.push('I'),
            YamdNodes::Images(_) => o.push('G'),
            YamdNodes::Code(_) => o.push('C'),
            YamdNodes::Highlight(_) => o.push('L'),
            YamdNodes::ThematicBreak(_) => o.push('-'),
            YamdNodes::Embed(_) => o.push('E'),
        }
    }
}
fn levels(l: &List, depth: usize, n: &mut usize) -> Result<(), String> {
    want!(l.level == depth, "a list at nesting depth {depth} records level {}", l.level);
    want!(!l.body.is_empty(), "a list without items");
    for i in &l.body {
        *n += 1;
        if let Some(x) = &i.nested_list {
            levels(x, depth + 1, n)?
        }
    }
    Ok(())
}
fn all_lists(b: &[YamdNodes], n: &mut usize) -> Result<(), String> {
    for x in b {
        match x {
            YamdNodes::List(l) => levels(l, 0, n)?,
            YamdNodes::Collapsible(c) => all_lists(&c.body, n)?,
            _ => {}
        }
    }
    Ok(())
}

pub fn c11(c: &Case) -> Verdict {
    let y = yamd::deserialize(&c.text);
    let mut n = 0;
    all_lists(&y.body, &mut n)?;
    let e = parse_tree(&c.text);
    let (mut a, mut b) = (String::new(), String::new());
    p11(&y.body, &mut a);
    p11(&e.body, &mut b);
    if a != b {
        return Err(differ("lists", &a, &b));
    }
    obs(tree_sig(&y), n > 1, n)
}

fn p12(b: &[YamdNodes], o: &mut String, n: &mut usize) {
    use std::fmt::Write;
    for x in b {
        match x {
            YamdNodes::Collapsible(c) => {
                *n += 1;
                let _ = write!(o, "Co({:?})[", c.title);
                p12(&c.body, o, n);
                o.push(']');
            }
            YamdNodes::Highlight(h) => {
                *n += 1;
                let v: Vec<_> = h.body.iter().map(|p| flat(&p.body)).collect();
                let _ = write!(o, "Hl({:?} {:?} {v:?})", h.title, h.icon);
            }
            YamdNodes::Paragraph(p) => {
                let _ = write!(o, "P({})", flat(&p.body));
            }
            YamdNodes::Heading(h) => {
                let _ = write!(o, "H({})", flat_heading(h));
            }
            YamdNodes::List(l) => {
                let _ = write!(o, "L({})", flat_list(l));
            }
            YamdNodes::Code(c) => {
                let _ = write!(o, "C({:?} {:?})", c.lang, c.code);
            }
            YamdNodes::Image(_) => o.push('I'),
            YamdNodes::Images(_) => o.push('G'),
            YamdNodes::ThematicBreak(_) => o.push('-'),
            YamdNodes::Embed(_) => o.push('E'),
        }
    }
}
pub fn c12(c: &Case) -> Verdict {
    let y = yamd::deserialize(&c.text);
    let e = parse_tree(&c.text);
    let (mut a, mut b) = (String::new(), String::new());
    let (mut n, mut k) = (0, 0);
    p12(&y.body, &mut a, &mut n);
    p12(&e.body, &mut b, &mut k);
    if a != b {
        return Err(differ("containers", &a, &b));
    }
    let opener = c.text.contains("{%") || c.text.contains("!!");
    obs(mix(tree_sig(&y) ^ opener as u64), opener, n)
}

/// end of the front matter: (content range in the text, offset of the body)
fn front_matter(s: &str) -> Option<(String, usize)> {
    let t = lex(s);
    let fence = |i: usize| t[i].kind == K::Minus && t[i].end - t[i].start == 3 && t[i].col == 0;
    if t.is_empty() || !fence(0) {
        return None;
    }
    let e = (1..t.len()).find(|&i| fence(i))?;
    let m: String = t[1..e].iter().map(|x| &s[x.start..x.end]).collect();
    Some((m.trim_matches(['\n', '\r']).to_string(), t[e].end))
}

pub fn c13(c: &Case) -> Verdict {
    let s = c.text.as_str();
    let y = yamd::deserialize(s);
    match front_matter(s) {
        None => {
            want!(y.metadata.is_none(), "metadata {:?} without front matter", y.metadata);
            if s.starts_with("---") {
                let mut dashes = String::new();
                each(&y, &mut |_, t| dashes.push_str(t));
                let run = s.bytes().take_while(|&b| b == b'-').count();
                let ok = dashes.starts_with(&s[..run]) || matches!(y.body.first(), Some(YamdNodes::ThematicBreak(_)));
                want!(ok, "the leading dashes are not text: {}", dbg(&y));
            }
            obs(tree_sig(&y), s.starts_with("---"), 1)
        }
        Some((meta, at)) => {
            want!(y.metadata.as_deref() == Some(&meta[..]), "metadata {:?}, expected {:?}", y.metadata, meta);
            // the body, read as if the front matter were not there
            let rest = &s[at..];
            let exp = if rest.is_empty() || brk(rest.as_bytes(), 0) > 0 {
                yamd::deserialize(rest).body
            } else {
                parse_tree(s).body // text follows on the line of the closing dashes
            };
            want!(exp == y.body, "body {}, without the front matter {}", dbg(&y.body), dbg(&exp));
            obs(mix(tree_sig(&y) ^ hash_bytes(meta.as_bytes())), true, 2 + y.body.len())
        }
    }
}
// ------------------------------------------------------------------ C14 / C15

pub fn c14(c: &Case) -> Verdict {
    let y = yamd::deserialize(&c.text);
    let t = y.to_string();
    let z = yamd::deserialize(&t);
    want!(y == z, "parsed {} prints as {} which parses as {}", dbg(&y), short(&t), dbg(&z));
    let u = z.to_string();
    want!(u == t, "printed again: {} instead of {}", short(&u), short(&t));
    obs(tree_sig(&y), !y.body.is_empty(), count_blocks(&y.body))
}

pub fn c15(c: &Case) -> Verdict {
    let y = c.tree.as_ref().unwrap();
    let t = y.to_string();
    let z = yamd::deserialize(&t);
    want!(*y == z, "tree {} prints as {} which parses as {}", dbg(y), short(&t), dbg(&z));
    let mut n = 0;
    each(y, &mut |_, _| n += 1);
    obs(tree_sig(y), n > 0, n)
}

// ------------------------------------------------------------------ C16

pub const HOSTS: usize = 27;

fn para(b: Vec<ParagraphNodes>) -> YamdNodes {
    Paragraph { body: b }.into()
}

/// (source, expected document) with the payload in one text position
fn host(k: usize, e: &str, p: &str) -> (String, Yamd) {
    use ParagraphNodes as P;
    let doc = |b: Vec<YamdNodes>| Yamd { metadata: None, body: b };
    let p = p.to_string();
    let t = |x: &str| P::Text(x.to_string());
    match k {
        0 => (format!("a{e}z"), doc(vec![para(vec![t(&format!("a{p}z"))])])),
        1 => (e.to_string(), doc(if p.is_empty() { vec![] } else { vec![para(vec![t(&p)])] })),
        2 => (
            format!("## {e}z\n\nq"),
            doc(vec![
                Heading { level: 2, body: vec![HeadingNodes::Text(format!("{p}z"))] }.into(),
                para(vec![t("q")]),
            ]),
        ),
        3 => (
            format!("- a{e}z\n - b{e}z"),
            doc(vec![List {
                list_type: ListTypes::Unordered,
                level: 0,
                body: vec![ListItem {
                    text: vec![t(&format!("a{p}z"))],
                    nested_list: Some(List {
                        list_type: ListTypes::Unordered,
                        level: 1,
                        body: vec![ListItem { text: vec![t(&format!("b{p}z"))], nested_list: None }],
                    }),
                }],
            }
            .into()]),
        ),
        4 => (format!("x **a{e}z** y"), doc(vec![para(vec![t("x "), P::Bold(Bold { body: vec![BoldNodes::Text(format!("a{p}z"))] }), t(" y")])])),
        5 => (format!("x _a{e}z_ y"), doc(vec![para(vec![t("x "), P::Italic(Italic(format!("a{p}z"))), t(" y")])])),
        6 => (format!("x ~~a{e}z~~ y"), doc(vec![para(vec![t("x "), P::Strikethrough(Strikethrough(format!("a{p}z"))), t(" y")])])),
        7 => (format!("x *a{e}z* y"), doc(vec![para(vec![t("x "), P::Emphasis(Emphasis(format!("a{p}z"))), t(" y")])])),
        8 => (format!("x `a{e}z` y"), doc(vec![para(vec![t("x "), P::CodeSpan(CodeSpan(format!("a{p}z"))), t(" y")])])),
        9 => (
            format!("x [a{e}z](b{e}y) y"),
            doc(vec![para(vec![t("x "), P::Anchor(Anchor { text: format!("a{p}z"), url: format!("b{p}y") }), t(" y")])]),
        ),
        10 => (format!("![a{e}z](b{e}y)"), doc(vec![Image { alt: format!("a{p}z"), src: format!("b{p}y") }.into()])),
        11 => (
            format!("![{e}]({e})\n![c]({e})"),
            doc(vec![Images { body: vec![Image { alt: p.clone(), src: p.clone() }, Image { alt: "c".into(), src: p.clone() }] }.into()]),
        ),
        12 => (format!("```l\na{e}z\n```"), doc(vec![Code { lang: "l".into(), code: format!("a{p}z") }.into()])),
        13 => (format!("```l{e}m\nc\n```"), doc(vec![Code { lang: format!("l{p}m"), code: "c".into() }.into()])),
        14 => (format!("{{{{k{e}l|v{e}w}}}}"), doc(vec![Embed { kind: format!("k{p}l"), args: format!("v{p}w") }.into()])),
        15 => (
            format!("!! t{e}u\n! i{e}j\na{e}z\n!!"),
            doc(vec![Highlight {
                title: Some(format!("t{p}u")),
                icon: Some(format!("i{p}j")),
                body: vec![Paragraph { body: vec![t(&format!("a{p}z"))] }],
            }
            .into()]),
        ),
        16 => (
            format!("{{% t{e}u\na{e}z\n%}}"),
            doc(vec![Collapsible { title: format!("t{p}u"), body: vec![para(vec![t(&format!("a{p}z"))])] }.into()]),
        ),
        17 => (
            format!("---\na{e}z\n---\n\nq"),
            Yamd { metadata: Some(format!("a{p}z")), body: vec![para(vec![t("q")])] },
        ),
        18 => (
            format!("# h [a{e}z](u{e}v) t"),
            doc(vec![Heading {
                level: 1,
                body: vec![
                    HeadingNodes::Text("h ".into()),
                    HeadingNodes::Anchor(Anchor { text: format!("a{p}z"), url: format!("u{p}v") }),
                    HeadingNodes::Text(" t".into()),
                ],
            }
            .into()]),
        ),
        19 => (
            format!("**a _b{e}c_ ~~d{e}f~~ g**"),
            doc(vec![para(vec![P::Bold(Bold {
                body: vec![
                    BoldNodes::Text("a ".into()),
                    BoldNodes::Italic(Italic(format!("b{p}c"))),
                    BoldNodes::Text(" ".into()),
                    BoldNodes::Strikethrough(Strikethrough(format!("d{p}f"))),
                    BoldNodes::Text(" g".into()),
                ],
            })])]),
        ),
        20 => (
            format!("{{% t\n{{% u{e}v\n- a{e}z\n%}}\n%}}"),
            doc(vec![Collapsible {
                title: "t".into(),
                body: vec![Collapsible {
                    title: format!("u{p}v"),
                    body: vec![List {
                        list_type: ListTypes::Unordered,
                        level: 0,
                        body: vec![ListItem { text: vec![t(&format!("a{p}z"))], nested_list: None }],
                    }
                    .into()],
                }
                .into()],
            }
            .into()]),
        ),
        21 => (
            format!("{{% t\n!!\na{e}z\n\nb{e}y\n!!\n%}}"),
            doc(vec![Collapsible {
                title: "t".into(),
                body: vec![Highlight {
                    title: None,
                    icon: None,
                    body: vec![Paragraph { body: vec![t(&format!("a{p}z"))] }, Paragraph { body: vec![t(&format!("b{p}y"))] }],
                }
                .into()],
            }
            .into()]),
        ),
        22 => (
            format!("p\n{e}z\n\nq"),
            doc(vec![para(vec![t(&format!("p\n{p}z"))]), para(vec![t("q")])]),
        ),
        23 => (
            format!("{{% t\n```l\n{e}z\n```\n%}}"),
            doc(vec![Collapsible { title: "t".into(), body: vec![Code { lang: "l".into(), code: format!("{p}z") }.into()] }.into()]),
        ),
        24 => (
            format!("!! t\n- {e}z `a{e}` [b](c{e})\n!!"),
            doc(vec![Highlight {
                title: Some("t".into()),
                icon: None,
                body: vec![Paragraph {
                    body: if p.is_empty() {
                        vec![t("- z "), P::CodeSpan(CodeSpan("a".into())), t(" "), P::Anchor(Anchor { text: "b".into(), url: "c".into() })]
                    } else {
                        vec![
                            t(&format!("- {p}z ")),
                            P::CodeSpan(CodeSpan(format!("a{p}"))),
                            t(" "),
                            P::Anchor(Anchor { text: "b".into(), url: format!("c{p}") }),
                        ]
                    },
                }],
            }
            .into()]),
        ),
        25 => (
            format!("+ a\n + **b{e}c** _d{e}_\n+ {e}z"),
            doc(vec![List {
                list_type: ListTypes::Ordered,
                level: 0,
                body: vec![
                    ListItem {
                        text: vec![t("a")],
                        nested_list: Some(List {
                            list_type: ListTypes::Ordered,
                            level: 1,
                            body: vec![ListItem {
                                text: vec![
                                    P::Bold(Bold { body: vec![BoldNodes::Text(format!("b{p}c"))] }),
                                    t(" "),
                                    P::Italic(Italic(format!("d{p}"))),
                                ],
                                nested_list: None,
                            }],
                        }),
                    },
                    ListItem { text: vec![t(&format!("{p}z"))], nested_list: None },
                ],
            }
            .into()]),
        ),
        _ => (
            format!("-----\n\n{e}z\n\n{{{{a|b}}}}\n\n{e}y"),
            doc(vec![
                ThematicBreak {}.into(),
                para(vec![t(&format!("{p}z"))]),
                Embed { kind: "a".into(), args: "b".into() }.into(),
                para(vec![t(&format!("{p}y"))]),
            ]),
        ),
    }
}

pub fn c16(c: &Case) -> Verdict {
    let p = c.text.as_str();
    let k = (c.aux % HOSTS as u64) as usize;
    let e: String = p.chars().flat_map(|c| ['\\', c]).collect();
    let (src, exp) = host(k, &e, p);
    let y = yamd::deserialize(&src);
    want!(y == exp, "{}: got {}, expected {}", short(&src), dbg(&y), dbg(&exp));
    // unescaped backslashes never reach the text, in any document
    let z = yamd::deserialize(p);
    let mut got = 0usize;
    each(&z, &mut |_, s| got += s.matches('\\').count());
    let mut src_pairs = 0;
    let b = p.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            src_pairs += (b.get(i + 1) == Some(&b'\\')) as usize;
            i += 1;
        }
        i += 1;
    }
    want!(got == src_pairs, "{} backslashes in the text of {}, {} escaped ones in the source", got, dbg(&z), src_pairs);
    // an escaped character does what a letter at its place does
    crate::props4::escaped_as_plain(c)?;
    obs(mix(hash_bytes(p.as_bytes()) ^ k as u64), !p.is_empty(), p.chars().count() + 1)
}

// ------------------------------------------------------------------ C17

/// Text outside the domain (bare CR, escaped line breaks) is normalised into it.
pub fn c17_domain(s: &str) -> String {
    let s = s.replace("\r\n", "\n").replace('\r', "");
    let mut o = String::with_capacity(s.len());
    let mut esc = false;
    for c in s.chars() {
        if esc && c == '\n' {
            // an escaped line break: drop the backslash
            o.pop();
            esc = false;
        } else {
            esc = !esc && c == '\\';
        }
        o.push(c);
    }
    o
}

fn crlf_to_lf(y: &Yamd) -> Yamd {
    let mut y = y.clone();
    crate::treeio::each_mut(&mut y, &mut |_, s| {
        if s.contains("\r\n") {
            *s = s.replace("\r\n", "\n")
        }
    });
    y
}

fn trimmed(b: &[YamdNodes]) -> Result<(), String> {
    fn text(b: &[ParagraphNodes], what: &str) -> Result<(), String> {
        match b.last() {
            Some(ParagraphNodes::Text(t)) if t.ends_with(['\r', '\n']) => Err(format!("the text {t:?} at the end of a {what} is not trimmed")),
            _ => Ok(()),
        }
    }
    fn list(l: &List) -> Result<(), String> {
        for i in &l.body {
            text(&i.text, "list item")?;
            i.nested_list.as_ref().map_or(Ok(()), list)?;
        }
        Ok(())
    }
    for n in b {
        match n {
            YamdNodes::Code(c) => want!(!c.code.ends_with(['\r', '\n']), "the code {:?} is not trimmed", c.code),
            YamdNodes::List(l) => list(l)?,
            YamdNodes::Highlight(h) => h.body.iter().try_for_each(|p| text(&p.body, "highlight paragraph"))?,
            YamdNodes::Collapsible(c) => trimmed(&c.body)?,
            _ => {}
        }
    }
    Ok(())
}

pub fn c17(c: &Case) -> Verdict {
    let lf = c17_domain(&c.text);
    let crlf = lf.replace('\n', "\r\n");
    let mut r = Rng::new(c.aux ^ 17);
    let mixed: String = lf.chars().map(|c| if c == '\n' && r.chance(1, 2) { "\r\n".to_string() } else { c.to_string() }).collect();
    let a = yamd::deserialize(&lf);
    let n = lf.matches('\n').count();
    for (what, v) in [("CRLF", &crlf), ("mixed", &mixed)] {
        let raw = yamd::deserialize(v);
        let mut bad = None;
        each(&raw, &mut |f, s| {
            let t = s.replace("\r\n", "");
            if t.contains('\r') {
                bad = Some((f, s.clone()))
            }
        });
        if let Some((f, s)) = bad {
            bail!("{what}: stray carriage return in {f:?} {s:?} of {}", short(v));
        }
        let b = crlf_to_lf(&raw);
        want!(a == b, "{what} {}: {} instead of {}", short(v), dbg(&b), dbg(&a));
    }
    // trimmed fields end in neither character, whatever the text mixes, escaped or not
    let y = yamd::deserialize(&c.text);
    if let Some(m) = &y.metadata {
        want!(!m.starts_with(['\r', '\n']) && !m.ends_with(['\r', '\n']), "metadata {m:?} of {} is not trimmed", short(&c.text));
    }
    trimmed(&y.body).map_err(|m| format!("{m} of {}", short(&c.text)))?;
    obs(tree_sig(&a), n > 0, n * 2)
}

// ------------------------------------------------------------------ C18

use serde_json::{json, Value};

fn j_inl(b: &[ParagraphNodes]) -> Value {
    Value::Array(
        b.iter()
            .map(|x| match x {
                ParagraphNodes::Anchor(a) => json!({"type":"Anchor","value":{"text":a.text,"url":a.url}}),
                ParagraphNodes::Bold(b) => json!({"type":"Bold","value":{"body": b.body.iter().map(|y| match y {
                    BoldNodes::Italic(i) => json!({"type":"Italic","value":i.0}),
                    BoldNodes::Strikethrough(i) => json!({"type":"Strikethrough","value":i.0}),
                    BoldNodes::Text(t) => json!({"type":"Text","value":t}),
                }).collect::<Vec<_>>()}}),
                ParagraphNodes::Italic(t) => json!({"type":"Italic","value":t.0}),
                ParagraphNodes::Strikethrough(t) => json!({"type":"Strikethrough","value":t.0}),
                ParagraphNodes::Text(t) => json!({"type":"Text","value":t}),
                ParagraphNodes::CodeSpan(t) => json!({"type":"CodeSpan","value":t.0}),
                ParagraphNodes::Emphasis(t) => json!({"type":"Emphasis","value":t.0}),
            })
            .collect(),
    )
}
fn j_list(l: &List) -> Value {
    json!({
        "list_type": if l.list_type == ListTypes::Ordered {"Ordered"} else {"Unordered"},
        "level": l.level,
        "body": l.body.iter().map(|i| json!({"text": j_inl(&i.text), "nested_list": i.nested_list.as_ref().map(j_list)})).collect::<Vec<_>>()
    })
}
fn j_blocks(b: &[YamdNodes]) -> Value {
    Value::Array(
        b.iter()
            .map(|x| {
                let (t, v) = match x {
                    YamdNodes::Paragraph(p) => ("Paragraph", json!({"body": j_inl(&p.body)})),
                    YamdNodes::Heading(h) => (
                        "Heading",
                        json!({"level": h.level, "body": h.body.iter().map(|y| match y {
                            HeadingNodes::Text(t) => json!({"type":"Text","value":t}),
                            HeadingNodes::Anchor(a) => json!({"type":"Anchor","value":{"text":a.text,"url":a.url}}),
                        }).collect::<Vec<_>>()}),
                    ),
                    YamdNodes::Image(i) => ("Image", json!({"alt":i.alt,"src":i.src})),
                    YamdNodes::Images(i) => {
                        ("Images", json!({"body": i.body.iter().map(|i| json!({"alt":i.alt,"src":i.src})).collect::<Vec<_>>()}))
                    }
                    YamdNodes::Code(c) => ("Code", json!({"lang":c.lang,"code":c.code})),
                    YamdNodes::List(l) => ("List", j_list(l)),
                    YamdNodes::Highlight(h) => (
                        "Highlight",
                        json!({"title":h.title,"icon":h.icon,"body":h.body.iter().map(|p| json!({"body": j_inl(&p.body)})).collect::<Vec<_>>()}),
                    ),
                    YamdNodes::ThematicBreak(_) => ("ThematicBreak", json!({})),
                    YamdNodes::Embed(e) => ("Embed", json!({"kind":e.kind,"args":e.args})),
                    YamdNodes::Collapsible(c) => ("Collapsible", json!({"title":c.title,"body":j_blocks(&c.body)})),
                };
                json!({"type":t,"value":v})
            })
            .collect(),
    )
}
fn j_ops(ops: &[Op]) -> Value {
    Value::Array(
        ops.iter()
            .map(|o| {
                let kind = match &o.kind {
                    OpKind::Start(n) => json!({"type":"Start","value":format!("{n:?}")}),
                    OpKind::End(n) => json!({"type":"End","value":format!("{n:?}")}),
                    OpKind::Value => json!({"type":"Value"}),
                };
                let content = match &o.content {
                    Content::Span(r) => json!({"type":"Span","value":{"start":r.start,"end":r.end}}),
                    Content::Materialized(s) => json!({"type":"Materialized","value":s}),
                };
                json!({"kind":kind,"content":content})
            })
            .collect(),
    )
}

/// serde_json's own limit on nesting (128) is not the crate's: read without it.
fn from_text<T: serde::de::DeserializeOwned>(s: &str) -> Result<T, serde_json::Error> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    let v = T::deserialize(&mut d)?;
    d.end()?;
    Ok(v)
}

fn json_tree(y: &Yamd) -> Result<(), String> {
    let v = serde_json::to_value(y).map_err(|e| format!("cannot serialize {}: {e}", dbg(y)))?;
    let exp = json!({"metadata": y.metadata, "body": j_blocks(&y.body)});
    want!(v == exp, "JSON {} instead of {}", dbg(&v.to_string()), dbg(&exp.to_string()));
    let text = serde_json::to_string(y).map_err(|e| format!("cannot serialize {}: {e}", dbg(y)))?;
    let tv: Value = from_text(&text).map_err(|e| format!("invalid JSON text: {e}"))?;
    want!(tv == exp, "JSON text {} instead of {}", short(&text), dbg(&exp.to_string()));
    let back: Yamd = from_text(&text).map_err(|e| format!("cannot deserialize {}: {e}", short(&text)))?;
    want!(back == *y, "JSON of {} comes back as {}", dbg(y), dbg(&back));
    let back: Yamd = serde_json::from_value(exp).map_err(|e| format!("cannot deserialize value of {}: {e}", dbg(y)))?;
    want!(back == *y, "JSON value of {} comes back as {}", dbg(y), dbg(&back));
    Ok(())
}

/// JSON text in another spelling: fields backwards, every character escaped that may be, white space
fn respell(v: &Value, o: &mut String) {
    fn text(s: &str, o: &mut String) {
        o.push('"');
        for u in s.encode_utf16() {
            match u {
                0x30..=0x39 | 0x41..=0x5a | 0x61..=0x7a | 0x5f => o.push(u as u8 as char),
                _ => o.push_str(&format!("\\u{u:04x}")),
            }
        }
        o.push('"');
    }
    match v {
        Value::Object(m) => {
            o.push_str("{ ");
            for (i, (k, x)) in m.iter().rev().enumerate() {
                if i > 0 {
                    o.push_str(" ,\n");
                }
                text(k, o);
                o.push_str(" : ");
                respell(x, o);
            }
            o.push('}');
        }
        Value::Array(a) => {
            o.push_str("[\t");
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                respell(x, o);
            }
            o.push_str("\r\n]");
        }
        Value::String(s) => text(s, o),
        x => o.push_str(&x.to_string()),
    }
}

/// one field of one object damaged; a description of the damage
fn damage(v: &mut Value, r: &mut Rng) -> Option<String> {
    fn count(v: &Value) -> usize {
        match v {
            Value::Object(m) => m.len() + m.values().map(count).sum::<usize>(),
            Value::Array(a) => a.iter().map(count).sum(),
            _ => 0,
        }
    }
    fn find<'a>(v: &'a mut Value, at: &mut usize) -> Option<(&'a mut serde_json::Map<String, Value>, String)> {
        match v {
            Value::Object(m) => {
                if *at < m.len() {
                    let k = m.keys().nth(*at).unwrap().clone();
                    return Some((m, k));
                }
                *at -= m.len();
                m.values_mut().find_map(|x| find(x, at))
            }
            Value::Array(a) => a.iter_mut().find_map(|x| find(x, at)),
            _ => None,
        }
    }
    let n = count(v);
    if n == 0 {
        return None;
    }
    let mut at = r.below(n);
    let (m, k) = find(v, &mut at)?;
    let old = m[&k].clone();
    let new = match r.below(12) {
        0 | 1 => {
            m.remove(&k);
            return Some(format!("without the field {k}"));
        }
        2 => {
            m.remove(&k);
            let mut l = k.clone();
            match r.below(3) {
                0 => l.push('s'),
                1 => l = l.to_uppercase(),
                _ => {
                    l.pop();
                }
            }
            m.insert(l.clone(), old);
            return Some(format!("with {l} instead of {k}"));
        }
        3 => Value::Null,
        4 => json!(-1),
        5 => json!(256),
        6 => json!(2.5),
        7 => json!("1"),
        8 => json!(true),
        9 => json!({}),
        10 => match &old {
            Value::String(s) => json!(format!("{s}s")),
            Value::Number(_) => json!(u64::MAX),
            _ => json!(""),
        },
        _ => {
            m.insert("extra".into(), json!([1]));
            return Some("with an unknown field".into());
        }
    };
    let d = format!("with {k} = {new}");
    m.insert(k, new);
    Some(d)
}

/// what was read is what the JSON says: unknown fields may be ignored, optional ones may be missing
fn says(m: &Value, w: &Value) -> bool {
    match (m, w) {
        (Value::Object(a), Value::Object(b)) => b.iter().all(|(k, x)| a.get(k).map_or(x.is_null(), |y| says(y, x))),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| says(x, y)),
        _ => m == w,
    }
}

fn json_damage<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T, r: &mut Rng) -> Result<usize, String> {
    let good = serde_json::to_value(x).map_err(|e| e.to_string())?;
    let mut text = String::new();
    respell(&good, &mut text);
    let mut d = serde_json::Deserializer::from_reader(text.as_bytes());
    d.disable_recursion_limit();
    let back = T::deserialize(&mut d).map_err(|e| format!("cannot deserialize {}: {e}", short(&text)))?;
    let v = serde_json::to_value(&back).map_err(|e| e.to_string())?;
    want!(v == good, "{} spelled differently comes back as {}", dbg(&good.to_string()), dbg(&v.to_string()));
    let mut bin = vec![];
    ciborium::into_writer(x, &mut bin).map_err(|e| format!("cannot serialize to CBOR: {e}"))?;
    let back: T = ciborium::de::from_reader_with_recursion_limit(&bin[..], 4000).map_err(|e| format!("cannot deserialize CBOR of {}: {e}", dbg(&good.to_string())))?;
    let v = serde_json::to_value(&back).map_err(|e| e.to_string())?;
    want!(v == good, "{} comes back from CBOR as {}", dbg(&good.to_string()), dbg(&v.to_string()));
    for _ in 0..4 {
        let mut m = good.clone();
        let Some(how) = damage(&mut m, r) else { return Ok(2) };
        if let Ok(z) = serde_json::from_value::<T>(m.clone()) {
            let w = serde_json::to_value(&z).map_err(|e| e.to_string())?;
            want!(says(&m, &w), "JSON {how} is accepted and read as something else: {} becomes {}", dbg(&m.to_string()), dbg(&w.to_string()));
        }
    }
    Ok(6)
}

pub fn c18(c: &Case) -> Verdict {
    let mut n = 0;
    let mut r = Rng::new(c.aux ^ 18 ^ hash_bytes(c.text.as_bytes()));
    let mut sig = 1;
    if let Some(y) = &c.tree {
        json_tree(y)?;
        each(y, &mut |_, _| n += 1);
        sig = mix(sig ^ tree_sig(y));
    }
    let s = c.text.as_str();
    let y = yamd::deserialize(s);
    json_tree(&y)?;
    let ops = yamd::parse(s);
    if ops.len() < 600 && (!s.is_empty() || r.chance(1, 50)) {
        n += json_damage(&ops, &mut r)? + json_damage(&y, &mut r)?;
    }
    if let Some(y) = c.tree.as_ref().filter(|y| count_blocks(&y.body) < 60 && tree_sig(y) % 4 == 0) {
        n += json_damage(y, &mut r)?;
    }
    let v = serde_json::to_value(&ops).map_err(|e| format!("cannot serialize events: {e}"))?;
    let exp = j_ops(&ops);
    want!(v == exp, "JSON of the events {} instead of {}", dbg(&v.to_string()), dbg(&exp.to_string()));
    let text = serde_json::to_string(&ops).map_err(|e| format!("cannot serialize events: {e}"))?;
    let back: Vec<Op> = from_text(&text).map_err(|e| format!("cannot deserialize {}: {e}", short(&text)))?;
    want!(back == ops, "events {} come back as {}", dbg(&ops), dbg(&back));
    want!(yamd::try_to_yamd(&back, s).ok().as_ref() == Some(&y), "the tree of the restored events differs");
    each(&y, &mut |_, _| n += 1);
    obs(mix(sig ^ tree_sig(&y)), n > 0, n + ops.len())
}

// ------------------------------------------------------------------ C22

pub fn c22(c: &Case) -> Verdict {
    let y = c.tree.as_ref().unwrap();
    let t = canon(y);
    let z = yamd::deserialize(&t);
    want!(z == *y, "{} parses as {}, denotes {}", short(&t), dbg(&z), dbg(y));
    let p = z.to_string();
    want!(p == t, "{} prints as {}", short(&t), short(&p));
    // nodes built through the constructors print the same
    let q = rebuilt(y).to_string();
    want!(q == t, "the tree built by the constructors prints as {} instead of {}", short(&q), short(&t));
    obs(tree_sig(y), count_blocks(&y.body) > 1, count_blocks(&y.body))
}

fn rebuilt(y: &Yamd) -> Yamd {
    fn inl(b: &[ParagraphNodes]) -> Vec<ParagraphNodes> {
        b.iter()
            .map(|x| match x {
                ParagraphNodes::Anchor(a) => Anchor::new(a.text.as_str(), a.url.as_str()).into(),
                ParagraphNodes::Bold(b) => Bold::new(
                    b.body
                        .iter()
                        .map(|y| match y {
                            BoldNodes::Italic(i) => Italic::new(i.0.as_str()).into(),
                            BoldNodes::Strikethrough(i) => Strikethrough::new(i.0.as_str()).into(),
                            BoldNodes::Text(t) => t.clone().into(),
                        })
                        .collect(),
                )
                .into(),
                ParagraphNodes::Italic(t) => Italic::new(t.0.as_str()).into(),
                ParagraphNodes::Strikethrough(t) => Strikethrough::new(t.0.as_str()).into(),
                ParagraphNodes::Text(t) => t.clone().into(),
                ParagraphNodes::CodeSpan(t) => CodeSpan::new(t.0.as_str()).into(),
                ParagraphNodes::Emphasis(t) => Emphasis::new(t.0.as_str()).into(),
            })
            .collect()
    }
    fn list(l: &List) -> List {
        List::new(
            if l.list_type == ListTypes::Ordered { ListTypes::Ordered } else { ListTypes::Unordered },
            l.level,
            l.body.iter().map(|i| ListItem::new(inl(&i.text), i.nested_list.as_ref().map(list))).collect(),
        )
    }
    fn blocks(b: &[YamdNodes]) -> Vec<YamdNodes> {
        b.iter()
            .map(|x| match x {
                YamdNodes::Paragraph(p) => Paragraph::new(inl(&p.body)).into(),
                YamdNodes::Heading(h) => Heading::new(
                    h.level,
                    h.body
                        .iter()
                        .map(|x| match x {
                            HeadingNodes::Text(t) => t.clone().into(),
                            HeadingNodes::Anchor(a) => Anchor::new(a.text.as_str(), a.url.as_str()).into(),
                        })
                        .collect(),
                )
                .into(),
                YamdNodes::Image(i) => Image::new(i.alt.as_str(), i.src.as_str()).into(),
                YamdNodes::Images(i) => Images::new(i.body.iter().map(|i| Image::new(i.alt.as_str(), i.src.as_str())).collect()).into(),
                YamdNodes::Code(c) => Code::new(c.lang.as_str(), c.code.as_str()).into(),
                YamdNodes::List(l) => list(l).into(),
                YamdNodes::Highlight(h) => {
                    Highlight::new(h.title.clone(), h.icon.clone(), h.body.iter().map(|p| Paragraph::new(inl(&p.body))).collect()).into()
                }
                YamdNodes::ThematicBreak(_) => ThematicBreak::new().into(),
                YamdNodes::Embed(e) => Embed::new(e.kind.as_str(), e.args.as_str()).into(),
                YamdNodes::Collapsible(c) => Collapsible::new(c.title.as_str(), blocks(&c.body)).into(),
            })
            .collect()
    }
    Yamd::new(y.metadata.clone(), blocks(&y.body))
}

// ------------------------------------------------------------------ C23

pub fn c23(c: &Case) -> Verdict {
    let s = c.text.as_str();
    let y = yamd::deserialize(s);
    let mut src = String::new();
    alnum(s, &mut src);
    let mut got = String::new();
    each(&y, &mut |_, t| alnum(t, &mut got));
    want!(src == got, "letters and digits of the document {} differ from the source's {}", short(&got), short(&src));
    let mut printed = String::new();
    alnum(&y.to_string(), &mut printed);
    want!(src == printed, "letters and digits of the printed document {} differ from the source's {}", short(&printed), short(&src));
    obs(tree_sig(&y), src.len() > 1, src.chars().count() * 2)
}

// ------------------------------------------------------------------ C26

pub fn c26_domain(s: &str) -> String {
    let mut t = s.trim_matches(['\n', '\r']).to_string();
    loop {
        let trailing = t.bytes().rev().take_while(|&b| b == b'\\').count();
        if trailing % 2 == 1 {
            t.pop();
            let k = t.trim_end_matches(['\n', '\r']).len();
            t.truncate(k);
        } else {
            break;
        }
    }
    // no front matter
    while t.starts_with("---") && !t.starts_with("----") {
        t = t[3..].trim_start_matches(['\n', '\r']).to_string();
    }
    // an escaped line break must not become the end of the text
    let k = t.trim_end_matches(['\n', '\r']).len();
    if k < t.len() {
        return c26_domain(&t[..k]);
    }
    t
}

pub fn c26(c: &Case) -> Verdict {
    if let Some(y) = &c.tree {
        return c26_tree(y, c.aux);
    }
    let t = c26_domain(&c.text);
    if t.is_empty() {
        return obs(0, false, 0);
    }
    let base = yamd::deserialize(&t);
    let zzz = || para(vec![ParagraphNodes::Text("zzz".into())]);
    let mut n = 0;
    // before
    let y = yamd::deserialize(&format!("zzz\n\n{t}"));
    let mut exp = vec![zzz()];
    exp.extend(base.body.iter().cloned());
    want!(y.body == exp, "after a paragraph {} reads as {} instead of {}", short(&t), dbg(&y.body), dbg(&exp));
    n += 1;
    // after: an unfinished construct at the end of the text may legitimately be affected by a later
    // text only through a closing marker; "zzz" contains none
    let y = yamd::deserialize(&format!("{t}\n\nzzz"));
    let mut exp = base.body.clone();
    exp.push(zzz());
    want!(y.body == exp, "before a paragraph {} reads as {} instead of {}", short(&t), dbg(&y.body), dbg(&exp));
    n += 1;
    // a paragraph that leaves markup open, before and after: nothing inline reaches past a blank line
    const OPEN: &[&str] = &[
        " [", "[x", "](", "(", ")", "]", " **", "*", " _", "_ ", " ~~", " `", "``", " ```", " {{", "{", " |", "{%", " {% t", "%}", " %}", "!", " ![", "![a]", " !!",
        " -", " +", " #", "---", "é", " b", "\n", "\r\n", "\\*", "\\\n", "\\[", " b\nc",
    ];
    const LINES: &[&str] = &["\n```l", "\n!!", "\n!! t", "\n! i", "\n%}", "\n{% t", "\n{{k|v}}", "\n- b", "\n + b", "\n---", "\n-----", "\n![a](b)", "\n# h", "}}"];
    let mut r = Rng::new(c.aux ^ 26);
    let mut a = String::from("a");
    let mut b = String::from("b");
    for _ in 0..1 + r.below(3) {
        let x = if r.chance(1, 4) { *r.pick(LINES) } else { *r.pick(OPEN) };
        a.push_str(x);
        b.push_str(r.pick(OPEN));
    }
    a.push('c');
    b.push('d');
    let a = a.replace("\n\r\n", "\n").replace("\n\n", "\n").replace("\n\n", "\n");
    let b = b.replace("\n\r\n", "\n").replace("\n\n", "\n").replace("\n\n", "\n").replace("\n%}", " ").replace("\n!", " ").replace("\n ```", " ").replace("\n``", " ");
    for (front, back) in [(a.as_str(), t.as_str()), (t.as_str(), b.as_str())] {
        let other = yamd::deserialize(if front == t { back } else { front }).body;
        let y = yamd::deserialize(&format!("{front}\n\n{back}"));
        let exp: Vec<YamdNodes> = if front == t { base.body.iter().chain(&other).cloned().collect() } else { other.iter().chain(&base.body).cloned().collect() };
        want!(y.body == exp, "{} followed by {} reads as {} instead of {}", short(front), short(back), dbg(&y.body), dbg(&exp));
        n += 1;
    }
    if !t.contains("{%") && !t.contains("%}") {
        let y = yamd::deserialize(&format!("{{% t\n{t}\n%}}"));
        let exp = vec![Collapsible { title: "t".into(), body: base.body.clone() }.into()];
        want!(y.body == exp, "inside a collapsible {} reads as {} instead of {}", short(&t), dbg(&y.body), dbg(&exp));
        n += 1;
    }
    obs(tree_sig(&base), true, n)
}

/// complete blocks one after the other are read back as that sequence
fn c26_tree(y: &Yamd, aux: u64) -> Verdict {
    let mut r = Rng::new(aux ^ 26);
    let n = y.body.len();
    if n == 0 {
        return obs(0, false, 0);
    }
    let texts: Vec<String> = y.body.iter().map(|b| tree::canon(&Yamd { metadata: None, body: vec![b.clone()] })).collect();
    let singles: Vec<Vec<YamdNodes>> = texts.iter().map(|t| yamd::deserialize(t).body).collect();
    // the place may also be far into a text
    let far = match r.below(2500) {
        0 => 60_000,
        1..=3 => 5_000,
        4..=7 => 1_000,
        _ => 0,
    };
    let k = 1 + r.below(6);
    let mut src = String::new();
    let mut exp: Vec<YamdNodes> = vec![];
    if far > 0 {
        let (t, b) = r.pick(&[("z", vec![para(vec![ParagraphNodes::Text("z".into())])]), ("-----", vec![ThematicBreak::new().into()]), ("", vec![])]).clone();
        for _ in 0..far {
            src.push_str(t);
            src.push_str("\n\n");
            exp.extend(b.iter().cloned());
        }
    }
    for i in 0..k {
        let j = r.below(n);
        if i > 0 {
            src.push_str("\n\n");
        }
        src.push_str(&texts[j]);
        exp.extend(singles[j].iter().cloned());
    }
    let got = yamd::deserialize(&src).body;
    want!(got == exp, "the sequence {} reads as {} instead of {}", short(&src), dbg(&got), dbg(&exp));
    obs(tree_sig(&Yamd { metadata: None, body: got }), k > 1, k)
}

#[allow(dead_code)]
pub fn field_name(f: F) -> String {
    format!("{f:?}")
}

pub fn by_id(id: &str) -> Option<fn(&Case) -> Verdict> {
    Some(match id {
        "C01" => c01,
        "C02" => c02,
        "C03" => c03,
        "C04" => c04,
        "C05" => c05,
        "C06" => c06,
        "C07" => c07,
        "C08" => c08,
        "C09" => c09,
        "C10" => c10,
        "C11" => c11,
        "C12" => c12,
        "C13" => c13,
        "C14" => c14,
        "C15" => c15,
        "C16" => c16,
        "C17" => c17,
        "C18" => c18,
        "C22" => c22,
        "C23" => c23,
        "C26" => c26,
        "C27" => crate::props2::c27,
        "C28" => crate::props2::c28,
        "C29" => crate::props2::c29,
        "C30" => crate::props2::c30,
        "C32" => crate::props2::c32,
        "C33" => crate::props3::c33,
        "C34" => crate::props4::c34,
        "C35" => crate::props4::c35,
        _ => return None,
    })
}

/// how cases are made for a property: text only, trees, plain trees, or both
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Text,
    Tree,
    PlainTree,
    Both,
    TextAndPlain,
}
pub fn kind_of(id: &str) -> Kind {
    match id {
        "C15" | "C27" => Kind::Tree,
        "C22" => Kind::PlainTree,
        "C18" | "C29" | "C32" | "C33" => Kind::Both,
        "C26" => Kind::TextAndPlain,
        _ => Kind::Text,
    }
}
