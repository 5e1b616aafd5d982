//! Generator, mutator and normaliser of document trees, and an independent canonical printer.
use crate::gen::Gen;
use crate::treeio::*;
use yamd::nodes::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// plain words only: the documented canonical syntax
    Plain,
    /// arbitrary strings everywhere
    Dirty,
}

fn field(g: &mut Gen, st: Style) -> String {
    match st {
        Style::Plain => {
            let k = 1 + g.r.below(3);
            (0..k).map(|_| g.plain_word()).collect::<Vec<_>>().join(" ")
        }
        Style::Dirty => match g.r.below(12) {
            0 => String::new(),
            1 => g.plain_word(),
            2 => {
                let n = 1 + g.r.below(3);
                (0..n).map(|_| g.odd_char()).collect()
            }
            3 => {
                let n = g.count().min(300);
                let mut u = String::new();
                g.piece(&mut u);
                u.repeat(n.min(600 / u.len().max(1)))
            }
            _ => {
                let mut s = String::new();
                for _ in 0..1 + g.r.below(4) {
                    if g.r.chance(1, 3) {
                        s.push_str(&g.plain_word());
                    }
                    g.piece(&mut s);
                }
                s
            }
        },
    }
}

fn inlines(g: &mut Gen, st: Style) -> Vec<ParagraphNodes> {
    let n = 1 + g.few(4);
    let mut v: Vec<ParagraphNodes> = vec![];
    for _ in 0..n {
        let x = inline(g, st);
        let text = |x: &ParagraphNodes| matches!(x, ParagraphNodes::Text(_));
        if v.last().is_some_and(|l| !text(l) && !text(&x)) && g.r.chance(1, 3) {
            v.push(ParagraphNodes::Text(gap(g)));
        }
        v.push(x);
    }
    v
}

/// what stands between two marked words
fn gap(g: &mut Gen) -> String {
    let n = 1 + g.few(4);
    match g.r.below(4) {
        0 => ", ".into(),
        1 => g.r.pick(&["\t", ".", "–", "\u{a0}", "\u{3000}", " \u{2003} ", "/", ":", "é"]).to_string(),
        _ => " ".repeat(n),
    }
}

fn inline(g: &mut Gen, st: Style) -> ParagraphNodes {
    use ParagraphNodes as P;
    match g.r.below(10) {
        0 => P::Italic(Italic(field(g, st))),
        1 => P::Strikethrough(Strikethrough(field(g, st))),
        2 => P::CodeSpan(CodeSpan(field(g, st))),
        3 => P::Emphasis(Emphasis(field(g, st))),
        4 => P::Anchor(Anchor { text: field(g, st), url: field(g, st) }),
        5 | 6 => {
            let n = 1 + g.few(3);
            let body = (0..n)
                .map(|_| match g.r.below(4) {
                    0 => BoldNodes::Italic(Italic(field(g, st))),
                    1 => BoldNodes::Strikethrough(Strikethrough(field(g, st))),
                    2 if g.r.chance(1, 3) => BoldNodes::Text(gap(g)),
                    _ => BoldNodes::Text(field(g, st)),
                })
                .collect();
            P::Bold(Bold { body })
        }
        7 if st == Style::Plain => P::Text(format!("{}\n{}", field(g, st), field(g, st))),
        _ => P::Text(field(g, st)),
    }
}

fn list(g: &mut Gen, st: Style, depth: usize) -> List {
    let n = 1 + g.few(3);
    let list_type = if g.r.chance(1, 2) { ListTypes::Ordered } else { ListTypes::Unordered };
    let body = (0..n)
        .map(|k| ListItem {
            text: inlines(g, st),
            nested_list: if depth > 3 {
                // a deep chain hangs below one item
                if k + 1 == n { Some(list(g, st, depth - 1)) } else { None }
            } else if depth > 0 && g.r.chance(2, 5) {
                Some(list(g, st, depth - 1))
            } else {
                None
            },
        })
        .collect();
    List { list_type, level: 0, body }
}

pub fn block(g: &mut Gen, st: Style, depth: usize) -> YamdNodes {
    let img = |g: &mut Gen| Image { alt: field(g, st), src: field(g, st) };
    match if depth > 4 { 11 } else { g.r.below(14) } {
        0 | 1 => {
            let n = g.few(4);
            Heading {
                level: 1 + g.r.below(6) as u8,
                body: (0..n)
                    .map(|_| {
                        if g.r.chance(1, 3) {
                            HeadingNodes::Anchor(Anchor { text: field(g, st), url: field(g, st) })
                        } else if st == Style::Dirty && g.r.chance(1, 6) {
                            HeadingNodes::Text(gap(g))
                        } else {
                            HeadingNodes::Text(field(g, st))
                        }
                    })
                    .collect(),
            }
            .into()
        }
        2 => img(g).into(),
        3 => {
            let n = 2 + g.few(3);
            Images { body: (0..n).map(|_| img(g)).collect() }.into()
        }
        4 => {
            let lang = if g.r.chance(1, 5) { String::new() } else { field(g, st) };
            let code = if st == Style::Plain {
                let n = 1 + g.few(3);
                (0..n).map(|_| field(g, st)).collect::<Vec<_>>().join("\n")
            } else {
                field(g, st)
            };
            Code { lang, code }.into()
        }
        5 | 6 => {
            let deep = if g.bulk > 0 && g.r.chance(1, 3) { 4 + g.r.below(24) } else { 3 };
            list(g, st, deep).into()
        }
        7 | 8 => {
            let n = g.few(4);
            Highlight {
                title: if g.r.chance(2, 3) { Some(field(g, st)) } else { None },
                icon: if g.r.chance(1, 2) { Some(field(g, st)) } else { None },
                body: (0..n).map(|_| Paragraph { body: inlines(g, st) }).collect(),
            }
            .into()
        }
        9 => ThematicBreak {}.into(),
        10 => Embed { kind: field(g, st), args: field(g, st) }.into(),
        11 | 12 if depth > 0 => {
            let n = if depth > 4 { 1 } else { g.few(4) };
            Collapsible {
                title: if st == Style::Dirty && g.r.chance(1, 8) { String::new() } else { field(g, st) },
                body: (0..n).map(|_| block(g, st, depth - 1)).collect(),
            }
            .into()
        }
        _ => Paragraph { body: inlines(g, st) }.into(),
    }
}

pub fn tree(g: &mut Gen, st: Style) -> Yamd {
    g.bulk = if g.r.chance(1, 5) { 1 + g.r.below(2) as u32 } else { 0 };
    let n = 1 + g.few(4);
    let depth = if g.r.chance(1, 24) { 5 + g.r.below(20) } else { g.r.below(4) };
    let mut y = Yamd {
        metadata: if g.r.chance(1, 6) { Some(if st == Style::Plain { format!("{}\n{}", field(g, st), field(g, st)) } else { field(g, st) }) } else { None },
        body: (0..n).map(|_| block(g, st, depth)).collect(),
    };
    normalize(&mut y, st);
    y
}

pub fn mutate(g: &mut Gen, y: &Yamd, other: Option<&Yamd>) -> Yamd {
    let st = Style::Dirty;
    let mut y = y.clone();
    for _ in 0..1 + g.r.below(3) {
        match g.r.below(10) {
            0..=5 => {
                // change one string
                let mut n = 0;
                each_mut(&mut y, &mut |_, _| n += 1);
                if n > 0 {
                    let k = g.r.below(n);
                    let new = field(g, st);
                    let how = g.r.below(5);
                    let mut i = 0;
                    each_mut(&mut y, &mut |_, s| {
                        if i == k {
                            match how {
                                0 => *s = new.clone(),
                                1 => s.push_str(&new),
                                2 => s.insert_str(0, &new),
                                3 => {
                                    let c = s.chars().next();
                                    if let Some(c) = c {
                                        s.drain(..c.len_utf8());
                                    }
                                }
                                _ => {
                                    let mid = s.char_indices().nth(s.chars().count() / 2).map_or(0, |x| x.0);
                                    s.insert_str(mid, &new)
                                }
                            }
                            if s.len() > 600 {
                                *s = s.chars().take(150).collect();
                            }
                        }
                        i += 1;
                    });
                }
            }
            6 => {
                let b = block(g, st, 2);
                insert_block(g, &mut y.body, b, 0)
            }
            7 => {
                if !y.body.is_empty() {
                    let k = g.r.below(y.body.len());
                    if g.r.chance(1, 2) {
                        y.body.remove(k);
                    } else {
                        let b = y.body[k].clone();
                        insert_block(g, &mut y.body, b, 0)
                    }
                }
            }
            8 => {
                if let Some(o) = other {
                    if !o.body.is_empty() {
                        let b = g.r.pick(&o.body).clone();
                        insert_block(g, &mut y.body, b, 0)
                    }
                }
            }
            _ => {
                if g.r.chance(1, 2) && !y.body.is_empty() {
                    let b = std::mem::take(&mut y.body);
                    y.body = vec![Collapsible { title: field(g, st), body: b }.into()];
                } else {
                    y.metadata = if g.r.chance(1, 2) { Some(field(g, st)) } else { None };
                }
            }
        }
    }
    normalize(&mut y, st);
    if enc(&y).len() > 2500 {
        y.body.truncate(1);
        if enc(&y).len() > 2500 {
            return tree(g, st);
        }
    }
    y
}

fn insert_block(g: &mut Gen, body: &mut Vec<YamdNodes>, b: YamdNodes, depth: usize) {
    if depth < 6 && g.r.chance(1, 2) {
        let cs: Vec<usize> = body.iter().enumerate().filter(|(_, n)| matches!(n, YamdNodes::Collapsible(_))).map(|x| x.0).collect();
        if !cs.is_empty() {
            let k = *g.r.pick(&cs);
            if let YamdNodes::Collapsible(c) = &mut body[k] {
                return insert_block(g, &mut c.body, b, depth + 1);
            }
        }
    }
    let k = g.r.below(body.len() + 1);
    body.insert(k, b);
}

// ---- the documented round-trip domain ----

fn is_eol(c: char) -> bool {
    c == '\n' || c == '\r'
}

pub fn norm_inlines(b: &mut Vec<ParagraphNodes>, trimmed: bool) {
    use ParagraphNodes as P;
    for x in b.iter_mut() {
        if let P::Bold(bold) = x {
            let mut out: Vec<BoldNodes> = vec![];
            for y in bold.body.drain(..) {
                let empty = match &y {
                    BoldNodes::Italic(i) => i.0.is_empty(),
                    BoldNodes::Strikethrough(i) => i.0.is_empty(),
                    BoldNodes::Text(t) => t.is_empty(),
                };
                if empty {
                    continue;
                }
                match (out.last_mut(), &y) {
                    (Some(BoldNodes::Text(a)), BoldNodes::Text(t)) => a.push_str(t),
                    (Some(BoldNodes::Strikethrough(_)), BoldNodes::Strikethrough(_)) => {}
                    _ => out.push(y),
                }
            }
            bold.body = out;
        }
    }
    let mut out: Vec<P> = vec![];
    for x in b.drain(..) {
        let empty = match &x {
            P::Bold(b) => b.body.is_empty(),
            P::Italic(t) => t.0.is_empty(),
            P::Strikethrough(t) => t.0.is_empty(),
            P::CodeSpan(t) => t.0.is_empty(),
            P::Emphasis(t) => t.0.is_empty(),
            P::Text(t) => t.is_empty(),
            P::Anchor(_) => false,
        };
        if empty {
            continue;
        }
        match (out.last_mut(), &x) {
            (Some(P::Text(a)), P::Text(t)) => a.push_str(t),
            (Some(P::Bold(_) | P::Emphasis(_)), P::Bold(_) | P::Emphasis(_))
            | (Some(P::Strikethrough(_)), P::Strikethrough(_))
            | (Some(P::CodeSpan(_)), P::CodeSpan(_)) => {}
            _ => out.push(x),
        }
    }
    if trimmed {
        if let Some(P::Text(t)) = out.last_mut() {
            let k = t.trim_end_matches(is_eol).len();
            t.truncate(k);
            if t.is_empty() {
                out.pop();
            }
        }
    }
    *b = out;
}

fn norm_list(l: &mut List, level: usize, st: Style) {
    l.level = level;
    for i in l.body.iter_mut() {
        norm_inlines(&mut i.text, true);
        if st == Style::Plain && i.text.is_empty() {
            i.text.push(ParagraphNodes::Text("x".into()));
        }
        if let Some(n) = &mut i.nested_list {
            norm_list(n, level + 1, st);
            if n.body.is_empty() {
                i.nested_list = None;
            }
        }
    }
}

fn norm_blocks(b: &mut Vec<YamdNodes>, st: Style) {
    for x in b.iter_mut() {
        match x {
            YamdNodes::Paragraph(p) => norm_inlines(&mut p.body, false),
            YamdNodes::Heading(h) => {
                h.level = h.level.clamp(1, 6);
                let mut out: Vec<HeadingNodes> = vec![];
                for y in h.body.drain(..) {
                    match (out.last_mut(), &y) {
                        (_, HeadingNodes::Text(t)) if t.is_empty() => {}
                        (Some(HeadingNodes::Text(a)), HeadingNodes::Text(t)) => a.push_str(t),
                        _ => out.push(y),
                    }
                }
                h.body = out;
            }
            YamdNodes::List(l) => norm_list(l, 0, st),
            YamdNodes::Code(c) => {
                let k = c.code.trim_end_matches(is_eol).len();
                c.code.truncate(k);
            }
            YamdNodes::Highlight(h) => {
                for p in h.body.iter_mut() {
                    norm_inlines(&mut p.body, true)
                }
                h.body.retain(|p| !p.body.is_empty());
            }
            YamdNodes::Collapsible(c) => norm_blocks(&mut c.body, st),
            _ => {}
        }
    }
    b.retain(|x| match x {
        YamdNodes::Paragraph(p) => !p.body.is_empty(),
        YamdNodes::List(l) => !l.body.is_empty(),
        YamdNodes::Images(i) => i.body.len() >= 2,
        _ => true,
    });
}

pub fn normalize(y: &mut Yamd, st: Style) {
    if let Some(m) = &mut y.metadata {
        *m = m.trim_matches(is_eol).to_string();
    }
    norm_blocks(&mut y.body, st);
}

/// Trees of a given size: many of one thing, or one thing of many parts, levels or characters.
pub fn families() -> Vec<(&'static str, usize, fn(usize) -> Yamd)> {
    use ParagraphNodes as P;
    fn w(i: usize) -> String {
        format!("w{i}")
    }
    fn t(i: usize) -> P {
        P::Text(w(i))
    }
    fn p(i: usize) -> Paragraph {
        Paragraph { body: vec![t(i)] }
    }
    fn mixed(n: usize) -> Vec<P> {
        (0..n)
            .flat_map(|i| {
                let x = match i % 7 {
                    0 => P::Italic(Italic(w(i))),
                    1 => P::Strikethrough(Strikethrough(w(i))),
                    2 => P::CodeSpan(CodeSpan(w(i))),
                    3 => P::Emphasis(Emphasis(w(i))),
                    4 => P::Anchor(Anchor { text: w(i), url: w(i + 1) }),
                    5 => P::Bold(Bold { body: vec![BoldNodes::Text(w(i)), BoldNodes::Italic(Italic(w(i)))] }),
                    _ => P::Anchor(Anchor { text: w(i), url: w(i) }),
                };
                [P::Text(format!(" {} ", w(i))), x]
            })
            .skip(1)
            .collect()
    }
    fn img(i: usize) -> Image {
        Image { alt: w(i), src: w(i + 1) }
    }
    fn item(i: usize) -> ListItem {
        ListItem { text: vec![t(i)], nested_list: None }
    }
    fn kind(i: usize) -> ListTypes {
        if i % 3 == 1 { ListTypes::Ordered } else { ListTypes::Unordered }
    }
    fn one(b: YamdNodes) -> Yamd {
        Yamd { metadata: None, body: vec![p(0).into(), b, p(1).into()] }
    }
    fn any(i: usize) -> YamdNodes {
        match i % 10 {
            0 => p(i).into(),
            1 => Heading { level: 1 + (i % 6) as u8, body: vec![HeadingNodes::Text(w(i))] }.into(),
            2 => img(i).into(),
            3 => Images { body: vec![img(i), img(i + 1)] }.into(),
            4 => Code { lang: w(i), code: w(i) }.into(),
            5 => List { list_type: kind(i), level: 0, body: vec![item(i), item(i)] }.into(),
            6 => Highlight { title: Some(w(i)), icon: None, body: vec![p(i)] }.into(),
            7 => ThematicBreak {}.into(),
            8 => Embed { kind: w(i), args: w(i) }.into(),
            _ => Collapsible { title: w(i), body: vec![p(i).into()] }.into(),
        }
    }
    fn nest(n: usize, both: bool) -> List {
        let mut l = List { list_type: kind(n), level: n, body: vec![item(n)] };
        for k in (0..n).rev() {
            let mut body = vec![ListItem { text: vec![t(k)], nested_list: Some(l) }];
            if both {
                body.push(item(k));
            }
            l = List { list_type: kind(k), level: k, body };
        }
        l
    }
    vec![
        ("paragraphs", 3000, |n| Yamd { metadata: None, body: (0..n).map(|i| p(i).into()).collect() }),
        ("blocks", 3000, |n| Yamd { metadata: Some(w(n)), body: (0..n).map(any).collect() }),
        ("blocks backwards", 300, |n| Yamd { metadata: None, body: (0..n).rev().map(any).collect() }),
        ("heading parts", 3000, |n| {
            let f = |i| if i % 2 == 0 { HeadingNodes::Text(format!("{} ", w(i))) } else { HeadingNodes::Anchor(Anchor { text: w(i), url: w(i) }) };
            one(Heading { level: 2, body: (0..n + 1).map(f).collect() }.into())
        }),
        ("images", 3000, |n| one(Images { body: (0..n + 2).map(img).collect() }.into())),
        ("single images", 300, |n| Yamd { metadata: None, body: (0..n).map(|i| img(i).into()).collect() }),
        ("items", 3000, |n| one(List { list_type: ListTypes::Unordered, level: 0, body: (0..n + 1).map(item).collect() }.into())),
        ("ordered items", 3000, |n| one(List { list_type: ListTypes::Ordered, level: 0, body: (0..n + 1).map(item).collect() }.into())),
        ("nested items", 1000, |n| {
            let l = List { list_type: ListTypes::Ordered, level: 1, body: (0..n + 1).map(item).collect() };
            let mut i = item(0);
            i.nested_list = Some(l);
            one(List { list_type: ListTypes::Unordered, level: 0, body: vec![i, item(1)] }.into())
        }),
        ("levels", 130, |n| one(nest(n, false).into())),
        ("levels, two items", 130, |n| one(nest(n, true).into())),
        ("item parts", 1000, |n| one(List { list_type: ListTypes::Unordered, level: 0, body: vec![ListItem { text: mixed(n + 1), nested_list: None }] }.into())),
        ("highlight paragraphs", 1000, |n| one(Highlight { title: Some(w(0)), icon: Some(w(1)), body: (0..n).map(p).collect() }.into())),
        ("paragraph parts", 3000, |n| Yamd { metadata: None, body: vec![Paragraph { body: mixed(n + 1) }.into()] }),
        ("bold parts", 1000, |n| {
            let f = |i| match i % 3 {
                0 => BoldNodes::Text(format!("{} ", w(i))),
                1 => BoldNodes::Italic(Italic(w(i))),
                _ => BoldNodes::Strikethrough(Strikethrough(w(i))),
            };
            one(Paragraph { body: vec![P::Bold(Bold { body: (0..n + 1).map(f).collect() })] }.into())
        }),
        ("code lines", 3000, |n| one(Code { lang: w(n), code: (0..n + 1).map(w).collect::<Vec<_>>().join("\n") }.into())),
        ("metadata lines", 1000, |n| Yamd { metadata: Some((0..n + 1).map(w).collect::<Vec<_>>().join("\n")), body: vec![p(0).into()] }),
        ("paragraph lines", 1000, |n| one(Paragraph { body: vec![P::Text((0..n + 1).map(w).collect::<Vec<_>>().join("\n"))] }.into())),
        ("collapsible blocks", 1000, |n| one(Collapsible { title: w(n), body: (0..n).map(any).collect() }.into())),
        ("collapsible levels", 130, |n| {
            let mut b: YamdNodes = p(n).into();
            for k in 0..n {
                b = Collapsible { title: w(k), body: vec![b] }.into();
            }
            one(b)
        }),
        ("collapsible levels, blocks around", 60, |n| {
            let mut b: YamdNodes = p(n).into();
            for k in 0..n {
                b = Collapsible { title: w(k), body: vec![any(k), b, any(k + 1)] }.into();
            }
            one(b)
        }),
        ("long words", 3000, |n| {
            let x = "a".repeat(n + 1);
            let t = || P::Text(x.clone());
            Yamd {
                metadata: Some(x.clone()),
                body: vec![
                    Heading { level: 6, body: vec![HeadingNodes::Text(x.clone())] }.into(),
                    Image { alt: x.clone(), src: x.clone() }.into(),
                    Code { lang: x.clone(), code: x.clone() }.into(),
                    Highlight { title: Some(x.clone()), icon: Some(x.clone()), body: vec![Paragraph { body: vec![t()] }] }.into(),
                    Embed { kind: x.clone(), args: x.clone() }.into(),
                    Collapsible { title: x.clone(), body: vec![Paragraph { body: vec![P::Italic(Italic(x.clone()))] }.into()] }.into(),
                    List { list_type: ListTypes::Ordered, level: 0, body: vec![ListItem { text: vec![t()], nested_list: None }, item(1)] }.into(),
                    Paragraph { body: vec![P::Bold(Bold { body: vec![BoldNodes::Text(x.clone())] }), P::Anchor(Anchor { text: x.clone(), url: x.clone() })] }.into(),
                ],
            }
        }),
    ]
}

// ---- canonical text of trees with plain words (independent of the crate's Display) ----

pub fn canon(y: &Yamd) -> String {
    let b = canon_blocks(&y.body);
    match &y.metadata {
        Some(m) => format!("---\n{m}\n---\n\n{b}"),
        None => b,
    }
}

fn canon_blocks(b: &[YamdNodes]) -> String {
    b.iter().map(canon_block).collect::<Vec<_>>().join("\n\n")
}

pub fn canon_inlines(b: &[ParagraphNodes]) -> String {
    use ParagraphNodes as P;
    b.iter()
        .map(|x| match x {
            P::Anchor(a) => format!("[{}]({})", a.text, a.url),
            P::Bold(b) => {
                let s: String = b
                    .body
                    .iter()
                    .map(|y| match y {
                        BoldNodes::Italic(i) => format!("_{}_", i.0),
                        BoldNodes::Strikethrough(i) => format!("~~{}~~", i.0),
                        BoldNodes::Text(t) => t.clone(),
                    })
                    .collect();
                format!("**{s}**")
            }
            P::Italic(t) => format!("_{}_", t.0),
            P::Strikethrough(t) => format!("~~{}~~", t.0),
            P::Text(t) => t.clone(),
            P::CodeSpan(t) => format!("`{}`", t.0),
            P::Emphasis(t) => format!("*{}*", t.0),
        })
        .collect()
}

fn canon_list(l: &List, out: &mut Vec<String>) {
    for i in &l.body {
        let m = if l.list_type == ListTypes::Ordered { '+' } else { '-' };
        out.push(format!("{}{} {}", " ".repeat(l.level), m, canon_inlines(&i.text)));
        if let Some(n) = &i.nested_list {
            canon_list(n, out)
        }
    }
}

fn canon_block(b: &YamdNodes) -> String {
    match b {
        YamdNodes::Paragraph(p) => canon_inlines(&p.body),
        YamdNodes::Heading(h) => {
            let t: String = h
                .body
                .iter()
                .map(|x| match x {
                    HeadingNodes::Text(t) => t.clone(),
                    HeadingNodes::Anchor(a) => format!("[{}]({})", a.text, a.url),
                })
                .collect();
            format!("{} {}", "#".repeat(h.level as usize), t)
        }
        YamdNodes::Image(i) => format!("![{}]({})", i.alt, i.src),
        YamdNodes::Images(i) => i.body.iter().map(|i| format!("![{}]({})", i.alt, i.src)).collect::<Vec<_>>().join("\n"),
        YamdNodes::Code(c) => format!("```{}\n{}\n```", c.lang, c.code),
        YamdNodes::List(l) => {
            let mut v = vec![];
            canon_list(l, &mut v);
            v.join("\n")
        }
        YamdNodes::Highlight(h) => {
            let mut s = "!!".to_string();
            if let Some(t) = &h.title {
                s += &format!(" {t}");
            }
            s += "\n";
            if let Some(i) = &h.icon {
                s += &format!("! {i}\n");
            }
            if !h.body.is_empty() {
                s += &h.body.iter().map(|p| canon_inlines(&p.body)).collect::<Vec<_>>().join("\n\n");
                s += "\n";
            }
            s + "!!"
        }
        YamdNodes::ThematicBreak(_) => "-----".into(),
        YamdNodes::Embed(e) => format!("{{{{{}|{}}}}}", e.kind, e.args),
        YamdNodes::Collapsible(c) => {
            format!("{{% {}\n{}\n%}}", c.title, canon_blocks(&c.body))
        }
    }
}
