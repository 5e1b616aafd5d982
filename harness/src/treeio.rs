//! A private text encoding of document trees for replay files (independent of the crate's own JSON),
//! plus visitors over all fields of a tree.
use yamd::nodes::*;

pub fn enc(y: &Yamd) -> String {
    let mut o = String::new();
    match &y.metadata {
        Some(m) => {
            o.push('M');
            s(&mut o, m)
        }
        None => o.push('N'),
    }
    blocks(&mut o, &y.body);
    o
}
fn s(o: &mut String, t: &str) {
    o.push_str(&format!("{}:{}", t.len(), t));
}
fn n(o: &mut String, k: usize) {
    o.push_str(&format!("{};", k));
}
fn blocks(o: &mut String, b: &[YamdNodes]) {
    n(o, b.len());
    for x in b {
        match x {
            YamdNodes::Paragraph(p) => {
                o.push('p');
                inl(o, &p.body)
            }
            YamdNodes::Heading(h) => {
                o.push('h');
                n(o, h.level as usize);
                n(o, h.body.len());
                for i in &h.body {
                    match i {
                        HeadingNodes::Text(t) => {
                            o.push('t');
                            s(o, t)
                        }
                        HeadingNodes::Anchor(a) => {
                            o.push('a');
                            s(o, &a.text);
                            s(o, &a.url)
                        }
                    }
                }
            }
            YamdNodes::Image(i) => {
                o.push('i');
                s(o, &i.alt);
                s(o, &i.src)
            }
            YamdNodes::Images(is) => {
                o.push('I');
                n(o, is.body.len());
                for i in &is.body {
                    s(o, &i.alt);
                    s(o, &i.src)
                }
            }
            YamdNodes::Code(c) => {
                o.push('c');
                s(o, &c.lang);
                s(o, &c.code)
            }
            YamdNodes::List(l) => {
                o.push('l');
                list(o, l)
            }
            YamdNodes::Highlight(h) => {
                o.push('H');
                opt(o, &h.title);
                opt(o, &h.icon);
                n(o, h.body.len());
                for p in &h.body {
                    inl(o, &p.body)
                }
            }
            YamdNodes::ThematicBreak(_) => o.push('-'),
            YamdNodes::Embed(e) => {
                o.push('e');
                s(o, &e.kind);
                s(o, &e.args)
            }
            YamdNodes::Collapsible(c) => {
                o.push('C');
                s(o, &c.title);
                blocks(o, &c.body)
            }
        }
    }
}
fn opt(o: &mut String, t: &Option<String>) {
    match t {
        Some(t) => {
            o.push('S');
            s(o, t)
        }
        None => o.push('N'),
    }
}
fn list(o: &mut String, l: &List) {
    o.push(if l.list_type == ListTypes::Ordered { 'O' } else { 'U' });
    n(o, l.level);
    n(o, l.body.len());
    for i in &l.body {
        inl(o, &i.text);
        match &i.nested_list {
            Some(x) => {
                o.push('S');
                list(o, x)
            }
            None => o.push('N'),
        }
    }
}
fn inl(o: &mut String, b: &[ParagraphNodes]) {
    n(o, b.len());
    for x in b {
        match x {
            ParagraphNodes::Anchor(a) => {
                o.push('a');
                s(o, &a.text);
                s(o, &a.url)
            }
            ParagraphNodes::Bold(b) => {
                o.push('b');
                n(o, b.body.len());
                for y in &b.body {
                    match y {
                        BoldNodes::Italic(i) => {
                            o.push('i');
                            s(o, &i.0)
                        }
                        BoldNodes::Strikethrough(i) => {
                            o.push('s');
                            s(o, &i.0)
                        }
                        BoldNodes::Text(i) => {
                            o.push('t');
                            s(o, i)
                        }
                    }
                }
            }
            ParagraphNodes::Italic(t) => {
                o.push('i');
                s(o, &t.0)
            }
            ParagraphNodes::Strikethrough(t) => {
                o.push('s');
                s(o, &t.0)
            }
            ParagraphNodes::Text(t) => {
                o.push('t');
                s(o, t)
            }
            ParagraphNodes::CodeSpan(t) => {
                o.push('c');
                s(o, &t.0)
            }
            ParagraphNodes::Emphasis(t) => {
                o.push('e');
                s(o, &t.0)
            }
        }
    }
}

struct D<'a>(&'a str);
impl<'a> D<'a> {
    fn c(&mut self) -> char {
        let c = self.0.chars().next().unwrap_or('?');
        self.0 = &self.0[c.len_utf8().min(self.0.len())..];
        c
    }
    fn num(&mut self, end: char) -> usize {
        let (a, b) = self.0.split_once(end).unwrap_or(("0", ""));
        self.0 = b;
        a.parse().unwrap_or(0)
    }
    fn s(&mut self) -> String {
        let k = self.num(':');
        let (a, b) = self.0.split_at(k);
        self.0 = b;
        a.to_string()
    }
    fn opt(&mut self) -> Option<String> {
        if self.c() == 'S' {
            Some(self.s())
        } else {
            None
        }
    }
    fn blocks(&mut self) -> Vec<YamdNodes> {
        let k = self.num(';');
        (0..k)
            .map(|_| match self.c() {
                'p' => Paragraph { body: self.inl() }.into(),
                'h' => {
                    let level = self.num(';') as u8;
                    let k = self.num(';');
                    let body = (0..k)
                        .map(|_| match self.c() {
                            't' => HeadingNodes::Text(self.s()),
                            _ => HeadingNodes::Anchor(Anchor { text: self.s(), url: self.s() }),
                        })
                        .collect();
                    Heading { level, body }.into()
                }
                'i' => Image { alt: self.s(), src: self.s() }.into(),
                'I' => {
                    let k = self.num(';');
                    let body = (0..k).map(|_| Image { alt: self.s(), src: self.s() }).collect();
                    Images { body }.into()
                }
                'c' => Code { lang: self.s(), code: self.s() }.into(),
                'l' => self.list().into(),
                'H' => {
                    let title = self.opt();
                    let icon = self.opt();
                    let k = self.num(';');
                    let body = (0..k).map(|_| Paragraph { body: self.inl() }).collect();
                    Highlight { title, icon, body }.into()
                }
                '-' => ThematicBreak {}.into(),
                'e' => Embed { kind: self.s(), args: self.s() }.into(),
                _ => Collapsible { title: self.s(), body: self.blocks() }.into(),
            })
            .collect()
    }
    fn list(&mut self) -> List {
        let list_type = if self.c() == 'O' { ListTypes::Ordered } else { ListTypes::Unordered };
        let level = self.num(';');
        let k = self.num(';');
        let body = (0..k)
            .map(|_| {
                let text = self.inl();
                let nested_list = if self.c() == 'S' { Some(self.list()) } else { None };
                ListItem { text, nested_list }
            })
            .collect();
        List { list_type, level, body }
    }
    fn inl(&mut self) -> Vec<ParagraphNodes> {
        let k = self.num(';');
        (0..k)
            .map(|_| match self.c() {
                'a' => ParagraphNodes::Anchor(Anchor { text: self.s(), url: self.s() }),
                'b' => {
                    let k = self.num(';');
                    let body = (0..k)
                        .map(|_| match self.c() {
                            'i' => BoldNodes::Italic(Italic(self.s())),
                            's' => BoldNodes::Strikethrough(Strikethrough(self.s())),
                            _ => BoldNodes::Text(self.s()),
                        })
                        .collect();
                    ParagraphNodes::Bold(Bold { body })
                }
                'i' => ParagraphNodes::Italic(Italic(self.s())),
                's' => ParagraphNodes::Strikethrough(Strikethrough(self.s())),
                't' => ParagraphNodes::Text(self.s()),
                'c' => ParagraphNodes::CodeSpan(CodeSpan(self.s())),
                _ => ParagraphNodes::Emphasis(Emphasis(self.s())),
            })
            .collect()
    }
}

pub fn dec(t: &str) -> Yamd {
    let mut d = D(t);
    let metadata = if d.c() == 'M' { Some(d.s()) } else { None };
    Yamd { metadata, body: d.blocks() }
}

/// What a string field is, for collecting and mutating.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F {
    Metadata,
    Text,
    Url,
    Style,
    CodeSpan,
    Alt,
    Src,
    Lang,
    Code,
    Title,
    Icon,
    Kind,
    Args,
}

macro_rules! visitor {
    ($name:ident, $inl:ident, $list:ident, $blocks:ident, ($($m:tt)?), $iter:ident) => {
        pub fn $name(y: &$($m)? Yamd, f: &mut dyn FnMut(F, &$($m)? String)) {
            if let Some(m) = &$($m)? y.metadata { f(F::Metadata, m) }
            $blocks(&$($m)? y.body, f)
        }
        fn $inl(b: &$($m)? Vec<ParagraphNodes>, f: &mut dyn FnMut(F, &$($m)? String)) {
            for x in b.$iter() {
                match x {
                    ParagraphNodes::Anchor(a) => { f(F::Text, &$($m)? a.text); f(F::Url, &$($m)? a.url) }
                    ParagraphNodes::Bold(b) => for y in b.body.$iter() {
                        match y {
                            BoldNodes::Italic(i) => f(F::Style, &$($m)? i.0),
                            BoldNodes::Strikethrough(i) => f(F::Style, &$($m)? i.0),
                            BoldNodes::Text(i) => f(F::Text, i),
                        }
                    },
                    ParagraphNodes::Italic(t) => f(F::Style, &$($m)? t.0),
                    ParagraphNodes::Strikethrough(t) => f(F::Style, &$($m)? t.0),
                    ParagraphNodes::Text(t) => f(F::Text, t),
                    ParagraphNodes::CodeSpan(t) => f(F::CodeSpan, &$($m)? t.0),
                    ParagraphNodes::Emphasis(t) => f(F::Style, &$($m)? t.0),
                }
            }
        }
        fn $list(l: &$($m)? List, f: &mut dyn FnMut(F, &$($m)? String)) {
            for i in l.body.$iter() {
                $inl(&$($m)? i.text, f);
                if let Some(n) = &$($m)? i.nested_list { $list(n, f) }
            }
        }
        pub fn $blocks(b: &$($m)? Vec<YamdNodes>, f: &mut dyn FnMut(F, &$($m)? String)) {
            for x in b.$iter() {
                match x {
                    YamdNodes::Paragraph(p) => $inl(&$($m)? p.body, f),
                    YamdNodes::Heading(h) => for i in h.body.$iter() {
                        match i {
                            HeadingNodes::Text(t) => f(F::Text, t),
                            HeadingNodes::Anchor(a) => { f(F::Text, &$($m)? a.text); f(F::Url, &$($m)? a.url) }
                        }
                    },
                    YamdNodes::Image(i) => { f(F::Alt, &$($m)? i.alt); f(F::Src, &$($m)? i.src) }
                    YamdNodes::Images(is) => for i in is.body.$iter() { f(F::Alt, &$($m)? i.alt); f(F::Src, &$($m)? i.src) },
                    YamdNodes::Code(c) => { f(F::Lang, &$($m)? c.lang); f(F::Code, &$($m)? c.code) }
                    YamdNodes::List(l) => $list(l, f),
                    YamdNodes::Highlight(h) => {
                        if let Some(t) = &$($m)? h.title { f(F::Title, t) }
                        if let Some(t) = &$($m)? h.icon { f(F::Icon, t) }
                        for p in h.body.$iter() { $inl(&$($m)? p.body, f) }
                    }
                    YamdNodes::ThematicBreak(_) => {}
                    YamdNodes::Embed(e) => { f(F::Kind, &$($m)? e.kind); f(F::Args, &$($m)? e.args) }
                    YamdNodes::Collapsible(c) => { f(F::Title, &$($m)? c.title); $blocks(&$($m)? c.body, f) }
                }
            }
        }
    };
}
visitor!(each, each_inl, each_list, each_block, (), iter);
visitor!(each_mut, each_inl_mut, each_list_mut, each_block_mut, (mut), iter_mut);
