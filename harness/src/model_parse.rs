//! Reference parser: builds the expected tree directly from the tokens of the reference lexer.
//! No event stream, no shared parser state: every construct is a function from (position, stops) to
//! (node, next position), where `Stops` says which tokens end the enclosing construct.
use crate::model_lex::{lex, Tok};
use std::collections::HashSet;
use yamd::lexer::TokenKind as K;
use yamd::nodes::*;

#[derive(Clone, Default)]
struct Stops {
    terminator: bool,
    collapsible: bool,
    highlight: bool,
    /// (level, ordered) of every enclosing list item
    lists: Vec<(usize, bool)>,
}

impl Stops {
    fn none() -> Self {
        Stops::default()
    }
    fn term(&self) -> Self {
        let mut s = self.clone();
        s.terminator = true;
        s
    }
    fn coll(&self) -> Self {
        let mut s = self.clone();
        s.collapsible = true;
        s
    }
    fn high(&self) -> Self {
        let mut s = self.term();
        s.highlight = true;
        s
    }
    fn list(&self, level: usize, ordered: bool) -> Self {
        let mut s = self.clone();
        s.lists.push((level, ordered));
        s
    }
}

pub struct Model<'a> {
    src: &'a str,
    t: Vec<Tok>,
    /// collapsible openers that were tried and did not form a collapsible
    dead: HashSet<usize>,
    pub steps: u64,
}

type Spanned<T> = Option<(T, usize)>;

pub fn parse_tree(src: &str) -> Yamd {
    let mut m = Model {
        src,
        t: lex(src),
        dead: HashSet::new(),
        steps: 0,
    };
    m.root()
}

pub fn trim_eol_end(s: &str) -> &str {
    s.trim_end_matches(|c| c == '\n' || c == '\r')
}

pub fn trim_eol(s: &str) -> &str {
    s.trim_matches(|c| c == '\n' || c == '\r')
}

impl<'a> Model<'a> {
    fn is(&self, i: usize, k: K) -> bool {
        self.t.get(i).is_some_and(|t| t.kind == k)
    }
    fn is_n(&self, i: usize, k: K, n: usize) -> bool {
        self.t.get(i).is_some_and(|t| t.kind == k && t.len() == n)
    }
    /// token at the start of a line
    fn bol(&self, i: usize) -> bool {
        self.t.get(i).is_some_and(|t| t.col == 0)
    }
    fn bol_n(&self, i: usize, k: K, n: usize) -> bool {
        self.bol(i) && self.is_n(i, k, n)
    }
    fn text(&self, a: usize, b: usize) -> String {
        self.t[a..b]
            .iter()
            .map(|t| &self.src[t.start..t.end])
            .collect()
    }

    /// ordered?
    fn marker(&self, i: usize) -> Option<bool> {
        if self.is_n(i, K::Minus, 1) {
            Some(false)
        } else if self.is_n(i, K::Plus, 1) {
            Some(true)
        } else {
            None
        }
    }

    /// A list item opener at `i`: (level, ordered, first token of the item text)
    fn opener(&self, i: usize) -> Option<(usize, bool, usize)> {
        if !self.bol(i) {
            return None;
        }
        let (level, m) = if self.is(i, K::Space) {
            (self.t[i].len(), i + 1)
        } else {
            (0, i)
        };
        let ordered = self.marker(m)?;
        if !self.is_n(m + 1, K::Space, 1) {
            return None;
        }
        Some((level, ordered, m + 2))
    }

    fn stop(&mut self, i: usize, s: &Stops) -> bool {
        self.steps += 1;
        let Some(t) = self.t.get(i) else { return true };
        if s.terminator && t.kind == K::Terminator {
            return true;
        }
        if s.collapsible {
            let closer = |j: usize| self.bol(j) && self.is(j, K::CollapsibleEnd);
            if closer(i) || (t.kind == K::Eol && closer(i + 1)) {
                return true;
            }
        }
        if s.highlight && self.bol_n(i, K::Bang, 2) {
            return true;
        }
        if !s.lists.is_empty() {
            if let Some((level, ordered, _)) = self.opener(i) {
                return s.lists.iter().any(|&(own, own_ordered)| {
                    if level == own {
                        ordered == own_ordered
                    } else {
                        level <= own + 1
                    }
                });
            }
        }
        false
    }

    /// First token at or after `i` that satisfies `f`, unless a stop comes first (or is it).
    fn find(&mut self, i: usize, s: &Stops, f: impl Fn(&Self, usize) -> bool) -> Option<usize> {
        let mut j = i;
        while !self.stop(j, s) {
            if f(self, j) {
                return Some(j);
            }
            j += 1;
        }
        None
    }

    fn root(&mut self) -> Yamd {
        let mut start = 0;
        let mut metadata = None;
        let fence = |m: &Self, i: usize| m.bol_n(i, K::Minus, 3);
        if fence(self, 0) {
            if let Some(end) = self.find(1, &Stops::none(), fence) {
                metadata = Some(trim_eol(&self.text(1, end)).to_string());
                start = end + 1;
            }
        }
        let (body, _) = self.blocks(start, &Stops::none());
        Yamd { metadata, body }
    }

    fn blocks(&mut self, mut i: usize, s: &Stops) -> (Vec<YamdNodes>, usize) {
        let mut out = Vec::new();
        while !self.stop(i, s) {
            if self.is(i, K::Terminator) {
                i += 1;
                continue;
            }
            let found = self
                .code(i, s)
                .or_else(|| self.collapsible(i, s))
                .or_else(|| self.embed(i, s))
                .or_else(|| self.highlight(i, s));
            let (node, next) = match found {
                Some(x) => x,
                None => self.simple_block(i, &s.term()),
            };
            out.push(node);
            i = next;
        }
        (out, i)
    }

    /// blocks that end at a blank line
    fn simple_block(&mut self, i: usize, s: &Stops) -> (YamdNodes, usize) {
        if let Some((l, n)) = self.list(i, 0, None, s) {
            return (YamdNodes::List(l), n);
        }
        if let Some(x) = self.images(i, s) {
            return x;
        }
        if self.bol_n(i, K::Minus, 5) {
            return (YamdNodes::ThematicBreak(ThematicBreak {}), i + 1);
        }
        if self.bol(i) && self.is(i, K::Hash) && self.t[i].len() <= 6 && self.is_n(i + 1, K::Space, 1)
        {
            let level = self.t[i].len() as u8;
            let mut body: Vec<HeadingNodes> = Vec::new();
            let mut j = i + 2;
            let mut text = String::new();
            while !self.stop(j, s) {
                if let Some((a, n)) = self.anchor(j, s) {
                    if !text.is_empty() {
                        body.push(HeadingNodes::Text(std::mem::take(&mut text)));
                    }
                    body.push(HeadingNodes::Anchor(a));
                    j = n;
                } else {
                    text.push_str(&self.text(j, j + 1));
                    j += 1;
                }
            }
            if !text.is_empty() {
                body.push(HeadingNodes::Text(text));
            }
            return (YamdNodes::Heading(Heading { level, body }), j);
        }
        let (body, n) = self.inlines(i, s);
        (YamdNodes::Paragraph(Paragraph { body }), n)
    }

    /// optional end-of-line after a closing marker, or a block boundary
    fn after_closer(&mut self, i: usize, s: &Stops) -> Option<usize> {
        if self.is(i, K::Eol) {
            Some(i + 1)
        } else if self.is(i, K::Terminator) || self.stop(i, s) {
            Some(i)
        } else {
            None
        }
    }

    /// rest of the opening line (`None` when there is no line to read)
    fn rest_of_line(&mut self, i: usize, s: &Stops) -> Spanned<String> {
        if self.bol(i) {
            return None;
        }
        let end = self.find(i, s, |m, j| m.is(j, K::Eol) || m.is(j, K::Terminator))?;
        Some((self.text(i, end), end + 1))
    }

    fn code(&mut self, i: usize, s: &Stops) -> Spanned<YamdNodes> {
        let fence = |m: &Self, j: usize| m.bol_n(j, K::Backtick, 3);
        if !fence(self, i) {
            return None;
        }
        let free = Stops::none();
        let mut j = i + 1;
        let mut lang = String::new();
        if self.is(j, K::Eol) {
            j += 1;
        } else if let Some((l, n)) = self.rest_of_line(j, &free) {
            lang = l;
            j = n;
        }
        let close = self.find(j, &free, fence)?;
        let code = trim_eol_end(&self.text(j, close)).to_string();
        let next = self.after_closer(close + 1, s)?;
        Some((YamdNodes::Code(Code { lang, code }), next))
    }

    fn collapsible(&mut self, i: usize, s: &Stops) -> Spanned<YamdNodes> {
        if !(self.bol(i) && self.is(i, K::CollapsibleStart)) || self.dead.contains(&i) {
            return None;
        }
        if !(self.is(i + 1, K::Space) || self.is(i + 1, K::Eol)) {
            return None;
        }
        let r = self.collapsible_rest(i + 2, s);
        if r.is_none() {
            self.dead.insert(i);
        }
        r
    }

    fn collapsible_rest(&mut self, i: usize, s: &Stops) -> Spanned<YamdNodes> {
        let (title, j) = self.rest_of_line(i, s).unwrap_or((String::new(), i));
        if !self.bol(j) {
            return None;
        }
        let (body, mut k) = self.blocks(j, &s.coll());
        if self.is(k, K::Eol) {
            k += 1;
        }
        if !(self.bol(k) && self.is(k, K::CollapsibleEnd)) {
            return None;
        }
        k += 1;
        if self.is(k, K::Eol) {
            k += 1;
        }
        Some((YamdNodes::Collapsible(Collapsible { title, body }), k))
    }

    fn embed(&mut self, i: usize, s: &Stops) -> Spanned<YamdNodes> {
        if !self.bol_n(i, K::LeftCurlyBrace, 2) {
            return None;
        }
        let bar = self.find(i + 1, s, |m, j| m.is(j, K::Pipe))?;
        let close = self.find(bar + 1, s, |m, j| m.is_n(j, K::RightCurlyBrace, 2))?;
        let next = self.after_closer(close + 1, s)?;
        let kind = self.text(i + 1, bar);
        let args = self.text(bar + 1, close);
        Some((YamdNodes::Embed(Embed { kind, args }), next))
    }

    fn highlight(&mut self, i: usize, s: &Stops) -> Spanned<YamdNodes> {
        if !self.bol_n(i, K::Bang, 2) {
            return None;
        }
        let mut j = i + 2;
        let mut title = None;
        if self.is_n(i + 1, K::Space, 1) {
            if let Some((t, n)) = self.rest_of_line(j, s) {
                title = Some(t);
                j = n;
            }
        } else if !self.is(i + 1, K::Eol) {
            return None;
        }
        let mut icon = None;
        if self.bol_n(j, K::Bang, 1) && self.is_n(j + 1, K::Space, 1) {
            if let Some(end) = self.find(j + 2, &s.term(), |m, x| m.is(x, K::Eol)) {
                icon = Some(self.text(j + 2, end));
                j = end + 1;
            }
        }
        if !self.bol(j) {
            return None;
        }
        let inner = s.high();
        let mut body = Vec::new();
        while !self.stop(j, s) {
            if self.bol_n(j, K::Bang, 2) {
                j += 1;
                if self.is(j, K::Eol) {
                    j += 1;
                }
                let h = Highlight { title, icon, body };
                return Some((YamdNodes::Highlight(h), j));
            }
            if self.is(j, K::Terminator) {
                j += 1;
            }
            let (p, n) = self.inlines(j, &inner);
            let p = trimmed(p);
            if !p.is_empty() {
                body.push(Paragraph { body: p });
            }
            j = n;
        }
        None
    }

    /// list items of one level, starting at `i`
    fn list(&mut self, i: usize, level: usize, kind: Option<bool>, s: &Stops) -> Spanned<List> {
        let mut items = Vec::new();
        let mut kind = kind;
        let mut i = i;
        while let Some((l, ordered, text_at)) = self.opener(i) {
            if l != level || kind.is_some_and(|k| k != ordered) {
                break;
            }
            kind = Some(ordered);
            let (text, n) = self.inlines(text_at, &s.list(level, ordered));
            i = n;
            let mut nested_list = None;
            if !self.stop(i, s) {
                if let Some((inner, n)) = self.list(i, level + 1, None, s) {
                    nested_list = Some(inner);
                    i = n;
                }
            }
            items.push(ListItem {
                text: trimmed(text),
                nested_list,
            });
        }
        let list_type = match kind {
            Some(true) => ListTypes::Ordered,
            Some(false) => ListTypes::Unordered,
            None => return None,
        };
        if items.is_empty() {
            return None;
        }
        Some((
            List {
                list_type,
                level,
                body: items,
            },
            i,
        ))
    }

    fn images(&mut self, i: usize, s: &Stops) -> Spanned<YamdNodes> {
        let mut found: Vec<Image> = Vec::new();
        let mut j = i;
        loop {
            if let Some((img, n)) = self.image(j, s) {
                found.push(img);
                j = n;
                if j < self.t.len() {
                    continue;
                }
            }
            if self.stop(j, s) {
                break;
            }
            return None;
        }
        match found.len() {
            0 => None,
            1 => Some((YamdNodes::Image(found.pop().unwrap()), j)),
            _ => Some((YamdNodes::Images(Images { body: found }), j)),
        }
    }

    fn image(&mut self, i: usize, s: &Stops) -> Spanned<Image> {
        if !self.is_n(i, K::Bang, 1) {
            return None;
        }
        let (alt, j) = self.bracketed(i + 1, s)?;
        let (src, j) = self.parenthesized(j, s)?;
        if self.is(j, K::Eol) {
            Some((Image { alt, src }, j + 1))
        } else if self.stop(j, s) {
            Some((Image { alt, src }, j))
        } else {
            None
        }
    }

    fn bracketed(&mut self, i: usize, s: &Stops) -> Spanned<String> {
        if !self.is(i, K::LeftSquareBracket) {
            return None;
        }
        let end = self.find(i + 1, s, |m, j| m.is(j, K::RightSquareBracket))?;
        Some((self.text(i + 1, end), end + 1))
    }

    /// up to the matching `)`, or the last `)` before the stop when parentheses do not match
    fn parenthesized(&mut self, i: usize, s: &Stops) -> Spanned<String> {
        if !self.is(i, K::LeftParenthesis) {
            return None;
        }
        let mut open = 1usize;
        let mut last = None;
        let mut j = i + 1;
        while open > 0 && !self.stop(j, s) {
            if self.is(j, K::LeftParenthesis) {
                open += 1;
            } else if self.is(j, K::RightParenthesis) {
                open -= 1;
                last = Some(j);
            }
            j += 1;
        }
        let end = last?;
        Some((self.text(i + 1, end), end + 1))
    }

    fn anchor(&mut self, i: usize, s: &Stops) -> Spanned<Anchor> {
        let (text, j) = self.bracketed(i, s)?;
        let (url, j) = self.parenthesized(j, s)?;
        Some((Anchor { text, url }, j))
    }

    /// text between two equal delimiters
    fn between(&mut self, i: usize, s: &Stops, k: K, n: usize) -> Spanned<String> {
        if !self.is_n(i, k.clone(), n) {
            return None;
        }
        let end = self.find(i + 1, s, |m, j| m.is_n(j, k.clone(), n))?;
        Some((self.text(i + 1, end), end + 1))
    }

    fn bold(&mut self, i: usize, s: &Stops) -> Spanned<Bold> {
        if !self.is_n(i, K::Star, 2) {
            return None;
        }
        let mut body = Vec::new();
        let mut text = String::new();
        let flush = |text: &mut String, body: &mut Vec<BoldNodes>| {
            if !text.is_empty() {
                body.push(BoldNodes::Text(std::mem::take(text)));
            }
        };
        let mut j = i + 1;
        while !self.stop(j, s) {
            if self.is_n(j, K::Star, 2) {
                flush(&mut text, &mut body);
                return Some((Bold { body }, j + 1));
            }
            if let Some((t, n)) = self.between(j, s, K::Tilde, 2) {
                flush(&mut text, &mut body);
                body.push(BoldNodes::Strikethrough(Strikethrough(t)));
                j = n;
            } else if let Some((t, n)) = self.between(j, s, K::Underscore, 1) {
                flush(&mut text, &mut body);
                body.push(BoldNodes::Italic(Italic(t)));
                j = n;
            } else {
                text.push_str(&self.text(j, j + 1));
                j += 1;
            }
        }
        None
    }

    fn inline(&mut self, i: usize, s: &Stops) -> Spanned<ParagraphNodes> {
        use ParagraphNodes as P;
        match self.t[i].kind {
            K::Tilde => self
                .between(i, s, K::Tilde, 2)
                .map(|(t, n)| (P::Strikethrough(Strikethrough(t)), n)),
            K::Underscore => self
                .between(i, s, K::Underscore, 1)
                .map(|(t, n)| (P::Italic(Italic(t)), n)),
            K::Backtick => self
                .between(i, s, K::Backtick, 1)
                .map(|(t, n)| (P::CodeSpan(CodeSpan(t)), n)),
            K::Star if self.t[i].len() == 1 => self
                .between(i, s, K::Star, 1)
                .map(|(t, n)| (P::Emphasis(Emphasis(t)), n)),
            K::Star => self.bold(i, s).map(|(b, n)| (P::Bold(b), n)),
            K::LeftSquareBracket => self.anchor(i, s).map(|(a, n)| (P::Anchor(a), n)),
            _ => None,
        }
    }

    fn inlines(&mut self, i: usize, s: &Stops) -> (Vec<ParagraphNodes>, usize) {
        let mut body = Vec::new();
        let mut text = String::new();
        let mut j = i;
        while !self.stop(j, s) {
            if let Some((node, n)) = self.inline(j, s) {
                if !text.is_empty() {
                    body.push(ParagraphNodes::Text(std::mem::take(&mut text)));
                }
                body.push(node);
                j = n;
            } else {
                text.push_str(&self.text(j, j + 1));
                j += 1;
            }
        }
        if !text.is_empty() {
            body.push(ParagraphNodes::Text(text));
        }
        (body, j)
    }
}

/// line breaks at the end of an item or highlight paragraph are not content
fn trimmed(mut body: Vec<ParagraphNodes>) -> Vec<ParagraphNodes> {
    if let Some(ParagraphNodes::Text(t)) = body.last_mut() {
        let keep = trim_eol_end(t).len();
        t.truncate(keep);
        if t.is_empty() {
            body.pop();
        }
    }
    body
}
