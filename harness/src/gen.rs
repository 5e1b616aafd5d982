//! Workload generators: token soup, grammar-based documents, scale families, mutations.
use crate::rng::Rng;

/// Pieces every construct of the format is made of.
pub const PIECES: &[&str] = &[
    "\n", "\n", "\n", "\n\n", "\n\n", " ", " ", "  ", "- ", "+ ", " - ", " + ", "  - ", "  + ", "# ", "## ", "###### ",
    "####### ", "!!", "!! ", "! ", "!", "!!!", "{%", "{% ", "{%\n", "%}", "\n%}", "%", "{{", "}}", "|", "{", "}", "{{{", "}}}",
    "~~", "~", "~~~", "**", "*", "***", "****", "_", "__", "`", "``", "```", "\n```", "````", "[", "](", ")", "](u)",
    "![", "![a](b)", "(", "]", "---", "\n---", "-----", "------", "\\", "\\", "\\\n", "a", "b", "c", "x y", "\r\n",
    "\r\n", "\r\n\r\n", "\r", "-", "+", "#", ">", ">>", "é", "\n!!", "\n!!\n", "\n- ", "\n + ", "\n - ", "\n{% t\n",
    "\n%}\n", "\n!! t\n", "\n! i\n", "{{k|v}}", "```l\nc\n```", "**b**", "_i_", "~~s~~", "`c`", "*e*", "[t](u)",
    "\n# ", "\n-----\n", "\n{{", "\n![", "\t",
];

/// Characters that tempt code into treating text specially.
pub const ODD: &[char] = &[
    '\0', '\u{1}', '\t', '\u{b}', '\u{c}', '\u{1b}', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', 'ß', 'é', 'İ', 'ǅ', '\u{300}',
    'ї', 'א', '\u{200b}', '\u{200d}', '\u{2028}', '\u{2029}', '\u{2060}', '\u{3000}', '\u{feff}', '\u{fffd}', '\u{ffff}',
    '１', '中', '😀', '𝔘', '\u{1f468}', '\u{10ffff}', '\u{e000}', '"', '\'', '/', '<', '>', '&', '=', '?', '@', '^', '$', ';',
    ':', ',', '.', '%', '\r', '0', '9', 'A', 'Z', 'q',
];

/// Symbols of the exhaustive stage.
pub const SYM: &[&str] = &[
    "\n", "\n\n", " ", "  ", "- ", "+ ", "#", "# ", "!!", "!", "{%", "%}", "{{", "}}", "|", "~~", "**", "*", "_", "`", "```",
    "[", "]", "(", ")", "---", "-----", "\\", "a", "é", "\r\n", "\n!!", "\n%}", "\n```", "{% t\n", "\r",
];

/// Enclosing constructs: (name, before, after)
pub const CTX: &[(&str, &str, &str)] = &[
    ("plain", "", ""),
    ("collapsible", "{% t\n", "\n%}"),
    ("collapsible2", "{% t\n{% u\n", "\n%}\n%}"),
    ("highlight", "!! t\n", "\n!!"),
    ("highlight-icon", "!!\n! i\n", "\n!!\n"),
    ("list", "- a\n - ", ""),
    ("list-mixed", "+ a\n - b\n  + ", "\n + c"),
    ("list-in-collapsible", "{% t\n- ", "\n%}"),
    ("highlight-in-collapsible", "{% t\n!!\n", "\n!!\n%}"),
    ("metadata", "---\n", "\n---"),
    ("code", "```l\n", "\n```"),
    ("embed", "{{", "}}"),
    ("embed-args", "{{k|", "}}"),
    ("bold", "**", "**"),
    ("heading", "# ", "\n\nz"),
    ("anchor", "[", "](u)"),
    ("anchor-url", "[t](", ")"),
    ("image", "![", "](s)"),
    ("image-src", "![a](", ")"),
    ("images", "![a](b)\n![", "](s)"),
    ("after-block", "```\nc\n```\n", ""),
    ("after-paragraph", "p\n", "\nq"),
    ("between", "p\n\n", "\n\nq"),
    ("emphasis", "*", "*"),
    ("strike", "~~", "~~"),
    ("codespan", "`", "`"),
    ("italic", "_", "_"),
    ("title", "{% ", "\nb\n%}"),
    ("highlight-title", "!! ", "\nb\n!!"),
    ("icon", "!! t\n! ", "\nb\n!!"),
    ("lang", "```", "\nc\n```"),
    ("unclosed-collapsible", "{% t\n", ""),
    ("unclosed-highlight", "!! t\n", ""),
];

pub struct Dict {
    pub strings: Vec<String>,
    pub ints: Vec<usize>,
    pub chars: Vec<char>,
    /// the words in the strings
    pub names: Vec<String>,
}

impl Dict {
    /// `s <json-escaped string>` / `i <int>` / `c <code point>` lines, mined from the source by check.py
    pub fn load(path: &str) -> Dict {
        let mut d = Dict { strings: vec![], ints: vec![], chars: vec![], names: vec![] };
        for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
            if let Some(s) = l.strip_prefix("s ") {
                if let Ok(s) = serde_json::from_str::<String>(s) {
                    if !s.is_empty() && s.len() <= 200 {
                        d.strings.push(s)
                    }
                }
            } else if let Some(s) = l.strip_prefix("i ") {
                if let Ok(n) = s.parse::<usize>() {
                    d.ints.push(n)
                }
            } else if let Some(s) = l.strip_prefix("c ") {
                if let Some(c) = s.parse::<u32>().ok().and_then(char::from_u32) {
                    d.chars.push(c)
                }
            }
        }
        d.names = d.strings.iter().flat_map(|s| s.split(|c: char| !c.is_alphanumeric())).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        d.names.sort();
        d.names.dedup();
        d
    }
    pub fn learn(&mut self, ops: &[u64]) {
        for &v in ops {
            if (3..200_000).contains(&v) && !self.ints.contains(&(v as usize)) && self.ints.len() < 600 {
                self.ints.push(v as usize);
            }
            if v > 0 && v < 0x11_0000 {
                if let Some(c) = char::from_u32(v as u32) {
                    if !c.is_ascii_alphanumeric() && !self.chars.contains(&c) && self.chars.len() < 600 {
                        self.chars.push(c)
                    }
                }
            }
        }
    }
}

pub const BASE_INTS: &[usize] = &[
    2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 200,
    255, 256, 257,
];

pub struct Gen<'a> {
    pub r: Rng,
    pub d: &'a Dict,
    /// percentage of string fields that contain markup-like text
    pub dirt: usize,
    pub word: u32,
    pub max: usize,
    pub eol: &'static str,
    /// how many collections of the current tree may still be made unusually long or deep
    pub bulk: u32,
}

impl<'a> Gen<'a> {
    pub fn new(seed: u64, d: &'a Dict) -> Self {
        Gen { r: Rng::new(seed), d, dirt: 30, word: 0, max: 400, eol: "\n", bulk: 0 }
    }

    /// the size of a collection: up to n, now and then many more
    pub fn few(&mut self, n: usize) -> usize {
        if self.bulk > 0 && self.r.chance(1, 3) {
            self.bulk -= 1;
            return if self.r.chance(1, 3) { self.count().min(300) } else { self.r.range(4, 40) };
        }
        self.r.below(n)
    }

    pub fn count(&mut self) -> usize {
        match self.r.below(10) {
            0..=4 => self.r.range(1, 4),
            5..=6 => *self.r.pick(BASE_INTS),
            7 => self.r.range(1, 40),
            _ => {
                if self.d.ints.is_empty() {
                    self.r.range(1, 40)
                } else {
                    let n = *self.r.pick(&self.d.ints);
                    (n + self.r.below(3)).saturating_sub(1).max(1)
                }
            }
        }
    }

    pub fn odd_char(&mut self) -> char {
        match self.r.below(8) {
            0..=4 => *self.r.pick(ODD),
            5 if !self.d.chars.is_empty() => {
                let c = *self.r.pick(&self.d.chars);
                let k = c as u32 + self.r.below(3) as u32;
                char::from_u32(k.saturating_sub(1)).unwrap_or(c)
            }
            6 => (32 + self.r.below(95)) as u8 as char,
            _ => char::from_u32(self.r.below(0x11_0000) as u32).unwrap_or('z'),
        }
    }

    pub fn piece(&mut self, out: &mut String) {
        match self.r.below(20) {
            0 => {
                let c = self.odd_char();
                out.push(c)
            }
            1 if !self.d.strings.is_empty() => {
                let s = self.r.pick(&self.d.strings);
                if s.len() <= 40 {
                    out.push_str(s)
                }
            }
            2 => {
                out.push('\\');
                let c = if self.r.chance(1, 2) { *self.r.pick(&['\n', '-', '!', '*', '_', '`', '[', ']', '(', ')', '{', '}', '%', '|', '#', '~', '+', ' ', '\\', '\r', 'a']) } else { self.odd_char() };
                out.push(c)
            }
            _ => out.push_str(self.r.pick::<&str>(PIECES)),
        }
    }

    pub fn soup(&mut self, max: usize) -> String {
        let n = 1 + self.r.below(max);
        let mut s = String::new();
        for _ in 0..n {
            self.piece(&mut s)
        }
        s
    }

    pub fn wrap(&mut self, s: &str) -> String {
        let (_, a, b) = *self.r.pick(CTX);
        format!("{a}{s}{b}")
    }

    // ---- grammar based ----

    pub fn plain_word(&mut self) -> String {
        self.word += 1;
        let n = self.word;
        // a name the code under test knows
        if !self.d.names.is_empty() && self.r.chance(1, 12) {
            let s = self.r.pick(&self.d.names);
            return if self.r.chance(1, 6) { s.to_uppercase() } else { s.clone() };
        }
        match self.r.below(6) {
            0 => format!("w{n}"),
            1 => format!("слово{n}"),
            2 => format!("{}{n}", (b'a' + (n % 26) as u8) as char),
            3 => format!("W{n}x"),
            4 => format!("{n}q"),
            _ => format!("word{n}"),
        }
    }

    fn words(&mut self, max: usize) -> String {
        let k = 1 + self.r.below(max);
        (0..k).map(|_| self.plain_word()).collect::<Vec<_>>().join(" ")
    }

    /// text of a field: plain words, or with markup-like dirt
    pub fn field(&mut self) -> String {
        if self.r.below(100) < self.dirt {
            let mut s = String::new();
            for _ in 0..1 + self.r.below(4) {
                if self.r.chance(1, 2) {
                    s.push_str(&self.plain_word());
                }
                self.piece(&mut s);
            }
            s
        } else {
            self.words(3)
        }
    }

    fn inline(&mut self) -> String {
        let t = self.field();
        match self.r.below(9) {
            0 => format!("**{t}**"),
            1 => {
                let (a, b) = (self.field(), self.field());
                format!("**{a} _{t}_ ~~{b}~~**")
            }
            2 => format!("_{t}_"),
            3 => format!("~~{t}~~"),
            4 => format!("`{t}`"),
            5 => format!("*{t}*"),
            6 => {
                let u = self.field();
                format!("[{t}]({u})")
            }
            _ => t,
        }
    }

    pub fn inlines(&mut self) -> String {
        let n = 1 + self.r.below(4);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 && self.r.chance(3, 4) {
                s.push(' ')
            }
            if i > 0 && self.r.chance(1, 8) {
                s.push('\n')
            }
            s.push_str(&self.inline());
        }
        s
    }

    fn glist(&mut self, out: &mut String, level: usize, depth: usize) {
        let m = if self.r.chance(1, 2) { '-' } else { '+' };
        let n = 1 + self.r.below(3);
        for i in 0..n {
            if i > 0 || level > 0 {
                out.push('\n');
            }
            let m = if self.r.chance(1, 25) { '-' } else { m };
            let lv = if self.r.chance(1, 25) { self.r.below(level + 3) } else { level };
            out.push_str(&" ".repeat(lv));
            out.push(m);
            out.push(' ');
            let t = self.inlines();
            out.push_str(&t);
            if depth > 0 && self.r.chance(2, 5) {
                self.glist(out, level + 1, depth - 1);
            }
        }
    }

    pub fn block(&mut self, depth: usize) -> String {
        let e = self.eol;
        match self.r.below(14) {
            0 | 1 => {
                let k = if self.r.chance(1, 12) { self.r.range(1, 8) } else { self.r.range(1, 6) };
                let t = self.inlines().replace('\n', " ");
                format!("{} {}", "#".repeat(k), t)
            }
            2 => {
                let (a, b) = (self.field(), self.field());
                format!("![{a}]({b})")
            }
            3 => {
                let n = 2 + self.r.below(3);
                (0..n)
                    .map(|_| {
                        let (a, b) = (self.field(), self.field());
                        format!("![{a}]({b})")
                    })
                    .collect::<Vec<_>>()
                    .join(e)
            }
            4 => {
                let (l, c) = (self.words(1), self.lines());
                let l = if self.r.chance(1, 4) { String::new() } else { l };
                format!("```{l}{e}{c}{e}```")
            }
            5 | 6 => {
                let mut s = String::new();
                let d = depth + self.r.below(3);
                self.glist(&mut s, 0, d);
                s
            }
            7 | 8 => {
                let t = if self.r.chance(2, 3) { format!(" {}", self.field()) } else { String::new() };
                let i = if self.r.chance(1, 2) { format!("! {}{e}", self.field()) } else { String::new() };
                let n = self.r.below(4);
                let b = (0..n).map(|_| self.inlines()).collect::<Vec<_>>().join(&format!("{e}{e}"));
                format!("!!{t}{e}{i}{b}{e}!!")
            }
            9 => "-----".into(),
            10 => {
                let (a, b) = (self.field(), self.field());
                format!("{{{{{a}|{b}}}}}")
            }
            11 | 12 if depth > 0 => {
                let t = if self.r.chance(4, 5) { format!(" {}", self.field().replace('\n', " ")) } else { String::new() };
                let b = self.blocks(depth - 1, 3);
                format!("{{%{t}{e}{b}{e}%}}")
            }
            _ => self.inlines(),
        }
    }

    fn lines(&mut self) -> String {
        let n = 1 + self.r.below(4);
        (0..n).map(|_| self.field()).collect::<Vec<_>>().join("\n")
    }

    pub fn blocks(&mut self, depth: usize, max: usize) -> String {
        let n = self.r.below(max + 1);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                let sep = match self.r.below(12) {
                    0 => "\n",
                    1 => "\n\n\n",
                    2 => "\n\n\n\n",
                    3 => "",
                    _ => "\n\n",
                };
                s.push_str(sep);
            }
            let b = self.block(depth);
            s.push_str(&b);
        }
        s
    }

    pub fn doc(&mut self) -> String {
        self.dirt = *self.r.pick(&[0, 0, 10, 30, 60]);
        let mut s = String::new();
        if self.r.chance(1, 6) {
            let l = self.lines();
            s.push_str(&format!("---\n{l}\n---"));
            if self.r.chance(3, 4) {
                s.push_str("\n\n")
            }
        }
        let d = self.r.below(4);
        let b = self.blocks(d, 5);
        s.push_str(&b);
        if self.r.chance(1, 6) {
            s = s.replace('\n', "\r\n");
        }
        s
    }

    pub fn fresh(&mut self) -> String {
        match self.r.below(10) {
            0..=2 => self.soup(6),
            3 => self.soup(16),
            4 => self.soup(40),
            5 => {
                let s = self.soup(8);
                self.wrap(&s)
            }
            6 => {
                let s = self.soup(5);
                let s = self.wrap(&s);
                self.wrap(&s)
            }
            _ => {
                let s = self.doc();
                if self.r.chance(1, 3) {
                    self.mutate(&s, None)
                } else {
                    s
                }
            }
        }
    }

    // ---- mutation ----

    fn boundary(&mut self, s: &str) -> usize {
        let mut i = self.r.below(s.len() + 1);
        while !s.is_char_boundary(i) {
            i -= 1
        }
        i
    }

    pub fn mutate(&mut self, s: &str, other: Option<&str>) -> String {
        let mut t = s.to_string();
        let rounds = 1 + self.r.below(4);
        for _ in 0..rounds {
            t = self.mutate1(&t, other);
            if t.len() > self.max {
                let mut k = self.max;
                while !t.is_char_boundary(k) {
                    k -= 1
                }
                t.truncate(k);
            }
        }
        t
    }

    fn mutate1(&mut self, s: &str, other: Option<&str>) -> String {
        let a = self.boundary(s);
        let mut b = self.boundary(s);
        if self.r.chance(2, 3) {
            // short range
            b = a;
            for _ in 0..1 + self.r.below(4) {
                b = s[b..].chars().next().map_or(b, |c| b + c.len_utf8());
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        let mut out = String::with_capacity(s.len() + 16);
        out.push_str(&s[..a]);
        match self.r.below(14) {
            0 | 1 | 2 => {
                self.piece(&mut out);
                out.push_str(&s[a..]);
            }
            3 => {
                self.piece(&mut out);
                out.push_str(&s[b..]);
            }
            4 | 5 => out.push_str(&s[b..]),
            6 => {
                out.push_str(&s[a..b]);
                out.push_str(&s[a..]);
            }
            7 => {
                // repeat a piece of the text or a token an interesting number of times
                let n = self.count();
                let unit = if b > a && self.r.chance(1, 2) {
                    s[a..b].to_string()
                } else {
                    let mut u = String::new();
                    self.piece(&mut u);
                    if self.r.chance(1, 3) {
                        self.piece(&mut u);
                    }
                    u
                };
                let n = n.min(self.max / unit.len().max(1) + 1);
                out.push_str(&unit.repeat(n));
                out.push_str(&s[a..]);
            }
            8 => {
                // insert a copy of another range
                let (c, d) = (self.boundary(s), self.boundary(s));
                out.push_str(&s[c.min(d)..c.max(d)]);
                out.push_str(&s[a..]);
            }
            9 => {
                if let Some(o) = other {
                    let (c, d) = (self.boundary(o), self.boundary(o));
                    out.push_str(&o[c.min(d)..c.max(d)]);
                }
                out.push_str(&s[b..]);
            }
            10 => {
                out.push_str(&s[a..b]);
                out.push_str(&s[b..]);
                return match self.r.below(3) {
                    0 => self.wrap(&out),
                    1 => out.replacen('\n', "\r\n", 1 + self.r.below(6)),
                    _ => {
                        let c = self.odd_char();
                        out.replace(' ', &c.to_string())
                    }
                };
            }
            11 => {
                out.push('\\');
                out.push_str(&s[a..]);
            }
            12 => {
                let mid = &s[a..b];
                let w = self.wrap(mid);
                out.push_str(&w);
                out.push_str(&s[b..]);
            }
            _ => {
                let c = self.odd_char();
                out.push(c);
                out.push_str(&s[b..]);
            }
        }
        out
    }
}

/// Rough guard against inputs whose cost is (legitimately) a high polynomial of their length.
pub fn affordable(s: &str) -> bool {
    let b = s.as_bytes();
    if b.len() > 70_000 {
        return false;
    }
    let (mut openers, mut brackets, mut highs, mut inl) = (0u64, 0u64, 0u64, 0u64);
    for i in 0..b.len() {
        match b[i] {
            b'{' => openers += 1,
            b'[' => brackets += 1,
            b'!' => highs += 1,
            b'*' | b'_' | b'~' | b'`' | b'(' => inl += 1,
            _ => {}
        }
    }
    let n = b.len() as u64;
    // nested attempts: each opener may rescan the rest of the text
    let cost = n * (1 + openers.min(40) * openers.min(40) + brackets + highs * (1 + openers) + inl);
    cost < 3_000_000
}

/// (name, text) families whose size goes through interesting values.
pub fn scale_families() -> Vec<(&'static str, fn(usize) -> String)> {
    vec![
        ("word", |n| "a".repeat(n)),
        ("multibyte word", |n| "é".repeat(n)),
        ("emoji", |n| "😀".repeat(n)),
        ("spaces", |n| format!("a{}b", " ".repeat(n))),
        ("leading spaces", |n| format!("{}b", " ".repeat(n))),
        ("lines", |n| "a\n".repeat(n)),
        ("crlf lines", |n| "a\r\n".repeat(n)),
        ("paragraphs", |n| "a\n\n".repeat(n)),
        ("blank lines", |n| format!("a{}b", "\n".repeat(n))),
        ("hash run", |n| format!("{} a", "#".repeat(n))),
        ("minus run", |n| "-".repeat(n)),
        ("minus run after text", |n| format!("a\n\n{}\n\nb", "-".repeat(n))),
        ("metadata fence", |n| format!("---\na\n{}\nb\n---\nc", "-".repeat(n))),
        ("plus run", |n| format!("{} a", "+".repeat(n))),
        ("bang run", |n| format!("{}\na\n{}", "!".repeat(n), "!".repeat(n))),
        ("star run", |n| format!("{0}a{0}", "*".repeat(n))),
        ("tilde run", |n| format!("{0}a{0}", "~".repeat(n))),
        ("backtick run", |n| format!("{0}a{0}\n{0}l\nb\n{0}", "`".repeat(n))),
        ("underscore run", |n| "_".repeat(n)),
        ("left brace run", |n| format!("{}k|v{}", "{".repeat(n), "}".repeat(n))),
        ("gt run", |n| format!("{} a", ">".repeat(n))),
        ("escapes", |n| "\\*".repeat(n)),
        ("backslashes", |n| "\\".repeat(n)),
        ("heading", |n| format!("# {}", "a b ".repeat(n))),
        ("headings", |n| "## h\n\n".repeat(n)),
        ("list items", |n| "- a\n".repeat(n)),
        ("ordered items", |n| "+ a\n".repeat(n)),
        ("code lines", |n| format!("```l\n{}```", "c d\n".repeat(n))),
        ("code lang", |n| format!("```{}\nc\n```", "l".repeat(n))),
        ("code blocks", |n| "```l\nc\n```\n\n".repeat(n)),
        ("embed args", |n| format!("{{{{k|{}}}}}", "a".repeat(n))),
        ("embed kind", |n| format!("{{{{{}|v}}}}", "k".repeat(n))),
        ("embed pipes", |n| format!("{{{{k{}}}}}", "|v".repeat(n))),
        ("embeds", |n| "{{k|v}}\n\n".repeat(n)),
        ("images", |n| "![a](b)\n".repeat(n)),
        ("image alt", |n| format!("![{}](b)", "a".repeat(n))),
        ("image src", |n| format!("![a]({})", "b".repeat(n))),
        ("anchor text", |n| format!("[{}](b)", "a ".repeat(n))),
        ("anchor url", |n| format!("[a]({})", "b".repeat(n))),
        ("anchor parens", |n| format!("[a]({}{})", "(".repeat(n), ")".repeat(n))),
        ("anchor parens open", |n| format!("[a](b{}) c) d", "(".repeat(n))),
        ("highlight title", |n| format!("!! {}\n! i\nb\n!!", "t".repeat(n))),
        ("highlight icon", |n| format!("!! t\n! {}\nb\n!!", "i".repeat(n))),
        ("highlight body", |n| format!("!! t\n{}x\n!!", "b\n\n".repeat(n))),
        ("highlight lines", |n| format!("!! t\n{}x\n!!", "b\n".repeat(n))),
        ("collapsible title", |n| format!("{{% {}\nb\n%}}", "t".repeat(n))),
        ("collapsible blocks", |n| format!("{{% t\n{}x\n%}}", "b\n\n".repeat(n))),
        ("collapsible lines", |n| format!("{{% t\n{}x\n%}}", "b\n".repeat(n))),
        ("collapsibles", |n| "{% t\nb\n%}\n\n".repeat(n)),
        ("highlights", |n| "!! t\nb\n!!\n\n".repeat(n)),
        ("thematic breaks", |n| "-----\n\n".repeat(n)),
        ("bold text", |n| format!("**{}**", "b ".repeat(n))),
        ("bolds", |n| "**b** ".repeat(n)),
        ("italics", |n| "_i_ ".repeat(n)),
        ("strikes", |n| "~~s~~ ".repeat(n)),
        ("code spans", |n| "`c` ".repeat(n)),
        ("emphases", |n| "*e* ".repeat(n)),
        ("anchors", |n| "[t](u) ".repeat(n)),
        ("bold with styles", |n| format!("**{}**", "b _i_ ~~s~~ ".repeat(n))),
        ("heading anchors", |n| format!("# {}", "t [a](b) ".repeat(n))),
        ("italic lines", |n| format!("_{}_", "a\n".repeat(n))),
        ("code span lines", |n| format!("`{}`", "a\n- b\n".repeat(n))),
        ("metadata lines", |n| format!("---\n{}---\n\nb", "k: v\n".repeat(n))),
        ("metadata word", |n| format!("---\n{}\n---\n\nb", "k".repeat(n))),
        ("item text", |n| format!("- {}\n- b", "a ".repeat(n))),
        ("item lines", |n| format!("- {}\n- b", "a\nb\n".repeat(n))),
        ("late marker", |n| format!("{}\n# h\n\n# h", "a".repeat(n))),
        ("late bold", |n| format!("{}**b** _i_ [t](u)", "a ".repeat(n))),
        ("late block", |n| format!("{}```l\nc\n```\n\n{{{{k|v}}}}\n\n- a\n - b\n\n!! t\nx\n!!", "\n".repeat(n))),
        ("late collapsible", |n| format!("{}{{% t\nb\n%}}\n\nend", "a\n\n".repeat(n))),
        ("percent run", |n| format!("{{% t\n{}\n%}}", "%".repeat(n))),
        ("brace run in collapsible", |n| format!("{{% t\n{}\n%}}", "}".repeat(n))),
        ("digits", |n| "7".repeat(n)),
        ("tabs", |n| format!("a{}b", "\t".repeat(n))),
        ("cr run", |n| format!("a{}b", "\r".repeat(n))),
        ("nul", |n| "\0".repeat(n)),
        // one text of many tokens
        ("heading of many tokens", |n| format!("# {}", ">a".repeat(n))),
        ("heading with link of many tokens", |n| format!("# [t](u) {} [t](u)", ">a".repeat(n))),
        ("text of many tokens", |n| format!("x {}", ">a".repeat(n))),
        ("bold of many tokens", |n| format!("**{}**", ">a".repeat(n))),
        ("italic of many tokens", |n| format!("_{}_", ">a".repeat(n))),
        ("strike of many tokens", |n| format!("~~{}~~", ">a".repeat(n))),
        ("code span of many tokens", |n| format!("`{}`", ">a".repeat(n))),
        ("emphasis of many tokens", |n| format!("*{}*", ">a".repeat(n))),
        ("link title of many tokens", |n| format!("[{}](u)", ">a".repeat(n))),
        ("link address of many tokens", |n| format!("[t]({})", ">a".repeat(n))),
        ("image title of many tokens", |n| format!("![{}](u)", ">a".repeat(n))),
        ("image address of many tokens", |n| format!("![t]({})", ">a".repeat(n))),
        ("embed of many tokens", |n| format!("{{{{k|{}}}}}", ">a".repeat(n))),
        ("embed kind of many tokens", |n| format!("{{{{{}|v}}}}", ">a".repeat(n))),
        ("code of many tokens", |n| format!("```l\n{}\n```", ">a".repeat(n))),
        ("language of many tokens", |n| format!("```{}\nc\n```", ">a".repeat(n))),
        ("metadata of many tokens", |n| format!("---\n{}\n---\n\nb", ">a".repeat(n))),
        ("title of many tokens", |n| format!("!! {}\nb\n!!", ">a".repeat(n))),
        ("icon of many tokens", |n| format!("!! t\n! {}\nb\n!!", ">a".repeat(n))),
        ("highlight of many tokens", |n| format!("!! t\n{}\n!!", ">a".repeat(n))),
        ("collapsible title of many tokens", |n| format!("{{% {}\nb\n%}}", ">a".repeat(n))),
        ("collapsible of many tokens", |n| format!("{{% t\n{}\n%}}", ">a".repeat(n))),
        ("item of many tokens", |n| format!("- {}\n- b", ">a".repeat(n))),
        ("nested item of many tokens", |n| format!("- a\n + {}\n + b\n- c", ">a".repeat(n))),
        ("heading of many escapes", |n| format!("# {}", "\\>a".repeat(n))),
        ("heading with link of many escapes", |n| format!("# [t](u) {} [t](u)", "\\>a".repeat(n))),
        ("text of many escapes", |n| format!("x {}", "\\>a".repeat(n))),
        ("bold of many escapes", |n| format!("**{}**", "\\>a".repeat(n))),
        ("italic of many escapes", |n| format!("_{}_", "\\>a".repeat(n))),
        ("strike of many escapes", |n| format!("~~{}~~", "\\>a".repeat(n))),
        ("code span of many escapes", |n| format!("`{}`", "\\>a".repeat(n))),
        ("emphasis of many escapes", |n| format!("*{}*", "\\>a".repeat(n))),
        ("link title of many escapes", |n| format!("[{}](u)", "\\>a".repeat(n))),
        ("link address of many escapes", |n| format!("[t]({})", "\\>a".repeat(n))),
        ("image title of many escapes", |n| format!("![{}](u)", "\\>a".repeat(n))),
        ("image address of many escapes", |n| format!("![t]({})", "\\>a".repeat(n))),
        ("embed of many escapes", |n| format!("{{{{k|{}}}}}", "\\>a".repeat(n))),
        ("embed kind of many escapes", |n| format!("{{{{{}|v}}}}", "\\>a".repeat(n))),
        ("code of many escapes", |n| format!("```l\n{}\n```", "\\>a".repeat(n))),
        ("language of many escapes", |n| format!("```{}\nc\n```", "\\>a".repeat(n))),
        ("metadata of many escapes", |n| format!("---\n{}\n---\n\nb", "\\>a".repeat(n))),
        ("title of many escapes", |n| format!("!! {}\nb\n!!", "\\>a".repeat(n))),
        ("icon of many escapes", |n| format!("!! t\n! {}\nb\n!!", "\\>a".repeat(n))),
        ("highlight of many escapes", |n| format!("!! t\n{}\n!!", "\\>a".repeat(n))),
        ("collapsible title of many escapes", |n| format!("{{% {}\nb\n%}}", "\\>a".repeat(n))),
        ("collapsible of many escapes", |n| format!("{{% t\n{}\n%}}", "\\>a".repeat(n))),
        ("item of many escapes", |n| format!("- {}\n- b", "\\>a".repeat(n))),
        ("nested item of many escapes", |n| format!("- a\n + {}\n + b\n- c", "\\>a".repeat(n))),
    ]
}

/// Families with nesting: (name, text), sized by depth; kept moderate.
pub fn depth_families() -> Vec<(&'static str, fn(usize) -> String)> {
    fn nest(n: usize, open: &str, mid: &str, close: &str) -> String {
        format!("{}{}{}", open.repeat(n), mid, close.repeat(n))
    }
    vec![
        ("nested collapsibles", |n| nest(n, "{% t\n", "b", "\n%}")),
        ("nested collapsibles with text", |n| nest(n, "{% t\np\n\n", "b", "\n\nq\n\n%}")),
        ("nested lists", |n| (0..n).map(|i| format!("{}- a{}\n", " ".repeat(i), i)).collect()),
        ("nested ordered lists", |n| (0..n).map(|i| format!("{}+ a{}\n", " ".repeat(i), i)).collect()),
        ("nested mixed lists", |n| {
            (0..n).map(|i| format!("{}{} a{}\n", " ".repeat(i), if i % 2 == 0 { "-" } else { "+" }, i)).collect()
        }),
        ("lists down and up", |n| {
            let mut s = String::new();
            for i in (0..n).chain((0..n.saturating_sub(1)).rev()) {
                s.push_str(&format!("{}- a{}\n", " ".repeat(i), i));
            }
            s
        }),
        ("lists down, sharp drop", |n| {
            let mut s = String::new();
            for i in 0..n {
                s.push_str(&format!("{}+ a{}\n", " ".repeat(i), i));
            }
            s.push_str("+ top\n - other kind\n");
            s
        }),
        ("list too deep", |n| format!("- a\n{}- b\n - c", " ".repeat(n))),
        ("nested lists in collapsible", |n| {
            let l: String = (0..n).map(|i| format!("{}- a{}\n", " ".repeat(i), i)).collect();
            format!("{{% t\n{l}%}}\n\nz")
        }),
        ("list in nested collapsibles", |n| nest(n, "{% t\n", "- a\n - b\n- c", "\n%}")),
        ("highlight in nested collapsibles", |n| nest(n, "{% t\n", "!! t\n! i\nb\n\nc\n!!", "\n%}")),
        ("code in nested collapsibles", |n| nest(n, "{% t\n", "```l\n%}\n```", "\n%}")),
    ]
}

/// Nesting families whose size is linear in the depth.
pub fn chain_families() -> Vec<(&'static str, fn(usize) -> String)> {
    depth_families().into_iter().filter(|(n, _)| n.contains("collapsibles")).collect()
}
