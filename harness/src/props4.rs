//! Metamorphic monitors: texts changed in ways whose effect is known.
use crate::gen::ODD;
use crate::props::{Case, Obs, Verdict};
use crate::rng::{mix, Rng};
use crate::treeio::each_mut;
use std::collections::HashMap;
use yamd::lexer::{Lexer, Token};
use yamd::nodes::Yamd;
use yamd::op::Content;

macro_rules! want {
    ($c:expr, $($x:tt)*) => { if !($c) { return Err(format!($($x)*)) } };
}
fn short<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}").chars().take(900).collect()
}

/// Characters the format gives a meaning.
fn marker(c: char) -> bool {
    "\n\r\\ {}%~*-#>!`+[]()_|".contains(c)
}

// ------------------------------------------------------------------ C34

/// Replaces every plain character by another plain one, of any width; the same one by the same.
struct Rename {
    r: Rng,
    map: HashMap<char, char>,
}
impl Rename {
    fn of(&mut self, c: char) -> char {
        if marker(c) {
            return c;
        }
        let r = &mut self.r;
        *self.map.entry(c).or_insert_with(|| match r.below(6) {
            0 => (b'a' + r.below(26) as u8) as char,
            1 => char::from_u32(0x400 + r.below(200) as u32).unwrap_or('x'),
            2 => char::from_u32(0x4e00 + r.below(5000) as u32).unwrap_or('x'),
            3 => char::from_u32(0x1f300 + r.below(600) as u32).unwrap_or('x'),
            4 => {
                let c = *r.pick(ODD);
                if marker(c) { 'x' } else { c }
            }
            _ => *r.pick(&['A', 'z', '0', '9', '.', ',', ':', '"', '\'', '/', '<', '&', '=', '@', '$', '^', '\t', '\0']),
        })
    }
    fn text(&mut self, s: &str) -> String {
        s.chars().map(|c| self.of(c)).collect()
    }
}

pub fn c34(c: &Case) -> Verdict {
    let s = c.text.as_str();
    let mut m = Rename { r: Rng::new(c.aux ^ 34), map: HashMap::new() };
    let mut t = String::with_capacity(s.len() * 2);
    let mut at = vec![0usize; s.len() + 1];
    for (i, ch) in s.char_indices() {
        at[i] = t.len();
        t.push(m.of(ch));
    }
    at[s.len()] = t.len();
    // tokens
    let a: Vec<Token> = Lexer::new(s).collect();
    let b: Vec<Token> = Lexer::new(&t).collect();
    want!(a.len() == b.len(), "{} has {} tokens, with other letters {} has {}", short(&s), a.len(), short(&t), b.len());
    let mut sig = 34u64;
    for (x, y) in a.iter().zip(&b) {
        want!(
            x.kind == y.kind
                && x.escaped == y.escaped
                && at[x.range.start] == y.range.start
                && at[x.range.end] == y.range.end
                && x.position.row == y.position.row
                && x.position.column == y.position.column
                && at[x.position.byte_index] == y.position.byte_index,
            "token {x:?} of {} is, with other letters, {y:?} of {}",
            short(&s),
            short(&t)
        );
        sig = mix(sig ^ crate::props::k_id(&x.kind) as u64 ^ (x.escaped as u64) << 8);
    }
    // events
    let a = yamd::parse(s);
    let b = yamd::parse(&t);
    want!(a.len() == b.len(), "{} has {} events, with other letters {} has {}", short(&s), a.len(), short(&t), b.len());
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        let same = x.kind == y.kind
            && match (&x.content, &y.content) {
                (Content::Span(p), Content::Span(q)) => p.is_empty() && q.is_empty() || at[p.start] == q.start && at[p.end] == q.end,
                (Content::Materialized(p), Content::Materialized(q)) => m.text(p) == *q,
                _ => false,
            };
        want!(same, "event {i} {x:?} of {} is, with other letters, {y:?} of {}", short(&s), short(&t));
    }
    // tree and print
    let mut y: Yamd = yamd::to_yamd(&a, s);
    let z = yamd::to_yamd(&b, &t);
    let p = m.text(&y.to_string());
    each_mut(&mut y, &mut |_, f| *f = m.text(f));
    want!(y == z, "{} reads as {}, with other letters {} as {}", short(&s), short(&y), short(&t), short(&z));
    let q = z.to_string();
    want!(p == q, "{} is printed as {}, with other letters as {}", short(&s), short(&p), short(&q));
    Ok(Obs { sig, nontrivial: m.map.len() > 1, events: (a.len() + b.len()) as u64 })
}

// ------------------------------------------------------------------ C35

static WORDS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

/// Words the code under test names: if it has keywords, they are among these.
pub fn set_words(d: &crate::gen::Dict) {
    let mut v: Vec<String> = d.strings.iter().flat_map(|s| s.split(marker)).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    v.sort();
    v.dedup();
    WORDS.set(v).ok();
}

/// Runs of plain characters put in the place of others, of any length: what is said is changed,
/// what it is does not. The runs are marked with one private character each, then written out.
pub fn c35(c: &Case) -> Verdict {
    let s = c.text.as_str();
    let mut r = Rng::new(c.aux ^ 35);
    let one_in = 1 + r.below(4);
    let long = r.below(3) == 0;
    let mut words: Vec<(char, String)> = vec![];
    let known = WORDS.get().map_or(&[][..], |v| v);
    let keywords = !known.is_empty() && r.below(3) == 0;
    let mut t = String::with_capacity(s.len());
    let mut rest = s;
    while let Some(first) = rest.chars().next() {
        let run = rest.find(|c| marker(c) != marker(first)).unwrap_or(rest.len());
        let (head, tail) = rest.split_at(run);
        rest = tail;
        if marker(first) || words.len() >= 200 || r.below(one_in) != 0 || head.contains(|c| ('\u{f0000}'..'\u{f00ff}').contains(&c)) {
            t.push_str(head);
            continue;
        }
        let mark = char::from_u32(0xf0000 + words.len() as u32).unwrap_or('x');
        let word = match r.below(9) {
            0..=4 if keywords => match (r.pick(known), r.below(6)) {
                (w, 0) => w.to_uppercase(),
                (w, 1) => format!("{w}{w}"),
                (w, _) => w.clone(),
            },
            0 => "z".to_string(),
            1 => "é".repeat(1 + r.below(4)),
            2 if long && r.below(40) == 0 => r.pick(&["w", "é", "\u{1f600}"]).repeat(1000 + r.below(5000)),
            2 => "中文\u{1f600}".to_string(),
            3 if long => "w".repeat(1 + r.below(400)),
            4 if long => "\u{1f600}q".repeat(1 + r.below(200)),
            3 | 4 => "wW9.".repeat(1 + r.below(5)),
            5 => head.chars().rev().collect(),
            // one kind of letters, of every length
            7 => {
                let of: Vec<char> = r.pick(&["QWERTYUIOP", "qwertyuiop", "0123456789", "Ab", "aB1", "éÉ", "...,;:"]).chars().collect();
                of.iter().cycle().take(1 + r.below(70)).collect()
            }
            8 => if r.chance(1, 2) { head.to_uppercase() } else { head.to_lowercase() },
            _ => format!("{head}{head}"),
        };
        words.push((mark, word));
        t.push(mark);
    }
    let write = |x: &str| -> String {
        let mut o = String::with_capacity(x.len());
        for c in x.chars() {
            match (c as u32).checked_sub(0xf0000).and_then(|i| words.get(i as usize)) {
                Some((_, w)) => o.push_str(w),
                None => o.push(c),
            }
        }
        o
    };
    let u = write(&t);
    // (a text of its own with such characters is left alone)
    if s.contains(|c| ('\u{f0000}'..'\u{f00ff}').contains(&c)) {
        return Ok(Obs { sig: 35, nontrivial: false, events: 0 });
    }
    let a: Vec<Token> = Lexer::new(&t).collect();
    let b: Vec<Token> = Lexer::new(&u).collect();
    want!(a.len() == b.len(), "{} has {} tokens, with other words {} has {}", short(&t), a.len(), short(&u), b.len());
    for (x, y) in a.iter().zip(&b) {
        want!(
            x.kind == y.kind && x.escaped == y.escaped && x.position.row == y.position.row && write(&t[x.range.clone()]) == u[y.range.clone()],
            "token {x:?} of {} is, with other words, {y:?} of {}",
            short(&t),
            short(&u)
        );
    }
    let a = yamd::parse(&t);
    let b = yamd::parse(&u);
    want!(a.len() == b.len(), "{} has {} events, with other words {} has {}", short(&t), a.len(), short(&u), b.len());
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        want!(
            x.kind == y.kind && write(x.content.as_str(&t)) == y.content.as_str(&u),
            "event {i} {x:?} of {} is, with other words, {y:?} of {}",
            short(&t),
            short(&u)
        );
    }
    let mut y: Yamd = yamd::to_yamd(&a, &t);
    let z = yamd::to_yamd(&b, &u);
    let p = write(&y.to_string());
    each_mut(&mut y, &mut |_, f| *f = write(f));
    want!(y == z, "{} reads as {}, with other words {} as {}", short(&t), short(&y), short(&u), short(&z));
    let q = z.to_string();
    want!(p == q, "{} is printed as {}, with other words as {}", short(&t), short(&p), short(&q));
    Ok(Obs { sig: mix(crate::props::ops_sig(&a) ^ 35), nontrivial: !words.is_empty(), events: (a.len() + b.len()) as u64 })
}

// ------------------------------------------------------------------ C16

/// Escaped characters put in the place of plain ones and the other way round: the document is the
/// one a plain character at the same place gives.
pub fn escaped_as_plain(c: &Case) -> Verdict {
    let s = c.text.as_str();
    if s.contains(|c| ('\u{f0000}'..='\u{f3fff}').contains(&c)) {
        return Ok(Obs { sig: 36, nontrivial: false, events: 0 });
    }
    let mut r = Rng::new(c.aux ^ 36);
    let one_in = 1 + r.below(5);
    // t: with a plain private character at the chosen places; u: with an escaped one
    let mut t = String::with_capacity(s.len());
    let mut u = String::with_capacity(s.len() * 2);
    let mut said: Vec<char> = vec![];
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        let esc = if ch == '\\' { it.next() } else { None };
        let Some(ch2) = esc.or(if marker(ch) { None } else { Some(ch) }) else {
            t.push(ch);
            u.push(ch);
            continue;
        };
        if !matches!(ch2, '\n' | '\r') && said.len() < 16000 && r.below(one_in) == 0 {
            let m = char::from_u32(0xf0000 + said.len() as u32).unwrap_or('x');
            t.push(m);
            said.push(ch2);
            u.push('\\');
            u.push(ch2);
        } else {
            for o in [&mut t, &mut u] {
                if esc.is_some() {
                    o.push('\\');
                }
                o.push(ch2);
            }
        }
    }
    let write = |x: &str| -> String { x.chars().map(|c| (c as u32).checked_sub(0xf0000).and_then(|i| said.get(i as usize).copied()).unwrap_or(c)).collect() };
    let a = yamd::parse(&t);
    let b = yamd::parse(&u);
    let mut y: Yamd = yamd::to_yamd(&a, &t);
    let z = yamd::to_yamd(&b, &u);
    each_mut(&mut y, &mut |_, f| *f = write(f));
    want!(y == z, "{} reads as {}, with escaped characters at the plain ones {} as {}", short(&t), short(&y), short(&u), short(&z));
    Ok(Obs { sig: mix(crate::props::ops_sig(&a) ^ 36), nontrivial: !said.is_empty(), events: (a.len() + b.len()) as u64 })
}
