//! Digests of everything the crate computes for each text of a file, for comparison between builds (C31).
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use yamd::nodes::{Collapsible, Highlight, List, ListItem, ListTypes, Paragraph, Yamd, YamdNodes};

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// Which characters a debug print escapes depends on the Unicode tables of the standard library, which
/// differ between toolchains: the escapes by number are undone.
fn told(x: &dyn std::fmt::Debug) -> String {
    let s = format!("{x:?}");
    let mut o = String::with_capacity(s.len());
    let mut rest = s.as_str();
    while let Some(i) = rest.find('\\') {
        o.push_str(&rest[..i]);
        rest = &rest[i..];
        if let Some((n, tail)) = rest.strip_prefix("\\u{").and_then(|r| r.split_once('}')) {
            o.extend(u32::from_str_radix(n, 16).ok().and_then(char::from_u32));
            rest = tail;
        } else {
            let two = rest.char_indices().nth(2).map_or(rest.len(), |(k, _)| k);
            o.push_str(&rest[..two]);
            rest = &rest[two..];
        }
    }
    o + rest
}

/// the document put into other places of a tree
fn wrapped(y: &Yamd) -> String {
    let mut o = String::new();
    for b in &y.body {
        o.push_str(&b.to_string());
        o.push('\u{1}');
    }
    let c = Collapsible::new("%} a\\ \n", y.body.clone());
    o.push_str(&c.to_string());
    let ps: Vec<Paragraph> = y.body.iter().filter_map(|b| if let YamdNodes::Paragraph(p) = b { Some(p.clone()) } else { None }).collect();
    o.push_str(&Highlight::new(Some("!!"), None::<String>, ps.clone()).to_string());
    let items: Vec<ListItem> = ps.iter().take(20).map(|p| ListItem::new(p.body.clone(), None)).collect();
    let l = List::new(ListTypes::Ordered, 1, items.clone());
    let l = List::new(ListTypes::Unordered, 0, items.into_iter().map(|i| ListItem::new(i.text, Some(l.clone()))).collect());
    o.push_str(&l.to_string());
    o
}

/// tokens, events, tree, print, tree from the event stream cut in the middle, prints in other places
const NAMES: [&str; 6] = ["the tokens", "the events", "the tree", "the printed text", "the tree of a part of the events", "the text of nodes in other places"];

fn results(s: &str) -> [String; 6] {
    let t = |f: &mut dyn FnMut() -> String| match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(_) => "<panic>".to_string(),
    };
    [
        t(&mut || yamd::lexer::Lexer::new(s).map(|t| told(&t) + "\n").collect()),
        t(&mut || {
            let o = yamd::parse(s);
            o.iter().map(|o| format!("{} {} {} {}\n", told(o), o.content.as_str(s), o.content.to_string(s).len(), o.content.is_empty())).collect()
        }),
        t(&mut || told(&yamd::deserialize(s))),
        t(&mut || yamd::deserialize(s).to_string()),
        t(&mut || {
            let o = yamd::parse(s);
            let k = (fnv(s) % (o.len() as u64 + 1)) as usize;
            told(&(yamd::try_to_yamd(&o[..k], s), yamd::try_to_yamd(&o[k..], s)))
        }),
        t(&mut || wrapped(&yamd::deserialize(s))),
    ]
}

fn num(h: &mut u64, x: usize) {
    *h = (*h ^ x as u64).wrapping_mul(0x9e3779b97f4a7c15);
    *h ^= *h >> 29;
}

fn ops(h: &mut u64, s: &str) {
    for o in yamd::parse(s) {
        match &o.content {
            yamd::op::Content::Span(r) => {
                num(h, r.start);
                num(h, r.end);
            }
            yamd::op::Content::Materialized(m) => {
                num(h, m.len());
                *h ^= fnv(m)
            }
        }
        num(h, match o.kind {
            yamd::op::OpKind::Start(_) => 1,
            yamd::op::OpKind::End(_) => 2,
            yamd::op::OpKind::Value => 3,
        });
    }
}

/// What an interpreter can do for longer texts: tokens, and if the text is not too long events and print, as numbers.
fn lean(s: &str) -> [u64; 6] {
    let t = |f: &mut dyn FnMut() -> u64| catch_unwind(AssertUnwindSafe(f)).unwrap_or(0xdead);
    let short = s.len() <= 2000;
    [
        t(&mut || {
            let mut h = 1;
            for t in yamd::lexer::Lexer::new(s) {
                num(&mut h, t.range.start);
                num(&mut h, t.range.end);
                num(&mut h, t.position.row << 8 ^ t.position.column ^ usize::from(t.escaped));
                num(&mut h, t.position.byte_index);
            }
            h
        }),
        if short {
            t(&mut || {
                let mut h = 2;
                ops(&mut h, s);
                h
            })
        } else {
            0
        },
        0,
        if s.len() <= 700 { t(&mut || fnv(&yamd::deserialize(s).to_string())) } else { 0 },
        0,
        0,
    ]
}

/// File of texts: u32 length (little endian, highest bit: lean) and bytes, repeated. Output: six u64 per text.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    let f = move || {
        let b = std::fs::read(&a[2]).expect("texts");
        let mut at = 0;
        // digests are written text by text: after a crash their number tells where
        let mut o = std::fs::File::create(&a[3]).expect("digests");
        let mut k = 0u64;
        let only: Option<u64> = a.get(4).and_then(|x| x.parse().ok());
        while at + 4 <= b.len() {
            let n = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
            let is_lean = n >> 31 != 0;
            let n = (n & 0x7fff_ffff) as usize;
            let s = std::str::from_utf8(&b[at + 4..at + 4 + n]).expect("UTF-8");
            at += 4 + n;
            if only.map_or(true, |x| x == k) && is_lean {
                let d: Vec<u8> = lean(s).iter().flat_map(|x| x.to_le_bytes()).collect();
                o.write_all(&d).expect("digests");
                if a[1] == "show" {
                    println!("digests of tokens, events, print: {:?}", lean(s));
                }
            } else if only.map_or(true, |x| x == k) {
                let r = results(s);
                if a[1] == "show" {
                    for (n, r) in NAMES.iter().zip(&r) {
                        println!("{n}: {}", r.chars().take(3000).collect::<String>());
                    }
                }
                let d: Vec<u8> = r.iter().flat_map(|x| fnv(x).to_le_bytes()).collect();
                o.write_all(&d).expect("digests");
            }
            k += 1;
        }
    };
    std::thread::Builder::new().stack_size(if cfg!(miri) { 8 << 20 } else { 256 << 20 }).spawn(f).unwrap().join().unwrap();
}
