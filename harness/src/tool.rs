//! Inputs and expectations for the monitors of the command line tool (C24, C25).
use crate::gen::{affordable, Dict, Gen};
use crate::model_lex::lex;
use crate::props::{c01, k_id, Case};
use crate::rng::mix;
use serde_json::{json, Map};

const NAMES: [&str; 24] = [
    "", "CollapsibleStart", "CollapsibleEnd", "LeftCurlyBrace", "RightCurlyBrace", "Terminator", "Eol", "Tilde", "Star", "Minus", "Hash",
    "GreaterThan", "Bang", "Backtick", "Plus", "LeftSquareBracket", "RightSquareBracket", "LeftParenthesis", "RightParenthesis",
    "Underscore", "Pipe", "Space", "Literal", "?",
];

pub fn tokstat(seed: u64, n: usize, dict: &str, dir: &str, file: Option<&str>) -> i32 {
    let texts = match file {
        Some(f) => vec![std::fs::read_to_string(f).expect("read")],
        None => stat_texts(seed, n, dict),
    };
    write_expected(&texts, dir);
    0
}

fn stat_texts(seed: u64, n: usize, dict: &str) -> Vec<String> {
    let d = Dict::load(dict);
    let mut g = Gen::new(mix(seed ^ 0xC24), &d);
    let mut texts: Vec<String> = vec!["".into(), "\n".into(), "a".into(), "\\".into(), "\u{feff}a".into(), "\r".into(), "\r\n".into()];
    for k in ["readme.md", "benches/human_input.yamd", "benches/small.yamd", "benches/random_token_low_density.yamd"] {
        if let Ok(s) = std::fs::read_to_string(format!("/repo/{k}")) {
            texts.push(s);
        }
    }
    // wide characters and marker runs across the sizes at which files are read in pieces
    for at in [4096usize, 8192, 16384, 32768, 65536, 131072, 1 << 20] {
        for (i, x) in ["é", "漢", "😀", "\n\n", "\r\n", "\\*", "{%", "****", "    "].iter().enumerate() {
            if at < 1 << 20 || i < 3 {
                let k = 1 + g.r.below(x.len());
                texts.push(format!("{}{x}{}", "a".repeat(at - k.min(at)), "z*\n"));
            }
        }
    }
    texts.push("*a ".repeat(1_200_000));
    for (_, f) in crate::gen::scale_families() {
        for n in [1, 2, 3, 10, 99, 255, 256, 257, 1000, 70_000] {
            texts.push(f(n));
        }
    }
    // every kind on its own and in pairs
    for a in crate::gen::SYM {
        texts.push(a.to_string());
        for b in crate::gen::SYM {
            if g.r.chance(1, 6) {
                texts.push(format!("{a}{b}"));
            }
        }
    }
    // control characters at the start and at the end
    for c in (0..32u8).chain([127]) {
        texts.push(format!("{}*", c as char));
        texts.push(format!("*{}", c as char));
    }
    // rare characters at the start, at the end and before markers
    for (i, c) in crate::gen::ODD.iter().enumerate() {
        let m = crate::gen::SYM[i % crate::gen::SYM.len()];
        texts.push(format!("{c}*"));
        texts.push(format!("{c}{m}{c}\n"));
        texts.push(format!("*{c}"));
    }
    while texts.len() < n {
        g.max = *g.r.pick(&[120usize, 400, 1500, 4000]);
        texts.push(g.fresh());
    }
    texts
}

fn write_expected(texts: &[String], dir: &str) {
    let mut out = vec![];
    for (i, t) in texts.iter().enumerate() {
        let f = format!("f{i}");
        std::fs::write(format!("{dir}/{f}"), t).expect("write");
        let mut m = Map::new();
        let toks = lex(t);
        for k in &toks {
            let e = m.entry(NAMES[k_id(&k.kind) as usize]).or_insert(json!(0));
            *e = json!(e.as_u64().unwrap() + 1);
        }
        out.push(json!({"file": f, "bytes": t.len(), "total": toks.len(), "counts": m}));
    }
    std::fs::write(format!("{dir}/expected.json"), serde_json::Value::Array(out).to_string()).expect("write");
}

/// Every file of a directory is accepted by the parser.
pub fn accept(dir: &str) -> i32 {
    crate::run::install_hook();
    let mut v: Vec<_> = std::fs::read_dir(dir).expect("dir").filter_map(|e| e.ok()).map(|e| e.path()).collect();
    v.sort();
    for p in v {
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        let Ok(t) = std::fs::read_to_string(&p) else {
            println!("{name} is not UTF-8");
            return 10;
        };
        if !affordable(&t) {
            continue;
        }
        if let Err(m) = crate::run::judge(c01, &Case { text: t, tree: None, aux: 0 }) {
            println!("{name} {m}");
            return 10;
        }
    }
    0
}

/// Texts for the comparison of builds (C31): u32 length and bytes, repeated.
pub fn texts(seed: u64, worker: usize, workers: usize, n: usize, most: usize, dict: &str, out: &str) -> i32 {
    use crate::gen::{depth_families, scale_families, CTX, ODD, SYM};
    let d = Dict::load(dict);
    let mut g = Gen::new(mix(seed ^ 0xC31 ^ ((worker as u64) << 32)), &d);
    let mut v: Vec<String> = vec![];
    let mut k = 0usize;
    let mut put = |v: &mut Vec<String>, s: String| {
        k += 1;
        if k % workers == worker && s.len() <= most {
            v.push(s)
        }
    };
    if most > 1000 {
        for (_, a, b) in CTX {
            put(&mut v, format!("{a}{b}"));
            for x in SYM {
                put(&mut v, format!("{a}{x}{b}"));
                for y in SYM {
                    put(&mut v, format!("{a}{x}{y}{b}"));
                }
            }
            for c in ODD {
                put(&mut v, format!("{a}{c}{b}"));
                put(&mut v, format!("{a}x{c}* {b}"));
            }
            for x in &d.strings {
                put(&mut v, format!("{a}{x}{b}"));
            }
        }
        for x in SYM {
            for y in SYM {
                for z in SYM {
                    put(&mut v, format!("{x}{y}{z}"));
                }
            }
        }
        let mut sizes = crate::gen::BASE_INTS.to_vec();
        sizes.extend(d.ints.iter().filter(|&&n| n < 5000));
        sizes.extend(0..20);
        sizes.sort();
        sizes.dedup();
        for (_, f) in scale_families() {
            for &n in &sizes {
                let s = f(n);
                if affordable(&s) {
                    put(&mut v, s);
                }
            }
            let s = f(70_000);
            if s.len() < 400_000 && affordable(&f(300)) && affordable(&f(3000)) {
                put(&mut v, s);
            }
        }
        for (_, f) in depth_families() {
            for &n in sizes.iter().filter(|&&n| n <= 60) {
                put(&mut v, f(n));
            }
        }
    } else {
        for s in [
            "---\nm: \\1\n---\n\n# a [b](c)", "- a\n - b\n+ c", "{% t\n!! u\n! i\nb\n!!\n%}", "```l\nc\n```\n-----", "{{k|v}}\n\n![a](b)\n![c](d)", "**b _i_ ~~s~~** `c` *e*",
            "a\\*b\r\n\r\n\u{1f600}", "{% a\n{% b\n%}", "!! a\nb", "[a](b(c)", "\\", "- a\n  - b",
        ] {
            put(&mut v, s.to_string());
        }
    }
    let full = v.len() + n;
    while v.len() < full {
        g.max = *g.r.pick(&[60usize, 120, 300, 900]).min(&most);
        g.dirt = *g.r.pick(&[0, 10, 30, 60]);
        let s = g.fresh();
        if s.len() <= most && affordable(&s) {
            v.push(s);
        }
    }
    let mut o = vec![];
    for s in &v {
        o.extend((s.len() as u32).to_le_bytes());
        o.extend(s.as_bytes());
    }
    if most <= 1000 {
        // longer texts, of which the interpreter takes numbers only: two workers have the same, one for each target
        let (pair, pairs) = (worker / 2, (workers / 2).max(1));
        let mut long: Vec<String> = vec![];
        const RUNS: [&str; 14] = ["*", "a", "#", " ", "\n", "~", "}", "{", "-", ">", "!", "`", "+", "é"];
        for (i, x) in RUNS.iter().enumerate() {
            if i % pairs == pair {
                long.push(x.repeat(300));
            }
        }
        long.push(RUNS[(pair + seed as usize * 3) % RUNS.len()].repeat(66_000));
        for s in &long {
            o.extend((s.len() as u32 | 1 << 31).to_le_bytes());
            o.extend(s.as_bytes());
        }
    }
    std::fs::write(out, o).expect("write");
    0
}
