//! Work and memory monitors (features `count` and `tracepc`).
use crate::alloc;
use crate::gen::{Dict, Gen};
use crate::rng::{mix, Rng};
use crate::tree::{self, Style};
use serde_json::{json, Value};
use yamd::lexer::Lexer;

#[cfg(feature = "tracepc")]
mod work {
    use std::cell::UnsafeCell;
    pub struct S<T>(pub UnsafeCell<T>);
    unsafe impl<T> Sync for S<T> {}
    pub static EDGES: S<u64> = S(UnsafeCell::new(0));
    pub static MOVED: S<u64> = S(UnsafeCell::new(0));
    pub static LIMIT: S<u64> = S(UnsafeCell::new(u64::MAX));

    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_pc() {
        unsafe {
            let e = &mut *EDGES.0.get();
            *e += 1;
            if *e > *LIMIT.0.get() {
                libc::_exit(77); // work budget exceeded: the case is in the slot
            }
        }
    }
    // Bulk copies and comparisons are work, too.
    #[inline(always)]
    fn moved(n: usize) {
        unsafe { *MOVED.0.get() += n as u64 }
    }
    unsafe fn fwd(d: *mut u8, s: *const u8, n: usize) {
        std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    }
    unsafe fn bwd(d: *mut u8, s: *const u8, n: usize) {
        std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _,
            inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut core::ffi::c_void, s: *const core::ffi::c_void, n: usize) -> *mut core::ffi::c_void {
        moved(n);
        fwd(d as _, s as _, n);
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut core::ffi::c_void, s: *const core::ffi::c_void, n: usize) -> *mut core::ffi::c_void {
        moved(n);
        if (d as usize).wrapping_sub(s as usize) >= n {
            fwd(d as _, s as _, n)
        } else {
            bwd(d as _, s as _, n)
        }
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memset(d: *mut core::ffi::c_void, c: i32, n: usize) -> *mut core::ffi::c_void {
        moved(n);
        std::arch::asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
        d
    }
    unsafe fn cmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        let mut i = 0;
        while i < n {
            let (x, y) = (std::ptr::read_volatile(a.add(i)), std::ptr::read_volatile(b.add(i)));
            if x != y {
                moved(i);
                return x as i32 - y as i32;
            }
            i += 1;
        }
        moved(n);
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn memcmp(a: *const core::ffi::c_void, b: *const core::ffi::c_void, n: usize) -> i32 {
        cmp(a as _, b as _, n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn bcmp(a: *const core::ffi::c_void, b: *const core::ffi::c_void, n: usize) -> i32 {
        cmp(a as _, b as _, n)
    }
    pub fn reset(limit: u64) {
        unsafe {
            *EDGES.0.get() = 0;
            *MOVED.0.get() = 0;
            *LIMIT.0.get() = limit;
        }
    }
    pub fn get() -> (u64, u64) {
        unsafe { (*EDGES.0.get(), *MOVED.0.get()) }
    }
}
#[cfg(not(feature = "tracepc"))]
mod work {
    pub fn reset(_l: u64) {}
    pub fn get() -> (u64, u64) {
        (0, 0)
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Phase {
    pub edges: u64,
    pub moved: u64,
    pub alloc: u64,
    pub peak: u64,
}
impl Phase {
    /// one scalar: executed edges, bytes moved in bulk and bytes allocated
    pub fn work(&self) -> u64 {
        self.edges + self.moved / 16 + self.alloc / 16
    }
}
pub const PHASES: [&str; 4] = ["tokenize", "parse", "build", "print"];

fn phase<T>(limit: u64, f: impl FnOnce() -> T) -> (T, Phase) {
    alloc::reset_peak();
    let (t0, l0) = (alloc::total(), alloc::live());
    work::reset(limit);
    let r = f();
    let (e, m) = work::get();
    work::reset(u64::MAX);
    (r, Phase { edges: e, moved: m, alloc: alloc::total() - t0, peak: alloc::peak().saturating_sub(l0) })
}

pub struct Cost {
    pub ph: [Phase; 4],
    /// bytes still allocated after everything was dropped
    pub leak: i64,
}

pub fn measure(s: &str, limit: u64) -> Cost {
    let l0 = alloc::live() as i64;
    let (n, a) = phase(limit, || Lexer::new(s).count());
    std::hint::black_box(n);
    let (ops, b) = phase(limit, || yamd::parse(s));
    let (y, c) = phase(limit, || yamd::to_yamd(&ops, s));
    let (t, d) = phase(limit, || y.to_string());
    drop(t);
    drop(y);
    drop(ops);
    Cost { ph: [a, b, c, d], leak: alloc::live() as i64 - l0 }
}

/// Prints a tree, and tokenizes, parses and prints what was printed.
pub fn measure_tree(y: &yamd::nodes::Yamd, limit: u64) {
    let (t, _) = phase(limit, || y.to_string());
    std::hint::black_box(measure(&t, limit).leak);
}

/// Documents of `n` complete blocks.
pub fn block_families(seed: u64, random: usize) -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> = [
        ("paragraph", "some plain words"),
        ("heading", "## a heading"),
        ("heading with link", "# a [b](c) d"),
        ("image", "![alt](src)"),
        ("gallery", "![a](b)\n![c](d)"),
        ("code", "```rust\nlet a = 1;\n```"),
        ("list", "- a\n - b\n- c"),
        ("ordered list", "+ a\n + b\n+ c"),
        ("mixed list", "- a\n + b\n - c\n+ d"),
        ("highlight", "!! title\n! icon\nbody\n\nmore\n!!"),
        ("highlight without icon", "!! title\nbody\n!!"),
        ("thematic break", "-----"),
        ("embed", "{{kind|args}}"),
        ("collapsible", "{% title\nbody\n\n# h\n%}"),
        ("nested collapsible", "{% a\n{% b\nbody\n%}\n%}"),
        ("collapsible with list", "{% a\n- b\n - c\n%}"),
        ("styles", "a **b _c_ ~~d~~** *e* `f` ~~g~~ _h_ [i](j)"),
        ("escapes", "a \\*b\\* \\- c \\[d\\]"),
        ("unclosed inline", "a **b _c `d"),
        ("failed link", "a [b] (c) [d](e"),
        ("failed image", "![a](b) c"),
        ("multi byte", "слово 中文 😀 é"),
        ("crlf", "line one\r\nline two"),
        ("lines", "line one\nline two\nline three"),
        ("failed heading", "#no space"),
        ("failed list", "-a\n+b"),
        ("stars", "a *** b **** c"),
        ("code with markup", "```l\n# h\n- a\n{% t\n%}\n!!\n```"),
        ("bang text", "a !! b ! c !!!"),
    ]
    .iter()
    .map(|(n, t)| (n.to_string(), vec![t.to_string()]))
    .collect();
    let d = Dict { strings: vec![], ints: vec![], chars: vec![], names: vec![] };
    for k in 0..random {
        let mut g = Gen::new(mix(seed ^ 0xC0571 ^ k as u64), &d);
        let mut parts = vec![];
        for _ in 0..1 + g.r.below(6) {
            let b = tree::block(&mut g, Style::Plain, 2);
            let mut y = yamd::nodes::Yamd { metadata: None, body: vec![b] };
            tree::normalize(&mut y, Style::Plain);
            let t = tree::canon(&y);
            if !t.is_empty() && t.len() < 400 {
                parts.push(t)
            }
        }
        if !parts.is_empty() {
            v.push((format!("random mixture {k}"), parts))
        }
    }
    v
}

pub fn blocks(parts: &[String], n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str("\n\n");
        }
        s.push_str(&parts[i % parts.len()]);
    }
    s
}

/// A hostile family: prefix + unit^n + middle + closing^n + suffix
#[derive(Clone, Debug)]
pub struct Fam {
    pub pre: String,
    pub unit: String,
    pub mid: String,
    pub close: String,
    pub post: String,
    pub indent: bool,
}
impl Fam {
    pub fn text(&self, n: usize) -> String {
        let mut s = self.pre.clone();
        for i in 0..n {
            if self.indent {
                s.push_str(&" ".repeat(i));
            }
            s.push_str(&self.unit);
        }
        s.push_str(&self.mid);
        s.push_str(&self.close.repeat(n));
        s.push_str(&self.post);
        s
    }
}

pub fn hostile(r: &mut Rng, k: usize) -> Fam {
    const UNITS: &[&str] = &[
        "{% a\n", "{%\n", "{% ", "{%", "!! a\n", "!!\n", "!!\n! i\n", "```\n", "```a\n", "``` ", "{{", "{{a|", "{{a|b", "[", "[a](", "![", "![a](",
        "![a](b)\n", "(", "**", "*", "_", "~~", "`", "- a\n", "+ a\n", " - a\n", "# [", "# [a](", "---\n", "-----\n", "\\", "a\n", "a\n\n", "\n",
        "**_", "**~~", "[**", "[_", "_[", "`[", "{% a\n!!\n", "{% a\n- b\n", "{% a\n```\n", "!!\n{% a\n", "- {% a\n", "{% a\n[", "{% a\n**", "!! [",
        "!!\n**", "{% a\n{{", "{% a\n![a](", "- [", "- **", "- `", "{% a\n\n", "!!\n\n", "{% a\n%}\n", "a %}\n", "\r\n", "é", "{% a\n# [", "{{a|b}}x\n",
        "```\n{% a\n", "```x\n```y\n", "![a](b)x\n", "![a](b)\n\n", "](", ")](", "[a]", "~", "***", "****", "``", "####### ", "{", "{{{", "}}", "|", ">",
        "!!!\n", "! a\n", "!! a\n! b\nc\n\n", "{% {% a\n", "{% a\n{% b\n",
    ];
    const CLOSE: &[&str] = &["", "", "", "\n%}", "%}", "\n!!", "!!", "\n```", "```", "}}", "](b)", ")", "**", "*", "_", "~~", "`", "]", "\n%}\n!!", "\n\n", "\n"];
    const PRE: &[&str] = &["", "", "", "a ", "{% t\n", "!! t\n", "- a\n - ", "# ", "**", "[", "![a](b)\n", "---\n", "{{", "\n", "```\n"];
    const MID: &[&str] = &["", "", "b", "\n", "\n\n", "](c)", " - x"];
    const POST: &[&str] = &["", "", "", "\n%}", "\n!!", "```", "\n```", "]", ")", "**", "\n\n%}", "}}", "\n\nz"];
    let plain = Fam { pre: String::new(), unit: String::new(), mid: String::new(), close: String::new(), post: String::new(), indent: false };
    let nc = 21;
    // first every unit with every closer, then random combinations
    if k < UNITS.len() * nc {
        return Fam { unit: UNITS[k % UNITS.len()].into(), close: CLOSE[k / UNITS.len() % CLOSE.len()].into(), mid: if k / UNITS.len() > 0 { "b".into() } else { String::new() }, ..plain };
    }
    let mut unit = String::new();
    for _ in 0..1 + r.below(4) {
        unit.push_str(r.pick::<&str>(UNITS));
    }
    let mut close = String::new();
    if r.chance(1, 2) {
        for _ in 0..1 + r.below(2) {
            close.push_str(r.pick::<&str>(CLOSE));
        }
    }
    Fam {
        pre: r.pick::<&str>(PRE).to_string(),
        unit,
        mid: r.pick::<&str>(MID).to_string(),
        close,
        post: r.pick::<&str>(POST).to_string(),
        indent: r.chance(1, 10),
    }
}

pub struct Cfg {
    pub seed: u64,
    pub worker: usize,
    pub workers: usize,
    pub secs: f64,
    pub out: String,
    pub note: String,
    pub thorough: bool,
}

fn put_note(cfg: &Cfg, s: &str) {
    let _ = std::fs::write(&cfg.note, s);
}

/// C20: work.
pub fn run_work(cfg: &Cfg) -> i32 {
    let start = std::time::Instant::now();
    let mut evals = 0u64;
    let mut viol: Option<Value> = None;
    let mut lin = vec![];
    let mut worst_lin = (0.0f64, String::new());
    let mut worst_host = (0.0f64, String::new());
    let mut sigs = std::collections::HashSet::new();
    let sizes: [usize; 3] = [400, 3200, 25600];
    // 1. documents of complete constructs: eight times the size, (about) eight times the work, in every phase
    let mut fams: Vec<(String, Box<dyn Fn(usize) -> String>)> = vec![];
    for (name, parts) in block_families(cfg.seed, if cfg.thorough { 400 } else { 60 }) {
        let p = parts.clone();
        fams.push((format!("blocks: {name}"), Box::new(move |n| blocks(&p, n))));
        let p = parts.clone();
        fams.push((format!("CRLF blocks: {name}"), Box::new(move |n| blocks(&p, n).replace("\r\n", "\n").replace('\n', "\r\n"))));
        if !parts.iter().any(|t| t.contains("%}\n```") || t.starts_with("---\n")) {
            let p = parts.clone();
            fams.push((format!("in a collapsible: {name}"), Box::new(move |n| format!("{{% t\n{}\n%}}\n\nend", blocks(&p, n)))));
            fams.push((
                format!("in three collapsibles: {name}"),
                Box::new(move |n| format!("{{% t\n{{% u\na\n\n{{% v\n{}\n%}}\n%}}\n%}}", blocks(&parts, n))),
            ));
        }
    }
    for (name, f) in crate::gen::scale_families() {
        if name != "anchor parens open" {
            fams.push((name.to_string(), Box::new(f)));
        }
    }
    let linear = fams.len();
    'l: for (i, (name, f)) in fams.iter().enumerate() {
        if i % cfg.workers != cfg.worker {
            continue;
        }
        let mut m = vec![];
        for &n in sizes.iter().take(if cfg.thorough || !name.contains("random") { 3 } else { 2 }) {
            let t = f(n);
            // the small document first: the large one may use at most 40 times its edges
            let limit = m.last().map_or(3_000_000_000, |c: &Cost| 40 * c.ph.iter().map(|p| p.edges).max().unwrap_or(0) + 10_000_000);
            let show: String = t.chars().take(300).collect();
            put_note(cfg, &json!({"what": "linear", "family": name, "n": n, "limit": limit, "text_len": t.len(), "text": t, "start": show}).to_string());
            m.push(measure(&t, limit));
            evals += 1;
            sigs.insert(crate::rng::hash_bytes(t.as_bytes()));
        }
        for (k, p) in (1..m.len()).flat_map(|k| (0..4).map(move |p| (k, p))) {
            let (a, b) = (m[k - 1].ph[p].work(), m[k].ph[p].work());
            let ratio = b as f64 / (a + 2000) as f64;
            if ratio > worst_lin.0 {
                worst_lin = (ratio, format!("{name}/{}", PHASES[p]));
            }
            if ratio > 8.0 * 1.25 {
                let t = f(sizes[k]);
                viol = Some(json!({"message": format!("{name}: size {} costs {a} units to {}, size {} costs {b}: {ratio:.1} times the work for 8 times the text {:?}…", sizes[k - 1], PHASES[p], sizes[k], t.chars().take(120).collect::<String>()), "kind": "linear", "text": t}));
                break 'l;
            }
        }
        if lin.len() < 4 {
            lin.push(json!({"family": name, "sizes": sizes, "work": m.iter().map(|c| c.ph.iter().map(|p| p.work()).collect::<Vec<_>>()).collect::<Vec<_>>()}));
        }
    }
    // 2. hostile families: a doubled family may cost at most 40 times as much
    let mut r = Rng::new(mix(cfg.seed ^ 0x20 ^ ((cfg.worker as u64) << 40)));
    let mut k = cfg.worker;
    let mut fams_seen = 0u64;
    while viol.is_none() && start.elapsed().as_secs_f64() < cfg.secs {
        let f = hostile(&mut r, k);
        k += cfg.workers;
        fams_seen += 1;
        let mut prev: Option<u64> = None;
        let mut n = 10;
        loop {
            let t = f.text(n);
            let limit = match prev {
                None => 400_000_000,
                Some(p) => 40 * p + 4_000_000,
            };
            put_note(cfg, &json!({"what": "hostile", "family": format!("{f:?}"), "n": n, "limit": limit, "prev": prev, "text": t}).to_string());
            let c = measure(&t, limit);
            evals += 1;
            sigs.insert(crate::rng::hash_bytes(t.as_bytes()));
            let w: u64 = c.ph.iter().map(|p| p.work()).sum();
            if let Some(p) = prev {
                let ratio = w as f64 / (p + 20_000) as f64;
                if ratio > worst_host.0 {
                    worst_host = (ratio, format!("{f:?} n={n}"));
                }
                if ratio > 40.0 {
                    viol = Some(json!({"message": format!("doubling {f:?} to n={n} multiplies the work by {ratio:.0} ({p} -> {w})"), "kind": "hostile", "text": t}));
                    break;
                }
            }
            prev = Some(w);
            n *= 2;
            if n > 160 || w > 6_000_000 {
                break;
            }
        }
    }
    let mut o = json!({"evaluations": evals, "hostile_families": fams_seen, "linear_families": linear, "worst_linear": [worst_lin.0, worst_lin.1], "worst_hostile": [worst_host.0, worst_host.1],
        "samples": lin, "distinct": sigs.len(), "wall": start.elapsed().as_secs_f64()});
    let code = if let Some(v) = viol {
        o["violation"] = v;
        1
    } else {
        0
    };
    std::fs::write(&cfg.out, o.to_string()).expect("write the result");
    code
}

/// C21: memory.
pub fn run_memory(cfg: &Cfg) -> i32 {
    let start = std::time::Instant::now();
    let mut evals = 0u64;
    let mut viol: Option<Value> = None;
    let mut worst = (0.0f64, String::new());
    let mut worst_byte = (0.0f64, String::new());
    let mut samples = vec![];
    let mut sigs = std::collections::HashSet::new();
    // warm up lazily initialised runtime state
    std::hint::black_box(measure("# a\n\n- b\n\n{% t\nc\n%}", u64::MAX).leak);

    let mut check = |name: &str, t: &str, evals: &mut u64| -> Result<[u64; 4], Value> {
        put_note(cfg, &json!({"what": "memory", "family": name, "text_len": t.len()}).to_string());
        let c = measure(t, u64::MAX);
        *evals += 1;
        let show: String = t.chars().take(200).collect();
        if c.leak != 0 {
            return Err(json!({"message": format!("{} bytes are still allocated after dropping every result of {name} ({} bytes of text): {show:?}", c.leak, t.len()), "text": t}));
        }
        if c.ph[0].peak > LEX_CONST {
            return Err(json!({"message": format!("tokenizing {name} ({} bytes) needs {} bytes beyond the tokens handed out: {show:?}", t.len(), c.ph[0].peak), "text": t}));
        }
        for p in 1..4 {
            let per = c.ph[p].peak.saturating_sub(16_384) as f64 / t.len().max(1) as f64;
            if per > worst_byte.0 {
                worst_byte = (per, format!("{name}/{}", PHASES[p]));
            }
            if per > PER_BYTE {
                return Err(json!({"message": format!("peak memory to {} {name} is {} for {} bytes of text: {show:?}", PHASES[p], c.ph[p].peak, t.len()), "text": t}));
            }
        }
        Ok([c.ph[0].peak, c.ph[1].peak, c.ph[2].peak, c.ph[3].peak])
    };

    // families of growing size
    let mut fams: Vec<(String, Box<dyn Fn(usize) -> String>, usize)> = vec![];
    for (n, f) in crate::gen::scale_families() {
        let max = if crate::gen::affordable(&f(1000)) { 16_000 } else { 480 };
        fams.push((n.to_string(), Box::new(f), max));
    }
    for (n, f) in crate::gen::depth_families() {
        fams.push((n.to_string(), Box::new(f), 480));
    }
    for (n, parts) in block_families(cfg.seed, if cfg.thorough { 200 } else { 40 }) {
        fams.push((format!("blocks: {n}"), Box::new(move |k| blocks(&parts, k)), 8000));
    }
    // nested, every level with a sizeable body
    for (n, open, body, close) in [
        ("big nested collapsibles", "{% t\n", "word word word word word word\n\n", "\n%}\n\n"),
        ("big nested titles", "{% a long title of a collapsible block\n", "", "\n%}"),
        ("nested collapsibles with code", "{% t\n```l\nlet a = 1;\nlet b = 2;\n```\n\n", "", "\n%}"),
        ("nested collapsibles with lists", "{% t\n- a\n - b\n- c\n\n", "", "\n%}"),
        ("nested collapsibles with highlights", "{% t\n!! h\n! i\nbody of it\n!!\n\n", "", "\n%}"),
    ] {
        fams.push((n.to_string(), Box::new(move |k| format!("{}{}{}", format!("{open}{body}").repeat(k), "b", close.repeat(k))), 480));
    }
    // deep and large at once: depth and body grow together
    for (n, body) in [
        ("paragraphs", "word *b*\n\n"),
        ("lines", "a\n"),
        ("items", "- a\n"),
        ("ordered items", "+ a [b](c)\n"),
        ("images", "![a](b)\n"),
        ("code", "```l\nc\n```\n"),
        ("highlights", "!! t\nb\n!!\n"),
        ("headings", "# h\n\n"),
        ("escapes", "\\*\\_"),
        ("styles", "**b** _i_ "),
        ("collapsibles", "{% u\nb\n%}\n"),
        ("stray openers", "!! \n\n[ ` ** \n\n"),
    ] {
        let b = body.to_string();
        fams.push((format!("{n} inside nested collapsibles"), Box::new(move |k| format!("{}{}{}", "{% t\n".repeat(1 + k / 20), b.repeat(k), "\n%}".repeat(1 + k / 20))), 1600));
        let b = body.to_string();
        fams.push((format!("{n} after nested collapsibles"), Box::new(move |k| format!("{}x{}\n\n{}", "{% t\n".repeat(1 + k / 20), "\n%}".repeat(1 + k / 20), b.repeat(k))), 1600));
        let b = body.to_string();
        fams.push((
            format!("{n} between the ends of nested collapsibles"),
            Box::new(move |k| format!("{}x{}", "{% t\n".repeat(1 + k / 20), format!("\n%}}\n{}", b.repeat(20)).repeat(1 + k / 20))),
            1600,
        ));
    }
    for (n, m) in [("items at the bottom of nested lists", '-'), ("ordered items at the bottom of nested lists", '+')] {
        fams.push((
            n.into(),
            Box::new(move |k| {
                let d = 1 + k / 20;
                let mut s: String = (0..d).map(|i| format!("{}{m} a\n", " ".repeat(i))).collect();
                s.push_str(&format!("{}{m} a b c\n", " ".repeat(d)).repeat(k));
                s.push_str(&format!("{m} end"));
                s
            }),
            1200,
        ));
    }
    fams.push(("nested lists with text".into(), Box::new(|k| (0..k).map(|i| format!("{}- some words for item {i}\n", " ".repeat(i))).collect()), 480));
    {
        let mut r = Rng::new(mix(cfg.seed ^ 0x21));
        for k in 0..if cfg.thorough { 2600 } else { 1900 } {
            let f = hostile(&mut r, k);
            fams.push((format!("{f:?}"), Box::new(move |n| f.text(n)), 64));
        }
    }
    for (i, (name, f, max)) in fams.iter().enumerate() {
        if i % cfg.workers != cfg.worker || viol.is_some() {
            continue;
        }
        let mut prev: Option<([u64; 4], usize)> = None;
        // three sizes, each (about) eight times the text of the one before
        let mut ns = vec![(*max / 64).max(1), (*max / 8).max(2), *max];
        ns.dedup();
        for n in ns {
            let t = f(n);
            if t.len() > 1_500_000 {
                break;
            }
            sigs.insert(crate::rng::hash_bytes(t.as_bytes()));
            match check(name, &t, &mut evals) {
                Err(v) => {
                    viol = Some(v);
                    break;
                }
                Ok(p) => {
                    if let Some((q, len)) = prev {
                        let scale = t.len() as f64 / len as f64;
                        for k in 1..4 {
                            let ratio = p[k] as f64 / (q[k] + 8192) as f64 / scale;
                            if ratio > worst.0 {
                                worst = (ratio, format!("{name}/{} n={n}", PHASES[k]));
                            }
                            if ratio > 2.0 {
                                viol = Some(json!({"message": format!("peak memory to {} {name}: {} bytes for {len} bytes of text, {} for {}", PHASES[k], q[k], p[k], t.len()), "text": t}));
                            }
                        }
                    }
                    if samples.len() < 4 {
                        samples.push(json!({"family": name, "n": n, "text_len": t.len(), "peaks": p}));
                    }
                    prev = Some((p, t.len()));
                }
            }
            if viol.is_some() {
                break;
            }
        }
    }
    // random documents: nothing leaks, peaks stay proportional
    let d = Dict { strings: vec![], ints: vec![], chars: vec![], names: vec![] };
    let mut round = 0u64;
    while viol.is_none() && start.elapsed().as_secs_f64() < cfg.secs {
        round += 1;
        let mut g = Gen::new(mix(cfg.seed ^ 0x2121 ^ (round << 16) ^ cfg.worker as u64), &d);
        for _ in 0..100 {
            let s = g.fresh();
            if !crate::gen::affordable(&s) {
                continue;
            }
            sigs.insert(crate::rng::hash_bytes(s.as_bytes()));
            if let Err(v) = check("a random document", &s, &mut evals) {
                viol = Some(v);
                break;
            }
        }
    }
    let mut o = json!({"evaluations": evals, "families": fams.len(), "worst_growth": [worst.0, worst.1], "worst_per_byte": [worst_byte.0, worst_byte.1],
        "samples": samples, "distinct": sigs.len(), "wall": start.elapsed().as_secs_f64()});
    let code = if let Some(v) = viol {
        o["violation"] = v;
        1
    } else {
        0
    };
    std::fs::write(&cfg.out, o.to_string()).expect("write the result");
    code
}

/// bytes a lexer may hold (its queue), whatever the text
const LEX_CONST: u64 = 16_384;
/// peak bytes per byte of text in any phase (measured maximum: about 140)
const PER_BYTE: f64 = 600.0;
