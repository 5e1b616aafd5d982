//! C19: purity monitor. Reference results come from fresh processes (one fork per text, from a process that
//! has never called the crate); every other execution — any history, repetition, placement of the text in
//! memory, environment, thread — must give the same digest, and values returned earlier must not change.
use crate::gen::{affordable, Dict, Gen};
use crate::rng::{hash_bytes, mix, Rng};
use serde_json::json;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use yamd::lexer::{Lexer, Token};
use yamd::nodes::Yamd;

struct H(u64, u64);
impl std::fmt::Write for H {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.as_bytes() {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        self.1 += s.len() as u64;
        Ok(())
    }
}
fn hash_dbg<T: std::fmt::Debug + ?Sized>(t: &T) -> u64 {
    let mut h = H(0xcbf29ce484222325, 0);
    let _ = write!(h, "{t:?}");
    mix(h.0 ^ h.1)
}

/// digests of the tokens, the events, the tree and the printed text
pub type Dig = [u64; 4];

fn utf8(s: &str) -> bool {
    std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_ok()
}
fn utf8_tree(y: &Yamd) -> bool {
    let mut ok = true;
    crate::treeio::each(y, &mut |_, s| ok &= utf8(s));
    ok
}

fn panic_dig() -> Dig {
    [u64::MAX, 1, 1, 1]
}

pub fn digest(s: &str) -> Dig {
    catch_unwind(AssertUnwindSafe(|| {
        let toks: Vec<Token> = Lexer::new(s).collect();
        let ops = yamd::parse(s);
        let y = yamd::to_yamd(&ops, s);
        let p = y.to_string();
        if !utf8(&p) || !utf8_tree(&y) {
            return [u64::MAX, 2, 2, 2];
        }
        if yamd::deserialize(s) != y {
            return [u64::MAX, 3, 3, 3];
        }
        [hash_dbg(&toks), hash_dbg(&ops), hash_dbg(&y), hash_bytes(p.as_bytes())]
    }))
    .unwrap_or_else(|_| panic_dig())
}

// ---------------------------------------------------------------- fresh processes

struct Zygote {
    to: std::fs::File,
    from: std::fs::File,
    pid: i32,
}

fn read_exact(f: &mut std::fs::File, b: &mut [u8]) -> bool {
    use std::io::Read;
    f.read_exact(b).is_ok()
}

impl Zygote {
    /// Must be called before the process ever calls the crate.
    fn start() -> Zygote {
        use std::io::Write;
        use std::os::unix::io::FromRawFd;
        let mut a = [0i32; 2];
        let mut b = [0i32; 2];
        unsafe {
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::close(a[1]);
                libc::close(b[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let mut rx = std::fs::File::from_raw_fd(a[0]);
                let mut tx = std::fs::File::from_raw_fd(b[1]);
                loop {
                    let mut l = [0u8; 8];
                    if !read_exact(&mut rx, &mut l) {
                        libc::_exit(0);
                    }
                    let mut t = vec![0u8; u64::from_le_bytes(l) as usize];
                    if !read_exact(&mut rx, &mut t) {
                        libc::_exit(0);
                    }
                    let c = libc::fork();
                    if c == 0 {
                        let s = String::from_utf8(t).unwrap_or_default();
                        let d = digest(&s);
                        let mut o = [0u8; 32];
                        for (i, v) in d.iter().enumerate() {
                            o[i * 8..i * 8 + 8].copy_from_slice(&v.to_le_bytes());
                        }
                        let ok = tx.write_all(&o).is_ok();
                        libc::_exit(if ok { 0 } else { 1 });
                    }
                    let mut st = 0;
                    libc::waitpid(c, &mut st, 0);
                    if c < 0 || st != 0 {
                        // the fresh process died: report it as a digest of its own
                        let mut o = [0xEEu8; 32];
                        o[0] = st as u8;
                        let _ = tx.write_all(&o);
                    }
                }
            }
            libc::close(a[0]);
            libc::close(b[1]);
            Zygote { to: std::fs::File::from_raw_fd(a[1]), from: std::fs::File::from_raw_fd(b[0]), pid }
        }
    }
    fn fresh(&mut self, s: &str) -> Dig {
        use std::io::Write;
        let mut m = (s.len() as u64).to_le_bytes().to_vec();
        m.extend_from_slice(s.as_bytes());
        self.to.write_all(&m).expect("zygote");
        let mut o = [0u8; 32];
        assert!(read_exact(&mut self.from, &mut o), "zygote answer");
        let mut d = [0u64; 4];
        for i in 0..4 {
            d[i] = u64::from_le_bytes(o[i * 8..i * 8 + 8].try_into().unwrap());
        }
        d
    }
}
impl Drop for Zygote {
    fn drop(&mut self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
            libc::waitpid(self.pid, std::ptr::null_mut(), 0);
        }
    }
}

// ---------------------------------------------------------------- workload

pub struct Cfg {
    pub seed: u64,
    pub worker: usize,
    pub workers: usize,
    pub secs: f64,
    pub rounds: u64,
    pub dict: String,
    pub out: String,
    /// "full", or "san" for the instrumented builds (no forks; references computed in process)
    pub mode: String,
    pub texts: usize,
}

struct Text {
    s: String,
    want: Dig,
}

/// A writer with room for so many bytes.
struct Room(usize);
impl std::fmt::Write for Room {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(std::fmt::Error)?;
        Ok(())
    }
}

#[derive(Default)]
struct Stats {
    calls: AtomicU64,
    fresh: AtomicU64,
    held: AtomicU64,
    placed: AtomicU64,
    threaded: AtomicU64,
    threads: AtomicU64,
    shared: AtomicU64,
    interleaved: AtomicU64,
    after_errors: AtomicU64,
    after_large: AtomicU64,
    env: AtomicU64,
    worlds: AtomicU64,
    long: AtomicU64,
}

type R = Result<(), String>;

fn show(s: &str) -> String {
    let t: String = s.chars().take(300).collect();
    if t.len() < s.len() {
        format!("{t:?}… ({} bytes)", s.len())
    } else {
        format!("{t:?}")
    }
}

fn what(a: &Dig, b: &Dig) -> String {
    if a[0] == u64::MAX || b[0] == u64::MAX {
        let v = if a[0] == u64::MAX { a[1] } else { b[1] };
        return match v {
            1 => "one of the calls panicked".into(),
            2 => "returned text is not UTF-8".into(),
            _ => "deserialize differs from to_yamd of parse".into(),
        };
    }
    let n = ["tokens", "events", "tree", "printed text"];
    (0..4).filter(|&i| a[i] != b[i]).map(|i| n[i]).collect::<Vec<_>>().join(", ")
}

fn check(t: &Text, got: &Dig, how: &str) -> R {
    if *got == t.want {
        Ok(())
    } else {
        Err(format!("{how}: {} differ from those of a fresh process for {}", what(got, &t.want), show(&t.s)))
    }
}

/// A returned value kept while other calls run.
struct Held {
    i: usize,
    toks: Vec<Token>,
    ops: Vec<yamd::op::Op>,
    y: Yamd,
    p: String,
}
impl Held {
    fn new(i: usize, s: &str) -> Held {
        let ops = yamd::parse(s);
        let y = yamd::to_yamd(&ops, s);
        Held { i, toks: Lexer::new(s).collect(), p: y.to_string(), ops, y }
    }
    fn dig(&self) -> Dig {
        [hash_dbg(&self.toks), hash_dbg(&self.ops), hash_dbg(&self.y), hash_bytes(self.p.as_bytes())]
    }
}

fn repo_texts() -> Vec<String> {
    let mut v = vec![];
    for p in ["/repo/README.md", "/repo/benches/human_text.yamd"] {
        if let Ok(s) = std::fs::read_to_string(p) {
            v.extend(s.split("\n\n").map(|x| x.to_string()));
            v.push(s);
        }
    }
    v
}

fn corpus(cfg: &Cfg, d: &Dict, round: u64, n: usize) -> Vec<String> {
    let mut g = Gen::new(mix(cfg.seed ^ 0xC19 ^ (round << 20) ^ ((cfg.worker as u64) << 50)), d);
    let mut v: Vec<String> = vec![];
    let fixed = repo_texts();
    let fams = crate::gen::scale_families();
    let deep = crate::gen::depth_families();
    while v.len() < n {
        let k = g.r.below(20);
        let s = match k {
            0 if !fixed.is_empty() => g.r.pick(&fixed).clone(),
            1 => {
                let f = g.r.pick(&fams).1;
                let n = *g.r.pick(&[0, 1, 2, 3, 7, 16, 31, 64, 100, 255, 256, 257, 1000, 4096]);
                f(n)
            }
            2 => {
                let f = g.r.pick(&deep).1;
                f(g.r.below(30))
            }
            3 if !v.is_empty() => {
                // the same text but for one character: stale results of the neighbour are seen
                let s = g.r.pick(&v).clone();
                let at = g.r.below(s.chars().count().max(1));
                s.chars().enumerate().map(|(i, c)| if i == at { if c == 'q' { 'r' } else { 'q' } } else { c }).collect()
            }
            4 if !v.is_empty() => {
                // the same length, other content
                let s = g.r.pick(&v).clone();
                s.chars().map(|c| if c.is_ascii_alphabetic() { 'x' } else { c }).collect()
            }
            5 if !v.is_empty() => {
                let s = g.r.pick(&v).clone();
                let n = s.chars().count();
                let k = g.r.below(n + 1);
                s.chars().take(k).collect()
            }
            _ => g.fresh(),
        };
        if s.len() < 70_000 && affordable(&s) && (cfg.mode == "full" || s.len() < 3000) {
            v.push(s)
        }
    }
    v
}

/// one text for each place that can hold text, with and without escapes
fn kit_texts() -> Vec<String> {
    let mut v = vec![];
    for f in ["a", "b\\*c", "\\q\\r s"] {
        for (a, b) in HOLDERS {
            v.push(format!("{a}{f}{b}"));
        }
    }
    v
}

const HOLDERS: [(&str, &str); 17] = [
    ("", ""), ("# ", "\n\nz"), ("- ", "\n- y"), ("- x\n - ", ""), ("+ ", ""), ("**", "**"), ("x _", "_ y"), ("~~", "~~"), ("`", "`"), ("[", "](u)"), ("[t](", ")"),
    ("![", "](u)\n![c](d)"), ("```", "\nx\n```"), ("```l\n", "\n```"), ("!! ", "\n! i\nq\n!!"), ("{% ", "\nx\n%}"), ("---\n", "\n---\n\nz"),
];

fn large_text(r: &mut Rng) -> String {
    let n = *r.pick(&[100, 250, 260, 500, 520, 1000, 1030, 2000, 2050, 4000, 4100, 8200, 16400, 33000, 66000, 140000]) + r.below(40);
    let unit = *r.pick(&["a", "\\a", "b\\*", "x y ", "\\\\", "é", "a\nb", "\\_ "]);
    let mut body = unit.repeat(n / unit.len() + 1);
    if r.chance(1, 2) {
        body.insert_str(body.len() / 2 / unit.len() * unit.len(), "\\z");
    }
    let (a, b) = *r.pick(&HOLDERS);
    match r.below(4) {
        // many small ones
        0 => (0..n / 20).map(|i| { let (a, b) = HOLDERS[(i + n) % 16]; format!("{a}{unit}{b}") }).collect::<Vec<_>>().join("\n\n"),
        // never closed
        1 => format!("{a}{body}"),
        _ => format!("{a}{body}{b}"),
    }
}

const TAILS: &[&str] = &["\n%}", "**", "}}", "```", "\n!!", "](u)", " x", "\n\n", "\\", "*", "é", "😀", "\r\n", "---", "a", ")", "~~", "_", "\n - b"];
const HEADS: &[&str] = &["", "\\", "a", "é", "\r", "{% t\n", "**", "- ", "\n", "😀", "---\n", "!! ", "ab", "abc"];

/// For the undefined-behaviour interpreter: small texts, every call once or twice, two threads.
fn run_miri(cfg: &Cfg) -> i32 {
    let d = Dict::load(&cfg.dict);
    let start = std::time::Instant::now();
    let mut g = Gen::new(mix(cfg.seed ^ 0x3141 ^ ((cfg.worker as u64) << 50)), &d);
    let mut n = 0u64;
    let mut samples = vec![];
    let fixed = [
        "---\nm: 1\n---\n\n## h [a](u) é\n\np **b _i_ ~~s~~** `c` *e* \\* q\r\nz",
        "- a\n - b _i_\n  + c\n- d\n\n![a](b)\n![c](d)\n\n![e](f)\n\n-----\n\n{{k|v}}",
        "{% t\n!! t\n! i\na 😀\n\nb\n!!\n\n```l\nc\n```\n%}\n\n!!\nx\n!!",
        "# \\# [a\n\n**a _b\n- \n{% \n!!! é```\\",
    ];
    let mut viol: Option<String> = None;
    while viol.is_none() && (n == 0 || start.elapsed().as_secs_f64() < cfg.secs) && (cfg.rounds == 0 || n < cfg.rounds) {
        let s: Box<str> = if (n as usize) < fixed.len() && cfg.worker == 0 {
            fixed[n as usize].into()
        } else {
            let mut t = g.fresh();
            while t.len() > 70 {
                t.pop();
            }
            t.into_boxed_str()
        };
        if samples.len() < 4 {
            samples.push(s.to_string());
        }
        n += 1;
        let toks = Lexer::new(&s).count();
        let ops = yamd::parse(&s);
        let y = yamd::to_yamd(&ops, &s);
        let p = y.to_string();
        if !utf8(&p) || !utf8_tree(&y) {
            viol = Some(format!("returned text is not UTF-8 for {}", show(&s)));
        }
        if n % 4 == 1 {
            let (q, z) = std::thread::scope(|sc| {
                let a = sc.spawn(|| y.to_string());
                let b = sc.spawn(|| yamd::to_yamd(&ops, &s));
                (a.join().unwrap(), b.join().unwrap())
            });
            if q != p || z != y || yamd::try_to_yamd(&ops, &s).ok().as_ref() != Some(&y) || toks < Lexer::new(&s).count() {
                viol = Some(format!("concurrent reads differ for {}", show(&s)));
            }
        }
    }
    let mut o = json!({"evaluations": n, "samples": samples, "wall": start.elapsed().as_secs_f64()});
    if let Some(m) = &viol {
        o["violation"] = json!({"message": m, "worker": cfg.worker, "workers": cfg.workers, "seed": cfg.seed, "rounds": n, "texts": cfg.texts});
    }
    std::fs::write(&cfg.out, o.to_string()).expect("write the result");
    viol.is_some() as i32
}

pub fn run(cfg: &Cfg) -> i32 {
    crate::run::install_hook();
    if cfg.mode == "miri" {
        return run_miri(cfg);
    }
    let mut zyg = if cfg.mode == "full" { Some(Zygote::start()) } else { None };
    assert!(cfg.mode != "full" || crate::world::works(), "the clock and the environment are not hooked");
    let d = Dict::load(&cfg.dict);
    let st = Stats::default();
    let start = std::time::Instant::now();
    let mut round = 0u64;
    let mut viol: Option<String> = None;
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    loop {
        if cfg.rounds > 0 {
            if round >= cfg.rounds {
                break;
            }
        } else if start.elapsed().as_secs_f64() >= cfg.secs {
            break;
        }
        let strs = corpus(cfg, &d, round, cfg.texts);
        let mut texts = vec![];
        for s in strs {
            let want = match &mut zyg {
                Some(z) => z.fresh(&s),
                None => digest(&s),
            };
            st.fresh.fetch_add(1, Relaxed);
            sigs.insert(want[0] ^ want[2].rotate_left(17));
            if samples.len() < 5 && s.len() < 200 && s.len() > 10 {
                samples.push(s.clone());
            }
            texts.push(Text { s, want });
        }
        let (mut large, mut kit) = (vec![], vec![]);
        if let Some(z) = &mut zyg {
            let mut r = Rng::new(mix(cfg.seed ^ 0x1a46e ^ (round << 24) ^ ((cfg.worker as u64) << 44)));
            for s in kit_texts() {
                let want = z.fresh(&s);
                kit.push(Text { s, want });
            }
            for _ in 0..8 {
                let s = large_text(&mut r);
                if affordable(&s) {
                    let want = z.fresh(&s);
                    large.push(Text { s, want });
                }
            }
            st.fresh.fetch_add((kit.len() + large.len()) as u64, Relaxed);
        }
        let r = one_round(cfg, round, &texts, &large, &kit, &st);
        round += 1;
        if let Err(m) = r {
            viol = Some(m);
            break;
        }
    }
    let v = |a: &AtomicU64| a.load(Relaxed);
    let mut o = json!({
        "evaluations": v(&st.calls), "rounds": round, "distinct": sigs.len(), "samples": samples, "wall": start.elapsed().as_secs_f64(),
        "events": {
            "reference executions": v(&st.fresh), "held values re-read": v(&st.held), "placements in memory": v(&st.placed),
            "calls on concurrent threads": v(&st.threaded), "threads": v(&st.threads), "concurrent reads of one shared value": v(&st.shared),
            "interleaved tokenizations": v(&st.interleaved), "calls after refused event streams and failed prints": v(&st.after_errors),
            "calls after large ones": v(&st.after_large),
            "calls after environment changes": v(&st.env), "calls in a world of another clock and other variables": v(&st.worlds),
            "looks of the crate at the clock": v(&crate::world::LOOKS[0]), "looks of the crate at the environment": v(&crate::world::LOOKS[1]), "calls of the long histories": v(&st.long),
        },
    });
    let mut sigfile: Vec<u8> = vec![];
    for s in &sigs {
        sigfile.extend_from_slice(&s.to_le_bytes());
    }
    let _ = std::fs::write(format!("{}.sigs", cfg.out), sigfile);
    let code = if let Some(m) = viol {
        o["violation"] = json!({"message": m, "worker": cfg.worker, "workers": cfg.workers, "seed": cfg.seed, "rounds": round, "texts": cfg.texts});
        1
    } else {
        0
    };
    std::fs::write(&cfg.out, o.to_string()).expect("write the result");
    code
}

fn one_round(cfg: &Cfg, round: u64, texts: &[Text], large: &[Text], kit: &[Text], st: &Stats) -> R {
    let san = cfg.mode != "full";
    let mut r = Rng::new(mix(cfg.seed ^ 0x1919 ^ (round << 24) ^ ((cfg.worker as u64) << 44)));
    let n = texts.len();

    // 1. any history: every text after random others, with values held across the calls
    let mut held: Vec<Held> = vec![];
    for k in 0..if san { n } else { 2 * n } {
        let i = r.below(n);
        check(&texts[i], &digest(&texts[i].s), "after other calls")?;
        st.calls.fetch_add(1, Relaxed);
        if k % 5 == 0 {
            held.push(Held::new(i, &texts[i].s));
        }
        if held.len() > 24 {
            let h = held.swap_remove(r.below(held.len()));
            check(&texts[h.i], &h.dig(), "a value returned earlier, read again after other calls")?;
            st.held.fetch_add(1, Relaxed);
        }
    }
    for h in &held {
        check(&texts[h.i], &h.dig(), "a value returned earlier, read again after other calls")?;
        let t = &texts[h.i];
        // the same events read again, the same tree printed again
        let y = yamd::to_yamd(&h.ops, &t.s);
        check(t, &[t.want[0], t.want[1], hash_dbg(&y), hash_bytes(h.y.to_string().as_bytes())], "the same events and tree used a second time")?;
        st.held.fetch_add(2, Relaxed);
    }
    // 2. repetition of one call
    for _ in 0..if san { 3 } else { 12 } {
        let t = &texts[r.below(n)];
        if t.s.len() > 3000 {
            continue;
        }
        for _ in 0..25 {
            check(t, &digest(&t.s), "repeated call")?;
            st.calls.fetch_add(1, Relaxed);
        }
    }
    // 3. the same text elsewhere in memory: any alignment, any neighbours; exact allocations
    for _ in 0..if san { n / 2 } else { n } {
        let t = &texts[r.below(n)];
        if r.chance(1, 3) {
            let b: Box<str> = t.s.clone().into_boxed_str();
            check(t, &digest(&b), "text in an allocation of its own")?;
        } else {
            let mut buf = String::with_capacity(t.s.len() + 64);
            for _ in 0..r.below(4) {
                buf.push_str(r.pick::<&str>(HEADS));
            }
            let at = buf.len();
            buf.push_str(&t.s);
            let end = buf.len();
            for _ in 0..1 + r.below(3) {
                buf.push_str(r.pick::<&str>(TAILS));
            }
            let copy = buf.clone();
            check(t, &digest(&buf[at..end]), &format!("text inside a larger one, between {:?} and {:?}", &copy[..at], &copy[end..]))?;
            if buf != copy {
                return Err(format!("a call changed its input {}", show(&copy)));
            }
        }
        st.placed.fetch_add(1, Relaxed);
        st.calls.fetch_add(1, Relaxed);
    }
    // one buffer, other contents: same address, often the same length
    let mut buf = String::with_capacity(80_000);
    for _ in 0..if san { 20 } else { n } {
        let t = &texts[r.below(n)];
        for s in [t.s.as_str(), &t.s.chars().map(|c| if c.is_ascii_alphanumeric() { 'z' } else { c }).collect::<String>(), t.s.as_str()] {
            buf.clear();
            buf.push_str(s);
            let d = digest(&buf);
            if std::ptr::eq(s, t.s.as_str()) {
                check(t, &d, "in a buffer that held another text before")?;
            }
            st.placed.fetch_add(1, Relaxed);
            st.calls.fetch_add(1, Relaxed);
        }
    }
    // 4. several tokenizations in progress at once, some never finished
    for _ in 0..if san { 10 } else { 40 } {
        let ix: Vec<usize> = (0..3).map(|_| r.below(n)).collect();
        let mut ls: Vec<Lexer> = ix.iter().map(|&i| Lexer::new(&texts[i].s)).collect();
        let mut out: Vec<Vec<Token>> = vec![vec![]; 3];
        let mut dropped = Lexer::new(&texts[r.below(n)].s);
        for _ in 0..r.below(9) {
            let _ = dropped.next();
        }
        drop(dropped);
        let mut live = [true; 3];
        while live.iter().any(|&x| x) {
            let k = r.below(3);
            if live[k] {
                match ls[k].next() {
                    Some(t) => out[k].push(t),
                    None => live[k] = false,
                }
            }
        }
        for k in 0..3 {
            let t = &texts[ix[k]];
            check(t, &[hash_dbg(&out[k]), t.want[1], t.want[2], t.want[3]], "tokens of interleaved tokenizations")?;
            st.interleaved.fetch_add(1, Relaxed);
        }
    }
    // 5. after refused event streams and caught panics
    for _ in 0..if san { 5 } else { 30 } {
        let t = &texts[r.below(n)];
        let mut ops = yamd::parse(&t.s);
        for _ in 0..1 + r.below(3) {
            if ops.is_empty() {
                break;
            }
            match r.below(3) {
                0 => {
                    let k = r.below(ops.len());
                    ops.remove(k);
                }
                1 => {
                    let (a, b) = (r.below(ops.len()), r.below(ops.len()));
                    ops.swap(a, b);
                }
                _ => ops.truncate(r.below(ops.len() + 1)),
            }
        }
        let _ = catch_unwind(AssertUnwindSafe(|| yamd::try_to_yamd(&ops, &t.s).is_ok()));
        let _ = catch_unwind(AssertUnwindSafe(|| yamd::to_yamd(&ops, &t.s)));
        let _ = catch_unwind(AssertUnwindSafe(|| yamd::try_to_yamd(&ops, "é").is_ok()));
        for _ in 0..2 {
            let u = &texts[r.below(n)];
            check(u, &digest(&u.s), "after a refused event stream")?;
            st.after_errors.fetch_add(1, Relaxed);
            st.calls.fetch_add(1, Relaxed);
        }
        check(t, &digest(&t.s), "after its own events were refused")?;
    }
    // after prints that failed half-way
    for _ in 0..if san { 5 } else { 30 } {
        let t = &texts[r.below(n)];
        let y = yamd::deserialize(&t.s);
        let most = y.to_string().len();
        for _ in 0..1 + r.below(3) {
            let _ = catch_unwind(AssertUnwindSafe(|| write!(Room(r.below(most + 1)), "{y}").is_ok()));
            for b in &y.body {
                let _ = catch_unwind(AssertUnwindSafe(|| write!(Room(r.below(8)), "{b}").is_ok()));
            }
        }
        for _ in 0..2 {
            let u = &texts[r.below(n)];
            check(u, &digest(&u.s), "after a print that failed")?;
            st.after_errors.fetch_add(1, Relaxed);
            st.calls.fetch_add(1, Relaxed);
        }
        check(t, &digest(&t.s), "after its own print failed")?;
    }
    // a long history of failures on a thread of its own
    if !san {
        let picks: Vec<usize> = (0..40).map(|_| r.below(n)).filter(|&i| texts[i].s.len() < 400).collect();
        let after: Vec<usize> = (0..6).map(|_| r.below(n)).collect();
        let made: Vec<(Vec<yamd::op::Op>, Yamd)> = picks
            .iter()
            .map(|&i| {
                let mut ops = yamd::parse(&texts[i].s);
                let k = r.below(ops.len().max(1));
                ops.truncate(k);
                (ops, yamd::deserialize(&texts[i].s))
            })
            .collect();
        if !made.is_empty() {
            let res = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(sc, || {
                        for k in 0..2200 {
                            let (ops, y) = &made[k % made.len()];
                            let s = &texts[picks[k % made.len()]].s;
                            let _ = catch_unwind(AssertUnwindSafe(|| yamd::try_to_yamd(ops, s).is_ok()));
                            let _ = catch_unwind(AssertUnwindSafe(|| write!(Room(k % 11), "{y}").is_ok()));
                            if k < 300 {
                                let _ = catch_unwind(AssertUnwindSafe(|| yamd::to_yamd(ops, s)));
                            }
                        }
                        for &i in &after {
                            check(&texts[i], &digest(&texts[i].s), "after thousands of failed conversions and prints")?;
                        }
                        Ok::<(), String>(())
                    })
                    .expect("spawn")
                    .join()
            });
            res.unwrap_or_else(|_| Err("a call after thousands of failed ones panicked".into()))?;
            st.after_errors.fetch_add(after.len() as u64, Relaxed);
            st.calls.fetch_add(after.len() as u64, Relaxed);
        }
    }
    // 6. environment and working directory
    if !san && round % 2 == 0 {
        let keys = ["LANG", "LC_ALL", "TZ", "HOME", "USER", "YAMD", "YAMD_DEBUG", "DEBUG", "RUST_LOG", "RUST_BACKTRACE", "NO_COLOR", "TERM"];
        let old: Vec<Option<std::ffi::OsString>> = keys.iter().map(std::env::var_os).collect();
        let cwd = std::env::current_dir().ok();
        for (i, k) in keys.iter().enumerate() {
            std::env::set_var(k, ["1", "tr_TR.UTF-8", "C", "", "xyz"][(i + round as usize) % 5]);
        }
        let _ = std::env::set_current_dir("/");
        let mut res = Ok(());
        for _ in 0..n.min(60) {
            let u = &texts[r.below(n)];
            res = check(u, &digest(&u.s), "with another environment and working directory");
            if res.is_err() {
                break;
            }
            st.env.fetch_add(1, Relaxed);
            st.calls.fetch_add(1, Relaxed);
        }
        for (k, v) in keys.iter().zip(old) {
            match v {
                Some(v) => std::env::set_var(k, v),
                None => std::env::remove_var(k),
            }
        }
        if let Some(c) = cwd {
            let _ = std::env::set_current_dir(c);
        }
        res?;
    }
    // the clock runs at any speed, every variable asked for is set
    if !san {
        for how in 1..=crate::world::WORLDS {
            for k in 0..n.min(60) + large.len() {
                let u = if k < large.len() { &large[k] } else { &texts[r.below(n)] };
                let got = crate::world::with(how, || digest(&u.s));
                check(u, &got, &format!("with another clock and other environment variables ({})", crate::world::name(how)))?;
                st.worlds.fetch_add(1, Relaxed);
                st.calls.fetch_add(1, Relaxed);
            }
        }
    }
    // 7. short-lived threads, one after the other
    for k in 0..if san { 3 } else { 10 } {
        // a thread of one processor only, too
        let one = k % 3 == 1 && !san;
        let ix: Vec<usize> = (0..4).map(|_| r.below(n)).collect();
        let res = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    if one && !cfg!(miri) {
                        unsafe {
                            let mut set: libc::cpu_set_t = std::mem::zeroed();
                            libc::CPU_SET(libc::sched_getcpu().max(0) as usize, &mut set);
                            libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
                        }
                    }
                    for &i in &ix {
                        check(&texts[i], &digest(&texts[i].s), "on a thread of its own")?;
                        st.calls.fetch_add(1, Relaxed);
                    }
                    Ok::<(), String>(())
                })
                .expect("spawn")
                .join()
                .unwrap_or_else(|_| Err("a thread died".into()))
        });
        st.threads.fetch_add(1, Relaxed);
        res?;
    }
    // 8. many threads at once: their own texts and one shared value
    concurrent(cfg, round, texts, st, &mut r)?;
    // 9. small calls after large ones: what a large call leaves behind is seen
    if !san && !large.is_empty() {
        for t in large {
            for k in 0..1 + r.below(2) {
                check(t, &digest(&t.s), if k == 0 { "a large text after small ones" } else { "a large text after itself" })?;
                st.calls.fetch_add(1, Relaxed);
            }
            for _ in 0..6 {
                let u = &kit[r.below(kit.len())];
                check(u, &digest(&u.s), &format!("after a call with a text of {} bytes ({})", t.s.len(), show(&t.s.chars().take(40).collect::<String>())))?;
                st.after_large.fetch_add(1, Relaxed);
                st.calls.fetch_add(1, Relaxed);
            }
        }
    }
    // 10. a long history of short calls
    if !san {
        let short: Vec<(&str, String)> = (0..24)
            .map(|_| &texts[r.below(n)])
            .filter(|t| t.s.len() < 60)
            .map(|t| (t.s.as_str(), yamd::deserialize(&t.s).to_string()))
            .collect();
        if !short.is_empty() {
            for k in 0..20_000 {
                let (s, p) = &short[k % short.len()];
                if yamd::deserialize(s).to_string() != *p {
                    return Err(format!("call {k} of a long history of calls prints {} differently", show(s)));
                }
            }
            st.long.fetch_add(20_000, Relaxed);
            st.calls.fetch_add(20_000, Relaxed);
        }
        let t = &texts[r.below(n)];
        check(t, &digest(&t.s), "after a long history of calls")?;
    }
    Ok(())
}

fn concurrent(cfg: &Cfg, round: u64, texts: &[Text], st: &Stats, r: &mut Rng) -> R {
    let san = cfg.mode != "full";
    let miri = cfg!(miri);
    let k = if miri { 3 } else { 8 };
    let calls = if miri { 3 } else if san { 20 } else { 60 };
    let n = texts.len();
    let shared = &texts[r.below(n)];
    let ops = yamd::parse(&shared.s);
    let tree = yamd::to_yamd(&ops, &shared.s);
    let err: Mutex<Option<String>> = Mutex::new(None);
    let go = AtomicBool::new(false);
    let ready = AtomicU64::new(0);
    // tokens come from a lexer that moves to another thread half-way
    let mut moving = Lexer::new(&shared.s);
    let mut first: Vec<Token> = vec![];
    for _ in 0..r.below(6) {
        if let Some(t) = moving.next() {
            first.push(t)
        }
    }
    let arc = Arc::new(tree);
    std::thread::scope(|sc| {
        for w in 0..k {
            let (err, go, ready, ops, arc) = (&err, &go, &ready, &ops, arc.clone());
            std::thread::Builder::new()
                .stack_size(if miri { 8 << 20 } else { 256 << 20 })
                .spawn_scoped(sc, move || {
                    let mut r = Rng::new(mix(cfg.seed ^ (round << 8) ^ ((cfg.worker as u64) << 40) ^ w as u64));
                    ready.fetch_add(1, Relaxed);
                    while !go.load(Relaxed) {
                        std::hint::spin_loop();
                        if miri {
                            std::thread::yield_now();
                        }
                    }
                    for c in 0..calls {
                        let t = &texts[if r.chance(1, 3) { c % n } else { r.below(n) }];
                        let mut res = check(t, &digest(&t.s), "on eight threads at once");
                        st.threaded.fetch_add(1, Relaxed);
                        st.calls.fetch_add(1, Relaxed);
                        if res.is_ok() && c % 3 == 0 {
                            let y = yamd::to_yamd(ops, &shared.s);
                            let d = [shared.want[0], hash_dbg(ops), hash_dbg(&y), hash_bytes(arc.to_string().as_bytes())];
                            res = check(shared, &d, "one shared value read by eight threads at once");
                            if res.is_ok() && y != *arc {
                                res = Err(format!("a shared tree is not equal to itself for {}", show(&shared.s)));
                            }
                            st.shared.fetch_add(1, Relaxed);
                        }
                        if let Err(m) = res {
                            *err.lock().unwrap() = Some(m);
                            return;
                        }
                        if err.lock().unwrap().is_some() {
                            return;
                        }
                    }
                })
                .expect("spawn");
        }
        while ready.load(Relaxed) < k as u64 {
            std::thread::yield_now();
        }
        go.store(true, Relaxed);
        st.threads.fetch_add(k as u64, Relaxed);
    });
    if let Some(m) = err.into_inner().unwrap() {
        return Err(m);
    }
    let rest: Vec<Token> = std::thread::scope(|sc| sc.spawn(move || moving.collect::<Vec<_>>()).join()).map_err(|_| "a thread died".to_string())?;
    first.extend(rest);
    check(shared, &[hash_dbg(&first), shared.want[1], shared.want[2], shared.want[3]], "tokens of a lexer moved to another thread")?;
    check(shared, &[shared.want[0], shared.want[1], hash_dbg(&*arc), shared.want[3]], "a tree shared between threads, read again")
}
