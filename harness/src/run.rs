//! The workload driver of one worker process.
use crate::gen::*;
use crate::props::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::slot::{encode, Slot};
use crate::tree::{self, Style};
use crate::treeio::{each, each_mut};
use crate::cov;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use yamd::nodes::Yamd;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}

/// A panic inside the harness itself is an error of the check, not a verdict.
fn own_panic(m: &str) -> bool {
    m.contains(" at src/")
}

pub fn judge(f: fn(&Case) -> Verdict, c: &Case) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| f(c))) {
        Ok(v) => v,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            if own_panic(&m) {
                eprintln!("harness panic: {m} on {:?} aux {}", c.text, c.aux);
                std::process::exit(3);
            }
            Err(format!("panic: {m}"))
        }
    }
}

pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub worker: usize,
    pub workers: usize,
    pub secs: f64,
    pub thorough: bool,
    pub dict: String,
    pub slot: String,
    pub out: String,
}

const SIG_CAP: usize = 400_000;

struct W<'a> {
    cfg: &'a Cfg,
    f: fn(&Case) -> Verdict,
    slot: Slot,
    map: Vec<u8>,
    pool: Vec<(String, Option<Yamd>)>,
    evals: u64,
    events: u64,
    nontrivial: u64,
    sigs: HashSet<u64>,
    stage: BTreeMap<String, u64>,
    samples: Vec<String>,
    start: Instant,
    idx: u64,
    hash_text: bool,
}

pub fn run(cfg: &Cfg) -> i32 {
    install_hook();
    let f = by_id(&cfg.prop).expect("property");
    let mut dict = Dict::load(&cfg.dict);
    crate::props4::set_words(&dict);
    let mut w = W {
        cfg,
        f,
        slot: Slot::open(&cfg.slot),
        map: vec![],
        pool: vec![],
        evals: 0,
        events: 0,
        nontrivial: 0,
        sigs: HashSet::new(),
        stage: BTreeMap::new(),
        samples: vec![],
        start: Instant::now(),
        idx: 0,
        hash_text: matches!(cfg.prop.as_str(), "C16" | "C17"),
    };
    let r = w.stages(&mut dict);
    let (viol, code) = match r {
        Ok(()) => (None, 0),
        Err((c, m)) => {
            let (c, m) = w.minimize(c, m);
            (Some((c, m)), 1)
        }
    };
    let mut sigfile: Vec<u8> = Vec::with_capacity(w.sigs.len() * 8);
    for s in &w.sigs {
        sigfile.extend_from_slice(&s.to_le_bytes());
    }
    let _ = std::fs::write(format!("{}.sigs", cfg.out), sigfile);
    let edges = w.map.iter().filter(|&&b| b != 0).count();
    let mut o = serde_json::json!({
        "evaluations": w.evals, "events": w.events, "nontrivial": w.nontrivial, "stages": w.stage, "samples": w.samples,
        "edges": edges, "edges_total": w.map.len(), "pool": w.pool.len(), "distinct": w.sigs.len(),
        "wall": w.start.elapsed().as_secs_f64(), "dict_ints": dict.ints.len(), "dict_strings": dict.strings.len(),
    });
    if let Some((c, m)) = viol {
        let p = format!("{}.case", cfg.out);
        std::fs::write(&p, encode(&cfg.prop, &c)).expect("write the case");
        o["violation"] = serde_json::json!({"message": m, "case": p, "text": c.text, "tree": c.tree.as_ref().map(|t| format!("{t:?}"))});
    }
    std::fs::write(&cfg.out, o.to_string()).expect("write the result");
    code
}

type R = Result<(), (Case, String)>;

impl<'a> W<'a> {
    fn exec(&mut self, stage: &str, c: Case) -> R {
        self.slot.put(&self.cfg.prop, &c);
        cov::reset();
        let v = judge(self.f, &c);
        self.evals += 1;
        if let Some(n) = self.stage.get_mut(stage) {
            *n += 1
        } else {
            self.stage.insert(stage.to_string(), 1);
        }
        match v {
            Err(m) => Err((c, m)),
            Ok(o) => {
                self.events += o.events;
                if o.nontrivial {
                    self.nontrivial += 1;
                    if self.sigs.len() < SIG_CAP {
                        self.sigs.insert(o.sig);
                    }
                    if self.samples.len() < 6 && (self.evals % 997 == 5 || self.samples.is_empty()) && c.text.len() < 300 {
                        self.samples.push(match &c.tree {
                            Some(t) => format!("[{stage}] {:?}", t).chars().take(400).collect(),
                            None => format!("[{stage}] {:?}", c.text),
                        });
                    }
                }
                if cov::merge(&mut self.map) && c.text.len() < 2500 && self.pool.len() < 6000 {
                    self.pool.push((c.text, c.tree));
                }
                Ok(())
            }
        }
    }

    /// a text case with the next aux value
    fn text(&mut self, stage: &str, s: String) -> R {
        self.idx += 1;
        let aux = mix(self.cfg.seed ^ (self.idx << 8) ^ self.cfg.worker as u64);
        self.exec(stage, Case { text: s, tree: None, aux })
    }
    fn tree(&mut self, stage: &str, y: Yamd, text: String) -> R {
        self.idx += 1;
        let aux = mix(self.cfg.seed ^ (self.idx << 8) ^ self.cfg.worker as u64);
        self.exec(stage, Case { text, tree: Some(y), aux })
    }

    fn mine(&self, k: usize) -> bool {
        k % self.cfg.workers == self.cfg.worker
    }

    fn exhaustive(&mut self, stage: &str, sym: &[&str], len: usize, before: &str, after: &str) -> R {
        let n = sym.len();
        for l in 1..=len {
            let total = n.pow(l as u32);
            let mut k = self.cfg.worker;
            while k < total {
                let mut s = String::with_capacity(64);
                s.push_str(before);
                let mut x = k;
                for _ in 0..l {
                    s.push_str(sym[x % n]);
                    x /= n;
                }
                s.push_str(after);
                self.text(stage, s)?;
                k += self.cfg.workers;
            }
        }
        Ok(())
    }

    fn large_budget(&self) -> Duration {
        Duration::from_secs_f64((self.cfg.secs * if self.cfg.thorough { 0.3 } else { 0.5 }).min(120.0))
    }

    fn sizes(&self, d: &Dict) -> Vec<usize> {
        let mut v: Vec<usize> = (0..=20).collect();
        v.extend([
            24, 25, 30, 31, 32, 33, 34, 40, 48, 49, 50, 51, 60, 63, 64, 65, 66, 72, 80, 90, 99, 100, 101, 120, 126, 127, 128, 129,
            130, 150, 199, 200, 201, 250, 254, 255, 256, 257, 258, 300, 333, 400, 499, 500, 501, 511, 512, 513, 600, 700, 767, 768,
            900, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193,
            10000, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 66000,
        ]);
        for &i in &d.ints {
            if i < 66_000 {
                v.extend([i.saturating_sub(1), i, i + 1]);
            }
        }
        v.sort();
        v.dedup();
        v
    }

    fn stages(&mut self, d: &mut Dict) -> R {
        let kind = kind_of(&self.cfg.prop);
        if matches!(kind, Kind::Text | Kind::Both | Kind::TextAndPlain) {
            self.text_stages(d)?;
        }
        if matches!(kind, Kind::Tree | Kind::Both) {
            self.tree_fields(d)?;
        }
        if kind != Kind::Text {
            self.tree_sizes(d)?;
        }
        d.learn(&cov::cmp_operands());
        self.random(d, kind)
    }

    fn text_stages(&mut self, d: &mut Dict) -> R {
        let t = self.cfg.thorough;
        let id = self.cfg.prop.clone();
        // corpora
        let mut k = 0;
        for p in ["/repo/benches", "/repo/README.md", "/repo/fuzz/corpus"] {
            let mut files = vec![];
            if let Ok(rd) = std::fs::read_dir(p) {
                files.extend(rd.filter_map(|e| e.ok()).map(|e| e.path()));
            } else {
                files.push(p.into());
            }
            files.sort();
            for f in files.into_iter().take(200) {
                if let Ok(s) = std::fs::read_to_string(&f) {
                    for part in [s.clone(), s.replace('\n', "\r\n")].into_iter().chain(s.split("\n\n").map(|x| x.to_string())) {
                        k += 1;
                        if self.mine(k) && part.len() < 60_000 && affordable(&part) {
                            self.text("corpus", part)?;
                        }
                    }
                }
            }
        }
        // every short sequence of symbols, alone and inside every enclosing construct
        let heavy = matches!(id.as_str(), "C01" | "C08" | "C18" | "C16" | "C28" | "C29" | "C30" | "C32" | "C33" | "C34" | "C35");
        self.exhaustive("exhaustive", SYM, if id == "C32" { 2 } else if heavy && id != "C01" { 3 } else { 4 }, "", "")?;
        for (name, a, b) in CTX.iter().skip(1) {
            let _ = name;
            self.exhaustive("exhaustive-in-context", SYM, if id == "C32" { 1 } else if heavy && !t { 2 } else { 3 }, a, b)?;
        }
        for sym in focus(&id) {
            self.exhaustive("exhaustive-focus", sym, if id == "C32" { 3 } else if t { 6 } else if heavy { 4 } else { 5 }, "", "")?;
        }
        d.learn(&cov::cmp_operands());
        // every character of the lower planes and a sample of the others, at the places where text is cut or trimmed
        for (k, chunk) in characters().chunks(12).enumerate() {
            if !self.mine(k) {
                continue;
            }
            let mut s = String::new();
            for (i, c) in chunk.iter().enumerate() {
                s += &match (i + k) % 6 {
                    0 => format!("{c}\n\n{c}a **{c}b** _{c}_ ~~a{c}~~ `{c}` *{c}a* [{c}]({c})a{c}\n{c}\n\n"),
                    1 => format!("- {c}\n{c}- {c}a\n - a{c}\n\n{c}- a\n\n"),
                    2 => format!("# {c}\n\n#{c}a\n\n![{c}a]({c})\n![a]({c}a)\n\n{{{{{c}|a{c}}}}}\n\n"),
                    3 => format!("```{c}\n{c}\n```\n\n```a{c}\n{c}a\n{c}\n```{c}\n\n"),
                    4 => format!("!! {c}\n! {c}\n{c}a{c}\n!!\n\n!!{c}a\n!!\n\n"),
                    _ => format!("{{% {c}\n{c}\n%}}\n\n{{%{c}a\n%}}\n\n\\{c}a\\{c}\\\\{c} \r{c}\r\n{c} {c}\t"),
                };
            }
            self.text("characters", s)?;
        }
        // sizes
        let sizes = self.sizes(d);
        let mut k = 0;
        for (_, f) in scale_families() {
            for &n in &sizes {
                k += 1;
                if !self.mine(k) {
                    continue;
                }
                let s = f(n);
                if affordable(&s) {
                    self.text("sizes", s)?;
                }
            }
        }
        // the families the estimate rules out, and all of them to 65537 repetitions, as long as they turn out to be cheap
        let until = self.start.elapsed() + self.large_budget();
        let mut large: Vec<usize> = LARGE.to_vec();
        large.extend(d.ints.iter().filter(|&&i| (300..66_000).contains(&i)).flat_map(|&i| [i, i + 1]));
        large.sort();
        large.dedup();
        let mut fams: Vec<_> = scale_families();
        let turn = self.cfg.seed as usize * 7 % fams.len().max(1);
        fams.rotate_left(turn);
        for (_, f) in fams.into_iter().enumerate().filter(|(i, _)| i % self.cfg.workers == self.cfg.worker).map(|(_, f)| f) {
            // the next size is at most twice as large: a case never takes long, whatever its cost grows like
            let mut last = Duration::ZERO;
            for &n in &large {
                if last > Duration::from_millis(500) || self.start.elapsed() > until {
                    break;
                }
                let s = f(n);
                if affordable(&s) {
                    continue;
                }
                if s.len() > 3_000_000 {
                    break;
                }
                let t = Instant::now();
                self.text("large", s)?;
                last = t.elapsed();
            }
        }
        // every depth up to the one real documents reach, then around powers of two, ten and the constants of the source
        let mut deep: Vec<usize> = vec![140, 150, 192, 199, 200, 201, 250, 254, 255, 256, 257, 258, 300, 384, 400, 499, 500, 501, 511, 512, 513, 600];
        for &i in &d.ints {
            if (131..800).contains(&i) {
                deep.extend([i - 1, i, i + 1]);
            }
        }
        deep.sort();
        deep.dedup();
        for (_, f) in depth_families() {
            for n in (0..=130).chain(deep.iter().copied()) {
                k += 1;
                if self.mine(k) {
                    self.text("depths", f(n))?;
                }
            }
        }
        for (_, f) in chain_families() {
            for n in [700, 800, 999, 1000, 1001, 1023, 1024, 1025] {
                k += 1;
                if self.mine(k) {
                    self.text("depths", f(n))?;
                }
            }
        }
        if t && !heavy {
            // one symbol deeper, until half of the time is used
            let n = SYM.len();
            let total = n.pow(5);
            let mut k = self.cfg.worker;
            let step = self.cfg.workers;
            let mut done = 0u64;
            while k < total && self.start.elapsed() < Duration::from_secs_f64(self.cfg.secs * 0.6) {
                let mut s = String::with_capacity(32);
                let mut x = k;
                for _ in 0..5 {
                    s.push_str(SYM[x % n]);
                    x /= n;
                }
                self.text("exhaustive-5", s)?;
                k += step;
                done += 1;
            }
            if k >= total {
                self.stage.insert("exhaustive-5 complete".into(), done);
            }
        }
        Ok(())
    }

    /// every short string in every field of a tree that has each kind of field in several positions
    fn tree_fields(&mut self, d: &Dict) -> R {
        let templates: Vec<Yamd> = template_trees();
        let len = if self.cfg.thorough { 3 } else if self.cfg.prop == "C32" { 1 } else { 2 };
        let n = SYM.len();
        let mut k = 0;
        for tpl in &templates {
            let mut count = 0;
            each(tpl, &mut |_, _| count += 1);
            for pos in 0..count {
                for l in 1..=len {
                    for x in 0..n.pow(l as u32) {
                        k += 1;
                        if !self.mine(k) {
                            continue;
                        }
                        let mut s = String::new();
                        let mut q = x;
                        for _ in 0..l {
                            s.push_str(SYM[q % n]);
                            q /= n;
                        }
                        for how in 0..4 {
                            let mut y = tpl.clone();
                            let mut i = 0;
                            each_mut(&mut y, &mut |_, t| {
                                if i == pos {
                                    *t = match how {
                                        0 => s.clone(),
                                        1 => format!("a{s}"),
                                        2 => format!("{s}a"),
                                        _ => format!("a{s}a"),
                                    }
                                }
                                i += 1;
                            });
                            tree::normalize(&mut y, Style::Dirty);
                            self.tree("fields", y, String::new())?;
                        }
                    }
                }
            }
        }
        // every character of the lower planes and a sample of the others
        for tpl in &templates {
            let mut count = 0;
            each(tpl, &mut |_, _| count += 1);
            for (nth, chunk) in characters().chunks(count.max(1)).enumerate() {
                k += 1;
                if !self.mine(k) {
                    continue;
                }
                let mut y = tpl.clone();
                let mut i = 0;
                each_mut(&mut y, &mut |_, t| {
                    let c = chunk[i % chunk.len()];
                    *t = match (nth + i) % 3 {
                        0 => format!("{c}"),
                        1 => format!("{c}a"),
                        _ => format!("a{c}"),
                    };
                    i += 1;
                });
                tree::normalize(&mut y, Style::Dirty);
                self.tree("characters", y, String::new())?;
            }
        }
        // long and odd strings in every field
        let odd: Vec<String> = {
            let mut v: Vec<String> = ODD.iter().map(|c| c.to_string()).collect();
            v.extend(d.strings.iter().cloned());
            v.extend(d.chars.iter().map(|c| c.to_string()));
            for &n in BASE_INTS.iter().chain(d.ints.iter()).filter(|&&n| n < 3000) {
                v.push("a".repeat(n));
                v.push("*".repeat(n.min(700)));
            }
            v
        };
        for tpl in &templates {
            let mut count = 0;
            each(tpl, &mut |_, _| count += 1);
            for pos in 0..count {
                for s in &odd {
                    k += 1;
                    if !self.mine(k) {
                        continue;
                    }
                    for how in 0..2 {
                        let mut y = tpl.clone();
                        let mut i = 0;
                        each_mut(&mut y, &mut |_, t| {
                            if i == pos {
                                *t = if how == 0 { s.clone() } else { format!("a{s}b") }
                            }
                            i += 1;
                        });
                        tree::normalize(&mut y, Style::Dirty);
                        self.tree("fields-odd", y, String::new())?;
                    }
                }
            }
        }
        Ok(())
    }

    /// trees of every small size, and around powers of two, ten and the constants of the source
    fn tree_sizes(&mut self, d: &Dict) -> R {
        let mut sizes = self.sizes(d);
        sizes.extend(0..=48);
        sizes.sort();
        sizes.dedup();
        let cap = if matches!(self.cfg.prop.as_str(), "C18" | "C26" | "C27" | "C29" | "C32" | "C33") && !self.cfg.thorough { 513 } else { 3000 };
        let mut k = 0;
        for (_, most, f) in tree::families() {
            for &n in sizes.iter().filter(|&&n| n <= most.min(cap)) {
                k += 1;
                if self.mine(k) {
                    let mut y = f(n);
                    tree::normalize(&mut y, Style::Plain);
                    self.tree("tree-sizes", y, String::new())?;
                }
            }
        }
        let until = self.start.elapsed() + self.large_budget();
        for (_, _, f) in tree::families().into_iter().filter(|f| f.1 >= 3000).enumerate().filter(|(i, _)| i % self.cfg.workers == self.cfg.worker).map(|(_, f)| f) {
            let mut last = Duration::ZERO;
            for &n in LARGE.iter().filter(|&&n| n > cap) {
                if last > Duration::from_millis(500) || self.start.elapsed() > until {
                    break;
                }
                let mut y = f(n);
                let t = Instant::now();
                tree::normalize(&mut y, Style::Plain);
                if y.to_string().len() > 3_000_000 {
                    break;
                }
                self.tree("tree-large", y, String::new())?;
                last = t.elapsed();
            }
        }
        Ok(())
    }

    fn random(&mut self, d: &mut Dict, kind: Kind) -> R {
        let base = mix(self.cfg.seed.wrapping_mul(1000).wrapping_add(self.cfg.worker as u64) ^ hash_bytes(self.cfg.prop.as_bytes()));
        let mut round = 0u64;
        let foc = focus(&self.cfg.prop);
        let maxlens = [120usize, 250, 400, 800, 1500];
        // the guided part gets at least half of the time, however slow the machine is
        let until = Duration::from_secs_f64(self.cfg.secs).max(self.start.elapsed() + Duration::from_secs_f64(self.cfg.secs * 0.5));
        while self.start.elapsed() < until {
            round += 1;
            if round % 40 == 0 {
                d.learn(&cov::cmp_operands());
            }
            let mut g = Gen::new(mix(base ^ round), d);
            for _ in 0..200 {
                g.max = *g.r.pick(&maxlens);
                g.dirt = *g.r.pick(&[0, 10, 30, 60]);
                let trees = match kind {
                    Kind::Text => false,
                    Kind::Tree | Kind::PlainTree => true,
                    Kind::Both | Kind::TextAndPlain => g.r.chance(1, 2),
                };
                if trees {
                    let plain = matches!(kind, Kind::PlainTree | Kind::TextAndPlain);
                    let have: Vec<usize> = if self.pool.is_empty() || plain {
                        vec![]
                    } else {
                        (0..3).map(|_| g.r.below(self.pool.len())).filter(|&i| self.pool[i].1.is_some()).collect()
                    };
                    let y = if plain {
                        g.word = 0;
                        tree::tree(&mut g, Style::Plain)
                    } else if have.is_empty() || g.r.chance(1, 3) {
                        tree::tree(&mut g, Style::Dirty)
                    } else {
                        let a = self.pool[have[0]].1.clone().unwrap();
                        let b = self.pool[*have.last().unwrap()].1.clone();
                        tree::mutate(&mut g, &a, b.as_ref())
                    };
                    let st = if plain { "random-plain-trees" } else { "random-trees" };
                    self.tree(st, y, String::new())?;
                    continue;
                }
                let (stage, s) = match g.r.below(10) {
                    0..=3 if !self.pool.is_empty() => {
                        let n = self.pool.len();
                        let i = if g.r.chance(1, 3) { n - 1 - g.r.below(n.min(50)) } else { g.r.below(n) };
                        let j = g.r.below(n);
                        ("guided-mutation", g.mutate(&self.pool[i].0, Some(&self.pool[j].0)))
                    }
                    4 | 5 if !foc.is_empty() => {
                        let alpha = *g.r.pick(&foc);
                        let n = 1 + g.r.below(14);
                        let mut s = String::new();
                        for _ in 0..n {
                            if g.r.chance(1, 14) {
                                g.piece(&mut s)
                            } else {
                                s.push_str(g.r.pick::<&str>(alpha))
                            }
                        }
                        if g.r.chance(1, 3) {
                            s = g.wrap(&s)
                        }
                        ("focus-soup", s)
                    }
                    _ => ("grammar-and-soup", g.fresh()),
                };
                if !affordable(&s) {
                    continue;
                }
                self.text(stage, s)?;
            }
        }
        Ok(())
    }

    fn fails(&mut self, c: &Case) -> Option<String> {
        self.slot.put(&self.cfg.prop, c);
        judge(self.f, c).err()
    }

    fn minimize(&mut self, c: Case, m: String) -> (Case, String) {
        let start = Instant::now();
        let (mut c, mut m) = (c, m);
        let limit = Duration::from_secs(4);
        if c.tree.is_none() {
            let mut chunk = (c.text.chars().count() / 2).max(1);
            loop {
                let mut changed = false;
                let mut i = 0;
                loop {
                    let ch: Vec<char> = c.text.chars().collect();
                    if i >= ch.len() || start.elapsed() > limit {
                        break;
                    }
                    let t: String = ch[..i].iter().chain(ch[(i + chunk).min(ch.len())..].iter()).collect();
                    let n = Case { text: t, tree: None, aux: c.aux };
                    if let Some(e) = self.fails(&n) {
                        c = n;
                        m = e;
                        changed = true;
                    } else {
                        i += chunk;
                    }
                }
                if start.elapsed() > limit || (chunk == 1 && !changed) {
                    break;
                }
                if chunk > 1 {
                    chunk /= 2;
                }
            }
        } else {
            let mut r = Rng::new(1);
            let mut tries = 0;
            while start.elapsed() < limit && tries < 4000 {
                tries += 1;
                let mut y = c.tree.clone().unwrap();
                match r.below(3) {
                    0 if y.body.len() > 1 => {
                        let k = r.below(y.body.len());
                        y.body.remove(k);
                    }
                    1 => {
                        let mut n = 0;
                        each(&y, &mut |_, _| n += 1);
                        let k = r.below(n.max(1));
                        let mut i = 0;
                        each_mut(&mut y, &mut |_, s| {
                            if i == k && !s.is_empty() {
                                let p = r.below(s.chars().count());
                                let b = s.char_indices().nth(p).unwrap().0;
                                s.remove(b);
                            }
                            i += 1;
                        });
                    }
                    _ => {
                        if y.metadata.is_some() {
                            y.metadata = None
                        } else if let Some(i) = y.body.iter().position(|b| matches!(b, yamd::nodes::YamdNodes::Collapsible(_))) {
                            if let yamd::nodes::YamdNodes::Collapsible(k) = y.body.remove(i) {
                                y.body.splice(i..i, k.body);
                            }
                        }
                    }
                }
                if self.cfg.prop != "C22" {
                    tree::normalize(&mut y, Style::Dirty);
                } else {
                    let mut bad = false;
                    each(&y, &mut |_, s| bad |= s.is_empty() || s.starts_with(' ') || s.ends_with(' '));
                    if bad {
                        continue;
                    }
                }
                let n = Case { text: c.text.clone(), tree: Some(y), aux: c.aux };
                if let Some(e) = self.fails(&n) {
                    c = n;
                    m = e;
                }
            }
        }
        (c, m)
    }
    #[allow(dead_code)]
    fn unused(&self) -> bool {
        self.hash_text
    }
}

pub fn template_trees() -> Vec<Yamd> {
    let texts = [
        "p\n\nq",
        "p _i_ x **b _j_ c ~~s~~ d** y ~~t~~ `c` *e* [a](u) z",
        "## h [a](u) i\n\nq",
        "![a](b)\n\n![c](d)\n![e](f)\n\nq",
        "```l\nc\n```\n\n{{k|v}}\n\nq",
        "- a\n - b _i_\n  + c\n- d\n\nq",
        "+ a `c`\n+ b\n\nq",
        "!! t\n! i\na\n\nb _i_\n!!\n\nq",
        "!!\na\n!!\n\n!! t\nb\n!!",
        "{% t\na\n\nb\n%}\n\nq",
        "{% t\n{% u\n- a\n - b\n%}\n\n!! t\n! i\nx\n!!\n\n```l\nc\n```\n%}",
        "{% t\n# h\n\n![a](b)\n\n{{k|v}}\n\n-----\n\nx **b** y\n%}",
        "---\nm\n---\n\nx",
        "{% t\n![a](b)\n![c](d)\n\n+ a\n\nz\n%}",
    ];
    texts.iter().map(|t| crate::model_parse::parse_tree(t)).collect()
}

const F_LIST: &[&str] = &["\n", "- ", "+ ", "\n- ", "\n+ ", "\n - ", "\n + ", "\n  - ", "\n  + ", "\n   - ", "a", "\\", "\n\n", "-", " ", "\n%}"];
const F_CONT: &[&str] = &["{% t\n", "{%", " ", "\n%}", "%}", "!!", "\n!!", "! i\n", "!! t\n", "```", "\n```", "a", "\n", "\n\n", "\\", "\n- b"];
const F_META: &[&str] = &["---", "\n---", "-", "----", "\n", "a", "\\", "\r\n", "\n\n", "# ", "```\n", "!!\n", " ", "{% t\n", "\n%}", "\r"];
const F_INL: &[&str] = &["**", "*", "_", "~~", "`", "[", "](", ")", "a", "\n", " ", "\\", "(", "]", "\n\n", "- "];
const F_BLOCK: &[&str] = &["# ", "```", "\n```", "{{", "}}", "|", "![", "](b)", "\n", "\n\n", "-----", "a", " ", "\\", "!", "\n!!"];
const F_LEX: &[&str] = &["\n", "\r", "\r\n", " ", "\\", "a", "é", "{", "%", "}", "!", "-", "[", "*", "😀", "|"];
const F_POS: &[&str] = &["\n", "\r\n", "\r", "\\", "a", "é", "😀", " ", "#", "{%", "%}", "-", "\t", "_", "\u{2028}", "\n\n"];

/// Sizes of the guarded stages; each at most twice the one before.
const LARGE: &[usize] = &[100, 180, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65535, 65536, 65537];

/// Every character below U+3100, the compatibility forms and specials, and a sample of all others.
fn characters() -> Vec<char> {
    let all = |r: std::ops::RangeInclusive<u32>| r.filter_map(char::from_u32);
    all(0..=0x30ff).chain(all(0xf8f0..=0x10050)).chain(all(0x1f300..=0x1f6ff)).chain(all(0x3100..=0x10ffff).step_by(97)).collect()
}

pub fn focus(id: &str) -> Vec<&'static [&'static str]> {
    match id {
        "C02" | "C03" | "C28" => vec![F_LEX, F_POS],
        "C04" => vec![F_POS, F_LEX],
        "C09" => vec![F_BLOCK, F_CONT],
        "C10" => vec![F_INL],
        "C11" => vec![F_LIST],
        "C12" => vec![F_CONT],
        "C13" => vec![F_META],
        "C07" => vec![F_INL, F_BLOCK],
        "C16" => vec![F_LEX],
        "C08" | "C18" => vec![F_CONT],
        "C17" => vec![F_BLOCK, F_CONT],
        _ => vec![F_LIST, F_CONT, F_INL],
    }
}

/// C01 on an ordinary thread stack: every nesting construct, alone and combined, to the depth real documents use.
pub fn stack(slot: &str, collapsibles: usize, lists: usize, out: &str) -> i32 {
    install_hook();
    let mut slot = Slot::open(slot);
    let mut evals = 0u64;
    let mut deepest = 0usize;
    let mut viol = None;
    let mut texts: Vec<(usize, String)> = vec![];
    for (name, f) in depth_families() {
        let max = if name.contains("list") && !name.starts_with("list in nested") { lists } else { collapsibles };
        for n in [1, 2, 5, 10, 20, 30, 40, 50, 60, 70, 80, 90, 100] {
            if n <= max {
                texts.push((n, f(n)));
            }
        }
    }
    for (open, close) in [
        ("{% t\r\n", "\r\n%}"),
        ("{% a title\n## h\n\n", "\n\n-----\n%}"),
        ("{% t\n!! h\n! i\nb\n!!\n\n", "\n%}"),
        ("{% t\n- a\n - b\n\n", "\n\n```l\nc\n```\n%}"),
        ("{% t\n![a](b)\n![c](d)\n\n", "\n%}\n\n{{k|v}}"),
        ("{% t\n**b _i_** [a](u)\n\n", "\n%}\n\nq"),
    ] {
        for n in [1, 10, 50, collapsibles] {
            texts.push((n, format!("{}b{}", open.repeat(n), close.repeat(n))));
        }
    }
    // unclosed nesting goes as deep
    for unit in ["{% t\n", "!! t\n", "{% t\n\n", "```l\n", "**", "[", "{% t\n!! t\n", "- "] {
        for n in [1, 10, 24] {
            texts.push((n, unit.repeat(n)));
        }
    }
    for (n, t) in texts {
        let c = Case { text: t, tree: None, aux: 0 };
        slot.put("C01", &c);
        evals += 1;
        deepest = deepest.max(n);
        if let Err(m) = judge(c01, &c) {
            viol = Some((c, m));
            break;
        }
        let y = yamd::deserialize(&c.text);
        let z = y.clone();
        std::hint::black_box(format!("{z:?}").len());
        if y != z {
            viol = Some((c, "a tree is not equal to its clone".into()));
            break;
        }
    }
    let mut o = serde_json::json!({"evaluations": evals, "deepest": deepest});
    let code = viol.is_some() as i32;
    if let Some((c, m)) = viol {
        let p = format!("{out}.case");
        std::fs::write(&p, encode("C01", &c)).expect("write the case");
        o["violation"] = serde_json::json!({"message": m, "case": p, "text": c.text});
    }
    std::fs::write(out, o.to_string()).expect("write the result");
    code
}

#[cfg(feature = "count")]
/// Large flat documents and trees on an ordinary stack: only nesting may use the stack.
pub fn flat(slot: &str, out: &str, worker: usize, workers: usize, n: usize) -> i32 {
    install_hook();
    let mut slot = Slot::open(slot);
    let mut cases: Vec<(String, Case)> = vec![];
    let mut fams: Vec<(String, Box<dyn Fn(usize) -> String>)> = vec![];
    for (name, f) in scale_families() {
        fams.push((name.to_string(), Box::new(f)));
    }
    for (name, parts) in crate::cost::block_families(1, 0) {
        let p = parts.clone();
        fams.push((format!("blocks: {name}"), Box::new(move |n| crate::cost::blocks(&p, n))));
        if !parts.iter().any(|t| t.contains("%}\n```") || t.starts_with("---\n")) {
            fams.push((format!("in a collapsible: {name}"), Box::new(move |n| format!("{{% t\n{}\n%}}\n\nend", crate::cost::blocks(&parts, n)))));
        }
    }
    for (i, (name, f)) in fams.iter().enumerate() {
        if i % workers != worker || !affordable(&f(300)) {
            continue;
        }
        // quadratic families (measured by C20) are cut short
        let k = if affordable(&f(2000)) { n } else { n / 40 };
        let per = (f(200).len() - f(100).len()).max(100) / 100;
        cases.push((name.clone(), Case { text: f(k.min(900_000 / per)), tree: None, aux: 0 }));
    }
    for (i, (name, most, f)) in tree::families().into_iter().enumerate() {
        if i % workers == worker {
            cases.push((name.to_string(), Case { text: String::new(), tree: Some(f(if most >= 1000 { n.min(20_000) } else { most })), aux: 0 }));
        }
    }
    let mut viol = None;
    let mut largest = 0;
    let mut slowest = (0.0, String::new());
    let evals = cases.len();
    for (name, c) in cases {
        slot.put("C01", &c);
        largest = largest.max(c.text.len());
        let t = Instant::now();
        if let Err(m) = judge(c01, &c) {
            viol = Some((c, format!("{name}: {m}")));
            break;
        }
        if t.elapsed().as_secs_f64() > slowest.0 {
            slowest = (t.elapsed().as_secs_f64(), name);
        }
    }
    let mut o = serde_json::json!({"evaluations": evals, "largest_text": largest, "slowest": [slowest.0, slowest.1]});
    let code = viol.is_some() as i32;
    if let Some((c, m)) = viol {
        let p = format!("{out}.case");
        std::fs::write(&p, encode("C01", &c)).expect("write the case");
        o["violation"] = serde_json::json!({"message": m, "case": p});
    }
    std::fs::write(out, o.to_string()).expect("write the result");
    code
}

pub fn one(prop: &str, c: &Case) -> i32 {
    install_hook();
    let Some(f) = by_id(prop) else {
        eprintln!("unknown property {prop}");
        return 3;
    };
    match judge(f, c) {
        Ok(_) => {
            println!("held");
            0
        }
        Err(m) => {
            println!("violated: {m}");
            10
        }
    }
}
