mod alloc;
#[cfg(feature = "count")]
mod cost;
mod cov;
mod gen;
mod model_lex;
mod model_parse;
mod props;
mod props2;
mod props3;
mod props4;
mod purity;
mod rng;
mod run;
mod slot;
mod tool;
mod tree;
mod treeio;
mod world;

use std::collections::HashMap;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).cloned().unwrap_or_default();
    let mut o: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i + 1 < a.len() {
        o.insert(a[i].trim_start_matches("--").to_string(), a[i + 1].clone());
        i += 2;
    }
    let stack: usize = o.get("stack").and_then(|s| s.parse().ok()).unwrap_or(512 << 20);
    let code = std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || body(&cmd, &o))
        .expect("spawn")
        .join()
        .unwrap_or(3);
    std::process::exit(code)
}

fn body(cmd: &str, o: &HashMap<String, String>) -> i32 {
    let s = |k: &str| o.get(k).cloned().unwrap_or_default();
    let n = |k: &str, d: u64| o.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(d);
    match cmd {
        "run" => run::run(&run::Cfg {
            prop: s("prop"),
            seed: n("seed", 1),
            worker: n("worker", 0) as usize,
            workers: n("workers", 1) as usize,
            secs: o.get("secs").and_then(|x| x.parse().ok()).unwrap_or(10.0),
            thorough: s("tier") == "thorough",
            dict: s("dict"),
            slot: s("slot"),
            out: s("out"),
        }),
        "purity" => purity::run(&purity::Cfg {
            seed: n("seed", 1),
            worker: n("worker", 0) as usize,
            workers: n("workers", 1) as usize,
            secs: o.get("secs").and_then(|x| x.parse().ok()).unwrap_or(10.0),
            rounds: n("rounds", 0),
            dict: s("dict"),
            out: s("out"),
            mode: if o.contains_key("mode") { s("mode") } else { "full".into() },
            texts: n("texts", 300) as usize,
        }),
        "stack" => run::stack(&s("slot"), n("max-collapsibles", 100) as usize, n("max-lists", 60) as usize, &s("out")),
        #[cfg(feature = "count")]
        "flat" => run::flat(&s("slot"), &s("out"), n("worker", 0) as usize, n("workers", 1) as usize, n("n", 60_000) as usize),
        "tokstat" => tool::tokstat(n("seed", 1), n("texts", 900) as usize, &s("dict"), &s("out"), o.get("case").map(|x| x.as_str())),
        "texts" => tool::texts(n("seed", 1), n("worker", 0) as usize, n("workers", 1) as usize, n("n", 1000) as usize, n("most", 1 << 20) as usize, &s("dict"), &s("out")),
        "accept" => tool::accept(&s("case")),
        "one" => {
            props4::set_words(&gen::Dict::load(&s("dict")));
            let b = std::fs::read(s("case")).expect("case file");
            match slot::decode(&b) {
                Some((prop, c)) => {
                    let p = if o.contains_key("prop") { s("prop") } else { prop };
                    run::one(&p, &c)
                }
                None => {
                    eprintln!("not a case file");
                    3
                }
            }
        }
        #[cfg(feature = "count")]
        "cost" => {
            // a case file, or plain text
            let b = std::fs::read(s("case")).expect("case file");
            let c = match slot::decode(&b) {
                Some((_, props::Case { tree: Some(y), .. })) => {
                    cost::measure_tree(&y, n("limit", u64::MAX));
                    return 0;
                }
                Some((_, c)) => cost::measure(&c.text, n("limit", u64::MAX)),
                None => cost::measure(&String::from_utf8(b).expect("UTF-8"), n("limit", u64::MAX)),
            };
            for p in 0..4 {
                println!("{} {} {:?}", cost::PHASES[p], c.ph[p].work(), c.ph[p]);
            }
            println!("left {}", c.leak);
            0
        }
        #[cfg(feature = "count")]
        "work" | "memory" => {
            let cfg = cost::Cfg {
                seed: n("seed", 1),
                worker: n("worker", 0) as usize,
                workers: n("workers", 1) as usize,
                secs: o.get("secs").and_then(|x| x.parse().ok()).unwrap_or(10.0),
                out: s("out"),
                note: s("note"),
                thorough: s("tier") == "thorough",
            };
            if cmd == "work" {
                cost::run_work(&cfg)
            } else {
                cost::run_memory(&cfg)
            }
        }
        _ => {
            eprintln!("usage: ymon run|one …");
            2
        }
    }
}
