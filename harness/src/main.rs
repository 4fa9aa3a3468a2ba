mod check;
mod comments;
mod derive;
mod gen;
mod generic;
mod gen_code;
mod heredoc;
mod inputs;
mod api;
mod cli;
mod invalid;
mod layout;
mod lits;
mod locs;
mod mem;
mod model;
mod nodes_gen;
mod nums;
mod ops;
mod props;
mod render;
mod stats;
mod toks;
mod tree;
mod util;
use std::io::Read;

#[global_allocator]
static A: mem::Counting = mem::Counting;

fn stdin() -> Vec<u8> {
    let mut v = vec![];
    std::io::stdin().read_to_end(&mut v).unwrap();
    v
}
fn main() {
    util::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "check" => {
            let tier = a.get(3).cloned().unwrap_or("quick".into());
            let seed: u64 = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(1);
            std::process::exit(check::parent(props::prop(&a[2]), &tier, seed));
        }
        "worker" => check::worker(props::prop(&a[2]), &a[3..]),
        "parse-one" => {
            let b = std::fs::read(&a[2]).unwrap();
            if let Err(e) = util::parse(&b) {
                eprintln!("panic: {} at {}", e.0, e.1);
                std::process::exit(3);
            }
        }
        "print-locs" => cli::print_locs(&a[2..]),
        "replay" => {
            // replay ID tier seed case
            let mut w = check::W::new(props::prop(&a[2]).id, a[4].parse().unwrap(), a[3] == "thorough", None);
            w.scratch = std::env::temp_dir().join(format!("rbmon-replay-{}", std::process::id()));
            let _ = std::fs::create_dir_all(&w.scratch);
            w.idx = a[5].parse().unwrap();
            let i = w.idx;
            (props::prop(&a[2]).case)(&mut w, i);
            let _ = std::fs::remove_dir_all(&w.scratch);
            for v in &w.viol {
                println!("--- input ---\n{}\n--- {}", String::from_utf8_lossy(&v.input), v.what);
            }
            println!("{} violations", w.viol.len());
            std::process::exit((!w.viol.is_empty()) as i32);
        }
        "triage" => {
            // triage ID N seed: all violations grouped by text, shortest input each
            let p = props::prop(&a[2]);
            let n: u64 = a[3].parse().unwrap();
            let seed: u64 = a.get(4).map_or(1, |x| x.parse().unwrap());
            let mut hs = vec![];
            for t in 0..8u64 {
                hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                    let mut w = check::W::new(p.id, seed, false, None);
                    w.scratch = std::env::temp_dir().join(format!("rbmon-tr-{}-{}", std::process::id(), t));
                    let _ = std::fs::create_dir_all(&w.scratch);
                    let mut i = t;
                    while i < n {
                        w.idx = i;
                        (p.case)(&mut w, i);
                        i += 8;
                    }
                    let _ = std::fs::remove_dir_all(&w.scratch);
                    (w.viol, w.feats, w.evals)
                }).unwrap());
            }
            let mut g: std::collections::BTreeMap<String, (u64, check::Viol)> = Default::default();
            let mut f: std::collections::BTreeMap<String, u64> = Default::default();
            for h in hs {
                let (vs, fs, _) = h.join().unwrap();
                for (k, n) in fs {
                    *f.entry(k).or_insert(0) += n;
                }
                for v in vs {
                    let key: String = {
                        let mut o = String::new();
                        let mut q = false;
                        for c in v.what.chars() {
                            if c == '`' { q = !q; o.push(c); continue; }
                            if q { continue; }
                            if c.is_ascii_digit() { if !o.ends_with('N') { o.push('N'); } } else { o.push(c) }
                        }
                        o
                    };
                    let e = g.entry(key).or_insert((0, v.clone()));
                    e.0 += 1;
                    if v.input.len() < e.1.input.len() {
                        e.1 = v;
                    }
                }
            }
            for (_, (n, v)) in &g {
                println!("==== {} x {} (case {})\n{}\n--- {:?}", n, v.what, v.idx, String::from_utf8_lossy(&v.input), String::from_utf8_lossy(&v.input));
            }
            for (k, n) in f {
                println!("{:8} {}", n, k);
            }
        }
        "stats-locs" => stats::locs(a[2].parse().unwrap()),
        "stats-nest" => stats::nest(a[2].parse().unwrap()),
        "stats-hull" => stats::hull(a[2].parse().unwrap()),
        "stats-mem" => stats::mem(a[2].parse().unwrap()),
        "stats-toks" => stats::toks(a[2].parse().unwrap()),
        "tokstat" => {
            // which token kinds coincide with ranges of the tree
            let n: u64 = a[2].parse().unwrap();
            let mut m: std::collections::BTreeMap<String, (u64, u64, Vec<u8>, usize)> = Default::default();
            for i in 0..n {
                let mut r = util::Rng::new(1, "tokstat", i);
                let (v, _) = locs::mixed(&mut r);
                let Ok(res) = util::parse(&v) else { continue };
                if res.has_error() {
                    continue;
                }
                let mut set = std::collections::HashSet::new();
                if let Some(t) = &res.ast {
                    locs::ranges(t, &mut set);
                }
                for t in &res.toks {
                    let e = m.entry(t.name.to_string()).or_insert((0, 0, vec![], 0));
                    e.0 += 1;
                    if !set.contains(&t.loc) {
                        e.1 += 1;
                        if e.2.is_empty() || v.len() < e.2.len() {
                            e.2 = v.clone();
                            e.3 = t.loc.0;
                        }
                    }
                }
            }
            for (k, e) in m {
                println!("{:24} {:8} {:8}  {} @{}", k, e.0, e.1, crate::tree::show_bytes(&e.2), e.3);
            }
        }
        "show" => {
            let inp = if a.len() > 2 { a[2].clone().into_bytes() } else { stdin() };
            let r = util::parse(&inp).unwrap();
            for d in &r.diags {
                println!("{} {:?} {} {}", if d.error { "E" } else { "W" }, d.loc, d.msg, d.text);
            }
            for t in &r.toks {
                print!("{}({})@{}..{} ", t.name, tree::show_bytes(&t.val), t.loc.0, t.loc.1);
            }
            println!();
            if !r.comments.is_empty() { println!("comments {:?}", r.comments.iter().map(|c| c.loc).collect::<Vec<_>>()); }
            if !r.magic.is_empty() { println!("magic {:?}", r.magic); }
            println!("{}", r.ast.map_or("NIL".into(), |t| t.show(true)));
        }
        "derive" => {
            for l in String::from_utf8(stdin()).unwrap().lines() {
                if l.trim().is_empty() || l.starts_with('#') || l.starts_with("//") || l.contains(" ⇒ ") {
                    println!("{}", l);
                } else {
                    println!("{}", derive::derive(l));
                }
            }
        }
        "gen-test" => {
            let n: u64 = a[2].parse().unwrap();
            let layout: u8 = a.get(3).map_or(1, |x| x.parse().unwrap());
            let seed: u64 = a.get(4).map_or(1, |x| x.parse().unwrap());
            let show: usize = a.get(5).map_or(5, |x| x.parse().unwrap());
            let mut bad = 0;
            let mut best: Vec<(usize, String)> = vec![];
            let mut bytes = 0;
            for i in 0..n {
                let mut g = gen::Gen::new(util::Rng::new(seed, "t", i), layout, &[]);
                g.ctx.depth = 3 + (i % 4) as i32;
                g.budget = 30;
                let r = util::guarded(|| {
                    let mut t = match g.gen("topstmts", None) {
                        gen::Val::Node(t) => t,
                        _ => panic!(),
                    };
                    g.finish(&mut t);
                    t
                });
                let t = match r {
                    Ok(t) => t,
                    Err(e) => {
                        println!("GENERATOR PANIC {:?}", e);
                        bad += 1;
                        continue;
                    }
                };
                bytes += g.out.len();
                let src = String::from_utf8_lossy(&g.out).to_string();
                let m = match util::parse(&g.out) {
                    Err(e) => Some(format!("PANIC {:?}", e)),
                    Ok(r) if r.has_error() => Some(format!("ERROR {:?}", r.errors().iter().map(|d| format!("{}@{:?}", d.text, d.loc)).collect::<Vec<_>>())),
                    Ok(r) => tree::diff_opt(&t, &r.ast, true),
                };
                if let Some(m) = m {
                    bad += 1;
                    best.push((src.len(), format!("{}\n-----\n{}", src, m)));
                }
            }
            best.sort();
            for b in best.iter().take(show) {
                println!("=================\n{}", b.1);
            }
            println!("bad {} of {}, {} bytes", bad, n, bytes);
        }
        x => panic!("{}", x),
    }
}
