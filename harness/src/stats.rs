//! Development aid: what the parser reports, summarised.
use crate::model::any_program;
use crate::tree::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
pub fn locs(n: u64) {
    let mut m: BTreeMap<(String, String), (u64, BTreeSet<String>)> = BTreeMap::new();
    for i in 0..n {
        let mut r = Rng::new(5, "stats", i);
        let p = any_program(&mut r);
        let Ok(res) = parse(&p.src) else { continue };
        if res.has_error() {
            continue;
        }
        if let Some(t) = &res.ast {
            t.walk(&mut |x| {
                for (f, v) in &x.f {
                    if let V::Loc(l) = v {
                        let s = match l {
                            None => "<none>".to_string(),
                            Some(l) if l.0 > l.1 || l.1 > p.src.len() => "<BAD>".into(),
                            Some(l) => String::from_utf8_lossy(&p.src[l.0..l.1]).into_owned(),
                        };
                        let e = m.entry((x.k.to_string(), f.to_string())).or_default();
                        e.0 += 1;
                        if e.1.len() < 12 {
                            e.1.insert(s);
                        }
                    }
                }
            });
        }
    }
    for ((k, f), (n, s)) in m {
        println!("{} {} {} {:?}", k, f, n, s);
    }
}
pub fn nest(n: u64) {
    let mut m: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for i in 0..n {
        let mut r = Rng::new(5, "stats", i);
        let p = any_program(&mut r);
        let Ok(res) = parse(&p.src) else { continue };
        if res.has_error() {
            continue;
        }
        let mut put = |k: String| {
            let e = m.entry(k).or_insert((0, String::from_utf8_lossy(&p.src).into_owned()));
            e.0 += 1;
            if p.src.len() < e.1.len() {
                e.1 = String::from_utf8_lossy(&p.src).into_owned();
            }
        };
        if let Some(t) = &res.ast {
            t.walk(&mut |x| {
                let mut ivs: Vec<(Span, String)> = vec![];
                for (f, v) in &x.f {
                    match v {
                        V::Loc(Some(l)) => {
                            if l.0 < x.e.0 || l.1 > x.e.1 {
                                put(format!("field outside: {}.{}", x.k, f));
                            }
                            ivs.push((*l, f.to_string()));
                        }
                        V::Node(Some(c)) => {
                            if c.e.0 < x.e.0 || c.e.1 > x.e.1 {
                                put(format!("child outside: {}.{} {}", x.k, f, c.k));
                            }
                            ivs.push((c.e, f.to_string()));
                        }
                        V::List(l) => {
                            for c in l {
                                if c.e.0 < x.e.0 || c.e.1 > x.e.1 {
                                    put(format!("child outside: {}.{} {}", x.k, f, c.k));
                                }
                                ivs.push((c.e, f.to_string()));
                            }
                            for w in l.windows(2) {
                                if w[0].e.1 > w[1].e.0 {
                                    put(format!("list order: {}.{}", x.k, f));
                                }
                            }
                        }
                        _ => {}
                    }
                }
                for i in 0..ivs.len() {
                    for j in 0..i {
                        let (a, b) = (&ivs[j], &ivs[i]);
                        if a.0 .0 < b.0 .1 && b.0 .0 < a.0 .1 {
                            put(format!("overlap: {} {} {}", x.k, a.1, b.1));
                        }
                    }
                }
            });
        }
    }
    for (k, (n, s)) in m {
        println!("{} x {}: {:?}", n, k, s);
    }
}
pub fn toks(n: u64) {
    let mut m: BTreeMap<String, (u64, BTreeSet<String>)> = BTreeMap::new();
    for i in 0..n {
        let mut r = Rng::new(5, "stats", i);
        let p = any_program(&mut r);
        let Ok(res) = parse(&p.src) else { continue };
        if res.has_error() {
            continue;
        }
        for t in &res.toks {
            let s = if t.loc.0 > t.loc.1 || t.loc.1 > p.src.len() { "<BAD>".into() } else { String::from_utf8_lossy(&p.src[t.loc.0..t.loc.1]).into_owned() };
            let v = String::from_utf8_lossy(&t.val).into_owned();
            let e = m.entry(format!("{} {}", t.name, if s == v { "same" } else { "diff" })).or_default();
            e.0 += 1;
            if e.1.len() < 8 {
                e.1.insert(if s == v { s } else { format!("{}⇐{}", v, s) });
            }
        }
    }
    for (k, (n, s)) in m {
        println!("{} {} {:?}", k, n, s);
    }
}
pub fn hull(n: u64) {
    let mut m: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    for i in 0..n {
        let mut r = Rng::new(5, "stats", i);
        let p = any_program(&mut r);
        let Ok(res) = parse(&p.src) else { continue };
        if res.has_error() {
            continue;
        }
        if let Some(t) = &res.ast {
            t.walk(&mut |x| {
                let mut h = (usize::MAX, 0);
                for (_, v) in &x.f {
                    match v {
                        V::Loc(Some(l)) => h = (h.0.min(l.0), h.1.max(l.1)),
                        V::Node(Some(c)) => h = (h.0.min(c.e.0), h.1.max(c.e.1)),
                        V::List(l) => {
                            for c in l {
                                h = (h.0.min(c.e.0), h.1.max(c.e.1))
                            }
                        }
                        _ => {}
                    }
                }
                if h.0 == usize::MAX {
                    return;
                }
                let e = m.entry(x.k.to_string()).or_insert((0, 0, String::new()));
                e.0 += 1;
                if h != x.e {
                    e.1 += 1;
                    let s = format!("{:?} hull {:?}", String::from_utf8_lossy(&p.src[x.e.0..x.e.1]), String::from_utf8_lossy(&p.src[h.0.min(p.src.len())..h.1.min(p.src.len())]));
                    if e.2.is_empty() || s.len() < e.2.len() {
                        e.2 = s;
                    }
                }
            });
        }
    }
    for (k, (n, b, s)) in m {
        if b > 0 {
            println!("{} {}/{} {}", k, b, n, s);
        }
    }
}

pub fn mem(n: u64) {
    let mut v: Vec<(isize, isize, u64, u64)> = vec![];
    for i in 0..n {
        let mut r = crate::util::Rng::new(7, "mem", i);
        let (s, _) = crate::inputs::hostile(&mut r);
        if let Ok(u) = crate::util::guarded(|| crate::mem::measure(|| lib_ruby_parser::Parser::new(s.clone(), crate::util::opts(true)).do_parse())) {
            v.push((s.len() as isize, u.peak, u.total, u.count));
        }
    }
    let small: Vec<_> = v.iter().filter(|x| x.0 < 20).collect();
    println!("small: peak {:?} total {:?}", small.iter().map(|x| x.1).max(), small.iter().map(|x| x.2).max());
    for b in [20, 100, 300, 1000] {
        let x: Vec<_> = v.iter().filter(|x| x.0 >= b).collect();
        println!("len>={}: peak/len {:?} total/len {:?} count/len {:?}", b, x.iter().map(|x| x.1 / x.0).max(), x.iter().map(|x| x.2 as isize / x.0).max(), x.iter().map(|x| x.3 as isize / x.0).max());
    }
}
