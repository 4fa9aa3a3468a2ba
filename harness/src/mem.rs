//! C02 and C03: memory accounting, determinism and independence of parses.
use crate::check::W;
use crate::inputs::hostile;
use crate::locs::mixed;
use crate::model::any_program;
use crate::util::*;
use lib_ruby_parser::source::*;
use lib_ruby_parser::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
}
fn up(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    let _ = COUNT.try_with(|t| t.set(t.get() + 1));
    let _ = BLOCKS.try_with(|t| t.set(t.get() + 1));
}
fn down(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
    let _ = BLOCKS.try_with(|t| t.set(t.get() - 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        down(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        down(l.size());
        up(n);
        System.realloc(p, l, n)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Usage {
    pub left: isize,
    pub left_blocks: isize,
    pub peak: isize,
    pub total: u64,
    pub count: u64,
}
/// Memory behaviour of `f` on this thread; what it returns is dropped inside of the measurement.
pub fn measure<R>(f: impl FnOnce() -> R) -> Usage {
    let (l0, b0, t0, c0) = (LIVE.with(|x| x.get()), BLOCKS.with(|x| x.get()), TOTAL.with(|x| x.get()), COUNT.with(|x| x.get()));
    PEAK.with(|p| p.set(l0));
    drop(f());
    Usage {
        left: LIVE.with(|x| x.get()) - l0,
        left_blocks: BLOCKS.with(|x| x.get()) - b0,
        peak: PEAK.with(|x| x.get()) - l0,
        total: TOTAL.with(|x| x.get()) - t0,
        count: COUNT.with(|x| x.get()) - c0,
    }
}

// ---------------------------------------------------------------- C02
fn run(v: &[u8], mode: usize) -> usize {
    match mode {
        0 => Lexer::new(v.to_vec(), "(rbmon)", None).tokenize_until_eof().len(),
        1 => {
            // a lexer and a parser that are never run
            drop(Lexer::new(v.to_vec(), "(rbmon)", None));
            drop(Parser::new(v.to_vec(), opts(true)));
            0
        }
        2 => {
            // results can be taken apart
            let r = Parser::new(v.to_vec(), opts(true)).do_parse();
            let ParserResult { ast, tokens, diagnostics, comments, magic_comments, input } = r;
            drop(input);
            let c = ast.clone();
            drop(ast);
            drop(tokens);
            drop(diagnostics);
            drop(c);
            comments.len() + magic_comments.len()
        }
        3 => {
            let d = Decoder::new(Box::new(|_, b| DecoderResult::Ok(b)));
            Parser::new(v.to_vec(), ParserOptions { buffer_name: "x".into(), decoder: Some(d), record_tokens: false }).do_parse().tokens.len()
        }
        _ => Parser::new(v.to_vec(), opts(mode != 4)).do_parse().tokens.len(),
    }
}

pub fn c02(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    if i % 64 == 63 {
        return scaling(w, &mut r);
    }
    let (v, kind) = if r.chance(1, 4) { mixed(&mut r) } else { hostile(&mut r) };
    let mode = r.below(7);
    w.feed(&v);
    let ok = guarded(|| run(&v, mode)).is_ok();
    if !ok {
        w.note("panicked (see C01)");
        return;
    }
    let u = measure(|| {
        run(&v, mode);
    });
    w.note(["standalone lexer", "never run", "taken apart", "with decoder", "without tokens", "with tokens", "with tokens"][mode]);
    w.note(kind);
    w.add("allocations observed", u.count);
    if u.left != 0 || u.left_blocks != 0 {
        w.fail(format!("{} bytes in {} blocks are never released", u.left, u.left_blocks), &v);
    }
    let n = v.len() as isize;
    if u.peak > PEAK_BASE + PEAK_PER_BYTE * n {
        w.fail(format!("{} bytes of memory for a source of {} bytes", u.peak, n), &v);
    }
    if u.total as isize > TOTAL_BASE + TOTAL_PER_BYTE * n {
        w.fail(format!("{} bytes allocated in total for a source of {} bytes", u.total, n), &v);
    }
    w.done(&v, u.count > 0);
}

// ---------------------------------------------------------------- C30
/// Uses of lexers, parsers, tokens and results in every order; meant to run in the build with
/// AddressSanitizer, which ends the process at the first access to memory that is not owned.
pub fn c30(w: &mut W, i: u64) {
    if std::env::var("RBMON_ASAN").is_ok() {
        w.note("address sanitizer on");
    }
    let mut r = w.rng("in", i);
    let (v, kind) = if r.chance(1, 3) { mixed(&mut r) } else { hostile(&mut r) };
    let o = if r.chance(1, 2) { mixed(&mut r).0 } else { hostile(&mut r).0 };
    let mut all = v.clone();
    all.extend_from_slice(b"\n\x01\n");
    all.extend_from_slice(&o);
    w.feed(&all);
    let mode = r.below(9);
    let (name, n): (&str, Result<usize, _>) = match mode {
        0 => ("standalone lexer", guarded(|| Lexer::new(v.clone(), "(rbmon)", None).tokenize_until_eof().len())),
        1 => (
            "tokens outlive their lexers",
            guarded(|| {
                let mut l = Lexer::new(v.clone(), "(rbmon)", None);
                let a = l.tokenize_until_eof();
                let mut m = Lexer::new(o.clone(), "(rbmon)", None);
                drop(l);
                let b = m.tokenize_until_eof();
                let c: Vec<Token> = a.iter().chain(&b).cloned().collect();
                drop(b);
                drop(m);
                let n = c.iter().map(|t| t.token_value.as_raw().len() + t.loc.end).sum();
                drop(a);
                n
            }),
        ),
        2 => (
            "lexer asked again and moved",
            guarded(|| {
                let mut l = Box::new(Lexer::new(v.clone(), "(rbmon)", None));
                let a = l.tokenize_until_eof();
                let mut l = *l;
                let b = l.tokenize_until_eof();
                let k = vec![l];
                drop(k);
                a.len() + b.len()
            }),
        ),
        3 => (
            "never run",
            guarded(|| {
                let a = Lexer::new(v.clone(), "(rbmon)", None);
                let b = Parser::new(v.clone(), opts(true));
                let c = vec![Parser::new(o.clone(), opts(true)), b];
                drop(a);
                c.len()
            }),
        ),
        4 => ("taken apart", guarded(|| run(&v, 2))),
        5 => (
            "results outlive each other",
            guarded(|| {
                let p = Parser::new(v.clone(), opts(true));
                let q = Parser::new(o.clone(), opts(true));
                let y = q.do_parse();
                let x = p.do_parse();
                let t = y.tokens.clone();
                drop(y);
                let d: usize = x.diagnostics.iter().map(|d| d.render(&x.input).map_or(0, |s| s.len())).sum();
                drop(x);
                d + t.iter().map(|t| t.as_bytes().len()).sum::<usize>()
            }),
        ),
        6 => (
            "handles of an environment",
            guarded(|| {
                let p = Parser::new(v.clone(), opts(true));
                let e = p.static_env.clone();
                e.declare("foo");
                let x = p.do_parse();
                drop(x);
                let q = Parser::new(o.clone(), opts(true));
                e.extend_dynamic();
                e.declare("bar");
                let n = q.do_parse().tokens.len();
                e.unextend();
                n + e.is_declared("foo") as usize
            }),
        ),
        7 if i % 7 == 0 => (
            "in threads",
            guarded(|| {
                let hs: Vec<_> = (0..3)
                    .map(|k| {
                        let (v, o) = (v.clone(), o.clone());
                        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                            let a = if k % 2 == 0 { v } else { o };
                            parse(&a).map_or(0, |r| r.toks.len())
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.unwrap().join().unwrap_or(0)).sum()
            }),
        ),
        _ => ("inspected", guarded(|| parse(&v).map_or(0, |r| r.toks.len()))),
    };
    w.note(name);
    w.note(kind);
    match n {
        Ok(n) => w.add("tokens and renderings touched", n as u64),
        Err(_) => w.note("panicked (see C01)"),
    }
    w.done(&all, true);
}
pub const PEAK_BASE: isize = 64 << 10;
pub const PEAK_PER_BYTE: isize = 1600;
pub const TOTAL_BASE: isize = 128 << 10;
pub const TOTAL_PER_BYTE: isize = 4000;

/// A longer program needs at most proportionally more memory and allocations, whether it grows
/// by lines or in one line.
fn scaling(w: &mut W, r: &mut Rng) {
    if r.chance(1, 3) {
        return scaling_nested(w, r);
    }
    let line = r.chance(1, 2);
    let unit: Vec<u8> = if line {
        let mut v = if r.chance(1, 2) {
            let p = any_program(r).src;
            if p.contains(&b'\n') || p.contains(&b'#') || p.contains(&b'\r') {
                b"foo = bar(baz, :qux, \"x\") + 12".to_vec()
            } else {
                p
            }
        } else {
            r.pick(&["a", "a b", "@a", "$a", "@@a", "A", "foo(1)", "a = 1", ":sym", "'s'", "\"s\"", "\"#{x}\"", "%w[a b]", "1.5", "/re/i", "[1]", "{a: 1}", "x { |y| y }", "->(x) { x }", "x.y", "x&.y z", "?a", "`x`", "a?", "a!", "if a then b end", "def m() = 1", "alias a b"]).as_bytes().to_vec()
        };
        v.extend_from_slice(if r.chance(1, 2) { b";" } else { b"; " });
        v
    } else if r.chance(2, 3) {
        let mut v = any_program(r).src;
        v.push(b'\n');
        v
    } else {
        crate::inputs::unit(r)
    };
    if unit.is_empty() || unit.len() > 400 {
        return;
    }
    let (n, k) = if line { (8000 / unit.len() + 4, 4) } else { (2000 / unit.len() + 4, 2) };
    let (a, b) = (unit.repeat(n), unit.repeat(k * n));
    w.feed(&b);
    let m = |v: &Vec<u8>| guarded(|| measure(|| Parser::new(v.to_vec(), opts(true)).do_parse()));
    let (Ok(x), Ok(y)) = (m(&a), m(&b)) else {
        w.note("panicked (see C01)");
        return;
    };
    w.note(if line { "scaling judged in one line" } else { "scaling judged over lines" });
    // vectors double, so a factor of up to two is not growth
    let f = |p: u64| p * k as u64 * 13 / 8;
    let lim = |p: u64| f(p) + (64 << 10);
    if y.peak as u64 > lim(x.peak as u64) {
        w.fail(format!("memory grows from {} to {} when the program is repeated {} times instead of {}", x.peak, y.peak, k * n, n), &b);
    }
    if y.total > lim(x.total) {
        w.fail(format!("allocations grow from {} to {} bytes when the program is repeated {} times instead of {}", x.total, y.total, k * n, n), &b);
    }
    if y.count > f(x.count) + 1000 {
        w.fail(format!("allocations grow from {} to {} when the program is repeated {} times instead of {}", x.count, y.count, k * n, n), &b);
    }
    w.done(&b, true);
}

/// Many different names, then (or inside of) a construct nested many times: twice as many of both
/// need at most about twice the memory.
fn scaling_nested(w: &mut W, r: &mut Rng) {
    let item = *r.pick(&["v% = 1", "v% = w% = 2", "@v% = 1", "foo(:v%)", "V% = 1", "def m%(a, b: 1) end", "x { |v%| v% }", "v%, w% = 1", "\"v%\"", "foo v%: 1", "case 1; in v% then 2; end", "1 => v%", "->(v%) { }", "# v%", "foo <<~A%\n  v%\nA%", "alias v% w%", "undef v%", "v% ||= v%", "/(?<v%>)/ =~ 1"]);
    let (a, z) = *r.pick(crate::inputs::SHAPES);
    let leaf = *r.pick(&["a", "1", "return", "v1", "x = 1"]);
    let order = r.below(4);
    let src = |n: usize| -> Vec<u8> {
        let mut o = String::new();
        let items: Vec<String> = (0..n).map(|k| item.replace('%', &format!("{}", 1000 + k))).collect();
        let nest = |inner: &str| format!("{}{}{}", a.repeat(n), inner, z.repeat(n));
        match order {
            0 | 1 => {
                o.push_str(&items.join("\n"));
                o.push('\n');
                o.push_str(&nest(leaf));
            }
            2 => {
                o.push_str(&nest(leaf));
                o.push('\n');
                o.push_str(&items.join("\n"));
            }
            // each level has a name of its own
            _ => {
                let each: Vec<String> = items.iter().map(|i| format!("{}\n{}", i, a)).collect();
                o.push_str(&each.concat());
                o.push_str(leaf);
                o.push_str(&z.repeat(n));
            }
        }
        o.into_bytes()
    };
    let n = r.range(80, 200);
    let (s1, s2) = (src(n), src(3 * n));
    w.feed(&s2);
    let m = |v: &Vec<u8>| guarded(|| measure(|| Parser::new(v.to_vec(), opts(true)).do_parse()));
    let (Ok(x), Ok(y)) = (m(&s1), m(&s2)) else {
        w.note("panicked (see C01)");
        return;
    };
    w.note("scaling judged of names and nesting");
    let lim = |p: u64| p * 39 / 8 + (64 << 10);
    if y.peak as u64 > lim(x.peak as u64) {
        w.fail(format!("memory grows from {} to {} for three times as many names and levels", x.peak, y.peak), &s2);
    }
    if y.total > lim(x.total) {
        w.fail(format!("allocations grow from {} to {} bytes for three times as many names and levels", x.total, y.total), &s2);
    }
    w.done(&s2, true);
}

// ---------------------------------------------------------------- C03
fn name_free(r: &Res) -> Res {
    r.clone()
}
fn first_diff(a: &Res, b: &Res, toks: bool) -> Option<String> {
    if let Some(d) = crate::tree::diff_opt(&a.ast, &b.ast, true) {
        return Some(format!("tree: {}", d));
    }
    if a.diags != b.diags {
        return Some(format!("diagnostics: {:?} and {:?}", a.diags, b.diags));
    }
    if a.comments != b.comments {
        return Some("comments".into());
    }
    if a.magic != b.magic {
        return Some("magic comments".into());
    }
    if a.input != b.input {
        return Some("input".into());
    }
    if toks && a.toks != b.toks {
        let k = a.toks.iter().zip(&b.toks).position(|(x, y)| x != y).unwrap_or(a.toks.len().min(b.toks.len()));
        return Some(format!("token {}: {:?} and {:?}", k, a.toks.get(k), b.toks.get(k)));
    }
    None
}

pub fn c03(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    let (v, kind) = if r.chance(1, 3) { mixed(&mut r) } else { hostile(&mut r) };
    w.feed(&v);
    let Ok(base) = parse(&v) else {
        w.note("panicked (see C01)");
        return;
    };
    w.note(kind);
    let with = |f: &dyn Fn() -> ParserResult| guarded(|| extract(&f()));
    let mut judge = |w: &mut W, what: &str, o: Result<Res, (String, String)>, toks: bool| {
        w.note(what);
        match o {
            Err((m, l)) => w.fail(format!("{}: panicked: {} at {}", what, m, l), &v),
            Ok(o) => {
                if let Some(d) = first_diff(&name_free(&base), &name_free(&o), toks) {
                    w.fail(format!("{}: different {}", what, d), &v)
                }
                if !toks && !o.toks.is_empty() {
                    w.fail(format!("{}: tokens recorded", what), &v)
                }
            }
        }
    };
    match r.below(8) {
        0 => judge(w, "parsed again", with(&|| Parser::new(v.clone(), opts(true)).do_parse()), true),
        1 => judge(w, "without recording tokens", with(&|| Parser::new(v.clone(), opts(false)).do_parse()), false),
        2 => {
            let n = *r.pick(&["", "é.rb", "(eval)", "a\nb"]);
            judge(w, "under another name", with(&|| Parser::new(v.clone(), ParserOptions { buffer_name: n.into(), decoder: None, record_tokens: true }).do_parse()), true)
        }
        3 => {
            let other: Vec<Vec<u8>> = (0..3).map(|_| hostile(&mut r).0).collect();
            let keep: Vec<_> = other.iter().map(|o| guarded(|| Parser::new(o.clone(), opts(true)).do_parse()).ok()).collect();
            judge(w, "after other programs", with(&|| Parser::new(v.clone(), opts(true)).do_parse()), true);
            drop(keep);
        }
        4 => {
            // interleaved: both parsers exist before either runs
            let o = hostile(&mut r).0;
            let a = guarded(|| {
                let p = Parser::new(v.clone(), opts(true));
                let q = Parser::new(o.clone(), opts(true));
                let _ = q.do_parse();
                extract(&p.do_parse())
            });
            if a.is_ok() || parse(&o).is_ok() {
                judge(w, "constructed before another parse", a, true);
            }
        }
        5 if i % 8 == 5 => {
            // at the same time in several threads, each with a different history
            let n = 4;
            let others: Vec<Vec<u8>> = (0..n).map(|_| mixed(&mut r).0).collect();
            let bar = std::sync::Arc::new(std::sync::Barrier::new(n));
            let hs: Vec<_> = (0..n)
                .map(|k| {
                    let (v, o, bar) = (v.clone(), others[k].clone(), bar.clone());
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn(move || {
                            let _ = parse(&o);
                            bar.wait();
                            let mut a = vec![];
                            for _ in 0..3 {
                                a.push(parse(&v));
                                let _ = parse(&o);
                            }
                            a
                        })
                        .unwrap()
                })
                .collect();
            for h in hs {
                for a in h.join().unwrap_or_default() {
                    judge(w, "in several threads at once", a, true);
                }
            }
        }
        6 => {
            let d = || Some(Decoder::new(Box::new(|e, _| DecoderResult::Err(InputError::UnsupportedEncoding(e)))));
            judge(w, "with a decoder that knows nothing", with(&|| Parser::new(v.clone(), ParserOptions { buffer_name: "(rbmon)".into(), decoder: d(), record_tokens: true }).do_parse()), true)
        }
        7 if !base.has_error() => {
            judge(w, "with validation of the final state", parse_validated(&v), true);
        }
        _ => {
            if let Ok(s) = String::from_utf8(v.clone()) {
                judge(w, "given as a string", with(&|| Parser::new(s.as_str(), opts(true)).do_parse()), true);
            } else {
                judge(w, "parsed again", with(&|| Parser::new(v.clone(), opts(true)).do_parse()), true);
            }
        }
    }
    w.done(&v, true);
}
