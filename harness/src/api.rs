//! C25: known local variables (public StaticEnvironment, predeclared variables, incremental parsing).
//! C29: the standalone tokenizer and the tables behind it.
use crate::check::W;
use crate::model::any_program;
use crate::tree::*;
use crate::util::*;
use lib_ruby_parser::{Lexer, Parser, StaticEnvironment};
use std::collections::BTreeSet;

const NAMES: &[&str] = &["a", "b", "foo", "x", "é", "_", "A", "@a", "", "lv1", "_1", "end", "日本", "a b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "ab", "ba", "lv2", "lv10", "Lv1", "a?", "a=", "é2", "e\u{301}", "long_long_long_long_long_long_long_long_1", "long_long_long_long_long_long_long_long_2"];

/// Random histories of operations on one environment through several handles, against a list of sets.
fn history(w: &mut W, r: &mut Rng) {
    let first = match r.below(2) {
        0 => StaticEnvironment::new(),
        _ => StaticEnvironment::default(),
    };
    let mut handles = vec![first];
    let mut cur: BTreeSet<&str> = BTreeSet::new();
    let mut stack: Vec<BTreeSet<&str>> = vec![];
    let mut log = String::new();
    for _ in 0..r.range(1, 60) {
        let h = r.below(handles.len());
        match r.below(10) {
            0 if handles.len() < 4 => {
                let c = handles[h].clone();
                handles.push(c);
                log.push_str("clone; ");
            }
            1 => {
                handles[h].extend_static();
                stack.push(std::mem::take(&mut cur));
                log.push_str("extend_static; ");
            }
            2 => {
                handles[h].extend_dynamic();
                stack.push(cur.clone());
                log.push_str("extend_dynamic; ");
            }
            3 | 4 if !stack.is_empty() => {
                handles[h].unextend();
                cur = stack.pop().unwrap();
                log.push_str("unextend; ");
            }
            _ => {
                let n = *r.pick(NAMES);
                handles[h].declare(n);
                cur.insert(n);
                log.push_str(&format!("declare {:?}; ", n));
            }
        }
        let q = r.below(handles.len());
        for n in NAMES {
            if handles[q].is_declared(n) != cur.contains(n) {
                w.fail(format!("is_declared({:?}) is {} after the history", n, !cur.contains(n)), log.as_bytes());
                w.done(log.as_bytes(), true);
                return;
            }
        }
        w.add("environment states compared", 1);
    }
    w.note("history of operations");
    w.done(log.as_bytes(), true);
}

fn statements(t: &Option<T>) -> Vec<T> {
    match t {
        None => vec![],
        Some(t) if t.k == "Begin" && t.loc("begin_l").is_none() => t.list("statements").to_vec(),
        Some(t) => vec![t.clone()],
    }
}
fn idents(x: &Res) -> BTreeSet<String> {
    x.toks.iter().filter(|t| matches!(t.name, "tIDENTIFIER" | "tLABEL")).filter_map(|t| String::from_utf8(t.val.clone()).ok()).map(|s| s.trim_end_matches(':').to_string()).collect()
}
fn parse_with(src: &[u8], names: &[String]) -> Result<(Res, StaticEnvironment), (String, String)> {
    guarded(|| {
        let p = Parser::new(src.to_vec(), opts(true));
        for n in names {
            p.static_env.declare(n);
        }
        let e = p.static_env.clone();
        (extract(&p.do_parse()), e)
    })
}
/// What `second` gives on its own (knowing `names`) must be what it gives behind `first`.
fn same_tail(alone: &Res, whole: &Res, first: usize, shift: usize) -> Option<String> {
    let mut a = statements(&alone.ast);
    a.iter_mut().for_each(|t| t.shift(shift as isize));
    let b = statements(&whole.ast);
    if b.len() != first + a.len() {
        return Some(format!("{} statements on its own, {} behind the others", a.len(), b.len() as isize - first as isize));
    }
    for (x, y) in a.iter().zip(&b[first..]) {
        if let Some(d) = diff(x, y, true) {
            return Some(format!("tree differs: {}", d));
        }
    }
    let a: Vec<(String, Span)> = alone.diags.iter().map(|d| (d.msg.clone(), (d.loc.0 + shift, d.loc.1 + shift))).collect();
    let b: Vec<(String, Span)> = whole.diags.iter().filter(|d| d.loc.0 >= shift).map(|d| (d.msg.clone(), d.loc)).collect();
    if a != b {
        return Some(format!("diagnostics {:?} on its own, {:?} behind the others", a, b));
    }
    None
}

pub fn c25(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    match i % 4 {
        0 => return history(w, &mut r),
        1 => {
            // names declared by hand mean what an assignment in front means
            let p = any_program(&mut r);
            if p.src.len() > 3000 || p.src.starts_with(b"\xef\xbb\xbf") {
                return;
            }
            let Ok(x) = parse(&p.src) else { return };
            let mut names: Vec<String> = idents(&x).into_iter().filter(|n| !n.is_empty() && !n.ends_with(|c| matches!(c, '?' | '!')) && !n.starts_with(|c: char| c == '_' && n.len() == 2 || crate::util::const_start(c) || c == '"')).filter(|_| r.chance(1, 2)).collect();
            names.push("zzz".into());
            w.feed(&p.src);
            let head: Vec<u8> = format!("{} = 1\n", names.join(" = ")).into_bytes();
            let mut whole = head.clone();
            whole.extend_from_slice(&p.src);
            let (a, b) = match (parse_with(&p.src, &names), parse(&whole)) {
                (Ok((a, _)), Ok(b)) => (a, b),
                _ => {
                    w.note("panicked (see C01)");
                    return;
                }
            };
            if b.errors().iter().any(|d| d.loc.0 < head.len()) {
                w.note("not a name");
                return;
            }
            w.note(if a.has_error() { "rejected once its names are known" } else { "accepted" });
            if !a.has_error() || !b.has_error() {
                if let Some(d) = same_tail(&a, &b, 1, head.len()) {
                    w.fail(format!("with {} declared: {}", names.join(", "), d), &p.src);
                }
            }
            w.note("names declared by hand");
            w.done(&whole, true);
        }
        2 => {
            // line by line, as a console does it
            let (p, q) = (any_program(&mut r), any_program(&mut r));
            if p.src.len() + q.src.len() > 4000 || q.src.starts_with(b"\xef\xbb\xbf") {
                return;
            }
            w.feed(&p.src);
            let Ok((a, env)) = parse_with(&p.src, &[]) else { return };
            let Ok(q0) = parse(&q.src) else { return };
            if a.has_error() {
                w.note("first part rejected");
                return;
            }
            let mut all = idents(&a);
            all.extend(idents(&q0));
            let known: Vec<String> = all.iter().filter(|n| env.is_declared(n)).cloned().collect();
            let mut whole = p.src.clone();
            whole.push(b'\n');
            let shift = whole.len();
            whole.extend_from_slice(&q.src);
            w.feed(&whole);
            let (b, c) = match (parse_with(&q.src, &known), parse(&whole)) {
                (Ok((b, _)), Ok(c)) => (b, c),
                _ => {
                    w.note("panicked (see C01)");
                    return;
                }
            };
            if !b.has_error() || !c.has_error() {
                if let Some(d) = same_tail(&b, &c, statements(&a.ast).len(), shift) {
                    w.fail(format!("second part, knowing {}: {}", known.join(", "), d), &whole);
                }
            }
            w.add("variables handed over", known.len() as u64);
            w.note("continued in a second parser");
            w.done(&whole, true);
        }
        _ => {
            // the environment left behind says exactly which names are variables
            let p = any_program(&mut r);
            if p.src.len() > 3000 {
                return;
            }
            w.feed(&p.src);
            let Ok((a, env)) = parse_with(&p.src, &[]) else { return };
            if a.has_error() {
                return;
            }
            let mut names: Vec<String> = idents(&a).into_iter().filter(|n| n.chars().all(|c| c.is_alphanumeric() || c == '_') && !n.starts_with(|c: char| crate::util::const_start(c) || c.is_numeric()) && !n.is_empty()).collect();
            names.push("zzz".into());
            let n = r.pick(&names).clone();
            let mut whole = p.src.clone();
            whole.push(b'\n');
            whole.extend_from_slice(n.as_bytes());
            let Ok(b) = parse(&whole) else { return };
            if b.has_error() {
                w.note("not a name");
                return;
            }
            let last = statements(&b.ast).pop();
            let k = last.as_ref().map_or("", |t| t.k);
            if k != "Lvar" && k != "Send" {
                w.note("not a name");
                return;
            }
            if (k == "Lvar") != env.is_declared(&n) {
                w.fail(format!("after the program {} is a {}, but is_declared says {}", n, k, env.is_declared(&n)), &whole);
            }
            w.note("environment left behind");
            w.note(if k == "Lvar" { "name of a variable" } else { "name of a method" });
            w.done(&whole, true);
        }
    }
}

pub fn lex(src: &[u8], names: &[&str]) -> Result<Vec<Tok>, (String, String)> {
    guarded(|| {
        let mut l = Lexer::new(src.to_vec(), "(rbmon)", None);
        for n in names {
            l.static_env.declare(n);
        }
        l.tokenize_until_eof().iter().map(|t| Tok { name: t.token_name(), val: t.token_value.raw.clone(), loc: (t.loc.begin, t.loc.end) }).collect()
    })
}

/// word, token at the start of a statement, token behind an expression
const WORDS: &[(&str, &str, &str)] = &[
    ("do", "kDO", "kDO"),
    ("if", "kIF", "kIF_MOD"),
    ("in", "kIN", "kIN"),
    ("or", "kOR", "kOR"),
    ("END", "klEND", "klEND"),
    ("and", "kAND", "kAND"),
    ("def", "kDEF", "kDEF"),
    ("end", "kEND", "kEND"),
    ("for", "kFOR", "kFOR"),
    ("nil", "kNIL", "kNIL"),
    ("not", "kNOT", "kNOT"),
    ("case", "kCASE", "kCASE"),
    ("else", "kELSE", "kELSE"),
    ("next", "kNEXT", "kNEXT"),
    ("redo", "kREDO", "kREDO"),
    ("self", "kSELF", "kSELF"),
    ("then", "kTHEN", "kTHEN"),
    ("true", "kTRUE", "kTRUE"),
    ("when", "kWHEN", "kWHEN"),
    ("BEGIN", "klBEGIN", "klBEGIN"),
    ("alias", "kALIAS", "kALIAS"),
    ("begin", "kBEGIN", "kBEGIN"),
    ("break", "kBREAK", "kBREAK"),
    ("class", "kCLASS", "kCLASS"),
    ("elsif", "kELSIF", "kELSIF"),
    ("false", "kFALSE", "kFALSE"),
    ("retry", "kRETRY", "kRETRY"),
    ("super", "kSUPER", "kSUPER"),
    ("undef", "kUNDEF", "kUNDEF"),
    ("until", "kUNTIL", "kUNTIL_MOD"),
    ("while", "kWHILE", "kWHILE_MOD"),
    ("yield", "kYIELD", "kYIELD"),
    ("ensure", "kENSURE", "kENSURE"),
    ("module", "kMODULE", "kMODULE"),
    ("rescue", "kRESCUE", "kRESCUE_MOD"),
    ("return", "kRETURN", "kRETURN"),
    ("unless", "kUNLESS", "kUNLESS_MOD"),
    ("__FILE__", "k__FILE__", "k__FILE__"),
    ("__LINE__", "k__LINE__", "k__LINE__"),
    ("defined?", "kDEFINED", "kDEFINED"),
    ("__ENCODING__", "k__ENCODING__", "k__ENCODING__"),
];
fn near_word(r: &mut Rng) -> String {
    let w = r.pick(WORDS).0.to_string();
    match r.below(8) {
        0 => w,
        1 => format!("{}{}", w, r.pick(&["x", "_", "1", "s", "é", "end"])),
        2 => format!("{}{}", r.pick(&["x", "_", "e", "é", "un"]), w),
        3 => w.to_uppercase(),
        4 => w.to_lowercase(),
        5 => w[..w.len() - 1].to_string(),
        6 => {
            let mut b = w.into_bytes();
            let k = r.below(b.len());
            b[k] = b'a' + r.below(26) as u8;
            String::from_utf8(b).unwrap()
        }
        _ => {
            let n = 1 + r.below(13);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
    }
}
fn words(w: &mut W, r: &mut Rng) {
    use lib_ruby_parser::reserved_word;
    let word = near_word(r);
    let known = WORDS.iter().find(|x| x.0 == word);
    let got = reserved_word(word.as_bytes());
    if got.is_some() != known.is_some() || got.map_or(false, |g| !format!("{:?}", g).contains(&format!("\"{}\"", word))) {
        w.fail(format!("reserved_word({:?}) is {:?}", word, got), word.as_bytes());
    }
    if known.is_none() && word.contains('?') {
        return;
    }
    let plain = if word.chars().next().map_or(false, |c| crate::util::const_start(c)) { "tCONSTANT" } else { "tIDENTIFIER" };
    let ext = |s: &str| if s.ends_with('?') { "tFID" } else { plain };
    // in front of it, behind it, which token of the result, what it must be
    let (src, n, want, val): (String, usize, &str, String) = match r.below(8) {
        0 => (word.clone(), 0, known.map_or(plain, |k| k.1), word.clone()),
        1 => (format!("1 {} ", word), 1, known.map_or(plain, |k| k.2), word.clone()),
        2 => (format!("a.{}", word), 2, if known.is_some() { ext(&word) } else { plain }, word.clone()),
        3 => (format!("a&.{} 1", word), 2, if known.is_some() { ext(&word) } else { plain }, word.clone()),
        4 => (format!("f({}: 1)", word), 2, "tLABEL", word.clone()),
        5 => (format!("@{} ", word.trim_end_matches('?')), 0, "tIVAR", format!("@{}", word.trim_end_matches('?'))),
        6 => (format!(":{}", word), 1, known.map_or(plain, |k| k.1), word.clone()),
        _ => (format!("x\n{}\n", word), 2, known.map_or(plain, |k| k.1), word.clone()),
    };
    w.feed(src.as_bytes());
    match lex(src.as_bytes(), &[]) {
        Err((m, l)) => w.fail(format!("panicked: {} at {}", m, l), src.as_bytes()),
        Ok(t) => match t.get(n) {
            Some(t) if t.name == want && t.val == val.as_bytes() => {}
            x => w.fail(format!("token {} is {:?}, expected {} {:?}", n, x, want, val), src.as_bytes()),
        },
    }
    w.note(if known.is_some() { "reserved words" } else { "near misses of reserved words" });
    w.done(src.as_bytes(), true);
}

/// What follows a name, the token it is when the name is a variable, and when it is not.
const AFTER: &[(&str, &str, &str)] = &[
    ("/x/", "tDIVIDE", "tREGEXP_BEG"),
    ("-1", "tMINUS", "tUMINUS_NUM"),
    ("-b", "tMINUS", "tUMINUS"),
    ("+b", "tPLUS", "tUPLUS"),
    ("*b", "tSTAR2", "tSTAR"),
    ("**b", "tPOW", "tDSTAR"),
    ("&b", "tAMPER2", "tAMPER"),
    ("[1]", "tLBRACK2", "tLBRACK"),
    ("%w[a]", "tPERCENT", "tQWORDS_BEG"),
    ("<<E\nE\n", "tLSHFT", "tSTRING_BEG"),
    ("?x", "tEH", "tCHAR"),
    ("::A", "tCOLON2", "tCOLON3"),
];
fn declared(w: &mut W, r: &mut Rng) {
    let names = ["a", "foo", "é", "lv1", "_x", "日本"];
    let decl: Vec<&str> = names.iter().filter(|_| r.chance(1, 2)).cloned().collect();
    let n = *r.pick(&names);
    let (tail, yes, no) = *r.pick(AFTER);
    let front = *r.pick(&["", "\n", "1; ", "( ", "x = ", "1 + ", "[", "# c\n", "f(1, "]);
    let src = format!("{}{} {}", front, n, tail);
    w.feed(src.as_bytes());
    let at = front.len() + n.len() + 1;
    let want = if decl.contains(&n) { yes } else { no };
    match lex(src.as_bytes(), &decl) {
        Err((m, l)) => w.fail(format!("panicked: {} at {}", m, l), src.as_bytes()),
        Ok(t) => match t.iter().find(|t| t.loc.0 == at) {
            Some(t) if t.name == want => {}
            x => w.fail(format!("with {:?} declared the token behind {} is {:?}, expected {}", decl, n, x, want), src.as_bytes()),
        },
    }
    w.note(if decl.contains(&n) { "name of a variable" } else { "name of a method" });
    w.done(src.as_bytes(), true);
}

pub fn c29(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    match i % 8 {
        0 => return words(w, &mut r),
        1 => return declared(w, &mut r),
        2 => {
            // tokens of any input lie in it and say what their accessors say
            let (v, _) = crate::locs::mixed(&mut r);
            w.feed(&v);
            let res = guarded(|| {
                let mut l = Lexer::new(v.clone(), "(rbmon)", None);
                let ts = l.tokenize_until_eof();
                let mut bad = None;
                for t in &ts {
                    let raw = t.token_value.raw.clone();
                    let utf = String::from_utf8(raw.clone()).ok();
                    if t.loc.begin > t.loc.end || t.loc.end > v.len() {
                        bad = Some(format!("{:?} lies outside of the source", t));
                    }
                    if t.as_bytes() != &raw || t.clone().into_bytes() != raw || t.as_str_lossy().ok() != utf.as_deref() || t.to_string().ok() != utf || t.clone().into_string().ok() != utf || t.to_string_lossy() != String::from_utf8_lossy(&raw) {
                        bad = Some(format!("accessors of {:?} disagree with its value", t));
                    }
                    let d = format!("[{}, {:?}, {}...{}]", t.token_name(), String::from_utf8_lossy(&raw), t.loc.begin, t.loc.end);
                    if format!("{:?}", t) != d {
                        bad = Some(format!("{:?} should be shown as {}", t, d));
                    }
                }
                (bad, ts.len())
            });
            match res {
                Err(_) => w.note("panicked (see C01)"),
                Ok((bad, n)) => {
                    if let Some(m) = bad {
                        w.fail(m, &v);
                    }
                    w.add("tokens of any input", n as u64);
                    w.done(&v, n > 0);
                }
            }
            return;
        }
        _ => {}
    }
    let layout = r.below(3) as u8;
    let (depth, budget) = (r.range(1, 3) as i32, r.range(1, 8) as i32);
    let p = crate::model::program(Rng(r.next()), layout, &["literals", "ops", "calls", "asgn", "coll", "const", "vars", "heredoc"], None, depth, budget);
    let Ok(x) = parse(&p.src) else { return };
    if x.has_error() {
        return;
    }
    // code in which the parser tells the lexer nothing
    let guided = |t: &Tok| {
        t.name.starts_with('k') && !matches!(t.name, "kNIL" | "kTRUE" | "kFALSE" | "kSELF" | "k__FILE__" | "k__LINE__" | "k__ENCODING__" | "kAND" | "kOR")
            || matches!(t.name, "tSTRING_DBEG" | "tSTRING_DVAR" | "tLAMBDA" | "tLCURLY" | "tLBRACE" | "tLBRACE_ARG")
    };
    let mut pat = false;
    if let Some(t) = &x.ast {
        t.walk(&mut |t| pat |= t.k.starts_with("MatchPattern"));
    }
    if pat || x.toks.iter().any(guided) {
        w.note("guided by the parser");
        return;
    }
    let mut want = x.toks.clone();
    if want.last().map_or(false, |t| t.name == "EOF") {
        want.pop();
    }
    w.feed(&p.src);
    match lex(&p.src, &[]) {
        Err((m, l)) => w.fail(format!("panicked: {} at {}", m, l), &p.src),
        Ok(t) => {
            if t != want {
                let k = (0..t.len().max(want.len())).find(|k| t.get(*k) != want.get(*k)).unwrap();
                w.fail(format!("token differs: parser {:?}, lexer {:?}", want.get(k), t.get(k)), &p.src);
            }
            w.add("tokens compared with the parser's", t.len() as u64);
        }
    }
    w.done(&p.src, true);
}
