//! C24: layout does not change meaning. C26: incomplete programs are rejected.
use crate::check::W;
use crate::locs::mixed;
use crate::model::any_program;
use crate::tree::*;
use crate::util::*;

fn has(v: &[u8], x: &[u8]) -> bool {
    v.windows(x.len()).any(|w| w == x)
}
/// Text inserted at positions of the old source (in order). A position maps past what was inserted
/// in front of it.
struct Edit {
    src: Vec<u8>,
    ins: Vec<(usize, usize)>,
    /// what ends at an insertion point does not grow
    name: &'static str,
}
fn insert(v: &[u8], at: &[(usize, Vec<u8>)], name: &'static str) -> Edit {
    let mut src = vec![];
    let mut last = 0;
    let mut ins = vec![];
    for (p, x) in at {
        src.extend_from_slice(&v[last..*p]);
        src.extend_from_slice(x);
        ins.push((*p, x.len()));
        last = *p;
    }
    src.extend_from_slice(&v[last..]);
    Edit { src, ins, name }
}
impl Edit {
    fn begin(&self, p: usize) -> usize {
        // a line break keeps its place: the \r belongs to it
        if self.name == "CRLF" {
            return self.end(p);
        }
        p + self.ins.iter().filter(|(q, _)| *q <= p).map(|x| x.1).sum::<usize>()
    }
    fn end(&self, p: usize) -> usize {
        p + self.ins.iter().filter(|(q, _)| *q < p).map(|x| x.1).sum::<usize>()
    }
    fn span(&self, s: Span) -> Span {
        if s.0 == usize::MAX {
            return s;
        }
        if s.0 == s.1 {
            return (self.end(s.0), self.end(s.0));
        }
        (self.begin(s.0), self.end(s.1))
    }
}
fn map_spans(t: &mut T, e: &Edit) {
    t.e = e.span(t.e);
    for (_, v) in &mut t.f {
        match v {
            V::Node(Some(n)) => map_spans(n, e),
            V::List(l) => l.iter_mut().for_each(|n| map_spans(n, e)),
            V::Loc(Some(x)) => *x = e.span(*x),
            _ => {}
        }
    }
}

/// The terminator of a heredoc may or may not include the \r of its line break.
fn trim_cr(t: &mut T, src: &[u8]) {
    if t.e.1 <= src.len() {
        while t.e.1 > t.e.0 && matches!(src[t.e.1 - 1], b'\r' | b'\n') {
            t.e.1 -= 1;
        }
    }
    for (n, v) in &mut t.f {
        match v {
            V::Node(Some(x)) => trim_cr(x, src),
            V::List(l) => l.iter_mut().for_each(|x| trim_cr(x, src)),
            // so does a line break in the role of `then` or `do`
            V::Loc(Some(x)) if *n == "begin_l" && x.1 <= src.len() && x.0 < x.1 && src[x.0..x.1].iter().all(|c| matches!(c, b'\r' | b'\n')) => {
                if src[x.0] == b'\n' && x.0 > 0 && src[x.0 - 1] == b'\r' {
                    x.0 -= 1;
                }
                x.1 = x.0 + 1;
            }
            V::Loc(Some(x)) if n.starts_with("heredoc_") && x.1 > x.0 && src.get(x.1 - 1) == Some(&b'\r') => x.1 -= 1,
            _ => {}
        }
    }
}

/// A placeholder of a rejected program may sit at position 0 wherever the program begins.
fn zero(t: &mut T, n: usize) {
    if t.e == (n, n) {
        t.e = (0, 0);
    }
    for (_, v) in &mut t.f {
        match v {
            V::Node(Some(x)) => zero(x, n),
            V::List(l) => l.iter_mut().for_each(|x| zero(x, n)),
            V::Loc(Some(x)) if *x == (n, n) => *x = (0, 0),
            _ => {}
        }
    }
}

pub fn c24(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    let (v, kind) = mixed(&mut r);
    if v.is_empty() || v.len() > 4000 {
        return;
    }
    w.feed(&v);
    let Ok(base) = parse(&v) else {
        w.note("panicked (see C01)");
        return;
    };
    if base.input != v || v.starts_with(b"\xef\xbb\xbf") {
        return;
    }
    let acc = !base.has_error();
    let special = has(&v, b"__END__") || v.iter().any(|b| matches!(b, 0 | 4 | 0x1a));
    let heredoc = has(&v, b"<<");
    // gaps made of blanks between tokens, and line break tokens
    let mut gaps = vec![];
    let mut nls = vec![];
    for k in 0..base.toks.len().saturating_sub(1) {
        let (a, b) = (&base.toks[k], &base.toks[k + 1]);
        if a.loc.1 < b.loc.0 && b.loc.0 <= v.len() && v[a.loc.1..b.loc.0].iter().all(|c| matches!(c, b' ' | b'\t')) {
            gaps.push((k, b.loc.0));
        }
        if a.name == "tNL" && a.loc.0 < v.len() && v[a.loc.0] == b'\n' {
            nls.push(a.loc.0 + 1);
        }
    }
    let e = match r.below(6) {
        0 if base.magic.is_empty() && !has(&v, b"coding") => {
            let x: &[u8] = r.pick(&[b"\n" as &[u8], b"\n\n\n", b"# c\n", b"=begin\nx\n=end\n", b"#\n\n", if acc { b" \t\n" } else { b"\n" }]);
            insert(&v, &[(0, x.to_vec())], "lines in front")
        }
        1 if acc && !special && v.last() != Some(&b'\r') => {
            let x: &[u8] = r.pick(&[b"\n" as &[u8], b"\n\n", b"\n  \n", b"\n# c", b"\n=begin\n=end\n", b"\r\n"]);
            insert(&v, &[(v.len(), x.to_vec())], "lines behind")
        }
        2 if acc && !v.contains(&b'\r') => {
            let at: Vec<(usize, Vec<u8>)> = (0..v.len()).filter(|p| v[*p] == b'\n').map(|p| (p, b"\r".to_vec())).collect();
            if at.is_empty() {
                return;
            }
            insert(&v, &at, "CRLF")
        }
        3 if acc && !gaps.is_empty() => {
            let n = 1 + r.below(4);
            let mut at: Vec<usize> = (0..n).map(|_| r.pick(&gaps).1).collect();
            at.sort();
            at.dedup();
            let at: Vec<(usize, Vec<u8>)> = at.into_iter().map(|p| (p, r.pick(&[b" " as &[u8], b"\t", b"   ", b" \t ", b"\x0b", b"\x0c ", b" \t\x0c\x0b"]).to_vec())).collect();
            insert(&v, &at, "more blanks")
        }
        4 if acc && !gaps.is_empty() && !heredoc => {
            let (k, p) = *r.pick(&gaps);
            if r.chance(1, 2) && !v[p..].starts_with(b"=begin") && !v[p..].starts_with(b"__END__") {
                // in place of the blanks: widen them by one, put the break over two of them
                let mut e = insert(&v, &[(p, b" ".to_vec())], "line continuation");
                let (a, b) = (base.toks[k].loc.1, p + 1);
                // directly behind an operator it would decide how that is read
                let glue = v[a - 1].is_ascii_alphanumeric() || b"_)]}".contains(&v[a - 1]);
                let q = if glue && r.chance(2, 3) { a } else { a + r.below(b - a - 1) };
                let q = if q == a && !glue { b - 2 } else { q };
                if q == a && !glue {
                    return;
                }
                e.src[q..q + 2].copy_from_slice(b"\\\n");
                e
            } else {
            insert(&v, &[(p, r.pick(&[b"\\\n " as &[u8], b"\\\n\t ", b" \\\n\\\n "]).to_vec())], "line continuation")
            }
        }
        _ if acc && !nls.is_empty() && !heredoc => {
            let p = *r.pick(&nls);
            // a line break that stands for `then` or `do` is placed behind comments
            let mut then = false;
            if let Some(t) = &base.ast {
                t.walk(&mut |x| then |= x.loc("begin_l").map_or(false, |l| l.0 + 1 == p || l.1 == p));
            }
            insert(&v, &[(p, if then { b"\n".to_vec() } else { r.pick(&[b"\n" as &[u8], b"  \n", b"# c\n", b"\n # x\n\n", b"=begin\n=end\n"]).to_vec() })], "more lines")
        }
        _ => return,
    };
    w.feed(&e.src);
    let res = match parse(&e.src) {
        Ok(x) => x,
        Err((m, l)) => {
            w.fail(format!("{}: parser panicked: {} at {}", e.name, m, l), &e.src);
            return;
        }
    };
    let mut bad = None;
    if acc {
        if let Some(d) = res.errors().first() {
            bad = Some(format!("{}: program became invalid: {} at {}..{}", e.name, d.text, d.loc.0, d.loc.1));
        } else {
            let mut t = base.ast.clone();
            if let Some(t) = &mut t {
                map_spans(t, &e);
                if e.name == "CRLF" || e.name == "lines behind" {
                    trim_cr(t, &e.src);
                }
            }
            let mut got = res.ast.clone();
            if let Some(g) = &mut got {
                if e.name == "CRLF" || e.name == "lines behind" {
                    trim_cr(g, &e.src);
                }
            }
            if let Some(d) = diff_opt(&t, &got, true) {
                bad = Some(format!("{}: tree changed: {}", e.name, d));
            }
        }
    } else {
        // in front of a rejected program: the same errors, at shifted places
        let a: Vec<(String, Span)> = base.diags.iter().map(|d| (d.msg.clone(), (e.begin(d.loc.0), e.begin(d.loc.1)))).collect();
        let b: Vec<(String, Span)> = res.diags.iter().map(|d| (d.msg.clone(), d.loc)).collect();
        if a != b {
            let k = (0..a.len().max(b.len())).find(|k| a.get(*k) != b.get(*k)).unwrap();
            bad = Some(format!("{}: diagnostics changed: expected {:?}, got {:?}", e.name, a.get(k), b.get(k)));
        } else {
            let mut t = base.ast.clone();
            if let Some(t) = &mut t {
                t.map_locs(&|p| e.begin(p));
                zero(t, e.begin(0));
            }
            let mut got = res.ast.clone();
            if let Some(g) = &mut got {
                zero(g, e.begin(0));
            }
            if let Some(d) = diff_opt(&t, &got, true) {
                bad = Some(format!("{}: tree of a rejected program changed: {}", e.name, d));
            }
        }
    }
    if let Some(m) = bad {
        let mut x = v.clone();
        x.extend_from_slice(b"\n--- became ---\n");
        x.extend_from_slice(&e.src);
        w.fail(m, &x);
    }
    w.note(e.name);
    w.note(if acc { "accepted" } else { "rejected" });
    w.note(kind);
    w.done(&e.src, true);
}

fn src_ends(v: &[u8]) -> bool {
    let l = v.rsplit(|b| *b == b'\n').next().unwrap();
    let l = String::from_utf8_lossy(l);
    let l = l.trim();
    l.ends_with("end") || has(v, format!("<<{}", l).as_bytes()) || ["~", "-", "'", "\"", "`"].iter().any(|q| has(v, format!("{}{}", q, l).as_bytes()) && has(v, b"<<"))
}
/// Positions at which a program cut off leaves a construct open.
fn cuts(t: &T, src: &[u8], out: &mut Vec<(usize, usize, &'static str)>) {
    t.walk(&mut |x| {
        let b = ["begin_l", "keyword_l"].iter().find_map(|f| x.loc(f));
        let e = x.loc("end_l");
        if let (Some(b), Some(e)) = (b, e) {
            if x.k != "Heredoc" && b.1 <= e.0 && e.0 < e.1 && e.1 <= src.len() && b.0 < b.1 && b.0 == x.e.0.min(b.0) {
                out.push((b.1, e.0, x.k));
            }
        }
        if x.k == "Heredoc" || x.k == "XHeredoc" {
            if let (Some(b), Some(e)) = (x.loc("heredoc_body_l"), x.loc("heredoc_end_l")) {
                let _ = b;
                out.push((x.e.1, e.0, x.k));
            }
        }
    });
}

const OPEN: &[&str] = &[
    "(", "[", "{ a: ", "foo(", "foo[", "foo {", "foo do", "-> {", "-> do", "begin", "if a", "unless a", "while a", "until a do", "for a in b", "case a\nwhen b", "case a\nin b",
    "def m", "def m(a)", "def self.m", "class A", "module A", "class << self", "\"#{", "%w[", "`#{", "/#{", ":\"#{", "BEGIN {", "END {", "begin\nrescue\n", "begin\nensure\n", "x = (", "[1, [", "foo(a: [",
];
const CLOSE: &[&str] = &[")", "]", "}", "end", "foo)", "1 ]", ") + 1", "end.foo", "else", "elsif a", "when 1", "rescue", "ensure", "; end", "foo }", "|a|", "then", "else; end"];

pub fn c26(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    let mut p = any_program(&mut r);
    if p.src.len() > 4000 {
        return;
    }
    let src;
    let what;
    let m = r.below(9);
    if m < 5 && r.chance(1, 4) {
        p.src = r.pick(&["", "1", "foo", "x = 1", "\n", "# c", "foo do\nend", "\"a\"", "a\nb", ";", "=begin\n=end", "def m; end", "<<A\nx\nA", "#!x"]).as_bytes().to_vec();
    }
    match m {
        0 => {
            // a document that is never closed; lines that look like its end
            if has(&p.src, b"__END__") || p.src.iter().any(|b| matches!(b, 0 | 4 | 0x1a)) {
                return;
            }
            let mut v = p.src.clone();
            if !v.is_empty() && v.last() != Some(&b'\n') {
                v.push(b'\n');
            }
            v.extend_from_slice(r.pick(&["=begin", "=begin\n", "=begin x\n", "=begin\ty", "=begin\r\n"]).as_bytes());
            if v.last() == Some(&b'\n') {
                for _ in 0..r.below(4) {
                    if r.chance(1, 3) {
                        v.extend_from_slice(b"=end");
                        v.push(*r.pick(b"!\"#$%&'()*+,-./0123456789:;<=>?@ABZ[\\]^_`abz{|}~"));
                        v.extend_from_slice(r.pick(&["\n", " x\n", "=\n", " =end\n"]).as_bytes());
                        continue;
                    }
                    v.extend_from_slice(r.pick(&[" =end\n", "=endx\n", "x\n", "\n", "#=end\n", "=\n", "=en\n", "=begin\n", "end\n", "=END\n", "=end_\n", "\t=end\n"]).as_bytes());
                }
                if r.chance(1, 3) {
                    v.extend_from_slice(r.pick(&["x", " =end", "=en", "__END__", "=endé"]).as_bytes());
                }
            }
            src = v;
            what = "unclosed =begin".to_string();
        }
        1 | 2 => {
            let o = *r.pick(OPEN);
            if has(&p.src, b"__END__") || (o == "%w[" && has(&p.src, b"]")) {
                return;
            }
            let mut v = o.as_bytes().to_vec();
            v.push(b'\n');
            v.extend_from_slice(&p.src);
            src = v;
            what = format!("unclosed {}", o);
        }
        3 | 4 => {
            let c = *r.pick(CLOSE);
            let mut v = p.src.clone();
            v.push(b'\n');
            v.extend_from_slice(c.as_bytes());
            src = v;
            what = format!("stray {}", c);
        }
        _ => {
            let Some(t) = &p.tree else { return };
            let mut cs = vec![];
            cuts(t, &p.src, &mut cs);
            if cs.is_empty() {
                return;
            }
            let (a, b, k) = *r.pick(&cs);
            // cut at the end, at the start, or anywhere in between (not inside of a character)
            let mut c = match r.below(4) {
                0 => b,
                1 => a,
                _ => a + r.below(b - a + 1),
            };
            while c < p.src.len() && (p.src[c] & 0xc0) == 0x80 {
                c += 1;
            }
            // ... nor where the text before the cut reads like the closer
            if src_ends(&p.src[..c]) {
                return;
            }
            // a method without its end may be an endless one
            if c > b || (k.starts_with("Def") && has(&p.src[a..c], b"=")) {
                return;
            }
            src = p.src[..c].to_vec();
            what = format!("cut inside of {}", k);
        }
    }
    w.feed(&src);
    match parse(&src) {
        Err((m, l)) => w.fail(format!("parser panicked: {} at {}", m, l), &src),
        Ok(x) => {
            if !x.has_error() {
                w.fail(format!("incomplete program accepted: {}", what), &src);
            }
        }
    }
    w.note(what.split(' ').next().unwrap());
    w.note(&what);
    w.done(&src, true);
}
