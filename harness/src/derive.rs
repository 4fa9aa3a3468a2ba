//! Development aid: proposes the AST side of a template by parsing one instance of it. Every
//! proposal is reviewed by hand against the documented node format before it enters templates.txt.
use crate::gen::{parse_src, Seg};
use crate::tree::{Span, T, V};

struct El {
    name: String,
    span: Span,
    text: String,
    kind: char, // m mark, n node, t token, l list
}

pub fn derive(line: &str) -> String {
    let (head, src) = line.split_once(": ").unwrap();
    let (cat, flags) = match head.split_once('[') {
        Some((c, f)) => (c, f.trim_end_matches(']')),
        None => (head, ""),
    };
    let (pre, post) = match cat {
        "when" | "inclause" => ("case 9\n", "\nend"),
        "resbody" => ("begin\n9\n", "\nend"),
        "assoc" => ("{", "}"),
        "splat" | "blockpass" => ("zz(", ")"),
        "mitem" | "mvar" => ("", ", zz = 9"),
        "var_lhs" | "lhs" => ("", " += 9"),
        "ppair" => ("case 9\nin {", "}\nend"),
        "pexpr" | "pval" | "pprim" => ("case 9\nin [", ",9]\nend"),
        "ptop" => ("case 9\nin ", "\nend"),
        "excvar" => ("begin\n9\nrescue => ", "\nend"),
        _ => ("", ""),
    };
    let fl: Vec<&str> = flags.split(',').collect();
    let (pre, post) = if fl.contains(&"def") {
        ("def zz\n", "\nend")
    } else if fl.contains(&"num") {
        ("zz {", "}")
    } else if fl.contains(&"fwd") {
        ("def zz(...)\n", "\nend")
    } else if fl.contains(&"anonblk") {
        ("def zz(&) zz(", ") end")
    } else {
        (pre, post)
    };
    let mut out = String::from(pre);
    let start = out.len();
    let mut els: Vec<El> = vec![];
    let mut n = 0;
    for s in parse_src(src) {
        match s {
            Seg::Lit(l) => {
                for c in l.chars() {
                    match c {
                        '⏎' | '↵' => out.push('\n'),
                        '·' | '⋄' => {}
                        c => out.push(c),
                    }
                }
            }
            Seg::Mark(name, t) => {
                let b = out.len();
                out.push_str(&t);
                els.push(El { name, span: (b, out.len()), text: t, kind: 'm' });
            }
            Seg::Dir(_) => {}
            Seg::Hole { name, cat, .. } => {
                n += 1;
                let x = (b'A' + n as u8) as char;
                let mut b = out.len();
                let mut kind = 't';
                let text = match cat.as_str() {
                    "stmts" if std::env::var("DERIVE_EMPTY").is_ok() => {
                        continue;
                    }
                    "then" => {
                        b += 1;
                        out.push_str(" then ");
                        "then".into()
                    }
                    "docl" => {
                        b += 1;
                        out.push_str(" do ");
                        "do".into()
                    }
                    "term" => {
                        out.push('\n');
                        "\n".into()
                    }
                    "mid" | "ident" | "attr" | "mname" | "pubname" | "label" | "lab" | "decl" | "newarg" | "patdecl" | "pkey" | "fresh" => {
                        let t = format!("n{}", x);
                        out.push_str(&t);
                        t
                    }
                    "mset" => {
                        let t = format!("n{}=", x);
                        out.push_str(&t);
                        t
                    }
                    "fid" => {
                        let t = format!("n{}?", x);
                        out.push_str(&t);
                        t
                    }
                    "const" => {
                        let t = format!("C{}", x);
                        out.push_str(&t);
                        t
                    }
                    "ivar" => {
                        let t = format!("@i{}", x);
                        out.push_str(&t);
                        t
                    }
                    "gvar" => {
                        let t = format!("$g{}", x);
                        out.push_str(&t);
                        t
                    }
                    "cvar" => {
                        let t = format!("@@c{}", x);
                        out.push_str(&t);
                        t
                    }
                    "op" => {
                        let t = "<=>".to_string();
                        out.push_str(&t);
                        t
                    }
                    "args" | "cargs" | "idx" | "elems" | "mrhs" => {
                        kind = 'l';
                        let t = format!("{}, {}", 500 + n, 600 + n);
                        out.push_str(&t);
                        t
                    }
                    "excs" => {
                        b += 1;
                        kind = 'n';
                        let t = format!(" {}, {}", 500 + n, 600 + n);
                        out.push_str(&t);
                        t
                    }
                    "pairs" => {
                        kind = 'l';
                        let t = format!("{} => {}", 500 + n, 600 + n);
                        out.push_str(&t);
                        t
                    }
                    "phlist" => {
                        kind = 'l';
                        let t = format!("k{}: {}", 500 + n, 600 + n);
                        out.push_str(&t);
                        t
                    }
                    "palist" => {
                        kind = 'l';
                        let t = format!("{}, {}", 500 + n, 600 + n);
                        out.push_str(&t);
                        t
                    }
                    "mlhs" | "mlhs1" => {
                        kind = 'l';
                        let t = format!("$m{}, $l{}", x, x);
                        out.push_str(&t);
                        t
                    }
                    "params" | "params1" | "bparams" => {
                        kind = 'l';
                        let t = format!("p{}, q{}", x, x);
                        out.push_str(&t);
                        t
                    }
                    "whens" => {
                        kind = 'l';
                        let t = format!("when {} then {}", 500 + n, 600 + n);
                        out.push_str(&t);
                        t
                    }
                    "ins" => {
                        kind = 'l';
                        let t = format!("in {} then {}", 500 + n, 600 + n);
                        out.push_str(&t);
                        t
                    }
                    "rescues" => {
                        kind = 'l';
                        let t = format!("rescue {} then {}", 500 + n, 600 + n);
                        out.push_str(&t);
                        t
                    }
                    "mitem" | "mvar" | "var_lhs" | "lhs" | "excvar" => {
                        kind = 'n';
                        let t = format!("$m{}", x);
                        out.push_str(&t);
                        t
                    }
                    "blockpass" => {
                        kind = 'n';
                        let t = format!("&{}", 500 + n);
                        out.push_str(&t);
                        t
                    }
                    "splat" => {
                        kind = 'n';
                        let t = format!("*{}", 500 + n);
                        out.push_str(&t);
                        t
                    }
                    "mcall" => {
                        kind = 'n';
                        let t = format!("zz.foo{}", 500 + n);
                        out.push_str(&t);
                        t
                    }
                    "ccall" => {
                        kind = 'n';
                        let t = format!("foo {}", 500 + n);
                        out.push_str(&t);
                        t
                    }
                    "ref" | "declref" => {
                        kind = 'n';
                        let t = format!("rf{}", n);
                        out.push_str(&t);
                        t
                    }
                    "cpath" => {
                        kind = 'n';
                        let t = format!("C{}::D", x);
                        out.push_str(&t);
                        t
                    }
                    "strlit" => {
                        kind = 'n';
                        let t = format!("\"s{}\"", n);
                        out.push_str(&t);
                        t
                    }
                    "symlit" => {
                        kind = 'n';
                        let t = format!(":s{}", n);
                        out.push_str(&t);
                        t
                    }
                    "fitem" => {
                        kind = 'n';
                        let t = format!(":s{}", n);
                        out.push_str(&t);
                        t
                    }
                    "shadow" => {
                        kind = 'n';
                        let t = format!("sh{}", n);
                        out.push_str(&t);
                        t
                    }
                    _ => {
                        kind = 'n';
                        let t = format!("{}", 700 + n);
                        out.push_str(&t);
                        t
                    }
                };
                let e = if cat == "then" || cat == "docl" { b + text.len() } else { out.len() };
                els.push(El { name, span: (b, e), text, kind });
            }
        }
    }
    let end = out.len();
    out.push_str(post);
    let r = match crate::util::parse(out.as_bytes()) {
        Ok(r) => r,
        Err(e) => return format!("!! {} PANIC {:?} on {:?}", line, e, out),
    };
    let errs: Vec<String> = r.errors().iter().map(|d| format!("{}@{:?}", d.text, d.loc)).collect();
    if !errs.is_empty() {
        return format!("!! {} ERRORS {:?} on {:?}", line, errs, out);
    }
    let ast = match r.ast {
        Some(a) => a,
        None => return format!("!! {} NIL", line),
    };
    let mut found: Option<T> = None;
    ast.walk(&mut |t| {
        if t.e == (start, end) && found.is_none() {
            found = Some(t.clone());
        }
    });
    if found.is_none() {
        ast.walk(&mut |t| {
            if t.e.0 == start && t.e.1 <= end && found.is_none() {
                found = Some(t.clone());
            }
        });
    }
    match found {
        None => format!("!! {} no node at {:?} in {:?}\n{}", line, (start, end), out, ast.show(true)),
        Some(t) => {
            let whole = (start, end);
            let a = abs(&t, &els, whole, true);
            format!("{} ⇒ {}", line, a)
        }
    }
}

fn span_expr(s: Span, els: &[El]) -> Option<String> {
    for e in els {
        if e.span == s {
            return Some(e.name.clone());
        }
    }
    for a in els {
        for b in els {
            if a.span.0 == s.0 && b.span.1 == s.1 {
                return Some(format!("{}+{}", a.name, b.name));
            }
        }
    }
    None
}
fn abs(t: &T, els: &[El], whole: Span, root: bool) -> String {
    if !root || els.len() == 1 {
        for e in els {
            if e.kind == 'n' && e.span == t.e {
                return e.name.clone();
            }
        }
    }
    let mut f = vec![];
    for (n, v) in &t.f {
        match v {
            V::Node(None) | V::Str(None) | V::Loc(None) => {}
            V::Node(Some(c)) => f.push(format!("{}={}", n, abs(c, els, whole, false))),
            V::Str(Some(s)) => {
                let s = String::from_utf8_lossy(s).into_owned();
                let x = els.iter().find(|e| e.kind == 't' && e.text == s).map(|e| e.name.clone());
                f.push(format!("{}={}", n, x.unwrap_or(format!("{:?}", s))));
            }
            V::Loc(Some(l)) => f.push(format!("{}={}", n, span_expr(*l, els).unwrap_or(format!("???{:?}", l)))),
            V::List(l) => {
                if l.is_empty() {
                    continue;
                }
                let mut o: Vec<String> = vec![];
                for c in l {
                    let h = els.iter().find(|e| e.kind == 'l' && e.span.0 <= c.e.0 && c.e.1 <= e.span.1);
                    if let Some(h) = h {
                        let s = format!("*{}", h.name);
                        if o.last() != Some(&s) {
                            o.push(s);
                        }
                    } else {
                        o.push(abs(c, els, whole, false));
                    }
                }
                f.push(format!("{}=[{}]", n, o.join(" ")));
            }
        }
    }
    let span = if t.e == whole {
        if root {
            String::new()
        } else {
            "@*".into()
        }
    } else {
        match span_expr(t.e, els) {
            Some(s) => format!("@{}", s),
            None => format!("@???{:?}", t.e),
        }
    };
    format!("{}({}){}", t.k, f.join(" "), span)
}
