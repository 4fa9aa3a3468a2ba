//! C04 and C05: geometry of source ranges, and what the source says at them.
use crate::check::W;
use crate::inputs::hostile;
use crate::model::any_program;
use crate::tree::*;
use crate::util::*;

/// A model program, or a hostile input (which the parser may accept or reject).
pub fn mixed(r: &mut Rng) -> (Vec<u8>, &'static str) {
    if r.chance(1, 3) {
        let mut p = any_program(r);
        crate::model::dress(&mut p, r);
        (p.src, "model program")
    } else {
        hostile(r)
    }
}

/// (kind, field, field): pairs whose ranges overlap by design of the node.
const OVERLAP: &[(&str, &str, &str)] = &[
    ("CaseMatch", "else_body", "else_l"),
    ("Casgn", "scope", "double_colon_l"),
    ("Const", "scope", "double_colon_l"),
    ("ConstPattern", "pattern", "begin_l"),
    ("ConstPattern", "pattern", "end_l"),
    ("Heredoc", "heredoc_body_l", "heredoc_end_l"),
    ("Heredoc", "parts", "heredoc_body_l"),
    ("XHeredoc", "heredoc_body_l", "heredoc_end_l"),
    ("XHeredoc", "parts", "heredoc_body_l"),
    ("If", "if_false", "else_l"),
    ("Pair", "key", "value"),
    ("Pair", "value", "operator_l"),
];
/// Kinds whose whole range is more (or less) than the hull of what they contain.
const NO_HULL: &[&str] = &[
    "ArrayPatternWithTail", "Complex", "Float", "Int", "Rational", "Heredoc", "XHeredoc", "InPattern", "When", "Kwarg",
    "Kwnilarg", "MatchVar", "Sym", "Str",
];

fn outside_ok(x: &T, f: &str, src: &[u8], l: Span) -> bool {
    match (x.k, f) {
        ("Heredoc" | "XHeredoc", "heredoc_body_l" | "heredoc_end_l" | "parts") => true,
        // without a body the node ends where its patterns do
        ("When" | "InPattern", "begin_l") => src.get(l.0..l.1) != Some(b"then") || x.node("body").is_none(),
        _ => false,
    }
}

/// Violations of well-formedness. `accepted`: the program was accepted without errors.
pub fn geometry(src: &[u8], t: &T, accepted: bool, out: &mut Vec<String>) {
    let n = src.len();
    let utf8 = std::str::from_utf8(src).ok();
    let mut bad = |x: &T, f: &str, l: Span, why: &str| {
        if out.len() < 8 {
            out.push(format!("{}.{} at {}..{} of {}: {}", x.k, f, l.0, l.1, n, why));
        }
    };
    t.walk(&mut |x| {
        let mut ivs: Vec<(Span, &'static str, bool)> = vec![(x.e, "expression_l", false)];
        for (f, v) in &x.f {
            match v {
                V::Loc(Some(l)) => ivs.push((*l, f, false)),
                V::Node(Some(c)) => ivs.push((c.e, f, true)),
                V::List(l) => {
                    for c in l {
                        ivs.push((c.e, f, true))
                    }
                }
                _ => {}
            }
        }
        for (l, f, child) in &ivs {
            if *child {
                continue;
            }
            if l.0 > l.1 {
                bad(x, f, *l, "begins after its end");
                return;
            }
            if l.1 > n {
                bad(x, f, *l, "ends after the source");
                return;
            }
            if accepted {
                if let Some(s) = utf8 {
                    if !s.is_char_boundary(l.0) || !s.is_char_boundary(l.1) {
                        bad(x, f, *l, "splits a character");
                    }
                }
            }
        }
        if !accepted {
            return;
        }
        for (l, f, child) in &ivs[1..] {
            if (l.0 < x.e.0 || l.1 > x.e.1) && !outside_ok(x, f, src, *l) {
                bad(x, f, *l, &format!("{} outside of its node {}..{}", if *child { "child" } else { "range" }, x.e.0, x.e.1));
            }
        }
        if matches!(x.k, "Heredoc" | "XHeredoc") {
            let b = x.loc("heredoc_body_l").unwrap_or((0, n));
            let e = x.loc("heredoc_end_l").unwrap_or((n, n));
            for p in x.list("parts") {
                if p.e.0 < b.0 || p.e.1 > b.1 {
                    bad(x, "parts", p.e, &format!("outside of the heredoc body {}..{}", b.0, b.1));
                }
            }
            if b.0 < x.e.1 {
                bad(x, "heredoc_body_l", b, "begins before the end of the opener");
            }
            if b != e && b.1 > e.0 {
                bad(x, "heredoc_body_l", b, "reaches into the terminator");
            }
        }
        for (f, v) in &x.f {
            if let V::List(l) = v {
                for w in l.windows(2) {
                    if w[0].e.1 > w[1].e.0 {
                        bad(x, f, w[1].e, &format!("overlaps or precedes the element before it, {}..{}", w[0].e.0, w[0].e.1));
                    }
                }
            }
        }
        for i in 1..ivs.len() {
            for j in 1..i {
                let (a, b) = (&ivs[j], &ivs[i]);
                if a.0 .0 < b.0 .1 && b.0 .0 < a.0 .1 && a.1 != b.1 && !OVERLAP.contains(&(x.k, a.1, b.1)) {
                    bad(x, b.1, b.0, &format!("overlaps {} at {}..{}", a.1, a.0 .0, a.0 .1));
                }
            }
        }
        if !NO_HULL.contains(&x.k) && ivs.len() > 1 {
            let h = ivs[1..].iter().fold((usize::MAX, 0), |h, l| (h.0.min(l.0 .0), h.1.max(l.0 .1)));
            if h != x.e {
                bad(x, "expression_l", x.e, &format!("is not the span {}..{} of its parts", h.0, h.1));
            }
        }
    });
}

pub fn c04(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    let (v, kind) = mixed(&mut r);
    w.feed(&v);
    let Ok(res) = parse(&v) else {
        w.note("panicked (see C01)");
        return;
    };
    let acc = !res.has_error();
    w.note(if acc { "accepted" } else { "rejected" });
    w.note(kind);
    if let Some(t) = &res.ast {
        let mut out = vec![];
        geometry(&res.input, t, acc, &mut out);
        let n = t.count() as u64;
        w.add(if acc { "nodes judged in accepted programs" } else { "nodes judged in rejected programs" }, n);
        for o in out {
            w.fail(format!("{} ({})", o, if acc { "accepted" } else { "rejected" }), &v);
        }
    }
    w.done(&v, res.ast.is_some());
}

// ---------------------------------------------------------------- C05
fn allowed(k: &str, f: &str) -> Option<&'static [&'static str]> {
    Some(match (k, f) {
        ("Alias", "keyword_l") => &["alias"],
        ("And", "operator_l") => &["&&", "and"],
        ("Or", "operator_l") => &["||", "or"],
        ("AndAsgn", "operator_l") => &["&&="],
        ("OrAsgn", "operator_l") => &["||="],
        ("OpAsgn", "operator_l") => &["%=", "&=", "**=", "*=", "+=", "-=", "/=", "<<=", ">>=", "^=", "|="],
        ("Args", "begin_l") => &["(", "|", "||"],
        ("Args", "end_l") => &[")", "|", "||"],
        ("ArrayPattern", "begin_l") | ("ConstPattern", "begin_l") => &["[", "("],
        ("ArrayPattern", "end_l") | ("ConstPattern", "end_l") => &["]", ")"],
        ("ArrayPatternWithTail" | "FindPattern", "begin_l") => &["[", "("],
        ("ArrayPatternWithTail" | "FindPattern", "end_l") => &["]", ")"],
        ("HashPattern", "begin_l") => &["{", "(", "["],
        ("HashPattern", "end_l") => &["}", ")", "]"],
        ("Begin", "begin_l") => &["(", "#{", "{", "begin"],
        ("Begin", "end_l") => &[")", "}", "end"],
        ("KwBegin", "begin_l") => &["begin"],
        ("KwBegin", "end_l") => &["end"],
        ("Block" | "Numblock", "begin_l") => &["{", "do"],
        ("Block" | "Numblock", "end_l") => &["}", "end"],
        ("BlockPass" | "Blockarg", "operator_l") => &["&"],
        ("Break", "keyword_l") => &["break"],
        ("Next", "keyword_l") => &["next"],
        ("Return", "keyword_l") => &["return"],
        ("Undef", "keyword_l") => &["undef"],
        ("Super", "keyword_l") => &["super"],
        ("Yield", "keyword_l") => &["yield"],
        ("Defined", "keyword_l") => &["defined?"],
        ("Case" | "CaseMatch", "keyword_l") => &["case"],
        ("Class" | "SClass", "keyword_l") => &["class"],
        ("Module", "keyword_l") => &["module"],
        ("Def" | "Defs", "keyword_l") => &["def"],
        ("Ensure", "keyword_l") => &["ensure"],
        ("For", "keyword_l") => &["for"],
        ("For", "operator_l") | ("InPattern", "keyword_l") | ("MatchPatternP", "operator_l") => &["in"],
        ("If", "keyword_l") => &["if", "unless", "elsif"],
        ("IfMod", "keyword_l") => &["if", "unless"],
        ("IfGuard", "keyword_l") => &["if"],
        ("UnlessGuard", "keyword_l") => &["unless"],
        ("IfTernary", "question_l") => &["?"],
        ("IfTernary", "colon_l") => &[":"],
        ("While" | "WhilePost", "keyword_l") => &["while"],
        ("Until" | "UntilPost", "keyword_l") => &["until"],
        ("When", "keyword_l") => &["when"],
        ("RescueBody", "keyword_l") => &["rescue"],
        ("RescueBody", "assoc_l") | ("MatchAs" | "MatchPattern", "operator_l") => &["=>"],
        ("Preexe", "keyword_l") => &["BEGIN"],
        ("Postexe", "keyword_l") => &["END"],
        ("Preexe" | "Postexe", "begin_l") => &["{"],
        ("Preexe" | "Postexe", "end_l") => &["}"],
        ("If" | "When" | "InPattern", "begin_l") | ("RescueBody", "begin_l") => &["\n", ";", "then", "\r\n", "#"],
        ("For" | "While" | "Until", "begin_l") => &["\n", ";", "do", "\r\n", "#"],
        ("If", "else_l") => &["else", "elsif"],
        ("Case" | "CaseMatch" | "Rescue", "else_l") => &["else"],
        ("Case" | "CaseMatch" | "Class" | "SClass" | "Module" | "Def" | "Defs" | "For" | "If" | "While" | "Until", "end_l") => &["end"],
        ("CSend", "dot_l") => &["&."],
        ("Send", "dot_l") => &[".", "::"],
        ("Defs", "operator_l") => &[".", "::"],
        ("Casgn" | "Const", "double_colon_l") => &["::"],
        ("Def" | "Defs", "assignment_l") => &["="],
        ("Casgn" | "Cvasgn" | "Gvasgn" | "Ivasgn" | "Lvasgn" | "Masgn" | "IndexAsgn" | "Optarg" | "Send" | "CSend", "operator_l") => &["="],
        ("Class", "operator_l") => &["<"],
        ("SClass", "operator_l") => &["<<"],
        ("Complex" | "Float" | "Int" | "Rational", "operator_l") => &["-", "+"],
        ("Erange" | "EFlipFlop", "operator_l") => &["..."],
        ("Irange" | "IFlipFlop", "operator_l") => &[".."],
        ("Index" | "IndexAsgn", "begin_l") => &["["],
        ("Index" | "IndexAsgn", "end_l") => &["]"],
        ("Hash", "begin_l") => &["{"],
        ("Hash", "end_l") => &["}"],
        ("Kwrestarg" | "Kwsplat" | "MatchNilPattern", "operator_l") => &["**"],
        ("Kwnilarg" | "MatchNilPattern", "name_l") => &["nil"],
        ("MatchAlt", "operator_l") => &["|"],
        ("MatchRest", "operator_l") => &["*", "**"],
        ("MatchWithLvasgn", "operator_l") => &["=~"],
        ("Restarg" | "Splat", "operator_l") => &["*"],
        ("Mlhs" | "Procarg0" | "Send" | "CSend" | "Super" | "Yield" | "Defined", "begin_l") => &["("],
        ("Mlhs" | "Procarg0" | "Send" | "CSend" | "Super" | "Yield" | "Defined", "end_l") => &[")"],
        ("Pair", "operator_l") => &["=>", ":"],
        ("Pin", "selector_l") => &["^"],
        _ => return None,
    })
}
fn kw_text(k: &str) -> Option<&'static [&'static str]> {
    Some(match k {
        "Nil" => &["nil"],
        "True" => &["true"],
        "False" => &["false"],
        "Self_" => &["self"],
        "Redo" => &["redo"],
        "Retry" => &["retry"],
        "ZSuper" => &["super"],
        "Line" => &["__LINE__"],
        "File" => &["__FILE__"],
        "Encoding" => &["__ENCODING__"],
        "ForwardArg" | "ForwardedArgs" => &["..."],
        "Lambda" => &["->"],
        "Cbase" => &["::"],
        "EmptyElse" => &["else"],
        _ => return None,
    })
}
fn closer(b: u8) -> u8 {
    match b {
        b'(' => b')',
        b'[' => b']',
        b'{' => b'}',
        b'<' => b'>',
        x => x,
    }
}
fn lossy_eq(name: &[u8], text: &[u8]) -> bool {
    name == text || name == String::from_utf8_lossy(text).as_bytes()
}

pub fn texts(src: &[u8], t: &T, out: &mut Vec<String>, judged: &mut u64) {
    let tx = |l: Span| src.get(l.0..l.1);
    let mut bad = |x: &T, f: &str, why: String| {
        if out.len() < 8 {
            out.push(format!("{}.{} {}", x.k, f, why));
        }
    };
    t.walk(&mut |x| {
        if let Some(a) = kw_text(x.k) {
            *judged += 1;
            let s = tx(x.e);
            if !s.map_or(false, |s| a.iter().any(|y| y.as_bytes() == s)) {
                bad(x, "expression_l", format!("covers `{}`", show_bytes(s.unwrap_or(b"?"))));
            }
        }
        for (f, v) in &x.f {
            if let V::Loc(Some(l)) = v {
                if let Some(a) = allowed(x.k, f) {
                    *judged += 1;
                    let s = tx(*l);
                    if !s.map_or(false, |s| a.iter().any(|y| y.as_bytes() == s) || (s == b"\r" && a.contains(&"\n"))) {
                        bad(x, f, format!("covers `{}`", show_bytes(s.unwrap_or(b"?"))));
                    }
                }
            }
        }
        // names
        let name_l = match x.k {
            "Arg" | "Shadowarg" | "Lvar" | "Ivar" | "Gvar" | "Cvar" | "BackRef" => Some(x.e),
            "Def" | "Defs" | "Const" | "Casgn" | "Lvasgn" | "Ivasgn" | "Gvasgn" | "Cvasgn" | "Optarg" | "Restarg" | "Kwarg"
            | "Kwoptarg" | "Kwrestarg" | "Blockarg" | "MatchVar" => x.loc("name_l"),
            _ => None,
        };
        if let (Some(l), Some(nm)) = (name_l, x.str("name")) {
            *judged += 1;
            let s = tx(l).unwrap_or(b"?");
            let ok = lossy_eq(nm, s) || (matches!(x.k, "Def" | "Defs") && strip_at(s) == nm);
            if !ok {
                bad(x, "name", format!("is `{}` but its range covers `{}`", show_bytes(nm), show_bytes(s)));
            }
        }
        match x.k {
            "NthRef" => {
                *judged += 1;
                let s = tx(x.e).unwrap_or(b"?");
                if s.first() != Some(&b'$') || Some(&s[1..]) != x.str("name") {
                    bad(x, "name", format!("is not `{}`", show_bytes(s)));
                }
            }
            "Int" | "Float" | "Rational" | "Complex" => {
                *judged += 1;
                let s = tx(x.e).unwrap_or(b"?");
                if Some(s) != x.str("value") {
                    bad(x, "value", format!("is `{}`, the source says `{}`", show_bytes(x.str("value").unwrap_or(b"?")), show_bytes(s)));
                }
                if let Some(o) = x.loc("operator_l") {
                    if o.0 != x.e.0 {
                        bad(x, "operator_l", "is not in front of the number".into());
                    }
                }
            }
            "Send" | "CSend" => {
                let nm = x.str("method_name").unwrap_or(b"?");
                *judged += 1;
                match x.loc("selector_l") {
                    None => {
                        if nm != b"call" {
                            bad(x, "selector_l", format!("is missing for the method `{}`", show_bytes(nm)));
                        }
                    }
                    Some(l) => {
                        let s = tx(l).unwrap_or(b"?");
                        let setter = nm.len() > 1 && nm.ends_with(b"=") && lossy_eq(&nm[..nm.len() - 1], s);
                        let unary = (nm == b"+@" && s == b"+") || (nm == b"-@" && s == b"-") || (nm == b"!" && s == b"not") || (strip_at(s) == nm);
                        if !(lossy_eq(nm, s) || setter || unary) {
                            bad(x, "method_name", format!("is `{}` but the selector covers `{}`", show_bytes(nm), show_bytes(s)));
                        }
                    }
                }
            }
            "OpAsgn" => {
                *judged += 1;
                let s = x.loc("operator_l").and_then(tx).unwrap_or(b"?=");
                if Some(&s[..s.len() - 1]) != x.str("operator") {
                    bad(x, "operator", format!("does not match `{}`", show_bytes(s)));
                }
            }
            "RegOpt" => {
                *judged += 1;
                let s = tx(x.e).unwrap_or(b"?");
                let mut a = s.to_vec();
                a.sort_unstable();
                a.dedup();
                if x.str("options").unwrap_or(b"") != &a[..] {
                    bad(x, "options", format!("do not match `{}`", show_bytes(s)));
                }
            }
            "Sym" => {
                let (b, e) = (x.loc("begin_l"), x.loc("end_l"));
                let plain = match (b, e) {
                    (Some(b), None) if tx(b) == Some(b":") => Some((b.1, x.e.1)),
                    (None, Some(e)) if tx(e) == Some(b":") => Some((x.e.0, e.0)),
                    _ => None,
                };
                if let Some(l) = plain {
                    *judged += 1;
                    let mut s = tx(l).unwrap_or(b"?");
                    // `:` and the name may be separated by a line continuation
                    while let Some(r) = s.strip_prefix(b"\\\n").or(s.strip_prefix(b"\\\r\n")) {
                        s = r;
                    }
                    let nm = x.str("name").unwrap_or(b"?");
                    if !lossy_eq(nm, s) && strip_at(s) != nm {
                        bad(x, "name", format!("is `{}`, the source says `{}`", show_bytes(nm), show_bytes(s)));
                    }
                }
            }
            _ => {}
        }
        // delimiters come in matching pairs
        if let (Some(V::Loc(b)), Some(V::Loc(e))) = (x.get("begin_l"), x.get("end_l")) {
            if !matches!(x.k, "If" | "While" | "Until" | "For") {
                *judged += 1;
                match (b, e) {
                    (Some(b), Some(e)) => {
                        let (p, q) = (tx(*b).unwrap_or(b"?"), tx(*e).unwrap_or(b"?"));
                        // a line break can be a delimiter, in either spelling
                        let nl = |x: &[u8]| -> Vec<u8> { x.strip_suffix(b"\r\n").map_or(x.to_vec(), |y| [y, b"\n"].concat()) };
                        let (p, q) = (&nl(p)[..], &nl(q)[..]);
                        let ok = match p {
                            b"do" | b"begin" => q == b"end",
                            _ => q.len() <= 2 && !p.is_empty() && (q == [closer(p[p.len() - 1])] || (q.len() == 2 && q[1] == b':' && q[0] == closer(p[p.len() - 1])) || p == b"||"),
                        };
                        if !ok {
                            bad(x, "end_l", format!("`{}` does not close `{}`", show_bytes(q), show_bytes(p)));
                        }
                    }
                    (None, None) => {}
                    (Some(b), None) if x.k == "Sym" && tx(*b) == Some(b":") => {}
                    (Some(b), None) if x.k == "Str" && tx(*b) == Some(b"?") => {}
                    (None, Some(e)) if x.k == "Sym" && tx(*e) == Some(b":") => {}
                    _ => bad(x, "begin_l/end_l", "only one of them is there".into()),
                }
            }
        }
        if matches!(x.k, "Def" | "Defs") {
            *judged += 1;
            if x.loc("end_l").is_some() == x.loc("assignment_l").is_some() {
                bad(x, "end_l", "exactly one of `end` and `=` must be there".into());
            }
        }
        // a range is there exactly when what it stands for is
        let pairs: &[(&str, &str)] = match x.k {
            "Blockarg" | "Restarg" | "Kwrestarg" => &[("name", "name_l")],
            "Lvasgn" | "Ivasgn" | "Gvasgn" | "Cvasgn" | "Casgn" | "IndexAsgn" => &[("value", "operator_l")],
            "Const" => &[("scope", "double_colon_l")],
            "Class" => &[("superclass", "operator_l")],
            "RescueBody" => &[("exc_var", "assoc_l")],
            _ => &[],
        };
        for (a, l) in pairs {
            *judged += 1;
            let has = x.node(a).is_some() || x.str(a).is_some();
            if has != x.loc(l).is_some() {
                bad(x, l, format!("present {} but `{}` present {}", x.loc(l).is_some(), a, has));
            }
        }
    });
}
fn strip_at(s: &[u8]) -> &[u8] {
    s.strip_suffix(b"@").unwrap_or(s)
}

/// All ranges of a tree.
pub fn ranges(t: &T, out: &mut std::collections::HashSet<Span>) {
    t.walk(&mut |x| {
        out.insert(x.e);
        for (_, v) in &x.f {
            if let V::Loc(Some(l)) = v {
                out.insert(*l);
            }
        }
    });
}

/// Tokens that no node points at: separators, and text that is part of a longer range.
const BARE: &[&str] = &[
    "EOF", "tCOMMA", "tNL", "tSEMI", "tSPACE", "tLABEL", "tLABEL_END", "tSTRING_CONTENT", "tSTRING_DVAR", "tREGEXP_END",
];
/// Every keyword, operator, delimiter, name and literal of an accepted program is at some range
/// of its tree.
pub fn uncovered(res: &Res, judged: &mut u64) -> Vec<String> {
    let mut set = std::collections::HashSet::new();
    let Some(t) = &res.ast else { return vec![] };
    ranges(t, &mut set);
    let mut out = vec![];
    // is it the parenthesis of `def (x).m`, or an inner one of `((a, b)) = c` (documented to be dropped)?
    let mut parens: Vec<bool> = vec![];
    for (i, t) in res.toks.iter().enumerate() {
        let prev = if i > 0 { res.toks[i - 1].name } else { "" };
        let next = res.toks.get(i + 1).map_or("", |t| t.name);
        let free_paren = match t.name {
            "tLPAREN" | "tLPAREN2" | "tLPAREN_ARG" if prev != "tSYMBEG" => {
                let free = matches!(prev, "kDEF" | "tLPAREN" | "tLPAREN2" | "tLPAREN_ARG");
                parens.push(free);
                free
            }
            "tRPAREN" => parens.pop().unwrap_or(false),
            _ => false,
        };
        if BARE.contains(&t.name) || prev == "tSYMBEG" || free_paren {
            continue;
        }
        match t.name {
            "tINTEGER" | "tFLOAT" | "tRATIONAL" | "tIMAGINARY" if prev == "tUMINUS_NUM" => continue,
            "tDSTAR" | "tPOW" if next == "kNIL" => continue,
            // keys of hash patterns
            "tSTRING_BEG" => continue,
            _ => {}
        }
        *judged += 1;
        if !set.contains(&t.loc) {
            out.push(format!("no range of the tree is at the {} {} at {}..{}", t.name, show_bytes(&t.val), t.loc.0, t.loc.1));
        }
    }
    out
}

pub fn c05(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    let (v, kind) = mixed(&mut r);
    w.feed(&v);
    let Ok(res) = parse(&v) else {
        w.note("panicked (see C01)");
        return;
    };
    if res.has_error() {
        w.note("rejected (not judged)");
        return;
    }
    w.note("accepted");
    w.note(kind);
    let mut nt = false;
    if let Some(t) = &res.ast {
        let mut out = vec![];
        let mut n = 0;
        texts(&res.input, t, &mut out, &mut n);
        w.add("ranges judged", n);
        nt = n > 0;
        let mut n = 0;
        out.extend(uncovered(&res, &mut n));
        w.add("tokens found in the tree", n);
        for o in out {
            w.fail(o, &v);
        }
    }
    w.done(&v, nt);
}
