//! C07, C08, C09: comments, magic comments, encodings.
use crate::check::W;
use crate::locs::mixed;
use crate::model::any_program;
use crate::tree::*;
use crate::util::*;

// ---------------------------------------------------------------- C07
const TEXTS: &[&str] = &["#", "# c", "#!x", "# =begin", "#{x}", "# é日本", "# \"", "# <<E", "##", "#\t", "# a # b", "# \\", "# __END__", "#=end", "# %w["];

pub fn c07(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    match r.below(9) {
        0..=2 => return c07_any(w, &mut r),
        3 | 4 => return c07_insert(w, &mut r),
        _ => {}
    }
    let p = any_program(&mut r);
    let mut src = vec![];
    let mut exp: Vec<(Span, &'static str)> = vec![];
    let inline = |src: &mut Vec<u8>, exp: &mut Vec<(Span, &'static str)>, r: &mut Rng| {
        let b = src.len();
        src.extend_from_slice(r.pick(TEXTS).as_bytes());
        exp.push(((b, src.len()), "inline"));
    };
    // comments in front of the program
    let bom = r.chance(1, 12);
    if bom {
        src.extend_from_slice(b"\xef\xbb\xbf");
    }
    let k = r.below(4);
    for _ in 0..k {
        match r.below(6) {
            0 => src.extend_from_slice(b"\n"),
            1 => src.extend_from_slice(b" \t\n"),
            2 if !(bom && src.len() == 3) => {
                let b = src.len();
                src.extend_from_slice(r.pick(&["=begin\n=end\n", "=begin a\n# b\n\n=end c\n", "=begin\n =end\n=endx\n#=end\n=end\n", "=begin\n=end=\n=end-\n=end;\n=end#\n=end\n", "=begin\n=end_\n=end.\n=end:\n=end \n"]).as_bytes());
                exp.push(((b, src.len()), "document"));
            }
            _ => {
                if r.chance(1, 3) {
                    src.extend_from_slice(b"  ");
                }
                inline(&mut src, &mut exp, &mut r);
                src.push(b'\n');
            }
        }
    }
    let d = src.len();
    src.extend_from_slice(&p.src);
    for c in &p.comments {
        exp.push(((c.0 .0 + d, c.0 .1 + d), c.1));
    }
    // and behind it
    match r.below(8) {
        0 | 1 => {
            src.push(b' ');
            inline(&mut src, &mut exp, &mut r);
        }
        2 => {
            src.extend_from_slice(b"\n");
            inline(&mut src, &mut exp, &mut r);
            src.extend_from_slice(b"\n \n");
            inline(&mut src, &mut exp, &mut r);
        }
        3 => {
            src.extend_from_slice(b"\n");
            let b = src.len();
            src.extend_from_slice(r.pick(&["=begin\nx\n=end", "=begin\n=end y\n", "=begin\n=end\n"]).as_bytes());
            exp.push(((b, src.len()), "document"));
        }
        4 => {
            src.extend_from_slice(b"\n");
            inline(&mut src, &mut exp, &mut r);
            src.extend_from_slice(b"\n__END__\n# not a comment\n=begin\n=end\n");
        }
        _ => {}
    }
    w.feed(&src);
    let Ok(res) = parse(&src) else {
        w.note("panicked (see C01)");
        return;
    };
    if res.has_error() {
        w.note("rejected (see the model checks)");
        return;
    }
    // an inline comment extends through the end of its line
    for e in exp.iter_mut() {
        if e.1 == "inline" && src.get(e.0 .1) == Some(&b'\n') {
            e.0 .1 += 1;
        }
    }
    let mut got: Vec<(Span, &'static str)> = res.comments.iter().map(|c| (c.loc, c.kind)).collect();
    got.sort();
    exp.sort();
    w.add("comments expected", exp.len() as u64);
    w.add("comments observed", got.len() as u64);
    for (l, k) in &exp {
        let n = got.iter().filter(|g| g.0 == *l && g.1 == *k).count();
        if n != 1 {
            let near: Vec<_> = got.iter().filter(|g| g.0 .0 < l.1 && l.0 < g.0 .1).collect();
            w.fail(format!("the {} comment {} at {}..{} is reported {} times (overlapping reports: {:?})", k, show_bytes(&src[l.0..l.1]), l.0, l.1, n, near), &src);
        }
    }
    for g in &got {
        if !exp.contains(g) {
            w.fail(format!("{} at {}..{} is reported as {} comment", show_bytes(src.get(g.0 .0..g.0 .1).unwrap_or(b"?")), g.0 .0, g.0 .1, g.1), &src);
        }
    }
    w.note("model program");
    w.done(&src, !exp.is_empty());
}

/// Any accepted input: what is reported as a comment is one, and only once.
fn c07_any(w: &mut W, r: &mut Rng) {
    let (v, kind) = mixed(r);
    w.feed(&v);
    let Ok(res) = parse(&v) else {
        return;
    };
    if res.has_error() {
        w.note("rejected (not judged)");
        return;
    }
    w.note(kind);
    let s = &res.input;
    let mut prev: Option<Span> = None;
    let mut cs = res.comments.clone();
    cs.sort_by_key(|c| c.loc);
    for c in &cs {
        w.add("comments observed", 1);
        let Some(t) = s.get(c.loc.0..c.loc.1) else {
            w.fail(format!("comment at {:?} outside of the source", c.loc), &v);
            continue;
        };
        let after = &s[c.loc.1..];
        let bol = c.loc.0 == 0 || s[c.loc.0 - 1] == b'\n' || (c.loc.0 == 3 && s.starts_with(b"\xef\xbb\xbf"));
        let ok = match c.kind {
            "inline" => t.starts_with(b"#") && t.iter().filter(|b| **b == b'\n').count() == t.ends_with(b"\n") as usize && (after.is_empty() || t.ends_with(b"\n")),
            "document" => bol && t.starts_with(b"=begin") && {
                let l = t.strip_suffix(b"\n").unwrap_or(t);
                let last = l.rsplit(|b| *b == b'\n').next().unwrap_or(b"");
                last.starts_with(b"=end") && l.contains(&b'\n')
            },
            _ => false,
        };
        if !ok {
            w.fail(format!("{} reported as {} comment at {:?}", show_bytes(t), c.kind, c.loc), &v);
        }
        if let Some(p) = prev {
            if p.1 > c.loc.0 {
                w.fail(format!("comments {:?} and {:?} overlap", p, c.loc), &v);
            }
        }
        for t in &res.toks {
            if t.loc.0 < c.loc.1 && c.loc.0 < t.loc.1 && !matches!(t.name, "tNL" | "EOF" | "tSTRING_CONTENT" | "tSPACE") {
                w.fail(format!("comment {:?} overlaps {} at {:?}", c.loc, t.name, t.loc), &v);
                break;
            }
        }
        prev = Some(c.loc);
    }
    w.done(&v, !cs.is_empty());
}

/// A comment at the end of a line, wherever the line may end: it is reported, and changes nothing.
fn c07_insert(w: &mut W, r: &mut Rng) {
    let (v, kind) = mixed(r);
    let Ok(res) = parse(&v) else {
        return;
    };
    if res.has_error() || res.input != v {
        w.note("rejected (not judged)");
        return;
    }
    let hd = crate::toks::heredocs(&res.ast);
    let mut toks: Vec<&Tok> = res.toks.iter().filter(|t| t.loc.0 < t.loc.1 && t.name != "tNL" && t.name != "EOF").collect();
    toks.sort_by_key(|t| t.loc);
    let stop = crate::toks::end_of_program(&v, toks.iter().map(|t| t.loc.1).max().unwrap_or(0));
    let mut at = vec![];
    for (i, b) in v[..stop].iter().enumerate() {
        if *b != b'\n' {
            continue;
        }
        // not inside of a token, a comment or the body of a heredoc
        let k = toks.partition_point(|t| t.loc.0 <= i);
        let Some(t) = k.checked_sub(1).map(|k| toks[k]) else {
            continue;
        };
        let inside = |s: &Span| s.0 <= i && i < s.1;
        if toks[..k].iter().any(|t| inside(&t.loc)) || res.comments.iter().any(|c| inside(&c.loc)) || hd.iter().any(|h| h.1 .0 <= i && i <= h.2 .1 + 1) {
            continue;
        }
        // where a `#` would be text, or part of the token in front of it
        let text = (matches!(t.name, "tSTRING_BEG" | "tXSTRING_BEG") && !v[t.loc.0..].starts_with(b"<<"))
            || matches!(t.name, "tREGEXP_BEG" | "tSYMBEG" | "tWORDS_BEG" | "tQWORDS_BEG" | "tSYMBOLS_BEG" | "tQSYMBOLS_BEG" | "tSPACE" | "tSTRING_CONTENT" | "tSTRING_DVAR");
        let mut e = i;
        while e > t.loc.1 && b" \t\r\x0b\x0c".contains(&v[e - 1]) {
            e -= 1;
        }
        if text || e != t.loc.1 || matches!(v[e - 1], b'?' | b'/' | b'%' | b'\\') || v[e..i].contains(&b'\r') {
            continue;
        }
        at.push((e, i));
    }
    if at.is_empty() {
        w.note("no line to put a comment on");
        return;
    }
    let n = 1 + r.below(at.len().min(3));
    let mut pick: Vec<(usize, usize)> = (0..n).map(|_| *r.pick(&at)).collect();
    pick.sort();
    pick.dedup();
    let mut o = v.clone();
    let mut exp: Vec<(Span, &'static str)> = res.comments.iter().map(|c| (c.loc, c.kind)).collect();
    for (e, i) in pick.iter().rev() {
        // right behind the token, or where the line ended
        let p = if r.chance(1, 2) { *e } else { *i };
        // `a &b` is not `a & b`
        let blank = (b"&*+-<:".contains(&v[*e - 1]) && !res.toks.iter().any(|t| t.loc.1 == *e && t.name == "tLABEL")) || r.chance(1, 3);
        let c = format!("{}{}", if blank { " " } else { "" }, r.pick(TEXTS));
        let d = c.len();
        for x in exp.iter_mut().filter(|x| x.0 .0 >= p) {
            x.0 = (x.0 .0 + d, x.0 .1 + d);
        }
        let b = p + d - c.trim_start().len();
        // everything up to the end of the line
        exp.push(((b, *i + d + 1), "inline"));
        o.splice(p..p, c.bytes());
    }
    w.feed(&o);
    let Ok(res) = parse(&o) else {
        w.note("panicked (see C01)");
        return;
    };
    if res.has_error() {
        w.fail(format!("rejected with a comment at the end of a line: {:?}", res.diags.iter().find(|d| d.error)), &o);
        return;
    }
    let mut got: Vec<(Span, &'static str)> = res.comments.iter().map(|c| (c.loc, c.kind)).collect();
    got.sort();
    exp.sort();
    w.add("comments put at the end of a line", pick.len() as u64);
    if got != exp {
        let miss: Vec<_> = exp.iter().filter(|x| !got.contains(x)).collect();
        let extra: Vec<_> = got.iter().filter(|x| !exp.contains(x)).collect();
        w.fail(format!("comments {:?} are missing, {:?} are reported instead ({} expected, {} reported)", miss, extra, exp.len(), got.len()), &o);
    }
    w.note(kind);
    w.done(&o, true);
}

// ---------------------------------------------------------------- C08
const KEYS: &[(&str, &str)] = &[
    ("encoding", "encoding"),
    ("coding", "encoding"),
    ("frozen_string_literal", "frozen_string_literal"),
    ("frozen-string-literal", "frozen_string_literal"),
    ("frozen_string-literal", "frozen_string_literal"),
    ("warn_indent", "warn_indent"),
    ("warn-indent", "warn_indent"),
    ("shareable_constant_value", "shareable_constant_value"),
    ("shareable-constant-value", "shareable_constant_value"),
    ("Encoding", "encoding"),
    ("FROZEN_STRING_LITERAL", "frozen_string_literal"),
    ("Warn-Indent", "warn_indent"),
];
const NO_KEYS: &[&str] = &["foo", "fileencoding", "encodings", "frozen_string", "xcoding", "frozen string literal", "warnindent", "codin", "é"];

type M = (&'static str, Span, Span);
fn ws(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", " ", " ", "  ", "\t", " \t"])
}
fn value(r: &mut Rng, kind: &str, top: bool) -> String {
    if kind == "encoding" {
        if top {
            return r.pick(&["utf-8", "UTF-8", "binary", "ASCII-8BIT", "Utf-8", "BINARY"]).to_string();
        }
        return r.pick(&["utf-8", "koi8-r", "us-ascii", "x", "Windows-1251", "no.such_encoding"]).to_string();
    }
    r.pick(&["true", "false", "TRUE", "none", "literal", "experimental_everything", "1", "maybe", "é"]).to_string()
}
/// One `key: value`, appended to `o`.
fn pair(o: &mut Vec<u8>, r: &mut Rng, out: &mut Vec<M>, top: bool, emacs: bool) {
    let known = r.chance(4, 5);
    let (k, kind) = if known { *r.pick(KEYS) } else { (*r.pick(NO_KEYS), "") };
    let k = if !known && !emacs { k.replace(' ', "_x_") } else { k.replace(' ', "-y-") };
    if r.chance(1, 8) {
        // skipped in front of a name
        // (a colon behind a word would make the word a name)
        let alone = matches!(o.iter().rev().find(|b| !matches!(b, b' ' | b'\t')), Some(b'#' | b';' | b'-')) && !o.ends_with(b"- ");
        o.extend_from_slice(if alone { *r.pick(&[":", ";", "'", "\"", " ; ", ":\t", "::"]) } else { *r.pick(&[";", "'", "\"", " ; "]) }.as_bytes());
    }
    let kb = o.len();
    o.extend_from_slice(k.as_bytes());
    let ke = o.len();
    o.extend_from_slice(ws(r).as_bytes());
    o.push(b':');
    o.extend_from_slice(ws(r).as_bytes());
    let v = value(r, kind, top);
    let q = r.chance(1, 3);
    // anything goes inside of the quotes
    let v = if q && !(top && kind == "encoding") && r.chance(1, 2) { r.pick(&["a b", "a;b: c", "\\\"", "x\\\"y", "a\\\\", ":", "'", "a: b;", "# c", "- * -"]).to_string() } else { v };
    if q {
        o.push(b'"');
    }
    let vb = o.len();
    o.extend_from_slice(v.as_bytes());
    let ve = o.len();
    if q {
        o.push(b'"');
    }
    if known {
        out.push((kind, (kb, ke), (vb, ve)));
    }
}
/// A comment that is, or only looks like, a magic comment.
fn magic_line(o: &mut Vec<u8>, r: &mut Rng, out: &mut Vec<M>, top: bool, w: &mut W) {
    o.push(b'#');
    match r.below(10) {
        0..=4 => {
            w.note("plain form");
            o.extend_from_slice(ws(r).as_bytes());
            pair(o, r, out, top, false);
            o.extend_from_slice(ws(r).as_bytes());
        }
        5..=7 => {
            w.note("emacs form");
            let mark = o.len();
            loop {
                // the first `-*-` opens
                let n = r.below(9);
                for _ in 0..n {
                    o.push(*r.pick(b"--**-* x:\t"));
                }
                let b = o.len();
                o.extend_from_slice(b"-*-");
                if o[mark..].windows(3).position(|x| x == b"-*-") == Some(b - mark) {
                    break;
                }
                o.truncate(mark);
            }
            let open = o.len();
            o.extend_from_slice(ws(r).as_bytes());
            let n = 1 + r.below(3);
            for k in 0..n {
                if k > 0 {
                    o.extend_from_slice(r.pick(&[";", "; ", " ;\t"]).as_bytes());
                }
                if r.chance(1, 5) {
                    // words that belong to no pair are skipped
                    o.extend_from_slice(r.pick(&["ruby; ", "mode ", "a b ", "x;", "* ", "-- ", "encoding ", "- * ", "coding; ", "\"", "\"a\" "]).as_bytes());
                }
                // only one of them may name the encoding of the file
                let before = out.len();
                let mark = o.len();
                loop {
                    pair(o, r, out, top, true);
                    if out[before..].iter().any(|m| m.0 == "encoding") && k > 0 {
                        o.truncate(mark);
                        out.truncate(before);
                        continue;
                    }
                    break;
                }
            }
            o.extend_from_slice(r.pick(&["", " ", ";", "; "]).as_bytes());
            let b = o.len();
            o.extend_from_slice(b"-*-");
            if o[open..].windows(3).position(|x| x == b"-*-") != Some(b - open) {
                unreachable!("`-*-` inside of the pairs")
            }
            o.extend_from_slice(r.pick(&["", " ", " tail", " encoding: y", "-", "*-", "-*- coding: z -*-", "*"]).as_bytes());
        }
        n => {
            w.note("only looks like a magic comment");
            let k = r.pick(KEYS).0;
            let t = match n {
                8 => match r.below(10) {
                    5 => format!(" -* {}: true -*-", k),
                    6 => format!(" *- {}: true -*-", k),
                    7 => format!(" -*- {}: true -*", k),
                    8 => format!(" -**- {}: true -*-", k),
                    9 => format!(" \"{}\": true", k),
                    0 => format!(" some {}: true", k),
                    1 => format!(" {} true", k),
                    2 => format!(" {}: true please", k),
                    3 => format!(" {}", k),
                    _ => format!(" -*- {} -*-", k),
                },
                _ => match r.below(10) {
                    5 => format!(" {}: true;", k),
                    6 => format!(" {}: tr\"ue", k),
                    7 => format!(" {}: \"true\";", k),
                    8 => format!(" {};: true", k),
                    9 => format!(" -*- {}: true - *-", k),
                    0 => format!(" {}:", k),
                    1 => format!(" {} = true", k),
                    2 => format!(" x{}: true", k),
                    3 => format!(" {}x: true", k),
                    _ => format!(" -*- {}: true", k),
                },
            };
            o.extend_from_slice(t.as_bytes());
        }
    }
}

pub fn c08(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    let mut o: Vec<u8> = vec![];
    let mut exp: Vec<M> = vec![];
    let bom = r.chance(1, 10);
    if bom {
        o.extend_from_slice(b"\xef\xbb\xbf");
    }
    let mut line = 1;
    if r.chance(1, 5) {
        o.extend_from_slice(r.pick(&["#!/usr/bin/ruby\n", "#!ruby -w\n"]).as_bytes());
        line = if bom { 2 } else { 1 };
    }
    let n = r.below(4);
    for _ in 0..n {
        if r.chance(1, 5) {
            o.extend_from_slice(r.pick(&["\n", "# c\n", "=begin\n# encoding: x\n=end\n"]).as_bytes());
            line += 1;
            continue;
        }
        if r.chance(1, 4) {
            o.extend_from_slice(b"  ");
        }
        magic_line(&mut o, &mut r, &mut exp, line == 1, w);
        o.extend_from_slice(r.pick(&["\n", "\n", "\n", "\r\n"]).as_bytes());
        line += 1;
    }
    let p = any_program(&mut r);
    let d = o.len();
    if r.chance(3, 4) {
        let used: Vec<&(Span, &str)> = p.comments.iter().collect();
        // comments of the program itself are never magic comments, see Gen::comment_text
        let _ = used;
        o.extend_from_slice(&p.src);
        let first = !o[..].contains(&b'\n');
        if r.chance(1, 2) {
            // behind code, and on lines after it
            o.push(b' ');
            magic_line(&mut o, &mut r, &mut exp, first, w);
            if r.chance(1, 2) {
                o.extend_from_slice(b"\n");
                magic_line(&mut o, &mut r, &mut exp, false, w);
            }
            if r.chance(1, 2) {
                o.extend_from_slice(b"\nfoo\n");
                magic_line(&mut o, &mut r, &mut exp, false, w);
                o.extend_from_slice(b"\nbar");
            }
        }
    }
    let _ = d;
    w.feed(&o);
    let Ok(res) = parse(&o) else {
        w.note("panicked (see C01)");
        return;
    };
    if res.has_error() {
        w.fail(format!("rejected: {}", res.errors()[0].text), &o);
        return;
    }
    let got: Vec<M> = res.magic.iter().map(|m| (m.kind, m.key, m.val)).collect();
    w.add("magic comments expected", exp.len() as u64);
    w.add("magic comments observed", got.len() as u64);
    for k in ["encoding", "frozen_string_literal", "warn_indent", "shareable_constant_value"] {
        w.add(&format!("kind {}", k), got.iter().filter(|m| m.0 == k).count() as u64);
    }
    if got != exp {
        let t = |v: &[M]| v.iter().map(|m| format!("{}[{}..{} {}..{}]", m.0, m.1 .0, m.1 .1, m.2 .0, m.2 .1)).collect::<Vec<_>>().join(" ");
        w.fail(format!("magic comments: expected `{}` got `{}`", t(&exp), t(&got)), &o);
    }
    w.done(&o, true);
}

// ---------------------------------------------------------------- C09
use lib_ruby_parser::source::{Decoder, DecoderResult, InputError};
use lib_ruby_parser::{DiagnosticMessage, Parser, ParserOptions};
use std::cell::RefCell;
use std::rc::Rc;

/// Toy encodings, inverse to the decoders below; ASCII is left alone.
fn encode(kind: usize, s: &[u8]) -> Vec<u8> {
    match kind {
        // same length
        0 => s.iter().map(|b| if *b >= 0x80 { *b ^ 0x2a } else { *b }).collect(),
        // decoded text is shorter
        1 => {
            let mut o = vec![];
            for b in s {
                if *b >= 0x80 {
                    o.push(0xff);
                    o.extend_from_slice(format!("{:02x}", b).as_bytes());
                } else {
                    o.push(*b)
                }
            }
            o
        }
        // decoded text is longer: two bytes of the toy encoding of "é", "日" is a single one
        _ => {
            let t = String::from_utf8_lossy(s).into_owned();
            let mut o = vec![];
            for c in t.chars() {
                if (c as u32) < 0x80 {
                    o.push(c as u8)
                } else if let Some(k) = LONG.iter().position(|x| *x == c) {
                    o.push(0x80 + k as u8)
                } else {
                    o.push(0xff);
                    o.extend_from_slice(format!("{:06x}", c as u32).as_bytes());
                }
            }
            o
        }
    }
}
const LONG: &[char] = &['é', 'É', 'ñ', 'ú', '日', '本', '😀', 'о', 'н'];
fn decode(kind: usize, s: &[u8]) -> Vec<u8> {
    let hx = |s: &[u8]| u32::from_str_radix(std::str::from_utf8(s).unwrap_or("0"), 16).unwrap_or(0);
    match kind {
        0 => s.iter().map(|b| if *b >= 0x80 { *b ^ 0x2a } else { *b }).collect(),
        1 => {
            let (mut o, mut i) = (vec![], 0);
            while i < s.len() {
                if s[i] == 0xff && i + 3 <= s.len() {
                    o.push(hx(&s[i + 1..i + 3]) as u8);
                    i += 3;
                } else {
                    o.push(s[i]);
                    i += 1;
                }
            }
            o
        }
        _ => {
            let (mut o, mut i) = (vec![], 0);
            let mut put = |o: &mut Vec<u8>, c: char| {
                let mut b = [0; 4];
                o.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            };
            while i < s.len() {
                if s[i] == 0xff && i + 7 <= s.len() {
                    put(&mut o, char::from_u32(hx(&s[i + 1..i + 7])).unwrap_or('?'));
                    i += 7;
                } else if s[i] >= 0x80 {
                    put(&mut o, LONG[(s[i] - 0x80) as usize % LONG.len()]);
                    i += 1;
                } else {
                    o.push(s[i]);
                    i += 1;
                }
            }
            o
        }
    }
}

/// The name of an encoding that only a decoder can know.
fn foreign_name(r: &mut Rng) -> String {
    loop {
        let base = *r.pick(&[
            "koi8-r", "KOI8-R", "us-ascii", "Windows-1251", "utf-16le", "x", "utf8", "utf-8-mac", "no.such_encoding", "UTF_8", "utf-8", "binary", "ascii-8bit", "ascii", "iso-8859-1", "latin1",
            "euc-jp", "EUCJP", "shift_jis", "SJIS", "gb18030", "Big5", "cp437", "cp932", "utf-7", "utf-16", "utf-32be", "cesu-8", "emacs-mule", "locale", "external", "8bit", "ANSI_X3.4-1968",
        ]);
        let mut n = String::new();
        if r.chance(1, 6) {
            n.push_str(r.pick(&["x-", "x", "cs", "8", "-", "_", "."]));
        }
        n.push_str(base);
        if r.chance(1, 4) {
            n.push_str(r.pick(&["-unix", "-dos", "-mac", "-8", "8", "x", "-", "_", ".", "-r", "/ignore", "-bom", "-hfs"]));
        }
        if r.chance(1, 5) {
            // any word
            n = (0..r.range(1, 30)).map(|_| *r.pick(&['a', 'Z', '0', '9', '-', '_', '.', 'u', 't', 'f', '8'])).collect();
        }
        n = match r.below(6) {
            0 => n.to_uppercase(),
            1 => n.to_lowercase(),
            _ => n,
        };
        if !["utf-8", "ascii-8bit", "binary"].contains(&n.to_lowercase().as_str()) {
            return n;
        }
    }
}

pub fn c09(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    let p = any_program(&mut r);
    let native = r.chance(1, 3);
    let enc: String = if native {
        r.pick(&["utf-8", "UTF-8", "Utf-8", "ascii-8bit", "ASCII-8BIT", "binary", "BINARY", "Binary"]).to_string()
    } else {
        foreign_name(&mut r)
    };
    // header
    let mut head: Vec<u8> = vec![];
    let bom = r.chance(1, 10);
    if bom {
        head.extend_from_slice(b"\xef\xbb\xbf");
    }
    let place = r.below(8);
    let mut top = true;
    match place {
        0 | 1 => head.extend_from_slice(b"#!/usr/bin/ruby\n"),
        2 => {
            head.extend_from_slice(r.pick(&["# c\n", "\n", "foo\n", "#!x\n\n", "=begin\n=end\n", "foo; "]).as_bytes());
            top = false;
        }
        _ => {}
    }
    if bom && place < 2 {
        // no shebang after a byte order mark: the comment is on the second line
        top = false;
    }
    let key = *r.pick(&["encoding", "coding", "Encoding"]);
    let (l, q) = (*r.pick(&["# ", "#", "# -*- ", "  # "]), *r.pick(&["", "\""]));
    head.extend_from_slice(l.as_bytes());
    head.extend_from_slice(key.as_bytes());
    head.extend_from_slice(r.pick(&[": ", ":", " : "]).as_bytes());
    head.extend_from_slice(q.as_bytes());
    let vb = head.len();
    head.extend_from_slice(enc.as_bytes());
    let ve = head.len();
    head.extend_from_slice(q.as_bytes());
    if l.contains("-*-") {
        head.extend_from_slice(b" -*-");
    }
    head.extend_from_slice(r.pick(&["\n", "\n", "\r\n"]).as_bytes());
    let kind = r.below(3);
    // what the file holds, what it means
    let foreign = top && !native;
    let dk = r.below(6); // 0: no decoder, 1,2: failing, else decoding
    let mut plain = head.clone();
    plain.extend_from_slice(&p.src);
    let src = if foreign && dk > 2 {
        // a byte order mark is not text of the toy encodings
        let h = if bom { 3 } else { 0 };
        let mut v = plain[..h].to_vec();
        v.extend_from_slice(&encode(kind, &plain[h..]));
        v
    } else {
        plain.clone()
    };
    let calls: Rc<RefCell<Vec<(String, Vec<u8>)>>> = Rc::new(RefCell::new(vec![]));
    let c2 = calls.clone();
    let decoder = if dk == 0 {
        None
    } else {
        Some(Decoder::new(Box::new(move |e: String, b: Vec<u8>| {
            c2.borrow_mut().push((e.clone(), b.clone()));
            match dk {
                1 => DecoderResult::Err(InputError::UnsupportedEncoding(e)),
                2 => DecoderResult::Err(InputError::DecodingError("broken bytes".into())),
                _ => {
                    let h = if b.starts_with(b"\xef\xbb\xbf") { 3 } else { 0 };
                    let mut v = b[..h].to_vec();
                    v.extend_from_slice(&decode(kind, &b[h..]));
                    DecoderResult::Ok(v)
                }
            }
        })))
    };
    w.feed(&src);
    let res = guarded(|| {
        let o = ParserOptions { buffer_name: "(rbmon)".into(), decoder, record_tokens: true };
        let pr = Parser::new(src.clone(), o).do_parse();
        let errs: Vec<DiagnosticMessage> = pr.diagnostics.iter().filter(|d| d.is_error()).map(|d| d.message.clone()).collect();
        let rendered: Vec<Option<String>> = pr.diagnostics.iter().map(|d| d.render(&pr.input)).collect();
        (extract(&pr), errs, rendered)
    });
    let (res, errs, rendered) = match res {
        Ok(x) => x,
        Err((m, l)) => {
            w.fail(format!("panicked: {} at {}", m, l), &src);
            return;
        }
    };
    let calls = calls.borrow();
    let (mut exp_calls, mut exp_err) = (0, None);
    if foreign {
        w.note(&format!("foreign encoding, decoder {}", if dk == 0 { "none" } else if dk < 3 { "fails" } else { ["same length", "shorter", "longer"][kind] }));
        if dk > 0 {
            exp_calls = 1;
        }
        if dk < 3 {
            exp_err = Some(match dk {
                2 => InputError::DecodingError("broken bytes".into()),
                _ => InputError::UnsupportedEncoding(enc.clone()),
            });
        }
    } else {
        w.note(if native { "native encoding" } else { "foreign encoding not at the top" });
    }
    w.add("decoder calls observed", calls.len() as u64);
    if calls.len() != exp_calls {
        w.fail(format!("the decoder was called {} times instead of {}", calls.len(), exp_calls), &src);
    }
    if let Some(c) = calls.first() {
        if c.0 != enc {
            w.fail(format!("the decoder was asked for `{}` instead of `{}`", c.0, enc), &src);
        }
        if c.1 != src {
            w.fail("the decoder was not given the source", &src);
        }
    }
    match exp_err {
        Some(e) => {
            let want = DiagnosticMessage::EncodingError { error: e.to_string() };
            if errs != vec![want] {
                w.fail(format!("expected one error about the encoding, got {:?}", errs), &src);
            }
            if res.ast.is_some() {
                w.fail("a tree in spite of the encoding error", &src);
            }
            if res.input != src {
                w.fail("the source is not kept after an encoding error", &src);
            }
            let d = res.errors();
            if let Some(d) = d.first() {
                if d.loc != (vb, ve) {
                    w.fail(format!("the error about the encoding is at {:?} instead of {:?}", d.loc, (vb, ve)), &src);
                }
            }
            if rendered.iter().any(|r| r.is_none()) {
                w.fail("the error about the encoding cannot be rendered", &src);
            }
        }
        None => {
            if res.input != plain {
                w.fail("the input of the result is not the decoded source", &src);
            }
            let mut t = p.tree.clone();
            let d = head.len();
            if let Some(t) = &mut t {
                t.shift(d as isize);
            }
            let lead = head.windows(3).any(|x| x == b"foo");
            if res.has_error() {
                w.fail(format!("rejected: {}", res.errors()[0].text), &src);
            } else if !lead {
                if let Some(m) = diff_opt(&t, &res.ast, true) {
                    w.fail(format!("wrong tree: {}", m), &src);
                }
            }
        }
    }
    w.done(&src, true);
}
