//! C10 and C11: positions to lines and columns, diagnostics and their rendering.
use crate::check::W;
use crate::inputs::{crlf, hostile};
use crate::locs::mixed;
use crate::model::any_program;
use crate::util::*;
use lib_ruby_parser::source::*;
use lib_ruby_parser::*;

/// Reference: line and column (both from 0, columns in bytes) of a position.
pub fn line_col(src: &[u8], pos: usize) -> Option<(usize, usize)> {
    let before = src.get(..pos)?;
    let line = before.iter().filter(|b| **b == b'\n').count();
    let start = before.iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1);
    Some((line, pos - start))
}
/// Reference: the line a position is on, without its `\n`.
fn line_at(src: &[u8], pos: usize) -> (usize, usize) {
    let b = src[..pos].iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1);
    let e = src[b..].iter().position(|b| *b == b'\n').map_or(src.len(), |p| b + p);
    (b, e)
}

fn text(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => any_program(r).src,
        1 => hostile(r).0,
        2 => {
            let v = any_program(r).src;
            crlf(&v)
        }
        3 => {
            let n = r.below(30);
            (0..n).map(|_| *r.pick(b"\n\n\na\r \xc3\xa9")).collect()
        }
        4 => {
            let n = r.below(6);
            let mut v = vec![];
            for _ in 0..n {
                let k = r.below(300);
                v.extend(std::iter::repeat(b'x').take(k));
                v.push(b'\n');
            }
            if r.chance(1, 2) {
                v.pop();
            }
            v
        }
        _ => {
            let n = r.below(2000);
            let mut v = vec![b'\n'; n];
            v.extend_from_slice(b"foo");
            v
        }
    }
}

pub fn c10(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    let src = text(&mut r);
    let n = src.len();
    w.feed(&src);
    // as the parser returns it, or built by the user, also over an older text
    let how = r.below(3);
    let old = if how == 2 { text(&mut r) } else { vec![] };
    let input = match guarded(|| match how {
        0 => Parser::new(src.clone(), opts(false)).do_parse().input,
        1 => {
            let mut d = DecodedInput::named("x");
            d.update_bytes(src.clone());
            d
        }
        _ => {
            let mut d = DecodedInput::named("x");
            d.update_bytes(old.clone());
            d.update_bytes(src.clone());
            d
        }
    }) {
        Ok(x) => x,
        Err(_) => return,
    };
    if input.bytes != src {
        // only an encoding can change it, which the inputs here name rarely
        w.note("source replaced by a decoder");
        return;
    }
    let mut bad: Vec<String> = vec![];
    // the lines partition the text
    let mut at = 0;
    for (k, l) in input.lines.iter().enumerate() {
        let last = k + 1 == input.lines.len();
        let end = src[at..].iter().position(|b| *b == b'\n').map_or(n, |p| at + p + 1);
        if l.start != at || l.end != end || l.ends_with_eof != last || l.len() != end - at || l.is_empty() != (end == at) {
            bad.push(format!("line {} is {}..{} (ends_with_eof {}), expected {}..{} ({})", k, l.start, l.end, l.ends_with_eof, at, end, last));
            break;
        }
        if l.line_end() != end - (!last as usize) {
            bad.push(format!("line {} ends at {}", k, l.line_end()));
        }
        at = end;
    }
    let nl = src.iter().filter(|b| **b == b'\n').count();
    if input.lines.len() != nl + 1 {
        bad.push(format!("{} lines for {} line breaks", input.lines.len(), nl));
    }
    let ps: Vec<usize> = if n <= 60 { (0..=n + 3).collect() } else { (0..40).map(|_| r.below(n + 3)).chain([0, n - 1, n, n + 1]).collect() };
    let inp = if r.chance(1, 2) { Some(Input::new("y", None)) } else { None };
    let inp = inp.map(|mut x| {
        x.update_bytes(src.clone());
        x
    });
    for p in ps {
        w.add("positions judged", 1);
        let want = line_col(&src, p);
        let got = input.line_col_for_pos(p);
        if got != want {
            bad.push(format!("position {} of {} is reported as {:?}, expected {:?}", p, n, got, want));
            break;
        }
        if let Some(x) = &inp {
            if x.line_col_for_pos(p) != want {
                bad.push(format!("position {} of {} is reported as {:?} by the input, expected {:?}", p, n, x.line_col_for_pos(p), want));
                break;
            }
        }
        let q = p + r.below(20);
        let l = Loc { begin: p, end: q };
        if l.begin_line_col(&input) != want {
            bad.push(format!("range {}..{} begins at {:?}", p, q, l.begin_line_col(&input)));
        }
        let e = l.expand_to_line(&input);
        let we = want.map(|x| (x.0, line_at(&src, p)));
        if e.as_ref().map(|x| (x.0, (x.1.begin, x.1.end))) != we {
            bad.push(format!("range {}..{} expands to {:?}, expected {:?}", p, q, e, we));
        }
        let s = l.source(&input);
        let ws = src.get(p..q).map(|b| String::from_utf8_lossy(b).into_owned());
        if s != ws {
            bad.push(format!("text at {}..{} is {:?}, expected {:?}", p, q, s, ws));
        }
        // and back
        if let Some((ln, col)) = got {
            if input.lines.get(ln).map(|l| l.start + col) != Some(p) {
                bad.push(format!("position {} is not at column {} of line {}", p, col, ln));
            }
        }
    }
    if input.as_shared_bytes() != &src[..] {
        bad.push("the bytes differ".into());
    }
    if guarded(|| input.into_bytes()).ok().as_deref() != Some(&src[..]) {
        bad.push("into_bytes does not return the source".into());
    }
    if !bad.is_empty() {
        w.fail(bad.swap_remove(0), &src);
    }
    w.note(["input of a result", "built by hand", "rebuilt by hand"][how]);
    w.done(&src, nl > 0);
}

// ---------------------------------------------------------------- C11
/// Reference renderer.
pub fn reference(name: &str, src: &[u8], error: bool, msg: &str, loc: (usize, usize)) -> Option<String> {
    let (line, col) = line_col(src, loc.0)?;
    let (b, e) = line_at(src, loc.0);
    let mut o = format!("{}:{}:{}: {}: {}\n", name, line + 1, col, if error { "error" } else { "warning" }, msg);
    o.push_str(&format!("{}:{}: {}\n", name, line + 1, String::from_utf8_lossy(&src[b..e])));
    o.push_str(&format!("{}:{}: {}", name, line + 1, " ".repeat(col)));
    o.push('^');
    for _ in 1..loc.1.saturating_sub(loc.0) {
        o.push('~');
    }
    Some(o.trim().to_string())
}

pub fn c11(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    let (v, kind) = if r.chance(1, 4) { mixed(&mut r) } else { hostile(&mut r) };
    let name = *r.pick(&["(eval)", "", "a b.rb", "/x/é.rb", "1:2"]);
    w.feed(&v);
    let res = guarded(|| {
        let p = Parser::new(v.clone(), ParserOptions { buffer_name: name.into(), decoder: None, record_tokens: false }).do_parse();
        let n = p.input.bytes.len();
        let mut out = vec![];
        let mut cnt = (0u64, 0u64);
        let mut kinds = vec![];
        for d in &p.diagnostics {
            let m = format!("{:?}", d.message);
            let m = m.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
            if d.is_error() == d.is_warning() {
                out.push(format!("{}: neither or both an error and a warning", m));
            }
            if d.is_error() {
                cnt.0 += 1
            } else {
                cnt.1 += 1
            }
            let l = (d.loc.begin, d.loc.end);
            if l.0 > l.1 || l.1 > n {
                out.push(format!("{} ({}) at {}..{} of {}", m, d.message.render(), l.0, l.1, n));
                continue;
            }
            if d.message.render().is_empty() || d.render_message() != d.message.render() {
                out.push(format!("{} has no message", m));
            }
            let want = reference(name, &p.input.bytes, d.is_error(), &d.message.render(), l);
            let got = d.render(&p.input);
            if got != want {
                out.push(format!("{} rendered as `{:?}` instead of `{:?}`", m, got, want));
            }
            kinds.push(m);
        }
        if p.ast.is_none() && !p.diagnostics.iter().any(|d| d.is_error()) {
            // nothing but blanks and comments
            let toks = Parser::new(v.clone(), opts(true)).do_parse().tokens;
            if toks.iter().any(|t| !matches!(t.token_name(), "tNL" | "EOF" | "tSEMI")) {
                out.push("no tree and no error".into());
            }
        }
        if p.input.name != name {
            out.push(format!("input is named `{}` instead of `{}`", p.input.name, name));
        }
        (out, cnt, kinds)
    });
    let Ok((out, cnt, kinds)) = res else {
        w.note("panicked (see C01)");
        return;
    };
    w.note(kind);
    w.add("errors judged", cnt.0);
    w.add("warnings judged", cnt.1);
    for k in &kinds {
        w.note(&format!("message {}", k));
    }
    if let Some(o) = out.into_iter().next() {
        w.fail(o, &v);
    }
    w.done(&v, cnt.0 + cnt.1 > 0);
}
