//! C06: the recorded tokens are a faithful account of the source.
use crate::check::W;
use crate::locs::mixed;
use crate::tree::*;
use crate::util::*;

fn spelling(n: &str) -> Option<&'static [&'static str]> {
    Some(match n {
        "kALIAS" => &["alias"],
        "kAND" => &["and"],
        "kBEGIN" => &["begin"],
        "kBREAK" => &["break"],
        "kCASE" => &["case"],
        "kCLASS" => &["class"],
        "kDEF" => &["def"],
        "kDEFINED" => &["defined?"],
        "kDO" | "kDO_BLOCK" | "kDO_COND" | "kDO_LAMBDA" => &["do"],
        "kELSE" => &["else"],
        "kELSIF" => &["elsif"],
        "kEND" => &["end"],
        "kENSURE" => &["ensure"],
        "kFALSE" => &["false"],
        "kFOR" => &["for"],
        "kIF" | "kIF_MOD" => &["if"],
        "kIN" => &["in"],
        "kMODULE" => &["module"],
        "kNEXT" => &["next"],
        "kNIL" => &["nil"],
        "kNOT" => &["not"],
        "kOR" => &["or"],
        "kREDO" => &["redo"],
        "kRESCUE" | "kRESCUE_MOD" => &["rescue"],
        "kRETRY" => &["retry"],
        "kRETURN" => &["return"],
        "kSELF" => &["self"],
        "kSUPER" => &["super"],
        "kTHEN" => &["then"],
        "kTRUE" => &["true"],
        "kUNDEF" => &["undef"],
        "kUNLESS" | "kUNLESS_MOD" => &["unless"],
        "kUNTIL" | "kUNTIL_MOD" => &["until"],
        "kWHEN" => &["when"],
        "kWHILE" | "kWHILE_MOD" => &["while"],
        "kYIELD" => &["yield"],
        "k__ENCODING__" => &["__ENCODING__"],
        "k__FILE__" => &["__FILE__"],
        "k__LINE__" => &["__LINE__"],
        "klBEGIN" => &["BEGIN"],
        "klEND" => &["END"],
        "tAMPER" | "tAMPER2" => &["&"],
        "tANDDOT" => &["&."],
        "tANDOP" => &["&&"],
        "tAREF" => &["[]"],
        "tASET" => &["[]="],
        "tASSOC" => &["=>"],
        "tBACK_REF" => &["$&", "$'", "$+", "$`"],
        "tBACK_REF2" => &["`"],
        "tBANG" => &["!", "!@"],
        "tBDOT2" | "tDOT2" => &[".."],
        "tBDOT3" | "tDOT3" => &["..."],
        "tCARET" => &["^"],
        "tCMP" => &["<=>"],
        "tCOLON" => &[":"],
        "tCOLON2" | "tCOLON3" => &["::"],
        "tCOMMA" => &[","],
        "tDIVIDE" => &["/"],
        "tDOT" => &["."],
        "tDSTAR" | "tPOW" => &["**"],
        "tEH" => &["?"],
        "tEQ" => &["=="],
        "tEQL" => &["="],
        "tEQQ" => &["==="],
        "tGEQ" => &[">="],
        "tGT" => &[">"],
        "tLAMBDA" => &["->"],
        "tLAMBEG" | "tLBRACE" | "tLCURLY" | "tLBRACE_ARG" => &["{"],
        "tLBRACK" | "tLBRACK2" => &["["],
        "tLEQ" => &["<="],
        "tLPAREN" | "tLPAREN2" | "tLPAREN_ARG" => &["("],
        "tLSHFT" => &["<<"],
        "tLT" => &["<"],
        "tMATCH" => &["=~"],
        "tMINUS" | "tUMINUS_NUM" => &["-"],
        "tNEQ" => &["!="],
        "tNMATCH" => &["!~"],
        "tOP_ASGN" => &["%=", "&=", "**=", "*=", "+=", "-=", "/=", "<<=", ">>=", "^=", "|=", "&&=", "||="],
        "tOROP" => &["||"],
        "tPERCENT" => &["%"],
        "tPIPE" => &["|"],
        "tPLUS" => &["+"],
        "tRBRACK" => &["]"],
        "tRCURLY" | "tSTRING_DEND" => &["}"],
        "tRPAREN" => &[")"],
        "tRSHFT" => &[">>"],
        "tSEMI" => &[";"],
        "tSTAR" | "tSTAR2" => &["*"],
        "tSTRING_DBEG" => &["#{"],
        "tSTRING_DVAR" => &["#"],
        "tTILDE" => &["~", "~@"],
        "tUMINUS" => &["-", "-@"],
        "tUPLUS" => &["+", "+@"],
        _ => return None,
    })
}
fn id_start(b: u8) -> bool {
    b == b'_' || b.is_ascii_alphabetic() || b >= 0x80
}
fn id_part(b: u8) -> bool {
    id_start(b) || b.is_ascii_digit()
}
fn is_id(s: &[u8]) -> bool {
    !s.is_empty() && id_start(s[0]) && s.iter().all(|b| id_part(*b))
}
/// Does the text look like a token of this kind?
fn shape(n: &str, s: &[u8]) -> Option<bool> {
    Some(match n {
        "tIDENTIFIER" | "tCONSTANT" => is_id(s) || (s.len() > 1 && s.ends_with(b"=") && is_id(&s[..s.len() - 1])),
        "tFID" => s.len() > 1 && is_id(&s[..s.len() - 1]) && matches!(s[s.len() - 1], b'?' | b'!' | b'='),
        "tIVAR" => s.len() > 1 && s[0] == b'@' && is_id(&s[1..]),
        "tCVAR" => s.len() > 2 && s.starts_with(b"@@") && is_id(&s[2..]),
        "tGVAR" => s.len() > 1 && s[0] == b'$',
        "tNTH_REF" => s.len() > 1 && s[0] == b'$' && s[1..].iter().all(|b| b.is_ascii_digit()),
        "tINTEGER" | "tFLOAT" | "tRATIONAL" | "tIMAGINARY" => {
            let d = s.strip_prefix(b"+").or(s.strip_prefix(b"-")).unwrap_or(s);
            !d.is_empty()
                && d[0].is_ascii_digit()
                && d.iter().all(|b| b.is_ascii_alphanumeric() || b"_.+-".contains(b))
                && (n != "tRATIONAL" || d.ends_with(b"r"))
                && (n != "tIMAGINARY" || d.ends_with(b"i"))
                && (n != "tFLOAT" || d.iter().any(|b| b".eE".contains(b)))
        }
        "tSYMBEG" => s == b":" || s == b":\"" || s == b":'" || s.starts_with(b"%s"),
        "tWORDS_BEG" => s.starts_with(b"%W"),
        "tQWORDS_BEG" => s.starts_with(b"%w"),
        "tSYMBOLS_BEG" => s.starts_with(b"%I"),
        "tQSYMBOLS_BEG" => s.starts_with(b"%i"),
        "tREGEXP_BEG" => s == b"/" || s.starts_with(b"%r"),
        "tXSTRING_BEG" => s == b"`" || s.starts_with(b"%x") || s.starts_with(b"<<"),
        "tSTRING_BEG" => s == b"\"" || s == b"'" || s.starts_with(b"%") || s.starts_with(b"<<"),
        "tLABEL_END" => s == b"\":" || s == b"':",
        "tCHAR" => s.len() > 1 && s[0] == b'?',
        "tSPACE" => s.iter().all(|b| b" \t\n\r\x0b\x0c\\".contains(b)),
        _ => return None,
    })
}

pub fn heredocs(t: &Option<T>) -> Vec<(Span, Span, Span)> {
    let mut v = vec![];
    if let Some(t) = t {
        t.walk(&mut |x| {
            if matches!(x.k, "Heredoc" | "XHeredoc") {
                if let (Some(b), Some(e)) = (x.loc("heredoc_body_l"), x.loc("heredoc_end_l")) {
                    v.push((x.e, b, e));
                }
            }
        });
    }
    v
}

/// Where the program ends: `__END__` line, or a byte Ruby treats as the end of the script.
pub fn end_of_program(src: &[u8], toks_end: usize) -> usize {
    let mut i = toks_end;
    while i < src.len() {
        if matches!(src[i], 0 | 4 | 0x1a) {
            return i;
        }
        let bol = i == 0 || src[i - 1] == b'\n' || (src.starts_with(b"\xef\xbb\xbf") && i == 3);
        if bol && src[i..].starts_with(b"__END__") {
            let r = &src[i + 7..];
            if r.is_empty() || r.starts_with(b"\n") || r.starts_with(b"\r\n") {
                return i;
            }
        }
        i += 1;
    }
    src.len()
}

pub fn judge(res: &Res, out: &mut Vec<String>, judged: &mut u64) {
    let src = &res.input;
    let n = src.len();
    let mut bad = |t: &Tok, why: String| {
        if out.len() < 6 {
            out.push(format!("{} at {}..{} {}", t.name, t.loc.0, t.loc.1, why));
        }
    };
    let mut last_end = 0;
    match res.toks.last() {
        None => {
            out.push("no tokens recorded".into());
            return;
        }
        Some(t) if t.name != "EOF" => bad(t, "is the last token instead of EOF".into()),
        _ => {}
    }
    let hd = heredocs(&res.ast);
    let mut spans: Vec<(Span, usize)> = vec![];
    let mut prev: Option<(usize, Span)> = None;
    let mut back = 0;
    for (k, t) in res.toks.iter().enumerate() {
        *judged += 1;
        if t.loc.0 > t.loc.1 || t.loc.1 > n {
            bad(t, format!("is not a range of the source (length {})", n));
            return;
        }
        if t.name == "EOF" {
            if k + 1 != res.toks.len() {
                bad(t, "in the middle".into());
            }
            continue;
        }
        if t.name == "error" || t.name == "UNDEF" {
            bad(t, "in an accepted program".into());
        }
        let s = &src[t.loc.0..t.loc.1];
        if t.name == "tNL" {
            if !(s == b"\n" || s == b"\r\n" || s == b"\r" || s == b"#" || s.is_empty() || t.loc.1 == n) {
                bad(t, format!("covers {}", show_bytes(s)));
            }
            continue;
        }
        let same = t.val == s;
        let ok = match t.name {
            "tLABEL" => s.len() == t.val.len() + 1 && s.starts_with(&t.val) && s.ends_with(b":"),
            "tCHAR" | "tSTRING_CONTENT" | "tSPACE" => true,
            "tSTRING_END" => {
                same || (s.ends_with(&t.val) && s[..s.len() - t.val.len()].iter().all(|b| b" \t\r\x0b\x0c".contains(b)))
                    // a line break as the delimiter
                    || (s == b"\r\n" && t.val == b"\n")
            }
            _ => same,
        };
        if !ok {
            bad(t, format!("has the value {} but covers {}", show_bytes(&t.val), show_bytes(s)));
        }
        if let Some(a) = spelling(t.name) {
            if !a.iter().any(|x| x.as_bytes() == s) {
                bad(t, format!("covers {}", show_bytes(s)));
            }
        } else if shape(t.name, s) == Some(false) && !(t.name == "tSPACE" && hd.iter().any(|h| t.loc.0 <= h.1 .0 && h.2 .1 <= t.loc.1)) {
            bad(t, format!("covers {}", show_bytes(s)));
        }
        if t.loc.0 < t.loc.1 {
            spans.push((t.loc, k));
        }
        // order
        if let Some((pk, p)) = prev {
            if t.loc.0 < p.1 {
                let p = &res.toks[pk];
                if p.name == "tSTRING_END" && hd.iter().any(|h| h.2 .0 <= p.loc.0 && p.loc.1 <= h.2 .1 + 2 && h.0 .1 <= t.loc.0) {
                    back += 1;
                } else {
                    bad(t, format!("follows {} at {}..{}", p.name, p.loc.0, p.loc.1));
                }
            }
        }
        prev = Some((k, t.loc));
        last_end = last_end.max(t.loc.1);
    }
    // each byte at most once
    spans.sort();
    let mut cov = vec![false; n];
    for w in spans.windows(2) {
        if w[0].0 .1 > w[1].0 .0 {
            let (a, b) = (&res.toks[w[0].1], &res.toks[w[1].1]);
            // a string that goes on after the body of a heredoc opened in its interpolation
            let around = |h: &(Span, Span, Span)| a.loc.0 <= h.1 .0 && h.2 .1 <= a.loc.1 && h.1 .0 <= b.loc.0 && b.loc.1 <= h.2 .1 + 2;
            if matches!(a.name, "tSTRING_CONTENT" | "tSPACE") && hd.iter().any(around) {
                continue;
            }
            bad(b, format!("overlaps {} at {}..{}", a.name, a.loc.0, a.loc.1));
        }
    }
    for (l, _) in &spans {
        cov[l.0..l.1].iter_mut().for_each(|c| *c = true);
    }
    for c in &res.comments {
        if c.loc.1 <= n && c.loc.0 <= c.loc.1 {
            cov[c.loc.0..c.loc.1].iter_mut().for_each(|c| *c = true);
        }
    }
    if back > hd.len() {
        out.push(format!("{} backward steps with {} heredocs", back, hd.len()));
    }
    let end = end_of_program(src, last_end);
    let start = if src.starts_with(b"\xef\xbb\xbf") { 3 } else { 0 };
    for i in start..end {
        if !cov[i] {
            let b = src[i];
            if matches!(b, 0 | 4 | 0x1a) {
                // the script ends here (an opened heredoc body may still follow)
                break;
            }
            let fine = b" \t\n\r\x0b\x0c".contains(&b) || (b == b'\\' && matches!(src.get(i + 1), Some(b'\n' | b'\r')));
            if !fine && out.len() < 6 {
                let lo = i.saturating_sub(6);
                out.push(format!("byte {:?} at {} belongs to no token or comment (near {})", b as char, i, show_bytes(&src[lo..(i + 6).min(n)])));
                break;
            }
        }
    }
}

pub fn c06(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    let (v, kind) = mixed(&mut r);
    w.feed(&v);
    let Ok(res) = parse(&v) else {
        w.note("panicked (see C01)");
        return;
    };
    if res.has_error() {
        w.note("rejected (not judged)");
        return;
    }
    w.note("accepted");
    w.note(kind);
    let (mut out, mut n) = (vec![], 0);
    judge(&res, &mut out, &mut n);
    w.add("tokens judged", n);
    for o in out {
        w.fail(o, &v);
    }
    w.done(&v, n > 1);
}
