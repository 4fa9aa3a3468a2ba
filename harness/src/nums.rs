//! C14: numeric literals against an independent recogniser.
use crate::check::W;
use crate::tree::*;
use crate::util::*;

fn digits(s: &[u8], mut i: usize, ok: &dyn Fn(u8) -> bool) -> Option<usize> {
    // D(_?D)*
    if !s.get(i).map_or(false, |b| ok(*b)) {
        return None;
    }
    i += 1;
    loop {
        if s.get(i).map_or(false, |b| ok(*b)) {
            i += 1
        } else if s.get(i) == Some(&b'_') && s.get(i + 1).map_or(false, |b| ok(*b)) {
            i += 2
        } else {
            return Some(i);
        }
    }
}
/// The kind of node for a text that is a numeric literal as a whole.
pub fn literal(s: &[u8]) -> Option<&'static str> {
    let dec = |b: u8| b.is_ascii_digit();
    let oct = |b: u8| (b'0'..=b'7').contains(&b);
    let (mut end, mut float, mut exp) = (0, false, false);
    let mut done = false;
    if s.first() == Some(&b'0') && s.len() > 1 {
        let (i, f): (usize, Option<&dyn Fn(u8) -> bool>) = match s[1] {
            b'x' | b'X' => (2, Some(&|b: u8| b.is_ascii_hexdigit())),
            b'b' | b'B' => (2, Some(&|b: u8| b == b'0' || b == b'1')),
            b'd' | b'D' => (2, Some(&dec)),
            b'o' | b'O' => (2, Some(&oct)),
            b'0'..=b'9' => (1, Some(&oct)),
            b'_' => (2, Some(&oct)),
            _ => (0, None),
        };
        if let Some(f) = f {
            end = digits(s, i, f)?;
            done = true;
        }
    }
    if !done {
        end = digits(s, 0, &dec)?;
        if s[0] == b'0' && end > 1 {
            return None;
        }
        if s.get(end) == Some(&b'.') {
            if let Some(e) = digits(s, end + 1, &dec) {
                end = e;
                float = true;
            }
        }
        if matches!(s.get(end), Some(b'e' | b'E')) {
            let k = end + 1 + matches!(s.get(end + 1), Some(b'+' | b'-')) as usize;
            if let Some(e) = digits(s, k, &dec) {
                end = e;
                float = true;
                exp = true;
            }
        }
    }
    let mut rat = false;
    if s.get(end) == Some(&b'r') && !exp {
        rat = true;
        end += 1;
    }
    let img = s.get(end) == Some(&b'i');
    if img {
        end += 1;
    }
    if end != s.len() {
        return None;
    }
    Some(if img {
        "Complex"
    } else if rat {
        "Rational"
    } else if float {
        "Float"
    } else {
        "Int"
    })
}
/// The complaint about the first number of a text, when Ruby has one about the number as such:
/// a prefix without digits, a digit that is not octal, an underscore or sign without digits.
pub fn complaint(s: &[u8]) -> Option<String> {
    let at = |i: usize| s.get(i).copied().unwrap_or(0);
    let dec = |b: u8| b.is_ascii_digit();
    let hex = |b: u8| b.is_ascii_hexdigit();
    let bin = |b: u8| b == b'0' || b == b'1';
    let trailing = |c: u8| Some(format!("TrailingCharInNumber {{ c: {} }}", c));
    // digits with single underscores between them; where they end
    let run = |mut i: usize, ok: &dyn Fn(u8) -> bool| -> Result<usize, ()> {
        loop {
            if ok(at(i)) {
                i += 1
            } else if at(i) == b'_' {
                if !ok(at(i + 1)) {
                    return Err(());
                }
                i += 1;
            } else {
                return Ok(i);
            }
        }
    };
    if at(0) == b'0' {
        let class: Option<&dyn Fn(u8) -> bool> = match at(1) {
            b'x' | b'X' => Some(&hex),
            b'b' | b'B' => Some(&bin),
            b'd' | b'D' | b'o' | b'O' => Some(&dec),
            _ => None,
        };
        let octal = matches!(at(1), b'o' | b'O' | b'_') || dec(at(1));
        if let Some(class) = class {
            if !class(at(2)) {
                return Some("NumericLiteralWithoutDigits".into());
            }
            if !octal {
                return run(2, class).is_err().then(|| trailing(b'_')).flatten();
            }
        }
        if octal {
            let from = if dec(at(1)) || at(1) == b'_' { 1 } else { 2 };
            let mut under = false;
            for k in from.. {
                match at(k) {
                    b'_' if under => return trailing(b'_'),
                    b'_' => under = true,
                    b'8' | b'9' => return Some("InvalidOctalDigit".into()),
                    b'0'..=b'7' => under = false,
                    _ => return if under { trailing(b'_') } else { None },
                }
            }
        }
    }
    let Ok(mut i) = run(0, &dec) else { return trailing(b'_') };
    if at(i) == b'.' && dec(at(i + 1)) {
        match run(i + 1, &dec) {
            Ok(k) => i = k,
            Err(()) => return trailing(b'_'),
        }
    }
    if matches!(at(i), b'e' | b'E') {
        let sign = matches!(at(i + 1), b'+' | b'-');
        let k = i + 1 + sign as usize;
        if sign && !dec(at(k)) {
            return trailing(at(i + 1));
        }
        if dec(at(k)) && run(k, &dec).is_err() {
            return trailing(b'_');
        }
    }
    None
}
/// Can a text that is no literal as a whole still be an expression (`1.e`, `1+2`, `1..2`)?
fn may_be_code(s: &[u8]) -> bool {
    s.iter().any(|b| b".+-".contains(b))
}

const ALPHA: &[u8] = b"012789aAbBcdDeEfFoOxXrRi__.+-";
fn grammar(r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    let ds = |o: &mut Vec<u8>, r: &mut Rng, set: &[u8], max: usize| {
        let n = 1 + r.below(max);
        for k in 0..n {
            if k > 0 && r.chance(1, 5) {
                o.push(b'_');
            }
            o.push(*r.pick(set));
        }
    };
    match r.below(10) {
        0 => {
            o.extend_from_slice(r.pick(&["0x", "0X"]).as_bytes());
            ds(&mut o, r, b"0123456789abcdefABCDEF", 18);
        }
        1 => {
            o.extend_from_slice(r.pick(&["0b", "0B"]).as_bytes());
            ds(&mut o, r, b"01", 70);
        }
        2 => {
            o.extend_from_slice(r.pick(&["0d", "0D"]).as_bytes());
            ds(&mut o, r, b"0123456789", 20);
        }
        3 => {
            o.extend_from_slice(r.pick(&["0o", "0O", "0", "0_"]).as_bytes());
            ds(&mut o, r, b"01234567", 20);
        }
        n => {
            if r.chance(1, 4) {
                o.push(b'0');
            } else {
                o.push(b'1' + r.below(9) as u8);
                if r.chance(2, 3) {
                    if r.chance(1, 6) {
                        o.push(b'_');
                    }
                    let max = if r.chance(1, 20) { 400 } else { 12 };
                    ds(&mut o, r, b"0123456789", max);
                }
            }
            if n > 5 {
                o.push(b'.');
                ds(&mut o, r, b"0123456789", 12);
            }
            if n > 7 {
                o.extend_from_slice(r.pick(&["e", "E", "e+", "e-", "E-", "E+"]).as_bytes());
                ds(&mut o, r, b"0123456789", 4);
            }
        }
    }
    if r.chance(1, 4) {
        o.extend_from_slice(r.pick(&["r", "i", "ri"]).as_bytes());
    }
    if r.chance(1, 3) {
        // near miss
        let p = r.below(o.len() + 1);
        match r.below(4) {
            0 if p < o.len() && o.len() > 1 => {
                o.remove(p);
            }
            1 => o.insert(p, *r.pick(ALPHA)),
            2 => o.insert(p, b'_'),
            _ if p < o.len() => o[p] = *r.pick(ALPHA),
            _ => o.push(*r.pick(ALPHA)),
        }
    }
    o
}

pub fn c14(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    // first all short texts, then random long ones
    const K: u64 = ALPHA.len() as u64;
    let short = K * K * K * 10;
    let lit: Vec<u8> = if i < short {
        let mut x = i;
        let mut o = vec![b"0123456789"[(x % 10) as usize]];
        x /= 10;
        for _ in 0..3 {
            o.push(ALPHA[(x % K) as usize]);
            x /= K;
        }
        // shorter texts appear as those without their tail
        let cut = 1 + r.below(4);
        o.truncate(if i % 3 == 0 { cut } else { 4 });
        o
    } else {
        grammar(&mut r)
    };
    if !lit.first().map_or(false, |b| b.is_ascii_digit()) {
        return;
    }
    let sign: &str = r.pick(&["", "", "", "+", "-"]);
    let pre: &str = r.pick(&["", "", "a = ", "[", "foo ", "foo(", "x + ", "\n  ", "b = 1; ", "\"#{", "!", "{a: ", "a ? b : ", "x.y = "]);
    let post: &str = match pre {
        "[" => "]",
        "foo(" => ")",
        "\"#{" => "}\"",
        "{a: " => "}",
        _ => *r.pick(&["", "", "\n", " ", ";", "\r\n", " # c", "\0", "\n\n", " if c"]),
    };
    // `!-1`, `x + -1` and the like keep the sign with the number, too
    let mut src = pre.as_bytes().to_vec();
    let at = src.len();
    src.extend_from_slice(sign.as_bytes());
    src.extend_from_slice(&lit);
    let end = src.len();
    src.extend_from_slice(post.as_bytes());
    w.feed(&src);
    let Ok(res) = parse(&src) else {
        w.fail("panicked", &src);
        return;
    };
    let mut nums: Vec<(&'static str, Span, Vec<u8>)> = vec![];
    if let Some(t) = &res.ast {
        t.walk(&mut |x| {
            if matches!(x.k, "Int" | "Float" | "Rational" | "Complex") && x.e.0 >= at {
                nums.push((x.k, x.e, x.str("value").unwrap_or(b"").to_vec()));
            }
        });
    }
    let complaint = complaint(&lit);
    if let Some(m) = &complaint {
        w.note(m.split(' ').next().unwrap_or(""));
        match res.errors().first() {
            None => w.fail(format!("malformed number accepted, expected {}", m), &src),
            Some(d) if !d.msg.starts_with(m.as_str()) => w.fail(format!("malformed number reported as {}, expected {}", d.msg, m), &src),
            Some(d) if d.loc.0 < at || d.loc.0 > end => w.fail(format!("malformed number at {}..{} reported at {:?}", at, end, d.loc), &src),
            _ => {}
        }
    }
    match literal(&lit) {
        Some(k) => {
            if complaint.is_some() {
                panic!("recognisers disagree about {}", show_bytes(&lit));
            }
            w.note(&format!("valid {}", k));
            if res.has_error() {
                w.fail(format!("valid literal rejected: {}", res.errors()[0].text), &src);
            } else {
                let want = (k, (at, end), src[at..end].to_vec());
                if nums != vec![want] {
                    w.fail(format!("expected {} {} at {}..{}, got {:?}", k, show_bytes(&src[at..end]), at, end, nums.iter().map(|n| (n.0, n.1, show_bytes(&n.2))).collect::<Vec<_>>()), &src);
                }
            }
        }
        None if !may_be_code(&lit) => {
            w.note("malformed literal");
            if !res.has_error() {
                w.fail("malformed number accepted", &src);
            }
        }
        None => {
            w.note("number followed by something else");
            // whatever it is, the numbers in it are well-formed literals
            if !res.has_error() {
                for n in &nums {
                    let t = n.2.strip_prefix(b"-").or(n.2.strip_prefix(b"+")).unwrap_or(&n.2);
                    if literal(t) != Some(n.0) || src.get(n.1 .0..n.1 .1) != Some(&n.2[..]) {
                        w.fail(format!("{} {} at {:?}", n.0, show_bytes(&n.2), n.1), &src);
                    }
                }
            }
        }
    }
    w.done(&src, true);
}
