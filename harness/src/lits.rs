//! Literals of the reference generator: numbers, strings, symbols, regexps, word lists, heredocs.
//! Every literal is produced together with its value, computed from the Ruby rules here, so the
//! parser's escape decoding, dedenting and splitting are checked against an independent account.
use crate::gen::*;
use crate::tree::{T, V};
use crate::util::Rng;

pub fn digits(r: &mut Rng, set: &str, max: usize) -> String {
    let c: Vec<char> = set.chars().collect();
    let n = r.range(1, max);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 && r.chance(1, 6) {
            s.push('_');
        }
        s.push(*r.pick(&c));
    }
    s
}
fn nz_decimal(r: &mut Rng, max: usize) -> String {
    let first = *r.pick(&['1', '2', '3', '4', '5', '6', '7', '8', '9']);
    if r.chance(1, 3) {
        return first.to_string();
    }
    let us = if r.chance(1, 6) { "_" } else { "" };
    format!("{}{}{}", first, us, digits(r, "0123456789", max))
}
/// Unsigned numeric literal: (text, node kind)
pub fn number(r: &mut Rng) -> (String, &'static str) {
    let exp = |r: &mut Rng| format!("{}{}{}", r.pick(&["e", "E"]), r.pick(&["", "+", "-"]), digits(r, "0123456789", 3));
    let int = |r: &mut Rng| -> String {
        match r.below(12) {
            0 => format!("{}{}", r.pick(&["0x", "0X"]), digits(r, "0123456789abcdefABCDEF", 8)),
            1 => format!("{}{}", r.pick(&["0b", "0B"]), digits(r, "01", 9)),
            2 => format!("{}{}", r.pick(&["0o", "0O"]), digits(r, "01234567", 6)),
            3 => format!("{}{}", r.pick(&["0", "0_"]), digits(r, "01234567", 6)),
            4 => format!("{}{}", r.pick(&["0d", "0D"]), digits(r, "0123456789", 6)),
            5 => "0".into(),
            6 => nz_decimal(r, 30),
            _ => nz_decimal(r, 5),
        }
    };
    let dec = |r: &mut Rng| -> String { if r.chance(1, 5) { "0".into() } else { nz_decimal(r, 6) } };
    match r.below(12) {
        0 => (format!("{}.{}", dec(r), digits(r, "0123456789", 6)), "Float"),
        1 => (format!("{}.{}{}", dec(r), digits(r, "0123456789", 4), exp(r)), "Float"),
        2 => (format!("{}{}", dec(r), exp(r)), "Float"),
        3 => (format!("{}r", int(r)), "Rational"),
        4 => (format!("{}.{}r", dec(r), digits(r, "0123456789", 5)), "Rational"),
        5 => (format!("{}i", int(r)), "Complex"),
        6 => match r.below(4) {
            0 => (format!("{}.{}i", dec(r), digits(r, "0123456789", 5)), "Complex"),
            1 => (format!("{}ri", int(r)), "Complex"),
            2 => (format!("{}.{}ri", dec(r), digits(r, "0123456789", 5)), "Complex"),
            _ => (format!("{}{}i", dec(r), exp(r)), "Complex"),
        },
        _ => (int(r), "Int"),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// '...': only the delimiters and the backslash can be escaped
    Raw,
    /// "...": all escapes and interpolation
    Full,
    /// regexps: escapes are kept for the regexp engine
    Re,
    /// words of %w / %i
    RawWord,
    /// words of %W / %I
    FullWord,
}

/// One piece of literal content.
pub enum Piece {
    Text(Vec<u8>, Vec<u8>), // source, value
    Code(T),
}

impl Gen {
    pub fn num_literal(&mut self) -> T {
        let (s, k) = number(&mut self.r);
        let b = self.pos();
        let sign = match self.r.below(6) {
            0 => "-",
            1 if self.r.chance(1, 2) => "+",
            _ => "",
        };
        let o = self.raw(sign);
        self.raw(&s);
        let v = format!("{}{}", sign, s);
        let op = if sign == "-" { V::Loc(Some(o)) } else { V::Loc(None) };
        mk(k, (b, self.pos()), &[("value", vs(v.as_bytes())), ("operator_l", op)])
    }

    /// A random escape for a double-quoted literal: (source, value, must-not-be-followed-by class)
    pub fn escape(&mut self, valid_utf8: bool) -> (Vec<u8>, Vec<u8>, u8) {
        loop {
            let r = &mut self.r;
            let x = match r.below(16) {
                0 | 1 => {
                    let (c, v) = *r.pick(&[
                        ('n', 10u8), ('t', 9), ('r', 13), ('0', 0), ('s', 32), ('a', 7), ('b', 8), ('v', 11), ('f', 12), ('e', 27),
                    ]);
                    (format!("\\{}", c).into_bytes(), vec![v], if c == '0' { b'o' } else { 0 })
                }
                2 => {
                    let n = r.below(256);
                    let w = r.range(1, 3);
                    let s = match w {
                        1 => format!("{:o}", n % 8),
                        2 => format!("{:02o}", n % 64),
                        _ => format!("{:03o}", n),
                    };
                    let v = u32::from_str_radix(&s, 8).unwrap() as u8;
                    (format!("\\{}", s).into_bytes(), vec![v], if s.len() < 3 { b'o' } else { 0 })
                }
                3 | 4 => {
                    let n = r.below(256);
                    let s = match r.below(3) {
                        0 => format!("{:x}", n % 16),
                        1 => format!("{:02X}", n),
                        _ => format!("{:02x}", n),
                    };
                    let v = u32::from_str_radix(&s, 16).unwrap() as u8;
                    (format!("\\x{}", s).into_bytes(), vec![v], if s.len() < 2 { b'h' } else { 0 })
                }
                5 | 6 => {
                    let c = Self::rand_char(r, 0xffff);
                    let s = if r.chance(1, 2) { format!("\\u{:04x}", c as u32) } else { format!("\\u{:04X}", c as u32) };
                    (s.into_bytes(), c.to_string().into_bytes(), 0)
                }
                7 | 8 => {
                    let n = r.range(1, 3);
                    let mut s = String::from("\\u{");
                    let mut v = String::new();
                    if r.chance(1, 8) {
                        s.push(' ');
                    }
                    for i in 0..n {
                        if i > 0 {
                            let sp = *r.pick(&[" ", "  ", "\t"]);
                            s.push_str(sp);
                        }
                        let c = Self::rand_char(r, 0x10ffff);
                        match r.below(3) {
                            0 => s.push_str(&format!("{:x}", c as u32)),
                            1 => s.push_str(&format!("{:06X}", c as u32)),
                            _ => s.push_str(&format!("{:X}", c as u32)),
                        }
                        v.push(c);
                    }
                    if r.chance(1, 8) {
                        s.push(' ');
                    }
                    s.push('}');
                    (s.into_bytes(), v.into_bytes(), 0)
                }
                9 => {
                    // control characters
                    let c = *r.pick(b"aAzZ@[]^_ghMxC1 ");
                    let form = *r.pick(&["\\c", "\\C-"]);
                    let mut s = form.as_bytes().to_vec();
                    if r.chance(1, 8) {
                        s.push(b'?');
                        (s, vec![0x7f], 0)
                    } else {
                        s.push(c);
                        (s, vec![c & 0x9f], 0)
                    }
                }
                10 => {
                    let c = *r.pick(b"aAzZ@^_0~?!");
                    let mut s = b"\\M-".to_vec();
                    s.push(c);
                    (s, vec![c | 0x80], 0)
                }
                11 => {
                    let c = *r.pick(b"aAzZ@^_gx");
                    let form = *r.pick(&["\\M-\\C-", "\\C-\\M-", "\\M-\\c", "\\c\\M-"]);
                    let mut s = form.as_bytes().to_vec();
                    s.push(c);
                    (s, vec![(c & 0x9f) | 0x80], 0)
                }
                12 => {
                    // backslash before an ordinary character is dropped
                    let c = *r.pick(&["q", "g", "z", "#", "A", "Z", " ", "@", "$", "-", ".", "é", "日", "8", "9"]);
                    (format!("\\{}", c).into_bytes(), c.as_bytes().to_vec(), b'#')
                }
                13 => (b"\\\\".to_vec(), b"\\".to_vec(), 0),
                14 => {
                    if self.nonl || !self.pending.is_empty() {
                        continue;
                    }
                    (b"\\\n".to_vec(), vec![], 0)
                }
                _ => (b"\\u{0 7f}".to_vec(), vec![0, 0x7f], 0),
            };
            if valid_utf8 && std::str::from_utf8(&x.1).is_err() {
                continue;
            }
            return x;
        }
    }
    fn rand_char(r: &mut Rng, max: u32) -> char {
        loop {
            let m = *r.pick(&[0x7f, 0xff, 0x7ff, 0xffff, 0x10ffff]);
            let c = (r.next() % (m + 1)) as u32;
            if c <= max {
                if let Some(c) = char::from_u32(c) {
                    return c;
                }
            }
        }
    }

    pub fn round_length(&mut self) -> usize {
        let p = *self.r.pick(&[64usize, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384]);
        if self.r.chance(1, 4) && p < 5000 { p * 3 } else { p }
    }

    /// Literal content between delimiters `open`/`close`. Emits it and returns the parts:
    /// `Str` nodes (no delimiters) and interpolations, in source order.
    pub fn content(&mut self, mode: Mode, open: char, close: char, valid_utf8: bool, maxlen: usize) -> Vec<T> {
        let mut parts: Vec<T> = vec![];
        let mut cur: Vec<u8> = vec![];
        let mut cur_b = self.pos();
        let n = self.r.below(maxlen + 1);
        let word = matches!(mode, Mode::RawWord | Mode::FullWord);
        let n = if word { n.max(1) } else { n };
        // a long literal
        let n = if self.ctx.depth > 0 && self.r.chance(1, 100) { n * self.r.range(5, 40) } else { n };
        let interp = matches!(mode, Mode::Full | Mode::Re | Mode::FullWord);
        let mut avoid: u8 = 0;
        let mut nest = 0usize;
        let plain: Vec<char> = "abcxyzABC0189 _-+=,.;:!?~<>|&^*@$%é日ñ😀()[]{}/'\"`".chars().collect();
        let mut i = 0;
        while i < n {
            i += 1;
            let k = self.r.below(20);
            if k == 19 && close != 'x' && open != 'x' && self.r.chance(1, 1500) && maxlen > 1 {
                // the length of the text close to a round number
                let p = self.round_length();
                let k = p.saturating_sub(cur.len() + self.r.below(3)).max(1);
                let c = if avoid == 0 { "x" } else { "-" };
                let c = if c.starts_with(close) || c.starts_with(open) || (mode == Mode::Re && c == "-") { continue } else { c };
                let s = c.repeat(k);
                self.raw(&s);
                cur.extend_from_slice(s.as_bytes());
                self.note("gen:long literal");
                avoid = 0;
                if self.r.chance(2, 3) {
                    i = n;
                }
                continue;
            }
            // interpolation
            if interp && k == 0 && self.ctx.depth > 0 {
                if !cur.is_empty() || self.pos() > cur_b {
                    let e = self.pos();
                    parts.push(mk("Str", (cur_b, e), &[("value", vs(&std::mem::take(&mut cur)))]));
                }
                let (nonl, no_do, layout) = (self.nonl, self.ctx.no_do, self.layout);
                self.nonl = true;
                self.ctx.no_do = false;
                self.layout = self.layout.min(1);
                let d = self.ctx.depth;
                self.ctx.depth = d.min(2);
                let sc = (self.ctx.noin, self.ctx.numparam);
                self.ctx.noin = false;
                let b = self.raw("#{");
                let st = match self.r.below(4) {
                    0 => vec![],
                    1 => {
                        let v1 = self.node("stmt", None);
                        self.raw(";");
                        let v2 = self.node("stmt", None);
                        vec![v1, v2]
                    }
                    _ => vec![self.node("stmt", None)],
                };
                let e = self.raw("}");
                self.nonl = nonl;
                self.ctx.no_do = no_do;
                self.ctx.noin = sc.0;
                self.layout = layout;
                self.ctx.depth = d;
                parts.push(mk("Begin", (b.0, e.1), &[("statements", V::List(st)), ("begin_l", vl(b)), ("end_l", vl(e))]));
                cur_b = self.pos();
                avoid = 0;
                continue;
            }
            // `#@ivar` style interpolation
            if interp && k == 1 && self.ctx.depth > 0 && close != '_' && self.r.chance(1, 2) {
                if !cur.is_empty() || self.pos() > cur_b {
                    let e = self.pos();
                    parts.push(mk("Str", (cur_b, e), &[("value", vs(&std::mem::take(&mut cur)))]));
                }
                self.raw("#");
                let (name, kk) = loop {
                    let p = *self.r.pick(&[("@iv", "Ivar"), ("@@cv", "Cvar"), ("$gv", "Gvar"), ("$_", "Gvar"), ("@é", "Ivar"), ("@@é", "Cvar"), ("$é", "Gvar"), ("@_", "Ivar"), ("@@_b", "Cvar"), ("@A", "Ivar"), ("$A", "Gvar"), ("$~", "Gvar"), ("$*", "Gvar"), ("$$", "Gvar"), ("$?", "Gvar"), ("$!", "Gvar"), ("$@", "Gvar"), ("$/", "Gvar"), ("$\\", "Gvar"), ("$;", "Gvar"), ("$,", "Gvar"), ("$.", "Gvar"), ("$=", "Gvar"), ("$:", "Gvar"), ("$<", "Gvar"), ("$>", "Gvar"), ("$\"", "Gvar"), ("$0", "Gvar"), ("$-w", "Gvar"), ("$-_", "Gvar"), ("$-é", "Gvar"), ("$1", "NthRef"), ("$42", "NthRef"), ("$9", "NthRef"), ("$&", "BackRef"), ("$`", "BackRef"), ("$'", "BackRef"), ("$+", "BackRef")]);
                    if !p.0.contains(close) && !p.0.contains(open) {
                        break p;
                    }
                };
                let sp = self.raw(name);
                let name = if kk == "NthRef" { &name[1..] } else { name };
                parts.push(mk(kk, sp, &[("name", vs(name.as_bytes()))]));
                cur_b = self.pos();
                avoid = b'w';
                continue;
            }
            // escapes
            if k == 2 || k == 3 || k == 4 || (k == 5 && mode != Mode::Raw) {
                match mode {
                    Mode::Raw | Mode::RawWord => {
                        let (s, v): (String, String) = match self.r.below(6) {
                            5 => {
                                // the line break is kept, and the backslash except for words
                                if self.nonl || !self.pending.is_empty() {
                                    continue;
                                }
                                ("\\\n".into(), if word { "\n" } else { "\\\n" }.into())
                            }
                            0 => ("\\\\".into(), "\\".into()),
                            1 => (format!("\\{}", close), close.to_string()),
                            2 if open != close => (format!("\\{}", open), open.to_string()),
                            3 if word => {
                                let c = *self.r.pick(&[" ", "\t", "\u{b}", "\u{c}"]);
                                (format!("\\{}", c), c.into())
                            }
                            _ => {
                                let c = *self.r.pick(&["n", "q", "0", "u", "#", "é"]);
                                if c.starts_with(close) || c.starts_with(open) {
                                    continue;
                                }
                                (format!("\\{}", c), format!("\\{}", c))
                            }
                        };
                        self.raw(&s);
                        cur.extend_from_slice(v.as_bytes());
                        avoid = 0;
                    }
                    Mode::Full | Mode::FullWord => {
                        if self.r.chance(1, 5) {
                            let d = if self.r.chance(1, 2) { close } else { open };
                            self.raw(&format!("\\{}", d));
                            cur.extend_from_slice(d.to_string().as_bytes());
                            avoid = 0;
                        } else if word && self.r.chance(1, 4) {
                            let c = *self.r.pick(&[" ", "\t", "\n", "\u{b}", "\u{c}"]);
                            if c == "\n" && (self.nonl || !self.pending.is_empty()) {
                                continue;
                            }
                            self.raw(&format!("\\{}", c));
                            cur.extend_from_slice(c.as_bytes());
                            avoid = 0;
                        } else {
                            let (s, v, a) = self.escape(valid_utf8);
                            // an escape whose text contains a delimiter would end the literal
                            let txt = String::from_utf8_lossy(&s).into_owned();
                            if txt[1..].contains(close) || txt[1..].contains(open) || (word && txt.chars().any(|c| c.is_whitespace())) {
                                continue;
                            }
                            self.out.extend_from_slice(&s);
                            cur.extend_from_slice(&v);
                            avoid = a;
                        }
                    }
                    Mode::Re => {
                        let (s, v): (String, String) = match self.r.below(8) {
                            0 => {
                                // an escaped delimiter loses its backslash unless it means something in regexps
                                if "$*+.?^|)]}>".contains(close) {
                                    (format!("\\{}", close), format!("\\{}", close))
                                } else {
                                    (format!("\\{}", close), close.to_string())
                                }
                            }
                            1 if open != close => (format!("\\{}", open), format!("\\{}", open)),
                            2 => {
                                // control and meta characters become hexadecimal
                                let c = *self.r.pick(b"aAzZ@^_gx");
                                let (f, x) = *self.r.pick(&[("\\c", 0), ("\\C-", 0), ("\\M-", 1), ("\\M-\\C-", 2), ("\\C-\\M-", 2), ("\\M-\\c", 2), ("\\c\\M-", 2)]);
                                let s = format!("{}{}", f, c as char);
                                if s[1..].contains(open) || s[1..].contains(close) {
                                    continue;
                                }
                                let v = match x {
                                    0 => c & 0x9f,
                                    1 => c | 0x80,
                                    _ => c & 0x9f | 0x80,
                                };
                                (s, format!("\\x{:02X}", v))
                            }
                            3 => {
                                if self.nonl || !self.pending.is_empty() {
                                    continue;
                                }
                                ("\\\n".into(), "".into())
                            }
                            4 => {
                                let c = *self.r.pick(&["\\x41", "\\x7e", "\\x4", "\\101", "\\0", "\\7", "\\12", "\\1234", "\\77", "\\8", "\\u0041", "\\u{61 62}", "\\\\", "\\1018", "\\x414"]);
                                if c[1..].contains(open) || c[1..].contains(close) {
                                    continue;
                                }
                                (c.into(), c.into())
                            }
                            _ => {
                                let c = *self.r.pick(&["\\n", "\\t", "\\d", "\\w", "\\.", "\\s", "\\b", "\\A", "\\z", "\\*", "\\-", "\\+", "\\?", "\\^", "\\$", "\\|", "\\(", "\\)", "\\[", "\\]", "\\{", "\\}", "\\<", "\\>", "\\e", "\\f", "\\r", "\\a", "\\#", "\\ ", "\\é", "\\/", "\\!", "\\'", "\\\"", "\\q", "\\k<a>", "\\p{L}"]);
                                if c[1..].contains(open) || c[1..].contains(close) {
                                    continue;
                                }
                                (c.into(), c.into())
                            }
                        };
                        self.raw(&s);
                        cur.extend_from_slice(v.as_bytes());
                        avoid = 0;
                        if s == "\\101" || s == "\\x41" || s == "\\x7e" {
                            avoid = 0;
                        }
                    }
                }
                continue;
            }
            if k == 6 && !word && !self.nonl && self.pending.is_empty() {
                self.raw("\n");
                cur.push(b'\n');
                avoid = 0;
                continue;
            }
            if k == 7 && (!interp || avoid != 1) {
                // a lone `#`
                if open == '#' || close == '#' || mode == Mode::Re {
                    continue;
                }
                self.raw("#");
                cur.push(b'#');
                avoid = b'#';
                continue;
            }
            if k == 8 && open != close && mode != Mode::Re && !(open == '{' && avoid == b'#') {
                // balanced nested delimiters
                self.raw(&open.to_string());
                cur.extend_from_slice(open.to_string().as_bytes());
                if word {
                    // may be closed in another word
                    self.word_nest += 1;
                } else {
                    nest += 1;
                }
                avoid = 0;
                continue;
            }
            if k == 9 && word && self.word_nest > 0 {
                self.raw(&close.to_string());
                cur.extend_from_slice(close.to_string().as_bytes());
                self.word_nest -= 1;
                avoid = 0;
                continue;
            }
            if k == 10 && mode == Mode::Re && avoid != b'#' {
                let t = *self.r.pick(&["a*", "b+?", "^c", "d$", "(?:x)", "[a-c]", "[^/]", "x{2}", "(?<n>y)", "(q|r)", "[[:alpha:]]", ".", "||", "()", "(?i)z", "(?#c)"]);
                let paired = open != close && t.chars().filter(|c| *c == open).count() == t.chars().filter(|c| *c == close).count();
                if (!t.contains(open) && !t.contains(close) || paired) && !(avoid == b'o' || avoid == b'h' || avoid == b'w') {
                    self.raw(t);
                    cur.extend_from_slice(t.as_bytes());
                    avoid = 0;
                }
                continue;
            }
            if k == 9 && nest > 0 {
                self.raw(&close.to_string());
                cur.extend_from_slice(close.to_string().as_bytes());
                nest -= 1;
                avoid = 0;
                continue;
            }
            let c = *self.r.pick(&plain);
            if c == open || c == close || (word && c.is_whitespace()) {
                continue;
            }
            if mode == Mode::Re && "()[]{}*+?|^$\\".contains(c) {
                continue;
            }
            let bad = match avoid {
                b'o' => c.is_digit(8),
                b'h' => c.is_ascii_hexdigit(),
                b'#' => "{@$".contains(c),
                b'w' => c.is_alphanumeric() || c == '_' || !c.is_ascii(),
                _ => false,
            };
            if bad {
                continue;
            }
            avoid = 0;
            self.raw(&c.to_string());
            cur.extend_from_slice(c.to_string().as_bytes());
        }
        for _ in 0..nest {
            self.raw(&close.to_string());
            cur.extend_from_slice(close.to_string().as_bytes());
        }
        if word && parts.is_empty() && cur.is_empty() && self.pos() == cur_b {
            self.raw("w");
            cur.push(b'w');
        }
        if self.pos() > cur_b {
            let e = self.pos();
            parts.push(mk("Str", (cur_b, e), &[("value", vs(&cur))]));
        }
        parts
    }

    fn delims(&mut self) -> (char, char) {
        *self.r.pick(&[('(', ')'), ('[', ']'), ('{', '}'), ('<', '>'), ('|', '|'), ('!', '!'), ('/', '/'), ('-', '-'), ('^', '^'), ('.', '.'), (':', ':'), ('%', '%'), ('_', '_'), ('~', '~'), ('&', '&'), ('*', '*'), ('+', '+'), (',', ','), (';', ';'), ('?', '?'), ('\'', '\''), ('"', '"'), ('`', '`')])
    }

    pub fn lit_node(&mut self, cat: &str) -> T {
        match cat {
            "strlit" => self.string_lit(8),
            "dstr" => self.string_lit(14),
            "symlit" => self.symbol_lit(8),
            "charlit" => self.char_lit(),
            "regexplit" => self.regexp_lit(),
            "xstrlit" => self.xstr_lit(),
            "words" => self.words_lit(),
            "heredoc" => self.heredoc_lit(),
            x => panic!("{}", x),
        }
    }
    /// All parts are plain text: the whole is one Str with the delimiters.
    fn wrap_str(&mut self, parts: Vec<T>, b: (usize, usize), e: (usize, usize)) -> T {
        let sp = (b.0, e.1);
        if parts.is_empty() {
            return mk("Str", sp, &[("value", vs(b"")), ("begin_l", vl(b)), ("end_l", vl(e))]);
        }
        if parts.len() == 1 && parts[0].k == "Str" {
            let v = parts[0].str("value").unwrap().to_vec();
            return mk("Str", sp, &[("value", vs(&v)), ("begin_l", vl(b)), ("end_l", vl(e))]);
        }
        mk("Dstr", sp, &[("parts", V::List(parts)), ("begin_l", vl(b)), ("end_l", vl(e))])
    }
    fn one_string(&mut self, maxlen: usize) -> T {
        match self.r.below(6) {
            0 | 1 => {
                let b = self.raw("'");
                let p = self.content(Mode::Raw, '\'', '\'', false, maxlen);
                let e = self.raw("'");
                self.wrap_str(p, b, e)
            }
            2 | 3 => {
                let b = self.raw("\"");
                let p = self.content(Mode::Full, '"', '"', false, maxlen);
                let e = self.raw("\"");
                self.wrap_str(p, b, e)
            }
            4 => {
                let (o, c) = self.delims();
                let b = self.raw(&format!("%q{}", o));
                let p = self.content(Mode::Raw, o, c, false, maxlen);
                let e = self.raw(&c.to_string());
                self.wrap_str(p, b, e)
            }
            _ => {
                let (o, c) = self.delims();
                let q = if o.is_alphanumeric() || o == '_' || self.r.chance(1, 2) { "%Q" } else { "%" };
                let b = self.raw(&format!("{}{}", q, o));
                let p = self.content(Mode::Full, o, c, false, maxlen);
                let e = self.raw(&c.to_string());
                self.wrap_str(p, b, e)
            }
        }
    }
    pub fn char_lit(&mut self) -> T {
        // ?c
        let b = self.raw("?");
        if self.r.chance(1, 3) {
            loop {
                let (s, v, _) = self.escape(false);
                let many = s.starts_with(b"\\u{") && std::str::from_utf8(&v).map_or(true, |v| v.chars().count() != 1);
                if v.is_empty() || many || s == b"\\\n" {
                    continue;
                }
                self.out.extend_from_slice(&s);
                return mk("Str", (b.0, self.pos()), &[("value", vs(&v)), ("begin_l", vl(b))]);
            }
        }
        let c = *self.r.pick(&["a", "Z", "é", "日", "1", "_", "(", "+", "{", "\"", "#", "?", "\\\\", "/", ")", ";", "'"]);
        self.raw(c);
        let v = if c == "\\\\" { "\\" } else { c };
        mk("Str", (b.0, self.pos()), &[("value", vs(v.as_bytes())), ("begin_l", vl(b))])
    }
    pub fn string_lit(&mut self, maxlen: usize) -> T {
        if self.r.chance(1, 10) {
            // adjacent literals are concatenated
            let n = self.r.range(2, 3);
            let mut v = vec![];
            for i in 0..n {
                if i > 0 {
                    self.sp();
                }
                v.push(loop_quoted(self, maxlen));
            }
            let e = (v[0].e.0, v[v.len() - 1].e.1);
            return mk("Dstr", e, &[("parts", V::List(v))]);
        }
        self.one_string(maxlen)
    }
    pub fn symbol_lit(&mut self, maxlen: usize) -> T {
        match self.r.below(7) {
            0 | 1 | 2 => {
                let b = self.raw(":");
                let n = match self.r.below(7) {
                    0 => self.r.pick(KWS).to_string(),
                    1 => self.r.pick(OPS).replace(['&', '|'], "+"), // `:&.x` is `:&.` `x`, `:||` is `:||`
                    2 => format!("{}{}", self.r.pick(METHS), self.r.pick(&["?", "!", "="])),
                    3 => self.r.pick(CONSTS).to_string(),
                    4 => self.r.pick(&["@a", "@@b", "$c", "$1", "$-w", "$~", "@é", "$&", "$_", "$0", "$12"]).to_string(),
                    _ => self.r.pick(METHS).to_string(),
                };
                self.raw(&n);
                mk("Sym", (b.0, self.pos()), &[("name", vs(n.as_bytes())), ("begin_l", vl(b))])
            }
            k => {
                let (open, mode, o, c) = match k {
                    3 => (":\"".to_string(), Mode::Full, '"', '"'),
                    4 => (":'".to_string(), Mode::Raw, '\'', '\''),
                    5 => (":\"".to_string(), Mode::Full, '"', '"'),
                    _ => {
                        let (o, c) = self.delims();
                        (format!("%s{}", o), Mode::Raw, o, c)
                    }
                };
                let b = self.raw(&open);
                let p = self.content(mode, o, c, true, maxlen);
                let e = self.raw(&c.to_string());
                let sp = (b.0, e.1);
                if p.len() == 1 && p[0].k == "Str" {
                    let v = p[0].str("value").unwrap().to_vec();
                    return mk("Sym", sp, &[("name", vs(&v)), ("begin_l", vl(b)), ("end_l", vl(e))]);
                }
                mk("Dsym", sp, &[("parts", V::List(p)), ("begin_l", vl(b)), ("end_l", vl(e))])
            }
        }
    }
    /// The `"..."` of a `"...": value`
    pub fn quoted_key(&mut self) -> T {
        let (q, mode) = if self.r.chance(2, 3) { ('"', Mode::Full) } else { ('\'', Mode::Raw) };
        let b = self.raw(&q.to_string());
        let p = if self.r.chance(1, 4) { vec![] } else { self.content(mode, q, q, true, 6) };
        let e = self.raw(&q.to_string());
        let sp = (b.0, e.1);
        if p.len() == 1 && p[0].k == "Str" {
            let v = p[0].str("value").unwrap().to_vec();
            return mk("Sym", sp, &[("name", vs(&v)), ("begin_l", vl(b)), ("end_l", vl(e))]);
        }
        mk("Dsym", sp, &[("parts", V::List(p)), ("begin_l", vl(b)), ("end_l", vl(e))])
    }
    pub fn regexp_lit(&mut self) -> T {
        let (open, o, c) = if self.r.chance(2, 3) {
            ("/".to_string(), '/', '/')
        } else {
            let (o, c) = *self.r.pick(&[('{', '}'), ('(', ')'), ('[', ']'), ('!', '!'), ('<', '>'), ('%', '%'), ('/', '/')]);
            (format!("%r{}", o), o, c)
        };
        let b = self.raw(&open);
        let p = self.content(Mode::Re, o, c, true, 6);
        let e = self.raw(&c.to_string());
        let mut opts: Vec<char> = vec![];
        let ob = self.pos();
        for ch in ['i', 'm', 'x', 'o', 'u', 'n'] {
            if self.r.chance(1, 8) && !(ch == 'n' && opts.contains(&'u')) {
                opts.push(ch);
            }
        }
        // written in any order, recorded sorted
        let mut w = opts.clone();
        for i in (1..w.len()).rev() {
            let j = self.r.below(i + 1);
            w.swap(i, j);
        }
        if !w.is_empty() && self.r.chance(1, 6) {
            // one of them again
            let (at, c) = (self.r.below(w.len() + 1), *self.r.pick(&opts));
            w.insert(at, c);
        }
        let s: String = w.iter().collect();
        self.raw(&s);
        let mut sorted = opts.clone();
        sorted.sort();
        let so: String = sorted.iter().collect();
        let opt = if so.is_empty() {
            V::Node(None)
        } else {
            vn(mk("RegOpt", (ob, self.pos()), &[("options", vs(so.as_bytes()))]))
        };
        mk("Regexp", (b.0, self.pos()), &[("parts", V::List(p)), ("options", opt), ("begin_l", vl(b)), ("end_l", vl(e))])
    }
    pub fn xstr_lit(&mut self) -> T {
        let (open, o, c) = if self.r.chance(2, 3) {
            ("`".to_string(), '`', '`')
        } else {
            let (o, c) = self.delims();
            (format!("%x{}", o), o, c)
        };
        let b = self.raw(&open);
        let p = self.content(Mode::Full, o, c, false, 6);
        let e = self.raw(&c.to_string());
        mk("Xstr", (b.0, e.1), &[("parts", V::List(p)), ("begin_l", vl(b)), ("end_l", vl(e))])
    }
    pub fn words_lit(&mut self) -> T {
        let t = *self.r.pick(&["w", "W", "i", "I"]);
        let (o, c) = if self.r.chance(1, 3) { self.delims() } else { *self.r.pick(&[('(', ')'), ('[', ']'), ('{', '}'), ('<', '>'), ('|', '|'), ('!', '!'), ('/', '/')]) };
        let outer = std::mem::take(&mut self.word_nest);
        let b = self.raw(&format!("%{}{}", t, o));
        let n = if self.r.chance(1, 8) { self.r.below(12) } else { self.r.below(4) };
        let ws: &[&str] = if self.nonl || !self.pending.is_empty() { &[" ", "  ", "\t"] } else { &[" ", "  ", "\t", "\n", " \n ", "\n\n"] };
        let mut v = vec![];
        if self.r.chance(1, 4) {
            let w = *self.r.pick(ws);
            self.raw(w);
        }
        let sym = t == "i" || t == "I";
        for i in 0..n {
            if i > 0 {
                let w = *self.r.pick(ws);
                self.raw(w);
            }
            let mode = if t == "w" || t == "i" { Mode::RawWord } else { Mode::FullWord };
            let p = self.content(mode, o, c, sym, 5);
            let sp = (p[0].e.0, p[p.len() - 1].e.1);
            // the span starts at the first byte of the word even when it starts with `#@x`
            let sp = (sp.0, sp.1);
            if p.len() == 1 && p[0].k == "Str" {
                let val = p[0].str("value").unwrap().to_vec();
                v.push(if sym { mk("Sym", sp, &[("name", vs(&val))]) } else { p.into_iter().next().unwrap() });
            } else {
                v.push(mk(if sym { "Dsym" } else { "Dstr" }, sp, &[("parts", V::List(p))]));
            }
        }
        while self.word_nest > 0 {
            let k = if self.r.chance(1, 2) { 1 } else { self.word_nest };
            self.word_nest -= k;
            let w = *self.r.pick(ws);
            self.raw(w);
            let val = c.to_string().repeat(k);
            let sp = self.raw(&val);
            v.push(mk(if sym { "Sym" } else { "Str" }, sp, &[(if sym { "name" } else { "value" }, vs(val.as_bytes()))]));
        }
        self.word_nest = outer;
        if self.r.chance(1, 4) {
            let w = *self.r.pick(ws);
            self.raw(w);
        }
        let e = self.raw(&c.to_string());
        mk("Array", (b.0, e.1), &[("elements", V::List(v)), ("begin_l", vl(b)), ("end_l", vl(e))])
    }
}

fn loop_quoted(g: &mut Gen, maxlen: usize) -> T {
    let q = *g.r.pick(&['\'', '"']);
    let b = g.raw(&q.to_string());
    let m = if q == '"' { Mode::Full } else { Mode::Raw };
    let p = g.content(m, q, q, false, maxlen);
    let e = g.raw(&q.to_string());
    let sp = (b.0, e.1);
    if p.is_empty() {
        return mk("Str", sp, &[("value", vs(b"")), ("begin_l", vl(b)), ("end_l", vl(e))]);
    }
    if p.len() == 1 && p[0].k == "Str" {
        let v = p[0].str("value").unwrap().to_vec();
        return mk("Str", sp, &[("value", vs(&v)), ("begin_l", vl(b)), ("end_l", vl(e))]);
    }
    mk("Dstr", sp, &[("parts", V::List(p)), ("begin_l", vl(b)), ("end_l", vl(e))])
}
