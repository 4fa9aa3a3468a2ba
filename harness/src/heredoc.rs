//! Heredoc model: bodies, squiggly dedent, continuation lines, interpolation.
use crate::gen::*;
use crate::tree::{Span, T, V};

pub const ANY: Span = (usize::MAX, usize::MAX);

struct P {
    node: T,
    bol: bool,
}

impl Gen {
    pub fn heredoc_lit(&mut self) -> T {
        if self.nonl {
            return self.string_lit(4);
        }
        let style = *self.r.pick(&["", "-", "~", "~"]);
        let quote = *self.r.pick(&["", "", "\"", "'", "`"]);
        let id = *self.r.pick(&["E", "EOS", "HERE_1", "É", "foo", "_", "a1", "end", "日本", "EEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE"]);
        let id = if !quote.is_empty() && self.r.chance(1, 4) { *self.r.pick(&["A b-c", "#", "a.b", "=end", "1", "x(", "%w[", "\\", "é é", "E#{"]) } else { id };
        let opener = format!("<<{}{}{}{}", style, quote, id, quote);
        let e = self.raw(&opener);
        let hid = self.bases.len();
        self.bases.push(None);
        // generate the body in its own coordinate space
        let saved_out = std::mem::take(&mut self.out);
        let saved_base = self.base;
        let saved_pending = std::mem::take(&mut self.pending);
        self.base = BIG * (hid + 1);
        let (parts, body_l) = self.heredoc_body(style == "~", style != "", quote != "'", id);
        let ind = if style != "" { *self.r.pick(&["", "  ", "    ", "\t"]) } else { "" };
        let tb = self.pos();
        self.raw(ind);
        self.raw(id);
        let te = self.pos();
        self.raw("\n");
        let body = std::mem::replace(&mut self.out, saved_out);
        self.base = saved_base;
        self.pending = saved_pending;
        self.pending.push(Pending { id: hid, body });
        let k = if quote == "`" { "XHeredoc" } else { "Heredoc" };
        mk(k, e, &[("parts", V::List(parts)), ("heredoc_body_l", vl(body_l)), ("heredoc_end_l", vl((tb, te)))])
    }

    /// Returns the parts and the span of the content.
    fn heredoc_body(&mut self, squiggly: bool, indent_mode: bool, expand: bool, id: &str) -> (Vec<T>, Span) {
        let nlines = if self.ctx.depth > 0 && self.r.chance(1, 30) { self.r.range(5, 40) } else { self.r.below(5) };
        // all lines far to the right
        let base = if self.r.chance(1, 25) { self.r.range(10, 300) } else { 0 };
        let begin = self.pos();
        let mut parts: Vec<P> = vec![];
        let mut cur: Vec<u8> = vec![];
        let mut cur_b = self.pos();
        let mut cur_bol = true;
        // dedent width so far (usize::MAX: no line with content yet)
        let mut width = usize::MAX;
        macro_rules! flush {
            ($g:expr) => {
                if $g.pos() > cur_b {
                    let e = $g.pos();
                    parts.push(P { node: mk("Str", (cur_b, e), &[("value", vs(&std::mem::take(&mut cur)))]), bol: cur_bol });
                }
                #[allow(unused_assignments)]
                {
                    cur_b = $g.pos();
                }
            };
        }
        let mut continued = false;
        let mut i = 0;
        while i < nlines || continued {
            i += 1;
            let line_b = self.out.len();
            let was_continued = continued;
            continued = false;
            // indentation
            let ind = if self.r.chance(3, 4) || !squiggly {
                *self.r.pick(&["", "  ", "  ", "    ", "   ", "      "])
            } else {
                *self.r.pick(&["\t", "  \t", "\t\t", "\t ", "        ", "       \t", "          "])
            };
            let ind = &format!("{}{}", " ".repeat(base), ind)[..];
            let mut col = 0;
            for c in ind.chars() {
                col = if c == '\t' { (col / 8 + 1) * 8 } else { col + 1 };
            }
            self.raw(ind);
            cur.extend_from_slice(ind.as_bytes());
            let blank = self.r.chance(1, 5);
            let mut content = false;
            if !blank {
                let n = self.r.range(1, 5);
                for _ in 0..n {
                    let k = self.r.below(10);
                    if expand && k == 0 && self.ctx.depth > 0 {
                        // interpolation
                        if !content {
                            width = width.min(col);
                            content = true;
                        }
                        flush!(self);
                        cur_bol = false;
                        let sub = self.interpolation();
                        parts.push(P { node: sub, bol: false });
                        cur_b = self.pos();
                        continue;
                    }
                    if expand && k == 1 && self.r.chance(1, 2) {
                        if !content {
                            width = width.min(col);
                            content = true;
                        }
                        flush!(self);
                        cur_bol = false;
                        self.raw("#");
                        let (name, kk) = *self.r.pick(&[("@iv", "Ivar"), ("@@cv", "Cvar"), ("$gv", "Gvar"), ("$1", "NthRef"), ("$&", "BackRef"), ("$+", "BackRef"), ("$12", "NthRef"), ("$-w", "Gvar"), ("$!", "Gvar"), ("@é", "Ivar"), ("$_", "Gvar")]);
                        let sp = self.raw(name);
                        let name = if kk == "NthRef" { &name[1..] } else { name };
                        parts.push(P { node: mk(kk, sp, &[("name", vs(name.as_bytes()))]), bol: false });
                        cur_b = self.pos();
                        // terminate the name
                        let c = *self.r.pick(&[" ", "-", "  ", "\t", "    ", "        .", "\t  "]);
                        self.raw(c);
                        cur.extend_from_slice(c.as_bytes());
                        continue;
                    }
                    if expand && (k == 2 || k == 3) {
                        let nonl = self.nonl;
                        self.nonl = true; // no `\<newline>` here
                        let (s, v, a) = self.escape(false);
                        self.nonl = nonl;
                        self.out.extend_from_slice(&s);
                        cur.extend_from_slice(&v);
                        if a != 0 {
                            self.raw("g");
                            cur.push(b'g');
                        }
                    } else if !expand && k == 2 {
                        let s = *self.r.pick(&["\\n", "\\\\", "\\", "#{x}", "\\'", "#@a"]);
                        self.raw(s);
                        cur.extend_from_slice(s.as_bytes());
                    } else if k == 4 {
                        let s = *self.r.pick(&["# c", "'q'", "\"q\"", "`", "<<E", "=begin", "#1", "()"]);
                        self.raw(s);
                        cur.extend_from_slice(s.as_bytes());
                    } else if k == 9 && self.r.chance(1, 400) {
                        // a long line, its length (or that of the text) close to a round number
                        let have = if self.r.chance(2, 3) { self.out.len() - line_b } else { cur.len() };
                        let p = self.round_length();
                        let k = p.saturating_sub(have + self.r.below(3));
                        let s = "x".repeat(k.max(1));
                        self.raw(&s);
                        cur.extend_from_slice(s.as_bytes());
                        self.note("gen:long line in a heredoc");
                        if self.r.chance(2, 3) {
                            if !content {
                                width = width.min(col);
                                content = true;
                            }
                            break;
                        }
                    } else if k == 5 && content {
                        let s = *self.r.pick(&[" ", "  ", "\t"]);
                        self.raw(s);
                        cur.extend_from_slice(s.as_bytes());
                        continue;
                    } else {
                        let s = *self.r.pick(&["a", "bc", "é", "日本", "foo", "0", "-", "Zz"]);
                        self.raw(s);
                        cur.extend_from_slice(s.as_bytes());
                    }
                    if !content {
                        width = width.min(col);
                        content = true;
                    }
                }
            }
            if !content && self.r.chance(1, 6) && !id.contains(|c| c == '\\' || c == '#') {
                // nearly the terminator
                let s = match self.r.below(4) {
                    0 => format!("{} ", id),
                    1 => format!("{}z", id),
                    2 => format!("z{}", id),
                    _ => format!("{}.", id),
                };
                self.raw(&s);
                cur.extend_from_slice(s.as_bytes());
                width = width.min(col);
                content = true;
            } else if !content && ind.len() > 0 && !indent_mode && self.r.chance(1, 4) && !id.contains(|c| c == '\\' || c == '#') {
                self.raw(id);
                cur.extend_from_slice(id.as_bytes());
                content = true;
            }
            // a line must not look like the terminator
            let txt = String::from_utf8_lossy(&self.out[line_b..]).to_string();
            let txt = if indent_mode { txt.trim_start().to_string() } else { txt };
            if txt == id && !was_continued {
                self.raw("z");
                cur.push(b'z');
            }
            if expand && !blank && self.r.chance(1, 8) {
                // continuation: backslash-newline joins the lines
                self.raw("\\\n");
                continued = true;
                if indent_mode {
                    // the text before and after are separate parts
                    // (the location of the text before a continuation is not prescribed; its value is)
                    let v = std::mem::take(&mut cur);
                    parts.push(P { node: mk("Str", (cur_b, ANY.1), &[("value", vs(&v))]), bol: cur_bol });
                    cur_b = self.pos();
                    cur_bol = true;
                }
            } else {
                self.raw("\n");
                cur.push(b'\n');
                if squiggly && width > 0 {
                    flush!(self);
                    cur_bol = true;
                }
            }
            if squiggly && width == 0 {
                // no dedent can follow: lines are kept together from here on
            }
        }
        flush!(self);
        let _ = (cur_b, cur_bol);
        let end = self.pos();

        let body_l = if end == begin {
            ANY
        } else {
            let b = parts.iter().map(|p| p.node.e.0).min().unwrap();
            (b, end)
        };
        let mut out = vec![];
        for p in parts {
            let mut n = p.node;
            if squiggly && n.k == "Str" {
                let v = n.str("value").unwrap().to_vec();
                if width > 0 {
                    let v2 = if p.bol { dedent(&v, width) } else { v };
                    if v2.is_empty() {
                        continue;
                    }
                    n = mk("Str", n.e, &[("value", vs(&v2))]);
                }
            }
            out.push(n);
        }
        (out, body_l)
    }

    pub fn interpolation(&mut self) -> T {
        let (nonl, no_do, layout) = (self.nonl, self.ctx.no_do, self.layout);
        self.nonl = true;
        self.ctx.no_do = false;
        self.layout = self.layout.min(1);
        let d = self.ctx.depth;
        self.ctx.depth = d.min(2);
        let noin = self.ctx.noin;
        self.ctx.noin = false;
        let b = self.raw("#{");
        let st = match self.r.below(3) {
            0 => vec![],
            _ => vec![self.node("stmt", None)],
        };
        let e = self.raw("}");
        self.nonl = nonl;
        self.ctx.no_do = no_do;
        self.ctx.noin = noin;
        self.layout = layout;
        self.ctx.depth = d;
        mk("Begin", (b.0, e.1), &[("statements", V::List(st)), ("begin_l", vl(b)), ("end_l", vl(e))])
    }
}

/// Removes up to `width` columns of leading whitespace; a tab is never split.
pub fn dedent(v: &[u8], width: usize) -> Vec<u8> {
    let mut col = 0;
    let mut i = 0;
    while i < v.len() && col < width {
        match v[i] {
            b' ' => col += 1,
            b'\t' => {
                let n = (col / 8 + 1) * 8;
                if n > width {
                    break;
                }
                col = n;
            }
            _ => break,
        }
        i += 1;
    }
    v[i..].to_vec()
}
