//! C23: invalid programs are reported, at the right place; near misses are not.
use crate::check::W;
use crate::model::any_program;
use crate::tree::{Span, T, V};
use crate::util::*;
use std::sync::OnceLock;

/// One program fragment with what must be reported about it.
#[derive(Clone)]
pub struct Frag {
    pub kind: char, // e, s, t, z
    pub flags: String,
    /// None: valid
    pub msg: Option<String>,
    pub src: Vec<u8>,
    pub loc: Option<Span>,
    pub name: String,
}
struct Line {
    kind: String,
    msg: Option<String>,
    src: String,
}
fn lines() -> &'static Vec<Line> {
    static L: OnceLock<Vec<Line>> = OnceLock::new();
    L.get_or_init(|| read(include_str!("invalid.txt")))
}
fn warning_lines() -> &'static Vec<Line> {
    static L: OnceLock<Vec<Line>> = OnceLock::new();
    L.get_or_init(|| read(include_str!("warnings.txt")))
}
fn read(text: &str) -> Vec<Line> {
        text
            .lines()
            .filter(|l| !l.starts_with("//") && !l.is_empty())
            .map(|l| {
                let mut it = l.splitn(2, " | ");
                let kind = it.next().unwrap().to_string();
                let rest = it.next().unwrap();
                if kind.starts_with("ok") {
                    Line { kind, msg: None, src: rest.into() }
                } else {
                    let (m, s) = rest.split_once(" | ").unwrap_or_else(|| panic!("bad line {}", l));
                    Line { kind, msg: Some(m.into()), src: s.into() }
                }
            })
            .collect()
}
/// Picks alternatives, strips the marks, resolves escapes.
pub fn instance(text: &str, r: &mut Rng) -> (Vec<u8>, Option<Span>) {
    let mut s = String::new();
    let mut rest = text;
    while let Some(a) = rest.find('⟦') {
        let b = rest.find('⟧').unwrap();
        s.push_str(&rest[..a]);
        let alts: Vec<&str> = rest[a + '⟦'.len_utf8()..b].split('¦').collect();
        s.push_str(r.pick(&alts));
        rest = &rest[b + '⟧'.len_utf8()..];
    }
    s.push_str(rest);
    let (mut out, mut b, mut e) = (vec![], None, None);
    let mut it = s.chars().peekable();
    let mut buf = [0; 4];
    while let Some(c) = it.next() {
        match c {
            '«' => b = Some(out.len()),
            '»' => e = Some(out.len()),
            '⏎' => out.push(b'\n'),
            '\\' => match it.next() {
                Some('x') => {
                    let h: String = [it.next().unwrap(), it.next().unwrap()].iter().collect();
                    out.push(u8::from_str_radix(&h, 16).unwrap())
                }
                _ => out.push(b'\\'),
            },
            c => out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes()),
        }
    }
    (out, b.zip(e))
}

/// open, close, what it introduces (d def, c class, b block, S singleton class), expression only
const WRAPS: &[(&str, &str, char, bool)] = &[
    ("def mqw\n", "\nend", 'd', false),
    ("def self.mqw(wqa, wqb = 1)\n", "\nend", 'd', false),
    ("fqw do\n", "\nend", 'b', false),
    ("fqw 1 do\n1\n", "\nend", 'b', false),
    ("fqw { ", "\n}", 'b', false),
    ("-> {\n", "\n}", 'b', false),
    ("-> do ", " end", 'b', false),
    ("if aqw\n", "\nend", ' ', false),
    ("if aqw\n1\nelse ", "\nend", ' ', false),
    ("unless aqw then ", " end", ' ', false),
    ("while aqw do ", "\nend", ' ', false),
    ("until aqw\n", "\nend", ' ', false),
    ("begin\n", "\nrescue\nend", ' ', false),
    ("begin\nrescue Aqw => b\n", "\nend", ' ', false),
    ("begin\nensure\n", "\nend", ' ', false),
    ("case aqw\nwhen 1\n", "\nend", ' ', false),
    ("case aqw\nin 1 then ", "\nend", ' ', false),
    ("case\nwhen 1\nelse\n", "\nend", ' ', false),
    ("for aqw in b do\n", "\nend", ' ', false),
    ("\"a#{", "\n}\"", ' ', false),
    ("(", "\n)", ' ', false),
    ("(1; ", ")", ' ', false),
    ("class Kqw\n", "\nend", 'c', false),
    ("module Kqw; ", "\nend", 'c', false),
    ("class << self\n", "\nend", 'S', false),
    ("<<~EQW\n  a\n  #{", "\n}\n  EQW\n", ' ', false),
    ("fqw <<EQW, [#{1}]\n#{" , "\n}\nEQW", 'X', false),
    ("END {\n", "\n}", 'E', false),
    ("[1, ", ", 2]", ' ', true),
    ("fqw(1, ", ")", ' ', true),
    ("fqw(a: ", ")", ' ', true),
    ("vqw = ", "", ' ', true),
    ("@v ||= ", "", ' ', true),
    ("aqw ? (", ") : 1", ' ', true),
    ("{ a: ", ", b: 2 }", ' ', true),
    ("fqw[", "]", ' ', true),
    ("(", ") + 1", ' ', true),
    ("1 * (", ")", ' ', true),
    ("!(", ")", ' ', true),
    ("fqw(*(", "))", ' ', true),
    ("if (", ")\nend", ' ', true),
    ("while (", ")\nend", ' ', true),
    ("/a#{", "}/", ' ', true),
    (":\"#{", "}\"", ' ', true),
    ("`#{", "}`", ' ', true),
    ("%W[a#{", "} b]", ' ', true),
    ("aqw.b(", ")", ' ', true),
    ("aqw.b = (", ")", ' ', true),
    ("aqw&.b += (", ")", ' ', true),
    ("fqw (", "), 1", ' ', true),
    ("def mqw = (", ")", 'd', true),
    ("def mqw(wqa = (", ")); end", 'd', true),
    ("->(wqa = (", ")) {}", 'b', true),
    ("case (", ")\nwhen 1\nend", ' ', true),
    ("case 1\nwhen (", ")\nend", ' ', true),
    ("a, b = 1, (", ")", ' ', true),
    ("1 if (", ")", ' ', true),
    ("1 rescue (", ")", ' ', true),
    ("not (", ")", ' ', true),
    ("(", ") and 1", ' ', true),
];

/// Complete statements with scopes of their own: nothing of them is visible behind them.
const CLOSED: &[&str] = &[
    "def mqz(&) = fqz(&)",
    "def mqz(&)\nfqz(&)\nend",
    "def mqz(...) = fqz(...)",
    "def mqz(aqz, ...)\nfqz(1, ...)\nend",
    "def mqz(*, **, &); fqz(&); end",
    "def self.mqz(aqz, bqz = aqz, *cqz, dqz:, eqz: 1, **fqz, &gqz); return yield; end",
    "def mqz = yield(1)",
    "def mqz() = begin; return 1; end",
    "fqz { _1 + _2 }",
    "fqz { |aqz, (bqz, *cqz), dqz: 1| next }",
    "fqz do _1 end",
    "-> { _1 }",
    "->(aqz; bqz) { -> { _2 } }",
    "while aqz do break end",
    "for iqz in fqz do redo end",
    "begin; fqz; rescue; retry; end",
    "case 1; in {kqz: xqz, lqz:} then 1; end",
    "1 => [xqz, *]",
    "fqz(*aqz, **bqz, &cqz)",
    "undef mqz",
    "alias mqz nqz",
    "fqz <<~AQZ\n  a\n  AQZ\n",
    "class << self; def mqz(&) = fqz(&); end",
    "class << self; return; end",
    "\"#{fqz { _1 }}\"",
    "%w[a b]",
    "fqz aqz: 1 do end",
    "(yqz, zqz = 1, 2)",
    "p(-> do end)",
    "@aqz ||= begin 1 end",
    "$aqz = 1",
    "def -@; end",
    "def (aqz).mqz; super; end",
];

/// Puts the fragment into random surroundings. Returns the source and where the fragment begins.
pub fn embed(f: &Frag, r: &mut Rng) -> (Vec<u8>, usize, usize) {
    let mut src = vec![];
    if r.chance(2, 3) {
        src = any_program(r).src;
        src.extend_from_slice(b"\n");
        if f.flags.contains('r') && src.contains(&b'\r') {
            src.clear();
        }
    }
    let mut close: Vec<&str> = vec![];
    if f.kind != 't' && f.kind != 'z' {
        let (mut in_def, mut in_class) = (false, false);
        let mut expr = false; // the hole is an expression hole
        let n = r.below(4);
        let mut k = 0;
        let mut tries = 0;
        while k < n && tries < 40 {
            tries += 1;
            let w = r.pick(WRAPS);
            let statement = !w.3;
            // a statement-only wrapper (class, def with a body, for, ...) fits only in a statement hole
            if expr && (!matches!(w.0.as_bytes()[0], b'(' | b'[' | b'"' | b'{' | b'/' | b':' | b'`' | b'%') && !w.0.starts_with("fqw(") && !w.0.starts_with("fqw[") || w.1 == ") and 1") {
                continue;
            }
            if f.flags.contains('p') && w.0.contains(|c| matches!(c, '(' | '[' | '{')) {
                continue;
            }
            if w.2 == 'X' || expr && w.0.starts_with("<<") {
                continue;
            }
            let last = k + 1 == n;
            if w.3 && (last && f.kind != 'e' || f.flags.contains('v')) {
                continue;
            }
            match w.2 {
                'd' if f.flags.contains('d') => continue,
                'c' if in_def || f.flags.contains('c') => continue,
                'b' if f.flags.contains('b') => continue,
                'S' | 'c' if f.flags.contains('b') => continue,
                'E' if in_def => continue,
                _ => {}
            }
            match w.2 {
                'd' => in_def = true,
                'c' => in_class = true,
                'S' => {
                    in_def = false;
                    in_class = false
                }
                _ => {}
            }
            let _ = in_class;
            src.extend_from_slice(w.0.as_bytes());
            close.push(w.1);
            if statement && !f.flags.contains('p') && r.chance(1, 3) {
                src.extend_from_slice(r.pick(CLOSED).as_bytes());
                src.extend_from_slice(r.pick(&["\n", "; "]).as_bytes());
            }
            expr = !statement && !(w.0.ends_with(" (") && w.0 != "not (" && w.0 != "fqw (" || w.0.ends_with("#{") || w.0.ends_with("((") || w.0 == "(" || w.0 == "!(");
            k += 1;
        }
        if f.kind != 'e' && expr && !f.flags.contains('p') {
            src.extend_from_slice(b"(");
            close.push(")");
        }
    }
    let b = src.len();
    src.extend_from_slice(&f.src);
    let e = src.len();
    if f.kind != 'z' {
        for c in close.iter().rev() {
            src.extend_from_slice(c.as_bytes());
        }
        if r.chance(1, 3) {
            src.extend_from_slice(b"\n");
            src.extend_from_slice(&any_program(r).src);
        }
    }
    (src, b, e)
}

// ---- cross products
const VOIDS: &[&str] = &[
    "(«⟦return¦break¦next¦redo¦retry⟧»)",
    "(«⟦return 1¦break 2¦next a, b⟧»)",
    "begin; «⟦return¦break¦next⟧»; end",
    "(1; «⟦return¦redo⟧»)",
    "(aqv ? «(return)» : (break))",
    "(if aqv; «return»; else; «break»; end)",
    "(if aqv; «next 1»; elsif b; return; else; break; end)",
    "(«return» ⟦and¦or⟧ 1)",
    "(«return» ⟦&&¦||⟧ 1)",
    "begin; 1; («break»); end",
    "((«return»))",
    "(«return» => aqv)",
];
const NOVOIDS: &[&str] = &[
    "(return if aqv)",
    "(1 and return)",
    "(aqv || (return))",
    "(aqv ? (return) : 1)",
    "(if aqv; return; end)",
    "(if aqv; return; else; 1; end)",
    "(unless aqv; 1; else; return; end)",
    "(return; 1)",
    "(break while aqv)",
    "(while aqv; break; end)",
    "(fqv { next })",
    "(-> { return 1 })",
    "(\"#{return}\")",
    "(case aqv; when 1; return; else; 2; end)",
    "(begin; 1; ensure; return; end)",
    "(defined?(return))",
];
const HOLES: &[(&str, &str)] = &[
    ("s", "vqv = @"),
    ("s", "vqv += @"),
    ("s", "vqv ||= @"),
    ("s", "@v = @"),
    ("s", "$v &&= @"),
    ("sd", "Vqv = @"),
    ("s", "aqv.b = @"),
    ("s", "aqv[1] = @"),
    ("s", "aqv[@] = 1"),
    ("s", "aqv.b += @"),
    ("s", "a, b = @"),
    ("s", "a, b = 1, @"),
    ("s", "a, b = *@"),
    ("s", "*a = @, 1"),
    ("s", "vqv = @ rescue 1"),
    ("s", "vqv = [@]"),
    ("e", "fqv(@)"),
    ("e", "fqv(1, @)"),
    ("e", "fqv(*@)"),
    ("e", "fqv(**@)"),
    ("e", "fqv(&@)"),
    ("e", "fqv(a: @)"),
    ("e", "fqv(@ => 1)"),
    ("s", "fqv 1, @"),
    ("s", "fqv a: @"),
    ("e", "aqv.f(@)"),
    ("e", "super(@)"),
    ("e", "[@]"),
    ("e", "[1, *@]"),
    ("e", "{a: @}"),
    ("e", "{@ => 1}"),
    ("e", "{**@}"),
    ("e", "fqv[@]"),
    ("e", "@.foo"),
    ("e", "@&.foo(1)"),
    ("e", "@.foo { }"),
    ("e", "@[1]"),
    ("e", "@ + 1"),
    ("e", "1 + @"),
    ("e", "@ <=> 1"),
    ("e", "1 ** @"),
    ("e", "@ << 1"),
    ("e", "@ > 1"),
    ("e", "1 <= @"),
    ("e", "@ == 1"),
    ("e", "@ != 1"),
    ("e", "1 =~ @"),
    ("e", "/a/ =~ @"),
    ("e", "-@"),
    ("e", "!@"),
    ("e", "~@"),
    ("s", "not !@"),
    ("e", "@ && 1"),
    ("e", "@ || 1"),
    ("s", "@ and 1"),
    ("s", "@ or 1"),
    ("e", "@ ? 1 : 2"),
    ("e", "(@..1)"),
    ("e", "(1..@)"),
    ("e", "(@...2)"),
    ("e", "(..@)"),
    ("s", "if @; end"),
    ("s", "if a; elsif @; end"),
    ("s", "unless @; end"),
    ("s", "while @; end"),
    ("s", "until @ do end"),
    ("s", "1 if @"),
    ("s", "1 unless @"),
    ("s", "1 while @"),
    ("s", "1 until @"),
    ("s", "case @; when 1; end"),
    ("s", "case @; in 1; end"),
    ("s", "case 1; when @; end"),
    ("s", "case 1; when 2, *@; end"),
    ("s", "case 1; in a if @; end"),
    ("s", "for a in @; end"),
    ("sd", "class Kqv < @; end"),
    ("s", "def mqv(hqa = @); end"),
    ("s", "def mqv(hqa: @); end"),
    ("e", "->(hqa = @) {}"),
    ("e", "fqv { |hqa = @| }"),
    ("s", "begin; rescue @; end"),
    ("s", "begin; rescue *@; end"),
    ("scv", "return @"),
    ("sv", "break 1, @"),
    ("s", "@ => a"),
    ("s", "@ in a"),
    ("s", "def mqv; yield(@); end"),
    ("s", "def mqv; yield 1, @; end"),
    ("s", "def (@).mqv; end"),
    ("s", "@.a += 1"),
    ("s", "@[1] ||= 1"),
    ("s", "@::A.b"),
    ("s", "a, @.b = 1"),
];
const TARGETS: &[(&str, &str)] = &[
    ("self", "CantAssignToSelf"),
    ("nil", "CantAssignToNil"),
    ("true", "CantAssignToTrue"),
    ("false", "CantAssignToFalse"),
    ("__FILE__", "CantAssignToFile"),
    ("__LINE__", "CantAssignToLine"),
    ("__ENCODING__", "CantAssignToEncoding"),
    ("$1", "CantSetVariable { var_name: \"$1\" }"),
    ("$42", "CantSetVariable { var_name: \"$42\" }"),
    ("$&", "CantSetVariable { var_name: \"$&\" }"),
    ("$`", "CantSetVariable { var_name: \"$`\" }"),
    ("$'", "CantSetVariable { var_name: \"$'\" }"),
    ("$+", "CantSetVariable { var_name: \"$+\" }"),
];
const ASSIGN: &[(&str, bool)] = &[
    ("@ = 1", true),
    ("@ = foo 1", true),
    ("@ = 1, 2", true),
    ("@ = 1 rescue 2", true),
    ("@ += 1", true),
    ("@ ||= 1", true),
    ("@ &&= foo 1", true),
    ("@, b = 1, 2", true),
    ("a, @ = 1", true),
    ("a, *@ = 1", true),
    ("*@ = 1", true),
    ("*a, @ = 1", true),
    ("*, @ = 1", true),
    ("a, (b, @), c = 1", true),
    ("(@, a), b = 1", true),
    ("a = @ = 1", true),
    ("for @ in b do end", true),
    ("for a, @ in b do end", true),
    ("begin; rescue => @; end", true),
    ("begin; rescue A, B => @; end", true),
];

fn fill(h: &str, x: &str) -> String {
    // the hole is the `@` that is not part of a variable
    let b = h.as_bytes();
    let i = (0..b.len())
        .find(|i| b[*i] == b'@' && !b.get(i + 1).map_or(false, |c| c.is_ascii_lowercase()))
        .unwrap();
    format!("{}{}{}", &h[..i], x, &h[i + 1..])
}
fn kind_of(k: &str) -> (char, String) {
    (k.chars().next().unwrap(), k[1..].to_string())
}

/// Parameter lists with one name used twice.
fn dup_params(r: &mut Rng) -> Frag {
    let block = r.chance(1, 2);
    // slots in order: required, nested, optional, rest, post, keywords, keyword rest, block, shadow
    let kinds = ["req", "nest", "opt", "rest", "post", "kw", "kwopt", "kwrest", "blk", "shadow"];
    let mut chosen: Vec<&str> = vec![];
    while chosen.len() < 2 {
        chosen.clear();
        for k in kinds {
            if k == "shadow" && !block {
                continue;
            }
            let n = match k {
                "req" | "opt" | "kw" | "shadow" => r.below(3),
                "nest" => r.below(2),
                "kwopt" => r.below(2),
                "post" => {
                    if chosen.contains(&"opt") || chosen.contains(&"rest") {
                        r.below(2)
                    } else {
                        0
                    }
                }
                _ => r.below(2),
            };
            for _ in 0..n {
                chosen.push(k);
            }
        }
    }
    let valid = r.chance(1, 3);
    let i = r.below(chosen.len() - 1);
    let j = i + 1 + r.below(chosen.len() - 1 - i);
    let dup = if valid { *r.pick(&["_", "_aqz", "__"]) } else { *r.pick(&["aqz", "é", "a_", "zz_1", "a_qz"]) };
    let distinct = valid && r.chance(1, 3);
    let mut s = String::new();
    let mut shadow = false;
    for (n, k) in chosen.iter().enumerate() {
        if n > 0 && !(*k == "shadow" && !shadow) {
            s.push_str(", ");
        }
        let name = if n == i || n == j { dup.to_string() } else { format!("p{}", n) };
        let name = if distinct && n == j { format!("{}x", name) } else { name };
        let kwname = n == j && matches!(*k, "kw" | "kwopt");
        let m = if n == j && !valid && !kwname { format!("«{}»", name) } else { name.clone() };
        let m2 = if n == j && !valid { format!("«{}»", name) } else { name };
        match *k {
            "req" | "post" => s.push_str(&m),
            "nest" => s.push_str(&match r.below(3) {
                0 => format!("(m{}, {})", n, m),
                1 => format!("({}, *)", m),
                _ => format!("(*, (n{}, {}))", n, m),
            }),
            "opt" => s.push_str(&format!("{} = 1", m)),
            "rest" => s.push_str(&format!("*{}", m)),
            "kw" => s.push_str(&format!("{}:", m2)),
            "kwopt" => s.push_str(&format!("{}: 1", m2)),
            "kwrest" => s.push_str(&format!("**{}", m)),
            "blk" => s.push_str(&format!("&{}", m)),
            _ => {
                if !shadow {
                    s.push_str("; ");
                    shadow = true;
                }
                s.push_str(&m)
            }
        }
    }
    let (text, kind) = if block {
        match r.below(4) {
            0 => (format!("fqz {{ |{}| 1 }}", s), 'e'),
            1 => (format!("fqz 1 do |{}| end", s), 's'),
            2 => (format!("->({}) {{}}", s), 'e'),
            _ => (format!("-> ({}) do end", s), 'e'),
        }
    } else {
        match r.below(4) {
            0 => (format!("def mqz({}); end", s), 's'),
            1 if !s.starts_with("(") => (format!("def mqz {}\nend", s), 's'),
            2 => (format!("def self.mqz({}) = 1", s), 's'),
            _ => (format!("def mqz({})\n 1\nend", s), 's'),
        }
    };
    let (src, loc) = instance(&text, r);
    Frag { kind, flags: String::new(), msg: if valid { None } else { Some("DuplicatedArgumentName".into()) }, src, loc, name: "parameters".into() }
}

// ---- generated rules
/// An expression: its text, the part that makes it void, and the first part reported when it is parsed.
#[derive(Clone)]
struct Val {
    s: String,
    void: Option<Span>,
    err: Option<Span>,
}
fn shift(s: Option<Span>, n: usize) -> Option<Span> {
    s.map(|x| (x.0 + n, x.1 + n))
}
/// In parentheses, unless it is already a bracketed expression.
fn parens(v: Val) -> Val {
    if v.s.starts_with('(') {
        return v;
    }
    Val { s: format!("({})", v.s), void: shift(v.void, 1), err: shift(v.err, 1) }
}
fn value(r: &mut Rng, d: usize) -> Val {
    if d == 0 || r.chance(1, 6) {
        if r.chance(1, 2) {
            let s = r.pick(&["return", "break", "next", "redo", "retry", "return 1", "break aqv", "next aqv, 2", "return [1]"]).to_string();
            let n = s.len();
            return Val { s, void: Some((0, n)), err: None };
        }
        let s = r.pick(&["1", "aqv", "fqv(1)", "(fqv { next })", "(-> { return })", "(\"#{return}\")", "(while aqv; break; end)", "nil"]).to_string();
        return Val { s, void: None, err: None };
    }
    let a = value(r, d - 1);
    let b = value(r, d - 1);
    // one hole / two holes
    let one = |t: &str, x: Val, checks: bool, keeps: bool| {
        let (p, q) = t.split_once('@').unwrap();
        let (void, err) = (shift(x.void, p.len()), shift(x.err, p.len()));
        Val { s: format!("{}{}{}", p, x.s, q), void: if keeps { void } else { None }, err: err.or(if checks { void } else { None }) }
    };
    let two = |t: &str, x: Val, y: Val| {
        let (p, rest) = t.split_once('@').unwrap();
        let (m, q) = rest.split_once('@').unwrap();
        let at = p.len() + x.s.len() + m.len();
        let whole = (p.len(), p.len() + x.s.len());
        let s = format!("{}{}{}{}{}", p, x.s, m, y.s, q);
        (s, shift(x.void, p.len()), shift(x.err, p.len()), shift(y.void, at), shift(y.err, at), whole)
    };
    match r.below(12) {
        0 | 1 => {
            let t = *r.pick(&["(@; @)", "(@\n@)", "begin; @; @; end", "(1; @; @)", "begin; 1\n@\n@\nend"]);
            let (s, _, ae, bv, be, _) = two(t, a, b);
            let v = Val { s, void: bv, err: ae.or(be) };
            if v.s.starts_with('b') && r.chance(1, 2) { parens(v) } else { v }
        }
        2 | 3 => {
            let (t, p) = *r.pick(&[("(@ and @)", false), ("(@ or @)", false), ("(@ && @)", true), ("(@ || @)", true)]);
            let (a, b) = if p { (parens(a), parens(b)) } else { (a, b) };
            let (s, av, ae, _, be, _) = two(t, a, b);
            Val { s, void: av, err: ae.or(be).or(av) }
        }
        4 => {
            let (a, b) = (parens(a), parens(b));
            let (s, av, ae, bv, be, whole) = two("(aqv ? @ : @)", a, b);
            Val { s, void: av.and(bv).map(|_| whole), err: ae.or(be) }
        }
        5 => {
            let t = *r.pick(&["(if aqv; @; else; @; end)", "(if aqv then @ else @ end)", "(if aqv\n@\nelse\n@\nend)"]);
            let (s, av, ae, bv, be, whole) = two(t, a, b);
            Val { s, void: av.and(bv).map(|_| whole), err: ae.or(be) }
        }
        6 => {
            let t = *r.pick(&["(if aqv; @; end)", "(unless aqv; @; end)", "(while aqv; @; end)", "(@ if aqv)", "(@ unless aqv)", "(@ while aqv)", "(if aqv; 1; elsif bqv; @; end)", "(for xqv in bqv do @ end)", "(fqv { @ })", "(-> { @ })", "(fqv do @ end)", "(defined?((@)))", "(\"a#{@}\")", "(case aqv; in 1 then @; end)"]);
            one(t, a, false, false)
        }
        7 => {
            let t = *r.pick(&["(begin; @; rescue; @; end)", "(begin; @; ensure; @; end)", "(case aqv; when 1; @; else; @; end)", "(case aqv; in 1; @; else; @; end)", "(begin; @; rescue; 1; else; @; end)"]);
            let (s, _, ae, _, be, _) = two(t, a, b);
            Val { s, void: None, err: ae.or(be) }
        }
        8 => {
            let t = *r.pick(&["(fqv(@))", "([1, @])", "(1 + @)", "(!@)", "(xqv = @)", "(@.foo)", "(fqv 1, @)", "({a: @})", "(if @; 1; end)", "(1 while @)", "(case @; when 1; end)", "(@[0])", "(@ ? 1 : 2)", "(-@)", "(fqv(*@))", "(@iqv ||= @)"]);
            let t = if t.starts_with("(@iqv") { "($gqv ||= @)" } else { t };
            one(t, parens(a), true, false)
        }
        9 => one(*r.pick(&["(@ => [xqv])", "(@ in {kqv: 1})"]), parens(a), true, true),
        10 => one("(@)", parens(a), false, true),
        _ => value(r, d - 1),
    }
}
/// A void value (or none) somewhere inside of an expression that needs values here and there.
fn void_nested(r: &mut Rng) -> Frag {
    let (k, h) = r.pick(HOLES);
    let (kind, mut flags) = kind_of(k);
    let d = r.range(1, 4);
    let v = parens(value(r, d));
    if v.s.contains("return") || h.contains("return") {
        flags.push('c');
    }
    let whole = fill(h, &v.s);
    let at = whole.find(&v.s).unwrap();
    let loc = shift(v.err.or(v.void), at);
    Frag { kind, flags, msg: loc.map(|_| "VoidValueExpression".into()), src: whole.into_bytes(), loc, name: format!("void value in {}", h) }
}

struct Num {
    hard: bool,
    ordinary: bool,
    used: bool,
    names: Vec<usize>,
    /// an inner block has used some: nothing new here
    closed: bool,
}
/// Blocks in blocks with numbered parameters.
fn numbered(r: &mut Rng) -> Frag {
    fn body(r: &mut Rng, d: usize, out: &mut String, env: &mut Vec<Num>, err: &mut Option<(String, Span)>) {
        let n = r.range(1, 3);
        for i in 0..n {
            if i > 0 {
                out.push_str(r.pick(&["; ", "\n"]));
            }
            match r.below(if d == 0 { 4 } else { 7 }) {
                0 => out.push('1'),
                1 | 2 => {
                    let m = if r.chance(1, 3) { 9 } else { 3 };
                    let k = r.range(1, m);
                    let top = env.len() - 1;
                    let first = (0..=top).rev().find(|i| env[*i].hard).map_or(0, |i| i);
                    let known = (first..=top).any(|i| env[i].names.contains(&k));
                    if !known && env[top].closed {
                        out.push('2');
                        continue;
                    }
                    let b = out.len();
                    out.push_str(&format!("_{}", k));
                    let at = (b, out.len());
                    if !known && !env[top].hard {
                        let mut e = None;
                        if env[top].ordinary {
                            e = Some("OrdinaryParamDefined");
                        } else if (first..top).any(|i| env[i].used) {
                            e = Some("NumparamUsed");
                        }
                        if let Some(e) = e {
                            err.get_or_insert((e.to_string(), at));
                        }
                        env[top].used = true;
                        env[top].names.push(k);
                        for i in first..top {
                            env[i].closed = true;
                        }
                    }
                    if r.chance(1, 3) {
                        out.push_str(r.pick(&[" + 1", ".foo", "[0]"]));
                    }
                }
                3 => {
                    if !r.chance(1, 6) {
                        out.push_str("aqv");
                        continue;
                    }
                    let k = r.range(1, 9);
                    let top = env.len() - 1;
                    let b = out.len();
                    out.push_str(&format!("_{}", k));
                    let at = (b, out.len());
                    out.push_str(r.pick(&[" = 1", ", zqv = 1", " += 2", " ||= 3"]));
                    let e = if env[top].used { "CantAssignToNumparam" } else { "ReservedForNumparam" };
                    err.get_or_insert((e.to_string(), at));
                }
                4 | 5 => {
                    let (a, z, ord) = *r.pick(&[
                        ("fqv { ", " }", false),
                        ("fqv { |zqv| ", " }", true),
                        ("-> { ", " }", false),
                        ("->(zqv) { ", " }", true),
                        ("fqv do ", " end", false),
                        ("fqv do |zqv, *| ", " end", true),
                        ("-> zqv do ", " end", true),
                        ("aqv.each { |(yqv, zqv)| ", " }", true),
                        ("fqv(1) { |zqv = 2, &xqv| ", " }", true),
                        ("fqv { |;sqv| ", " }", true),
                        ("fqv { || ", " }", true),
                        ("->() { ", " }", true),
                        ("super { ", " }", false),
                        ("fqv 1 do ", " end", false),
                    ]);
                    out.push_str(a);
                    env.push(Num { hard: false, ordinary: ord, used: false, names: vec![], closed: false });
                    body(r, d - 1, out, env, err);
                    env.pop();
                    out.push_str(z);
                }
                _ => {
                    let (a, z) = *r.pick(&[("def mqv; ", "; end"), ("class << self; ", "; end"), ("def self.mqv(zqv)\n", "\nend")]);
                    out.push_str(a);
                    env.push(Num { hard: true, ordinary: false, used: false, names: vec![], closed: false });
                    body(r, d - 1, out, env, err);
                    env.pop();
                    out.push_str(z);
                }
            }
        }
    }
    let mut out = String::new();
    let mut err = None;
    let mut env = vec![Num { hard: true, ordinary: false, used: false, names: vec![], closed: false }];
    env.push(Num { hard: false, ordinary: false, used: false, names: vec![], closed: false });
    out.push_str("fqv { ");
    let d = r.range(1, 4);
    body(r, d, &mut out, &mut env, &mut err);
    out.push_str(" }");
    let (msg, loc) = match err {
        Some((m, l)) => (Some(m), Some(l)),
        None => (None, None),
    };
    Frag { kind: 's', flags: String::new(), msg, src: out.into_bytes(), loc, name: "numbered parameters".into() }
}

/// `...` behind parameters of every kind.
fn forward(r: &mut Rng) -> Frag {
    let mut v: Vec<String> = vec![];
    for i in 0..r.below(3) {
        v.push(if r.chance(1, 4) { format!("(q{}, *p{})", i, i) } else { format!("a{}", i) });
    }
    let opts = r.below(3);
    for i in 0..opts {
        v.push(format!("o{} = {}", i, r.pick(&["1", "[]", "{}", "a"])));
    }
    let rest = r.chance(1, 2);
    if rest {
        v.push(r.pick(&["*r", "*"]).to_string());
    }
    if rest || opts > 0 {
        for i in 0..r.below(3) {
            v.push(if r.chance(1, 4) { format!("(s{}, t{})", i, i) } else { format!("z{}", i) });
        }
    }
    v.push("«...»".into());
    let list = v.join(", ");
    let t = r.pick(&["def mqz(@); end", "def mqz(@) = fqz(...)", "def self.mqz(@)\nfqz(1, ...)\nend", "def mqz(@); fqz { aqv }; end"]).replace('@', &list);
    let (src, loc) = instance(&t, r);
    Frag { kind: 's', flags: String::new(), msg: if rest { Some("ForwardArgAfterRestarg".into()) } else { None }, src, loc, name: "forwarding".into() }
}

fn catalog(l: &Line, k: usize, r: &mut Rng) -> Frag {
    let (src, loc) = instance(&l.src, r);
    if let Some(m) = &l.msg {
        let (kind, flags) = kind_of(&l.kind);
        Frag { kind, flags, msg: Some(m.clone()), src, loc, name: format!("line {}", k) }
    } else {
        let flags = l.kind[2..].to_string();
        Frag { kind: if flags.contains('t') { 't' } else { 's' }, flags, msg: None, src, loc: None, name: format!("line {}", k) }
    }
}
pub fn frag(r: &mut Rng, i: u64) -> Frag {
    let ls = lines();
    match i % 8 {
        0..=2 => {
            let k = (i / 8 * 3 + i % 8) as usize % ls.len();
            catalog(&ls[k], k, r)
        }
        3 => {
            let (k, h) = r.pick(HOLES);
            let (kind, mut flags) = kind_of(k);
            let ok = r.chance(1, 3);
            let v = if ok { *r.pick(NOVOIDS) } else { *r.pick(VOIDS) };
            if v.contains("return") || h.contains("return") {
                flags.push('c');
            }
            let v = if v.matches('«').count() > 1 { v.replacen("«break»", "break", 1) } else { v.into() };
            let (src, loc) = instance(&fill(h, &v), r);
            Frag { kind, flags, msg: if ok { None } else { Some("VoidValueExpression".into()) }, src, loc, name: format!("void in {}", h) }
        }
        4 => {
            let (t, m) = r.pick(TARGETS);
            let (h, _) = r.pick(ASSIGN);
            let (src, loc) = instance(&fill(h, &format!("«{}»", t)), r);
            Frag { kind: 's', flags: String::new(), msg: Some(m.to_string()), src, loc, name: format!("{} in {}", t, h) }
        }
        5 => match r.below(4) {
            0 => forward(r),
            _ => dup_params(r),
        },
        6 => numbered(r),
        _ => void_nested(r),
    }
}

pub fn c23(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    let f = frag(&mut r, i);
    let (src, b, e) = embed(&f, &mut r);
    w.feed(&src);
    let res = parse(&src);
    let mut bad = None;
    match (&f.msg, &res) {
        (_, Err((m, l))) => bad = Some(format!("parser panicked: {} at {}", m, l)),
        (None, Ok(x)) => {
            if let Some(d) = x.errors().first() {
                bad = Some(format!("valid program rejected: {} at {}..{} ({})", d.text, d.loc.0, d.loc.1, f.name));
            }
            w.note("valid near miss judged");
        }
        (Some(m), Ok(x)) => {
            match x.errors().first() {
                None => bad = Some(format!("invalid program accepted, expected {} ({})", m, f.name)),
                Some(d) => {
                    if m != "*" && !d.msg.starts_with(m.as_str()) {
                        bad = Some(format!("reported as {} at {}..{}, expected {} ({})", d.msg, d.loc.0, d.loc.1, m, f.name));
                    } else if let Some(l) = f.loc {
                        if d.loc != (l.0 + b, l.1 + b) {
                            bad = Some(format!("{} reported at {}..{}, expected {}..{} ({})", d.msg, d.loc.0, d.loc.1, l.0 + b, l.1 + b, f.name));
                        }
                    } else if d.loc.0 + 1 < b {
                        bad = Some(format!("{} reported at {}..{}, but the invalid part is {}..{} ({})", d.msg, d.loc.0, d.loc.1, b, e, f.name));
                    }
                    w.note(&format!("reported {}", d.msg.split(' ').next().unwrap_or("")));
                }
            }
            w.note("invalid program judged");
        }
    }
    if let Some(m) = bad {
        w.fail(m, &src);
    }
    w.done(&src, true);
}

// ---- C28: warnings
const RELOP: &[&[u8]] = &[b"<", b">", b"<=", b">="];
fn relop(t: &T) -> bool {
    t.k == "Send" && t.loc("dot_l").is_none() && t.list("args").len() == 1 && t.str("method_name").map_or(false, |m| RELOP.contains(&m)) && t.node("recv").is_some()
}
fn same_key(a: &T, b: &T) -> bool {
    if a.k != b.k {
        return false;
    }
    match a.k {
        "Sym" | "Str" => a.str(if a.k == "Sym" { "name" } else { "value" }) == b.str(if a.k == "Sym" { "name" } else { "value" }),
        "Int" | "Float" | "Rational" | "Complex" => a.str("value") == b.str("value"),
        "Regexp" => {
            let o = |t: &T| t.node("options").and_then(|o| o.str("options").map(|x| x.to_vec()));
            o(a) == o(b) && a.list("parts").len() == b.list("parts").len() && a.list("parts").iter().zip(b.list("parts")).all(|(x, y)| same_key(x, y))
        }
        _ => false,
    }
}
/// Warnings that follow from the tree alone.
fn tree_warnings(t: &T, in_def: bool, out: &mut Vec<(&'static str, Span)>) {
    match t.k {
        "Hash" | "Kwargs" => {
            let keys: Vec<&T> = t.list("pairs").iter().filter(|p| p.k == "Pair").filter_map(|p| p.node("key")).collect();
            for j in 1..keys.len() {
                if (0..j).any(|i| same_key(keys[i], keys[j])) {
                    out.push(("DuplicateHashKey", keys[j].e));
                }
            }
        }
        "Send" if relop(t) && relop(t.node("recv").unwrap()) => out.push(("ComparisonAfterComparison", t.loc("selector_l").unwrap_or(t.e))),
        "Postexe" if in_def => out.push(("EndInMethod", t.loc("keyword_l").unwrap_or(t.e))),
        "NthRef" => {
            let n = t.str("name").unwrap_or(b"");
            if n.len() > 10 || std::str::from_utf8(n).ok().and_then(|n| n.parse::<u64>().ok()).map_or(true, |n| n >= 1 << 30) {
                out.push(("NthRefIsTooBig", t.e));
            }
        }
        _ => {}
    }
    for (n, v) in &t.f {
        let d = match (t.k, *n) {
            ("Def", _) | ("Defs", "args" | "body") => true,
            ("Class" | "Module" | "SClass", "body") => false,
            _ => in_def,
        };
        match v {
            V::Node(Some(x)) => tree_warnings(x, d, out),
            V::List(l) => l.iter().for_each(|x| tree_warnings(x, d, out)),
            _ => {}
        }
    }
}
const TREE_KINDS: &[&str] = &[
    "DuplicateHashKey",
    "ComparisonAfterComparison",
    "EndInMethod",
    "NthRefIsTooBig",
    "AmbiguousOperator",
    "AmbiguousFirstArgument",
    "AmbiguousRegexp",
    "StarInterpretedAsArgPrefix",
    "DStarInterpretedAsArgPrefix",
    "AmpersandInterpretedAsArgPrefix",
    "ParenthesesIterpretedAsArglist",
    "TokAtEolWithoutExpression",
];
fn blank(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c)
}
/// Warnings that follow from the tree and from the blanks around its operators.
fn text_warnings(t: &T, src: &[u8], toks: &std::collections::HashMap<Span, bool>, out: &mut Vec<(&'static str, Span)>) {
    let at = |i: usize| src.get(i).copied().unwrap_or(b'\n');
    let before = |l: Span| l.0 > 0 && blank(at(l.0 - 1));
    // an operator with a blank in front and none behind; not behind `)`
    let mut balance = |l: Span| {
        if before(l) && !blank(at(l.1)) && toks.get(&l) == Some(&false) {
            out.push(("AmbiguousOperator", l));
        }
    };
    match t.k {
        "Send" if t.loc("dot_l").is_none() && t.node("recv").is_some() && t.list("args").len() == 1 && t.loc("begin_l").is_none() && t.loc("operator_l").is_none() => {
            if let (Some(m), Some(l)) = (t.str("method_name"), t.loc("selector_l")) {
                if [&b"*"[..], b"**", b"&", b"<<", b"+", b"-", b"/", b"%"].contains(&m) {
                    balance(l);
                }
            }
        }
        "IfTernary" => {
            if let Some(l) = t.loc("colon_l") {
                balance(l);
            }
        }
        _ => {}
    }
    // the first argument of a command
    let first: Option<(Span, usize)> = match t.k {
        "Send" | "CSend" if t.loc("begin_l").is_none() && t.loc("operator_l").is_none() && (t.loc("dot_l").is_some() || t.node("recv").is_none()) => {
            t.list("args").first().and_then(|a| t.loc("selector_l").map(|l| (l, a.e.0)))
        }
        "Send" if t.str("method_name") == Some(b"!") && t.loc("begin_l").is_none() => match (t.loc("selector_l"), t.node("recv")) {
            (Some(l), Some(x)) if l.1 - l.0 == 3 => Some((l, x.e.0)),
            _ => None,
        },
        "Super" | "Yield" if t.loc("begin_l").is_none() => t.list("args").first().and_then(|a| t.loc("keyword_l").map(|l| (l, a.e.0))),
        "Defined" if t.loc("begin_l").is_none() => t.node("value").and_then(|a| t.loc("keyword_l").map(|l| (l, a.e.0))),
        _ => None,
    };
    if let Some((l, p)) = first {
        if l.1 < p && src[l.1..p].iter().all(|c| blank(*c) || *c == b'\\') {
            match at(p) {
                b'-' if at(p + 1) == b'>' => {}
                b'-' | b'+' => out.push(("AmbiguousFirstArgument", (p, p + 1))),
                b'*' if at(p + 1) == b'*' => out.push(("DStarInterpretedAsArgPrefix", (p, p + 2))),
                b'*' => out.push(("StarInterpretedAsArgPrefix", (p, p + 1))),
                b'/' => out.push(("AmbiguousRegexp", (p, p + 1))),
                b'&' => {
                    let c = at(p + 2);
                    if !(at(p + 1) == b':' && (c == b'\'' || c == b'"' || c == b'_' || c.is_ascii_alphanumeric() || c >= 128)) {
                        out.push(("AmpersandInterpretedAsArgPrefix", (p, p + 1)));
                    }
                }
                _ => {}
            }
        }
    }
    if t.k == "Def" || t.k == "Defs" {
        if let Some(l) = t.node("args").and_then(|a| a.loc("begin_l")) {
            if before(l) {
                out.push(("ParenthesesIterpretedAsArglist", l));
            }
        }
    }
    if t.k == "If" {
        if let Some(l) = t.loc("keyword_l") {
            let word = &src[l.0..l.1];
            if word == b"if" || word == b"elsif" {
                let rest = src[l.1..].iter().find(|c| **c == b'\n' || !blank(**c));
                if rest.map_or(true, |c| *c == b'\n' || *c == b'#') {
                    out.push(("TokAtEolWithoutExpression", l));
                }
            }
        }
    }
    for (_, v) in &t.f {
        match v {
            V::Node(Some(x)) => text_warnings(x, src, toks, out),
            V::List(l) => l.iter().for_each(|x| text_warnings(x, src, toks, out)),
            _ => {}
        }
    }
}
/// A hash (or keyword arguments) whose keys repeat at any distance.
fn many_pairs(r: &mut Rng) -> Vec<u8> {
    let (a, z) = *r.pick(&[("v = {", "}"), ("fooqz(", ")"), ("fooqz ", ""), ("[", "]"), ("fooqz[", "]"), ("def m; fooqz(1, ", "); end"), ("a.b { {", "} }"), ("-> { super(", ") }"), ("x ? {", "} : 1"), ("yield({", "})"), ("foo {|a = {", "}| }")]);
    let n = r.range(2, 34);
    let most = r.range(2, 60);
    let keys: Vec<String> = (0..n)
        .map(|_| {
            let k = r.below(most);
            match r.below(14) {
                0..=4 => format!("k{}: ", k),
                5 => format!(":k{} => ", k),
                6 => format!("\"k{}\": ", k),
                7 => format!("\"k{}\" => ", k),
                8 => format!("{}{} => ", r.pick(&["", "-"]), k),
                9 => format!("{}{}.5 => ", r.pick(&["", "-", "+"]), k),
                10 => format!("/k{}/{} => ", k, r.pick(&["", "i", "m", "im", "mi"])),
                11 => format!("v{} => ", k),
                12 => format!("'k{}' => ", k),
                _ => format!("{}{}{} => ", r.pick(&["", "-"]), k, r.pick(&["r", "i", "ri"])),
            }
        })
        .collect();
    let mut o = a.to_string();
    for (i, k) in keys.iter().enumerate() {
        if i > 0 {
            o.push_str(r.pick(&[", ", ",", ",\n"]));
        }
        if i > 0 && r.chance(1, 10) {
            o.push_str("**rest, ");
        }
        o.push_str(k);
        o.push_str(r.pick(&["1", "nil", "{k1: 2}", "foo", "[k2: 3]"]));
    }
    o.push_str(z);
    o.into_bytes()
}

pub fn c28(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    if i % 3 == 0 {
        let (mut v, kind) = if r.chance(1, 12) { (many_pairs(&mut r), "hash of many pairs") } else { crate::locs::mixed(&mut r) };
        if v.len() > 4000 {
            return;
        }
        if kind != "hash of many pairs" && r.chance(1, 2) {
            // other blanks around what may be an operator or a prefix
            for _ in 0..1 + r.below(4) {
                let at: Vec<usize> = (0..v.len()).filter(|k| b"*&+-/%<:(".contains(&v[*k])).collect();
                if at.is_empty() {
                    break;
                }
                let k = *r.pick(&at);
                let mut e = k + 1;
                while e < v.len() && v[e] == v[k] && v[k] != b'(' {
                    e += 1;
                }
                match r.below(4) {
                    0 => v.insert(k, b' '),
                    1 if e < v.len() && blank(v[e]) => {
                        v.remove(e);
                    }
                    2 if e < v.len() && v[e] == b' ' => {
                        v.remove(e);
                        v.insert(k, b' ');
                    }
                    _ if k > 0 && v[k - 1] == b' ' => {
                        v.remove(k - 1);
                    }
                    _ => v.insert(e, b' '),
                }
            }
        }
        w.feed(&v);
        let Ok(x) = parse(&v) else {
            w.note("panicked (see C01)");
            return;
        };
        if x.has_error() {
            w.note("rejected");
            w.done(&v, false);
            return;
        }
        let mut want = vec![];
        if let Some(t) = &x.ast {
            t.walk(&mut |t| {
                if matches!(t.k, "Hash" | "Kwargs") && t.list("pairs").len() > 10 {
                    w.note("more than ten pairs");
                }
            });
            tree_warnings(t, false, &mut want);
            // each token, and whether no blank stands in front of it, or a `)` (other than one that
            // closes a parenthesized first argument, `foo (1) *2`)
            let mut toks = std::collections::HashMap::new();
            let mut open: Vec<bool> = vec![];
            let mut calm = false;
            for k in 0..x.toks.len() {
                let t = &x.toks[k];
                toks.insert(t.loc, calm || k > 0 && x.toks[k - 1].loc.1 == t.loc.0);
                calm = false;
                if t.name.starts_with("tLPAREN") {
                    open.push(t.name == "tLPAREN_ARG");
                } else if t.name == "tRPAREN" {
                    calm = !open.pop().unwrap_or(false);
                }
            }
            text_warnings(t, &x.input, &toks, &mut want);
        }
        let kinds = TREE_KINDS;
        let mut got: Vec<(&'static str, Span)> = x.diags.iter().filter(|d| !d.error).filter_map(|d| kinds.iter().find(|k| d.msg.split(' ').next() == Some(k)).map(|k| (*k, d.loc))).collect();
        want.sort();
        got.sort();
        want.dedup();
        got.dedup();
        if want != got {
            let k = (0..want.len().max(got.len())).find(|k| want.get(*k) != got.get(*k)).unwrap();
            w.fail(format!("the tree implies {:?}, reported {:?}", want.get(k), got.get(k)), &v);
        }
        w.note("trees judged");
        w.add("warnings implied by trees", want.len() as u64);
        w.note(kind);
        w.done(&v, true);
        return;
    }
    let ls = warning_lines();
    let k = (i / 3 + i % 3) as usize % ls.len();
    let f = catalog(&ls[k], k, &mut r);
    let (src, b, e) = embed(&f, &mut r);
    w.feed(&src);
    let mut bad = None;
    match parse(&src) {
        Err((m, l)) => bad = Some(format!("parser panicked: {} at {}", m, l)),
        Ok(x) => {
            let got: Vec<&Diag> = x.diags.iter().filter(|d| d.loc.0 >= b && d.loc.0 < e).collect();
            match &f.msg {
                _ if x.has_error() => {
                    let d = x.errors()[0];
                    bad = Some(format!("valid program rejected: {} at {}..{} ({})", d.text, d.loc.0, d.loc.1, f.name))
                }
                None => {
                    if let Some(d) = got.first() {
                        bad = Some(format!("unwarranted warning {} at {}..{} ({})", d.msg, d.loc.0, d.loc.1, f.name));
                    }
                    w.note("near miss judged");
                }
                Some(m) => {
                    let at = f.loc.map(|l| (l.0 + b, l.1 + b));
                    if got.is_empty() {
                        bad = Some(format!("expected {} at {:?}, nothing reported ({})", m, at, f.name));
                    }
                    for d in &got {
                        if !d.msg.starts_with(m.as_str()) || Some(d.loc) != at {
                            bad = Some(format!("reported {} at {}..{}, expected {} at {:?} ({})", d.msg, d.loc.0, d.loc.1, m, at, f.name));
                        }
                    }
                    w.note("warning judged");
                    w.note(&format!("warning {}", m.split(' ').next().unwrap()));
                }
            }
        }
    }
    if let Some(m) = bad {
        w.fail(m, &src);
    }
    w.done(&src, true);
}
