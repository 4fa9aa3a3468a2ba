//! Hostile workloads: arbitrary byte strings, broken and borderline programs.
use crate::model::any_program;
use crate::util::*;

pub const DICT: &[&str] = &[
    "alias", "and", "begin", "BEGIN", "break", "case", "class", "def", "defined?", "do", "else", "elsif", "end", "END",
    "ensure", "false", "for", "if", "in", "module", "next", "nil", "not", "or", "redo", "rescue", "retry", "return",
    "self", "super", "then", "true", "undef", "unless", "until", "when", "while", "yield", "__FILE__", "__LINE__",
    "__ENCODING__", "__END__", "__method__", "+", "-", "*", "**", "/", "%", "&", "&&", "|", "||", "^", "~", "!", "!=",
    "!~", "=", "==", "===", "=~", "=>", "<", "<=", "<=>", "<<", ">", ">=", ">>", "+=", "-=", "*=", "**=", "/=", "%=",
    "&=", "&&=", "|=", "||=", "^=", "<<=", ">>=", "..", "...", ".", "&.", "::", ",", ";", ":", "?", "->", "(", ")",
    "[", "]", "{", "}", "|", "\\", "\n", "\r\n", "\r", "\t", " ", "  ", "\x0b", "\x0c", "\"", "'", "`", "#", "#{",
    "#@", "#$", "#@@", "@", "@@", "$", "@a", "@@a", "$a", "$1", "$99999999999999999999", "$~", "$&", "$-w", "$-", "@1",
    "@@1", "a", "b", "foo", "Foo", "A", "_", "_1", "_2", "_9", "a?", "a!", "a=", "foo:", "Foo:", "\"foo\":", "if:",
    ":a", ":A", ":a?", ":a=", ":\"a\"", ":'a'", ":[]", ":[]=", ":+", ":!", ":<=>", "?a", "?\\n", "?\\C-a", "?\\M-a",
    "?\\u1234", "?\\u{1 2}", "?", "? ", "0", "1", "42", "1_000", "1__0", "1_", "0x1f", "0x", "0b101", "0b", "0b2",
    "0o17", "0o", "017", "08", "0d9", "0d", "1.5", "1.", "1.e", "1e", "1e5", "1e-5", "1e+", "1r", "1i", "1ri", "1ir",
    "1.5r", "1e5r", "1e5i", "0.", "0.5", "99999999999999999999999", "%w[", "%W[", "%i[", "%I[", "%q(", "%Q(", "%(",
    "%r{", "%s(", "%x(", "%<", "%|", "%=", "%\n", "%w", "%z(", "% ", "%\u{e9}", "/a/", "/a/mixounse", "/a/z", "/[/",
    "/(?<a>.)/", "/#{a}/", "/(?<a>.)/ =~", "<<A\n", "<<-A\n", "<<~A\n", "<<'A'\n", "<<\"A\"\n", "<<`A`\n", "<<~'A'\n",
    "<<A", "<<\"A", "\nA\n", "\n  A\n", "<<A.foo\n", "<<A, <<B\n", "\nB\n", "<<\n", "<<~\n", "<<\"\n\"", "\\u", "\\u1",
    "\\u12345", "\\u{", "\\u{}", "\\u{110000}", "\\u{1234567}", "\\u{d800}", "\\ud800", "\\u{1 2}", "\\x", "\\xf",
    "\\xff", "\\0", "\\777", "\\8", "\\c", "\\c\\", "\\C-", "\\C-\\", "\\M-", "\\M-\\C-", "\\M-\\M-a", "\\C-?", "\\c?",
    "\\\n", "\\\r\n", "def a", "def a(", "def a = ", "def self.", "def (a).", "def a()", "def a b", "def a(...)",
    "def a(*)", "def a(**)", "def a(&)", "def a(**nil)", "def a(b:)", "def a(b: 1)", "def a(b = b)", "(...)", "*", "**",
    "&b", "&", "class A", "class A < B", "class << self", "class << a;", "module A", "module A::B", "class ::A",
    "class a", "module a", "class A < B, C", "do |a|", "do |a, b|", "do |a;b|", "{ |a| ", "{ || ", "{ |a, (b, c), *d, e: 1, f:, **g, &h|",
    "->(a) {", "-> {", "->(a; b) do", "->a{", "->(", "-> do", "if a then", "while a do", "until a", "for a in b do",
    "for a, b in c", "case a", "case", "when 1 then", "when *a", "in [a, *b]", "in {a:}", "in {a: 1, **nil}",
    "in A(a)", "in A[a]", "in ^a", "in ^(a)", "in ^@a", "in a | b", "in a if b", "in [*, a, *]", "in {\"a\":}", "in nil",
    "in 1..", "in ..1", "in 1... ", "in a => b", "in a, b", "in a,", "in *a", "in **a", "in a:", "a => b", "a in b",
    "a => {a:}", "rescue A => e", "rescue *A", "rescue => @a", "rescue => a.b", "rescue A, B then", "ensure", "else",
    "elsif a", "BEGIN {", "END {", "undef a, :b", "alias a b", "alias $a $b", "alias $a $1", "a, b = c", "a, *b = c",
    "*a, b = c", "(a, b), c = d", "a.b, c[d] = e", "*a = b", "a = *b", "a = b, c", "a += b", "a ||= b", "A ||= b",
    "A::B ||= c", "::A = b", "a.b += c", "a[b] += c", "a::B = c", "a&.b = c", "a&.b, c = d", "$1 = a", "self = a",
    "nil = 1", "__FILE__ = 1", "1 = 2", "_1 = 2", "A = 1", "@a = 1", "a rescue b", "a if b", "a unless b", "a while b",
    "a until b", "begin; a; end while b", "not a", "!a", "a and b", "a or b", "a ? b : c", "a ?b :c", "a ? b", "a..b", "a..",
    "..a", "(a..)", "a...b", "defined? a", "defined?(a)", "yield a", "super", "super()", "super a", "super(&b)",
    "return a", "return *a", "break a", "next a", "redo", "retry", "puts a", "puts -a", "puts -1", "puts *a", "puts &a",
    "puts [a]", "puts (a)", "puts (a), b", "puts(a) {", "puts a do", "puts /a/", "puts %w", "puts ::A", "puts :a",
    "puts a: 1", "puts \"a\": 1", "puts(**a)", "puts(*a)", "puts(&a)", "puts(a, )", "puts(a:)", "a.b", "a.b c", "a.b(c)",
    "a.()", "a::()", "a&.()", "a::b", "a::B", "a::B()", "a.b do", "a.b {", "a&.b", "a.class", "a.if", "a.+ b", "a.+(b)",
    "a[b]", "a[]", "a [b]", "a[b, c]", "a[*b]", "a[b: c]", "a[&b]", "{a: 1}", "{a => 1}", "{\"a\": 1}", "{**a}", "{a:}",
    "{A:}", "{a?: 1}", "{", "[", "[1, 2]", "[*a]", "[a: 1]", "[a,]", "+a", "-a", "~a", "-1", "+1", "-1 ** 2", "-a ** 2",
    "%r\r\nab\r\n", "%r\na\r\ni\n", "%q\r\nab\r\n", "a\n.b", "a\n&.b", "a\n#c\n.b", "a\n..b", "a.\nb", "=begin\n", "\n=begin\n", "\n=end\n", "=end", "\n=begin x\na\n=end\n",
    "# encoding: utf-8\n", "# coding: binary\n", "# encoding: koi8-r\n", "# -*- coding: us-ascii -*-\n",
    "# frozen_string_literal: true\n", "# -*- warn_indent: true; frozen-string-literal: false -*-\n", "#!ruby\n",
    "# vim: set fileencoding=utf-8 :\n", "# shareable_constant_value: literal\n", "\u{feff}", "\n__END__\n", "__END__",
    "\0", "\x04", "\x1a", "\u{e9}", "\u{3042}", "\u{1f600}", "\u{e9}:", "@\u{e9}", "$\u{e9}", ":\u{e9}", "\u{c9}", "p \u{e9}",
    "\u{a0}", "\u{2028}", "->(a = 1) {}", "proc { |a = 1| }", "proc { |a = b|", "p(a, *b, c: 1, **d, &e)", "{ _1 + _2 }", "{ it }",
    "def a; yield; end", "def a; return; end", "class A; yield; end", "class A; return; end", "def a; class B; end; end",
    "def a; B = 1; end", "def a(b, b); end", "->(a, a) {}", "def a(_, _); end", "def a(A); end", "def a(@a); end",
    "def a($a); end", "def a(@@a); end", "def a= b; end", "def a=(b) = 1", "def !; end", "def a.b; end", "def nil.a; end", "def 1.a; end",
    "def a?(b) = b", "def a() = puts 1", "def a; 1 rescue 2; end", "p a do end", "break", "next", "BEGIN { }", "a b c",
    "a b, c d", "a(b) c", "a(b).c d", "puts a b do |c| end", "p(<<A)\nfoo\nA\n", "[<<A, <<B]\na\nA\nb\nB\n", "\"#{<<A}\"\nfoo\nA\n", "<<A\n#{<<B}\nb\nB\nA\n",
    "a =~ /b/", "/(?<b>c)/ =~ a", "if /a/", "if a = 1", "if a..b", "while a and b", "unless a; else; end", "!~", "not()", "()", "(a; b)", "(a\nb)",
    "p ()", "p () {}", "p (a).b", "p (a) {}", "a ->{ }", "a -> do end", "loop do", "a = b do", "return if a", "a = if b", "a = begin", "a = case b", "a.b = c d",
    "a = b = c", "a = b rescue c", "a, b = c rescue d", "a += b rescue c", "def a = b rescue c", "a => b => c", "a in b in c", "a == b == c", "a <=> b <=> c", "a..b..c",
    "def a(b) = c(b)", "private def a", "private def a = 1", "%w[a b]", "%i[a b]", "%W[a#{b} c]", "%I[a#{b} c]", "\"a\" 'b' \"c\"", "'a' \"#{b}\"", "`a #{b}`", ":\"a#{b}\"",
    "\"\\u{1 2}\"", "\"\\xff\"", "'\\\\'", "'\\''", "?a ?b", "?a\"b\"", "\"a\\\nb\"", "\"a\nb\"", "%q(a(b)c)", "%Q<a<b>c>", "%r[a]i", "%s[a]", "%x[a]",
];

fn insert_at(v: &mut Vec<u8>, p: usize, s: &[u8]) {
    let t = v.split_off(p);
    v.extend_from_slice(s);
    v.extend_from_slice(&t);
}
pub fn dict(r: &mut Rng) -> &'static [u8] {
    r.pick(DICT).as_bytes()
}
const SEPS: &[&str] = &["", "", " ", " ", " ", "\n", "\n", ";", "; ", ", ", "(", ")", " { ", " }", "\r\n", "\t", "\\\n", " # c\n", "\0", "."];

pub fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
    let n = 1 + r.below(4);
    for _ in 0..n {
        let len = v.len();
        let p = r.below(len + 1);
        match r.below(16) {
            0 | 1 if len > 0 => {
                let p = r.below(len);
                v.remove(p);
            }
            2 if len > 0 => {
                let q = (p + 1 + r.below(12)).min(len);
                v.drain(p.min(q)..q);
            }
            3 | 4 | 5 => {
                let d = dict(r);
                insert_at(v, p, d)
            }
            6 if len > 0 => {
                let p = r.below(len);
                v[p] = r.next() as u8;
            }
            7 if len > 0 => {
                let p = r.below(len);
                v[p] = *r.pick(b" \n\"'#()[]{}|;:.,?!@$&*+-=<>/%\\~^`_aA0\r\t\0\x04\x1a\xff\xc3");
            }
            8 => {
                let b = *r.pick(b" \n\"'#()[]{}|;:.,?!@$&*+-=<>/%\\~^`_aA0\r\t\0\x04\x1a\xff\xc3");
                insert_at(v, p, &[b])
            }
            9 if len > 0 => {
                let q = (p + 1 + r.below(40)).min(len);
                let s = v[p.min(q)..q].to_vec();
                let k = r.below(v.len() + 1);
                insert_at(v, k, &s);
            }
            10 => v.truncate(p),
            11 => {
                v.drain(..p);
            }
            12 => {
                // swap two chunks
                if len > 4 {
                    let a = r.below(len / 2);
                    let b = len / 2 + r.below(len / 2);
                    v.swap(a, b);
                }
            }
            13 => {
                let d = *r.pick(&["\n", "\r\n", " ", "end", ")", "}", "]", "\"", "end\nend\n", "\n__END__\n"]);
                v.extend_from_slice(d.as_bytes())
            }
            14 => {
                let o = crlf(v);
                *v = o;
            }
            _ => {
                let d = dict(r);
                let q = (p + r.below(8)).min(len);
                v.drain(p..q);
                insert_at(v, p, d)
            }
        }
    }
}
pub fn crlf(v: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for (i, b) in v.iter().enumerate() {
        if *b == b'\n' && (i == 0 || v[i - 1] != b'\r') {
            o.push(b'\r');
        }
        o.push(*b);
    }
    o
}

/// Boundaries of the tokens the parser itself reports, used only to place mutations.
fn token_bounds(v: &[u8]) -> Vec<(usize, usize)> {
    match parse(v) {
        Ok(r) => r.toks.iter().map(|t| t.loc).filter(|l| l.0 < l.1 && l.1 <= v.len()).collect(),
        Err(_) => vec![],
    }
}

pub fn soup(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let n = 1 + r.below(14);
    let dense = r.chance(1, 3);
    for i in 0..n {
        if i > 0 && !dense {
            v.extend_from_slice(r.pick(SEPS).as_bytes());
        } else if i > 0 && r.chance(1, 2) {
            v.push(b' ');
        }
        v.extend_from_slice(dict(r));
    }
    v
}
pub fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = r.below(40);
    let class = r.below(4);
    (0..n)
        .map(|_| match class {
            0 => r.next() as u8,
            1 => *r.pick(b"\"'`#{}()[]<>|/%\\:?@$&*+-=.,;!~^ \n\r\t\0\x04\x1a_aA10\xc3\xa9\xff"),
            2 => *r.pick(b"\"#{}@$\\ \n<~A-uxMC?c0e1"),
            _ => 32 + (r.next() % 95) as u8,
        })
        .collect()
}
/// A short repeatable fragment.
pub fn unit(r: &mut Rng) -> Vec<u8> {
    let u = *r.pick(&[
        "a = 1\n", "foo(1, 2)\n", "# comment\n", "\n", "\"a#{b}c\"\n", "<<E\nx\nE\n", "<<~E\n  x\n    #{y}\nE\n", "a.b.c\n", "def m(a); a; end\n", "class A; end\n", "x { |a| a }\n",
        "if a then b else c end\n", "case a when 1 then 2 end\n", "case a in [b, *c] then d end\n", "a, b = c, d\n", "%w[a b c]\n", "/a/i\n", ":a; ?b; 1.5r\n", "p [1, 2, {a: 1}]\n", "-> (x) { x }\n",
        ";", "(", ")", "end\n", "a + ", "1, ", "a.", "\"", "\\\n", "\"a\" ", "x&.y\n", "=begin\nx\n=end\n", "\u{e9} = 1\n", "@a = $b\n", "foo a do |x| end\n", "begin; a; rescue; b; end\n",
        "a ||= b\n", "!a\n", "a ? b : c\n", "(a; b)\n", "p <<A, <<B\na\nA\nb\nB\n", "\r\n", "  \t", "a0123456789", "0", "1_", "#{", "'", "`", "%", "@", "$", "[", "]", "{", "}", "|", "&", "def a = b\n",
    ]);
    u.as_bytes().to_vec()
}
pub const SHAPES: &[(&str, &str)] = &[
    ("if a; return; else; ", " end"),
    ("if a; ", " else; return; end"),
    ("unless a; return; else; ", "; end"),
    ("if a; b; else; ", " end"),
    ("if a; ", " elsif b; c; else; d; end"),
    ("begin; ", "; end"),
    ("begin; ", "; rescue A; return; else; b; ensure; c; end"),
    ("begin; a; rescue; ", "; end"),
    ("(", ")"),
    ("(a; ", ")"),
    ("(return; ", ")"),
    ("(", " and return)"),
    ("(return and ", ")"),
    ("(a or ", ")"),
    ("a && (", ")"),
    ("(", ") || a"),
    ("!(", ")"),
    ("not(", ")"),
    ("a ? (", ") : b"),
    ("a ? b : (", ")"),
    ("(a ? return : ", ")"),
    ("case a; when b; ", "; else; return; end"),
    ("case ", "; when a; b; end"),
    ("case a; in b if ", "; return; else; c; end"),
    ("case a; in b; ", " end"),
    ("while ", "; a; end"),
    ("while a; ", "; end"),
    ("until ", " do b end"),
    ("for a in (", ") do b end"),
    ("[", "]"),
    ("[a, *", "]"),
    ("{a: ", "}"),
    ("{", " => 1}"),
    ("{**", "}"),
    ("{a => 1, ", " => 2}"),
    ("foo(", ")"),
    ("foo(*", ")"),
    ("foo(&", ")"),
    ("foo(a: ", ")"),
    ("foo[", "]"),
    ("foo(", ") { a }"),
    ("foo { ", " }"),
    ("foo do |a| ", " end"),
    ("foo { |a = (", ")| b }"),
    ("-> { ", " }"),
    ("->(a = (", ")) { }"),
    ("(", ").a"),
    ("(", ")&.a(b)"),
    ("(", ")::A"),
    ("(", ")[0]"),
    ("(", ") + 1"),
    ("1 + (", ")"),
    ("-(", ")"),
    ("(", ") ** 2"),
    ("2 ** -(", ")"),
    ("(", ") == a"),
    ("(", ") =~ a"),
    ("(", ")..(a)"),
    ("((", ")..)"),
    ("(a = ", ")"),
    ("(a, b = ", ")"),
    ("(a += ", ")"),
    ("(a ||= ", ")"),
    ("(a.b = ", ")"),
    ("(a[", "] = 1)"),
    ("(a = *", ")"),
    ("(a rescue ", ")"),
    ("(", " rescue a)"),
    ("(", " if a)"),
    ("(a unless ", ")"),
    ("(", " while a)"),
    ("begin; ", "; end while a"),
    ("defined?(", ")"),
    ("\"#{", "}\""),
    ("\"a#{", "}\" \"b\""),
    (":\"#{", "}\""),
    ("%W[a#{", "} b]"),
    ("/#{", "}/"),
    ("`#{", "}`"),
    ("def m; ", "; end"),
    ("def m(a = (", ")); end"),
    ("def m() = ", ""),
    ("def (", ").m; end"),
    ("class << (", "); end"),
    ("class A < (", "); end"),
    ("yield(", ")"),
    ("super(", ")"),
    ("return(", ")"),
    ("(return ", ")"),
    ("(break ", ")"),
    ("(", " => a)"),
    ("(", " in a)"),
    ("BEGIN { ", " }"),
    ("END { ", " }"),
];
/// One to three shapes, nested in each other many times, where a value, a condition, a target or
/// a pattern is expected: whatever looks at a tree more than once per level takes forever.
pub fn nested(r: &mut Rng) -> Vec<u8> {
    const PATS: &[(&str, &str)] = &[
        ("[", "]"),
        ("[a, *, ", "]"),
        ("[*, ", ", *]"),
        ("{a: ", "}"),
        ("{a: 1, b: ", ", **nil}"),
        ("(", ")"),
        ("A(", ")"),
        ("A[", "]"),
        ("A::B(a: ", ")"),
        ("1 | ", ""),
        ("(", " | 2)"),
        ("", " => x"),
        ("^(", ")"),
    ];
    const TARGETS: &[(&str, &str)] = &[("(", ")"), ("(a, ", ")"), ("(", ", *b)"), ("(*a, (", "), c)"), ("(", ",)"), ("(a.b, ", ", c[1])")];
    const LEAVES: &[&str] = &["a", "return", "1", "break", "\"a\"", "nil", "redo", "raise", "_1", "*a", "a: 1", "", ":a", "/a/", "A", "self", "foo 1", "retry", "next 1", "a => b"];
    const AROUND: &[(&str, &str)] = &[
        ("", ""),
        ("", ""),
        ("x = ", ""),
        ("x = (", ")"),
        ("x += (", ")"),
        ("x = y = (", ")"),
        ("foo(", ")"),
        ("foo ", ""),
        ("if ", "; 1; end"),
        ("while ", "; 1; end"),
        ("1 if ", ""),
        ("a && ", ""),
        ("return ", ""),
        ("def m; ", "; end"),
        ("def m; x = ", "; end"),
        ("[", "]"),
        ("a, b = ", ""),
        ("(", ") => a"),
        ("not ", ""),
        ("!(", ")"),
        ("alias a b; ", ""),
    ];
    let (shapes, leaf, around): (&[(&str, &str)], &str, (&str, &str)) = match r.below(8) {
        0 => (PATS, r.pick(&["a", "1", "A", "nil", "^a", "1..2", "\"s\"", "*a", "**a", "a: 1", "_"]), *r.pick(&[("case x; in ", "; 1; end"), ("x => ", ""), ("x in ", ""), ("case x; in ", " if y; end")])),
        1 => (TARGETS, r.pick(&["a", "*a", "@a", "A", "a.b", "a[0]", "self.x"]), *r.pick(&[("", " = 1"), ("z, ", " = 1"), ("for ", ", y in 1 do end"), ("foo { |", "| }"), ("->(", ") {}"), ("def m(", ") end"), ("", ", z = *1"), ("(", " = 2)")])),
        _ => (SHAPES, if r.chance(1, 3) { "return" } else { r.pick(LEAVES) }, *r.pick(AROUND)),
    };
    let k = 1 + r.below(3);
    let pick: Vec<_> = (0..k).map(|_| *r.pick(shapes)).collect();
    let n = r.range(20, 56);
    let (mut v, mut end) = (around.0.as_bytes().to_vec(), vec![]);
    for i in 0..n {
        let (a, z) = pick[i % k];
        v.extend_from_slice(a.as_bytes());
        end.push(z);
    }
    v.extend_from_slice(leaf.as_bytes());
    for z in end.iter().rev() {
        v.extend_from_slice(z.as_bytes());
    }
    v.extend_from_slice(around.1.as_bytes());
    v
}

pub fn long(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[50usize, 200, 400, 700, 1000]);
    let (a, m, z): (&str, &str, &str) = *r.pick(&[
        ("(", "a", ")"),
        ("[", "1", "]"),
        ("{a: ", "1", "}"),
        ("-> {", "a", "}"),
        ("a(", "b", ")"),
        ("a { ", "b", "}"),
        ("if a\n", "b", "\nend"),
        ("def m\n", "b", "\nend\n"),
        ("class A\n", "b", "\nend\n"),
        ("begin\n", "b", "\nend\n"),
        ("\"#{", "a", "}\""),
        ("!", "a", ""),
        ("-", "a", ""),
        ("a ? ", "b", " : c"),
        ("a = ", "b", ""),
        ("not ", "b", ""),
        ("a.", "b", ""),
        ("a + ", "b", ""),
        ("a do\n", "b", "\nend"),
        ("case a\nwhen b\n", "c", "\nend"),
        ("while a do\n", "c", "\nend"),
        ("a[", "b", "]"),
        ("/#{", "a", "}/"),
        ("`#{", "a", "}`"),
        ("%w[", "a", "]"),
        ("%q(", "a", ")"),
        ("case a\nin [", "b", "]\nend\n"),
        ("(a, ", "b", ") = 1"),
        ("a b, ", "c", ""),
        ("", "foo", ""),
        ("# c\n", "1", ""),
        ("\\\n", "1", ""),
        ("a\n", "1", ""),
        ("a;", "1", ""),
        ("\n", "1", ""),
        ("1,", "1", ""),
        ("a |", "1", ""),
        ("p <<A\n", "b\n", "A\n"),
        ("<<A, ", "1", ""),
        ("a and ", "b", ""),
        ("a rescue ", "b", ""),
        ("a if ", "b", ""),
        ("x0123456789", "", ""),
        ("9", "", ""),
        ("'a' ", "", ""),
        ("@a, ", "b", " = 1"),
    ]);
    let mut v = vec![];
    let open = r.chance(1, 4);
    for _ in 0..n {
        v.extend_from_slice(a.as_bytes());
    }
    v.extend_from_slice(m.as_bytes());
    let k = if open { r.below(n) } else { n };
    for _ in 0..k {
        v.extend_from_slice(z.as_bytes());
    }
    v
}

fn spans(t: &crate::tree::T, out: &mut Vec<(usize, usize)>) {
    t.walk(&mut |n| out.push(n.e));
}
fn node_spans(v: &[u8]) -> Vec<(usize, usize)> {
    let mut o = vec![];
    if let Ok(r) = parse(v) {
        if let Some(t) = &r.ast {
            spans(t, &mut o);
        }
    }
    o.retain(|l| l.0 < l.1 && l.1 <= v.len());
    o
}
/// Replaces the source of some nodes of one program by the source of nodes of another.
pub fn node_splice(r: &mut Rng) -> Vec<u8> {
    let mut v = any_program(r).src;
    let k = 1 + r.below(3);
    for _ in 0..k {
        let a = node_spans(&v);
        if a.is_empty() {
            return v;
        }
        let b = any_program(r).src;
        let bs = node_spans(&b);
        let t = *r.pick(&a);
        let piece: Vec<u8> = if bs.is_empty() || r.chance(1, 4) {
            dict(r).to_vec()
        } else {
            let u = *r.pick(&bs);
            b[u.0..u.1].to_vec()
        };
        v.splice(t.0..t.1, piece);
    }
    v
}

/// One hostile input and its kind.
pub fn hostile(r: &mut Rng) -> (Vec<u8>, &'static str) {
    match r.below(50) {
        40..=49 => (node_splice(r), "program with spliced nodes"),
        0..=3 => (any_program(r).src, "model program"),
        4..=13 => {
            let mut v = any_program(r).src;
            mutate(r, &mut v);
            (v, "mutated program")
        }
        14..=19 => {
            let v = any_program(r).src;
            let b = token_bounds(&v);
            if b.is_empty() {
                return (v, "model program");
            }
            let mut o = v.clone();
            let k = 1 + r.below(2);
            for _ in 0..k {
                let t = *r.pick(&b);
                let u = *r.pick(&b);
                let tt = v[t.0..t.1].to_vec();
                let uu = v[u.0..u.1].to_vec();
                if t.1 > o.len() {
                    break;
                }
                match r.below(5) {
                    0 => {
                        o.drain(t.0..t.1);
                    }
                    1 => {
                        insert_at(&mut o, t.0, b" ");
                        insert_at(&mut o, t.0, &uu);
                    }
                    2 => {
                        o.drain(t.0..t.1);
                        insert_at(&mut o, t.0, &uu)
                    }
                    3 => {
                        o.drain(t.0..t.1);
                        let d = dict(r);
                        insert_at(&mut o, t.0, d)
                    }
                    _ => {
                        insert_at(&mut o, t.1, b" ");
                        insert_at(&mut o, t.1 + 1, &tt)
                    }
                }
            }
            (o, "token-mutated program")
        }
        20 | 21 => {
            let mut v = any_program(r).src;
            let b = token_bounds(&v);
            if !b.is_empty() {
                let k = r.pick(&b).1;
                v.truncate(k);
            }
            (v, "program cut at a token")
        }
        22..=24 => {
            let a = any_program(r).src;
            let b = any_program(r).src;
            let mut v = a[..r.below(a.len() + 1)].to_vec();
            v.extend_from_slice(&b[r.below(b.len() + 1)..]);
            (v, "splice of two programs")
        }
        25..=33 => (soup(r), "fragment soup"),
        34 | 35 => (bytes(r), "byte soup"),
        36 => {
            let mut v = any_program(r).src;
            let p = r.below(v.len() + 1);
            let b: &[u8] = *r.pick(&[&b"\0"[..], b"\x04", b"\x1a", b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\x80", b"\xc0\x80"]);
            insert_at(&mut v, p, b);
            (v, "program with a stray byte")
        }
        37 => {
            let mut v: Vec<u8> = r
                .pick(&["\u{feff}", "#!/usr/bin/ruby\n", "# encoding: utf-8\n", "# coding: ascii-8bit\n", "# encoding: koi8-r\n", "# -*- coding: utf-8; x: y -*-\n", "#!x\n# encoding: \"utf-8\"\n", "\u{feff}# encoding: utf-8\n"])
                .as_bytes()
                .to_vec();
            let p = any_program(r).src;
            v.extend_from_slice(&p);
            (v, "program with a header")
        }
        38 => {
            let v = any_program(r).src;
            (crlf(&v), "program with CRLF")
        }
        _ => {
            let k = r.below(10);
            if k == 0 {
                (long(r), "long or deep program")
            } else if k < 4 {
                (nested(r), "one construct nested many times")
            } else {
                let mut v = soup(r);
                mutate(r, &mut v);
                (v, "mutated soup")
            }
        }
    }
}
