//! RNG, panic capture, the instrumented parse call, small JSON writer.
use crate::nodes_gen::conv;
use crate::tree::{Span, T};
use lib_ruby_parser::source::{CommentType, MagicCommentKind};
use lib_ruby_parser::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: &str, n: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in stream.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h ^= n.wrapping_mul(0xD1B54A32D192ED03);
        let mut r = Rng(h);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
        &v[self.below(v.len())]
    }
}

pub fn hash64(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line()));
        if !loc.contains("/repo/src") && std::env::var("RBMON_DEBUG").is_ok() {
            eprintln!("panic: {} at {}", msg, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs `f`, turning a panic into Err((message, location)).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()))),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub name: &'static str,
    pub val: Vec<u8>,
    pub loc: Span,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Diag {
    pub error: bool,
    pub msg: String,
    pub text: String,
    pub loc: Span,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Cmt {
    pub kind: &'static str,
    pub loc: Span,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MCmt {
    pub kind: &'static str,
    pub key: Span,
    pub val: Span,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Res {
    pub ast: Option<T>,
    pub toks: Vec<Tok>,
    pub diags: Vec<Diag>,
    pub comments: Vec<Cmt>,
    pub magic: Vec<MCmt>,
    pub input: Vec<u8>,
}
impl Res {
    pub fn errors(&self) -> Vec<&Diag> {
        self.diags.iter().filter(|d| d.error).collect()
    }
    pub fn has_error(&self) -> bool {
        self.diags.iter().any(|d| d.error)
    }
}

pub fn extract(r: &ParserResult) -> Res {
    Res {
        ast: r.ast.as_ref().map(|n| conv(n)),
        toks: r
            .tokens
            .iter()
            .map(|t| Tok { name: t.token_name(), val: t.token_value.raw.clone(), loc: (t.loc.begin, t.loc.end) })
            .collect(),
        diags: r
            .diagnostics
            .iter()
            .map(|d| Diag {
                error: d.is_error(),
                msg: format!("{:?}", d.message),
                text: d.message.render(),
                loc: (d.loc.begin, d.loc.end),
            })
            .collect(),
        comments: r
            .comments
            .iter()
            .map(|c| Cmt {
                kind: match c.kind {
                    CommentType::Inline => "inline",
                    CommentType::Document => "document",
                    CommentType::Unknown => "unknown",
                },
                loc: (c.location.begin, c.location.end),
            })
            .collect(),
        magic: r
            .magic_comments
            .iter()
            .map(|m| MCmt {
                kind: match m.kind {
                    MagicCommentKind::Encoding => "encoding",
                    MagicCommentKind::FrozenStringLiteral => "frozen_string_literal",
                    MagicCommentKind::WarnIndent => "warn_indent",
                    MagicCommentKind::ShareableConstantValue => "shareable_constant_value",
                },
                key: (m.key_l.begin, m.key_l.end),
                val: (m.value_l.begin, m.value_l.end),
            })
            .collect(),
        input: r.input.bytes.clone(),
    }
}

pub fn opts(tokens: bool) -> ParserOptions {
    ParserOptions { buffer_name: "(rbmon)".into(), decoder: None, record_tokens: tokens }
}

pub fn parse(input: &[u8]) -> Result<Res, (String, String)> {
    guarded(|| extract(&Parser::new(input.to_vec(), opts(true)).do_parse()))
}
pub fn parse_validated(input: &[u8]) -> Result<Res, (String, String)> {
    guarded(|| extract(&Parser::new(input.to_vec(), opts(true)).do_parse_with_state_validation()))
}

// ---- JSON ----
#[derive(Clone, Debug)]
pub enum J {
    S(String),
    I(i64),
    F(f64),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
pub fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    pub fn to(&self) -> String {
        match self {
            J::S(s) => jesc(s),
            J::I(i) => i.to_string(),
            J::F(f) => format!("{:.3}", f),
            J::A(v) => format!("[{}]", v.iter().map(|x| x.to()).collect::<Vec<_>>().join(",")),
            J::O(v) => {
                format!("{{{}}}", v.iter().map(|(k, x)| format!("{}:{}", jesc(k), x.to())).collect::<Vec<_>>().join(","))
            }
        }
    }
}
pub fn counts(m: &BTreeMap<String, u64>) -> J {
    J::O(m.iter().map(|(k, v)| (k.clone(), J::I(*v as i64))).collect())
}

/// Ruby's rule for the first letter of a constant: upper- or titlecase.
pub fn const_start(c: char) -> bool {
    const TITLE: &str = "ǅǈǋǲᾈᾉᾊᾋᾌᾍᾎᾏᾘᾙᾚᾛᾜᾝᾞᾟᾨᾩᾪᾫᾬᾭᾮᾯᾼῌῼ";
    c.is_uppercase() || TITLE.contains(c)
}
