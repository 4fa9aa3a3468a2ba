//! Reference-model program generator.
//!
//! A table of constructs (templates.txt) pairs Ruby source shapes with the AST (kinds, values and
//! every location) that the documented node format prescribes. The generator composes them at
//! random, in random layout, and thereby knows the exact expected tree, comments and scoping of
//! every program it emits, without asking the parser.
use crate::nodes_gen::SCHEMA;
use crate::tree::{Span, T, V};
use crate::util::Rng;
use std::collections::HashMap;
use std::sync::OnceLock;

pub const BIG: usize = 1 << 40; // positions >= BIG live in a heredoc body not yet placed

// ---------- template language ----------
#[derive(Debug, Clone)]
pub enum Seg {
    Lit(String),
    Mark(String, String),
    Hole { name: String, cat: String, not_first: String },
    Dir(String),
}
#[derive(Debug, Clone)]
pub enum A {
    Node { k: &'static str, f: Vec<(String, A)>, span: Vec<String> },
    Name(String),
    Str(Vec<u8>),
    Nil,
    List(Vec<(bool, A)>),
    Join(Vec<String>),
    Call(String, Vec<A>),
}
#[derive(Debug)]
pub struct Tpl {
    pub id: usize,
    pub cat: String,
    pub group: String,
    pub flags: Vec<String>,
    pub weight: usize,
    pub segs: Vec<Seg>,
    pub ast: A,
    pub text: String,
    pub height: usize,
}
pub struct Tpls {
    pub t: Vec<Tpl>,
    pub by_cat: HashMap<String, Vec<usize>>,
    pub cat_height: HashMap<String, usize>,
}

pub fn kind(k: &str) -> (&'static str, &'static [(&'static str, char)]) {
    SCHEMA.iter().find(|x| x.0 == k).map(|x| (x.0, x.1)).unwrap_or_else(|| panic!("no node kind {}", k))
}

pub fn parse_src(s: &str) -> Vec<Seg> {
    let mut segs = vec![];
    let mut lit = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '«' => {
                if !lit.is_empty() {
                    segs.push(Seg::Lit(std::mem::take(&mut lit)));
                }
                let mut t = String::new();
                for c in it.by_ref() {
                    if c == '»' {
                        break;
                    }
                    t.push(c);
                }
                let (n, x) = t.split_once(':').unwrap_or_else(|| panic!("mark {}", t));
                segs.push(Seg::Mark(n.into(), x.into()));
            }
            '‹' => {
                if !lit.is_empty() {
                    segs.push(Seg::Lit(std::mem::take(&mut lit)));
                }
                let mut t = String::new();
                for c in it.by_ref() {
                    if c == '›' {
                        break;
                    }
                    t.push(c);
                }
                if t.starts_with('+') || t == "-" || t.starts_with('!') {
                    segs.push(Seg::Dir(t));
                } else {
                    let (n, x) = t.split_once(':').unwrap_or_else(|| panic!("hole {}", t));
                    let (c, nf) = match x.split_once('!') {
                        Some((c, nf)) => (c.to_string(), nf.to_string()),
                        None => (x.to_string(), String::new()),
                    };
                    segs.push(Seg::Hole { name: n.into(), cat: c, not_first: nf });
                }
            }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() {
        segs.push(Seg::Lit(lit));
    }
    segs
}

struct P<'a> {
    c: Vec<char>,
    i: usize,
    src: &'a str,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.c.len() && self.c[self.i].is_whitespace() {
            self.i += 1
        }
    }
    fn peek(&self) -> char {
        *self.c.get(self.i).unwrap_or(&'\0')
    }
    fn ident(&mut self) -> String {
        let mut s = String::new();
        while self.peek().is_alphanumeric() || self.peek() == '_' {
            s.push(self.peek());
            self.i += 1;
        }
        assert!(!s.is_empty(), "identifier expected at {} in {}", self.i, self.src);
        s
    }
    fn span(&mut self) -> Vec<String> {
        let mut v = vec![];
        if self.peek() == '@' {
            self.i += 1;
            loop {
                if self.peek() == '*' {
                    self.i += 1;
                    v.push("*".into());
                } else {
                    v.push(self.ident());
                }
                if self.peek() == '+' {
                    self.i += 1;
                } else {
                    break;
                }
            }
        }
        v
    }
    fn val(&mut self) -> A {
        self.ws();
        match self.peek() {
            '"' => {
                self.i += 1;
                let mut s = String::new();
                while self.peek() != '"' {
                    let mut c = self.peek();
                    if c == '\\' {
                        self.i += 1;
                        c = match self.peek() {
                            'n' => '\n',
                            't' => '\t',
                            c => c,
                        };
                    }
                    s.push(c);
                    self.i += 1;
                }
                self.i += 1;
                A::Str(s.into_bytes())
            }
            '[' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.peek() == ']' {
                        self.i += 1;
                        break;
                    }
                    let splat = self.peek() == '*';
                    if splat {
                        self.i += 1;
                    }
                    v.push((splat, self.val()));
                }
                A::List(v)
            }
            _ => {
                let n = self.ident();
                if self.peek() == '(' {
                    self.i += 1;
                    if crate::util::const_start(n.chars().next().unwrap()) {
                        let k = kind(&n).0;
                        let mut f = vec![];
                        loop {
                            self.ws();
                            if self.peek() == ')' {
                                self.i += 1;
                                break;
                            }
                            let name = self.ident();
                            assert_eq!(self.peek(), '=', "= expected in {}", self.src);
                            self.i += 1;
                            let v = self.val();
                            f.push((name, v));
                        }
                        let span = self.span();
                        A::Node { k, f, span }
                    } else {
                        let mut v = vec![];
                        loop {
                            self.ws();
                            if self.peek() == ')' {
                                self.i += 1;
                                break;
                            }
                            v.push(self.val());
                        }
                        A::Call(n, v)
                    }
                } else if n == "nil" {
                    A::Nil
                } else if self.peek() == '+' {
                    let mut v = vec![n];
                    while self.peek() == '+' {
                        self.i += 1;
                        v.push(self.ident());
                    }
                    A::Join(v)
                } else {
                    A::Name(n)
                }
            }
        }
    }
}

/// Sub-categories a code-implemented hole draws from (used for path finding and termination).
pub fn code_subcats(cat: &str) -> Option<&'static [&'static str]> {
    Some(match cat {
        "stmts" => &["stmt"],
        "topstmts" => &["stmt"],
        "then" | "dothen" | "ident" | "mid" | "fid" | "mname" | "const" | "decl" | "newarg" | "newlabelarg" | "ref" | "sym0" | "ivar"
        | "gvar" | "cvar" | "label" | "term" | "opname" | "attr" | "lcdecl" | "patdecl" | "declref" | "op" | "kwname"
        | "int0" | "str0" | "docl" | "nlterm" | "pubname" | "shadow" | "pkey" | "lab" | "nilterm" | "mset" | "blkref" | "fresh" | "seen" => &[],
        "args" => &["arg", "assoc", "splat", "blockpass"],
        "cargs" => &["arg", "assoc", "splat", "blockpass"],
        "argsnb" | "cargsnb" => &["arg", "assoc", "splat"],
        "pairs" => &["assoc"],
        "elems" => &["arg", "splat", "assoc"],
        "idx" | "idxa" => &["arg", "splat", "assoc"],
        "params" | "params1" | "bparams" | "lparams" => &["arg"],
        "mlhs" | "mlhs1" => &["mitem"],
        "mrhs" => &["arg", "splat"],
        "whens" => &["when"],
        "ins" => &["inclause"],
        "rescues" => &["resbody"],
        "excs" => &["exc", "splat"],
        "palist" => &["pexpr"],
        "phlist" => &["ppair"],
        "cond" => &["expr"],
        "ncond" => &["nexpr"],
        "rargs" => &["arg", "splat"],
        "asop" | "opop" | "pinref" | "lparams" | "thenkw" | "doterm" => &[],
        "subst" | "numref" | "deep" | "qkey" => &[],
        "words" => &[],
        "dstr" | "charlit" | "heredoc" | "strlit" | "symlit" | "regexplit" | "xstrlit" | "num" => &[],
        "opexpr" => &["primary"],
        _ => return None,
    })
}

pub fn tpls() -> &'static Tpls {
    static C: OnceLock<Tpls> = OnceLock::new();
    C.get_or_init(|| load(include_str!("templates.txt")))
}

fn load(text: &str) -> Tpls {
    let mut t = vec![];
    let mut group = String::from("misc");
    for line in text.lines() {
        if line.trim().is_empty() || line.starts_with("//") {
            continue;
        }
        if let Some(g) = line.strip_prefix("#group ") {
            group = g.trim().into();
            continue;
        }
        let (head, rest) = line.split_once(": ").unwrap_or_else(|| panic!("bad template {}", line));
        let (cat, flags) = match head.split_once('[') {
            Some((c, f)) => (c.to_string(), f.trim_end_matches(']').split(',').map(|x| x.to_string()).collect()),
            None => (head.to_string(), vec![]),
        };
        let (src, ast) = rest.split_once(" ⇒ ").unwrap_or_else(|| panic!("no arrow in {}", line));
        let mut p = P { c: ast.chars().collect(), i: 0, src: line };
        let a = p.val();
        p.ws();
        assert!(p.i == p.c.len(), "trailing garbage in {}", line);
        let mut weight = 10;
        for f in &flags {
            if let Some(w) = f.strip_prefix('w') {
                if let Ok(w) = w.parse() {
                    weight = w
                }
            }
        }
        t.push(Tpl {
            id: t.len(),
            cat,
            group: group.clone(),
            flags,
            weight,
            segs: parse_src(src),
            ast: a,
            text: line.into(),
            height: usize::MAX,
        });
    }
    let mut by_cat: HashMap<String, Vec<usize>> = HashMap::new();
    for x in &t {
        by_cat.entry(x.cat.clone()).or_default().push(x.id);
    }
    // heights
    let mut ch: HashMap<String, usize> = HashMap::new();
    loop {
        let mut changed = false;
        for x in t.iter_mut() {
            let mut h = Some(0);
            for s in &x.segs {
                if let Seg::Hole { cat, .. } = s {
                    let hh = cat_h(cat, &ch, &by_cat);
                    h = match (h, hh) {
                        (Some(a), Some(b)) => Some(std::cmp::max(a, b)),
                        _ => None,
                    };
                }
            }
            if let Some(h) = h {
                let nh = h + 1;
                if nh < x.height {
                    x.height = nh;
                    changed = true;
                }
                let e = ch.entry(x.cat.clone()).or_insert(usize::MAX);
                if x.height < *e {
                    *e = x.height;
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    for x in &t {
        assert!(x.height != usize::MAX, "template never terminates: {}", x.text);
    }
    Tpls { t, by_cat, cat_height: ch }
}
fn cat_h(cat: &str, ch: &HashMap<String, usize>, by_cat: &HashMap<String, Vec<usize>>) -> Option<usize> {
    if let Some(sub) = code_subcats(cat) {
        if sub.is_empty() || cat == "stmts" {
            return Some(0);
        }
        let mut m = None;
        for s in sub {
            if let Some(h) = cat_h(s, ch, by_cat) {
                m = Some(m.map_or(h + 1, |x: usize| x.min(h + 1)));
            }
        }
        return m;
    }
    assert!(by_cat.contains_key(cat), "unknown category {}", cat);
    ch.get(cat).copied()
}

// ---------- generation ----------
#[derive(Clone, Debug)]
pub enum Val {
    Node(Option<T>),
    List(Vec<T>),
    Tok(Span, Vec<u8>),
    None,
}

#[derive(Clone, Debug)]
pub struct Ctx {
    pub in_def: bool,
    pub no_do: bool,
    pub in_class: bool,
    pub nested: bool, // not at top level of the program
    pub numparam: u8, // 0 = forbidden, 1 = allowed here (block without params, none used in nested)
    pub fwd: u8,      // bit 0: `...`, bit 1: anonymous block available
    pub noret: bool,
    pub lambda_ok: bool,
    pub in_defined: bool,
    pub depth: i32,
    pub noin: bool,
    pub void_ok: bool,
}
#[derive(Clone, Debug)]
pub struct Scope {
    pub vars: Vec<String>,
    pub hard: bool,
    /// names being introduced by the parameter list under construction (for uniqueness)
    pub params: Vec<String>,
    pub max_numparam: usize,
}

#[derive(Clone)]
pub struct Pending {
    pub id: usize,
    pub body: Vec<u8>,
}

#[derive(Clone)]
pub struct Snap {
    len: usize,
    pend: Vec<Pending>,
    scopes: Vec<Scope>,
    ctx: Ctx,
    comments: usize,
    stack: Vec<Ctx>,
    patvars: Vec<Vec<String>>,
    patkeys: Vec<Vec<String>>,
    bases: Vec<Option<usize>>,
}

pub struct Gen {
    pub r: Rng,
    pub out: Vec<u8>,
    pub pending: Vec<Pending>,
    pub bases: Vec<Option<usize>>,
    pub comments: Vec<(Span, &'static str)>,
    pub scopes: Vec<Scope>,
    pub ctx: Ctx,
    pub stack: Vec<Ctx>,
    pub layout: u8,
    pub group: Vec<String>,
    pub force: Option<usize>,
    pub dist: Option<std::rc::Rc<Dist>>,
    pub used: Vec<usize>,
    pub patvars: Vec<Vec<String>>,
    pub patkeys: Vec<Vec<String>>,
    pub budget: i32,
    /// inside a heredoc body or a string: raw newlines must not be produced
    pub nonl: bool,
    pub fresh_n: usize,
    pub lvar_names: &'static [&'static str],
    pub rich: bool,
    pub forbid: Vec<String>,
    pub base: usize,
    /// brackets that are open in the word list being written
    pub word_nest: usize,
    pub feats: std::collections::BTreeMap<String, u64>,
    pub last_numparam: usize,
    pub no_trailing: bool,
    pub widen: usize,
    /// retries so far (bounds the work on programs whose forced construct does not fit)
    pub retries: usize,
    /// (wrapper template, target inside its body): supplies the context a target requires
    pub wrap: Option<(usize, usize, std::rc::Rc<Dist>)>,
}

pub struct Dist {
    pub tpl: Vec<usize>,
    pub cat: HashMap<String, usize>,
}

pub const LOCALS: &[&str] = &["a", "b", "c", "x", "y", "zz", "_t", "é1", "val", "lv9", "__a", "ñandú", "日本", "nil_", "end_", "_", "ﻀ", "ﾻx", "ａ", "a_local_with_a_rather_long_name_of_44_letters", "long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_lv"];
pub const METHS: &[&str] = &["foo", "bar", "baz", "qux", "m1", "do_it", "endif", "ifx", "méth", "p", "puts", "_mm", "self_", "thenx", "not_", "definedx", "rescued", "classy", "in_", "оно", "a_method_with_a_rather_long_name_of_45_letters", "long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_long_mm"];
pub const CONSTS: &[&str] = &["A", "ǅǆ", "B", "Foo", "Bar", "FOO_BAR", "Z1", "Éa", "BEGINX", "ENDX", "AConstantWithARatherLongNameOf43LettersOrSo"];
pub const KWS: &[&str] = &[
    "if", "end", "class", "def", "nil", "self", "true", "false", "while", "unless", "do", "begin", "rescue", "ensure", "case",
    "when", "in", "then", "else", "elsif", "return", "yield", "super", "not", "and", "or", "alias", "undef", "defined?", "module",
    "for", "until", "break", "next", "redo", "retry", "__FILE__", "__LINE__", "__ENCODING__", "BEGIN", "END",
];
pub const OPS: &[&str] = &[
    "+", "-", "*", "/", "%", "**", "==", "!=", "===", "=~", "!~", "<=>", "<", "<=", ">", ">=", "<<", ">>", "&", "|", "^", "!", "~",
    "+@", "-@", "!@", "~@", "[]", "[]=", "`",
];

pub fn mk(k: &str, e: Span, f: &[(&str, V)]) -> T {
    let (k, sch) = kind(k);
    let mut o = vec![];
    for (n, ty) in sch.iter() {
        let v = f.iter().find(|x| x.0 == *n).map(|x| x.1.clone()).unwrap_or(match ty {
            'N' | 'O' => V::Node(None),
            'L' => V::List(vec![]),
            's' | 'S' => V::Str(None),
            _ => V::Loc(None),
        });
        o.push((*n, v));
    }
    for x in f {
        assert!(sch.iter().any(|s| s.0 == x.0), "no field {} in {}", x.0, k);
    }
    T { k, e, f: o }
}
pub fn vs(x: &[u8]) -> V {
    V::Str(Some(x.to_vec()))
}
pub fn vl(x: Span) -> V {
    V::Loc(Some(x))
}
pub fn vn(x: T) -> V {
    V::Node(Some(Box::new(x)))
}
pub fn von(x: Option<T>) -> V {
    V::Node(x.map(Box::new))
}
pub fn join(a: Span, b: Span) -> Span {
    // positions in different heredoc bodies are never joined by the models
    (a.0.min(b.0), a.1.max(b.1))
}
/// A sequence of statements as the parser represents a body.
pub fn compstmt(mut v: Vec<T>) -> Option<T> {
    match v.len() {
        0 => None,
        1 => Some(v.remove(0)),
        _ => {
            let e = (v[0].e.0, v[v.len() - 1].e.1);
            Some(mk("Begin", e, &[("statements", V::List(v))]))
        }
    }
}
pub fn setter(l: &mut T) {
    for (n, f) in l.f.iter_mut() {
        if *n == "method_name" {
            if let V::Str(Some(m)) = f {
                m.push(b'=');
            }
        }
    }
}
/// Condition position: literal regexps match `$_`, ranges become flip-flops.
pub fn cond(t: T) -> T {
    match t.k {
        "And" | "Or" => {
            let l = cond(t.node("lhs").unwrap().clone());
            let r = cond(t.node("rhs").unwrap().clone());
            mk(t.k, t.e, &[("lhs", vn(l)), ("rhs", vn(r)), ("operator_l", V::Loc(t.loc("operator_l")))])
        }
        "Begin" => {
            if t.list("statements").len() == 1 {
                let s = cond(t.list("statements")[0].clone());
                mk("Begin", t.e, &[("statements", V::List(vec![s])), ("begin_l", V::Loc(t.loc("begin_l"))), ("end_l", V::Loc(t.loc("end_l")))])
            } else {
                t
            }
        }
        "Irange" | "Erange" => {
            let k = if t.k == "Irange" { "IFlipFlop" } else { "EFlipFlop" };
            let l = t.node("left").map(|x| cond(x.clone()));
            let r = t.node("right").map(|x| cond(x.clone()));
            mk(k, t.e, &[("left", von(l)), ("right", von(r)), ("operator_l", V::Loc(t.loc("operator_l")))])
        }
        "Regexp" => {
            let e = t.e;
            mk("MatchCurrentLine", e, &[("re", vn(t))])
        }
        _ => t,
    }
}

impl Gen {
    pub fn new(r: Rng, layout: u8, groups: &[&str]) -> Gen {
        Gen {
            r,
            out: vec![],
            pending: vec![],
            bases: vec![],
            comments: vec![],
            scopes: vec![Scope { vars: vec![], hard: true, params: vec![], max_numparam: 0 }],
            ctx: Ctx {
                in_def: false,
                no_do: false,
                in_class: false,
                nested: false,
                numparam: 0,
                fwd: 0,
                noret: false,
                lambda_ok: true,
                in_defined: false,
                depth: 6,
                noin: false,
                void_ok: true,
            },
            stack: vec![],
            layout,
            group: groups.iter().map(|x| x.to_string()).collect(),
            force: None,
            dist: None,
            used: vec![],
            patvars: vec![],
            patkeys: vec![],
            budget: 60,
            nonl: false,
            fresh_n: 0,
            lvar_names: LOCALS,
            rich: true,
            forbid: vec![],
            base: 0,
            word_nest: 0,
            feats: Default::default(),
            last_numparam: 0,
            no_trailing: false,
            widen: 0,
            retries: 0,
            wrap: None,
        }
    }
    pub fn note(&mut self, k: &str) {
        *self.feats.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn snap_pub(&self) -> Snap {
        self.snap()
    }
    pub fn restore_pub(&mut self, s: &Snap) {
        self.restore(s)
    }
    fn snap(&self) -> Snap {
        Snap {
            len: self.out.len(),
            pend: self.pending.clone(),
            scopes: self.scopes.clone(),
            ctx: self.ctx.clone(),
            comments: self.comments.len(),
            stack: self.stack.clone(),
            patvars: self.patvars.clone(),
            patkeys: self.patkeys.clone(),
            bases: self.bases.clone(),
        }
    }
    fn restore(&mut self, s: &Snap) {
        self.out.truncate(s.len);
        self.pending = s.pend.clone();
        self.scopes = s.scopes.clone();
        self.ctx = s.ctx.clone();
        self.comments.truncate(s.comments);
        self.stack = s.stack.clone();
        self.patvars = s.patvars.clone();
        self.patkeys = s.patkeys.clone();
        self.bases = s.bases.clone();
    }
    pub fn pos(&self) -> usize {
        self.base + self.out.len()
    }
    /// Emits raw text, tracking brackets (which re-enable `do` blocks).
    pub fn raw(&mut self, s: &str) -> Span {
        let b = self.pos();
        self.out.extend_from_slice(s.as_bytes());
        (b, self.pos())
    }
    pub fn tok(&mut self, s: &str) -> Span {
        let sp = self.raw(s);
        for c in s.chars() {
            match c {
                '(' | '[' | '{' => {
                    self.stack.push(self.ctx.clone());
                    self.ctx.no_do = false;
                    self.ctx.noin = false;
                }
                ')' | ']' | '}' => {
                    if let Some(c) = self.stack.pop() {
                        let d = self.ctx.depth;
                        self.ctx = c;
                        self.ctx.depth = d;
                    }
                }
                _ => {}
            }
        }
        sp
    }
    pub fn sp(&mut self) {
        let n = if self.layout == 0 { 0 } else { self.r.below(24) };
        match n {
            1 => self.raw("  "),
            2 => self.raw("\t"),
            3 if self.layout > 1 && self.pending.is_empty() && !self.nonl => self.raw(" \\\n "),
            4 if self.layout > 1 => self.raw(" \t "),
            5 if self.layout > 1 && self.r.chance(1, 3) => self.raw(" \x0c"),
            6 if self.layout > 1 && self.r.chance(1, 3) => self.raw("\x0b "),
            7 if self.layout > 1 && self.pending.is_empty() && !self.nonl && self.r.chance(1, 3) => self.raw(" \\\r\n"),
            _ => self.raw(" "),
        };
    }
    fn comment_text(&mut self) -> String {
        let c = ["", " c", " if end \"'`", "#{x}", " é日本", "\tt", " <<E", " =begin", "! /", " %w[ {", " \\", " a:", "--", " __END__"];
        format!("#{}", self.r.pick(&c))
    }
    pub fn comment(&mut self) {
        let b = self.pos();
        let t = self.comment_text();
        self.raw(&t);
        let e = self.pos();
        self.comments.push(((b, e), "inline"));
    }
    /// A real line break; pending heredoc bodies follow it.
    pub fn hard_nl(&mut self) {
        self.raw("\n");
        self.flush();
    }
    pub fn flush(&mut self) {
        for p in std::mem::take(&mut self.pending) {
            self.bases[p.id] = Some(self.pos());
            self.out.extend_from_slice(&p.body);
        }
    }
    /// Line break with layout noise: comments, blank lines, =begin blocks, indentation.
    pub fn nl(&mut self) -> Span {
        if self.nonl {
            return self.raw(";");
        }
        if self.layout > 0 && self.r.chance(1, 10) {
            self.sp();
            self.comment();
        }
        // which of several line breaks (between comment lines) is reported as the separator is not
        // prescribed
        let at = if self.layout == 0 { (self.pos(), self.pos() + 1) } else { crate::heredoc::ANY };
        self.hard_nl();
        if self.layout > 1 {
            while self.r.chance(1, 12) {
                match self.r.below(5) {
                    0 => {
                        self.raw("\n");
                    }
                    1 => {
                        self.raw("  \t\n");
                    }
                    2 | 3 => {
                        self.raw("  ");
                        self.comment();
                        self.raw("\n");
                    }
                    _ => {
                        let b = self.pos();
                        let doc = ["=begin\n=end\n", "=begin x\n foo(\n# y\n=end z\n", "=begin\tq\n\n=endx\n =end\n=end\n", "=begin\nclass\n=end # c\n", "=begin\n=end=\n=end-\n=end#\n=END\n=beginx\n=begin\n\\\n=end\t=end\n"];
                        let d = *self.r.pick(&doc);
                        self.raw(d);
                        let e = self.pos();
                        self.comments.push(((b, e), "document"));
                    }
                };
            }
        }
        if self.layout > 0 {
            let ind = self.r.below(3);
            for _ in 0..ind {
                self.raw(" ");
            }
        }
        at
    }
    /// Place where a newline is insignificant (after an operator, comma, opening bracket).
    pub fn gap(&mut self) {
        if self.nonl || self.layout == 0 || !self.r.chance(1, 14) {
            return;
        }
        self.nl();
    }
    /// Statement separator.
    pub fn term(&mut self) -> Span {
        if self.nonl || (self.r.chance(1, 4) && self.layout > 0) {
            if self.layout > 1 && self.r.chance(1, 4) {
                self.raw(" ");
            }
            let at = self.raw(";");
            if self.layout > 1 && self.r.chance(1, 6) {
                self.nl();
            }
            if self.r.chance(1, 2) {
                self.raw(" ");
            }
            at
        } else {
            self.nl()
        }
    }
    fn lit(&mut self, s: &str) {
        for c in s.chars() {
            match c {
                ' ' => self.sp(),
                '⏎' => {
                    self.term();
                }
                '↵' => {
                    self.nl();
                }
                '·' => self.gap(),
                '⋄' => {
                    // optional break before a leading dot
                    if !self.nonl && self.layout > 0 && self.r.chance(1, 8) {
                        if self.layout > 1 && self.r.chance(1, 4) {
                            self.raw(" ");
                            self.comment();
                        }
                        self.hard_nl();
                        if self.layout > 1 && self.r.chance(1, 4) {
                            self.raw("  ");
                            self.comment();
                            self.raw("\n");
                        }
                        if self.r.chance(2, 3) {
                            self.raw("  ");
                        }
                    }
                }
                c => {
                    let mut b = [0; 4];
                    let s: &str = c.encode_utf8(&mut b);
                    let s = s.to_string();
                    self.tok(&s);
                }
            }
        }
    }

    // ----- scopes -----
    pub fn declared(&self, n: &str) -> bool {
        for s in self.scopes.iter().rev() {
            if s.vars.iter().any(|v| v == n) {
                return true;
            }
            if s.hard {
                return false;
            }
        }
        false
    }
    pub fn declare(&mut self, n: &str) {
        if !self.declared(n) {
            self.scopes.last_mut().unwrap().vars.push(n.to_string());
        }
    }
    fn declare_here(&mut self, n: &str) {
        self.scopes.last_mut().unwrap().vars.push(n.to_string());
    }
    fn dir(&mut self, d: &str) {
        match d {
            "+def" => {
                self.stack.push(self.ctx.clone());
                self.scopes.push(Scope { vars: vec![], hard: true, params: vec![], max_numparam: 0 });
                self.ctx.in_def = true;
                self.ctx.no_do = false;
                self.ctx.noin = false;
                self.ctx.in_class = false;
                self.ctx.void_ok = true;
                self.ctx.nested = true;
                self.ctx.numparam = 0;
                self.ctx.fwd = 0;
            }
            "+class" => {
                self.stack.push(self.ctx.clone());
                self.scopes.push(Scope { vars: vec![], hard: true, params: vec![], max_numparam: 0 });
                self.ctx.in_def = false;
                self.ctx.no_do = false;
                self.ctx.noin = false;
                self.ctx.in_class = true;
                self.ctx.void_ok = true;
                self.ctx.nested = true;
                self.ctx.numparam = 0;
                self.ctx.fwd = 0;
            }
            "+sclass" => {
                self.stack.push(self.ctx.clone());
                self.scopes.push(Scope { vars: vec![], hard: true, params: vec![], max_numparam: 0 });
                self.ctx.in_def = false;
                self.ctx.no_do = false;
                self.ctx.noin = false;
                self.ctx.in_class = false;
                self.ctx.void_ok = true;
                self.ctx.nested = true;
                self.ctx.numparam = 0;
                self.ctx.fwd = 0;
                self.ctx.noret = true;
            }
            "+blk" => {
                self.stack.push(self.ctx.clone());
                self.scopes.push(Scope { vars: vec![], hard: false, params: vec![], max_numparam: 0 });
                self.ctx.void_ok = true;
                self.ctx.nested = true;
                self.ctx.no_do = false;
                if self.ctx.numparam == 1 {
                    self.ctx.numparam = 2;
                }
            }
            "+nblk" => {
                self.stack.push(self.ctx.clone());
                self.scopes.push(Scope { vars: vec![], hard: false, params: vec![], max_numparam: 0 });
                self.ctx.void_ok = true;
                self.ctx.nested = true;
                self.ctx.no_do = false;
                self.ctx.numparam = if self.ctx.numparam == 0 { 1 } else { 2 };
            }
            "+fwd" => self.ctx.fwd = 1,
            "+anonblk" => self.ctx.fwd = 2,
            "+nodo" => {
                self.stack.push(self.ctx.clone());
                self.ctx.no_do = true;
            }
            "+do" => {
                self.stack.push(self.ctx.clone());
                self.ctx.no_do = false;
            }
            "+nest" => {
                self.stack.push(self.ctx.clone());
                self.ctx.nested = true;
            }
            "+defined" => {
                self.stack.push(self.ctx.clone());
                self.ctx.in_defined = true;
            }
            "+noin" => {
                self.stack.push(self.ctx.clone());
                self.ctx.noin = true;
            }
            "+noscope" => {
                self.stack.push(self.ctx.clone());
            }
            "-" => {
                let c = self.stack.pop().expect("ctx stack");
                let d = self.ctx.depth;
                self.ctx = c;
                self.ctx.depth = d;
            }
            "-def" | "-s" => {}
            "+pat" => {
                self.patvars.push(vec![]);
                self.patkeys.push(vec![]);
            }
            "!patend" => {
                self.patvars.pop();
                self.patkeys.pop();
            }
            "+keys" => self.patkeys.push(vec![]),
            "!keysend" => {
                self.patkeys.pop();
            }
            "!pop" => {
                self.last_numparam = self.scopes.pop().map_or(0, |s| s.max_numparam);
                let c = self.stack.pop().expect("ctx stack");
                let d = self.ctx.depth;
                self.ctx = c;
                self.ctx.depth = d;
            }
            x => panic!("directive {}", x),
        }
    }

    fn flags_ok(&self, t: &Tpl) -> bool {
        for f in &t.flags {
            let ok = match f.as_str() {
                "nodef" => !self.ctx.in_def,
                "def" => self.ctx.in_def,
                "do" => !self.ctx.no_do,
                "top" => !self.ctx.nested && self.stack.is_empty(),
                "ret" => !self.ctx.in_class,
                "nonl" => true,
                "fwd" => self.ctx.fwd & 1 != 0,
                "anonblk" => self.ctx.fwd & 2 != 0,
                "num" => self.ctx.numparam == 1,
                "nodefined" => !self.ctx.in_defined,
                "in" => !self.ctx.noin,
                "rich" => self.rich,
                "void" => self.ctx.void_ok,
                "nonum" => self.ctx.numparam == 0,
                "nl" => !self.nonl,
                _ => true,
            };
            if !ok {
                return false;
            }
        }
        true
    }

    pub fn gen(&mut self, cat: &str, force: Option<usize>) -> Val {
        self.budget -= 1;
        self.ctx.depth -= 1;
        let r = self.gen0(cat, force);
        self.ctx.depth += 1;
        r
    }
    pub fn node(&mut self, cat: &str, force: Option<usize>) -> T {
        match self.gen(cat, force) {
            Val::Node(Some(t)) => t,
            v => panic!("category {} gave {:?}", cat, v),
        }
    }
    fn gen0(&mut self, cat: &str, force: Option<usize>) -> Val {
        if code_subcats(cat).is_some() {
            return self.code(cat, force);
        }
        let tp = tpls();
        let ids = &tp.by_cat[cat];
        let mut cand: Vec<usize> = ids.iter().copied().filter(|i| self.flags_ok(&tp.t[*i])).collect();
        if cand.is_empty() {
            panic!("no template for {} in {:?}", cat, self.ctx);
        }
        let mut force = force;
        if self.ctx.depth < -14 || self.retries > 60 {
            force = None;
        }
        if let Some(target) = force {
            let d = self.dist.clone().unwrap();
            if cand.contains(&target) && (self.r.chance(3, 4) || self.ctx.depth < 1) {
                return self.emit(&tp.t[target], None);
            }
            let slack = if self.ctx.depth > 2 { self.r.below(2) } else { 0 };
            let best = cand.iter().map(|i| d.tpl[*i]).min().unwrap_or(usize::MAX);
            if best == usize::MAX {
                force = None;
            } else {
                cand.retain(|i| d.tpl[*i] <= best.saturating_add(slack));
                let id = *self.r.pick(&cand);
                if id == target {
                    return self.emit(&tp.t[id], None);
                }
                return self.emit(&tp.t[id], force);
            }
        }
        let _ = force;
        if self.ctx.depth <= 0 || self.budget <= 0 {
            let m = cand.iter().map(|i| tp.t[*i].height).min().unwrap();
            cand.retain(|i| tp.t[*i].height == m);
        }
        let total: usize = cand.iter().map(|i| self.weight(&tp.t[*i])).sum();
        let mut x = self.r.below(total);
        let mut id = cand[0];
        for i in &cand {
            let w = self.weight(&tp.t[*i]);
            if x < w {
                id = *i;
                break;
            }
            x -= w;
        }
        self.emit(&tp.t[id], None)
    }
    fn weight(&self, t: &Tpl) -> usize {
        if self.group.iter().any(|g| *g == t.group) {
            t.weight * 5
        } else {
            t.weight
        }
    }

    fn emit(&mut self, t: &'static Tpl, force: Option<usize>) -> Val {
        self.used.push(t.id);
        // which hole carries the forced target
        let mut carrier = None;
        let mut force = force;
        if force.is_none() && matches!(&self.wrap, Some(w) if w.0 == t.id) {
            let (_, target, d) = self.wrap.take().unwrap();
            self.dist = Some(d);
            force = Some(target);
            carrier = t.segs.iter().position(|s| matches!(s, Seg::Hole { cat, .. } if cat == "stmts"));
        } else if let Some(target) = force {
            let d = self.dist.clone().unwrap();
            let mut c: Vec<(usize, usize)> = vec![];
            for (i, s) in t.segs.iter().enumerate() {
                if let Seg::Hole { cat, .. } = s {
                    let x = cat_dist(cat, &d.cat, target);
                    if x != usize::MAX {
                        c.push((x, i));
                    }
                }
            }
            if let Some(m) = c.iter().map(|x| x.0).min() {
                c.retain(|x| x.0 == m);
                carrier = Some(self.r.pick(&c).1);
            }
        }
        let start = self.pos();
        let mut env: Vec<(String, Val)> = vec![];
        for (i, s) in t.segs.iter().enumerate() {
            match s {
                Seg::Lit(l) => self.lit(l),
                Seg::Mark(n, x) => {
                    let sp = self.tok(x);
                    env.push((n.clone(), Val::Tok(sp, x.clone().into_bytes())));
                }
                Seg::Dir(d) => self.dir(d),
                Seg::Hole { name, cat, not_first } => {
                    let f = if carrier == Some(i) { force } else { None };
                    let keep = t.segs.len() == 1 || cat == "stmts";
                    let void = self.ctx.void_ok;
                    self.ctx.void_ok = void && keep;
                    let sn = self.snap();
                    let mut tries = 0;
                    let v = loop {
                        let b = self.pos();
                        let v = self.gen(cat, f);
                        if not_first.is_empty() {
                            break v;
                        }
                        let o = b - self.base;
                        if !bad_hole(not_first, &self.out[o..], &v) {
                            break v;
                        }
                        tries += 1;
                        self.retries += 1;
                        self.restore(&sn);
                        if tries > 12 || self.retries > 400 {
                            if not_first.contains('B') || cat == "ccall" {
                                let sp = self.raw("foo!()");
                                break Val::Node(Some(mk("Send", sp, &[("method_name", vs(b"foo!")), ("selector_l", vl((sp.0, sp.0 + 4))), ("begin_l", vl((sp.0 + 4, sp.0 + 5))), ("end_l", vl((sp.0 + 5, sp.1)))])));
                            }
                            if cat == "phlist" {
                                let k = self.raw("zz0");
                                let o = self.raw(":");
                                self.raw(" ");
                                let x = self.simple();
                                let x = match x {
                                    Val::Node(Some(x)) => x,
                                    _ => panic!(),
                                };
                                let e = (k.0, x.e.1);
                                break Val::List(vec![mk("Pair", e, &[("key", vn(mk("Sym", k, &[("name", vs(b"zz0"))]))), ("value", vn(x)), ("operator_l", vl(o))])]);
                            }
                            let s = self.simple();
                            break match v {
                                Val::List(_) => match s {
                                    Val::Node(Some(n)) => Val::List(vec![n]),
                                    s => s,
                                },
                                _ => s,
                            };
                        }
                    };
                    self.ctx.void_ok = void;
                    env.push((name.clone(), v));
                }
            }
        }
        let end = self.pos();
        let v = self.eval(&t.ast, &env, (start, end), true, t);
        v
    }
    /// A trivially safe operand.
    fn simple(&mut self) -> Val {
        let n = self.r.below(90) + 10;
        let sp = self.raw(&n.to_string());
        Val::Node(Some(mk("Int", sp, &[("value", vs(n.to_string().as_bytes()))])))
    }

    fn spanof(&self, n: &str, env: &[(String, Val)], whole: Span, t: &Tpl) -> Option<Span> {
        if n == "*" {
            return Some(whole);
        }
        match env.iter().find(|x| x.0 == n).map(|x| &x.1) {
            Some(Val::Tok(s, _)) => Some(*s),
            Some(Val::Node(Some(t))) => Some(t.e),
            Some(Val::List(l)) if !l.is_empty() => Some(join(l[0].e, l[l.len() - 1].e)),
            Some(_) => None,
            None => panic!("name {} not bound in {}", n, t.text),
        }
    }
    fn joined(&self, ns: &[String], env: &[(String, Val)], whole: Span, t: &Tpl) -> Option<Span> {
        let mut r: Option<Span> = None;
        for n in ns {
            if let Some(s) = self.spanof(n, env, whole, t) {
                r = Some(match r {
                    None => s,
                    Some(q) => join(q, s),
                });
            }
        }
        r
    }
    fn eval(&self, a: &A, env: &[(String, Val)], whole: Span, root: bool, t: &Tpl) -> Val {
        match a {
            A::Nil => Val::None,
            A::Str(s) => Val::Tok((0, 0), s.clone()),
            A::Join(ns) => match self.joined(ns, env, whole, t) {
                Some(s) => Val::Tok(s, vec![]),
                None => Val::None,
            },
            A::Name(n) => env.iter().find(|x| x.0 == *n).map(|x| x.1.clone()).unwrap_or_else(|| panic!("name {} not bound in {}", n, t.text)),
            A::List(l) => {
                let mut o = vec![];
                for (splat, x) in l {
                    match self.eval(x, env, whole, false, t) {
                        Val::Node(Some(n)) => o.push(n),
                        Val::List(v) if *splat => o.extend(v),
                        Val::None | Val::Node(None) => {}
                        v => panic!("bad list element {:?} in {}", v, t.text),
                    }
                }
                Val::List(o)
            }
            A::Call(f, args) => {
                let vals: Vec<Val> = args.iter().map(|x| self.eval(x, env, whole, false, t)).collect();
                match (f.as_str(), &vals[..]) {
                    ("cond", [Val::Node(Some(n))]) => Val::Node(Some(cond(n.clone()))),
                    ("compstmt", [Val::List(l)]) => Val::Node(compstmt(l.clone())),
                    ("nblk", [Val::Node(Some(c)), body, Val::Tok(b, _), Val::Tok(e, _)]) => {
                        let body = match body {
                            Val::Node(x) => x.clone(),
                            _ => None,
                        };
                        let k = if self.last_numparam > 0 { "Numblock" } else { "Block" };
                        let mut f = vec![("call", vn(c.clone())), ("body", von(body)), ("begin_l", vl(*b)), ("end_l", vl(*e))];
                        if self.last_numparam > 0 {
                            f.push(("numargs", vs(&[self.last_numparam as u8])));
                        }
                        Val::Node(Some(mk(k, (c.e.0, e.1), &f)))
                    }
                    ("strip", [Val::Tok(s, x)]) => Val::Tok(*s, x[..x.len() - 1].to_vec()),
                    ("set", [Val::Tok(s, x)]) => {
                        let mut x = x.clone();
                        x.push(b'=');
                        Val::Tok(*s, x)
                    }
                    ("flat", [v]) => match v {
                        Val::Node(Some(n)) if n.k == "Begin" && n.loc("begin_l").is_none() => Val::List(n.list("statements").to_vec()),
                        Val::Node(Some(n)) => Val::List(vec![n.clone()]),
                        _ => Val::List(vec![]),
                    },
                    ("asgn", [Val::Node(Some(l)), Val::Tok(o, op), Val::Node(Some(v))]) => {
                        let op = std::str::from_utf8(&op[..op.len() - 1]).unwrap();
                        let mut l = l.clone();
                        if op.is_empty() && (l.k == "Send" || l.k == "CSend") {
                            setter(&mut l);
                        }
                        if op.is_empty() && l.k == "IndexAsgn" {
                            for (n, f) in l.f.iter_mut() {
                                if *n == "indexes" {
                                    if let V::List(v) = f {
                                        crate::gen_code::kwargs_to_hash(v);
                                    }
                                }
                            }
                        }
                        let e = (l.e.0, v.e.1);
                        Val::Node(Some(crate::ops::assign(l, op, *o, v.clone(), e)))
                    }
                    ("loopmod", [Val::Node(Some(s)), Val::Node(Some(c)), Val::Tok(k, kw)]) => {
                        let post = s.k == "KwBegin";
                        let kind = match (&kw[..], post) {
                            (b"while", false) => "While",
                            (b"while", true) => "WhilePost",
                            (_, false) => "Until",
                            (_, true) => "UntilPost",
                        };
                        Val::Node(Some(mk(kind, (s.e.0, c.e.1), &[("cond", vn(c.clone())), ("body", vn(s.clone())), ("keyword_l", vl(*k))])))
                    }
                    ("emptyelse", [f, Val::Tok(l, _)]) => match f {
                        Val::Node(Some(n)) => Val::Node(Some(n.clone())),
                        _ => Val::Node(Some(mk("EmptyElse", *l, &[]))),
                    },
                    ("first", [Val::Tok(s, _)]) => Val::Tok((s.0, s.0 + 1), vec![]),
                    ("second", [Val::Tok(s, _)]) => Val::Tok((s.0 + 1, s.0 + 2), vec![]),
                    (f, v) => panic!("call {} {:?} in {}", f, v, t.text),
                }
            }
            A::Node { k, f, span } => {
                let sch = kind(k).1;
                let mut o = vec![];
                for (n, ty) in sch {
                    let v = f.iter().find(|x| x.0 == *n).map(|x| self.eval(&x.1, env, whole, false, t)).unwrap_or(Val::None);
                    let vv = match (ty, v) {
                        ('N' | 'O', Val::Node(x)) => V::Node(x.map(Box::new)),
                        ('O', Val::None) => V::Node(None),
                        ('L', Val::List(l)) => V::List(l),
                        ('L', Val::None) => V::List(vec![]),
                        ('l' | 'o', Val::Tok(s, _)) => V::Loc(Some(s)),
                        ('l' | 'o', Val::Node(Some(x))) => V::Loc(Some(x.e)),
                        ('o', Val::None) => V::Loc(None),
                        ('s' | 'S', Val::Tok(_, s)) => V::Str(Some(s)),
                        ('S', Val::None) => V::Str(None),
                        (ty, v) => panic!("field {}.{} kind {} value {:?} in {}", k, n, ty, v, t.text),
                    };
                    o.push((*n, vv));
                }
                for (n, _) in f {
                    assert!(sch.iter().any(|s| s.0 == n), "no field {} in {} ({})", n, k, t.text);
                }
                let e = if span.is_empty() {
                    assert!(root, "nested node {} without span in {}", k, t.text);
                    whole
                } else {
                    self.joined(span, env, whole, t).unwrap_or(whole)
                };
                Val::Node(Some(T { k, e, f: o }))
            }
        }
    }
    /// Finishes: flushes heredocs and resolves their positions in `t`.
    pub fn finish(&mut self, t: &mut Option<T>) {
        if !self.pending.is_empty() {
            self.hard_nl();
        }
        let bases: Vec<usize> = self.bases.iter().map(|b| b.unwrap_or(0)).collect();
        if let Some(t) = t {
            resolve(t, &bases);
        }
        for c in self.comments.iter_mut() {
            c.0 = (res_pos(c.0 .0, &bases), res_pos(c.0 .1, &bases));
        }
    }
}

pub fn res_pos(p: usize, bases: &[usize]) -> usize {
    if p < BIG {
        return p;
    }
    let id = p / BIG - 1;
    let off = p % BIG;
    res_pos(bases[id], bases) + off
}
pub fn resolve(t: &mut T, bases: &[usize]) {
    t.map_locs(&|p| res_pos(p, bases));
}

pub fn starts_kw_mod(rest: &[u8]) -> bool {
    ["if", "unless", "while", "until", "rescue"].iter().any(|k| {
        rest.starts_with(k.as_bytes()) && rest.get(k.len()).map_or(true, |c| !(c.is_ascii_alphanumeric() || *c == b'_' || *c >= 0x80 || *c == b':' || *c == b'?' || *c == b'!'))
    })
}
/// Restrictions on the text (and tree) of a hole. Letters: `A` ambiguous as the first argument of a
/// parenless call, `K` starts with a modifier keyword, `L` ends in something a following keyword
/// would be glued to, `R` would swallow a following `rescue`, `I` a literal, other: first character.
pub fn bad_hole(set: &str, rest: &[u8], v: &Val) -> bool {
    let first = rest.first().copied().unwrap_or(b' ');
    for c in set.chars() {
        let bad = match c {
            'A' => b"{(.".contains(&first) || b"/%".contains(&first) && rest.get(1).map_or(true, |c| c.is_ascii_whitespace() || *c == b'=') || starts_kw_mod(rest) || rest.starts_with(b"do ") || first == b'!' && rest.get(1).map_or(false, |c| b"=~".contains(c)),
            'K' => starts_kw_mod(rest),
            'S' => rest.ends_with(b"&"),
            'Q' => rest.ends_with(b"\":") || rest.ends_with(b"*"),
            'L' => rest.ends_with(b":") || rest.ends_with(b".."),
            'R' => matches!(v, Val::Node(Some(t)) if crate::ops::right_open(t)),
            'B' => matches!(v, Val::Node(Some(t)) if t.list("args").last().map_or(false, |a| a.k == "BlockPass")),
            'I' => matches!(v, Val::Node(Some(t)) if matches!(t.k, "Int" | "Float" | "Rational" | "Complex" | "Str" | "Dstr" | "Sym" | "Dsym" | "Heredoc" | "XHeredoc" | "Xstr" | "Regexp" | "Array" | "Hash" | "Irange" | "Erange" | "Begin")),
            c => first == c as u8,
        };
        if bad {
            return true;
        }
    }
    false
}

thread_local! {
    static DISTS: std::cell::RefCell<HashMap<usize, std::rc::Rc<Dist>>> = std::cell::RefCell::new(HashMap::new());
}
pub fn dist_cached(target: usize) -> std::rc::Rc<Dist> {
    DISTS.with(|d| d.borrow_mut().entry(target).or_insert_with(|| std::rc::Rc::new(dist_to(target))).clone())
}
fn wrappers(flag: &str) -> Vec<usize> {
    let dir = match flag {
        "def" => "+def",
        "fwd" => "+fwd",
        "anonblk" => "+anonblk",
        _ => "+nblk",
    };
    tpls()
        .t
        .iter()
        .filter(|t| t.cat == "primary" && t.segs.iter().any(|s| matches!(s, Seg::Dir(d) if d == dir)) && t.segs.iter().any(|s| matches!(s, Seg::Hole { cat, .. } if cat == "stmts")))
        .filter(|t| !t.flags.iter().any(|f| f == "do"))
        .map(|t| t.id)
        .collect()
}
impl Gen {
    /// A program that contains template `target`, its expected tree, comments in `self.comments`.
    pub fn program(&mut self, target: Option<usize>) -> Option<T> {
        let mut v = match target {
            None => self.gen("topstmts", None),
            Some(target) => {
                let t = &tpls().t[target];
                if t.cat == "topstmt" {
                    let n = self.node("topstmt", None);
                    Val::Node(Some(n))
                } else {
                    let need = t.flags.iter().find(|f| ["def", "fwd", "anonblk", "num"].contains(&f.as_str()));
                    match need {
                        Some(f) => {
                            let ws = wrappers(f);
                            let w = *self.r.pick(&ws);
                            self.wrap = Some((w, target, dist_cached(target)));
                            self.dist = Some(dist_cached(w));
                            self.gen("topstmts", Some(w))
                        }
                        None => {
                            self.dist = Some(dist_cached(target));
                            self.gen("topstmts", Some(target))
                        }
                    }
                }
            }
        };
        let mut t = match &mut v {
            Val::Node(t) => t.take(),
            _ => panic!("program"),
        };
        self.finish(&mut t);
        t
    }
}
pub fn cat_dist(cat: &str, d: &HashMap<String, usize>, _target: usize) -> usize {
    if let Some(sub) = code_subcats(cat) {
        return sub.iter().map(|s| d.get(*s).copied().unwrap_or(usize::MAX)).min().unwrap_or(usize::MAX).saturating_add(1);
    }
    d.get(cat).copied().unwrap_or(usize::MAX)
}
pub fn dist_to(target: usize) -> Dist {
    let tp = tpls();
    let mut tpl = vec![usize::MAX; tp.t.len()];
    let mut cat: HashMap<String, usize> = HashMap::new();
    tpl[target] = 0;
    loop {
        let mut ch = false;
        for t in &tp.t {
            let mut d = tpl[t.id];
            for s in &t.segs {
                if let Seg::Hole { cat: c, .. } = s {
                    let x = cat_dist(c, &cat, target).saturating_add(1);
                    if x < d {
                        d = x
                    }
                }
            }
            if d < tpl[t.id] {
                tpl[t.id] = d;
                ch = true;
            }
            let e = cat.entry(t.cat.clone()).or_insert(usize::MAX);
            if tpl[t.id] < *e {
                *e = tpl[t.id];
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    Dist { tpl, cat }
}
