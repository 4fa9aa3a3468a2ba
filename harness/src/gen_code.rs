//! Categories of the reference generator implemented in code: names, lists, parameters.
use crate::gen::*;
use crate::tree::{Span, T, V};

/// Trailing pairs are a brace-less hash, not keyword arguments.
pub fn kwargs_to_hash(l: &mut [T]) {
    if let Some(x) = l.last_mut() {
        if x.k == "Kwargs" {
            *x = mk("Hash", x.e, &[("pairs", x.get("pairs").unwrap().clone())]);
        }
    }
}
fn tokv(sp: Span, s: &str) -> Val {
    Val::Tok(sp, s.as_bytes().to_vec())
}

impl Gen {
    pub fn code(&mut self, cat: &str, force: Option<usize>) -> Val {
        const LISTS: &[&str] = &["stmts", "args", "cargs", "elems", "pairs", "mrhs", "excs", "whens", "ins", "rescues", "rargs", "params", "bparams", "mlhs", "palist", "phlist"];
        if self.ctx.depth > 0 && self.budget > 0 && LISTS.contains(&cat) && self.r.chance(1, 20) {
            // a long list of small elements
            let d = self.ctx.depth;
            self.ctx.depth = if matches!(cat, "whens" | "ins" | "rescues") { 1 } else { 0 };
            self.widen = self.r.range(6, 26);
            self.note("gen:long list");
            let v = self.code1(cat, force);
            self.widen = 0;
            self.ctx.depth = d;
            return v;
        }
        self.code1(cat, force)
    }
    /// The length of a list.
    fn width(&mut self, n: usize) -> usize {
        match std::mem::take(&mut self.widen) {
            0 => n,
            w => w,
        }
    }
    fn code1(&mut self, cat: &str, force: Option<usize>) -> Val {
        match cat {
            "stmts" | "topstmts" => {
                let n = if cat == "topstmts" {
                    self.r.range(1, 3)
                } else if self.ctx.depth <= 0 || self.budget <= 0 {
                    usize::from(self.r.chance(1, 4))
                } else {
                    [0, 1, 1, 1, 2, 2, 3][self.r.below(7)]
                };
                let n = if force.is_some() { n.max(1) } else { n };
                let n = self.width(n);
                let fi = self.r.below(n.max(1));
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 {
                        self.term();
                    }
                    let f = if i == fi { force } else { None };
                    let c = if cat == "topstmts" && self.r.chance(1, 40) { "topstmt" } else { "stmt" };
                    v.push(self.node(c, f));
                }
                Val::Node(compstmt(v))
            }
            "then" => match self.r.below(4) {
                0 if !self.nonl => {
                    let at = self.nl();
                    tokv(at, "\n")
                }
                1 => {
                    let at = self.term();
                    tokv(at, ";")
                }
                2 if self.r.chance(1, 3) => {
                    self.term();
                    let at = self.raw("then");
                    self.sp();
                    tokv(at, "then")
                }
                _ => {
                    self.sp();
                    let at = self.raw("then");
                    self.sp();
                    tokv(at, "then")
                }
            },
            "docl" => match self.r.below(3) {
                0 => {
                    self.sp();
                    let at = self.raw("do");
                    self.sp();
                    tokv(at, "do")
                }
                _ => {
                    let at = self.term();
                    tokv(at, ";")
                }
            },
            "term" => {
                let at = self.term();
                tokv(at, ";")
            }
            "mid" => {
                let n = *self.r.pick(METHS);
                let sp = self.raw(n);
                tokv(sp, n)
            }
            "fid" => {
                let n = format!("{}{}", self.r.pick(METHS), self.r.pick(&["?", "!"]));
                let sp = self.raw(&n);
                tokv(sp, &n)
            }
            "const" => {
                let n = *self.r.pick(CONSTS);
                let sp = self.raw(n);
                tokv(sp, n)
            }
            // method name after a dot: identifiers, constants excluded, keywords, ?/! names
            "attr" => {
                let n = match self.r.below(6) {
                    0 => self.r.pick(&KWS[..KWS.len() - 2]).to_string(), // `x::END` is a constant
                    1 => format!("{}{}", self.r.pick(METHS), self.r.pick(&["?", "!"])),
                    2 => self.lvar_names[self.r.below(self.lvar_names.len())].to_string(),
                    _ => self.r.pick(METHS).to_string(),
                };
                let sp = self.raw(&n);
                tokv(sp, &n)
            }
            // plain identifier after a dot
            "ident" => {
                let n = *self.r.pick(METHS);
                let sp = self.raw(n);
                tokv(sp, n)
            }
            // any method name allowed in `def`, `alias`, `undef`, `:sym`
            "mname" => {
                let n = match self.r.below(7) {
                    0 => self.r.pick(KWS).to_string(),
                    1 => format!("{}{}", self.r.pick(METHS), self.r.pick(&["?", "!"])),
                    2 => format!("{}=", self.r.pick(METHS)),
                    3 => self.r.pick(OPS).to_string(),
                    4 => self.r.pick(CONSTS).to_string(),
                    _ => self.r.pick(METHS).to_string(),
                };
                let sp = self.raw(&n);
                tokv(sp, &n)
            }
            // not a setter, not starting with a keyword-like `BEGIN`
            "pubname" => {
                let n = match self.r.below(6) {
                    0 => self.r.pick(KWS).to_string(),
                    1 => format!("{}{}", self.r.pick(METHS), self.r.pick(&["?", "!"])),
                    2 => self.r.pick(&["+", "-", "*", "==", "[]", "<=>", "!", "+@", "-@", "=~", "===", "**", "<<", "`"]).to_string(),
                    3 => self.r.pick(CONSTS).to_string(),
                    _ => self.r.pick(METHS).to_string(),
                };
                let sp = self.raw(&n);
                tokv(sp, &n)
            }
            "mset" => {
                let n = format!("{}=", self.r.pick(METHS));
                let sp = self.raw(&n);
                tokv(sp, &n)
            }
            "op" => {
                let n = *self.r.pick(OPS);
                let sp = self.raw(n);
                tokv(sp, n)
            }
            "ivar" => {
                let n = *self.r.pick(&["@a", "@foo", "@_x", "@é", "@A", "@if"]);
                let sp = self.raw(n);
                tokv(sp, n)
            }
            "cvar" => {
                let n = *self.r.pick(&["@@a", "@@foo", "@@_x", "@@é", "@@end"]);
                let sp = self.raw(n);
                tokv(sp, n)
            }
            "gvar" => {
                let n = *self.r.pick(&["$a", "$foo", "$_x", "$_", "$~", "$*", "$$", "$?", "$!", "$@", "$/", "$\\", "$;", "$,", "$.", "$=", "$:", "$<", "$>", "$\"", "$-w", "$-K", "$0", "$é", "$while"]);
                let sp = self.raw(n);
                tokv(sp, n)
            }
            // a new or existing local, declared from here on
            "decl" => {
                let n = self.lvar_names[self.r.below(self.lvar_names.len())];
                let sp = self.raw(n);
                self.declare(n);
                tokv(sp, n)
            }
            // reference to a name of the local pool: a variable iff declared, else a call
            "ref" => {
                let n = loop {
                    let n = self.lvar_names[self.r.below(self.lvar_names.len())];
                    if !self.forbid.iter().any(|f| f == n) {
                        break n;
                    }
                };
                let sp = self.raw(n);
                Val::Node(Some(self.refnode(n, sp)))
            }
            // a name that is certainly declared
            "declref" => {
                let mut vis: Vec<String> = vec![];
                for s in self.scopes.iter().rev() {
                    vis.extend(s.vars.iter().cloned());
                    if s.hard {
                        break;
                    }
                }
                vis.retain(|v| !self.forbid.contains(v) && !v.starts_with("_1"));
                if vis.is_empty() {
                    let sp = self.raw("nil");
                    return Val::Node(Some(mk("Nil", sp, &[])));
                }
                let n = vis[self.r.below(vis.len())].clone();
                let sp = self.raw(&n);
                Val::Node(Some(mk("Lvar", sp, &[("name", vs(n.as_bytes()))])))
            }
            "newarg" => {
                let n = self.new_param();
                let sp = self.raw(&n);
                self.declare_here_pub(&n);
                tokv(sp, &n)
            }
            "patdecl" => {
                let n = self.new_patvar();
                let sp = self.raw(&n);
                self.declare(&n);
                tokv(sp, &n)
            }
            "pkey" => {
                // a hash-pattern key without value: binds a variable and must be new in both senses
                let n = self.new_patvar();
                self.patkeys.last_mut().unwrap().push(n.clone());
                let sp = self.raw(&n);
                self.declare(&n);
                tokv(sp, &n)
            }
            "lab" => {
                // a hash-pattern key with value: unique in its pattern
                let n = loop {
                    let n = match self.r.below(6) {
                        0 => self.r.pick(KWS).trim_end_matches('?').to_string(),
                        1 => self.r.pick(CONSTS).to_string(),
                        2 => format!("{}{}", self.r.pick(METHS), self.r.pick(&["?", "!"])),
                        // keys that other patterns around this one have as well
                        3 | 4 => self.r.pick(&["k", "k", "l", "nil", "k?"]).to_string(),
                        _ => format!("{}{}", self.r.pick(METHS), self.r.below(50)),
                    };
                    if !self.patkeys.last().unwrap().contains(&n) {
                        break n;
                    }
                };
                self.patkeys.last_mut().unwrap().push(n.clone());
                let sp = self.raw(&n);
                tokv(sp, &n)
            }
            "label" => {
                let n = match self.r.below(5) {
                    0 => self.r.pick(KWS).trim_end_matches('?').to_string(),
                    1 => self.r.pick(CONSTS).to_string(),
                    2 => format!("{}{}", self.r.pick(METHS), self.r.pick(&["?", "!"])),
                    3 => self.lvar_names[self.r.below(self.lvar_names.len())].to_string(),
                    _ => self.r.pick(METHS).to_string(),
                };
                let sp = self.raw(&n);
                tokv(sp, &n)
            }
            "args" => {
                let n = [0, 0, 1, 1, 1, 2, 3][self.r.below(7)];
                Val::List(self.arglist(n, force, true, true))
            }
            "cargs" => {
                let n = [1, 1, 1, 2, 3][self.r.below(5)];
                Val::List(self.arglist(n, force, false, true))
            }
            "argsnb" => {
                let n = [0, 1, 1, 2][self.r.below(4)];
                self.no_trailing = true;
                let l = self.arglist(n, force, true, false);
                self.no_trailing = false;
                Val::List(l)
            }
            "cargsnb" => {
                let n = [1, 1, 2][self.r.below(3)];
                Val::List(self.arglist(n, force, false, false))
            }
            "idx" => {
                let n = [0, 1, 1, 1, 2][self.r.below(5)];
                Val::List(self.arglist(n, force, true, false))
            }
            "elems" | "idxa" => {
                let n = if cat == "idxa" { [0, 1, 1, 1, 2][self.r.below(5)] } else { [0, 1, 2, 2, 3, 4][self.r.below(6)] };
                let mut l = self.arglist(n, force, true, false);
                // in an array literal trailing pairs are a brace-less hash
                kwargs_to_hash(&mut l);
                Val::List(l)
            }
            "pairs" => {
                let n = if self.ctx.depth <= 0 { self.r.below(2) } else { [0, 1, 1, 2, 3][self.r.below(5)] };
                let n = self.width(n);
                let n = if force.is_some() { n.max(1) } else { n };
                let fi = self.r.below(n.max(1));
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 {
                        self.comma();
                    }
                    v.push(self.assoc(if i == fi { force } else { None }, true));
                }
                if n > 0 && self.r.chance(1, 6) {
                    self.raw(",");
                }
                Val::List(v)
            }
            "mrhs" => {
                // at least two items, or one splat
                let n = self.r.range(1, 3);
                let n = self.width(n);
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 {
                        self.comma();
                    }
                    let c = if n == 1 || self.r.chance(1, 4) { "splat" } else { "arg" };
                    v.push(self.node(c, None));
                }
                Val::List(v)
            }
            "excs" => {
                let n = if self.ctx.depth <= 0 { 0 } else { [0, 1, 1, 2, 3][self.r.below(5)] };
                let n = self.width(n);
                let n = if force.is_some() { n.max(1) } else { n };
                if n == 0 {
                    return Val::Node(None);
                }
                self.sp();
                let b = self.pos();
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 {
                        self.comma();
                    }
                    let c = if self.r.chance(1, 5) && (i > 0 || force.is_none()) { "splat" } else { "exc" };
                    v.push(self.node(c, if i == 0 { force } else { None }));
                }
                let e = self.pos();
                Val::Node(Some(mk("Array", (b, e), &[("elements", V::List(v))])))
            }
            "whens" | "ins" | "rescues" => {
                let c = match cat {
                    "whens" => "when",
                    "ins" => "inclause",
                    _ => "resbody",
                };
                let n = [1, 1, 2, 3][self.r.below(4)];
                let n = self.width(n);
                let fi = self.r.below(n);
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 {
                        self.term();
                    }
                    v.push(self.node(c, if i == fi { force } else { None }));
                }
                Val::List(v)
            }
            "params" => {
                let l = self.params(true, false);
                Val::List(l)
            }
            "params1" => {
                // a bare list must not end in an anonymous `*`/`**`: it would swallow the line break
                let sn = self.snap_pub();
                loop {
                    let l = self.params(false, false);
                    if !self.out.ends_with(b"*") && !self.out.ends_with(b"&") {
                        return Val::List(l);
                    }
                    self.restore_pub(&sn);
                }
            }
            "bparams" => {
                let l = self.params(false, true);
                Val::List(l)
            }
            "cond" | "ncond" => {
                let sn = self.snap_pub();
                if force.is_none() && self.r.chance(1, 5) {
                    let d = self.r.range(1, 3);
                    return Val::Node(Some(self.special(d, cat == "cond")));
                }
                for _ in 0..8 {
                    let t = self.node(if cat == "cond" { "expr" } else { "nexpr" }, force);
                    if !(self.out.ends_with(b":") || self.out.ends_with(b"..")) {
                        return Val::Node(Some(cond(t)));
                    }
                    self.restore_pub(&sn);
                }
                let sp = self.raw("nil");
                Val::Node(Some(mk("Nil", sp, &[])))
            }
            "rargs" => {
                // return/break/next: no leading label, no block argument
                let n = [1, 1, 2, 3][self.r.below(4)];
                let n = self.width(n);
                let fi = self.r.below(n);
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 {
                        self.comma();
                    }
                    let c = if self.r.chance(1, 5) { "splat" } else { "arg" };
                    v.push(self.node(c, if i == fi { force } else { None }));
                }
                Val::List(v)
            }
            "asop" => {
                let o = if self.r.chance(1, 2) { "=".to_string() } else { format!("{}=", self.r.pick(crate::ops::OPASGN)) };
                let sp = self.raw(&o);
                tokv(sp, &o)
            }
            "opop" => {
                let o = format!("{}=", self.r.pick(crate::ops::OPASGN));
                let sp = self.raw(&o);
                tokv(sp, &o)
            }
            "thenkw" => {
                self.sp();
                let at = self.raw("then");
                self.sp();
                tokv(at, "then")
            }
            "pinref" => {
                let vis: Vec<String> = self.visible();
                if vis.is_empty() {
                    let sp = self.raw("$gv");
                    return Val::Node(Some(mk("Gvar", sp, &[("name", vs(b"$gv"))])));
                }
                let n = self.r.pick(&vis).clone();
                let sp = self.raw(&n);
                Val::Node(Some(mk("Lvar", sp, &[("name", vs(n.as_bytes()))])))
            }
            "lparams" => {
                // parameters of a lambda without parentheses: defaults must not contain blocks
                let n = self.r.range(1, 3);
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 {
                        self.comma();
                    }
                    v.push(match self.r.below(5) {
                        0 if i + 1 == n => self.rest_param("*", "Restarg"),
                        1 if i + 1 == n => self.rest_param("&", "Blockarg"),
                        2 if i + 1 == n => self.rest_param("**", "Kwrestarg"),
                        3 if i + 1 == n => {
                            let nm = self.new_param();
                            let sp = self.raw(&nm);
                            self.raw("=");
                            let d = self.raw("7");
                            let d = mk("Int", d, &[("value", vs(b"7"))]);
                            self.declare_here_pub(&nm);
                            mk("Optarg", (sp.0, d.e.1), &[("name", vs(nm.as_bytes())), ("name_l", vl(sp)), ("operator_l", vl((sp.1, sp.1 + 1))), ("default", vn(d))])
                        }
                        _ => self.req_param(),
                    });
                }
                Val::List(v)
            }
            "numref" => {
                let n = if self.r.chance(1, 2) { self.r.range(1, 3) } else { self.r.range(1, 9) };
                let s = self.scopes.last_mut().unwrap();
                s.max_numparam = s.max_numparam.max(n);
                let nm = format!("_{}", n);
                let sp = self.raw(&nm);
                Val::Node(Some(mk("Lvar", sp, &[("name", vs(nm.as_bytes()))])))
            }
            "mlhs" | "mlhs1" => {
                // two or more items, or a splat, or (mlhs only) a trailing comma
                let n = self.r.range(1, 4);
                let n = self.width(n);
                let fi = self.r.below(n);
                let star = if n == 1 && cat == "mlhs1" || self.r.chance(1, 3) { self.r.below(n) } else { 99 };
                let mut v = vec![];
                for i in 0..n {
                    if i > 0 {
                        self.comma();
                    }
                    if i == star {
                        let o = self.raw("*");
                        if self.r.chance(1, 3) {
                            v.push(mk("Splat", o, &[("operator_l", vl(o))]));
                        } else {
                            let x = self.node("mvar", None);
                            v.push(mk("Splat", (o.0, x.e.1), &[("value", vn(x)), ("operator_l", vl(o))]));
                        }
                    } else {
                        v.push(self.node("mitem", if i == fi { force } else { None }));
                    }
                }
                if n == 1 && star != 0 {
                    self.raw(",");
                }
                Val::List(v)
            }
            "palist" => self.palist(force),
            "phlist" => self.phlist(force),
            "shadow" => {
                let n = self.new_param();
                let sp = self.raw(&n);
                self.declare_here_pub(&n);
                Val::Node(Some(mk("Shadowarg", sp, &[("name", vs(n.as_bytes()))])))
            }
            // brackets and parentheses, nested deeply
            "deep" => {
                let n = if self.r.chance(1, 3) { self.r.range(1, 4) } else { self.r.range(2, 40) };
                let plain = self.r.chance(1, 3);
                let mut open = vec![];
                for k in 0..n {
                    let c = match self.r.below(if plain { 8 } else { 12 }) {
                        4..=7 | 9 if k == 0 => "[",
                        0..=3 => "[",
                        4..=7 => "(",
                        8 => "\"#{",
                        9 => "{k: ",
                        10 => "-> {",
                        _ => "`#{",
                    };
                    open.push((c, self.raw(c)));
                }
                let leaf = if self.r.chance(1, 2) {
                    self.num_literal()
                } else {
                    // what a closed bracket around it allows
                    let m = *self.r.pick(METHS);
                    let sp = self.raw(m);
                    self.raw(" ");
                    let b = self.raw("do");
                    self.raw(" ");
                    let e = self.raw("end");
                    let call = mk("Send", sp, &[("method_name", vs(m.as_bytes())), ("selector_l", vl(sp))]);
                    mk("Block", (sp.0, e.1), &[("call", vn(call)), ("begin_l", vl(b)), ("end_l", vl(e))])
                };
                let mut t = leaf;
                while let Some((c, b)) = open.pop() {
                    t = match c {
                        "\"#{" | "`#{" => {
                            let e = self.raw(if c == "`#{" { "}`" } else { "}\"" });
                            let f = [("statements", V::List(vec![t])), ("begin_l", vl((b.0 + 1, b.1))), ("end_l", vl((e.0, e.0 + 1)))];
                            let x = mk("Begin", (b.0 + 1, e.0 + 1), &f);
                            let f = [("parts", V::List(vec![x])), ("begin_l", vl((b.0, b.0 + 1))), ("end_l", vl((e.0 + 1, e.1)))];
                            mk(if c == "`#{" { "Xstr" } else { "Dstr" }, (b.0, e.1), &f)
                        }
                        "{k: " => {
                            let e = self.raw("}");
                            let key = mk("Sym", (b.0 + 1, b.0 + 2), &[("name", vs(b"k"))]);
                            let f = [("key", vn(key)), ("value", vn(t.clone())), ("operator_l", vl((b.0 + 2, b.0 + 3)))];
                            let x = mk("Pair", (b.0 + 1, t.e.1), &f);
                            mk("Hash", (b.0, e.1), &[("pairs", V::List(vec![x])), ("begin_l", vl((b.0, b.0 + 1))), ("end_l", vl(e))])
                        }
                        "-> {" => {
                            let e = self.raw("}");
                            let l = mk("Lambda", (b.0, b.0 + 2), &[]);
                            mk("Block", (b.0, e.1), &[("call", vn(l)), ("body", vn(t)), ("begin_l", vl((b.0 + 3, b.1))), ("end_l", vl(e))])
                        }
                        _ => {
                            let e = self.raw(if c == "[" { "]" } else { ")" });
                            let f = [(if c == "[" { "elements" } else { "statements" }, V::List(vec![t])), ("begin_l", vl(b)), ("end_l", vl(e))];
                            mk(if c == "[" { "Array" } else { "Begin" }, (b.0, e.1), &f)
                        }
                    };
                }
                Val::Node(Some(t))
            }
            "num" => Val::Node(Some(self.num_literal())),
            "qkey" => Val::Node(Some(self.quoted_key())),
            "strlit" | "symlit" | "regexplit" | "xstrlit" | "heredoc" | "words" | "dstr" | "charlit" => Val::Node(Some(self.lit_node(cat))),
            "opexpr" => Val::Node(Some(self.op_expr())),
            x => panic!("code category {}", x),
        }
    }

    pub fn visible(&self) -> Vec<String> {
        let mut vis: Vec<String> = vec![];
        for s in self.scopes.iter().rev() {
            vis.extend(s.vars.iter().cloned());
            if s.hard {
                break;
            }
        }
        vis.retain(|v| !self.forbid.contains(v));
        vis
    }
    pub fn refnode(&self, n: &str, sp: Span) -> T {
        if self.declared(n) {
            mk("Lvar", sp, &[("name", vs(n.as_bytes()))])
        } else {
            mk("Send", sp, &[("method_name", vs(n.as_bytes())), ("selector_l", vl(sp))])
        }
    }
    pub fn declare_here_pub(&mut self, n: &str) {
        self.scopes.last_mut().unwrap().vars.push(n.to_string());
    }
    pub fn comma(&mut self) {
        if self.layout > 0 && self.r.chance(1, 6) {
            self.sp();
        }
        self.raw(",");
        if self.layout == 0 || self.r.chance(4, 5) {
            self.sp();
        }
        self.gap();
    }
    pub fn new_param(&mut self) -> String {
        loop {
            let n = if self.r.chance(3, 4) {
                self.lvar_names[self.r.below(self.lvar_names.len())].to_string()
            } else {
                self.fresh_n += 1;
                format!("prm{}", self.fresh_n)
            };
            let s = self.scopes.last_mut().unwrap();
            // a leading underscore allows to repeat a name
            if !s.params.contains(&n) || n.starts_with('_') {
                s.params.push(n.clone());
                return n;
            }
        }
    }
    pub fn new_patvar(&mut self) -> String {
        loop {
            let n = if self.r.chance(1, 2) {
                self.lvar_names[self.r.below(self.lvar_names.len())].to_string()
            } else {
                self.fresh_n += 1;
                format!("pv{}", self.fresh_n)
            };
            if (!n.starts_with('_') && self.patvars.iter().any(|v| v.contains(&n))) || self.patkeys.iter().any(|v| v.contains(&n)) {
                continue;
            }
            self.patvars.last_mut().expect("pattern").push(n.clone());
            return n;
        }
    }
    fn assoc(&mut self, force: Option<usize>, paren: bool) -> T {
        if force.is_none() && paren && self.r.chance(1, 8) {
            // shorthand `x:`
            let n = match self.r.below(5) {
                0 => self.r.pick(CONSTS).to_string(),
                1 => self.r.pick(METHS).to_string(),
                _ => self.lvar_names[self.r.below(self.lvar_names.len())].to_string(),
            };
            if !self.forbid.contains(&n) {
                let sp = self.raw(&n);
                let c = self.raw(":");
                let key = mk("Sym", sp, &[("name", vs(n.as_bytes()))]);
                let val = if crate::util::const_start(n.chars().next().unwrap()) {
                    mk("Const", sp, &[("name", vs(n.as_bytes())), ("name_l", vl(sp))])
                } else {
                    self.refnode(&n, sp)
                };
                return mk("Pair", (sp.0, c.1), &[("key", vn(key)), ("value", vn(val)), ("operator_l", vl(c))]);
            }
        }
        self.node("assoc", force)
    }
    /// Call arguments: positionals and splats, then pairs, then a block argument.
    fn arglist(&mut self, n: usize, force: Option<usize>, paren: bool, block: bool) -> Vec<T> {
        let trailing = !std::mem::take(&mut self.no_trailing);
        // which kind of element must carry the forced template
        let mut fkind = "";
        let mut n = self.width(n);
        if let Some(t) = force {
            let d = self.dist.clone().unwrap();
            let mut best = usize::MAX;
            for c in ["arg", "splat", "assoc", "blockpass"] {
                if c == "blockpass" && !block {
                    continue;
                }
                let x = cat_dist(c, &d.cat, t);
                if x < best {
                    best = x;
                    fkind = c;
                }
            }
            n = n.max(1);
        }
        let npairs = if fkind == "assoc" {
            self.r.range(1, n)
        } else if n > 0 && fkind.is_empty() && self.r.chance(1, 4) {
            self.r.range(1, n)
        } else {
            0
        };
        let mut npos = n - npairs;
        if (fkind == "arg" || fkind == "splat") && npos == 0 {
            npos = 1;
        }
        let fi = self.r.below(npos.max(1));
        let mut v: Vec<T> = vec![];
        let mut first = true;
        for i in 0..npos {
            if !first {
                self.comma();
            }
            let c = if !fkind.is_empty() && fkind != "assoc" && fkind != "blockpass" && i == fi {
                fkind
            } else if (paren || !first) && self.r.chance(1, 8) {
                "splat"
            } else {
                "arg"
            };
            let f = if c == fkind && i == fi { force } else { None };
            v.push(self.node(c, f));
            first = false;
        }
        if npairs > 0 {
            let b0 = self.r.below(npairs);
            let mut ps = vec![];
            for i in 0..npairs {
                if !first {
                    self.comma();
                }
                let f = if fkind == "assoc" && i == b0 { force } else { None };
                ps.push(self.assoc(f, paren));
                first = false;
            }
            let e = (ps[0].e.0, ps[ps.len() - 1].e.1);
            v.push(mk("Kwargs", e, &[("pairs", V::List(ps))]));
        }
        let mut blk = false;
        if block && (fkind == "blockpass" || (fkind.is_empty() && (paren || !first) && self.r.chance(1, 12))) {
            let sn = self.snap_pub();
            if !first {
                self.comma();
            }
            let b = self.node("blockpass", if fkind == "blockpass" { force } else { None });
            if !paren && self.out.ends_with(b"&") {
                // a bare `&` at the end of a line would swallow the line break
                self.restore_pub(&sn);
            } else {
                v.push(b);
                blk = true;
                first = false;
            }
        }
        if paren && trailing && !blk && !first && self.r.chance(1, 12) {
            self.raw(",");
            self.gap();
        }
        v
    }

    fn default_arg(&mut self, name: &str) -> T {
        self.forbid.push(name.to_string());
        let d = self.node("primary", None);
        self.forbid.pop();
        d
    }
    fn mlhs_param(&mut self, depth: usize) -> T {
        let b = self.raw("(");
        let n = self.r.range(1, 3);
        let mut v = vec![];
        let star = if self.r.chance(1, 3) { self.r.below(n) } else { 99 };
        for i in 0..n {
            if i > 0 {
                self.comma();
            }
            if i == star {
                v.push(self.rest_param("*", "Restarg"));
            } else if depth > 0 && self.r.chance(1, 5) {
                v.push(self.mlhs_param(depth - 1));
            } else {
                v.push(self.req_param());
            }
        }
        let e = self.raw(")");
        mk("Mlhs", (b.0, e.1), &[("items", V::List(v)), ("begin_l", vl(b)), ("end_l", vl(e))])
    }
    fn req_param(&mut self) -> T {
        let n = self.new_param();
        let sp = self.raw(&n);
        self.declare_here_pub(&n);
        mk("Arg", sp, &[("name", vs(n.as_bytes()))])
    }
    fn rest_param(&mut self, op: &str, k: &str) -> T {
        let o = self.raw(op);
        if self.r.chance(1, 4) && k != "Blockarg" {
            return mk(k, o, &[("operator_l", vl(o))]);
        }
        let n = self.new_param();
        let sp = self.raw(&n);
        self.declare_here_pub(&n);
        mk(k, (o.0, sp.1), &[("name", vs(n.as_bytes())), ("operator_l", vl(o)), ("name_l", vl(sp))])
    }
    /// A condition made of what Ruby treats specially in conditions: regexps, ranges, and/or, parentheses.
    fn special(&mut self, d: usize, kw: bool) -> T {
        let mut k = if d == 0 { self.r.below(3) } else { self.r.below(12) };
        if k == 9 && !kw {
            k = 3;
        }
        match k {
            0 | 1 => {
                let t = self.lit_node("regexplit");
                cond(t)
            }
            2 => {
                let n = *self.r.pick(&["@iv", "$gv", "nil", "self", "true"]);
                let sp = self.raw(n);
                match n {
                    "@iv" => mk("Ivar", sp, &[("name", vs(b"@iv"))]),
                    "$gv" => mk("Gvar", sp, &[("name", vs(b"$gv"))]),
                    "nil" => mk("Nil", sp, &[]),
                    "self" => mk("Self_", sp, &[]),
                    _ => mk("True", sp, &[]),
                }
            }
            3 | 4 | 5 => {
                if self.r.chance(1, 5) {
                    // open at one side
                    let b = self.raw("(");
                    let op = *self.r.pick(&["..", "..."]);
                    let k = if op == ".." { "IFlipFlop" } else { "EFlipFlop" };
                    let t = if self.r.chance(1, 2) {
                        let l = self.special_atom(d - 1);
                        let o = self.raw(op);
                        mk(k, (l.e.0, o.1), &[("left", vn(l)), ("operator_l", vl(o))])
                    } else {
                        let o = self.raw(op);
                        let r = self.special_atom(d - 1);
                        mk(k, (o.0, r.e.1), &[("right", vn(r)), ("operator_l", vl(o))])
                    };
                    let e = self.raw(")");
                    self.note("cond:open flip-flop");
                    return mk("Begin", (b.0, e.1), &[("statements", V::List(vec![t])), ("begin_l", vl(b)), ("end_l", vl(e))]);
                }
                // flip-flop; a range does not nest in a range without parentheses
                let l = self.special_atom(d - 1);
                self.sp();
                let op = *self.r.pick(&["..", "..."]);
                let o = self.raw(op);
                self.sp();
                let r = self.special_atom(d - 1);
                self.note("cond:flip-flop");
                mk(if op == ".." { "IFlipFlop" } else { "EFlipFlop" }, (l.e.0, r.e.1), &[("left", vn(l)), ("right", vn(r)), ("operator_l", vl(o))])
            }
            6 | 7 => {
                let l = self.special_atom(d - 1);
                self.sp();
                let op = *self.r.pick(&["&&", "||"]);
                let o = self.raw(op);
                self.sp();
                let r = self.special_atom(d - 1);
                mk(if op == "&&" { "And" } else { "Or" }, (l.e.0, r.e.1), &[("lhs", vn(l)), ("rhs", vn(r)), ("operator_l", vl(o))])
            }
            8 => {
                let o = self.raw("!");
                let x = self.special_atom(d - 1);
                self.note("cond:!");
                mk("Send", (o.0, x.e.1), &[("recv", vn(x)), ("method_name", vs(b"!")), ("selector_l", vl(o))])
            }
            9 => {
                let l = self.special(d - 1, false);
                self.raw(" ");
                let op = *self.r.pick(&["and", "or"]);
                let o = self.raw(op);
                self.raw(" ");
                let r = self.special(d - 1, false);
                mk(if op == "and" { "And" } else { "Or" }, (l.e.0, r.e.1), &[("lhs", vn(l)), ("rhs", vn(r)), ("operator_l", vl(o))])
            }
            _ => self.special_paren(d - 1),
        }
    }
    fn special_paren(&mut self, d: usize) -> T {
        let b = self.raw("(");
        let x = self.special(d, true);
        let e = self.raw(")");
        mk("Begin", (b.0, e.1), &[("statements", V::List(vec![x])), ("begin_l", vl(b)), ("end_l", vl(e))])
    }
    fn special_atom(&mut self, d: usize) -> T {
        if d > 0 && self.r.chance(1, 2) {
            self.special_paren(d - 1)
        } else {
            self.special(0, false)
        }
    }
    /// A parameter list: req, opt, rest, post, keywords, kwrest, block.
    pub fn params(&mut self, paren: bool, block: bool) -> Vec<T> {
        let mut v: Vec<T> = vec![];
        let mut first = true;
        macro_rules! sep {
            () => {
                if !first {
                    self.comma();
                }
                #[allow(unused_assignments)]
                {
                    first = false;
                }
            };
        }
        let total_min = if paren { 0 } else { 1 };
        let nreq = self.r.below(3).max(if block { 2 } else { 0 });
        let wide = self.width(0);
        let nreq = if wide > 0 && self.r.chance(1, 2) { wide } else { nreq };
        let nopt = if self.r.chance(1, 3) { self.r.range(1, 2) } else { 0 };
        let nopt = if wide > 0 && self.r.chance(1, 3) { wide } else { nopt };
        let rest = self.r.chance(1, 4);
        let npost = if (nopt > 0 || rest) && self.r.chance(1, 2) { 1 } else { 0 };
        let nkw = if self.r.chance(1, 3) { self.r.range(1, 3) } else { 0 };
        let nkw = if wide > 0 && self.r.chance(1, 3) { wide } else { nkw };
        let kwrest = self.r.below(8); // 0 => **x, 1 => **nil
        let blk = self.r.chance(1, 5);
        for _ in 0..nreq {
            let bare_first = first && !paren && !block;
            sep!();
            if self.r.chance(1, 8) && !bare_first {
                v.push(self.mlhs_param(1));
            } else {
                v.push(self.req_param());
            }
        }
        for _ in 0..nopt {
            sep!();
            let n = self.new_param();
            let sp = self.raw(&n);
            self.sp();
            let o = self.raw("=");
            self.sp();
            let d = self.default_arg(&n);
            self.declare_here_pub(&n);
            v.push(mk("Optarg", (sp.0, d.e.1), &[("name", vs(n.as_bytes())), ("default", vn(d)), ("name_l", vl(sp)), ("operator_l", vl(o))]));
        }
        if rest {
            sep!();
            v.push(self.rest_param("*", "Restarg"));
        }
        for _ in 0..npost {
            sep!();
            v.push(self.req_param());
        }
        for _ in 0..nkw {
            sep!();
            let n = self.new_param();
            let sp = self.raw(&n);
            let c = self.raw(":");
            // required keywords need a following separator or a closing bracket
            if self.r.chance(1, 2) {
                self.declare_here_pub(&n);
                v.push(mk("Kwarg", (sp.0, c.1), &[("name", vs(n.as_bytes())), ("name_l", vl(sp))]));
            } else {
                self.sp();
                let d = self.default_arg(&n);
                self.declare_here_pub(&n);
                v.push(mk("Kwoptarg", (sp.0, d.e.1), &[("name", vs(n.as_bytes())), ("default", vn(d)), ("name_l", vl(sp))]));
            }
        }
        match kwrest {
            0 => {
                sep!();
                v.push(self.rest_param("**", "Kwrestarg"));
            }
            1 if nkw == 0 => {
                sep!();
                let o = self.raw("**");
                let n = self.raw("nil");
                let _ = o;
                v.push(mk("Kwnilarg", (o.0, n.1), &[("name_l", vl(n))]));
            }
            _ => {}
        }
        if blk || (first && total_min > 0 && !block) {
            sep!();
            v.push(self.rest_param("&", "Blockarg"));
        }
        v
    }

    fn pat_rest(&mut self, op: &str) -> T {
        let o = self.raw(op);
        if self.r.chance(1, 3) {
            return mk("MatchRest", o, &[("operator_l", vl(o))]);
        }
        let x = self.match_var();
        mk("MatchRest", (o.0, x.e.1), &[("name", vn(x)), ("operator_l", vl(o))])
    }
    fn match_var(&mut self) -> T {
        let n = self.new_patvar();
        let sp = self.raw(&n);
        self.declare(&n);
        mk("MatchVar", sp, &[("name", vs(n.as_bytes())), ("name_l", vl(sp))])
    }
    /// Elements of an array pattern with at most one rest (one or more elements).
    fn palist(&mut self, force: Option<usize>) -> Val {
        let n = self.r.range(1, 3);
        let n = self.width(n);
        let fi = self.r.below(n);
        let star = if self.r.chance(1, 3) { self.r.below(n) } else { 99 };
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.comma();
            }
            if i == star && !(force.is_some() && fi == i) {
                v.push(self.pat_rest("*"));
            } else {
                v.push(self.node("pexpr", if i == fi { force } else { None }));
            }
        }
        Val::List(v)
    }
    /// Elements of a hash pattern (one or more).
    fn phlist(&mut self, force: Option<usize>) -> Val {
        let n = self.r.range(1, 3);
        let n = self.width(n);
        let fi = self.r.below(n);
        let last = self.r.below(6); // 0: **rest, 1: **nil
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.comma();
            }
            if i + 1 == n && n > 1 && last < 2 && !(force.is_some() && fi == i) {
                if last == 0 {
                    v.push(self.pat_rest("**"));
                } else {
                    let o = self.raw("**");
                    let k = self.raw("nil");
                    v.push(mk("MatchNilPattern", (o.0, k.1), &[("operator_l", vl(o)), ("name_l", vl(k))]));
                }
            } else {
                v.push(self.node("ppair", if i == fi { force } else { None }));
            }
        }
        Val::List(v)
    }
}
