//! Operator expressions: a precedence-climbing generator that knows, from Ruby's published
//! precedence table, which tree every unparenthesised sequence of operators must produce.
use crate::gen::*;
use crate::tree::{T, V};

// higher binds tighter
pub const P_NOT: u8 = 20; // ! ~ unary+
pub const P_POW: u8 = 19;
pub const P_UMINUS: u8 = 18;
pub const P_OR: u8 = 8;
pub const P_RANGE: u8 = 7;
pub const P_TERN: u8 = 6;
pub const P_ASGN: u8 = 4;
pub const P_DEFINED: u8 = 3;

/// (operator, precedence, associativity l/r/n)
pub const BIN: &[(&str, u8, char)] = &[
    ("**", P_POW, 'r'),
    ("*", 17, 'l'),
    ("/", 17, 'l'),
    ("%", 17, 'l'),
    ("+", 16, 'l'),
    ("-", 16, 'l'),
    ("<<", 15, 'l'),
    (">>", 15, 'l'),
    ("&", 14, 'l'),
    ("|", 13, 'l'),
    ("^", 13, 'l'),
    (">", 12, 'l'),
    (">=", 12, 'l'),
    ("<", 12, 'l'),
    ("<=", 12, 'l'),
    ("<=>", 11, 'n'),
    ("==", 11, 'n'),
    ("===", 11, 'n'),
    ("!=", 11, 'n'),
    ("=~", 11, 'n'),
    ("!~", 11, 'n'),
    ("&&", 9, 'l'),
    ("||", P_OR, 'l'),
    ("..", P_RANGE, 'n'),
    ("...", P_RANGE, 'n'),
];
pub const OPASGN: &[&str] = &["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "&&", "||"];

impl Gen {
    /// An operator expression usable wherever an argument is.
    pub fn op_expr(&mut self) -> T {
        let n = self.r.range(1, 5) as i32;
        let mut fuel = n;
        self.op_gen(0, 0, &mut fuel)
    }

    /// `min`: loosest precedence allowed for the tree; `follow`: precedence of the operator that
    /// comes right after (0: none), which prefix operators on the right edge must not capture.
    fn op_gen(&mut self, min: u8, follow: u8, fuel: &mut i32) -> T {
        let (l0, mut limit) = self.op_prefix(follow, fuel);
        let mut left = (l0, ());
        loop {
            if *fuel <= 0 || self.r.chance(1, 4) || right_open(&left.0) {
                break;
            }
            let cand: Vec<usize> = (0..BIN.len() + 1)
                .filter(|i| {
                    let (p, a) = if *i == BIN.len() { (P_TERN, 't') } else { (BIN[*i].1, BIN[*i].2) };
                    // left operand must bind tighter (or equally, for left-associative operators)
                    p >= min
                        && match a {
                            'l' => limit >= p,
                            _ => limit > p,
                        }
                })
                .collect();
            if cand.is_empty() {
                break;
            }
            *fuel -= 1;
            let i = *self.r.pick(&cand);
            if i == BIN.len() {
                self.sp();
                let sn = self.snap_pub();
                let mut q = self.raw("?");
                // `?ab` is no character
                let close = self.layout > 0 && self.r.chance(1, 5);
                if !close {
                    self.sp();
                    self.gap();
                }
                self.stack.push(self.ctx.clone());
                let mut a = self.op_gen(0, 0, fuel);
                let c = self.stack.pop().unwrap();
                self.ctx.no_do = c.no_do;
                if close {
                    let word = |g: &Self, i: usize| g.out.get(g.out.len() - (g.pos() - q.1) + i).map_or(false, |c| c.is_ascii_alphanumeric() || *c == b'_');
                    if word(self, 0) && word(self, 1) {
                        self.note("op:?: without a blank");
                    } else {
                        self.restore_pub(&sn);
                        q = self.raw("?");
                        self.sp();
                        let b = self.raw("99");
                        a = mk("Int", b, &[("value", vs(b"99"))]);
                    }
                }
                self.sp();
                self.gap();
                let c = self.raw(":");
                self.sp();
                self.gap();
                let b = self.op_gen(P_TERN, follow, fuel);
                let l = cond(left.0);
                let e = (l.e.0, b.e.1);
                self.note("op:?:");
                left.0 = mk("IfTernary", e, &[("cond", vn(l)), ("if_true", vn(a)), ("if_false", vn(b)), ("question_l", vl(q)), ("colon_l", vl(c))]);
                limit = P_TERN;
                continue;
            }
            let (op, p, assoc) = BIN[i];
            // spacing: either both sides spaced, or none when both neighbours are plain
            let last = *self.out.last().unwrap_or(&b' ');
            let tight = self.layout > 0 && op != "!~" && op != "!=" && self.r.chance(1, 4) && (last.is_ascii_alphanumeric() || last == b')') && !left.0.k.contains("ange");
            if !tight {
                self.sp();
            }
            let o = self.raw(op);
            let rb = self.out.len();
            if !tight {
                self.sp();
                self.gap();
            }
            let rmin = match assoc {
                'r' => p,
                _ => p + 1,
            };
            let sn = self.snap_pub();
            let mut r = self.op_gen(rmin, follow, fuel);
            if tight {
                let f = self.out.get(rb).copied().unwrap_or(b' ');
                if !(f.is_ascii_alphanumeric() || f == b'(') || (op.ends_with('.') && f == b'.') {
                    self.restore_pub(&sn);
                    self.raw("9");
                    let e = (self.pos() - 1, self.pos());
                    r = mk("Int", e, &[("value", vs(b"9"))]);
                }
            }
            let l = left.0;
            let e = (l.e.0, r.e.1);
            self.note(&format!("op:{}", op));
            left.0 = match op {
                "&&" => mk("And", e, &[("lhs", vn(l)), ("rhs", vn(r)), ("operator_l", vl(o))]),
                "||" => mk("Or", e, &[("lhs", vn(l)), ("rhs", vn(r)), ("operator_l", vl(o))]),
                ".." => mk("Irange", e, &[("left", vn(l)), ("right", vn(r)), ("operator_l", vl(o))]),
                "..." => mk("Erange", e, &[("left", vn(l)), ("right", vn(r)), ("operator_l", vl(o))]),
                _ => mk("Send", e, &[("recv", vn(l)), ("method_name", vs(op.as_bytes())), ("args", V::List(vec![r])), ("selector_l", vl(o))]),
            };
            limit = p;
        }
        left.0
    }

    /// Operand: a primary, or a prefix operator / assignment, with the loosest precedence of an
    /// operator that may still be appended to it (0: it extends as far right as possible).
    fn op_prefix(&mut self, follow: u8, fuel: &mut i32) -> (T, u8) {
        let k = if *fuel > 0 { self.r.below(14) } else { 99 };
        match k {
            0 | 1 => {
                *fuel -= 1;
                let (op, name) = *self.r.pick(&[("!", "!"), ("~", "~"), ("+", "+@")]);
                let o = self.raw(op);
                self.note(&format!("op:unary{}", op));
                let x = self.op_operand(P_NOT, P_NOT, fuel, op);
                let e = (o.0, x.e.1);
                let x = if op == "!" { cond(x) } else { x };
                (mk("Send", e, &[("recv", vn(x)), ("method_name", vs(name.as_bytes())), ("selector_l", vl(o))]), P_NOT)
            }
            2 if P_UMINUS > follow => {
                *fuel -= 1;
                let o = self.raw("-");
                self.note("op:unary-");
                let x = self.op_operand(P_UMINUS, P_UMINUS, fuel, "-");
                let e = (o.0, x.e.1);
                (mk("Send", e, &[("recv", vn(x)), ("method_name", vs(b"-@")), ("selector_l", vl(o))]), P_UMINUS)
            }
            3 if follow == 0 && !self.ctx.in_defined => {
                *fuel -= 1;
                let o = self.raw("defined?");
                self.sp();
                self.note("op:defined?");
                let d = self.ctx.in_defined;
                self.ctx.in_defined = true;
                let x = self.op_operand(P_ASGN, 0, fuel, "defined?");
                self.ctx.in_defined = d;
                (mk("Defined", (o.0, x.e.1), &[("value", vn(x)), ("keyword_l", vl(o))]), 0)
            }
            4 | 5 if follow == 0 => {
                *fuel -= 1;
                (self.op_assign(fuel), 0)
            }
            _ => (self.op_leaf(""), 99),
        }
    }
    fn op_operand(&mut self, min: u8, follow: u8, fuel: &mut i32, op: &str) -> T {
        let sn = self.snap_pub();
        let b = self.out.len();
        let f0 = *fuel;
        let x = self.op_gen(min, follow, fuel);
        let f = self.out.get(b).copied().unwrap_or(b' ');
        let bad = match op {
            "+" | "-" => f.is_ascii_digit() || b"+-=>".contains(&f) || f == b'@',
            "!" => b"~=@!".contains(&f),
            "~" => f == b'@',
            // `defined? (a).b`: keep clear of the parenthesised form
            _ => f == b'(' || f == b'[' || f == b'{' || f == b':' || f == b'-' || f == b'+' || f == b'*' || f == b'&' || f == b'/' || f == b'%' || f == b'<' || f == b'?' || starts_kw_mod(&self.out[b..]),
        };
        if bad {
            *fuel = f0.min(0);
            self.restore_pub(&sn);
            return self.safe_leaf();
        }
        x
    }
    fn safe_leaf(&mut self) -> T {
        let n = *self.r.pick(&["@iv", "$gv", "nil", "self", "true"]);
        let sp = self.raw(n);
        match n {
            "@iv" => mk("Ivar", sp, &[("name", vs(b"@iv"))]),
            "$gv" => mk("Gvar", sp, &[("name", vs(b"$gv"))]),
            "nil" => mk("Nil", sp, &[]),
            "self" => mk("Self_", sp, &[]),
            _ => mk("True", sp, &[]),
        }
    }
    fn op_leaf(&mut self, _after: &str) -> T {
        if self.r.chance(1, 4) {
            return self.safe_leaf();
        }
        // a signed number would be part of the operator structure
        let sn = self.snap_pub();
        let b = self.out.len();
        for _ in 0..6 {
            let x = self.node("primary", None);
            let f = self.out.get(b).copied().unwrap_or(b' ');
            if b"+-".contains(&f) && !self.out[b..].starts_with(b"->") {
                self.restore_pub(&sn);
                continue;
            }
            return x;
        }
        self.safe_leaf()
    }
    fn op_assign(&mut self, fuel: &mut i32) -> T {
        let b = self.pos();
        let lhs = self.node("var_lhs", None);
        self.sp();
        let opa = self.r.chance(2, 5) && lhs.k != "Casgn" || (lhs.k == "Casgn" && self.r.chance(2, 5));
        let op = if opa { self.r.pick(OPASGN).to_string() } else { String::new() };
        let o = self.raw(&format!("{}=", op));
        self.note(&format!("op:{}=", op));
        self.sp();
        self.gap();
        let mut v = self.op_gen(P_ASGN, 0, fuel);
        if *fuel > 0 && self.r.chance(1, 6) && !right_open(&v) {
            self.sp();
            let k = self.raw("rescue");
            self.sp();
            self.note("op:rescue");
            let r = self.op_gen(P_TERN, 0, fuel);
            let e = r.e.1;
            let rb = mk("RescueBody", (k.0, e), &[("body", vn(r)), ("keyword_l", vl(k))]);
            v = mk("Rescue", (v.e.0, e), &[("body", vn(v)), ("rescue_bodies", V::List(vec![rb]))]);
        }
        let e = (b, v.e.1);
        assign(lhs, &op, o, v, e)
    }
}

/// Builds the assignment node for a bare left-hand side.
pub fn assign(lhs: T, op: &str, o: crate::tree::Span, v: T, e: crate::tree::Span) -> T {
    if op == "&&" {
        return mk("AndAsgn", e, &[("recv", vn(lhs)), ("value", vn(v)), ("operator_l", vl(o))]);
    }
    if op == "||" {
        return mk("OrAsgn", e, &[("recv", vn(lhs)), ("value", vn(v)), ("operator_l", vl(o))]);
    }
    if !op.is_empty() {
        return mk("OpAsgn", e, &[("recv", vn(lhs)), ("operator", vs(op.as_bytes())), ("value", vn(v)), ("operator_l", vl(o))]);
    }
    let mut t = lhs;
    t.e = e;
    for (n, f) in t.f.iter_mut() {
        if *n == "value" {
            *f = vn(v.clone());
        }
        if *n == "operator_l" {
            *f = vl(o);
        }
        if *n == "args" {
            *f = V::List(vec![v.clone()]);
        }
    }
    t
}
/// Ends in something that would swallow a following `rescue` modifier.
pub fn right_open(t: &T) -> bool {
    match t.k {
        "Lvasgn" | "Ivasgn" | "Gvasgn" | "Cvasgn" | "Casgn" | "OpAsgn" | "AndAsgn" | "OrAsgn" | "IndexAsgn" | "Defined" => true,
        "Def" | "Defs" => t.loc("assignment_l").is_some(),
        "Send" | "CSend" => {
            if t.loc("operator_l").is_some() {
                return true;
            }
            // operators: look at the rightmost operand
            let end = t.e.1;
            t.children().iter().any(|c| c.e.1 == end && right_open(c))
        }
        _ => {
            let end = t.e.1;
            t.children().iter().any(|c| c.e.1 == end && right_open(c))
        }
    }
}
