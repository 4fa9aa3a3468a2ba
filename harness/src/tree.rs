//! A generic, field-named view of the parser's AST, produced by `nodes_gen::conv` from the real
//! nodes and built independently by the reference models.
pub type Span = (usize, usize);

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Node(Option<Box<T>>),
    List(Vec<T>),
    Str(Option<Vec<u8>>),
    Loc(Option<Span>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub k: &'static str,
    pub e: Span,
    pub f: Vec<(&'static str, V)>,
}

fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for c in String::from_utf8_lossy(b).chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => s.push_str(&format!("\\x{:02X}", c as u32)),
            c => s.push(c),
        }
    }
    s
}
pub fn show_bytes(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(_) => format!("\"{}\"", esc(b)),
        Err(_) => format!("{:?}", b),
    }
}

impl T {
    pub fn get(&self, name: &str) -> Option<&V> {
        self.f.iter().find(|x| x.0 == name).map(|x| &x.1)
    }
    pub fn node(&self, name: &str) -> Option<&T> {
        match self.get(name) {
            Some(V::Node(Some(n))) => Some(n),
            _ => None,
        }
    }
    pub fn list(&self, name: &str) -> &[T] {
        match self.get(name) {
            Some(V::List(l)) => l,
            _ => &[],
        }
    }
    pub fn str(&self, name: &str) -> Option<&[u8]> {
        match self.get(name) {
            Some(V::Str(Some(s))) => Some(s),
            _ => None,
        }
    }
    pub fn loc(&self, name: &str) -> Option<Span> {
        match self.get(name) {
            Some(V::Loc(l)) => *l,
            _ => None,
        }
    }
    pub fn children(&self) -> Vec<&T> {
        let mut r = vec![];
        for (_, v) in &self.f {
            match v {
                V::Node(Some(n)) => r.push(&**n),
                V::List(l) => r.extend(l.iter()),
                _ => {}
            }
        }
        r
    }
    pub fn children_mut(&mut self) -> Vec<&mut T> {
        let mut r = vec![];
        for (_, v) in &mut self.f {
            match v {
                V::Node(Some(n)) => r.push(&mut **n),
                V::List(l) => r.extend(l.iter_mut()),
                _ => {}
            }
        }
        r
    }
    pub fn count(&self) -> usize {
        1 + self.children().iter().map(|c| c.count()).sum::<usize>()
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a T)) {
        f(self);
        for c in self.children() {
            c.walk(f)
        }
    }
    pub fn shift(&mut self, d: isize) {
        self.map_locs(&|p| (p as isize + d) as usize)
    }
    pub fn map_locs(&mut self, m0: &dyn Fn(usize) -> usize) {
        let m = &|p: usize| if p == usize::MAX { p } else { m0(p) };
        self.map_locs0(m)
    }
    fn map_locs0(&mut self, m: &dyn Fn(usize) -> usize) {
        self.e = (m(self.e.0), m(self.e.1));
        for (_, v) in &mut self.f {
            match v {
                V::Node(Some(n)) => n.map_locs0(m),
                V::List(l) => l.iter_mut().for_each(|n| n.map_locs0(m)),
                V::Loc(Some(x)) => *x = (m(x.0), m(x.1)),
                _ => {}
            }
        }
    }
    /// Compact text; with `locs` every location is shown.
    pub fn show(&self, locs: bool) -> String {
        let mut s = String::new();
        self.fmt(&mut s, 0, locs);
        s
    }
    fn fmt(&self, s: &mut String, ind: usize, locs: bool) {
        s.push_str(self.k);
        if locs {
            s.push_str(&format!("@{}..{}", self.e.0, self.e.1));
        }
        for (n, v) in &self.f {
            match v {
                V::Str(Some(b)) => s.push_str(&format!(" {}={}", n, show_bytes(b))),
                V::Loc(Some(l)) if locs => s.push_str(&format!(" {}={}..{}", n, l.0, l.1)),
                _ => {}
            }
        }
        for (n, v) in &self.f {
            match v {
                V::Node(Some(c)) => {
                    s.push('\n');
                    s.push_str(&"  ".repeat(ind + 1));
                    s.push_str(n);
                    s.push_str(": ");
                    c.fmt(s, ind + 1, locs);
                }
                V::List(l) => {
                    for (i, c) in l.iter().enumerate() {
                        s.push('\n');
                        s.push_str(&"  ".repeat(ind + 1));
                        s.push_str(&format!("{}[{}]: ", n, i));
                        c.fmt(s, ind + 1, locs);
                    }
                }
                _ => {}
            }
        }
    }
}

/// First difference between two trees, as a path plus description.
pub fn diff(a: &T, b: &T, locs: bool) -> Option<String> {
    diff_at(a, b, locs, a.k.to_string())
}
/// An expected location with `usize::MAX` as an end leaves that end unspecified.
fn loc_ok(exp: Span, got: Span) -> bool {
    (exp.0 == usize::MAX || exp.0 == got.0) && (exp.1 == usize::MAX || exp.1 == got.1)
}
fn diff_at(a: &T, b: &T, locs: bool, path: String) -> Option<String> {
    if a.k != b.k {
        return Some(format!("{}: expected node {} got {}", path, a.k, b.k));
    }
    for ((n, x), (_, y)) in a.f.iter().zip(b.f.iter()) {
        match (x, y) {
            (V::Str(p), V::Str(q)) => {
                if p != q {
                    let f = |o: &Option<Vec<u8>>| o.as_ref().map_or("nil".into(), |x| show_bytes(x));
                    return Some(format!("{}.{}: expected {} got {}", path, n, f(p), f(q)));
                }
            }
            (V::Loc(p), V::Loc(q)) => {
                if locs && !(p == q || matches!((p, q), (Some(p), Some(q)) if loc_ok(*p, *q))) {
                    return Some(format!("{}.{}: expected location {:?} got {:?}", path, n, p, q));
                }
            }
            (V::Node(None), V::Node(None)) => {}
            (V::Node(Some(p)), V::Node(Some(q))) => {
                if let Some(d) = diff_at(p, q, locs, format!("{}.{}:{}", path, n, p.k)) {
                    return Some(d);
                }
            }
            (V::Node(p), V::Node(q)) => {
                let f = |o: &Option<Box<T>>| o.as_ref().map_or("nil", |x| x.k);
                return Some(format!("{}.{}: expected {} got {}", path, n, f(p), f(q)));
            }
            (V::List(p), V::List(q)) => {
                for (i, (x, y)) in p.iter().zip(q.iter()).enumerate() {
                    if let Some(d) = diff_at(x, y, locs, format!("{}.{}[{}]:{}", path, n, i, x.k)) {
                        return Some(d);
                    }
                }
                if p.len() != q.len() {
                    return Some(format!("{}.{}: expected {} elements got {}", path, n, p.len(), q.len()));
                }
            }
            _ => return Some(format!("{}.{}: field kind mismatch", path, n)),
        }
    }
    if locs && !loc_ok(a.e, b.e) {
        return Some(format!("{}: expected expression {:?} got {:?}", path, a.e, b.e));
    }
    None
}
pub fn diff_opt(a: &Option<T>, b: &Option<T>, locs: bool) -> Option<String> {
    match (a, b) {
        (None, None) => None,
        (Some(a), Some(b)) => diff(a, b, locs),
        (a, b) => Some(format!(
            "root: expected {} got {}",
            a.as_ref().map_or("nil", |x| x.k),
            b.as_ref().map_or("nil", |x| x.k)
        )),
    }
}
