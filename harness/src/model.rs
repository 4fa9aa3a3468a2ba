//! Checks against the reference model: programs whose tree is known from how they were built.
use crate::check::W;
use crate::gen::*;
use crate::tree::*;
use crate::util::*;

pub struct Prog {
    pub src: Vec<u8>,
    pub tree: Option<T>,
    pub comments: Vec<(Span, &'static str)>,
    pub used: Vec<usize>,
    pub feats: std::collections::BTreeMap<String, u64>,
}

pub fn targets(groups: &[&str]) -> Vec<usize> {
    tpls().t.iter().filter(|t| groups.contains(&t.group.as_str())).map(|t| t.id).collect()
}

/// Deterministic program for (seed, stream, i). `target` must appear (where its context permits).
pub fn program(r: Rng, layout: u8, groups: &[&str], target: Option<usize>, depth: i32, budget: i32) -> Prog {
    let mut g = Gen::new(r, layout, groups);
    g.ctx.depth = depth;
    g.budget = budget;
    let tree = g.program(target);
    Prog { src: g.out, tree, comments: g.comments, used: g.used, feats: g.feats }
}
/// A program from the whole model.
pub fn any_program(r: &mut Rng) -> Prog {
    let layout = r.below(3) as u8;
    let n = tpls().t.len();
    let target = if r.chance(2, 3) { Some(r.below(n)) } else { None };
    let depth = r.range(1, 6) as i32;
    let budget = r.range(4, 40) as i32;
    program(Rng(r.next()), layout, &[], target, depth, budget)
}

/// Puts what does not belong to the program proper in front of it and behind it: byte order mark,
/// shebang, comments, blank lines, end of script markers.
pub fn dress(p: &mut Prog, r: &mut Rng) {
    let big;
    let pre: &str = if r.chance(1, 3000) {
        // lines, columns and offsets beyond 65536
        big = match r.below(4) {
            0 => "\n".repeat(70000),
            1 => " ".repeat(70000),
            2 => format!("# {}\n", "c".repeat(70000)),
            _ => format!("=begin\n{}=end\n", "x y\n".repeat(18000)),
        };
        &big
    } else if r.chance(1, 6) {
        r.pick(&[
            "\u{feff}", "\u{feff}\n", "\n", " \n\t", "# c\n", "#!/usr/bin/ruby -w\n", "=begin\nx\n=end\n", "# encoding: utf-8\n", "#!x\n# -*- coding: binary -*-\n",
            "# frozen_string_literal: true\n\n", "\u{feff}# coding: utf-8\n", "\u{feff}=begin\n=end\n", "  ", "\r\n", ";", "\n;;\n",
        ])
    } else {
        ""
    };
    let post: &str = if r.chance(1, 6) {
        r.pick(&[
            "\n", " ", "\n\n", " # c", "\n# c\n", "\n__END__\nfoo( \"", "\n__END__", "\n=begin\n=end", "\0 )(", "\n\x04(", " \x1a\"", "\n__END__\r\n)", ";", "\r\n", "\n;;\n", "\n=begin\na\n=end b\n",
        ])
    } else {
        ""
    };
    let d = pre.len();
    if d > 0 {
        p.src.splice(0..0, pre.bytes());
        if let Some(t) = &mut p.tree {
            t.shift(d as isize);
        }
        for c in p.comments.iter_mut() {
            c.0 = (c.0 .0 + d, c.0 .1 + d);
        }
    }
    p.src.extend_from_slice(post.as_bytes());
}

/// Judges one program against its expected tree; None if it agrees.
pub fn judge(p: &Prog, res: &Result<Res, (String, String)>) -> Option<String> {
    match res {
        Err((m, l)) => Some(format!("parser panicked on a valid program: {} at {}", m, l)),
        Ok(r) if r.has_error() => Some(format!(
            "valid program rejected: {}",
            r.errors().iter().map(|d| format!("{} at {}..{}", d.text, d.loc.0, d.loc.1)).collect::<Vec<_>>().join("; ")
        )),
        Ok(r) => diff_opt(&p.tree, &r.ast, true).map(|d| format!("wrong tree: {}", d)),
    }
}

/// Statements that are sensitive to what the parser remembers of the code in front of them.
const PROBES: &[&str] = &[
    "class Pqz; Cqz = 1; def mqz(aqz, bqz = 1); end; end",
    "class << self; Cqz = 1; end",
    "module Pqz; end",
    "Kqz = 1",
    "Kqz ||= Aqz::Bqz",
    "return",
    "fqz 1 do |aqz| aqz end",
    "fqz { _1 }",
    "-> { _2 }",
    "while fqz do gqz end",
    "until fqz do gqz { } end",
    "for iqz in fqz do gqz end",
    "->(aqz) do end",
    "fqz -> do end do end",
    "fqz gqz { } do end",
    "fqz(gqz do end)",
    "fqz [gqz do end]",
    "case 1; in {aqz:, bqz: [*]} then 1; in [aqz, {cqz: 1}] then 2 end",
    "1 => {aqz: 1, bqz:}",
    "1 in aqz",
    "fqz aqz: 1",
    "fqz(aqz: 1) ? bqz : cqz",
    "fqz ? gqz : hqz",
    "(1...2)",
    "fqz 1...2",
    "vqz = [1..]",
    "def pqz(...) = gqz(...)",
    "def pqz(*, **, &) = gqz(&)",
    "def pqz aqz, bqz = 1, *cqz, dqz:, eqz: 1, **fqz; super; end",
    "def self.pqz(aqz = (bqz = 1)) = aqz",
    "\"a#{fqz { 1 }}b\"",
    "%w[a b]; :aqz",
    "fqz <<~A, <<-'B'\n  x#{1}\n    y\nA\n  z\n  B",
    "{aqz: 1}",
    "{aqz => 1}",
    "aqz, (bqz, *cqz) = 1, 2",
    "begin; rescue Aqz => eqz; else; ensure; end",
    "BEGIN { 1 }",
    "END { 1 }",
    "alias aqz bqz; undef cqz, :dqz",
    "fqz -1",
    "fqz /a/",
    "not fqz",
    "if (aqz..bqz) then end",
    "fqz = 1 if /a/",
    "defined? fqz",
    "fqz&.gqz += 1",
    "def pqz; yield; end",
];
fn probes() -> &'static Vec<(String, Option<T>)> {
    static P: std::sync::OnceLock<Vec<(String, Option<T>)>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        PROBES
            .iter()
            .map(|p| (p.to_string(), parse(p.as_bytes()).ok().filter(|r| !r.has_error()).and_then(|r| r.ast)))
            .collect()
    })
}
fn statements(t: &Option<T>) -> Vec<T> {
    match t {
        None => vec![],
        Some(t) if t.k == "Begin" && t.loc("begin_l").is_none() => t.list("statements").to_vec(),
        Some(t) => vec![t.clone()],
    }
}
/// The program with one more statement behind it: both must parse as they do alone.
fn probed(w: &mut W, p: &Prog, r: &mut Rng) {
    let (text, alone) = r.pick(probes());
    let mut src = p.src.clone();
    src.extend_from_slice(r.pick(&[&b"\n"[..], b"\n\n", b" \n", b"\n# c\n", b"\n;"]));
    let at = src.len();
    src.extend_from_slice(text.as_bytes());
    w.feed(&src);
    w.note("statement put behind the program");
    let res = match parse(&src) {
        Err((m, l)) => return w.fail(format!("parser panicked on a valid program: {} at {}", m, l), &src),
        Ok(r) => r,
    };
    if let Some(d) = res.errors().first() {
        return w.fail(format!("valid program rejected: {} at {}..{}", d.text, d.loc.0, d.loc.1), &src);
    }
    let Some(alone) = alone else { return };
    let mut want = statements(&p.tree);
    let mut tail = alone.clone();
    tail.shift(at as isize);
    want.extend(statements(&Some(tail)));
    let got = statements(&res.ast);
    if want.len() != got.len() {
        return w.fail(format!("{} statements, expected {}", got.len(), want.len()), &src);
    }
    for (a, b) in want.iter().zip(&got) {
        if let Some(d) = diff_opt(&Some(a.clone()), &Some(b.clone()), true) {
            return w.fail(format!("wrong tree with one more statement behind: {}", d), &src);
        }
    }
}

pub fn model_case(w: &mut W, i: u64, groups: &[&str]) {
    let ts = targets(groups);
    let n = ts.len() as u64;
    let t = ts[(i % n) as usize];
    let round = i / n;
    let layout = (round % 3) as u8;
    let depth = [2, 3, 4, 6, 1][(round / 3 % 5) as usize];
    let budget = [6, 12, 25, 40][(round / 15 % 4) as usize];
    let mut p = program(w.rng("prog", i), layout, groups, Some(t), depth, budget);
    let mut r = w.rng("dress", i);
    if r.chance(1, 3) {
        probed(w, &p, &mut r);
    }
    dress(&mut p, &mut r);
    w.feed(&p.src);
    let res = parse_validated(&p.src);
    if let Some(m) = judge(&p, &res) {
        w.fail(m, &p.src);
    }
    let hit = p.used.contains(&t);
    w.done(&p.src, hit);
    w.note(if hit { "target construct present" } else { "target construct not placed" });
    w.note(&format!("layout {}", layout));
    if hit {
        w.note(&format!("construct {:03}", t));
    }
    w.add("nodes compared", p.tree.as_ref().map_or(0, |t| t.count() as u64));
    for (k, v) in &p.feats {
        w.add(k, *v);
    }
}
