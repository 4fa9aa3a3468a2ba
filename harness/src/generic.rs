//! Checks that hold for arbitrary inputs.
use crate::check::W;
use crate::inputs::*;
use crate::util::*;
use lib_ruby_parser::source::*;
use lib_ruby_parser::*;

pub fn upper_decoder() -> Decoder {
    Decoder::new(Box::new(|_enc, input| DecoderResult::Ok(input)))
}

// ---------------------------------------------------------------- C01
pub fn c01(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    let (v, kind) = hostile(&mut r);
    w.feed(&v);
    w.note(kind);
    let mode = r.below(8);
    let res = guarded(|| {
        let o = ParserOptions {
            buffer_name: if mode & 1 == 0 { "(rbmon)".into() } else { String::new() },
            decoder: if mode == 2 { Some(upper_decoder()) } else { None },
            record_tokens: mode != 3,
        };
        let p = Parser::new(v.clone(), o).do_parse();
        let e = extract(&p);
        // everything a user calls on the result
        let mut rendered = 0;
        for d in &p.diagnostics {
            let _ = d.render_message();
            if d.render(&p.input).is_some() {
                rendered += 1;
            }
        }
        for t in &p.tokens {
            let _ = t.to_string_lossy();
            let _ = t.loc.source(&p.input);
            let _ = t.loc.begin_line_col(&p.input);
        }
        for c in &p.comments {
            let _ = c.location.source(&p.input);
        }
        if mode == 4 && v.len() < 2000 {
            let _ = format!("{:?}", p);
            if let Some(a) = &p.ast {
                let _ = a.inspect(0);
            }
        }
        (e, rendered)
    });
    match &res {
        Err((m, l)) => w.fail(format!("parser panicked: {} at {} ({})", m, l, kind), &v),
        Ok((e, _)) => {
            w.note(if e.has_error() { "rejected" } else { "accepted" });
            w.add("diagnostics observed", e.diags.len() as u64);
            w.add("tokens observed", e.toks.len() as u64);
        }
    }
    if mode == 5 {
        let lr = guarded(|| Lexer::new(v.clone(), "(rbmon)", None).tokenize_until_eof().len());
        match lr {
            Err((m, l)) => w.fail(format!("standalone lexer panicked: {} at {} ({})", m, l, kind), &v),
            Ok(n) => w.add("tokens of the standalone lexer", n as u64),
        }
    }
    w.done(&v, res.is_ok());
}
