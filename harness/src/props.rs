//! The table of properties.
use crate::check::{Prop, W};
use crate::model::model_case;

macro_rules! model {
    ($n:ident, $($g:expr),+) => {
        fn $n(w: &mut W, i: u64) {
            model_case(w, i, &[$($g),+])
        }
    };
}
model!(c12, "literals");
model!(c13, "heredoc");
model!(c15, "ops", "expr");
model!(c16, "vars");
model!(c17, "calls", "blocks");
model!(c18, "defs");
model!(c19, "ctrl");
model!(c20, "pat");
model!(c21, "asgn");
model!(c22, "coll", "const", "misc");

pub const MODEL_RULE: &str = "Each case composes one chosen construct into a random program (random surrounding constructs, names, literals, whitespace, line breaks and comments) whose full tree with all source ranges is known from the composition; the real parser's tree is compared field by field and its final state is validated. A case counts when the chosen construct really is in the program; distinct by source text.";
pub const MODEL_ASSUME: &[&str] = &["the reference model (templates.txt and the literal/heredoc/operator models) states Ruby 3.1 syntax and the documented node format correctly; it was reconciled with the parser and MRI's documented behaviour over millions of programs"];

pub const MIXED_RULE: &str = "Inputs are programs of the reference model (one third) and hostile inputs (mutated, truncated and spliced programs, fragment soups), of which the parser accepts a part; every node of every returned tree is judged. A case counts when there is a tree to judge; distinct by input.";
pub static PROPS: &[Prop] = &[
    Prop { id: "C01", quick: 800_000, thorough: 60_000_000, case: crate::generic::c01, rule: "Inputs are programs of the reference model, byte- and token-level mutations, truncations and splices of them, fragment and byte soups, stray bytes, headers, CRLF, and long or deeply nested programs; each runs through the real parser in a worker process with debug assertions and overflow checks on, and through every accessor of the result. A case counts when the parser returned; distinct by input.", must: &["accepted", "rejected"], assumptions: &["a parse that needs more than 40 s of CPU time counts as not terminating; nesting depth up to 1000"] },
    Prop { id: "C02", quick: 500_000, thorough: 40_000_000, case: crate::mem::c02, rule: "Model programs and hostile inputs through every way of using parser and lexer, under an allocator that accounts for every block of the thread; every 64th case compares a program repeated n and 2n (in one line: 4n) times. A case counts when memory was allocated; distinct by input.", must: &["allocations observed", "scaling judged over lines", "scaling judged in one line", "standalone lexer", "taken apart"], assumptions: &[] },
    Prop { id: "C03", quick: 400_000, thorough: 40_000_000, case: crate::mem::c03, rule: "Each input is parsed as a base line and again under one variation; every part of the two results is compared. Every case counts; distinct by input.", must: &["parsed again", "without recording tokens", "under another name", "after other programs", "constructed before another parse", "in several threads at once", "with a decoder", "with validation", "given as a string"], assumptions: &[] },
    Prop { id: "C04", quick: 500_000, thorough: 40_000_000, case: crate::locs::c04, rule: MIXED_RULE, must: &["accepted", "rejected", "nodes judged in accepted"], assumptions: &["the tables of nodes whose ranges legitimately overlap or extend past their parts state the documented node format"] },
    Prop { id: "C05", quick: 700_000, thorough: 40_000_000, case: crate::locs::c05, rule: MIXED_RULE, must: &["accepted", "ranges judged", "tokens found in the tree"], assumptions: &["the table of texts a range may cover states the documented node format"] },
    Prop { id: "C06", quick: 700_000, thorough: 40_000_000, case: crate::toks::c06, rule: MIXED_RULE, must: &["accepted", "tokens judged"], assumptions: &["a token for a line break may be placed at the break or at the comment in front of it"] },
    Prop { id: "C07", quick: 600_000, thorough: 40_000_000, case: crate::comments::c07, rule: "Model programs with comments known from their composition (in front, inside in every layout position, behind, around =begin blocks and __END__), and accepted hostile inputs. A case counts when there is a comment; distinct by input.", must: &["comments expected", "comments observed"], assumptions: &[] },
    Prop { id: "C08", quick: 500_000, thorough: 40_000_000, case: crate::comments::c08, rule: "Files composed of magic comments in plain and emacs form, look-alikes, headers and code; the list of magic comments is known from the composition. Every case counts; distinct by input.", must: &["magic comments observed", "plain form", "emacs form", "kind encoding", "kind frozen_string_literal", "kind warn_indent", "kind shareable_constant_value"], assumptions: &[] },
    Prop { id: "C09", quick: 400_000, thorough: 40_000_000, case: crate::comments::c09, rule: "Model programs stored in toy encodings (same length, shorter, longer than their meaning) or natively, behind headers in every form; recording decoders that decode or fail. Every case counts; distinct by input.", must: &["decoder calls observed", "native encoding", "foreign encoding, decoder fails", "foreign encoding, decoder shorter", "foreign encoding, decoder longer"], assumptions: &[] },
    Prop { id: "C10", quick: 600_000, thorough: 40_000_000, case: crate::render::c10, rule: "Texts of many shapes (programs, CRLF, runs of line breaks, long lines, no final line break), held by a parse result or built by hand; every position (or 40 of a long text and its edges) judged. A case counts when the text has a line break; distinct by text.", must: &["positions judged", "input of a result", "built by hand", "rebuilt by hand"], assumptions: &[] },
    Prop { id: "C11", quick: 600_000, thorough: 40_000_000, case: crate::render::c11, rule: "Hostile inputs and model programs; every diagnostic of every result judged. A case counts when there is a diagnostic; distinct by input.", must: &["errors judged", "warnings judged"], assumptions: &[] },
    Prop { id: "C12", quick: 600_000, thorough: 30_000_000, case: c12, rule: MODEL_RULE, must: &["target construct present"], assumptions: MODEL_ASSUME },
    Prop { id: "C13", quick: 600_000, thorough: 30_000_000, case: c13, rule: MODEL_RULE, must: &["target construct present"], assumptions: MODEL_ASSUME },
    Prop { id: "C14", quick: 1_500_000, thorough: 40_000_000, case: crate::nums::c14, rule: "All texts of up to four characters over the letters numbers are made of (243,890), then random long literals and near misses, each in a random context; an independent recogniser says what it must be. Every case counts; distinct by source.", must: &["valid Int", "valid Float", "valid Rational", "valid Complex", "malformed literal", "TrailingCharInNumber", "InvalidOctalDigit", "NumericLiteralWithoutDigits", "number followed by something else"], assumptions: &["the recogniser states the numeric syntax of Ruby 3.1"] },
    Prop { id: "C15", quick: 600_000, thorough: 30_000_000, case: c15, rule: MODEL_RULE, must: &["target construct present"], assumptions: MODEL_ASSUME },
    Prop { id: "C16", quick: 600_000, thorough: 30_000_000, case: c16, rule: MODEL_RULE, must: &["target construct present"], assumptions: MODEL_ASSUME },
    Prop { id: "C17", quick: 600_000, thorough: 30_000_000, case: c17, rule: MODEL_RULE, must: &["target construct present"], assumptions: MODEL_ASSUME },
    Prop { id: "C18", quick: 600_000, thorough: 30_000_000, case: c18, rule: MODEL_RULE, must: &["target construct present"], assumptions: MODEL_ASSUME },
    Prop { id: "C19", quick: 600_000, thorough: 30_000_000, case: c19, rule: MODEL_RULE, must: &["target construct present"], assumptions: MODEL_ASSUME },
    Prop { id: "C20", quick: 600_000, thorough: 30_000_000, case: c20, rule: MODEL_RULE, must: &["target construct present"], assumptions: MODEL_ASSUME },
    Prop { id: "C21", quick: 600_000, thorough: 30_000_000, case: c21, rule: MODEL_RULE, must: &["target construct present"], assumptions: MODEL_ASSUME },
    Prop { id: "C22", quick: 600_000, thorough: 30_000_000, case: c22, rule: MODEL_RULE, must: &["target construct present"], assumptions: MODEL_ASSUME },
    Prop { id: "C23", quick: 900_000, thorough: 40_000_000, case: crate::invalid::c23, rule: "Fragments of a catalog of invalid constructs (and cross products: void expressions by value positions, forbidden targets by assignment forms, parameter lists with a repeated name) and of their valid near misses, put behind and in front of random programs and into up to three nested constructs; what must be reported, and where, is known from the composition. Every case counts; distinct by source.", must: &["invalid program judged", "valid near miss judged"], assumptions: &["the catalog states which programs Ruby 3.1 rejects and how the parser names the reason"] },
    Prop { id: "C24", quick: 700_000, thorough: 40_000_000, case: crate::layout::c24, rule: "Model programs and hostile inputs, each parsed as it is and again after one change of layout (lines in front or behind, CRLF, more blanks between tokens, line continuations, more lines between statements); the second tree must be the first one with positions moved. A case counts when a change applied; distinct by changed source.", must: &["lines in front", "lines behind", "CRLF", "more blanks", "line continuation", "more lines", "accepted", "rejected"], assumptions: &[] },
    Prop { id: "C26", quick: 900_000, thorough: 40_000_000, case: crate::layout::c26, rule: "Model programs cut off where a construct is still open, put behind an opener that is never closed, or followed by a closer that closes nothing. Every case counts; distinct by source.", must: &["cut", "unclosed", "stray"], assumptions: &[] },
    Prop { id: "C28", quick: 900_000, thorough: 40_000_000, case: crate::invalid::c28, rule: "Two thirds: fragments of a catalog of dubious constructs, with the warning each deserves and its place, and of near misses that deserve none, composed into random programs as in C23. One third: model programs and hostile inputs, where the warnings that follow from the tree alone (repeated hash keys, chained comparisons, END in a method, huge $n) must be exactly those reported. A case counts when the program was judged; distinct by source.", must: &["trees judged", "near miss judged", "warning judged", "warnings implied by trees"], assumptions: &["the catalog states which constructs deserve a warning, as in MRI 3.1"] },
    Prop { id: "C25", quick: 500_000, thorough: 40_000_000, case: crate::api::c25, rule: "Histories of up to 60 operations on an environment through several handles against a list of sets; model programs with half of their names declared by hand against the same program behind assignments; pairs of programs parsed one after the other, handing the known variables over, against the two as one program; the environment a program leaves behind against what a name means after it. A case counts when two runs (or states) were compared; distinct by source or history.", must: &["history of operations", "environment states compared", "names declared by hand", "continued in a second parser", "variables handed over", "environment left behind", "name of a variable", "name of a method"], assumptions: &[] },
    Prop { id: "C29", quick: 700_000, thorough: 40_000_000, case: crate::api::c29, rule: "The standalone tokenizer on reserved words and near misses of them in eight positions; on a name, declared or not, followed by each ambiguous character; on any input (ranges and accessors of every token); and on model programs in which the parser has nothing to tell the lexer, against the tokens the parser records. A case counts when tokens were judged; distinct by input.", must: &["reserved words", "near misses of reserved words", "name of a variable", "name of a method", "tokens of any input", "tokens compared with the parser's"], assumptions: &["the table states the 41 reserved words of Ruby 3.1"] },
    Prop { id: "C30", quick: 40_000, thorough: 6_000_000, case: crate::mem::c30, rule: "The harness and the library are rebuilt with AddressSanitizer; pairs of model programs and hostile inputs go through lexers, parsers, tokens, results and environments created, moved, cloned, shared, used and dropped in various orders, also in threads. The sanitizer ends a worker at the first access to memory that is not owned, and the parent attributes it to the announced case. A case counts when the uses ran; distinct by input.", must: &["address sanitizer on", "standalone lexer", "tokens outlive their lexers", "lexer asked again", "never run", "taken apart", "results outlive each other", "handles of an environment", "in threads", "inspected"], assumptions: &["AddressSanitizer sees use after free, double free and out-of-bounds access, not reads of uninitialised memory"] },
    Prop { id: "C27", quick: 12_000, thorough: 600_000, case: crate::cli::c27, rule: "The executable built from the tree runs on one to four files (found by a glob pattern) or on -e code, model programs and hostile inputs, with random printers and options, in a scratch directory; its output and exit status are compared byte by byte with what the library returns for the same sources. One in forty runs is bad usage. Every case counts; distinct by command line and sources.", must: &["bad usage", "-e", "--glob", "--repeat", "--drop-tokens", "--run-timer", "--print N", "--print F", "--print L", "--print D", "--print (none)", "bytes of output compared"], assumptions: &[] },
];
pub fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {}", id))
}
