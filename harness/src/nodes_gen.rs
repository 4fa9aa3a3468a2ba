// Generated once from lib-ruby-parser-ast 0.55.0 node definitions (external crate, pinned).
use crate::tree::{T,V};
use lib_ruby_parser::{Node,Loc};
fn l(x:&Loc)->V{V::Loc(Some((x.begin,x.end)))}
fn ol(x:&Option<Loc>)->V{V::Loc(x.as_ref().map(|x|(x.begin,x.end)))}
fn n(x:&Node)->V{V::Node(Some(Box::new(conv(x))))}
fn on(x:&Option<Box<Node>>)->V{V::Node(x.as_ref().map(|x|Box::new(conv(x))))}
fn vn(x:&[Node])->V{V::List(x.iter().map(conv).collect())}
fn s(x:&str)->V{V::Str(Some(x.as_bytes().to_vec()))}
fn os(x:&Option<String>)->V{V::Str(x.as_ref().map(|x|x.as_bytes().to_vec()))}
pub fn conv(node:&Node)->T{
 match node {
  Node::Alias(x)=>T{k:"Alias",e:(x.expression_l.begin,x.expression_l.end),f:vec![("to",n(&x.to)),("from",n(&x.from)),("keyword_l",l(&x.keyword_l))]},
  Node::And(x)=>T{k:"And",e:(x.expression_l.begin,x.expression_l.end),f:vec![("lhs",n(&x.lhs)),("rhs",n(&x.rhs)),("operator_l",l(&x.operator_l))]},
  Node::AndAsgn(x)=>T{k:"AndAsgn",e:(x.expression_l.begin,x.expression_l.end),f:vec![("recv",n(&x.recv)),("value",n(&x.value)),("operator_l",l(&x.operator_l))]},
  Node::Arg(x)=>T{k:"Arg",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name))]},
  Node::Args(x)=>T{k:"Args",e:(x.expression_l.begin,x.expression_l.end),f:vec![("args",vn(&x.args)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::Array(x)=>T{k:"Array",e:(x.expression_l.begin,x.expression_l.end),f:vec![("elements",vn(&x.elements)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::ArrayPattern(x)=>T{k:"ArrayPattern",e:(x.expression_l.begin,x.expression_l.end),f:vec![("elements",vn(&x.elements)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::ArrayPatternWithTail(x)=>T{k:"ArrayPatternWithTail",e:(x.expression_l.begin,x.expression_l.end),f:vec![("elements",vn(&x.elements)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::BackRef(x)=>T{k:"BackRef",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name))]},
  Node::Begin(x)=>T{k:"Begin",e:(x.expression_l.begin,x.expression_l.end),f:vec![("statements",vn(&x.statements)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::Block(x)=>T{k:"Block",e:(x.expression_l.begin,x.expression_l.end),f:vec![("call",n(&x.call)),("args",on(&x.args)),("body",on(&x.body)),("begin_l",l(&x.begin_l)),("end_l",l(&x.end_l))]},
  Node::BlockPass(x)=>T{k:"BlockPass",e:(x.expression_l.begin,x.expression_l.end),f:vec![("value",on(&x.value)),("operator_l",l(&x.operator_l))]},
  Node::Blockarg(x)=>T{k:"Blockarg",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",os(&x.name)),("operator_l",l(&x.operator_l)),("name_l",ol(&x.name_l))]},
  Node::Break(x)=>T{k:"Break",e:(x.expression_l.begin,x.expression_l.end),f:vec![("args",vn(&x.args)),("keyword_l",l(&x.keyword_l))]},
  Node::CSend(x)=>T{k:"CSend",e:(x.expression_l.begin,x.expression_l.end),f:vec![("recv",n(&x.recv)),("method_name",s(&x.method_name)),("args",vn(&x.args)),("dot_l",l(&x.dot_l)),("selector_l",ol(&x.selector_l)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l)),("operator_l",ol(&x.operator_l))]},
  Node::Case(x)=>T{k:"Case",e:(x.expression_l.begin,x.expression_l.end),f:vec![("expr",on(&x.expr)),("when_bodies",vn(&x.when_bodies)),("else_body",on(&x.else_body)),("keyword_l",l(&x.keyword_l)),("else_l",ol(&x.else_l)),("end_l",l(&x.end_l))]},
  Node::CaseMatch(x)=>T{k:"CaseMatch",e:(x.expression_l.begin,x.expression_l.end),f:vec![("expr",n(&x.expr)),("in_bodies",vn(&x.in_bodies)),("else_body",on(&x.else_body)),("keyword_l",l(&x.keyword_l)),("else_l",ol(&x.else_l)),("end_l",l(&x.end_l))]},
  Node::Casgn(x)=>T{k:"Casgn",e:(x.expression_l.begin,x.expression_l.end),f:vec![("scope",on(&x.scope)),("name",s(&x.name)),("value",on(&x.value)),("double_colon_l",ol(&x.double_colon_l)),("name_l",l(&x.name_l)),("operator_l",ol(&x.operator_l))]},
  Node::Cbase(x)=>T{k:"Cbase",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::Class(x)=>T{k:"Class",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",n(&x.name)),("superclass",on(&x.superclass)),("body",on(&x.body)),("keyword_l",l(&x.keyword_l)),("operator_l",ol(&x.operator_l)),("end_l",l(&x.end_l))]},
  Node::Complex(x)=>T{k:"Complex",e:(x.expression_l.begin,x.expression_l.end),f:vec![("value",s(&x.value)),("operator_l",ol(&x.operator_l))]},
  Node::Const(x)=>T{k:"Const",e:(x.expression_l.begin,x.expression_l.end),f:vec![("scope",on(&x.scope)),("name",s(&x.name)),("double_colon_l",ol(&x.double_colon_l)),("name_l",l(&x.name_l))]},
  Node::ConstPattern(x)=>T{k:"ConstPattern",e:(x.expression_l.begin,x.expression_l.end),f:vec![("const_",n(&x.const_)),("pattern",n(&x.pattern)),("begin_l",l(&x.begin_l)),("end_l",l(&x.end_l))]},
  Node::Cvar(x)=>T{k:"Cvar",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name))]},
  Node::Cvasgn(x)=>T{k:"Cvasgn",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name)),("value",on(&x.value)),("name_l",l(&x.name_l)),("operator_l",ol(&x.operator_l))]},
  Node::Def(x)=>T{k:"Def",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name)),("args",on(&x.args)),("body",on(&x.body)),("keyword_l",l(&x.keyword_l)),("name_l",l(&x.name_l)),("end_l",ol(&x.end_l)),("assignment_l",ol(&x.assignment_l))]},
  Node::Defined(x)=>T{k:"Defined",e:(x.expression_l.begin,x.expression_l.end),f:vec![("value",n(&x.value)),("keyword_l",l(&x.keyword_l)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::Defs(x)=>T{k:"Defs",e:(x.expression_l.begin,x.expression_l.end),f:vec![("definee",n(&x.definee)),("name",s(&x.name)),("args",on(&x.args)),("body",on(&x.body)),("keyword_l",l(&x.keyword_l)),("operator_l",l(&x.operator_l)),("name_l",l(&x.name_l)),("assignment_l",ol(&x.assignment_l)),("end_l",ol(&x.end_l))]},
  Node::Dstr(x)=>T{k:"Dstr",e:(x.expression_l.begin,x.expression_l.end),f:vec![("parts",vn(&x.parts)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::Dsym(x)=>T{k:"Dsym",e:(x.expression_l.begin,x.expression_l.end),f:vec![("parts",vn(&x.parts)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::EFlipFlop(x)=>T{k:"EFlipFlop",e:(x.expression_l.begin,x.expression_l.end),f:vec![("left",on(&x.left)),("right",on(&x.right)),("operator_l",l(&x.operator_l))]},
  Node::EmptyElse(x)=>T{k:"EmptyElse",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::Encoding(x)=>T{k:"Encoding",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::Ensure(x)=>T{k:"Ensure",e:(x.expression_l.begin,x.expression_l.end),f:vec![("body",on(&x.body)),("ensure",on(&x.ensure)),("keyword_l",l(&x.keyword_l))]},
  Node::Erange(x)=>T{k:"Erange",e:(x.expression_l.begin,x.expression_l.end),f:vec![("left",on(&x.left)),("right",on(&x.right)),("operator_l",l(&x.operator_l))]},
  Node::False(x)=>T{k:"False",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::File(x)=>T{k:"File",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::FindPattern(x)=>T{k:"FindPattern",e:(x.expression_l.begin,x.expression_l.end),f:vec![("elements",vn(&x.elements)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::Float(x)=>T{k:"Float",e:(x.expression_l.begin,x.expression_l.end),f:vec![("value",s(&x.value)),("operator_l",ol(&x.operator_l))]},
  Node::For(x)=>T{k:"For",e:(x.expression_l.begin,x.expression_l.end),f:vec![("iterator",n(&x.iterator)),("iteratee",n(&x.iteratee)),("body",on(&x.body)),("keyword_l",l(&x.keyword_l)),("operator_l",l(&x.operator_l)),("begin_l",l(&x.begin_l)),("end_l",l(&x.end_l))]},
  Node::ForwardArg(x)=>T{k:"ForwardArg",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::ForwardedArgs(x)=>T{k:"ForwardedArgs",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::Gvar(x)=>T{k:"Gvar",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name))]},
  Node::Gvasgn(x)=>T{k:"Gvasgn",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name)),("value",on(&x.value)),("name_l",l(&x.name_l)),("operator_l",ol(&x.operator_l))]},
  Node::Hash(x)=>T{k:"Hash",e:(x.expression_l.begin,x.expression_l.end),f:vec![("pairs",vn(&x.pairs)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::HashPattern(x)=>T{k:"HashPattern",e:(x.expression_l.begin,x.expression_l.end),f:vec![("elements",vn(&x.elements)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::Heredoc(x)=>T{k:"Heredoc",e:(x.expression_l.begin,x.expression_l.end),f:vec![("parts",vn(&x.parts)),("heredoc_body_l",l(&x.heredoc_body_l)),("heredoc_end_l",l(&x.heredoc_end_l))]},
  Node::IFlipFlop(x)=>T{k:"IFlipFlop",e:(x.expression_l.begin,x.expression_l.end),f:vec![("left",on(&x.left)),("right",on(&x.right)),("operator_l",l(&x.operator_l))]},
  Node::If(x)=>T{k:"If",e:(x.expression_l.begin,x.expression_l.end),f:vec![("cond",n(&x.cond)),("if_true",on(&x.if_true)),("if_false",on(&x.if_false)),("keyword_l",l(&x.keyword_l)),("begin_l",l(&x.begin_l)),("else_l",ol(&x.else_l)),("end_l",ol(&x.end_l))]},
  Node::IfGuard(x)=>T{k:"IfGuard",e:(x.expression_l.begin,x.expression_l.end),f:vec![("cond",n(&x.cond)),("keyword_l",l(&x.keyword_l))]},
  Node::IfMod(x)=>T{k:"IfMod",e:(x.expression_l.begin,x.expression_l.end),f:vec![("cond",n(&x.cond)),("if_true",on(&x.if_true)),("if_false",on(&x.if_false)),("keyword_l",l(&x.keyword_l))]},
  Node::IfTernary(x)=>T{k:"IfTernary",e:(x.expression_l.begin,x.expression_l.end),f:vec![("cond",n(&x.cond)),("if_true",n(&x.if_true)),("if_false",n(&x.if_false)),("question_l",l(&x.question_l)),("colon_l",l(&x.colon_l))]},
  Node::InPattern(x)=>T{k:"InPattern",e:(x.expression_l.begin,x.expression_l.end),f:vec![("pattern",n(&x.pattern)),("guard",on(&x.guard)),("body",on(&x.body)),("keyword_l",l(&x.keyword_l)),("begin_l",l(&x.begin_l))]},
  Node::Index(x)=>T{k:"Index",e:(x.expression_l.begin,x.expression_l.end),f:vec![("recv",n(&x.recv)),("indexes",vn(&x.indexes)),("begin_l",l(&x.begin_l)),("end_l",l(&x.end_l))]},
  Node::IndexAsgn(x)=>T{k:"IndexAsgn",e:(x.expression_l.begin,x.expression_l.end),f:vec![("recv",n(&x.recv)),("indexes",vn(&x.indexes)),("value",on(&x.value)),("begin_l",l(&x.begin_l)),("end_l",l(&x.end_l)),("operator_l",ol(&x.operator_l))]},
  Node::Int(x)=>T{k:"Int",e:(x.expression_l.begin,x.expression_l.end),f:vec![("value",s(&x.value)),("operator_l",ol(&x.operator_l))]},
  Node::Irange(x)=>T{k:"Irange",e:(x.expression_l.begin,x.expression_l.end),f:vec![("left",on(&x.left)),("right",on(&x.right)),("operator_l",l(&x.operator_l))]},
  Node::Ivar(x)=>T{k:"Ivar",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name))]},
  Node::Ivasgn(x)=>T{k:"Ivasgn",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name)),("value",on(&x.value)),("name_l",l(&x.name_l)),("operator_l",ol(&x.operator_l))]},
  Node::KwBegin(x)=>T{k:"KwBegin",e:(x.expression_l.begin,x.expression_l.end),f:vec![("statements",vn(&x.statements)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::Kwarg(x)=>T{k:"Kwarg",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name)),("name_l",l(&x.name_l))]},
  Node::Kwargs(x)=>T{k:"Kwargs",e:(x.expression_l.begin,x.expression_l.end),f:vec![("pairs",vn(&x.pairs))]},
  Node::Kwnilarg(x)=>T{k:"Kwnilarg",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name_l",l(&x.name_l))]},
  Node::Kwoptarg(x)=>T{k:"Kwoptarg",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name)),("default",n(&x.default)),("name_l",l(&x.name_l))]},
  Node::Kwrestarg(x)=>T{k:"Kwrestarg",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",os(&x.name)),("operator_l",l(&x.operator_l)),("name_l",ol(&x.name_l))]},
  Node::Kwsplat(x)=>T{k:"Kwsplat",e:(x.expression_l.begin,x.expression_l.end),f:vec![("value",n(&x.value)),("operator_l",l(&x.operator_l))]},
  Node::Lambda(x)=>T{k:"Lambda",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::Line(x)=>T{k:"Line",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::Lvar(x)=>T{k:"Lvar",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name))]},
  Node::Lvasgn(x)=>T{k:"Lvasgn",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name)),("value",on(&x.value)),("name_l",l(&x.name_l)),("operator_l",ol(&x.operator_l))]},
  Node::Masgn(x)=>T{k:"Masgn",e:(x.expression_l.begin,x.expression_l.end),f:vec![("lhs",n(&x.lhs)),("rhs",n(&x.rhs)),("operator_l",l(&x.operator_l))]},
  Node::MatchAlt(x)=>T{k:"MatchAlt",e:(x.expression_l.begin,x.expression_l.end),f:vec![("lhs",n(&x.lhs)),("rhs",n(&x.rhs)),("operator_l",l(&x.operator_l))]},
  Node::MatchAs(x)=>T{k:"MatchAs",e:(x.expression_l.begin,x.expression_l.end),f:vec![("value",n(&x.value)),("as_",n(&x.as_)),("operator_l",l(&x.operator_l))]},
  Node::MatchCurrentLine(x)=>T{k:"MatchCurrentLine",e:(x.expression_l.begin,x.expression_l.end),f:vec![("re",n(&x.re))]},
  Node::MatchNilPattern(x)=>T{k:"MatchNilPattern",e:(x.expression_l.begin,x.expression_l.end),f:vec![("operator_l",l(&x.operator_l)),("name_l",l(&x.name_l))]},
  Node::MatchPattern(x)=>T{k:"MatchPattern",e:(x.expression_l.begin,x.expression_l.end),f:vec![("value",n(&x.value)),("pattern",n(&x.pattern)),("operator_l",l(&x.operator_l))]},
  Node::MatchPatternP(x)=>T{k:"MatchPatternP",e:(x.expression_l.begin,x.expression_l.end),f:vec![("value",n(&x.value)),("pattern",n(&x.pattern)),("operator_l",l(&x.operator_l))]},
  Node::MatchRest(x)=>T{k:"MatchRest",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",on(&x.name)),("operator_l",l(&x.operator_l))]},
  Node::MatchVar(x)=>T{k:"MatchVar",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name)),("name_l",l(&x.name_l))]},
  Node::MatchWithLvasgn(x)=>T{k:"MatchWithLvasgn",e:(x.expression_l.begin,x.expression_l.end),f:vec![("re",n(&x.re)),("value",n(&x.value)),("operator_l",l(&x.operator_l))]},
  Node::Mlhs(x)=>T{k:"Mlhs",e:(x.expression_l.begin,x.expression_l.end),f:vec![("items",vn(&x.items)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::Module(x)=>T{k:"Module",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",n(&x.name)),("body",on(&x.body)),("keyword_l",l(&x.keyword_l)),("end_l",l(&x.end_l))]},
  Node::Next(x)=>T{k:"Next",e:(x.expression_l.begin,x.expression_l.end),f:vec![("args",vn(&x.args)),("keyword_l",l(&x.keyword_l))]},
  Node::Nil(x)=>T{k:"Nil",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::NthRef(x)=>T{k:"NthRef",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name))]},
  Node::Numblock(x)=>T{k:"Numblock",e:(x.expression_l.begin,x.expression_l.end),f:vec![("call",n(&x.call)),("numargs",V::Str(Some(vec![x.numargs]))),("body",n(&x.body)),("begin_l",l(&x.begin_l)),("end_l",l(&x.end_l))]},
  Node::OpAsgn(x)=>T{k:"OpAsgn",e:(x.expression_l.begin,x.expression_l.end),f:vec![("recv",n(&x.recv)),("operator",s(&x.operator)),("value",n(&x.value)),("operator_l",l(&x.operator_l))]},
  Node::Optarg(x)=>T{k:"Optarg",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name)),("default",n(&x.default)),("name_l",l(&x.name_l)),("operator_l",l(&x.operator_l))]},
  Node::Or(x)=>T{k:"Or",e:(x.expression_l.begin,x.expression_l.end),f:vec![("lhs",n(&x.lhs)),("rhs",n(&x.rhs)),("operator_l",l(&x.operator_l))]},
  Node::OrAsgn(x)=>T{k:"OrAsgn",e:(x.expression_l.begin,x.expression_l.end),f:vec![("recv",n(&x.recv)),("value",n(&x.value)),("operator_l",l(&x.operator_l))]},
  Node::Pair(x)=>T{k:"Pair",e:(x.expression_l.begin,x.expression_l.end),f:vec![("key",n(&x.key)),("value",n(&x.value)),("operator_l",l(&x.operator_l))]},
  Node::Pin(x)=>T{k:"Pin",e:(x.expression_l.begin,x.expression_l.end),f:vec![("var",n(&x.var)),("selector_l",l(&x.selector_l))]},
  Node::Postexe(x)=>T{k:"Postexe",e:(x.expression_l.begin,x.expression_l.end),f:vec![("body",on(&x.body)),("keyword_l",l(&x.keyword_l)),("begin_l",l(&x.begin_l)),("end_l",l(&x.end_l))]},
  Node::Preexe(x)=>T{k:"Preexe",e:(x.expression_l.begin,x.expression_l.end),f:vec![("body",on(&x.body)),("keyword_l",l(&x.keyword_l)),("begin_l",l(&x.begin_l)),("end_l",l(&x.end_l))]},
  Node::Procarg0(x)=>T{k:"Procarg0",e:(x.expression_l.begin,x.expression_l.end),f:vec![("args",vn(&x.args)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::Rational(x)=>T{k:"Rational",e:(x.expression_l.begin,x.expression_l.end),f:vec![("value",s(&x.value)),("operator_l",ol(&x.operator_l))]},
  Node::Redo(x)=>T{k:"Redo",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::RegOpt(x)=>T{k:"RegOpt",e:(x.expression_l.begin,x.expression_l.end),f:vec![("options",os(&x.options))]},
  Node::Regexp(x)=>T{k:"Regexp",e:(x.expression_l.begin,x.expression_l.end),f:vec![("parts",vn(&x.parts)),("options",on(&x.options)),("begin_l",l(&x.begin_l)),("end_l",l(&x.end_l))]},
  Node::Rescue(x)=>T{k:"Rescue",e:(x.expression_l.begin,x.expression_l.end),f:vec![("body",on(&x.body)),("rescue_bodies",vn(&x.rescue_bodies)),("else_",on(&x.else_)),("else_l",ol(&x.else_l))]},
  Node::RescueBody(x)=>T{k:"RescueBody",e:(x.expression_l.begin,x.expression_l.end),f:vec![("exc_list",on(&x.exc_list)),("exc_var",on(&x.exc_var)),("body",on(&x.body)),("keyword_l",l(&x.keyword_l)),("assoc_l",ol(&x.assoc_l)),("begin_l",ol(&x.begin_l))]},
  Node::Restarg(x)=>T{k:"Restarg",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",os(&x.name)),("operator_l",l(&x.operator_l)),("name_l",ol(&x.name_l))]},
  Node::Retry(x)=>T{k:"Retry",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::Return(x)=>T{k:"Return",e:(x.expression_l.begin,x.expression_l.end),f:vec![("args",vn(&x.args)),("keyword_l",l(&x.keyword_l))]},
  Node::SClass(x)=>T{k:"SClass",e:(x.expression_l.begin,x.expression_l.end),f:vec![("expr",n(&x.expr)),("body",on(&x.body)),("keyword_l",l(&x.keyword_l)),("operator_l",l(&x.operator_l)),("end_l",l(&x.end_l))]},
  Node::Self_(x)=>T{k:"Self_",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::Send(x)=>T{k:"Send",e:(x.expression_l.begin,x.expression_l.end),f:vec![("recv",on(&x.recv)),("method_name",s(&x.method_name)),("args",vn(&x.args)),("dot_l",ol(&x.dot_l)),("selector_l",ol(&x.selector_l)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l)),("operator_l",ol(&x.operator_l))]},
  Node::Shadowarg(x)=>T{k:"Shadowarg",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",s(&x.name))]},
  Node::Splat(x)=>T{k:"Splat",e:(x.expression_l.begin,x.expression_l.end),f:vec![("value",on(&x.value)),("operator_l",l(&x.operator_l))]},
  Node::Str(x)=>T{k:"Str",e:(x.expression_l.begin,x.expression_l.end),f:vec![("value",V::Str(Some(x.value.raw.clone()))),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::Super(x)=>T{k:"Super",e:(x.expression_l.begin,x.expression_l.end),f:vec![("args",vn(&x.args)),("keyword_l",l(&x.keyword_l)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::Sym(x)=>T{k:"Sym",e:(x.expression_l.begin,x.expression_l.end),f:vec![("name",V::Str(Some(x.name.raw.clone()))),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::True(x)=>T{k:"True",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
  Node::Undef(x)=>T{k:"Undef",e:(x.expression_l.begin,x.expression_l.end),f:vec![("names",vn(&x.names)),("keyword_l",l(&x.keyword_l))]},
  Node::UnlessGuard(x)=>T{k:"UnlessGuard",e:(x.expression_l.begin,x.expression_l.end),f:vec![("cond",n(&x.cond)),("keyword_l",l(&x.keyword_l))]},
  Node::Until(x)=>T{k:"Until",e:(x.expression_l.begin,x.expression_l.end),f:vec![("cond",n(&x.cond)),("body",on(&x.body)),("keyword_l",l(&x.keyword_l)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::UntilPost(x)=>T{k:"UntilPost",e:(x.expression_l.begin,x.expression_l.end),f:vec![("cond",n(&x.cond)),("body",n(&x.body)),("keyword_l",l(&x.keyword_l))]},
  Node::When(x)=>T{k:"When",e:(x.expression_l.begin,x.expression_l.end),f:vec![("patterns",vn(&x.patterns)),("body",on(&x.body)),("keyword_l",l(&x.keyword_l)),("begin_l",l(&x.begin_l))]},
  Node::While(x)=>T{k:"While",e:(x.expression_l.begin,x.expression_l.end),f:vec![("cond",n(&x.cond)),("body",on(&x.body)),("keyword_l",l(&x.keyword_l)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::WhilePost(x)=>T{k:"WhilePost",e:(x.expression_l.begin,x.expression_l.end),f:vec![("cond",n(&x.cond)),("body",n(&x.body)),("keyword_l",l(&x.keyword_l))]},
  Node::XHeredoc(x)=>T{k:"XHeredoc",e:(x.expression_l.begin,x.expression_l.end),f:vec![("parts",vn(&x.parts)),("heredoc_body_l",l(&x.heredoc_body_l)),("heredoc_end_l",l(&x.heredoc_end_l))]},
  Node::Xstr(x)=>T{k:"Xstr",e:(x.expression_l.begin,x.expression_l.end),f:vec![("parts",vn(&x.parts)),("begin_l",l(&x.begin_l)),("end_l",l(&x.end_l))]},
  Node::Yield(x)=>T{k:"Yield",e:(x.expression_l.begin,x.expression_l.end),f:vec![("args",vn(&x.args)),("keyword_l",l(&x.keyword_l)),("begin_l",ol(&x.begin_l)),("end_l",ol(&x.end_l))]},
  Node::ZSuper(x)=>T{k:"ZSuper",e:(x.expression_l.begin,x.expression_l.end),f:vec![]},
 }
}

/// (node kind, [(field, kind of field)]): N node, O optional node, L list, l loc, o optional loc, s string
pub const SCHEMA:&[(&str,&[(&str,char)])]=&[
 ("Alias",&[("to",'N'),("from",'N'),("keyword_l",'l')]),
 ("And",&[("lhs",'N'),("rhs",'N'),("operator_l",'l')]),
 ("AndAsgn",&[("recv",'N'),("value",'N'),("operator_l",'l')]),
 ("Arg",&[("name",'s')]),
 ("Args",&[("args",'L'),("begin_l",'o'),("end_l",'o')]),
 ("Array",&[("elements",'L'),("begin_l",'o'),("end_l",'o')]),
 ("ArrayPattern",&[("elements",'L'),("begin_l",'o'),("end_l",'o')]),
 ("ArrayPatternWithTail",&[("elements",'L'),("begin_l",'o'),("end_l",'o')]),
 ("BackRef",&[("name",'s')]),
 ("Begin",&[("statements",'L'),("begin_l",'o'),("end_l",'o')]),
 ("Block",&[("call",'N'),("args",'O'),("body",'O'),("begin_l",'l'),("end_l",'l')]),
 ("BlockPass",&[("value",'O'),("operator_l",'l')]),
 ("Blockarg",&[("name",'S'),("operator_l",'l'),("name_l",'o')]),
 ("Break",&[("args",'L'),("keyword_l",'l')]),
 ("CSend",&[("recv",'N'),("method_name",'s'),("args",'L'),("dot_l",'l'),("selector_l",'o'),("begin_l",'o'),("end_l",'o'),("operator_l",'o')]),
 ("Case",&[("expr",'O'),("when_bodies",'L'),("else_body",'O'),("keyword_l",'l'),("else_l",'o'),("end_l",'l')]),
 ("CaseMatch",&[("expr",'N'),("in_bodies",'L'),("else_body",'O'),("keyword_l",'l'),("else_l",'o'),("end_l",'l')]),
 ("Casgn",&[("scope",'O'),("name",'s'),("value",'O'),("double_colon_l",'o'),("name_l",'l'),("operator_l",'o')]),
 ("Cbase",&[]),
 ("Class",&[("name",'N'),("superclass",'O'),("body",'O'),("keyword_l",'l'),("operator_l",'o'),("end_l",'l')]),
 ("Complex",&[("value",'s'),("operator_l",'o')]),
 ("Const",&[("scope",'O'),("name",'s'),("double_colon_l",'o'),("name_l",'l')]),
 ("ConstPattern",&[("const_",'N'),("pattern",'N'),("begin_l",'l'),("end_l",'l')]),
 ("Cvar",&[("name",'s')]),
 ("Cvasgn",&[("name",'s'),("value",'O'),("name_l",'l'),("operator_l",'o')]),
 ("Def",&[("name",'s'),("args",'O'),("body",'O'),("keyword_l",'l'),("name_l",'l'),("end_l",'o'),("assignment_l",'o')]),
 ("Defined",&[("value",'N'),("keyword_l",'l'),("begin_l",'o'),("end_l",'o')]),
 ("Defs",&[("definee",'N'),("name",'s'),("args",'O'),("body",'O'),("keyword_l",'l'),("operator_l",'l'),("name_l",'l'),("assignment_l",'o'),("end_l",'o')]),
 ("Dstr",&[("parts",'L'),("begin_l",'o'),("end_l",'o')]),
 ("Dsym",&[("parts",'L'),("begin_l",'o'),("end_l",'o')]),
 ("EFlipFlop",&[("left",'O'),("right",'O'),("operator_l",'l')]),
 ("EmptyElse",&[]),
 ("Encoding",&[]),
 ("Ensure",&[("body",'O'),("ensure",'O'),("keyword_l",'l')]),
 ("Erange",&[("left",'O'),("right",'O'),("operator_l",'l')]),
 ("False",&[]),
 ("File",&[]),
 ("FindPattern",&[("elements",'L'),("begin_l",'o'),("end_l",'o')]),
 ("Float",&[("value",'s'),("operator_l",'o')]),
 ("For",&[("iterator",'N'),("iteratee",'N'),("body",'O'),("keyword_l",'l'),("operator_l",'l'),("begin_l",'l'),("end_l",'l')]),
 ("ForwardArg",&[]),
 ("ForwardedArgs",&[]),
 ("Gvar",&[("name",'s')]),
 ("Gvasgn",&[("name",'s'),("value",'O'),("name_l",'l'),("operator_l",'o')]),
 ("Hash",&[("pairs",'L'),("begin_l",'o'),("end_l",'o')]),
 ("HashPattern",&[("elements",'L'),("begin_l",'o'),("end_l",'o')]),
 ("Heredoc",&[("parts",'L'),("heredoc_body_l",'l'),("heredoc_end_l",'l')]),
 ("IFlipFlop",&[("left",'O'),("right",'O'),("operator_l",'l')]),
 ("If",&[("cond",'N'),("if_true",'O'),("if_false",'O'),("keyword_l",'l'),("begin_l",'l'),("else_l",'o'),("end_l",'o')]),
 ("IfGuard",&[("cond",'N'),("keyword_l",'l')]),
 ("IfMod",&[("cond",'N'),("if_true",'O'),("if_false",'O'),("keyword_l",'l')]),
 ("IfTernary",&[("cond",'N'),("if_true",'N'),("if_false",'N'),("question_l",'l'),("colon_l",'l')]),
 ("InPattern",&[("pattern",'N'),("guard",'O'),("body",'O'),("keyword_l",'l'),("begin_l",'l')]),
 ("Index",&[("recv",'N'),("indexes",'L'),("begin_l",'l'),("end_l",'l')]),
 ("IndexAsgn",&[("recv",'N'),("indexes",'L'),("value",'O'),("begin_l",'l'),("end_l",'l'),("operator_l",'o')]),
 ("Int",&[("value",'s'),("operator_l",'o')]),
 ("Irange",&[("left",'O'),("right",'O'),("operator_l",'l')]),
 ("Ivar",&[("name",'s')]),
 ("Ivasgn",&[("name",'s'),("value",'O'),("name_l",'l'),("operator_l",'o')]),
 ("KwBegin",&[("statements",'L'),("begin_l",'o'),("end_l",'o')]),
 ("Kwarg",&[("name",'s'),("name_l",'l')]),
 ("Kwargs",&[("pairs",'L')]),
 ("Kwnilarg",&[("name_l",'l')]),
 ("Kwoptarg",&[("name",'s'),("default",'N'),("name_l",'l')]),
 ("Kwrestarg",&[("name",'S'),("operator_l",'l'),("name_l",'o')]),
 ("Kwsplat",&[("value",'N'),("operator_l",'l')]),
 ("Lambda",&[]),
 ("Line",&[]),
 ("Lvar",&[("name",'s')]),
 ("Lvasgn",&[("name",'s'),("value",'O'),("name_l",'l'),("operator_l",'o')]),
 ("Masgn",&[("lhs",'N'),("rhs",'N'),("operator_l",'l')]),
 ("MatchAlt",&[("lhs",'N'),("rhs",'N'),("operator_l",'l')]),
 ("MatchAs",&[("value",'N'),("as_",'N'),("operator_l",'l')]),
 ("MatchCurrentLine",&[("re",'N')]),
 ("MatchNilPattern",&[("operator_l",'l'),("name_l",'l')]),
 ("MatchPattern",&[("value",'N'),("pattern",'N'),("operator_l",'l')]),
 ("MatchPatternP",&[("value",'N'),("pattern",'N'),("operator_l",'l')]),
 ("MatchRest",&[("name",'O'),("operator_l",'l')]),
 ("MatchVar",&[("name",'s'),("name_l",'l')]),
 ("MatchWithLvasgn",&[("re",'N'),("value",'N'),("operator_l",'l')]),
 ("Mlhs",&[("items",'L'),("begin_l",'o'),("end_l",'o')]),
 ("Module",&[("name",'N'),("body",'O'),("keyword_l",'l'),("end_l",'l')]),
 ("Next",&[("args",'L'),("keyword_l",'l')]),
 ("Nil",&[]),
 ("NthRef",&[("name",'s')]),
 ("Numblock",&[("call",'N'),("numargs",'s'),("body",'N'),("begin_l",'l'),("end_l",'l')]),
 ("OpAsgn",&[("recv",'N'),("operator",'s'),("value",'N'),("operator_l",'l')]),
 ("Optarg",&[("name",'s'),("default",'N'),("name_l",'l'),("operator_l",'l')]),
 ("Or",&[("lhs",'N'),("rhs",'N'),("operator_l",'l')]),
 ("OrAsgn",&[("recv",'N'),("value",'N'),("operator_l",'l')]),
 ("Pair",&[("key",'N'),("value",'N'),("operator_l",'l')]),
 ("Pin",&[("var",'N'),("selector_l",'l')]),
 ("Postexe",&[("body",'O'),("keyword_l",'l'),("begin_l",'l'),("end_l",'l')]),
 ("Preexe",&[("body",'O'),("keyword_l",'l'),("begin_l",'l'),("end_l",'l')]),
 ("Procarg0",&[("args",'L'),("begin_l",'o'),("end_l",'o')]),
 ("Rational",&[("value",'s'),("operator_l",'o')]),
 ("Redo",&[]),
 ("RegOpt",&[("options",'S')]),
 ("Regexp",&[("parts",'L'),("options",'O'),("begin_l",'l'),("end_l",'l')]),
 ("Rescue",&[("body",'O'),("rescue_bodies",'L'),("else_",'O'),("else_l",'o')]),
 ("RescueBody",&[("exc_list",'O'),("exc_var",'O'),("body",'O'),("keyword_l",'l'),("assoc_l",'o'),("begin_l",'o')]),
 ("Restarg",&[("name",'S'),("operator_l",'l'),("name_l",'o')]),
 ("Retry",&[]),
 ("Return",&[("args",'L'),("keyword_l",'l')]),
 ("SClass",&[("expr",'N'),("body",'O'),("keyword_l",'l'),("operator_l",'l'),("end_l",'l')]),
 ("Self_",&[]),
 ("Send",&[("recv",'O'),("method_name",'s'),("args",'L'),("dot_l",'o'),("selector_l",'o'),("begin_l",'o'),("end_l",'o'),("operator_l",'o')]),
 ("Shadowarg",&[("name",'s')]),
 ("Splat",&[("value",'O'),("operator_l",'l')]),
 ("Str",&[("value",'s'),("begin_l",'o'),("end_l",'o')]),
 ("Super",&[("args",'L'),("keyword_l",'l'),("begin_l",'o'),("end_l",'o')]),
 ("Sym",&[("name",'s'),("begin_l",'o'),("end_l",'o')]),
 ("True",&[]),
 ("Undef",&[("names",'L'),("keyword_l",'l')]),
 ("UnlessGuard",&[("cond",'N'),("keyword_l",'l')]),
 ("Until",&[("cond",'N'),("body",'O'),("keyword_l",'l'),("begin_l",'o'),("end_l",'o')]),
 ("UntilPost",&[("cond",'N'),("body",'N'),("keyword_l",'l')]),
 ("When",&[("patterns",'L'),("body",'O'),("keyword_l",'l'),("begin_l",'l')]),
 ("While",&[("cond",'N'),("body",'O'),("keyword_l",'l'),("begin_l",'o'),("end_l",'o')]),
 ("WhilePost",&[("cond",'N'),("body",'N'),("keyword_l",'l')]),
 ("XHeredoc",&[("parts",'L'),("heredoc_body_l",'l'),("heredoc_end_l",'l')]),
 ("Xstr",&[("parts",'L'),("begin_l",'l'),("end_l",'l')]),
 ("Yield",&[("args",'L'),("keyword_l",'l'),("begin_l",'o'),("end_l",'o')]),
 ("ZSuper",&[]),
];
