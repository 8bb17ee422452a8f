//@ include shim/base.vx
//@ path BinaryOp => BinaryOp
// ---- C17: every place the parser reports or stores in the syntax tree is a span in order ----
//
// `ordered()` is what printing a report needs (c17_spans). Tokens come in order (c07_lexer,
// lemma_next_token_in_order); every constructor of a syntax tree node asks for an ordered span, so
// each node that exists has one, and the builder takes its spans from the nodes (c09_front).
verus! {
//@ rule __e? => match __e { Ok(vx_x) => vx_x, Err(vx_e) => return Err(vx_e) }
//@ rule __e.map(|__p| __b) => match __e { Ok(__p) => Ok(__b), Err(vx_e) => Err(vx_e) }
//@ rule __s.log_error(__a) => vx_log(&__s)
//@ rule __e.into() => vx_err(__e)
//@ rule *__i as i32 => vx_trunc(*__i)
//@ rule box_assume_init_into_vec_unsafe(write_box_via_move(Box::new_uninit(), [__e])) => vx_vec1(__e)
//@ rule __v.last().unwrap() => vx_last(&__v)
//@ path ast::Error::new_boxed => ast::Error::new_boxed
//@ rule __s.parse_list(|__p| __p.parse_value()) => __s.parse_list_value()
//@ rule __s.parse_opt_list(|__p| __p.parse_value()) => __s.parse_opt_list_value()
//@ rule __s.parse_list(|__p| __p.parse_type()) => __s.parse_list_type()
//@ item ir::values::BinaryOp #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item front::token::Keyword #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item front::token::TokenKind
//@ item front::token::Token
//@ item front::span::Error
//@ item front::span::Pos #[derive(Clone, Copy)]
//@ item front::span::Span #[derive(Clone, Copy)]
pub uninterp spec fn tk_eq(a: TokenKind, b: TokenKind) -> bool;
impl vstd::std_specs::cmp::PartialEqSpecImpl for TokenKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TokenKind) -> bool { tk_eq(*self, *o) }
}
impl PartialEq for TokenKind {
    #[verifier::external_body]
    fn eq(&self, o: &TokenKind) -> (r: bool) { unimplemented!() }
}
} // verus!
//@ include shim/ast.vx
verus! {
// ---- every node of a syntax tree has a span in order: its constructor asks for one ----
pub mod ast_new {
use super::*;
use super::ast::{*, Error};
impl Ast {
//@ fn front::ast::Ast::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, kind: AstKind) -> (r: AstBox)
//@ end
}
impl IntType {
//@ fn front::ast::IntType::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span) -> (r: AstBox)
//@ end
}
impl ArrayType {
//@ fn front::ast::ArrayType::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, base: AstBox, len: usize) -> (r: AstBox)
//@ end
}
impl PointerType {
//@ fn front::ast::PointerType::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, base: AstBox) -> (r: AstBox)
//@ end
}
impl FunType {
//@ fn front::ast::FunType::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, params: Vec<AstBox>, ret: Option<AstBox>) -> (r: AstBox)
//@ end
}
impl SymbolRef {
//@ fn front::ast::SymbolRef::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, symbol: String) -> (r: AstBox)
//@ end
}
impl IntVal {
//@ fn front::ast::IntVal::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, value: i32) -> (r: AstBox)
//@ end
}
impl UndefVal {
//@ fn front::ast::UndefVal::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span) -> (r: AstBox)
//@ end
}
impl Aggregate {
//@ fn front::ast::Aggregate::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, elems: Vec<AstBox>) -> (r: AstBox)
//@ end
}
impl ZeroInit {
//@ fn front::ast::ZeroInit::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span) -> (r: AstBox)
//@ end
}
impl SymbolDef {
//@ fn front::ast::SymbolDef::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, name: String, value: AstBox) -> (r: AstBox)
//@ end
}
impl GlobalDef {
//@ fn front::ast::GlobalDef::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, name: String, value: AstBox) -> (r: AstBox)
//@ end
}
impl MemDecl {
//@ fn front::ast::MemDecl::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, ty: AstBox) -> (r: AstBox)
//@ end
}
impl GlobalDecl {
//@ fn front::ast::GlobalDecl::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, ty: AstBox, init: AstBox) -> (r: AstBox)
//@ end
}
impl Load {
//@ fn front::ast::Load::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, symbol: String) -> (r: AstBox)
//@ end
}
impl Store {
//@ fn front::ast::Store::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, value: AstBox, symbol: String) -> (r: AstBox)
//@ end
}
impl GetPointer {
//@ fn front::ast::GetPointer::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, symbol: String, value: AstBox) -> (r: AstBox)
//@ end
}
impl GetElementPointer {
//@ fn front::ast::GetElementPointer::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, symbol: String, value: AstBox) -> (r: AstBox)
//@ end
}
impl BinaryExpr {
//@ fn front::ast::BinaryExpr::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, op: BinaryOp, lhs: AstBox, rhs: AstBox) -> (r: AstBox)
//@ end
}
impl Branch {
//@ fn front::ast::Branch::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, cond: AstBox, tbb: String, targs: Vec<AstBox>, fbb: String, fargs: Vec<AstBox>) -> (r: AstBox)
//@ end
}
impl Jump {
//@ fn front::ast::Jump::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, target: String, args: Vec<AstBox>) -> (r: AstBox)
//@ end
}
impl FunCall {
//@ fn front::ast::FunCall::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, fun: String, args: Vec<AstBox>) -> (r: AstBox)
//@ end
}
impl Return {
//@ fn front::ast::Return::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, value: Option<AstBox>) -> (r: AstBox)
//@ end
}
impl FunDef {
//@ fn front::ast::FunDef::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, name: String, params: Vec<(String, AstBox)>, ret: Option<AstBox>, bbs: Vec<AstBox>) -> (r: AstBox)
//@ end
}
impl Block {
//@ fn front::ast::Block::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, name: String, params: Vec<(String, AstBox)>, stmts: Vec<AstBox>) -> (r: AstBox)
//@ end
}
impl FunDecl {
//@ fn front::ast::FunDecl::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span, name: String, params: Vec<AstBox>, ret: Option<AstBox>) -> (r: AstBox)
//@ end
}
impl End {
//@ fn front::ast::End::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span) -> (r: AstBox)
//@ end
}
impl Error {
//@ fn front::ast::Error::new_boxed
    requires span.ordered(),
    ensures r.span == span,
//@ sig
pub fn new_boxed(span: Span) -> (r: AstBox)
//@ end
}
} // mod ast_new
pub open spec fn pos_le(a: Pos, b: Pos) -> bool { a.line < b.line || a.line == b.line && a.col <= b.col }
impl Span {
    /// positions count from line 1, and the start is not after the end
    pub open spec fn ordered(self) -> bool {
        &&& 1 <= self.start.line <= self.end.line < u32::MAX
        &&& self.start.line == self.end.line ==> self.start.col <= self.end.col
    }
//@ fn front::span::Span::into_updated_span
    ensures r.start == self.start, r.end == span.end,
//@ end
//@ fn front::span::Span::update_span
    ensures final(self).start == old(self).start, final(self).end == span.end,
//@ end
//@ fn front::span::Span::is_in_same_line_as
    ensures r == (self.end.line == span.start.line),
//@ end
//@ fn front::span::Span::new
    ensures r.start == start, r.end == start,
//@ end
//@ fn front::span::Span@Default::default
    ensures r.start == r.end, r.start.line == 1, r.start.col == 0,
//@ sig
pub fn default() -> (r: Span)
//@ end
}
impl Pos {
//@ fn front::span::Pos::new
    ensures r.line == 1, r.col == 0,
//@ end
//@ fn front::span::Pos@Default::default
    ensures r.line == 1, r.col == 0,
//@ sig
pub fn default() -> (r: Pos)
//@ end
}
//@ fn front::span::Result@From::from as=vx_err
    ensures r == Result::<T, Error>::Err(error),
//@ sig
pub fn vx_err<T>(error: Error) -> (r: Result<T, Error>)
//@ end
impl Error {
//@ fn front::span::Error::is_fatal
    ensures r == (self is Fatal),
//@ end
}
#[verifier::external_body]
pub fn vx_trunc(i: i64) -> (r: i32) { i as i32 }
#[verifier::external_body]
pub fn vx_vec1<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a], { vec![a] }
#[verifier::external_body]
pub fn vx_last<T>(v: &Vec<T>) -> (r: &T) requires v@.len() > 0, ensures *r == v@.last(), { v.last().unwrap() }
/// a reported error: the place must be one that can be printed (c17_errors, c17_spans)
#[verifier::external_body]
pub fn vx_log(s: &Span) -> (r: Error)
    requires s.ordered(),
    ensures r is Normal,
{ unimplemented!() }
/// does nothing (ends the borrow for the verifier)
pub fn vx_same<T>(a: &mut T)
    ensures *final(a) == *old(a),
{}
/// the lexer hands out tokens with spans in order, one after the other (c07_lexer)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Lexer<T> { t: T }
impl<T> Lexer<T> {
    pub uninterp spec fn seen(self) -> Pos;
    #[verifier::external_body]
    pub fn next_token(&mut self) -> (r: Result<Token, Error>)
        ensures
            r is Ok ==> r->Ok_0.span.ordered() && pos_le(old(self).seen(), r->Ok_0.span.start) && pos_le(r->Ok_0.span.end, final(self).seen()),
            !(r is Err && r->Err_0 is Fatal) ==> pos_le(old(self).seen(), final(self).seen()),
    { unimplemented!() }
}
impl Token {
//@ fn front::token::Token@Default::default
    ensures r.span.ordered(), r.span.end == (Pos { line: 1, col: 0 }),
//@ sig
pub fn default() -> (r: Token)
//@ end
}
// ---- the parser ----
#[verifier::reject_recursive_types(T)]
pub struct Parser<T> { pub lexer: Lexer<T>, pub cur_token: Token }
pub open spec fn span_of(a: AstBox) -> Span { a.span }
pub open spec fn fatal<X>(r: Result<X, Error>) -> bool { r is Err && r->Err_0 is Fatal }
/// the token under the cursor is in order, and what comes is behind it
pub open spec fn fine<T>(p: Parser<T>) -> bool { p.cur_token.span.ordered() && pos_le(p.cur_token.span.end, p.lexer.seen()) }
pub open spec fn moved<T>(a: Parser<T>, b: Parser<T>) -> bool { fine(b) && pos_le(a.cur_token.span.start, b.cur_token.span.start) }
/// a place read between two states of the parser
pub open spec fn within<T>(a: Parser<T>, s: Span, b: Parser<T>) -> bool { s.ordered() && pos_le(a.cur_token.span.start, s.start) && pos_le(s.end, b.lexer.seen()) }
impl<T> Parser<T> {
//@ fn front::parser::Parser::new
    requires (Pos { line: 1, col: 0 }) == lexer.seen(),
    ensures r is Ok ==> fine(r->Ok_0),
//@ sig
pub fn new(lexer: Lexer<T>) -> (r: Result<Self, Error>)
//@ end
//@ fn front::parser::Parser::next_token
    requires fine(*old(self)),
    ensures
        !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> pos_le(old(self).cur_token.span.end, final(self).cur_token.span.start),
        r is Err ==> final(self).cur_token == old(self).cur_token,
//@ sig
pub fn next_token(&mut self) -> (r: Result<(), Error>)
//@ end
//@ fn front::parser::Parser::span
    ensures r == self.cur_token.span,
//@ sig
pub fn span(&self) -> (r: Span)
//@ end
//@ fn front::parser::Parser::is_token
//@ sig
pub fn is_token(&self, tk: TokenKind) -> (r: bool)
//@ end
//@ fn front::parser::Parser::expect
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0, *final(self)),
        r is Ok ==> r->Ok_0 == old(self).cur_token.span && pos_le(r->Ok_0.end, final(self).cur_token.span.start),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn expect(&mut self, tk: TokenKind) -> (r: Result<Span, Error>)
//@ end
//@ fn front::parser::Parser::parse_type
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_type(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_int_type
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_int_type(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_array_type
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_array_type(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_pointer_type
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_pointer_type(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_fun_type
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_fun_type(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_list as=parse_list_type
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.1, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_list_type(&mut self) -> (r: Result<(Vec<AstBox>, Span), Error>)
//@ rule parser(self) => self.parse_type()
//@ entry
    let ghost p0 = *old(self);
//@ loop 0
    invariant moved(p0, *self), p0 == *old(self), fine(p0), pos_le(p0.lexer.seen(), self.lexer.seen()),
//@ end
//@ fn front::parser::Parser::parse_list as=parse_list_value
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.1, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_list_value(&mut self) -> (r: Result<(Vec<AstBox>, Span), Error>)
//@ rule parser(self) => self.parse_value()
//@ entry
    let ghost p0 = *old(self);
//@ loop 0
    invariant moved(p0, *self), p0 == *old(self), fine(p0), pos_le(p0.lexer.seen(), self.lexer.seen()),
//@ end
//@ fn front::parser::Parser::parse_list as=parse_list_param
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.1, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_list_param(&mut self) -> (r: Result<(Vec<(String, AstBox)>, Span), Error>)
//@ rule parser(self) => Self::param_of_fun(self)
//@ entry
    let ghost p0 = *old(self);
//@ loop 0
    invariant moved(p0, *self), p0 == *old(self), fine(p0), pos_le(p0.lexer.seen(), self.lexer.seen()),
//@ end
//@ fn front::parser::Parser::parse_list as=parse_list_bparam
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.1, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_list_bparam(&mut self) -> (r: Result<(Vec<(String, AstBox)>, Span), Error>)
//@ rule parser(self) => Self::param_of_block(self)
//@ entry
    let ghost p0 = *old(self);
//@ loop 0
    invariant moved(p0, *self), p0 == *old(self), fine(p0), pos_le(p0.lexer.seen(), self.lexer.seen()),
//@ end
//@ fn front::parser::Parser::parse_opt_list as=parse_opt_list_value
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.1, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_opt_list_value(&mut self) -> (r: Result<(Vec<AstBox>, Span), Error>)
//@ rule self.parse_list(parser) => self.parse_list_value()
//@ end
//@ fn front::parser::Parser::parse_opt_list as=parse_opt_list_bparam
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.1, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_opt_list_bparam(&mut self) -> (r: Result<(Vec<(String, AstBox)>, Span), Error>)
//@ rule self.parse_list(parser) => self.parse_list_bparam()
//@ end
//@ fn front::parser::Parser::parse_fun_def closure=parse_list as=param_of_fun
    requires fine(*old(vx_c0)),
    ensures !fatal(r) ==> moved(*old(vx_c0), *final(vx_c0)) && pos_le(old(vx_c0).lexer.seen(), final(vx_c0).lexer.seen()),
        r is Ok ==> within(*old(vx_c0), r->Ok_0.1.span, *final(vx_c0)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn param_of_fun(vx_c0: &mut Self) -> (r: Result<(String, AstBox), Error>)
//@ end
//@ fn front::parser::Parser::parse_block closure=parse_opt_list as=param_of_block
    requires fine(*old(vx_c0)),
    ensures !fatal(r) ==> moved(*old(vx_c0), *final(vx_c0)) && pos_le(old(vx_c0).lexer.seen(), final(vx_c0).lexer.seen()),
        r is Ok ==> within(*old(vx_c0), r->Ok_0.1.span, *final(vx_c0)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn param_of_block(vx_c0: &mut Self) -> (r: Result<(String, AstBox), Error>)
//@ end
//@ fn front::parser::Parser::parse_value
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_value(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_init
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_init(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_aggregate
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_aggregate(&mut self) -> (r: Result<AstBox, Error>)
//@ entry
    let ghost p0 = *old(self);
//@ loop 0
    invariant moved(p0, *self), p0 == *old(self), fine(p0), pos_le(p0.lexer.seen(), self.lexer.seen()),
//@ end
//@ fn front::parser::Parser::parse_mem_decl
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_mem_decl(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_load
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_load(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_get_pointer
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_get_pointer(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_get_element_pointer
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_get_element_pointer(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_binary_expr
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_binary_expr(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_store
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_store(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_fun_call
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_fun_call(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_branch
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_branch(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_jump
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_jump(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_return
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_return(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_symbol_def
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_symbol_def(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_block
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_block(&mut self) -> (r: Result<AstBox, Error>)
//@ rule self.parse_opt_list(__c) => self.parse_opt_list_bparam()
//@ entry
    let ghost p0 = *old(self);
//@ loop 0
    invariant moved(p0, *self), p0 == *old(self), fine(p0), pos_le(p0.lexer.seen(), self.lexer.seen()), span == p0.cur_token.span, exit_flag ==> stmts@.len() > 0,
        stmts@.len() > 0 ==> within(p0, span_of(stmts@.last()), *self),
//@ loopstart 0
    let ghost p1 = *self;
//@ loop 1
    invariant moved(p0, *self), p0 == *old(self), fine(p0), pos_le(p0.lexer.seen(), self.lexer.seen()), within(p1, span, *self), span.start == p1.cur_token.span.start, moved(p0, p1), fine(p1), pos_le(p1.lexer.seen(), self.lexer.seen()), moved(p1, *self),
//@ exit
    vx_same(&mut *self);
//@ end
//@ fn front::parser::Parser::parse_global_def
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_global_def(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_fun_def
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_fun_def(&mut self) -> (r: Result<AstBox, Error>)
//@ rule self.parse_list(__c) => self.parse_list_param()
//@ entry
    let ghost p0 = *old(self);
//@ loop 0
    invariant moved(p0, *self), p0 == *old(self), fine(p0), pos_le(p0.lexer.seen(), self.lexer.seen()),
//@ end
//@ fn front::parser::Parser::parse_fun_decl
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_fun_decl(&mut self) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_next
    requires fine(*old(self)),
    ensures !fatal(r) ==> moved(*old(self), *final(self)) && pos_le(old(self).lexer.seen(), final(self).lexer.seen()),
        r is Ok ==> within(*old(self), r->Ok_0.span, *final(self)),
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn parse_next(&mut self) -> (r: Result<AstBox, Error>)
//@ entry
    let ghost p0 = *old(self);
//@ loop 0
    invariant moved(p0, *self), p0 == *old(self), fine(p0), pos_le(p0.lexer.seen(), self.lexer.seen()), within(p0, span, *self), span.start == p0.cur_token.span.start,
//@ exit
    vx_same(&mut *self);
//@ end
}
} // verus!
fn main() {}
