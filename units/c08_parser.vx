//@ include shim/base.vx
//@ path BinaryOp => BinaryOp
//@ include shim/errors.vx
// ---- C08: the parser against the grammar ----
// `sp_x(s)` is the tree of the production x read from the input s and the input behind it, or
// nothing when no text of the production is there.
verus! {
//@ rule __e? => match __e { Ok(vx_x) => vx_x, Err(vx_e) => return Err(vx_e) }
//@ rule __e.map(|__p| __b) => match __e { Ok(__p) => Ok(__b), Err(vx_e) => Err(vx_e) }
//@ rule __s.log_error(__a) => vx_log(&__s, &mut *vx_st)
//@ rule log_raw_error!(__a) => vx_log_raw(&mut *vx_st)
//@ rule Span::log_raw_error(__a) => vx_log_raw(&mut *vx_st)
//@ path ast::Error::new_boxed => ast::Error::new_boxed
//@ rule *__i as i32 => vx_trunc(*__i)
//@ rule box_assume_init_into_vec_unsafe(write_box_via_move(Box::new_uninit(), [__e])) => vx_vec1(__e)
//@ rule __v.last().unwrap() => vx_last(&__v)
//@ rule __s.expect(__t) => __s.expect(__t, &mut *vx_st)
//@ rule __s.next_token() => __s.next_token(&mut *vx_st)
//@ rule __s.parse_next() => __s.parse_next(&mut *vx_st)
//@ rule __s.parse_global_def() => __s.parse_global_def(&mut *vx_st)
//@ rule __s.parse_fun_def() => __s.parse_fun_def(&mut *vx_st)
//@ rule __s.parse_fun_decl() => __s.parse_fun_decl(&mut *vx_st)
//@ rule __s.parse_type() => __s.parse_type(&mut *vx_st)
//@ rule __s.parse_int_type() => __s.parse_int_type(&mut *vx_st)
//@ rule __s.parse_array_type() => __s.parse_array_type(&mut *vx_st)
//@ rule __s.parse_pointer_type() => __s.parse_pointer_type(&mut *vx_st)
//@ rule __s.parse_fun_type() => __s.parse_fun_type(&mut *vx_st)
//@ rule __s.parse_block() => __s.parse_block(&mut *vx_st)
//@ rule __s.parse_symbol_def() => __s.parse_symbol_def(&mut *vx_st)
//@ rule __s.parse_mem_decl() => __s.parse_mem_decl(&mut *vx_st)
//@ rule __s.parse_load() => __s.parse_load(&mut *vx_st)
//@ rule __s.parse_store() => __s.parse_store(&mut *vx_st)
//@ rule __s.parse_get_pointer() => __s.parse_get_pointer(&mut *vx_st)
//@ rule __s.parse_get_element_pointer() => __s.parse_get_element_pointer(&mut *vx_st)
//@ rule __s.parse_binary_expr() => __s.parse_binary_expr(&mut *vx_st)
//@ rule __s.parse_branch() => __s.parse_branch(&mut *vx_st)
//@ rule __s.parse_jump() => __s.parse_jump(&mut *vx_st)
//@ rule __s.parse_fun_call() => __s.parse_fun_call(&mut *vx_st)
//@ rule __s.parse_return() => __s.parse_return(&mut *vx_st)
//@ rule __s.parse_value() => __s.parse_value(&mut *vx_st)
//@ rule __s.parse_init() => __s.parse_init(&mut *vx_st)
//@ rule __s.parse_aggregate() => __s.parse_aggregate(&mut *vx_st)
//@ rule Parser::new(__l) => Parser::new(__l, &mut *vx_st)
//@ rule Lexer::new(__l) => Lexer::new(__l)
//@ rule self.builder.build_on(&__a) => self.builder.build_on(&__a, &mut *vx_st)

//@ item ir::values::BinaryOp #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item front::token::Keyword #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item front::token::TokenKind
//@ item front::token::Token

// ---- tokens and the input ----
pub enum K { Int(i64), Symbol(Seq<char>), Keyword(Keyword), BinaryOp(BinaryOp), Other(char), End }
pub open spec fn kv(k: TokenKind) -> K {
    match k {
        TokenKind::Int(i) => K::Int(i),
        TokenKind::Symbol(s) => K::Symbol(s@),
        TokenKind::Keyword(k) => K::Keyword(k),
        TokenKind::BinaryOp(b) => K::BinaryOp(b),
        TokenKind::Other(c) => K::Other(c),
        TokenKind::End => K::End,
    }
}
/// derived equality of token kinds
impl vstd::std_specs::cmp::PartialEqSpecImpl for TokenKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &TokenKind) -> bool { kv(*self) == kv(*o) }
}
impl PartialEq for TokenKind {
    #[verifier::external_body]
    fn eq(&self, o: &TokenKind) -> (r: bool) { unimplemented!() }
}
pub struct Tok { pub kind: K, pub span: Span }
pub open spec fn tv(t: Token) -> Tok { Tok { kind: kv(t.kind), span: t.span } }
/// what the lexer hands out: a token, or an error it has reported
pub enum It { Tok(Tok), Bad }
/// the token under the cursor, what follows it, and where the text ends
pub struct In { pub cur: Tok, pub rest: Seq<It>, pub eof: Span }
/// number of steps left
pub open spec fn sz(s: In) -> nat { if s.cur.kind is End { 0 } else { s.rest.len() + 1 } }
pub open spec fn lt(a: In, b: In) -> bool { sz(a) < sz(b) }
pub open spec fn adv(s: In) -> Option<In> {
    if s.rest.len() == 0 { Some(In { cur: Tok { kind: K::End, span: s.eof }, rest: s.rest, eof: s.eof }) } else {
        match s.rest[0] { It::Tok(t) => Some(In { cur: t, rest: s.rest.drop_first(), eof: s.eof }), It::Bad => None }
    }
}
pub open spec fn eat(s: In, k: K) -> Option<In> { if s.cur.kind == k { adv(s) } else { None } }
pub open spec fn sym(s: In) -> Option<(Seq<char>, In)> {
    match s.cur.kind { K::Symbol(n) => match adv(s) { Some(a) => Some((n, a)), None => None }, _ => None }
}
pub open spec fn ch(c: char) -> K { K::Other(c) }
pub open spec fn kw(k: Keyword) -> K { K::Keyword(k) }

} // verus!
//@ include shim/ast.vx
verus! {
// ---- constructors of syntax tree nodes ----
pub mod ast_new {
use super::*;
use super::ast::{*, Error};
impl Ast {
//@ fn front::ast::Ast::new_boxed
    ensures r.span == span, r.tree() == kind_tree(kind),
//@ sig
pub fn new_boxed(span: Span, kind: AstKind) -> (r: AstBox)
//@ entry
    broadcast use axiom_tree;
//@ end
}
impl IntType {
//@ fn front::ast::IntType::new_boxed
    ensures r.span == span, r.tree() == Tree::IntType,
//@ sig
pub fn new_boxed(span: Span) -> (r: AstBox)
//@ end
}
impl ArrayType {
//@ fn front::ast::ArrayType::new_boxed
    ensures r.span == span, r.tree() == Tree::ArrayType(Box::new(base.tree()), len),
//@ sig
pub fn new_boxed(span: Span, base: AstBox, len: usize) -> (r: AstBox)
//@ end
}
impl PointerType {
//@ fn front::ast::PointerType::new_boxed
    ensures r.span == span, r.tree() == Tree::PointerType(Box::new(base.tree())),
//@ sig
pub fn new_boxed(span: Span, base: AstBox) -> (r: AstBox)
//@ end
}
impl FunType {
//@ fn front::ast::FunType::new_boxed
    ensures r.span == span, r.tree() == Tree::FunType(trees(params@), otree(ret)),
//@ sig
pub fn new_boxed(span: Span, params: Vec<AstBox>, ret: Option<AstBox>) -> (r: AstBox)
//@ end
}
impl SymbolRef {
//@ fn front::ast::SymbolRef::new_boxed
    ensures r.span == span, r.tree() == Tree::SymbolRef(symbol@),
//@ sig
pub fn new_boxed(span: Span, symbol: String) -> (r: AstBox)
//@ end
}
impl IntVal {
//@ fn front::ast::IntVal::new_boxed
    ensures r.span == span, r.tree() == Tree::IntVal(value),
//@ sig
pub fn new_boxed(span: Span, value: i32) -> (r: AstBox)
//@ end
}
impl UndefVal {
//@ fn front::ast::UndefVal::new_boxed
    ensures r.span == span, r.tree() == Tree::UndefVal,
//@ sig
pub fn new_boxed(span: Span) -> (r: AstBox)
//@ end
}
impl Aggregate {
//@ fn front::ast::Aggregate::new_boxed
    ensures r.span == span, r.tree() == Tree::Aggregate(trees(elems@)),
//@ sig
pub fn new_boxed(span: Span, elems: Vec<AstBox>) -> (r: AstBox)
//@ end
}
impl ZeroInit {
//@ fn front::ast::ZeroInit::new_boxed
    ensures r.span == span, r.tree() == Tree::ZeroInit,
//@ sig
pub fn new_boxed(span: Span) -> (r: AstBox)
//@ end
}
impl SymbolDef {
//@ fn front::ast::SymbolDef::new_boxed
    ensures r.span == span, r.tree() == Tree::SymbolDef(name@, Box::new(value.tree())),
//@ sig
pub fn new_boxed(span: Span, name: String, value: AstBox) -> (r: AstBox)
//@ end
}
impl GlobalDef {
//@ fn front::ast::GlobalDef::new_boxed
    ensures r.span == span, r.tree() == Tree::GlobalDef(name@, Box::new(value.tree())),
//@ sig
pub fn new_boxed(span: Span, name: String, value: AstBox) -> (r: AstBox)
//@ end
}
impl MemDecl {
//@ fn front::ast::MemDecl::new_boxed
    ensures r.span == span, r.tree() == Tree::MemDecl(Box::new(ty.tree())),
//@ sig
pub fn new_boxed(span: Span, ty: AstBox) -> (r: AstBox)
//@ end
}
impl GlobalDecl {
//@ fn front::ast::GlobalDecl::new_boxed
    ensures r.span == span, r.tree() == Tree::GlobalDecl(Box::new(ty.tree()), Box::new(init.tree())),
//@ sig
pub fn new_boxed(span: Span, ty: AstBox, init: AstBox) -> (r: AstBox)
//@ end
}
impl Load {
//@ fn front::ast::Load::new_boxed
    ensures r.span == span, r.tree() == Tree::Load(symbol@),
//@ sig
pub fn new_boxed(span: Span, symbol: String) -> (r: AstBox)
//@ end
}
impl Store {
//@ fn front::ast::Store::new_boxed
    ensures r.span == span, r.tree() == Tree::Store(Box::new(value.tree()), symbol@),
//@ sig
pub fn new_boxed(span: Span, value: AstBox, symbol: String) -> (r: AstBox)
//@ end
}
impl GetPointer {
//@ fn front::ast::GetPointer::new_boxed
    ensures r.span == span, r.tree() == Tree::GetPointer(symbol@, Box::new(value.tree())),
//@ sig
pub fn new_boxed(span: Span, symbol: String, value: AstBox) -> (r: AstBox)
//@ end
}
impl GetElementPointer {
//@ fn front::ast::GetElementPointer::new_boxed
    ensures r.span == span, r.tree() == Tree::GetElementPointer(symbol@, Box::new(value.tree())),
//@ sig
pub fn new_boxed(span: Span, symbol: String, value: AstBox) -> (r: AstBox)
//@ end
}
impl BinaryExpr {
//@ fn front::ast::BinaryExpr::new_boxed
    ensures r.span == span, r.tree() == Tree::BinaryExpr(op, Box::new(lhs.tree()), Box::new(rhs.tree())),
//@ sig
pub fn new_boxed(span: Span, op: BinaryOp, lhs: AstBox, rhs: AstBox) -> (r: AstBox)
//@ end
}
impl Branch {
//@ fn front::ast::Branch::new_boxed
    ensures r.span == span, r.tree() == Tree::Branch(Box::new(cond.tree()), tbb@, trees(targs@), fbb@, trees(fargs@)),
//@ sig
pub fn new_boxed(span: Span, cond: AstBox, tbb: String, targs: Vec<AstBox>, fbb: String, fargs: Vec<AstBox>) -> (r: AstBox)
//@ end
}
impl Jump {
//@ fn front::ast::Jump::new_boxed
    ensures r.span == span, r.tree() == Tree::Jump(target@, trees(args@)),
//@ sig
pub fn new_boxed(span: Span, target: String, args: Vec<AstBox>) -> (r: AstBox)
//@ end
}
impl FunCall {
//@ fn front::ast::FunCall::new_boxed
    ensures r.span == span, r.tree() == Tree::FunCall(fun@, trees(args@)),
//@ sig
pub fn new_boxed(span: Span, fun: String, args: Vec<AstBox>) -> (r: AstBox)
//@ end
}
impl Return {
//@ fn front::ast::Return::new_boxed
    ensures r.span == span, r.tree() == Tree::Return(otree(value)),
//@ sig
pub fn new_boxed(span: Span, value: Option<AstBox>) -> (r: AstBox)
//@ end
}
impl FunDef {
//@ fn front::ast::FunDef::new_boxed
    ensures r.span == span, r.tree() == Tree::FunDef(name@, ptrees(params@), otree(ret), trees(bbs@)),
//@ sig
pub fn new_boxed(span: Span, name: String, params: Vec<(String, AstBox)>, ret: Option<AstBox>, bbs: Vec<AstBox>) -> (r: AstBox)
//@ end
}
impl Block {
//@ fn front::ast::Block::new_boxed
    ensures r.span == span, r.tree() == Tree::Block(name@, ptrees(params@), trees(stmts@)),
//@ sig
pub fn new_boxed(span: Span, name: String, params: Vec<(String, AstBox)>, stmts: Vec<AstBox>) -> (r: AstBox)
//@ end
}
impl FunDecl {
//@ fn front::ast::FunDecl::new_boxed
    ensures r.span == span, r.tree() == Tree::FunDecl(name@, trees(params@), otree(ret)),
//@ sig
pub fn new_boxed(span: Span, name: String, params: Vec<AstBox>, ret: Option<AstBox>) -> (r: AstBox)
//@ end
}
impl End {
//@ fn front::ast::End::new_boxed
    ensures r.span == span, r.tree() == Tree::End,
//@ sig
pub fn new_boxed(span: Span) -> (r: AstBox)
//@ end
}
impl Error {
//@ fn front::ast::Error::new_boxed
    ensures r.span == span, r.tree() == Tree::Error,
//@ sig
pub fn new_boxed(span: Span) -> (r: AstBox)
//@ end
}
} // mod ast_new

// ---- the grammar ----
pub open spec fn bx(t: Tree) -> Box<Tree> { Box::new(t) }
/// type ::= "i32" | "[" type "," INT "]" | "*" type | "(" [type {"," type}] ")" [":" type]
pub open spec fn sp_type(s: In) -> Option<(Tree, In)>
    decreases sz(s), 3nat,
{
    match s.cur.kind {
        K::Keyword(Keyword::I32) => match adv(s) { Some(a) => Some((Tree::IntType, a)), None => None },
        K::Other(c) => if c == '[' { sp_array(s) } else if c == '*' { sp_pointer(s) } else if c == '(' { sp_fun_type(s) } else { None },
        _ => None,
    }
}
pub open spec fn sp_array(s: In) -> Option<(Tree, In)>
    decreases sz(s), 2nat,
{
    match eat(s, ch('[')) {
        Some(a) => match sp_type(a) {
            Some((b, c)) => match eat(c, ch(',')) {
                Some(d) => match d.cur.kind {
                    K::Int(n) => match adv(d) {
                        Some(e) => if n > 0 { match eat(e, ch(']')) { Some(f) => Some((Tree::ArrayType(bx(b), n as usize), f)), None => None } } else { None },
                        None => None,
                    },
                    _ => None,
                },
                None => None,
            },
            None => None,
        },
        None => None,
    }
}
pub open spec fn sp_pointer(s: In) -> Option<(Tree, In)>
    decreases sz(s), 2nat,
{
    match eat(s, ch('*')) {
        Some(a) => match sp_type(a) { Some((b, c)) => Some((Tree::PointerType(bx(b)), c)), None => None },
        None => None,
    }
}
pub open spec fn sp_fun_type(s: In) -> Option<(Tree, In)>
    decreases sz(s), 2nat,
{
    match sp_types(s) {
        Some((p, a)) => if lt(a, s) { match sp_ret(a) { Some((r, b)) => Some((Tree::FunType(p, r), b)), None => None } } else { None },
        None => None,
    }
}
/// [":" type]
pub open spec fn sp_ret(s: In) -> Option<(Option<Box<Tree>>, In)>
    decreases sz(s), 0nat,
{
    if s.cur.kind == ch(':') {
        match adv(s) {
            Some(a) => match sp_type(a) { Some((t, b)) => Some((Some(bx(t)), b)), None => None },
            None => None,
        }
    } else { Some((None, s)) }
}
/// "(" [type {"," type}] ")"
pub open spec fn sp_types(s: In) -> Option<(Seq<Tree>, In)>
    decreases sz(s), 1nat,
{
    match eat(s, ch('(')) {
        Some(a) => if a.cur.kind == ch(')') {
            match adv(a) { Some(b) => Some((Seq::empty(), b)), None => None }
        } else { sp_types_1(a, Seq::empty()) },
        None => None,
    }
}
pub open spec fn sp_types_1(s: In, acc: Seq<Tree>) -> Option<(Seq<Tree>, In)>
    decreases sz(s), 4nat,
{
    match sp_type(s) {
        Some((t, a)) => if a.cur.kind == ch(',') {
            match adv(a) { Some(b) => if lt(b, s) { sp_types_1(b, acc.push(t)) } else { None }, None => None }
        } else {
            match eat(a, ch(')')) { Some(b) => Some((acc.push(t), b)), None => None }
        },
        None => None,
    }
}
/// SYMBOL | INT | "undef"
pub open spec fn sp_value(s: In) -> Option<(Tree, In)> {
    let t = match s.cur.kind {
        K::Symbol(n) => Some(Tree::SymbolRef(n)),
        K::Int(i) => Some(Tree::IntVal(trunc(i))),
        K::Keyword(Keyword::Undef) => Some(Tree::UndefVal),
        _ => None,
    };
    match t { Some(t) => match adv(s) { Some(a) => Some((t, a)), None => None }, None => None }
}
/// "(" [value {"," value}] ")"
pub open spec fn sp_values(s: In) -> Option<(Seq<Tree>, In)> {
    match eat(s, ch('(')) {
        Some(a) => if a.cur.kind == ch(')') {
            match adv(a) { Some(b) => Some((Seq::empty(), b)), None => None }
        } else { sp_values_1(a, Seq::empty()) },
        None => None,
    }
}
pub open spec fn sp_values_1(s: In, acc: Seq<Tree>) -> Option<(Seq<Tree>, In)>
    decreases sz(s),
{
    match sp_value(s) {
        Some((t, a)) => if a.cur.kind == ch(',') {
            match adv(a) { Some(b) => if lt(b, s) { sp_values_1(b, acc.push(t)) } else { None }, None => None }
        } else {
            match eat(a, ch(')')) { Some(b) => Some((acc.push(t), b)), None => None }
        },
        None => None,
    }
}
/// SYMBOL ":" type
pub open spec fn sp_param(s: In) -> Option<((Seq<char>, Tree), In)> {
    match sym(s) {
        Some((n, a)) => match eat(a, ch(':')) {
            Some(b) => match sp_type(b) { Some((t, c)) => Some(((n, t), c)), None => None },
            None => None,
        },
        None => None,
    }
}
/// "(" [param {"," param}] ")"
pub open spec fn sp_params(s: In) -> Option<(Seq<(Seq<char>, Tree)>, In)> {
    match eat(s, ch('(')) {
        Some(a) => if a.cur.kind == ch(')') {
            match adv(a) { Some(b) => Some((Seq::empty(), b)), None => None }
        } else { sp_params_1(a, Seq::empty()) },
        None => None,
    }
}
pub open spec fn sp_params_1(s: In, acc: Seq<(Seq<char>, Tree)>) -> Option<(Seq<(Seq<char>, Tree)>, In)>
    decreases sz(s),
{
    match sp_param(s) {
        Some((t, a)) => if a.cur.kind == ch(',') {
            match adv(a) { Some(b) => if lt(b, s) { sp_params_1(b, acc.push(t)) } else { None }, None => None }
        } else {
            match eat(a, ch(')')) { Some(b) => Some((acc.push(t), b)), None => None }
        },
        None => None,
    }
}
pub open spec fn sp_opt_values(s: In) -> Option<(Seq<Tree>, In)> { if s.cur.kind == ch('(') { sp_values(s) } else { Some((Seq::empty(), s)) } }
pub open spec fn sp_opt_params(s: In) -> Option<(Seq<(Seq<char>, Tree)>, In)> { if s.cur.kind == ch('(') { sp_params(s) } else { Some((Seq::empty(), s)) } }
/// init ::= INT | "undef" | "zeroinit" | "{" init {"," init} "}"
pub open spec fn sp_init(s: In) -> Option<(Tree, In)>
    decreases sz(s), 1nat,
{
    match s.cur.kind {
        K::Int(i) => match adv(s) { Some(a) => Some((Tree::IntVal(trunc(i)), a)), None => None },
        K::Keyword(Keyword::Undef) => match adv(s) { Some(a) => Some((Tree::UndefVal, a)), None => None },
        K::Keyword(Keyword::ZeroInit) => match adv(s) { Some(a) => Some((Tree::ZeroInit, a)), None => None },
        K::Other(c) => if c == '{' { sp_aggregate(s) } else { None },
        _ => None,
    }
}
pub open spec fn sp_aggregate(s: In) -> Option<(Tree, In)>
    decreases sz(s), 0nat,
{
    match eat(s, ch('{')) {
        Some(a) => match sp_init(a) {
            Some((t, b)) => if lt(b, s) { match sp_inits(b, seq![t]) { Some((v, c)) => Some((Tree::Aggregate(v), c)), None => None } } else { None },
            None => None,
        },
        None => None,
    }
}
/// {"," init} "}"
pub open spec fn sp_inits(s: In, acc: Seq<Tree>) -> Option<(Seq<Tree>, In)>
    decreases sz(s), 2nat,
{
    if s.cur.kind == ch(',') {
        match adv(s) {
            Some(a) => match sp_init(a) {
                Some((t, b)) => if lt(b, s) { sp_inits(b, acc.push(t)) } else { None },
                None => None,
            },
            None => None,
        }
    } else {
        match eat(s, ch('}')) { Some(a) => Some((acc, a)), None => None }
    }
}
// ---- instructions ----
pub open spec fn sp_global(s: In) -> Option<(Tree, In)> {
    match adv(s) { Some(a) => match sym(a) { Some((n, b)) => match eat(b, ch('=')) { Some(c) => match eat(c, kw(Keyword::Alloc)) { Some(d) =>
        match sp_type(d) { Some((t, e)) => match eat(e, ch(',')) { Some(f) => match sp_init(f) {
            Some((i, g)) => Some((Tree::GlobalDef(n, bx(Tree::GlobalDecl(bx(t), bx(i)))), g)),
        None => None }, None => None }, None => None }, None => None }, None => None }, None => None }, None => None }
}
pub open spec fn sp_fun_def(s: In) -> Option<(Tree, In)> {
    match adv(s) { Some(a) => match sym(a) { Some((n, b)) => match sp_params(b) { Some((p, c)) => match sp_ret(c) { Some((r, d)) =>
        match eat(d, ch('{')) { Some(e) => fun_tail(n, p, r, sp_blocks(e, Seq::empty())), None => None }, None => None }, None => None }, None => None }, None => None }
}
pub open spec fn sp_fun_decl(s: In) -> Option<(Tree, In)> {
    match adv(s) { Some(a) => match sym(a) { Some((n, b)) => match sp_types(b) { Some((p, c)) => match sp_ret(c) {
        Some((r, d)) => Some((Tree::FunDecl(n, p, r), d)),
        None => None }, None => None }, None => None }, None => None }
}
#[verifier::opaque]
pub open spec fn fun_tail(n: Seq<char>, p: Seq<(Seq<char>, Tree)>, r: Option<Box<Tree>>, w: Option<(Seq<Tree>, In)>) -> Option<(Tree, In)> {
    match w { Some((v, f)) => if v.len() > 0 { Some((Tree::FunDef(n, p, r, v), f)) } else { None }, None => None }
}
/// {block} "}"
pub open spec fn sp_blocks(s: In, acc: Seq<Tree>) -> Option<(Seq<Tree>, In)>
    decreases sz(s),
{
    if s.cur.kind == ch('}') {
        match adv(s) { Some(a) => Some((acc, a)), None => None }
    } else {
        match sp_block(s) { Some((t, a)) => if lt(a, s) { sp_blocks(a, acc.push(t)) } else { None }, None => None }
    }
}
/// SYMBOL [params] ":" {statement} terminator
pub open spec fn sp_block(s: In) -> Option<(Tree, In)> {
    match sym(s) { Some((n, a)) => match sp_opt_params(a) { Some((p, b)) => match eat(b, ch(':')) { Some(c) => match sp_stmts(c, Seq::empty()) {
        Some((v, d)) => Some((Tree::Block(n, p, v), d)),
        None => None }, None => None }, None => None }, None => None }
}
pub open spec fn is_end(s: In) -> bool { s.cur.kind == kw(Keyword::Br) || s.cur.kind == kw(Keyword::Jump) || s.cur.kind == kw(Keyword::Ret) }
pub open spec fn sp_stmts(s: In, acc: Seq<Tree>) -> Option<(Seq<Tree>, In)>
    decreases sz(s),
{
    match sp_stmt(s) {
        Some((t, a)) => if is_end(s) { Some((acc.push(t), a)) } else if lt(a, s) { sp_stmts(a, acc.push(t)) } else { None },
        None => None,
    }
}
pub open spec fn sp_stmt(s: In) -> Option<(Tree, In)> {
    match s.cur.kind {
        K::Symbol(_) => sp_symbol_def(s),
        K::Keyword(Keyword::Store) => sp_store(s),
        K::Keyword(Keyword::Call) => sp_call(s),
        K::Keyword(Keyword::Br) => sp_branch(s),
        K::Keyword(Keyword::Jump) => sp_jump(s),
        K::Keyword(Keyword::Ret) => sp_return(s),
        _ => None,
    }
}
pub open spec fn sp_symbol_def(s: In) -> Option<(Tree, In)> {
    match sym(s) { Some((n, a)) => match eat(a, ch('=')) { Some(b) => match sp_expr(b) {
        Some((t, c)) => Some((Tree::SymbolDef(n, bx(t)), c)),
        None => None }, None => None }, None => None }
}
pub open spec fn sp_expr(s: In) -> Option<(Tree, In)> {
    match s.cur.kind {
        K::Keyword(Keyword::Alloc) => sp_alloc(s),
        K::Keyword(Keyword::Load) => sp_load(s),
        K::Keyword(Keyword::GetPtr) => sp_get_ptr(s),
        K::Keyword(Keyword::GetElemPtr) => sp_get_elem_ptr(s),
        K::BinaryOp(_) => sp_binary(s),
        K::Keyword(Keyword::Call) => sp_call(s),
        _ => None,
    }
}
pub open spec fn sp_alloc(s: In) -> Option<(Tree, In)> {
    match adv(s) { Some(a) => match sp_type(a) { Some((t, b)) => Some((Tree::MemDecl(bx(t)), b)), None => None }, None => None }
}
pub open spec fn sp_load(s: In) -> Option<(Tree, In)> {
    match adv(s) { Some(a) => match sym(a) { Some((n, b)) => Some((Tree::Load(n), b)), None => None }, None => None }
}
pub open spec fn sp_store(s: In) -> Option<(Tree, In)> {
    match adv(s) { Some(a) => match (match a.cur.kind { K::Symbol(_) => sp_value(a), _ => sp_init(a) }) { Some((v, b)) => match eat(b, ch(',')) { Some(c) => match sym(c) {
        Some((n, d)) => Some((Tree::Store(bx(v), n), d)),
        None => None }, None => None }, None => None }, None => None }
}
/// SYMBOL "," value
pub open spec fn sp_pair(s: In) -> Option<((Seq<char>, Tree), In)> {
    match adv(s) { Some(a) => match sym(a) { Some((n, b)) => match eat(b, ch(',')) { Some(c) => match sp_value(c) {
        Some((v, d)) => Some(((n, v), d)),
        None => None }, None => None }, None => None }, None => None }
}
pub open spec fn sp_get_ptr(s: In) -> Option<(Tree, In)> {
    match sp_pair(s) { Some((p, a)) => Some((Tree::GetPointer(p.0, bx(p.1)), a)), None => None }
}
pub open spec fn sp_get_elem_ptr(s: In) -> Option<(Tree, In)> {
    match sp_pair(s) { Some((p, a)) => Some((Tree::GetElementPointer(p.0, bx(p.1)), a)), None => None }
}
pub open spec fn sp_binary(s: In) -> Option<(Tree, In)> {
    match s.cur.kind {
        K::BinaryOp(op) => match adv(s) { Some(a) => match sp_value(a) { Some((l, b)) => match eat(b, ch(',')) { Some(c) => match sp_value(c) {
            Some((r, d)) => Some((Tree::BinaryExpr(op, bx(l), bx(r)), d)),
            None => None }, None => None }, None => None }, None => None },
        _ => None,
    }
}
pub open spec fn sp_branch(s: In) -> Option<(Tree, In)> {
    match adv(s) { Some(a) => match sp_value(a) { Some((v, b)) => match eat(b, ch(',')) { Some(c) => match sym(c) { Some((t, d)) => match sp_opt_values(d) { Some((ta, e)) =>
        match eat(e, ch(',')) { Some(f) => match sym(f) { Some((u, g)) => match sp_opt_values(g) {
            Some((ua, h)) => Some((Tree::Branch(bx(v), t, ta, u, ua), h)),
        None => None }, None => None }, None => None }, None => None }, None => None }, None => None }, None => None }, None => None }
}
pub open spec fn sp_jump(s: In) -> Option<(Tree, In)> {
    match adv(s) { Some(a) => match sym(a) { Some((t, b)) => match sp_opt_values(b) {
        Some((v, c)) => Some((Tree::Jump(t, v), c)),
        None => None }, None => None }, None => None }
}
pub open spec fn sp_call(s: In) -> Option<(Tree, In)> {
    match adv(s) { Some(a) => match sym(a) { Some((t, b)) => match sp_values(b) {
        Some((v, c)) => Some((Tree::FunCall(t, v), c)),
        None => None }, None => None }, None => None }
}
/// a value follows exactly when a token follows in the line of "ret"
pub open spec fn sp_return(s: In) -> Option<(Tree, In)> {
    match adv(s) {
        Some(a) => if s.cur.span.end.line == a.cur.span.start.line {
            match sp_value(a) { Some((v, b)) => Some((Tree::Return(Some(bx(v))), b)), None => None }
        } else { Some((Tree::Return(None), a)) },
        None => None,
    }
}
pub open spec fn sp_item(s: In) -> Option<(Tree, In)> {
    match s.cur.kind {
        K::End => Some((Tree::End, s)),
        K::Keyword(Keyword::Global) => sp_global(s),
        K::Keyword(Keyword::Fun) => sp_fun_def(s),
        K::Keyword(Keyword::Decl) => sp_fun_decl(s),
        _ => None,
    }
}
/// a program is a sequence of items
pub open spec fn sp_program(s: In, acc: Seq<Tree>) -> Option<Seq<Tree>>
    decreases sz(s),
{
    if s.cur.kind is End { Some(acc) } else {
        match sp_item(s) { Some((t, a)) => if lt(a, s) { sp_program(a, acc.push(t)) } else { None }, None => None }
    }
}

// ---- what the grammar builds is well formed ----
pub open spec fn tok_ok(k: K) -> bool { match k { K::Symbol(n) => sym_ok(n), _ => true } }
pub open spec fn it_ok(x: It) -> bool { match x { It::Tok(t) => !(t.kind is End) && tok_ok(t.kind), It::Bad => true } }
/// the lexer hands out the end only at the end, and names of two characters or more (C07)
pub open spec fn no_end(r: Seq<It>) -> bool { forall|i: int| 0 <= i < r.len() ==> it_ok(#[trigger] r[i]) }
pub open spec fn iok(s: In) -> bool { tok_ok(s.cur.kind) && no_end(s.rest) }
pub broadcast proof fn w_adv(s: In)
    requires iok(s),
    ensures #[trigger] adv(s) matches Some(a) ==> iok(a),
{ if s.rest.len() > 0 { assert(it_ok(s.rest[0])); } }
pub proof fn w_type(s: In)
    requires iok(s),
    ensures sp_type(s) matches Some((t, a)) ==> wf_ty(t) && iok(a),
    decreases sz(s), 3nat,
{
    broadcast use w_adv;
    match s.cur.kind {
        K::Other(c) => if c == '[' { w_array(s); } else if c == '*' { w_pointer(s); } else if c == '(' { w_fun_type(s); },
        _ => {}
    }
}
pub proof fn w_array(s: In)
    requires iok(s),
    ensures sp_array(s) matches Some((t, a)) ==> wf_ty(t) && iok(a),
    decreases sz(s), 2nat,
{
    broadcast use w_adv;
    if let Some(a) = eat(s, ch('[')) { w_type(a); }
}
pub proof fn w_pointer(s: In)
    requires iok(s),
    ensures sp_pointer(s) matches Some((t, a)) ==> wf_ty(t) && iok(a),
    decreases sz(s), 2nat,
{
    broadcast use w_adv;
    if let Some(a) = eat(s, ch('*')) { w_type(a); }
}
pub open spec fn wf_tys(p: Seq<Tree>) -> bool { forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> wf_ty(p[i]) }
pub proof fn w_fun_type(s: In)
    requires iok(s),
    ensures sp_fun_type(s) matches Some((t, a)) ==> wf_ty(t) && iok(a),
    decreases sz(s), 2nat,
{
    broadcast use w_adv;
    w_types(s);
    if let Some((p, a)) = sp_types(s) { if lt(a, s) { w_ret(a); } }
}
pub proof fn w_ret(s: In)
    requires iok(s),
    ensures sp_ret(s) matches Some((r, a)) ==> wf_rty(r) && iok(a),
    decreases sz(s), 0nat,
{
    broadcast use w_adv;
    if s.cur.kind == ch(':') { if let Some(a) = adv(s) { w_type(a); } }
}
pub proof fn w_types(s: In)
    requires iok(s),
    ensures sp_types(s) matches Some((t, a)) ==> wf_tys(t) && iok(a),
    decreases sz(s), 1nat,
{
    broadcast use w_adv;
    if let Some(a) = eat(s, ch('(')) { w_types_1(a, Seq::empty()); }
}
pub proof fn w_types_1(s: In, acc: Seq<Tree>)
    requires iok(s), wf_tys(acc),
    ensures sp_types_1(s, acc) matches Some((t, a)) ==> wf_tys(t) && iok(a),
    decreases sz(s), 4nat,
{
    broadcast use w_adv;
    w_type(s);
    if let Some((t, a)) = sp_type(s) {
        assert(wf_tys(acc.push(t)));
        if a.cur.kind == ch(',') { if let Some(b) = adv(a) { if lt(b, s) { w_types_1(b, acc.push(t)); } } }
    }
}
pub proof fn w_init(s: In)
    requires iok(s),
    ensures sp_init(s) matches Some((t, a)) ==> wf_init(t) && iok(a),
    decreases sz(s), 1nat,
{
    broadcast use w_adv;
    match s.cur.kind { K::Other(c) => if c == '{' { w_aggregate(s); }, _ => {} }
}
pub open spec fn wf_inits(p: Seq<Tree>) -> bool { forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> wf_init(p[i]) }
pub proof fn w_aggregate(s: In)
    requires iok(s),
    ensures sp_aggregate(s) matches Some((t, a)) ==> wf_init(t) && iok(a),
    decreases sz(s), 0nat,
{
    broadcast use w_adv;
    if let Some(a) = eat(s, ch('{')) { w_init(a); if let Some((t, b)) = sp_init(a) { if lt(b, s) { w_inits(b, seq![t]); } } }
}
pub proof fn w_inits(s: In, acc: Seq<Tree>)
    requires iok(s), wf_inits(acc),
    ensures sp_inits(s, acc) matches Some((t, a)) ==> wf_inits(t) && iok(a),
    decreases sz(s), 2nat,
{
    broadcast use w_adv;
    if s.cur.kind == ch(',') { if let Some(a) = adv(s) {
        w_init(a);
        if let Some((t, b)) = sp_init(a) { if lt(b, s) { assert(wf_inits(acc.push(t))); w_inits(b, acc.push(t)); } }
    } }
}
pub broadcast proof fn w_type_b(s: In)
    requires iok(s),
    ensures #[trigger] sp_type(s) matches Some((t, a)) ==> wf_ty(t) && iok(a),
{ w_type(s); }
pub broadcast proof fn w_types_b(s: In)
    requires iok(s),
    ensures #[trigger] sp_types(s) matches Some((t, a)) ==> wf_tys(t) && iok(a),
{ w_types(s); }
pub broadcast proof fn w_ret_b(s: In)
    requires iok(s),
    ensures #[trigger] sp_ret(s) matches Some((t, a)) ==> wf_rty(t) && iok(a),
{ w_ret(s); }
pub broadcast proof fn w_init_b(s: In)
    requires iok(s),
    ensures #[trigger] sp_init(s) matches Some((t, a)) ==> wf_init(t) && iok(a),
{ w_init(s); }
pub broadcast proof fn w_value(s: In)
    requires iok(s),
    ensures #[trigger] sp_value(s) matches Some((t, a)) ==> wf_val(t) && iok(a),
{ broadcast use {w_adv};  }
pub proof fn w_values_1(s: In, acc: Seq<Tree>)
    requires iok(s), wf_vals(acc),
    ensures sp_values_1(s, acc) matches Some((t, a)) ==> wf_vals(t) && iok(a),
    decreases sz(s),
{
    broadcast use w_adv;
    w_value(s);
    if let Some((t, a)) = sp_value(s) {
        assert(wf_vals(acc.push(t)));
        if a.cur.kind == ch(',') { if let Some(b) = adv(a) { if lt(b, s) { w_values_1(b, acc.push(t)); } } }
    }
}
pub broadcast proof fn w_values(s: In)
    requires iok(s),
    ensures #[trigger] sp_values(s) matches Some((t, a)) ==> wf_vals(t) && iok(a),
{ broadcast use {w_adv}; if let Some(a) = eat(s, ch('(')) { w_values_1(a, Seq::empty()); } }
pub broadcast proof fn w_param(s: In)
    requires iok(s),
    ensures #[trigger] sp_param(s) matches Some((t, a)) ==> sym_ok(t.0) && wf_ty(t.1) && iok(a),
{ broadcast use {w_adv, w_type_b};  }
pub proof fn w_params_1(s: In, acc: Seq<(Seq<char>, Tree)>)
    requires iok(s), wf_params(acc),
    ensures sp_params_1(s, acc) matches Some((t, a)) ==> wf_params(t) && iok(a),
    decreases sz(s),
{
    broadcast use w_adv;
    w_param(s);
    if let Some((t, a)) = sp_param(s) {
        assert(wf_params(acc.push(t)));
        if a.cur.kind == ch(',') { if let Some(b) = adv(a) { if lt(b, s) { w_params_1(b, acc.push(t)); } } }
    }
}
pub broadcast proof fn w_params(s: In)
    requires iok(s),
    ensures #[trigger] sp_params(s) matches Some((t, a)) ==> wf_params(t) && iok(a),
{ broadcast use {w_adv}; if let Some(a) = eat(s, ch('(')) { w_params_1(a, Seq::empty()); } }
pub broadcast proof fn w_opt_values(s: In)
    requires iok(s),
    ensures #[trigger] sp_opt_values(s) matches Some((t, a)) ==> wf_vals(t) && iok(a),
{ broadcast use {w_adv, w_values};  }
pub broadcast proof fn w_opt_params(s: In)
    requires iok(s),
    ensures #[trigger] sp_opt_params(s) matches Some((t, a)) ==> wf_params(t) && iok(a),
{ broadcast use {w_adv, w_params};  }
pub broadcast proof fn w_pair(s: In)
    requires iok(s),
    ensures #[trigger] sp_pair(s) matches Some((t, a)) ==> wf_val(t.1) && iok(a),
{ broadcast use {w_adv, w_value};  }
pub broadcast proof fn w_call(s: In)
    requires iok(s),
    ensures #[trigger] sp_call(s) matches Some((t, a)) ==> (t matches Tree::FunCall(n, v) && wf_vals(v)) && iok(a),
{ broadcast use {w_adv, w_values};  }
pub broadcast proof fn w_expr(s: In)
    requires iok(s),
    ensures #[trigger] sp_expr(s) matches Some((t, a)) ==> wf_inst(t) && iok(a),
{ broadcast use {w_adv, w_value, w_type_b, w_pair, w_call};  }
pub broadcast proof fn w_stmt(s: In)
    requires iok(s),
    ensures #[trigger] sp_stmt(s) matches Some((t, a)) ==> wf_stmt(t) && !(t is Error) && (is_end(s) ==> wf_end(t)) && iok(a),
{ broadcast use {w_adv, w_value, w_expr, w_call, w_init_b, w_opt_values};  }
pub open spec fn wf_stmts(v: Seq<Tree>) -> bool { forall|i: int| 0 <= i < v.len() ==> wf_stmt(#[trigger] v[i]) }
pub open spec fn clean(v: Seq<Tree>) -> bool { forall|i: int| 0 <= i < v.len() ==> !((#[trigger] v[i]) is Error) }
pub broadcast proof fn w_head(s: In)
    requires iok(s),
    ensures #[trigger] sym(s) matches Some((n, a)) ==> sym_ok(n) && iok(a),
{ broadcast use w_adv; }
/// the name and the parameters of a block
pub proof fn w_start(s: In)
    requires iok(s),
    ensures match sym(s) { Some((n, a)) => sym_ok(n) && match sp_opt_params(a) { Some((p, b)) => wf_params(p), None => true }, None => true },
{ broadcast use {w_adv, w_opt_params}; }
/// the name, the parameters and the result type of a function
pub proof fn w_fun(s: In)
    requires iok(s),
    ensures match adv(s) { Some(z) => match sym(z) { Some((n, a)) => sym_ok(n) && match sp_params(a) { Some((p, b)) => wf_params(p) && match sp_ret(b) { Some((r, c)) => wf_rty(r), None => true }, None => true }, None => true }, None => true },
{ broadcast use {w_adv, w_params, w_ret_b}; }
pub open spec fn wf_blocks(v: Seq<Tree>) -> bool { forall|i: int| 0 <= i < v.len() ==> wf_block(#[trigger] v[i]) }
pub open spec fn broken_any(v: Seq<Tree>) -> bool { exists|i: int| 0 <= i < v.len() && broken_block(#[trigger] v[i]) }
pub proof fn w_global(s: In)
    requires iok(s), s.cur.kind == kw(Keyword::Global),
    ensures sp_global(s) matches Some((t, a)) ==> wf_item(t) && !broken(t),
{ broadcast use {w_adv, w_type_b, w_init_b}; }
pub proof fn w_decl(s: In)
    requires iok(s), s.cur.kind == kw(Keyword::Decl),
    ensures sp_fun_decl(s) matches Some((t, a)) ==> wf_item(t) && !broken(t),
{ broadcast use {w_adv, w_type_b, w_types_b, w_ret_b}; }
// ---- primitives ----
pub uninterp spec fn trunc(i: i64) -> i32;
/// `as i32`: the low 32 bits
#[verifier::external_body]
pub fn vx_trunc(i: i64) -> (r: i32) ensures r == trunc(i), i32::MIN <= i <= i32::MAX ==> r == i, { i as i32 }
#[verifier::external_body]
pub fn vx_vec1<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a], { vec![a] }
#[verifier::external_body]
pub fn vx_last<T>(v: &Vec<T>) -> (r: &T) requires v@.len() > 0, ensures *r == v@.last(), { v.last().unwrap() }
/// a reported error (proved for C17; fewer than 2^63 reports assumed)
#[verifier::external_body]
pub fn vx_log(s: &Span, vx_st: &mut GlobalState) -> (r: Error)
    requires old(vx_st).room(),
    ensures final(vx_st).plus_error(*old(vx_st)), final(vx_st).room(), r is Normal,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_log_raw(vx_st: &mut GlobalState) -> (r: Error)
    requires old(vx_st).room(),
    ensures final(vx_st).plus_error(*old(vx_st)), final(vx_st).room(), r is Normal,
{ unimplemented!() }
impl Span {
//@ fn front::span::Span::into_updated_span
    ensures r.start == self.start, r.end == span.end,
//@ end
//@ fn front::span::Span::update_span
    ensures final(self).start == old(self).start, final(self).end == span.end,
//@ end
//@ fn front::span::Span::is_in_same_line_as
    ensures r == (self.end.line == span.start.line),
//@ end
}
/// the lexer hands out the tokens of its text one by one, each once (C07), then the end
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Lexer<T> { t: T }
impl<T> Lexer<T> {
    pub uninterp spec fn rest(self) -> Seq<It>;
    pub uninterp spec fn eof(self) -> Span;
    #[verifier::external_body]
    pub fn next_token(&mut self, vx_st: &mut GlobalState) -> (r: Result<Token, Error>)
        requires old(vx_st).room(),
        ensures
            final(vx_st).after(*old(vx_st)), final(self).eof() == old(self).eof(), no_end(old(self).rest()),
            old(self).rest().len() == 0 ==> final(self).rest() == old(self).rest() && r is Ok && tv(r->Ok_0) == (Tok { kind: K::End, span: old(self).eof() }) && *final(vx_st) == *old(vx_st),
            old(self).rest().len() > 0 ==> final(self).rest() == old(self).rest().drop_first() && match old(self).rest()[0] {
                It::Tok(t) => r is Ok && tv(r->Ok_0) == t && *final(vx_st) == *old(vx_st),
                It::Bad => r is Err && final(vx_st).err_num > old(vx_st).err_num,
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) { unimplemented!() }
}
impl Token {
//@ fn front::token::Token@Default::default
    ensures r.kind is End,
//@ sig
pub fn default() -> (r: Token)
//@ rule Span::default() => vx_span0()
//@ end
}
#[verifier::external_body]
pub fn vx_span0() -> Span { unimplemented!() }

/// does nothing (ends the borrow for the verifier)
pub fn vx_same<T>(a: &mut T)
    ensures *final(a) == *old(a),
{}

// ---- the parser ----
#[verifier::reject_recursive_types(T)]
pub struct Parser<T> { pub lexer: Lexer<T>, pub cur_token: Token }
pub open spec fn tr(r: Result<AstBox, Error>) -> Option<Tree> { match r { Ok(a) => Some(a.tree()), Err(_) => None } }
pub open spec fn trs(r: Result<(Vec<AstBox>, Span), Error>) -> Option<Seq<Tree>> { match r { Ok(a) => Some(trees(a.0@)), Err(_) => None } }
pub open spec fn trp(r: Result<(Vec<(String, AstBox)>, Span), Error>) -> Option<Seq<(Seq<char>, Tree)>> { match r { Ok(a) => Some(ptrees(a.0@)), Err(_) => None } }
pub open spec fn tr1(r: Result<(String, AstBox), Error>) -> Option<(Seq<char>, Tree)> { match r { Ok(a) => Some((a.0@, a.1.tree())), Err(_) => None } }
/// from input `i` and state `a` to `j` and `b`: exactly what the grammar says, and an error is
/// reported when it says nothing
pub open spec fn ran<X>(i: In, a: GlobalState, j: In, b: GlobalState, w: Option<(X, In)>, got: Option<X>) -> bool {
    &&& b.after(a)
    &&& sz(j) <= sz(i)
    &&& match w { Some((x, s)) => got == Some(x) && j == s && a == b, None => got is None && b.err_num > a.err_num }
    &&& got is Some ==> lt(j, i)
}
pub open spec fn maybe<X>(i: In, a: GlobalState, j: In, b: GlobalState, w: Option<(X, In)>, got: Option<X>) -> bool {
    &&& b.after(a)
    &&& sz(j) <= sz(i)
    &&& match w { Some((x, s)) => got == Some(x) && j == s && a == b, None => got is None && b.err_num > a.err_num }
}
/// the same when errors inside are recovered from
pub open spec fn recov<X>(i: In, a: GlobalState, j: In, b: GlobalState, w: Option<(X, In)>, got: Option<X>) -> bool {
    &&& b.after(a)
    &&& sz(j) <= sz(i)
    &&& match w { Some((x, s)) => got == Some(x) && j == s && a == b, None => b.err_num > a.err_num }
}
pub broadcast proof fn lemma_one(s: Seq<AstBox>)
    requires s.len() == 1,
    ensures #[trigger] trees(s) == seq![s[0].tree()],
{ assert(trees(s) =~= seq![s[0].tree()]); }
pub broadcast proof fn lemma_push(v: Seq<AstBox>, a: AstBox)
    ensures #[trigger] trees(v.push(a)) == trees(v).push(a.tree()),
{ assert(trees(v.push(a)) =~= trees(v).push(a.tree())); }
pub broadcast proof fn lemma_ppush(v: Seq<(String, AstBox)>, a: (String, AstBox))
    ensures #[trigger] ptrees(v.push(a)) == ptrees(v).push((a.0@, a.1.tree())),
{ assert(ptrees(v.push(a)) =~= ptrees(v).push((a.0@, a.1.tree()))); }
pub broadcast proof fn lemma_empty(v: Seq<AstBox>)
    requires v.len() == 0,
    ensures #[trigger] trees(v) == Seq::<Tree>::empty(),
{ assert(trees(v) =~= Seq::empty()); }
pub broadcast proof fn lemma_pempty(v: Seq<(String, AstBox)>)
    requires v.len() == 0,
    ensures #[trigger] ptrees(v) == Seq::<(Seq<char>, Tree)>::empty(),
{ assert(ptrees(v) =~= Seq::empty()); }
impl<T> Parser<T> {
    pub open spec fn inp(self) -> In { In { cur: tv(self.cur_token), rest: self.lexer.rest(), eof: self.lexer.eof() } }
    pub open spec fn wf(self) -> bool { (self.cur_token.kind is End ==> self.lexer.rest().len() == 0) && iok(self.inp()) }
//@ fn front::parser::Parser::next_token
    requires old(vx_st).room(),
    ensures
        final(vx_st).after(*old(vx_st)), final(self).lexer.eof() == old(self).lexer.eof(),
        old(self).wf() ==> final(self).wf(), r is Ok ==> final(self).wf(),
        match adv(old(self).inp()) {
            Some(s) => r is Ok && final(self).inp() == s && *final(vx_st) == *old(vx_st),
            None => r is Err && final(vx_st).err_num > old(vx_st).err_num && final(self).cur_token == old(self).cur_token,
        },
        old(self).wf() ==> sz(final(self).inp()) <= sz(old(self).inp()),
        old(self).wf() && !(old(self).cur_token.kind is End) ==> lt(final(self).inp(), old(self).inp()),
//@ sig
pub fn next_token(&mut self, vx_st: &mut GlobalState) -> (r: Result<(), Error>)
//@ end
//@ fn front::parser::Parser::span
    ensures r == self.cur_token.span,
//@ sig
pub fn span(&self) -> (r: Span)
//@ end
//@ fn front::parser::Parser::is_token
    ensures r == (kv(self.cur_token.kind) == kv(tk)),
//@ sig
pub fn is_token(&self, tk: TokenKind) -> (r: bool)
//@ end
//@ fn front::parser::Parser::expect
    requires old(self).wf(), old(vx_st).room(), !(tk is End),
    ensures final(self).wf(), final(vx_st).after(*old(vx_st)),
        match eat(old(self).inp(), kv(tk)) {
            Some(s) => r is Ok && final(self).inp() == s && *final(vx_st) == *old(vx_st),
            None => r is Err && final(vx_st).err_num > old(vx_st).err_num,
        },
        sz(final(self).inp()) <= sz(old(self).inp()),
        r is Ok ==> lt(final(self).inp(), old(self).inp()),
        kv(tk) == tv(old(self).cur_token).kind ==> lt(final(self).inp(), old(self).inp()),
//@ sig
pub fn expect(&mut self, tk: TokenKind, vx_st: &mut GlobalState) -> (r: Result<Span, Error>)
//@ end
//@ fn front::parser::Parser::new
    requires old(vx_st).room(),
    ensures final(vx_st).after(*old(vx_st)), r is Ok ==> r->Ok_0.wf(),
        r is Err ==> final(vx_st).err_num > old(vx_st).err_num,
//@ sig
pub fn new(lexer: Lexer<T>, vx_st: &mut GlobalState) -> (r: Result<Self, Error>)
//@ end
//@ fn front::parser::Parser::parse_type
    requires old(self).wf(), old(vx_st).room(),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_type(old(self).inp()), tr(r)),
    decreases sz(old(self).inp()), 5nat,
//@ sig
pub fn parse_type(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_int_type
    requires old(self).wf(), old(vx_st).room(), old(self).cur_token.kind == TokenKind::Keyword(Keyword::I32),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_type(old(self).inp()), tr(r)),
    decreases sz(old(self).inp()), 0nat,
//@ sig
pub fn parse_int_type(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_array_type
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == ch('['),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_array(old(self).inp()), tr(r)),
    decreases sz(old(self).inp()), 0nat,
//@ sig
pub fn parse_array_type(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_pointer_type
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == ch('*'),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_pointer(old(self).inp()), tr(r)),
    decreases sz(old(self).inp()), 0nat,
//@ sig
pub fn parse_pointer_type(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_fun_type
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == ch('('),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_fun_type(old(self).inp()), tr(r)),
    decreases sz(old(self).inp()), 4nat,
//@ sig
pub fn parse_fun_type(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ rule self.parse_list(|__s| __s.parse_type(&mut *vx_st)) => self.parse_list_type(&mut *vx_st)
//@ end
//@ fn front::parser::Parser::parse_list as=parse_list_type
    requires old(self).wf(), old(vx_st).room(),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_types(old(self).inp()), trs(r)),
    decreases sz(old(self).inp()), 3nat,
//@ sig
pub fn parse_list_type(&mut self, vx_st: &mut GlobalState) -> (r: Result<(Vec<AstBox>, Span), Error>)
//@ rule parser(self) => self.parse_type(&mut *vx_st)
//@ entry
    let ghost s0 = *vx_st;
    let ghost i0 = self.inp();
    broadcast use {lemma_empty, lemma_pempty, lemma_push, lemma_ppush};
//@ loop 0
    invariant_except_break
        sp_types(i0) == sp_types_1(self.inp(), trees(items@)),
    invariant
        self.wf(), vx_st.room(), *vx_st == s0, lt(self.inp(), i0), i0 == old(self).inp(), s0 == *old(vx_st),
    ensures
        sp_types(i0) == (match eat(self.inp(), ch(')')) { Some(b) => Some((trees(items@), b)), None => None }),
    decreases sz(self.inp()),
//@ loopstart 0
    broadcast use {lemma_push, lemma_ppush};
//@ end
//@ fn front::parser::Parser::parse_list as=parse_list_value
    requires old(self).wf(), old(vx_st).room(),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_values(old(self).inp()), trs(r)),
//@ sig
pub fn parse_list_value(&mut self, vx_st: &mut GlobalState) -> (r: Result<(Vec<AstBox>, Span), Error>)
//@ rule parser(self) => self.parse_value(&mut *vx_st)
//@ entry
    let ghost s0 = *vx_st;
    let ghost i0 = self.inp();
    broadcast use {lemma_empty, lemma_pempty, lemma_push, lemma_ppush};
//@ loop 0
    invariant_except_break
        sp_values(i0) == sp_values_1(self.inp(), trees(items@)),
    invariant
        self.wf(), vx_st.room(), *vx_st == s0, lt(self.inp(), i0), i0 == old(self).inp(), s0 == *old(vx_st),
    ensures
        sp_values(i0) == (match eat(self.inp(), ch(')')) { Some(b) => Some((trees(items@), b)), None => None }),
    decreases sz(self.inp()),
//@ loopstart 0
    broadcast use {lemma_push, lemma_ppush};
//@ end
//@ fn front::parser::Parser::parse_list as=parse_list_param
    requires old(self).wf(), old(vx_st).room(),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_params(old(self).inp()), trp(r)),
//@ sig
pub fn parse_list_param(&mut self, vx_st: &mut GlobalState) -> (r: Result<(Vec<(String, AstBox)>, Span), Error>)
//@ rule parser(self) => Self::param_of_fun(self, &mut *vx_st)
//@ entry
    let ghost s0 = *vx_st;
    let ghost i0 = self.inp();
    broadcast use {lemma_empty, lemma_pempty, lemma_push, lemma_ppush};
//@ loop 0
    invariant_except_break
        sp_params(i0) == sp_params_1(self.inp(), ptrees(items@)),
    invariant
        self.wf(), vx_st.room(), *vx_st == s0, lt(self.inp(), i0), i0 == old(self).inp(), s0 == *old(vx_st),
    ensures
        sp_params(i0) == (match eat(self.inp(), ch(')')) { Some(b) => Some((ptrees(items@), b)), None => None }),
    decreases sz(self.inp()),
//@ loopstart 0
    broadcast use {lemma_push, lemma_ppush};
//@ end
//@ fn front::parser::Parser::parse_list as=parse_list_bparam
    requires old(self).wf(), old(vx_st).room(),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_params(old(self).inp()), trp(r)),
//@ sig
pub fn parse_list_bparam(&mut self, vx_st: &mut GlobalState) -> (r: Result<(Vec<(String, AstBox)>, Span), Error>)
//@ rule parser(self) => Self::param_of_block(self, &mut *vx_st)
//@ entry
    let ghost s0 = *vx_st;
    let ghost i0 = self.inp();
    broadcast use {lemma_empty, lemma_pempty, lemma_push, lemma_ppush};
//@ loop 0
    invariant_except_break
        sp_params(i0) == sp_params_1(self.inp(), ptrees(items@)),
    invariant
        self.wf(), vx_st.room(), *vx_st == s0, lt(self.inp(), i0), i0 == old(self).inp(), s0 == *old(vx_st),
    ensures
        sp_params(i0) == (match eat(self.inp(), ch(')')) { Some(b) => Some((ptrees(items@), b)), None => None }),
    decreases sz(self.inp()),
//@ loopstart 0
    broadcast use {lemma_push, lemma_ppush};
//@ end
//@ fn front::parser::Parser::parse_opt_list as=parse_opt_list_value
    requires old(self).wf(), old(vx_st).room(),
    ensures final(self).wf(),
        maybe(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_opt_values(old(self).inp()), trs(r)),
//@ sig
pub fn parse_opt_list_value(&mut self, vx_st: &mut GlobalState) -> (r: Result<(Vec<AstBox>, Span), Error>)
//@ rule self.parse_list(parser) => self.parse_list_value(&mut *vx_st)
//@ entry
    broadcast use {lemma_empty, lemma_pempty};
//@ end
//@ fn front::parser::Parser::parse_opt_list as=parse_opt_list_bparam
    requires old(self).wf(), old(vx_st).room(),
    ensures final(self).wf(),
        maybe(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_opt_params(old(self).inp()), trp(r)),
//@ sig
pub fn parse_opt_list_bparam(&mut self, vx_st: &mut GlobalState) -> (r: Result<(Vec<(String, AstBox)>, Span), Error>)
//@ rule self.parse_list(parser) => self.parse_list_bparam(&mut *vx_st)
//@ entry
    broadcast use {lemma_empty, lemma_pempty};
//@ end
//@ fn front::parser::Parser::parse_fun_def closure=parse_list as=param_of_fun
    requires old(vx_c0).wf(), old(vx_st).room(),
    ensures final(vx_c0).wf(),
        ran(old(vx_c0).inp(), *old(vx_st), final(vx_c0).inp(), *final(vx_st), sp_param(old(vx_c0).inp()), tr1(r)),
//@ sig
pub fn param_of_fun(vx_c0: &mut Self, vx_st: &mut GlobalState) -> (r: Result<(String, AstBox), Error>)
//@ end
//@ fn front::parser::Parser::parse_block closure=parse_opt_list as=param_of_block
    requires old(vx_c0).wf(), old(vx_st).room(),
    ensures final(vx_c0).wf(),
        ran(old(vx_c0).inp(), *old(vx_st), final(vx_c0).inp(), *final(vx_st), sp_param(old(vx_c0).inp()), tr1(r)),
//@ sig
pub fn param_of_block(vx_c0: &mut Self, vx_st: &mut GlobalState) -> (r: Result<(String, AstBox), Error>)
//@ end
//@ fn front::parser::Parser::parse_value
    requires old(self).wf(), old(vx_st).room(),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_value(old(self).inp()), tr(r)),
//@ sig
pub fn parse_value(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_init
    requires old(self).wf(), old(vx_st).room(),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_init(old(self).inp()), tr(r)),
    decreases sz(old(self).inp()), 1nat,
//@ sig
pub fn parse_init(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_aggregate
    requires old(self).wf(), old(vx_st).room(),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_aggregate(old(self).inp()), tr(r)),
    decreases sz(old(self).inp()), 0nat,
//@ sig
pub fn parse_aggregate(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ entry
    let ghost s0 = *vx_st;
    let ghost i0 = self.inp();
    broadcast use {lemma_one, lemma_push};
//@ loop 0
    invariant
        self.wf(), vx_st.room(), *vx_st == s0, lt(self.inp(), i0), i0 == old(self).inp(), s0 == *old(vx_st),
        sp_aggregate(i0) == (match sp_inits(self.inp(), trees(elems@)) { Some((v, c)) => Some((Tree::Aggregate(v), c)), None => None }),
    decreases sz(self.inp()),
//@ loopstart 0
    broadcast use {lemma_push};
//@ end
//@ fn front::parser::Parser::parse_mem_decl
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == kw(Keyword::Alloc),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_alloc(old(self).inp()), tr(r)),
//@ sig
pub fn parse_mem_decl(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_load
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == kw(Keyword::Load),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_load(old(self).inp()), tr(r)),
//@ sig
pub fn parse_load(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_get_pointer
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == kw(Keyword::GetPtr),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_get_ptr(old(self).inp()), tr(r)),
//@ sig
pub fn parse_get_pointer(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_get_element_pointer
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == kw(Keyword::GetElemPtr),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_get_elem_ptr(old(self).inp()), tr(r)),
//@ sig
pub fn parse_get_element_pointer(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_binary_expr
    requires old(self).wf(), old(vx_st).room(), old(self).cur_token.kind is BinaryOp,
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_binary(old(self).inp()), tr(r)),
//@ sig
pub fn parse_binary_expr(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_store
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == kw(Keyword::Store),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_store(old(self).inp()), tr(r)),
        !(old(self).cur_token.kind is End) ==> lt(final(self).inp(), old(self).inp()),
//@ sig
pub fn parse_store(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_fun_call
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == kw(Keyword::Call),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_call(old(self).inp()), tr(r)),
        !(old(self).cur_token.kind is End) ==> lt(final(self).inp(), old(self).inp()),
//@ sig
pub fn parse_fun_call(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ rule __s.parse_list(|__p| __p.parse_value(&mut *vx_st)) => __s.parse_list_value(&mut *vx_st)
//@ rule __s.parse_opt_list(|__p| __p.parse_value(&mut *vx_st)) => __s.parse_opt_list_value(&mut *vx_st)
//@ rule __s.parse_list(|__p| __p.parse_type(&mut *vx_st)) => __s.parse_list_type(&mut *vx_st)
//@ end
//@ fn front::parser::Parser::parse_branch
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == kw(Keyword::Br),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_branch(old(self).inp()), tr(r)),
        !(old(self).cur_token.kind is End) ==> lt(final(self).inp(), old(self).inp()),
//@ sig
pub fn parse_branch(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ rule __s.parse_list(|__p| __p.parse_value(&mut *vx_st)) => __s.parse_list_value(&mut *vx_st)
//@ rule __s.parse_opt_list(|__p| __p.parse_value(&mut *vx_st)) => __s.parse_opt_list_value(&mut *vx_st)
//@ rule __s.parse_list(|__p| __p.parse_type(&mut *vx_st)) => __s.parse_list_type(&mut *vx_st)
//@ end
//@ fn front::parser::Parser::parse_jump
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == kw(Keyword::Jump),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_jump(old(self).inp()), tr(r)),
        !(old(self).cur_token.kind is End) ==> lt(final(self).inp(), old(self).inp()),
//@ sig
pub fn parse_jump(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ rule __s.parse_list(|__p| __p.parse_value(&mut *vx_st)) => __s.parse_list_value(&mut *vx_st)
//@ rule __s.parse_opt_list(|__p| __p.parse_value(&mut *vx_st)) => __s.parse_opt_list_value(&mut *vx_st)
//@ rule __s.parse_list(|__p| __p.parse_type(&mut *vx_st)) => __s.parse_list_type(&mut *vx_st)
//@ end
//@ fn front::parser::Parser::parse_return
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == kw(Keyword::Ret),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_return(old(self).inp()), tr(r)),
        !(old(self).cur_token.kind is End) ==> lt(final(self).inp(), old(self).inp()),
//@ sig
pub fn parse_return(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_symbol_def
    requires old(self).wf(), old(vx_st).room(), old(self).cur_token.kind is Symbol,
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_symbol_def(old(self).inp()), tr(r)),
        !(old(self).cur_token.kind is End) ==> lt(final(self).inp(), old(self).inp()),
//@ sig
pub fn parse_symbol_def(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_block
    requires old(self).wf(), old(vx_st).room(),
    ensures final(self).wf(), r is Ok ==> wf_block(r->Ok_0.tree()), r is Ok && broken_block(r->Ok_0.tree()) ==> final(vx_st).err_num > 0,
        recov(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_block(old(self).inp()), tr(r)),
        r is Ok ==> lt(final(self).inp(), old(self).inp()),
//@ sig
pub fn parse_block(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ rule self.parse_opt_list(__c) => self.parse_opt_list_bparam(&mut *vx_st)
//@ entry
    let ghost s0 = *vx_st;
    let ghost i0 = self.inp();
    broadcast use {lemma_empty};
//@ beforeloop 0
    let ghost i1 = self.inp();
    let ghost n0 = name@;
    let ghost p0 = ptrees(params@);
    proof { w_start(i0); }
//@ loop 0
    invariant
        self.wf(), vx_st.after(s0), lt(self.inp(), i0), i0 == old(self).inp(), s0 == *old(vx_st), n0 == name@, p0 == ptrees(params@),
        exit_flag ==> stmts@.len() > 0 && wf_end(trees(stmts@).last()),
        sym_ok(n0), wf_params(p0), wf_stmts(trees(stmts@)), !clean(trees(stmts@)) ==> vx_st.err_num > 0,
        vx_st.err_num == s0.err_num ==> *vx_st == s0 && sp_block(i0) == (match (if exit_flag { Some((trees(stmts@), self.inp())) } else { sp_stmts(self.inp(), trees(stmts@)) }) {
            Some((v, d)) => Some((Tree::Block(n0, p0, v), d)), None => None }),
        vx_st.err_num != s0.err_num ==> sp_block(i0) is None,
    decreases sz(self.inp()) + (if exit_flag { 0nat } else { 1 }),
//@ loopstart 0
    broadcast use {lemma_push};
    let ghost j0 = self.inp();
    let ghost e0 = vx_st.err_num;
    proof { w_stmt(j0); }
//@ loop 1
    invariant
        self.wf(), vx_st.after(s0), vx_st.err_num > e0, e0 >= s0.err_num, lt(self.inp(), j0), sp_block(i0) is None,
        lt(j0, i0) || j0 == i0, i0 == old(self).inp(), s0 == *old(vx_st), stmts@.len() >= 0,
    decreases sz(self.inp()),
//@ exit
    vx_same(&mut *self);
    vx_same(&mut *vx_st);
//@ end
//@ fn front::parser::Parser::parse_global_def
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == kw(Keyword::Global),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_global(old(self).inp()), tr(r)),
        !(old(self).cur_token.kind is End) ==> lt(final(self).inp(), old(self).inp()),
//@ sig
pub fn parse_global_def(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ end
//@ fn front::parser::Parser::parse_fun_def
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == kw(Keyword::Fun),
    ensures final(self).wf(), r is Ok ==> wf_item(r->Ok_0.tree()), r is Ok && broken(r->Ok_0.tree()) ==> final(vx_st).err_num > 0,
        recov(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_fun_def(old(self).inp()), tr(r)),
        !(old(self).cur_token.kind is End) ==> lt(final(self).inp(), old(self).inp()),
//@ sig
pub fn parse_fun_def(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ rule self.parse_list(__c) => self.parse_list_param(&mut *vx_st)
//@ entry
    let ghost s0 = *vx_st;
    let ghost i0 = self.inp();
    broadcast use {lemma_empty};
//@ afterloop 0
    proof { reveal(fun_tail); }
//@ beforeloop 0
    proof { assert(forall|n: Seq<char>, p: Seq<(Seq<char>, Tree)>, r: Option<Box<Tree>>| fun_tail(n, p, r, None) is None) by { reveal(fun_tail); } }
    let ghost n0 = name@;
    let ghost p0 = ptrees(params@);
    let ghost r0 = otree(ret);
    proof { w_fun(i0); }
//@ loop 0
    invariant
        self.wf(), vx_st.after(s0), lt(self.inp(), i0), i0 == old(self).inp(), s0 == *old(vx_st), n0 == name@, p0 == ptrees(params@), r0 == otree(ret),
        vx_st.err_num == s0.err_num ==> *vx_st == s0 && sp_fun_def(i0) == fun_tail(n0, p0, r0, sp_blocks(self.inp(), trees(bbs@))),
        vx_st.err_num != s0.err_num ==> sp_fun_def(i0) is None,
        sym_ok(n0), wf_params(p0), wf_rty(r0), wf_blocks(trees(bbs@)), broken_any(trees(bbs@)) ==> vx_st.err_num > 0,
    decreases sz(self.inp()),
//@ loopstart 0
    proof { assert(fun_tail(n0, p0, r0, None) is None) by { reveal(fun_tail); } }
    broadcast use {lemma_push};
//@ end
//@ fn front::parser::Parser::parse_fun_decl
    requires old(self).wf(), old(vx_st).room(), kv(old(self).cur_token.kind) == kw(Keyword::Decl),
    ensures final(self).wf(),
        ran(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_fun_decl(old(self).inp()), tr(r)),
        !(old(self).cur_token.kind is End) ==> lt(final(self).inp(), old(self).inp()),
//@ sig
pub fn parse_fun_decl(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ rule __s.parse_list(|__p| __p.parse_value(&mut *vx_st)) => __s.parse_list_value(&mut *vx_st)
//@ rule __s.parse_opt_list(|__p| __p.parse_value(&mut *vx_st)) => __s.parse_opt_list_value(&mut *vx_st)
//@ rule __s.parse_list(|__p| __p.parse_type(&mut *vx_st)) => __s.parse_list_type(&mut *vx_st)
//@ end
//@ fn front::parser::Parser::parse_next
    requires old(self).wf(), old(vx_st).room(),
    ensures final(self).wf(), r is Ok ==> wf_item(r->Ok_0.tree()), r is Ok && broken(r->Ok_0.tree()) ==> final(vx_st).err_num > 0, recov(old(self).inp(), *old(vx_st), final(self).inp(), *final(vx_st), sp_item(old(self).inp()), tr(r)),
        r is Ok && !(old(self).cur_token.kind is End) ==> lt(final(self).inp(), old(self).inp()),
        r is Ok ==> (r->Ok_0.kind is End) == (r->Ok_0.tree() is End),
//@ sig
pub fn parse_next(&mut self, vx_st: &mut GlobalState) -> (r: Result<AstBox, Error>)
//@ entry
    let ghost s0 = *vx_st;
    let ghost i0 = self.inp();
    proof { if i0.cur.kind == kw(Keyword::Global) { w_global(i0); } if i0.cur.kind == kw(Keyword::Decl) { w_decl(i0); } }
//@ loop 0
    invariant
        self.wf(), vx_st.after(s0), vx_st.err_num > s0.err_num, lt(self.inp(), i0), sp_item(i0) is None, i0 == old(self).inp(), s0 == *old(vx_st),
    decreases sz(self.inp()),
//@ exit
    vx_same(&mut *self);
    vx_same(&mut *vx_st);
    proof { if vx_ret is Ok { ast::axiom_tree(*vx_ret->Ok_0); } }
//@ end
}
// ---- the reader of a whole program ----
/// the front-end builder: what it was given so far (C09)
#[verifier::external_body]
pub struct Builder { x: usize }
#[verifier::external_body]
pub struct Program { x: usize }
impl Program { pub uninterp spec fn of(self) -> Seq<Tree>; }
/// what the builder takes without an error, after the given items (C09)
pub uninterp spec fn accepts(g: Seq<Tree>, t: Tree) -> bool;
pub open spec fn all_accepted(ts: Seq<Tree>) -> bool { forall|i: int| 0 <= i < ts.len() ==> accepts(#[trigger] ts.take(i), ts[i]) }
pub proof fn lemma_item_end(s: In)
    ensures sp_item(s) matches Some(p) ==> (p.0 is End) == (s.cur.kind is End),
{ reveal(fun_tail); }
pub proof fn lemma_prefix(s: In, acc: Seq<Tree>)
    ensures sp_program(s, acc) matches Some(ts) ==> acc.len() <= ts.len() && ts.take(acc.len() as int) == acc,
    decreases sz(s),
{
    if s.cur.kind is End { assert(acc.take(acc.len() as int) =~= acc); } else {
        match sp_item(s) {
            Some((t, a)) => if lt(a, s) {
                lemma_prefix(a, acc.push(t));
                if let Some(ts) = sp_program(a, acc.push(t)) {
                    assert(ts.take(acc.len() as int) =~= ts.take(acc.len() as int + 1).drop_last());
                    assert(acc.push(t).drop_last() =~= acc);
                }
            },
            None => {}
        }
    }
}
/// a rejected item: not every item of the program is accepted
pub proof fn lemma_rejected(s: In, g: Seq<Tree>, t: Tree)
    requires !accepts(g, t),
    ensures sp_program(s, g.push(t)) matches Some(ts) ==> !all_accepted(ts),
{
    lemma_prefix(s, g.push(t));
    if let Some(ts) = sp_program(s, g.push(t)) {
        assert(ts.take(g.len() as int) =~= ts.take(g.len() as int + 1).drop_last());
        assert(g.push(t).drop_last() =~= g);
        assert(ts[g.len() as int] == ts.take(g.len() as int + 1)[g.len() as int]);
        assert(ts.take(g.len() as int) == g);
    }
}
impl Builder {
    pub uninterp spec fn given(self) -> Seq<Tree>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.given() == Seq::<Tree>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn build_on(&mut self, ast: &ast::Ast, st: &mut GlobalState)
        requires old(st).room(), wf_item(ast.tree()), broken(ast.tree()) ==> old(st).err_num > 0,
        ensures final(st).after(*old(st)), final(self).given() == old(self).given().push(ast.tree()),
            accepts(old(self).given(), ast.tree()) ==> final(st).err_num == old(st).err_num,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn program(self) -> (r: Program) ensures r.of() == self.given(), { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct Driver<T> { pub parser: Result<Parser<T>, Error>, pub builder: Builder }
impl<T> Driver<T> {
//@ item front::driver::Driver::MAX_ERR_NUM
/// success means that the text is a program of the grammar and that the builder was given
/// exactly its items; reading always ends
//@ fn front::driver::Driver::generate_program
    requires old(vx_st).room(), self.builder.given().len() == 0,
        self.parser is Ok ==> self.parser->Ok_0.wf() && old(vx_st).err_num == 0,
    ensures
        self.parser is Err ==> r is Err,
        self.parser is Ok && r is Ok ==> sp_program(self.parser->Ok_0.inp(), Seq::empty()) == Some(r->Ok_0.of()),
        self.parser is Ok && (match sp_program(self.parser->Ok_0.inp(), Seq::empty()) { Some(ts) => all_accepted(ts), None => false }) ==> r is Ok,
//@ sig
pub fn generate_program(self, vx_st: &mut GlobalState) -> (r: Result<Program, Error>)
//@ entry
    let ghost i0 = self.parser->Ok_0.inp();
    assert(self.builder.given() =~= Seq::empty());
//@ loop 0
    invariant_except_break
        vx_st.err_num == 0 ==> sp_program(i0, Seq::empty()) == sp_program(parser.inp(), vx_self.builder.given()),
    invariant
        parser.wf(), vx_st.room(), i0 == self.parser->Ok_0.inp(),
        vx_st.err_num > 0 ==> match sp_program(i0, Seq::empty()) { Some(ts) => !all_accepted(ts), None => true },
    ensures
        vx_st.err_num == 0 ==> sp_program(i0, Seq::empty()) == Some(vx_self.builder.given()),
    decreases sz(parser.inp()),
//@ loopstart 0
    let ghost g0 = vx_self.builder.given();
    let ghost p0 = parser.inp();
    proof {
        lemma_item_end(p0);
        if let Some((t, s)) = sp_item(p0) { if !accepts(g0, t) { lemma_rejected(s, g0, t); } }
    }
//@ end
}
} // verus!
fn main() {}
