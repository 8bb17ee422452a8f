//@ include shim/base.vx
//@ include shim/errors.vx
verus! {
//@ rule parser.parse_next() => parser.parse_next(&mut *vx_st)
//@ rule self.builder.build_on(&__a) => self.builder.build_on(&__a, &mut *vx_st)
//@ rule Parser::new(__l) => Parser::new(__l, &mut *vx_st)
//@ rule Lexer::new(__l) => Lexer::new(__l)

// ---- the parser and the builder, by contract: they report through the functions above, so
// the counters only grow, and an error is only returned after it was reported ----
pub struct Ast { pub kind: AstKind }
pub enum AstKind { End(()), Item }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Lexer<T> { t: T }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Parser<T> { t: T }
#[verifier::external_body]
pub struct Builder { x: usize }
#[verifier::external_body]
pub struct Program { x: usize }
impl<T> Lexer<T> {
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) { unimplemented!() }
}
impl<T> Parser<T> {
    #[verifier::external_body]
    pub fn new(l: Lexer<T>, st: &mut GlobalState) -> (r: Result<Self, Error>)
        requires old(st).room(),
        ensures final(st).after(*old(st)), r is Err ==> final(st).err_num > 0,
    { unimplemented!() }
    /// never asked for more once too many errors were reported
    #[verifier::external_body]
    pub fn parse_next(&mut self, st: &mut GlobalState) -> (r: Result<Ast, Error>)
        requires old(st).room(), old(st).err_num <= 20,
        ensures final(st).after(*old(st)), r is Err ==> final(st).err_num > 0,
    { unimplemented!() }
}
impl Builder {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn build_on(&mut self, ast: &Ast, st: &mut GlobalState)
        requires old(st).room(),
        ensures final(st).after(*old(st)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn program(self) -> (r: Program) { unimplemented!() }
}

//@ type Driver<T> => Driver<T>
#[verifier::reject_recursive_types(T)]
pub struct Driver<T> { pub parser: Result<Parser<T>, Error>, pub builder: Builder }
impl<T> Driver<T> {
//@ item front::driver::Driver::MAX_ERR_NUM
//@ fn front::driver::Driver::new
    ensures final(vx_st).err_num > 0 || r.parser is Ok, final(vx_st).room(),
        final(vx_st).warn_num >= 0,
//@ sig
pub fn new(ft: FileType, reader: T, vx_st: &mut GlobalState) -> (r: Self)
//@ end
//@ fn front::driver::Driver::generate_program
    requires old(vx_st).room(), self.parser is Err ==> old(vx_st).err_num > 0, self.parser is Ok ==> old(vx_st).err_num <= 20,
    ensures
        r is Ok == (final(vx_st).err_num == 0),
        final(vx_st).err_num >= old(vx_st).err_num, final(vx_st).warn_num >= old(vx_st).warn_num,
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn generate_program(self, vx_st: &mut GlobalState) -> (r: Result<Program, Error>)
//@ loop 0
    invariant_except_break
        vx_st.err_num <= 20,
    invariant
        vx_st.after(*old(vx_st)),
//@ end
}
} // verus!
fn main() {}
