// ---- shim/rawread: a raw program in memory, as seen by the code that reads it ----
// Memory does not change while it is read: what an address holds is a function of the address.
//@ type RawType => PTy
//@ type RawFunction => PFn
//@ type RawBasicBlock => PBb
//@ type RawValue => PVal
//@ type *const c_void => PAny
//@ type *const c_char => PStr
//@ type *const () => PAny
verus! {
pub trait Pointer: Sized {
    spec fn mk(a: usize) -> Self;
    fn from_ptr(p: PAny) -> (r: Self)
        ensures r == Self::mk(p.a);
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PAny { pub a: usize }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PStr { pub a: usize }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PTy { pub a: usize }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PFn { pub a: usize }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PBb { pub a: usize }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PVal { pub a: usize }
impl Pointer for PTy { open spec fn mk(a: usize) -> Self { PTy { a: a } } fn from_ptr(p: PAny) -> (r: Self) { PTy { a: p.a } } }
impl Pointer for PFn { open spec fn mk(a: usize) -> Self { PFn { a: a } } fn from_ptr(p: PAny) -> (r: Self) { PFn { a: p.a } } }
impl Pointer for PBb { open spec fn mk(a: usize) -> Self { PBb { a: a } } fn from_ptr(p: PAny) -> (r: Self) { PBb { a: p.a } } }
impl Pointer for PVal { open spec fn mk(a: usize) -> Self { PVal { a: a } } fn from_ptr(p: PAny) -> (r: Self) { PVal { a: p.a } } }
impl PStr { pub fn is_null(&self) -> (r: bool) ensures r == (self.a == 0), { self.a == 0 } }
impl PFn { pub fn is_null(&self) -> (r: bool) ensures r == (self.a == 0), { self.a == 0 } }
impl PVal { pub fn is_null(&self) -> (r: bool) ensures r == (self.a == 0), { self.a == 0 } }
pub open spec fn nullf() -> PFn { PFn { a: 0 } }
pub fn vx_nullf() -> (r: PFn) ensures r == nullf(), { PFn { a: 0 } }

//@ item raw::entities::RawSliceItemKind
//@ item raw::entities::RawSlice
//@ item raw::entities::RawProgram
//@ item raw::entities::RawTypeKind
//@ item raw::entities::RawFunctionData
//@ item raw::entities::RawBasicBlockData
//@ item raw::entities::RawInteger
//@ item raw::entities::RawAggregate
//@ item raw::entities::RawFuncArgRef
//@ item raw::entities::RawBlockArgRef
//@ item raw::entities::RawGlobalAlloc
//@ item raw::entities::RawLoad
//@ item raw::entities::RawStore
//@ item raw::entities::RawGetPtr
//@ item raw::entities::RawGetElemPtr
//@ item raw::entities::RawBinaryOp
//@ item raw::entities::RawBinary
//@ item raw::entities::RawBranch
//@ item raw::entities::RawJump
//@ item raw::entities::RawCall
//@ item raw::entities::RawReturn
//@ item raw::entities::RawValueKind
//@ item raw::entities::RawValueData

// what memory holds
pub uninterp spec fn mt(p: PTy) -> RawTypeKind;
pub uninterp spec fn mf(p: PFn) -> RawFunctionData;
pub uninterp spec fn mb(p: PBb) -> RawBasicBlockData;
pub uninterp spec fn mv(p: PVal) -> RawValueData;
/// the characters of a C string, if they are UTF-8
pub uninterp spec fn mstr(p: PStr) -> Option<Seq<char>>;
pub uninterp spec fn cell(p: PAny, i: int) -> usize;
/// the items of a slice
pub open spec fn sl<T: Pointer>(s: RawSlice) -> Seq<T> { Seq::new(s.len as nat, |i: int| T::mk(cell(s.buffer, i))) }

#[verifier::external_body]
pub fn vx_mt(p: &PTy) -> (r: &'static RawTypeKind) ensures *r == mt(*p), { unimplemented!() }
#[verifier::external_body]
pub fn vx_mf(p: &PFn) -> (r: &'static RawFunctionData) ensures *r == mf(*p), { unimplemented!() }
#[verifier::external_body]
pub fn vx_mb(p: &PBb) -> (r: &'static RawBasicBlockData) ensures *r == mb(*p), { unimplemented!() }
#[verifier::external_body]
pub fn vx_mv(p: &PVal) -> (r: &'static RawValueData) ensures *r == mv(*p), { unimplemented!() }
#[verifier::external_body]
pub fn vx_cell(p: PAny, i: usize) -> (r: PAny) ensures r.a == cell(p, i as int), { unimplemented!() }
/// `CStr::from_ptr(p).to_str().map(|s| s.into())`
#[verifier::external_body]
pub fn vx_cstr(p: PStr) -> (r: Result<String, ()>)
    ensures match r { Ok(s) => mstr(p) == Some(s@), Err(_) => mstr(p) is None },
{ unimplemented!() }
} // verus!
