//@ include shim/base.vx
//@ include shim/kinds.vx
//@ include shim/accessors.vx
//@ include shim/program.vx
// ---- C06: every builder method returns exactly when the operands satisfy its rule ----
//
// One contract decides both directions: a panic needs `!vx_ok` (so none is reachable when the
// rule holds), and a return needs `vx_ok` (so nothing is accepted when it does not).
verus! {
//@ rule __e.value_type(__v) => __e.value_type(__v, Ghost(vx_ok))
//@ rule __e.is_const(__v) => __e.is_const(__v, Ghost(vx_ok))
//@ rule __e.bb_params(__v) => __e.bb_params(__v, Ghost(vx_ok))
//@ rule __e.func_type(__v) => __e.func_type(__v, Ghost(vx_ok))
//@ rule check_bb_arg_types(__a, __b, __c) => check_bb_arg_types(__a, __b, __c, Ghost(vx_ok))
//@ rule check_bb_name(__a) => check_bb_name(__a, Ghost(vx_ok))
//@ rule Type::get_array(__a, __b) => Type::get_array(__a, __b, Ghost(vx_ok))
//@ rule __e.is_none_or(|__p| __b) => match __e { Some(__p) => __b, None => true }
//@ rule __e.iter().all(|__p| __b) => { let mut vx_all = true; for __p in (&__e) { if !(__b) { vx_all = false; break; } } vx_all }
//@ rule __e.windows(2).all(|__p| __b) => { let mut vx_all = true; for __p in vx_windows(&__e, 2) { if !(__b) { vx_all = false; break; } } vx_all }
//@ rule __a.iter().zip(__b.iter()) => vx_zip(&__a, &__b)
//@ rule __a.iter().zip(__b) => vx_zip(&__a, __b)
//@ rule __e.iter().enumerate().map(|__p| __b).collect() => { let mut vx_v = Vec::new(); for __p in vx_enum(&__e) { vx_v.push(__b); } vx_v }
//@ rule __e.into_iter().enumerate().map(|__p| __b).collect() => { let mut vx_v = Vec::new(); for __p in vx_into_enum(__e) { vx_v.push(__b); } vx_v }

//@ rule __e.or_else(|| __f) => match __e { Some(vx_x) => Some(vx_x), None => __f }
//@ rule __e.expect(__m) => vx_expect_refuse(__e, Ghost(vx_ok))
//@ rule __e.as_deref().unwrap() => ()

/// A refusal: it must not be reachable when the documented rule holds.
#[verifier::external_body]
pub fn vx_refuse(Ghost(vx_ok): Ghost<bool>) -> !
    requires !vx_ok,
    ensures false,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_expect_refuse<T>(o: Option<T>, Ghost(vx_ok): Ghost<bool>) -> (r: T)
    requires o is None ==> !vx_ok,
    ensures o == Some(r),
{ unimplemented!() }

// ---- iterator adaptors of std ----
pub struct VxWindows<'a, T> { pub s: &'a [T], pub n: usize, pub i: usize }
#[verifier::external_body]
pub fn vx_windows<'a, T>(s: &'a Vec<T>, n: usize) -> (r: VxWindows<'a, T>)
    requires n > 0,
    ensures r.s@ == s@, r.n == n, r.i == 0,
{ unimplemented!() }
impl<'a, T> VxWindows<'a, T> {
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [T]>)
        ensures
            final(self).s == old(self).s, final(self).n == old(self).n,
            old(self).i + old(self).n <= old(self).s@.len() ==> r is Some && r->0@ == old(self).s@.subrange(old(self).i as int, old(self).i + old(self).n) && final(self).i == old(self).i + 1,
            old(self).i + old(self).n > old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
pub struct VxZip<'a, A, B> { pub a: &'a [A], pub b: &'a [B], pub i: usize }
pub struct VxZipE<'a, A, B> { pub a: &'a [A], pub b: &'a [B], pub i: usize }
pub trait VxAsSlice<T> { spec fn sl(&self) -> Seq<T>; }
impl<T> VxAsSlice<T> for Vec<T> { open spec fn sl(&self) -> Seq<T> { self@ } }
impl<'a, T> VxAsSlice<T> for &'a [T] { open spec fn sl(&self) -> Seq<T> { self@ } }
impl<'a, T> VxAsSlice<T> for &'a Vec<T> { open spec fn sl(&self) -> Seq<T> { self@ } }
impl<T> VxAsSlice<T> for [T] { open spec fn sl(&self) -> Seq<T> { self@ } }
#[verifier::external_body]
pub fn vx_zip<'a, A, B, X: VxAsSlice<A>, Y: VxAsSlice<B>>(a: &'a X, b: &'a Y) -> (r: VxZip<'a, A, B>)
    ensures r.a@ == a.sl(), r.b@ == b.sl(), r.i == 0,
{ unimplemented!() }
impl<'a, A, B> VxZip<'a, A, B> {
    pub fn enumerate(self) -> (r: VxZipE<'a, A, B>)
        requires self.i == 0,
        ensures r.a == self.a, r.b == self.b, r.i == 0,
    { VxZipE { a: self.a, b: self.b, i: 0 } }
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a A, &'a B)>)
        ensures
            final(self).a == old(self).a, final(self).b == old(self).b,
            old(self).i < old(self).a@.len() && old(self).i < old(self).b@.len() ==> r == Some((&old(self).a@[old(self).i as int], &old(self).b@[old(self).i as int])) && final(self).i == old(self).i + 1,
            !(old(self).i < old(self).a@.len() && old(self).i < old(self).b@.len()) ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
impl<'a, A, B> VxZipE<'a, A, B> {
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, (&'a A, &'a B))>)
        ensures
            final(self).a == old(self).a, final(self).b == old(self).b,
            old(self).i < old(self).a@.len() && old(self).i < old(self).b@.len() ==> r == Some((old(self).i, (&old(self).a@[old(self).i as int], &old(self).b@[old(self).i as int]))) && final(self).i == old(self).i + 1,
            !(old(self).i < old(self).a@.len() && old(self).i < old(self).b@.len()) ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
pub struct VxEnum<'a, T> { pub s: &'a [T], pub i: usize }
#[verifier::external_body]
pub fn vx_enum<'a, T>(s: &'a Vec<T>) -> (r: VxEnum<'a, T>)
    ensures r.s@ == s@, r.i == 0,
{ unimplemented!() }
impl<'a, T> VxEnum<'a, T> {
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r == Some((old(self).i, &old(self).s@[old(self).i as int])) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct VxIntoEnum<T> { pub s: Ghost<Seq<T>>, pub i: usize, pub x: std::marker::PhantomData<T> }
#[verifier::external_body]
pub fn vx_into_enum<T>(s: Vec<T>) -> (r: VxIntoEnum<T>)
    ensures r.s@ == s@, r.i == 0,
{ unimplemented!() }
impl<T> VxIntoEnum<T> {
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, T)>)
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r == Some((old(self).i, old(self).s@[old(self).i as int])) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}

// ---- types: the constructors and queries proved for C05 ----
//@ item ir::types::TypeKind
pub uninterp spec fn tk(t: Type) -> TypeKind;
pub uninterp spec fn ptr_ty(b: Type) -> Type;
pub uninterp spec fn arr_ty(b: Type, n: usize) -> Type;
pub uninterp spec fn unit_ty() -> Type;
pub uninterp spec fn i32_ty() -> Type;
/// i32 is one type (interning, C05)
#[verifier::external_body]
pub proof fn axiom_i32(t: Type)
    ensures (tk(t) is Int32) == (t == i32_ty()),
{}
impl Type {
    #[verifier::external_body]
    pub fn kind(&self) -> (r: &TypeKind)
        ensures
            *r == tk(*self),
            match *r {
                TypeKind::Int32 => *self == i32_ty(),
                TypeKind::Unit => *self == unit_ty(),
                TypeKind::Pointer(b) => *self == ptr_ty(b),
                TypeKind::Array(b, n) => *self == arr_ty(b, n),
                TypeKind::Function(_, _) => true,
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_unit() -> (r: Type)
        ensures r == unit_ty(), tk(r) is Unit,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_i32() -> (r: Type)
        ensures r == i32_ty(), tk(r) is Int32,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_pointer(b: Type) -> (r: Type)
        ensures r == ptr_ty(b), tk(r) == TypeKind::Pointer(b),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_array(b: Type, n: usize, Ghost(vx_ok): Ghost<bool>) -> (r: Type)
        requires n == 0 ==> !vx_ok,
        ensures n != 0, r == arr_ty(b, n), tk(r) == TypeKind::Array(b, n),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_unit(&self) -> (r: bool)
        ensures r == (tk(*self) is Unit),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_i32(&self) -> (r: bool)
        ensures r == (tk(*self) is Int32), r ==> *self == i32_ty(), *self == i32_ty() ==> r,
    { unimplemented!() }
}

// ---- what a builder can ask about the program ----
pub struct Info {
    pub vals: Map<Value, ValueData>,
    pub bbs: Map<BasicBlock, Seq<Value>>,
    pub funcs: Map<Function, Type>,
}
pub open spec fn const_kind(k: ValueKind) -> bool {
    k is Integer || k is ZeroInit || k is Undef || k is Aggregate
}
impl Info {
    pub open spec fn has(self, v: Value) -> bool { self.vals.contains_key(v) }
    pub open spec fn ty(self, v: Value) -> Type { self.vals[v].ty }
    /// `args` can be passed to a block with the given parameters
    pub open spec fn args_match(self, params: Seq<Value>, args: Seq<Value>) -> bool {
        &&& params.len() == args.len()
        &&& forall|i: int| 0 <= i < args.len() ==> self.has(#[trigger] params[i]) && self.has(args[i]) && self.ty(params[i]) == self.ty(args[i])
    }
    pub open spec fn matched(self, params: Seq<Value>, args: Seq<Value>, n: int) -> bool {
        forall|i: int| 0 <= i < n ==> self.has(#[trigger] params[i]) && self.has(args[i]) && self.ty(params[i]) == self.ty(args[i])
    }
    pub open spec fn args_typed(self, tys: Seq<Type>, args: Seq<Value>) -> bool {
        &&& tys.len() == args.len()
        &&& forall|i: int| 0 <= i < args.len() ==> self.has(#[trigger] args[i]) && tys[i] == self.ty(args[i])
    }
    pub open spec fn is_i32(self, v: Value) -> bool { self.has(v) && tk(self.ty(v)) is Int32 }
    pub open spec fn no_params(self, b: BasicBlock) -> bool { self.bbs.contains_key(b) && self.bbs[b].len() == 0 }
}

pub trait EntityInfoQuerier {
    spec fn q(&self) -> Info;
    fn value_type(&self, value: Value, Ghost(vx_ok): Ghost<bool>) -> (r: Type)
        requires !self.q().has(value) ==> !vx_ok,
        ensures self.q().has(value), r == self.q().ty(value);
    fn is_const(&self, value: Value, Ghost(vx_ok): Ghost<bool>) -> (r: bool)
        requires !self.q().has(value) ==> !vx_ok,
        ensures self.q().has(value), r == const_kind(self.q().vals[value].kind);
    fn bb_params(&self, bb: BasicBlock, Ghost(vx_ok): Ghost<bool>) -> (r: &[Value])
        requires !self.q().bbs.contains_key(bb) ==> !vx_ok,
        ensures self.q().bbs.contains_key(bb), r@ == self.q().bbs[bb];
    fn func_type(&self, func: Function, Ghost(vx_ok): Ghost<bool>) -> (r: Type)
        requires !self.q().funcs.contains_key(func) ==> !vx_ok,
        ensures self.q().funcs.contains_key(func), r == self.q().funcs[func];
}

pub trait ValueInserter: Sized {
    /// `self` is `b` after `data` was inserted as `v`
    spec fn recorded(&self, b: Self, data: ValueData, v: Value) -> bool;
    fn insert_value(&mut self, data: ValueData) -> (r: Value)
        ensures final(self).recorded(*old(self), data, r);
}
/// `v` was made by `b`, with the given type and kind and no name
pub open spec fn made<B: ValueInserter>(b: B, v: Value, ty: Type, k: ValueKind) -> bool {
    exists|s: B, d: ValueData| #[trigger] s.recorded(b, d, v) && d.ty == ty && d.kind == k && d.name is None && d.used_by@ == Set::<Value>::empty()
}
pub open spec fn made_data<B: ValueInserter>(b: B, v: Value, d: ValueData) -> bool {
    exists|s: B| #[trigger] s.recorded(b, d, v)
}

// ---- construction of value data ----
pub open spec fn fresh(d: ValueData, ty: Type) -> bool {
    d.ty == ty && d.name is None && d.used_by@ == Set::<Value>::empty()
}
impl ValueData {
//@ fn ir::entities::ValueData::new
    ensures fresh(r, ty), r.kind == kind,
//@ end
}
impl ValueKind {
//@ fn ir::entities::ValueKind::is_const
    ensures r == const_kind(*self),
//@ end
//@ fn ir::entities::ValueKind::is_global_alloc
    ensures r == (*self is GlobalAlloc),
//@ end
}
pub open spec fn is_branch(k: ValueKind, cond: Value, t: BasicBlock, f: BasicBlock, ta: Seq<Value>, fa: Seq<Value>) -> bool {
    match k { ValueKind::Branch(b) => b.cond == cond && b.true_bb == t && b.false_bb == f && b.true_args@ =~= ta && b.false_args@ =~= fa, _ => false }
}
pub open spec fn is_jump(k: ValueKind, t: BasicBlock, args: Seq<Value>) -> bool {
    match k { ValueKind::Jump(j) => j.target == t && j.args@ =~= args, _ => false }
}
impl Integer {
//@ fn ir::values::Integer::new_data
    ensures r.kind == ValueKind::Integer(Integer { value: value }), fresh(r, i32_ty()),
//@ end
}
impl ZeroInit {
//@ fn ir::values::ZeroInit::new_data
    ensures r.kind == ValueKind::ZeroInit(ZeroInit), fresh(r, ty),
//@ end
}
impl Undef {
//@ fn ir::values::Undef::new_data
    ensures r.kind == ValueKind::Undef(Undef), fresh(r, ty),
//@ end
}
impl Aggregate {
//@ fn ir::values::Aggregate::new_data
    ensures r.kind == ValueKind::Aggregate(Aggregate { elems: elems }), fresh(r, ty),
//@ end
}
impl BlockArgRef {
//@ fn ir::values::BlockArgRef::new_data
    ensures r.kind == ValueKind::BlockArgRef(BlockArgRef { index: index }), fresh(r, ty),
//@ end
}
impl FuncArgRef {
//@ fn ir::values::FuncArgRef::new_data
    ensures r.kind == ValueKind::FuncArgRef(FuncArgRef { index: index }), fresh(r, ty),
//@ end
}
impl Alloc {
//@ fn ir::values::Alloc::new_data
    requires !(tk(ty) is Unit),
    ensures r.kind == ValueKind::Alloc(Alloc), fresh(r, ty),
//@ end
}
impl GlobalAlloc {
//@ fn ir::values::GlobalAlloc::new_data
    ensures r.kind == ValueKind::GlobalAlloc(GlobalAlloc { init: init }), fresh(r, ty),
//@ end
}
impl Load {
//@ fn ir::values::Load::new_data
    ensures r.kind == ValueKind::Load(Load { src: src }), fresh(r, ty),
//@ end
}
impl Store {
//@ fn ir::values::Store::new_data
    ensures r.kind == ValueKind::Store(Store { value: value, dest: dest }), fresh(r, unit_ty()),
//@ end
}
impl GetPtr {
//@ fn ir::values::GetPtr::new_data
    ensures r.kind == ValueKind::GetPtr(GetPtr { src: src, index: index }), fresh(r, ty),
//@ end
}
impl GetElemPtr {
//@ fn ir::values::GetElemPtr::new_data
    ensures r.kind == ValueKind::GetElemPtr(GetElemPtr { src: src, index: index }), fresh(r, ty),
//@ end
}
impl Binary {
//@ fn ir::values::Binary::new_data
    ensures r.kind == ValueKind::Binary(Binary { op: op, lhs: lhs, rhs: rhs }), fresh(r, ty),
//@ end
}
impl Branch {
//@ fn ir::values::Branch::new_data
    ensures is_branch(r.kind, cond, true_bb, false_bb, Seq::empty(), Seq::empty()), fresh(r, unit_ty()),
//@ end
}
impl Branch {
//@ fn ir::values::Branch::with_args
    ensures r.kind == ValueKind::Branch(Branch { cond: cond, true_bb: true_bb, false_bb: false_bb, true_args: true_args, false_args: false_args }), fresh(r, unit_ty()),
//@ end
}
impl Jump {
//@ fn ir::values::Jump::new_data
    ensures is_jump(r.kind, target, Seq::empty()), fresh(r, unit_ty()),
//@ end
}
impl Jump {
//@ fn ir::values::Jump::with_args
    ensures r.kind == ValueKind::Jump(Jump { target: target, args: args }), fresh(r, unit_ty()),
//@ end
}
impl Call {
//@ fn ir::values::Call::new_data
    ensures r.kind == ValueKind::Call(Call { callee: callee, args: args }), fresh(r, ty),
//@ end
}
impl Return {
//@ fn ir::values::Return::new_data
    ensures r.kind == ValueKind::Return(Return { value: value }), fresh(r, unit_ty()),
//@ end
}
impl BasicBlockData {
//@ fn ir::entities::BasicBlockData::new
    ensures r.name == name, r.params@ == Seq::<Value>::empty(), r.used_by@ == Set::<Value>::empty(),
//@ end
//@ fn ir::entities::BasicBlockData::with_params
    ensures r.name == name, r.params == params, r.used_by@ == Set::<Value>::empty(),
//@ end
}

// ---- the helpers of the builders ----
//@ fn ir::builder::check_bb_arg_types panics=refuse
    requires !querier.q().args_match(params@, args@) ==> !vx_ok,
    ensures querier.q().args_match(params@, args@),
//@ sig
fn check_bb_arg_types<Q: EntityInfoQuerier>(querier: &Q, params: &[Value], args: &[Value], Ghost(vx_ok): Ghost<bool>)
//@ loop 0
    invariant
        vx_it0.a@ == params@, vx_it0.b@ == args@, 0 <= vx_it0.i <= args@.len(), params@.len() == args@.len(),
        !querier.q().args_match(params@, args@) ==> !vx_ok,
        querier.q().matched(params@, args@, vx_it0.i as int),
    ensures
        querier.q().matched(params@, args@, args@.len() as int),
    decreases args@.len() - vx_it0.i,
//@ end
#[verifier::external_body]
pub fn vx_starts_with(s: &String, c: char) -> (r: bool)
    ensures r == (s@.len() > 0 && s@[0] == c),
{ unimplemented!() }
/// byte length: at least the number of characters
pub uninterp spec fn byte_len(s: Seq<char>) -> int;
#[verifier::external_body]
pub fn vx_str_len(s: &String) -> (r: usize)
    ensures r == byte_len(s@), r >= s@.len(), (s@.len() == 0) == (r == 0), s@.len() == 1 && (s@[0] == '%' || s@[0] == '@') ==> r == 1,
{ unimplemented!() }
/// A name is absent or `%`/`@` followed by at least one more character.
pub open spec fn name_ok(n: Option<String>) -> bool {
    match n {
        None => true,
        Some(s) => s@.len() > 1 && (s@[0] == '%' || s@[0] == '@'),
    }
}
//@ fn ir::builder::check_bb_name panics=refuse
    requires !name_ok(*name) ==> !vx_ok,
    ensures name_ok(*name),
//@ sig
fn check_bb_name(name: &Option<String>, Ghost(vx_ok): Ghost<bool>)
//@ rule __e.as_ref().is_none_or(|__p| __b) => match &__e { Some(__p) => __b, None => true }
//@ rule __e.starts_with('%') => vx_starts_with(__e, '%')
//@ rule __e.starts_with('@') => vx_starts_with(__e, '@')
//@ rule __e.len() => vx_str_len(__e)
//@ end
impl ValueData {
//@ fn ir::entities::ValueData::set_name panics=refuse
    requires !name_ok(name) ==> !vx_ok,
    ensures name_ok(name), *final(self) == (ValueData { name: name, ..*old(self) }),
//@ sig
pub fn set_name(&mut self, name: Option<String>, Ghost(vx_ok): Ghost<bool>)
//@ rule __e.as_ref().is_none_or(|__p| __b) => match &__e { Some(__p) => __b, None => true }
//@ rule __e.starts_with('%') => vx_starts_with(__e, '%')
//@ rule __e.starts_with('@') => vx_starts_with(__e, '@')
//@ rule __e.len() => vx_str_len(__e)
//@ end
}
// ---- the documented rules ----
pub open spec fn ok_integer(q: Info) -> bool {
    true
}
pub open spec fn ok_zero_init(q: Info, ty: Type) -> bool {
    !(tk(ty) is Unit)
}
pub open spec fn ok_undef(q: Info, ty: Type) -> bool {
    !(tk(ty) is Unit)
}
pub open spec fn ok_aggregate(q: Info, elems: Seq<Value>) -> bool {
    &&& elems.len() > 0
    &&& forall|i: int| 0 <= i < elems.len() ==> q.has(#[trigger] elems[i]) && const_kind(q.vals[elems[i]].kind) && q.ty(elems[i]) == q.ty(elems[0])
    &&& !(tk(q.ty(elems[0])) is Unit)
}
pub open spec fn ok_global_alloc(q: Info, init: Value) -> bool {
    q.has(init) && !(tk(q.ty(init)) is Unit)
}
pub open spec fn ok_alloc(q: Info, ty: Type) -> bool {
    !(tk(ty) is Unit)
}
pub open spec fn ok_load(q: Info, src: Value) -> bool {
    q.has(src) && tk(q.ty(src)) is Pointer
}
pub open spec fn ok_store(q: Info, value: Value, dest: Value) -> bool {
    q.has(value) && q.has(dest) && q.ty(dest) == ptr_ty(q.ty(value))
}
pub open spec fn ok_get_ptr(q: Info, src: Value, index: Value) -> bool {
    q.has(src) && tk(q.ty(src)) is Pointer && q.is_i32(index)
}
pub open spec fn ok_get_elem_ptr(q: Info, src: Value, index: Value) -> bool {
    q.is_i32(index) && q.has(src) && match tk(q.ty(src)) { TypeKind::Pointer(a) => tk(a) is Array, _ => false }
}
pub open spec fn ok_binary(q: Info, lhs: Value, rhs: Value) -> bool {
    q.is_i32(lhs) && q.is_i32(rhs)
}
pub open spec fn ok_branch(q: Info, cond: Value, t: BasicBlock, f: BasicBlock) -> bool {
    q.is_i32(cond) && q.no_params(t) && q.no_params(f)
}
pub open spec fn ok_branch_with_args(q: Info, cond: Value, t: BasicBlock, f: BasicBlock, ta: Seq<Value>, fa: Seq<Value>) -> bool {
    &&& q.is_i32(cond)
    &&& t != f || (ta.len() == 0 && fa.len() == 0)
    &&& q.bbs.contains_key(t) && q.args_match(q.bbs[t], ta)
    &&& q.bbs.contains_key(f) && q.args_match(q.bbs[f], fa)
}
pub open spec fn ok_jump(q: Info, t: BasicBlock) -> bool {
    q.no_params(t)
}
pub open spec fn ok_jump_with_args(q: Info, t: BasicBlock, args: Seq<Value>) -> bool {
    q.bbs.contains_key(t) && q.args_match(q.bbs[t], args)
}
pub open spec fn ok_call(q: Info, callee: Function, args: Seq<Value>) -> bool {
    q.funcs.contains_key(callee) && match tk(q.funcs[callee]) { TypeKind::Function(ps, r) => q.args_typed(ps@, args), _ => false }
}
pub open spec fn ok_ret(q: Info, value: Option<Value>) -> bool {
    match value { Some(v) => q.has(v) && !(tk(q.ty(v)) is Unit), None => true }
}

pub trait ValueBuilder: Sized + EntityInfoQuerier + ValueInserter {
//@ fn ir::builder::ValueBuilder::raw panics=refuse nopub
    ensures made_data(self, r, data),
//@ entry
        let ghost vx_ok = true;
//@ end
//@ fn ir::builder::ValueBuilder::integer panics=refuse nopub
    ensures
        ok_integer(self.q()),
        made(self, r, i32_ty(), ValueKind::Integer(Integer { value: value })),
//@ entry
        let ghost vx_ok = ok_integer(self.q());
        let ghost b0 = vx_self;
//@ end
//@ fn ir::builder::ValueBuilder::zero_init panics=refuse nopub
    ensures
        ok_zero_init(self.q(), ty),
        made(self, r, ty, ValueKind::ZeroInit(ZeroInit)),
//@ entry
        let ghost vx_ok = ok_zero_init(self.q(), ty);
        let ghost b0 = vx_self;
//@ end
//@ fn ir::builder::ValueBuilder::undef panics=refuse nopub
    ensures
        ok_undef(self.q(), ty),
        made(self, r, ty, ValueKind::Undef(Undef)),
//@ entry
        let ghost vx_ok = ok_undef(self.q(), ty);
        let ghost b0 = vx_self;
//@ end
//@ fn ir::builder::ValueBuilder::aggregate panics=refuse nopub
    ensures
        ok_aggregate(self.q(), elems@),
        made(self, r, arr_ty(self.q().ty(elems@[0]), elems@.len() as usize), ValueKind::Aggregate(Aggregate { elems: elems })),
//@ entry
        let ghost vx_ok = ok_aggregate(self.q(), elems@);
        let ghost b0 = vx_self;
        let ghost es = elems@;
//@ loop 0
    invariant_except_break
        vx_all,
    invariant
        vx_it0.s@ == elems@, 0 <= vx_it0.i <= elems@.len(), vx_self == b0, elems@ == es,
        vx_ok == ok_aggregate(b0.q(), elems@),
        vx_all ==> forall|k: int| 0 <= k < vx_it0.i ==> b0.q().has(#[trigger] elems@[k]) && const_kind(b0.q().vals[elems@[k]].kind),
        vx_ok ==> vx_all,
    ensures
        vx_all ==> forall|k: int| 0 <= k < elems@.len() ==> b0.q().has(#[trigger] elems@[k]) && const_kind(b0.q().vals[elems@[k]].kind),
    decreases elems@.len() - vx_it0.i,
//@ loop 1
    invariant_except_break
        vx_all,
    invariant
        vx_it1.s@ == elems@, vx_it1.n == 2, 0 <= vx_it1.i <= elems@.len(), vx_self == b0, elems@ == es, elems@.len() > 0,
        vx_ok == ok_aggregate(b0.q(), elems@),
        forall|k: int| 0 <= k < elems@.len() ==> b0.q().has(#[trigger] elems@[k]) && const_kind(b0.q().vals[elems@[k]].kind),
        vx_all ==> vx_it1.i < elems@.len() && forall|k: int| 0 <= k <= vx_it1.i ==> b0.q().ty(#[trigger] elems@[k]) == b0.q().ty(elems@[0]),
        vx_ok ==> vx_all,
    ensures
        vx_all ==> forall|k: int| 0 <= k < elems@.len() ==> b0.q().ty(#[trigger] elems@[k]) == b0.q().ty(elems@[0]),
    decreases elems@.len() - vx_it1.i,
//@ end
}

pub trait GlobalInstBuilder: ValueBuilder {
//@ fn ir::builder::GlobalInstBuilder::global_alloc panics=refuse nopub
    ensures
        ok_global_alloc(self.q(), init),
        made(self, r, ptr_ty(self.q().ty(init)), ValueKind::GlobalAlloc(GlobalAlloc { init: init })),
//@ entry
        let ghost vx_ok = ok_global_alloc(self.q(), init);
        let ghost b0 = vx_self;
//@ end
}

pub trait LocalInstBuilder: ValueBuilder {
//@ fn ir::builder::LocalInstBuilder::alloc panics=refuse nopub
    ensures
        ok_alloc(self.q(), ty),
        made(self, r, ptr_ty(ty), ValueKind::Alloc(Alloc)),
//@ entry
        let ghost vx_ok = ok_alloc(self.q(), ty);
        let ghost b0 = vx_self;
//@ end
//@ fn ir::builder::LocalInstBuilder::load panics=refuse nopub
    ensures
        ok_load(self.q(), src),
        made(self, r, tk(self.q().ty(src))->Pointer_0, ValueKind::Load(Load { src: src })),
//@ entry
        let ghost vx_ok = ok_load(self.q(), src);
        let ghost b0 = vx_self;
//@ end
//@ fn ir::builder::LocalInstBuilder::store panics=refuse nopub
    ensures
        ok_store(self.q(), value, dest),
        made(self, r, unit_ty(), ValueKind::Store(Store { value: value, dest: dest })),
//@ entry
        let ghost vx_ok = ok_store(self.q(), value, dest);
        let ghost b0 = vx_self;
//@ end
//@ fn ir::builder::LocalInstBuilder::get_ptr panics=refuse nopub
    ensures
        ok_get_ptr(self.q(), src, index),
        made(self, r, self.q().ty(src), ValueKind::GetPtr(GetPtr { src: src, index: index })),
//@ entry
        let ghost vx_ok = ok_get_ptr(self.q(), src, index);
        let ghost b0 = vx_self;
//@ end
//@ fn ir::builder::LocalInstBuilder::get_elem_ptr panics=refuse nopub
    ensures
        ok_get_elem_ptr(self.q(), src, index),
        made(self, r, ptr_ty(tk(tk(self.q().ty(src))->Pointer_0)->Array_0), ValueKind::GetElemPtr(GetElemPtr { src: src, index: index })),
//@ entry
        let ghost vx_ok = ok_get_elem_ptr(self.q(), src, index);
        let ghost b0 = vx_self;
//@ end
//@ fn ir::builder::LocalInstBuilder::binary panics=refuse nopub
    ensures
        ok_binary(self.q(), lhs, rhs),
        made(self, r, i32_ty(), ValueKind::Binary(Binary { op: op, lhs: lhs, rhs: rhs })),
//@ entry
        let ghost vx_ok = ok_binary(self.q(), lhs, rhs);
        proof { axiom_i32(self.q().ty(lhs)); axiom_i32(self.q().ty(rhs)); }
        let ghost b0 = vx_self;
//@ end
//@ fn ir::builder::LocalInstBuilder::branch panics=refuse nopub
    ensures
        ok_branch(self.q(), cond, true_bb, false_bb),
        exists|s: Self, d: ValueData| #[trigger] s.recorded(self, d, r) && fresh(d, unit_ty()) && is_branch(d.kind, cond, true_bb, false_bb, Seq::empty(), Seq::empty()),
//@ entry
        let ghost vx_ok = ok_branch(self.q(), cond, true_bb, false_bb);
        let ghost b0 = vx_self;
//@ end
//@ fn ir::builder::LocalInstBuilder::branch_with_args panics=refuse nopub
    ensures
        ok_branch_with_args(self.q(), cond, true_bb, false_bb, true_args@, false_args@),
        made(self, r, unit_ty(), ValueKind::Branch(Branch { cond: cond, true_bb: true_bb, false_bb: false_bb, true_args: true_args, false_args: false_args })),
//@ entry
        let ghost vx_ok = ok_branch_with_args(self.q(), cond, true_bb, false_bb, true_args@, false_args@);
        let ghost b0 = vx_self;
//@ end
//@ fn ir::builder::LocalInstBuilder::jump panics=refuse nopub
    ensures
        ok_jump(self.q(), target),
        exists|s: Self, d: ValueData| #[trigger] s.recorded(self, d, r) && fresh(d, unit_ty()) && is_jump(d.kind, target, Seq::empty()),
//@ entry
        let ghost vx_ok = ok_jump(self.q(), target);
        let ghost b0 = vx_self;
//@ end
//@ fn ir::builder::LocalInstBuilder::jump_with_args panics=refuse nopub
    ensures
        ok_jump_with_args(self.q(), target, args@),
        made(self, r, unit_ty(), ValueKind::Jump(Jump { target: target, args: args })),
//@ entry
        let ghost vx_ok = ok_jump_with_args(self.q(), target, args@);
        let ghost b0 = vx_self;
//@ end
//@ fn ir::builder::LocalInstBuilder::call panics=refuse nopub
    ensures
        ok_call(self.q(), callee, args@),
        made(self, r, tk(self.q().funcs[callee])->Function_1, ValueKind::Call(Call { callee: callee, args: args })),
//@ entry
        let ghost vx_ok = ok_call(self.q(), callee, args@);
        let ghost b0 = vx_self;
        let ghost fps = tk(vx_self.q().funcs[callee])->Function_0@;
//@ loop 0
    invariant
        vx_it0.a@ == fps, vx_it0.b@ == args@, 0 <= vx_it0.i <= fps.len(), vx_self == b0, fps.len() == args@.len(),
        b0.q().funcs.contains_key(callee), tk(b0.q().funcs[callee]) is Function, fps == tk(b0.q().funcs[callee])->Function_0@,
        vx_ok == ok_call(b0.q(), callee, args@),
        forall|k: int| 0 <= k < vx_it0.i ==> b0.q().has(#[trigger] args@[k]) && fps[k] == b0.q().ty(args@[k]),
    ensures
        forall|k: int| 0 <= k < args@.len() ==> b0.q().has(#[trigger] args@[k]) && fps[k] == b0.q().ty(args@[k]),
    decreases args@.len() - vx_it0.i,
//@ end
//@ fn ir::builder::LocalInstBuilder::ret panics=refuse nopub
    ensures
        ok_ret(self.q(), value),
        made(self, r, unit_ty(), ValueKind::Return(Return { value: value })),
//@ entry
        let ghost vx_ok = ok_ret(self.q(), value);
        let ghost b0 = vx_self;
//@ end
}


pub trait BasicBlockBuilder: Sized + ValueInserter {
    spec fn recorded_bb(&self, b: Self, data: BasicBlockData, bb: BasicBlock) -> bool;
    fn insert_bb(&mut self, data: BasicBlockData) -> (r: BasicBlock)
        ensures final(self).recorded_bb(*old(self), data, r);
//@ fn ir::builder::BasicBlockBuilder::basic_block panics=refuse nopub
    ensures
        name_ok(name),
        exists|s: Self, d: BasicBlockData| #[trigger] s.recorded_bb(self, d, r) && d.name == name && d.params@.len() == 0 && d.used_by@ == Set::<Value>::empty(),
//@ entry
        let ghost vx_ok = name_ok(name);
//@ end
//@ fn ir::builder::BasicBlockBuilder::basic_block_with_params panics=refuse nopub
    ensures
        name_ok(name), tys_ok(params_ty@),
        exists|m: Self, s: Self, d: BasicBlockData| #[trigger] s.recorded_bb(m, d, r) && d.name == name && d.used_by@ == Set::<Value>::empty()
            && params_made(self, params_ty@.map_values(|t: Type| (None::<String>, t)), d.params@, m),
//@ entry
        let ghost vx_ok = name_ok(name) && tys_ok(params_ty@);
        let ghost b0 = vx_self;
        let ghost tys = params_ty@;
        let ghost ps = tys.map_values(|t: Type| (None::<String>, t));
//@ loop 0
    invariant_except_break
        vx_all,
    invariant
        vx_it0.s@ == params_ty@, 0 <= vx_it0.i <= tys.len(), vx_self == b0, params_ty@ == tys,
        vx_ok ==> tys_ok(tys), tys_ok(tys) && name_ok(name) ==> vx_ok, name_ok(name),
        vx_all ==> forall|k: int| 0 <= k < vx_it0.i ==> !(tk(#[trigger] tys[k]) is Unit),
        !vx_all ==> !vx_ok,
    ensures
        vx_all ==> forall|k: int| 0 <= k < tys.len() ==> !(tk(#[trigger] tys[k]) is Unit),
    decreases tys.len() - vx_it0.i,
//@ beforeloop 1
        proof { assert(ps.take(0) =~= Seq::empty()); }
//@ loop 1
    invariant
        vx_it1.s@ == tys, 0 <= vx_it1.i <= tys.len(), ps == tys.map_values(|t: Type| (None::<String>, t)),
        params_made(b0, ps.take(vx_it1.i as int), vx_v@, vx_self),
    ensures
        params_made(b0, ps.take(tys.len() as int), vx_v@, vx_self),
    decreases tys.len() - vx_it1.i,
//@ loopstart 1
        let ghost m0 = vx_self; let ghost v0 = vx_v@; let ghost i0 = vx_it1.i; let ghost ty0 = vx_it1.s@[i0 as int];
//@ bodyend 1
        proof { assert(vx_v@.last() == vx_v@[v0.len() as int]); assert(ps[i0 as int].1 == ty0); lemma_params_step(b0, ps, i0 as int, v0, m0, vx_self, vx_v@); }
//@ afterloop 1
        proof { assert(ps.take(tys.len() as int) =~= ps); }
//@ end
//@ fn ir::builder::BasicBlockBuilder::basic_block_with_param_names panics=refuse nopub
    ensures
        name_ok(name), params_ok(params@),
        exists|m: Self, s: Self, d: BasicBlockData| #[trigger] s.recorded_bb(m, d, r) && d.name == name && d.used_by@ == Set::<Value>::empty()
            && params_made(self, params@, d.params@, m),
//@ rule __e.set_name(__n) => __e.set_name(__n, Ghost(vx_ok))
//@ entry
        let ghost ps = params@;
        let ghost vx_ok = name_ok(name) && params_ok(ps);
        let ghost b0 = vx_self;
//@ loop 0
    invariant_except_break
        vx_all,
    invariant
        vx_it0.s@ == params@, 0 <= vx_it0.i <= ps.len(), vx_self == b0, params@ == ps,
        vx_ok == (name_ok(name) && params_ok(ps)), name_ok(name),
        vx_all ==> forall|k: int| 0 <= k < vx_it0.i ==> !(tk((#[trigger] ps[k]).1) is Unit),
        !vx_all ==> !vx_ok,
    ensures
        vx_all ==> forall|k: int| 0 <= k < ps.len() ==> !(tk((#[trigger] ps[k]).1) is Unit),
    decreases ps.len() - vx_it0.i,
//@ beforeloop 1
        proof { assert(ps.take(0) =~= Seq::empty()); }
//@ loop 1
    invariant
        vx_it1.s@ == ps, 0 <= vx_it1.i <= ps.len(), vx_ok == (name_ok(name) && params_ok(ps)), name_ok(name),
        forall|k: int| 0 <= k < vx_it1.i ==> name_ok((#[trigger] ps[k]).0),
        params_made(b0, ps.take(vx_it1.i as int), vx_v@, vx_self),
    ensures
        params_made(b0, ps.take(ps.len() as int), vx_v@, vx_self),
        forall|k: int| 0 <= k < ps.len() ==> name_ok((#[trigger] ps[k]).0),
    decreases ps.len() - vx_it1.i,
//@ loopstart 1
        let ghost m0 = vx_self; let ghost v0 = vx_v@; let ghost i0 = vx_it1.i; let ghost ty0 = vx_it1.s@[i0 as int].1;
//@ bodyend 1
        proof { assert(vx_v@.last() == vx_v@[v0.len() as int]); assert(ps[i0 as int].1 == ty0); lemma_params_step(b0, ps, i0 as int, v0, m0, vx_self, vx_v@); }
//@ afterloop 1
        proof { assert(ps.take(ps.len() as int) =~= ps); }
//@ end
}
pub open spec fn params_ok(ps: Seq<(Option<String>, Type)>) -> bool {
    forall|k: int| 0 <= k < ps.len() ==> name_ok((#[trigger] ps[k]).0) && !(tk(ps[k].1) is Unit)
}
pub proof fn lemma_params_step<B: ValueInserter>(b: B, ps: Seq<(Option<String>, Type)>, i: int, vs: Seq<Value>, m: B, s: B, vs2: Seq<Value>)
    requires
        0 <= i < ps.len(), params_made(b, ps.take(i), vs, m), vs2.len() == vs.len() + 1, vs2.drop_last() =~= vs,
        exists|d: ValueData| #[trigger] s.recorded(m, d, vs2.last()) && d.kind == ValueKind::BlockArgRef(BlockArgRef { index: i as usize }) && d.ty == ps[i].1 && d.name == ps[i].0 && d.used_by@ == Set::<Value>::empty(),
    ensures params_made(b, ps.take(i + 1), vs2, s),
{
    assert(ps.take(i + 1).drop_last() =~= ps.take(i));
    assert(ps.take(i + 1).last() == ps[i]);
    assert(vs2.drop_last() == vs);
    if i == 0 { }
}

/// the parameters were inserted one after the other, numbered from 0, with their types and names
pub open spec fn at<B>(b: B) -> bool { true }
pub open spec fn params_made<B: ValueInserter>(b: B, ps: Seq<(Option<String>, Type)>, vs: Seq<Value>, s: B) -> bool
    decreases ps.len(),
{
    if ps.len() == 0 { vs.len() == 0 && s == b } else {
        vs.len() == ps.len() && exists|m: B, d: ValueData| #![trigger s.recorded(m, d, vs.last())] s.recorded(m, d, vs.last()) && params_made(b, ps.drop_last(), vs.drop_last(), m)
            && d.kind == ValueKind::BlockArgRef(BlockArgRef { index: (ps.len() - 1) as usize }) && d.ty == ps.last().1 && d.name == ps.last().0 && d.used_by@ == Set::<Value>::empty()
    }
}
pub open spec fn tys_ok(tys: Seq<Type>) -> bool {
    forall|k: int| 0 <= k < tys.len() ==> !(tk(#[trigger] tys[k]) is Unit)
}

// ---- the four builders of the crate ----
impl<T> VxWeak<T> {
    pub uninterp spec fn target(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn upgrade(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => self.target() == Some(*x), None => self.target() is None },
    { unimplemented!() }
}
pub open spec fn dfg_info(d: DataFlowGraph) -> Info {
    Info {
        vals: match d.globals.target() { Some(g) => d.values@.union_prefer_right(g@), None => Map::empty() },
        bbs: d.bbs@.map_values(|b: BasicBlockData| b.params@),
        funcs: match d.func_tys.target() { Some(g) => g@, None => Map::empty() },
    }
}
/// the value is in the graph, with the type, kind and name it was built with
pub open spec fn stored(m: Map<Value, ValueData>, old: Map<Value, ValueData>, v: Value, d: ValueData) -> bool {
    &&& m.dom() =~= old.dom().insert(v)
    &&& m[v].ty == d.ty && m[v].kind == d.kind && m[v].name == d.name
    &&& forall|x: Value| old.contains_key(x) && x != v ==> (#[trigger] m[x]).ty == old[x].ty && m[x].kind == old[x].kind && m[x].name == old[x].name
}
pub open spec fn stored_bb(m: Map<BasicBlock, BasicBlockData>, old: Map<BasicBlock, BasicBlockData>, v: BasicBlock, d: BasicBlockData) -> bool {
    &&& m.dom() =~= old.dom().insert(v)
    &&& m[v] == d
    &&& forall|x: BasicBlock| old.contains_key(x) && x != v ==> (#[trigger] m[x]) == old[x]
}
impl DataFlowGraph {
//@ fn ir::dfg::DataFlowGraph::bbs
    ensures *r == self.bbs,
//@ end
    /// C01
    #[verifier::external_body]
    pub fn new_value_data(&mut self, data: ValueData) -> (r: Value)
        ensures stored(final(self).values@, old(self).values@, r, data), !old(self).values@.contains_key(r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace_value_with_data(&mut self, value: Value, data: ValueData) -> (r: ValueData)
        ensures stored(final(self).values@, old(self).values@, value, data),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_bb_data(&mut self, data: BasicBlockData) -> (r: BasicBlock)
        ensures stored_bb(final(self).bbs@, old(self).bbs@, r, data), !old(self).bbs@.contains_key(r), final(self).values == old(self).values,
    { unimplemented!() }
}
impl Program {
    /// C01, C19
    #[verifier::external_body]
    pub fn new_value_data(&mut self, data: ValueData) -> (r: Value)
        ensures stored(final(self).values@, old(self).values@, r, data), !old(self).values@.contains_key(r), final(self).inst_layout == old(self).inst_layout,
    { unimplemented!() }
}
pub trait DfgBasedInfoQuerier {
    spec fn dview(&self) -> DataFlowGraph;
    fn dfg(&self) -> (r: &DataFlowGraph)
        ensures *r == self.dview();
}
impl<T: DfgBasedInfoQuerier> EntityInfoQuerier for T {
    open spec fn q(&self) -> Info { dfg_info(self.dview()) }
//@ fn ir::builder::T@EntityInfoQuerier::value_type panics=refuse nopub
//@ sig
fn value_type(&self, value: Value, Ghost(vx_ok): Ghost<bool>) -> (r: Type)
//@ end
//@ fn ir::builder::T@EntityInfoQuerier::is_const panics=refuse nopub
//@ sig
fn is_const(&self, value: Value, Ghost(vx_ok): Ghost<bool>) -> (r: bool)
//@ rule __e.is_const(__v) => __e.is_const(__v)
//@ end
//@ fn ir::builder::T@EntityInfoQuerier::bb_params panics=refuse nopub
//@ sig
fn bb_params(&self, bb: BasicBlock, Ghost(vx_ok): Ghost<bool>) -> (r: &[Value])
//@ end
//@ fn ir::builder::T@EntityInfoQuerier::func_type panics=refuse nopub
//@ sig
fn func_type(&self, func: Function, Ghost(vx_ok): Ghost<bool>) -> (r: Type)
//@ end
}
//@ item ir::builder::LocalBuilder
//@ item ir::builder::BlockBuilder
//@ item ir::builder::ReplaceBuilder
//@ item ir::builder::GlobalBuilder
impl<'a> DfgBasedInfoQuerier for LocalBuilder<'a> {
    open spec fn dview(&self) -> DataFlowGraph { *self.dfg }
//@ fn ir::builder::LocalBuilder@DfgBasedInfoQuerier::dfg nopub
//@ end
}
impl<'a> ValueInserter for LocalBuilder<'a> {
    open spec fn recorded(&self, b: Self, data: ValueData, v: Value) -> bool {
        stored(self.dfg.values@, b.dfg.values@, v, data) && !b.dfg.values@.contains_key(v)
    }
//@ fn ir::builder::LocalBuilder@ValueInserter::insert_value nopub
//@ end
}
impl<'a> ValueInserter for BlockBuilder<'a> {
    open spec fn recorded(&self, b: Self, data: ValueData, v: Value) -> bool {
        stored(self.dfg.values@, b.dfg.values@, v, data) && !b.dfg.values@.contains_key(v)
    }
//@ fn ir::builder::BlockBuilder@ValueInserter::insert_value nopub
//@ end
}
impl<'a> BasicBlockBuilder for BlockBuilder<'a> {
    open spec fn recorded_bb(&self, b: Self, data: BasicBlockData, bb: BasicBlock) -> bool {
        stored_bb(self.dfg.bbs@, b.dfg.bbs@, bb, data) && !b.dfg.bbs@.contains_key(bb)
    }
//@ fn ir::builder::BlockBuilder@BasicBlockBuilder::insert_bb nopub
//@ end
}
impl<'a> DfgBasedInfoQuerier for ReplaceBuilder<'a> {
    open spec fn dview(&self) -> DataFlowGraph { *self.dfg }
//@ fn ir::builder::ReplaceBuilder@DfgBasedInfoQuerier::dfg nopub
//@ end
}
impl<'a> ValueInserter for ReplaceBuilder<'a> {
    open spec fn recorded(&self, b: Self, data: ValueData, v: Value) -> bool {
        stored(self.dfg.values@, b.dfg.values@, v, data) && v == b.value
    }
//@ fn ir::builder::ReplaceBuilder@ValueInserter::insert_value nopub
//@ end
}
impl<'a> EntityInfoQuerier for GlobalBuilder<'a> {
    open spec fn q(&self) -> Info { Info { vals: self.program.values@, bbs: Map::empty(), funcs: Map::empty() } }
//@ fn ir::builder::GlobalBuilder@EntityInfoQuerier::value_type panics=refuse nopub
//@ sig
fn value_type(&self, value: Value, Ghost(vx_ok): Ghost<bool>) -> (r: Type)
//@ end
//@ fn ir::builder::GlobalBuilder@EntityInfoQuerier::is_const panics=refuse nopub
//@ sig
fn is_const(&self, value: Value, Ghost(vx_ok): Ghost<bool>) -> (r: bool)
//@ end
//@ fn ir::builder::GlobalBuilder@EntityInfoQuerier::bb_params panics=refuse nopub
//@ sig
fn bb_params(&self, bb: BasicBlock, Ghost(vx_ok): Ghost<bool>) -> (r: &[Value])
//@ end
//@ fn ir::builder::GlobalBuilder@EntityInfoQuerier::func_type panics=refuse nopub
//@ sig
fn func_type(&self, func: Function, Ghost(vx_ok): Ghost<bool>) -> (r: Type)
//@ end
}
impl<'a> ValueInserter for GlobalBuilder<'a> {
    open spec fn recorded(&self, b: Self, data: ValueData, v: Value) -> bool {
        &&& stored(self.program.values@, b.program.values@, v, data) && !b.program.values@.contains_key(v)
        &&& self.program.inst_layout@ == (if data.kind is GlobalAlloc { b.program.inst_layout@.push(v) } else { b.program.inst_layout@ })
    }
//@ fn ir::builder::GlobalBuilder@ValueInserter::insert_value nopub
//@ end
}
impl<'a> ValueBuilder for LocalBuilder<'a> {}
impl<'a> LocalInstBuilder for LocalBuilder<'a> {}
impl<'a> ValueBuilder for ReplaceBuilder<'a> {}
impl<'a> LocalInstBuilder for ReplaceBuilder<'a> {}
impl<'a> ValueBuilder for GlobalBuilder<'a> {}
impl<'a> GlobalInstBuilder for GlobalBuilder<'a> {}
} // verus!
fn main() {}
