// ---- shim/progbuild: a program under construction, as seen by the code that builds it ----
// The constructors are the contracts proved for the builders (C06) over the program structure
// (C01, C03, C15): each one's rule for its operands is a precondition, so that the caller has to
// prove that no constructor refuses.
verus! {
//@ rule __e.new_value().integer(__a) => __e.vx_integer(__a)
//@ rule __e.new_value().zero_init(__a) => __e.vx_zero_init(__a)
//@ rule __e.new_value().undef(__a) => __e.vx_undef(__a)
//@ rule __e.new_value().aggregate(__a) => __e.vx_aggregate(__a)
//@ rule __e.new_value().global_alloc(__a) => __e.vx_global_alloc(__a)
//@ rule __e.new_value().alloc(__a) => __e.vx_alloc(__a)
//@ rule __e.new_value().load(__a) => __e.vx_load(__a)
//@ rule __e.new_value().store(__a, __b) => __e.vx_store(__a, __b)
//@ rule __e.new_value().get_ptr(__a, __b) => __e.vx_get_ptr(__a, __b)
//@ rule __e.new_value().get_elem_ptr(__a, __b) => __e.vx_get_elem_ptr(__a, __b)
//@ rule __e.new_value().binary(__o, __a, __b) => __e.vx_binary(__o, __a, __b)
//@ rule __e.new_value().branch_with_args(__a, __b, __c, __d, __f) => __e.vx_branch(__a, __b, __c, __d, __f)
//@ rule __e.new_value().jump_with_args(__a, __b) => __e.vx_jump(__a, __b)
//@ rule __e.new_value().call(__a, __b) => __e.vx_call(__a, __b)
//@ rule __e.new_value().ret(__a) => __e.vx_ret(__a)
//@ rule __e.new_bb().basic_block_with_param_names(__n, __p) => __e.vx_basic_block(__n, __p)
//@ rule __e.layout_mut().bbs_mut().push_key_back(__b).unwrap() => __e.vx_push_bb(__b)
//@ rule __e.layout_mut().bb_mut(__b).insts_mut().push_key_back(__i).unwrap() => __e.vx_push_inst(__b, __i)

// ---- types: C05 ----
//@ item ir::types::TypeKind
pub enum Ty { I32, Unit, Ptr(Box<Ty>), Arr(Box<Ty>, usize), Fun(Seq<Ty>, Box<Ty>) }
#[verifier::external_body]
pub struct Type { x: usize }
pub open spec fn tys(v: Seq<Type>) -> Seq<Ty> { v.map_values(|t: Type| t@) }
pub open spec fn kty(k: TypeKind) -> Ty {
    match k {
        TypeKind::Int32 => Ty::I32,
        TypeKind::Unit => Ty::Unit,
        TypeKind::Pointer(b) => Ty::Ptr(Box::new(b@)),
        TypeKind::Array(b, n) => Ty::Arr(Box::new(b@), n),
        TypeKind::Function(p, r) => Ty::Fun(tys(p@), Box::new(r@)),
    }
}
impl Type {
    pub uninterp spec fn view(&self) -> Ty;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Type) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn kind(&self) -> (r: &TypeKind) ensures kty(*r) == self@, { unimplemented!() }
    #[verifier::external_body]
    pub fn get_unit() -> (r: Type) ensures r@ == Ty::Unit, { unimplemented!() }
    #[verifier::external_body]
    pub fn get_i32() -> (r: Type) ensures r@ == Ty::I32, { unimplemented!() }
    #[verifier::external_body]
    pub fn get_pointer(b: Type) -> (r: Type) ensures r@ == Ty::Ptr(Box::new(b@)), { unimplemented!() }
    #[verifier::external_body]
    pub fn get_array(b: Type, n: usize) -> (r: Type) requires n != 0, ensures r@ == Ty::Arr(Box::new(b@), n), { unimplemented!() }
    #[verifier::external_body]
    pub fn get_function(p: Vec<Type>, ret: Type) -> (r: Type) ensures r@ == Ty::Fun(tys(p@), Box::new(ret@)), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_unit(&self) -> (r: bool) ensures r == (self@ is Unit), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_i32(&self) -> (r: bool) ensures r == (self@ is I32), { unimplemented!() }
}
impl PartialEq for Type {
    #[verifier::external_body]
    fn eq(&self, o: &Type) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Type {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Type) -> bool { self@ == o@ }
}

// ---- handles, values, blocks, functions ----
//@ path ValueId => u32
//@ path BasicBlockId => u32
//@ path FunctionId => u32
//@ item ir::entities::Value #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item ir::entities::BasicBlock #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item ir::entities::Function #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item ir::values::BinaryOp #[derive(Clone, Copy, PartialEq, Eq, Structural)]
impl Value {
    pub uninterp spec fn global(self) -> bool;
    /// C15
    #[verifier::external_body]
    pub fn is_global(&self) -> (r: bool) ensures r == self.global(), { unimplemented!() }
}
pub enum Kd {
    Int(i32), Zero, Undef, Agg(Seq<Value>), FArg(int), BArg(int), Alloc, GAlloc(Value), Load(Value), Store(Value, Value),
    GetPtr(Value, Value), GetElem(Value, Value), Bin(BinaryOp, Value, Value),
    Br(Value, BasicBlock, BasicBlock, Seq<Value>, Seq<Value>), Jump(BasicBlock, Seq<Value>), Call(Function, Seq<Value>), Ret(Option<Value>),
}
pub open spec fn const_kd(k: Kd) -> bool { k is Int || k is Zero || k is Undef || k is Agg }
pub type Name = Option<Seq<char>>;
pub open spec fn nm(n: Option<String>) -> Name { match n { Some(s) => Some(s@), None => None } }
pub open spec fn name_ok(n: Name) -> bool { match n { Some(s) => sym_ok(s), None => true } }
pub struct VM { pub ty: Ty, pub name: Name, pub kind: Kd }
pub struct BM { pub name: Name, pub pars: Seq<Value> }
pub struct FM {
    pub name: Seq<char>, pub ty: Ty, pub pars: Seq<Value>, pub vals: Map<Value, VM>, pub bbs: Map<BasicBlock, BM>,
    pub order: Seq<BasicBlock>, pub body: Map<BasicBlock, Seq<Value>>,
}
pub struct PM { pub gvals: Map<Value, VM>, pub insts: Seq<Value>, pub fns: Map<Function, FM>, pub order: Seq<Function> }
/// what a function sees of its program
pub struct Env { pub gvals: Map<Value, VM>, pub ftys: Map<Function, Ty> }
pub open spec fn env(p: PM) -> Env { Env { gvals: p.gvals, ftys: p.fns.map_values(|f: FM| f.ty) } }
pub struct DM { pub vals: Map<Value, VM>, pub bbs: Map<BasicBlock, BM> }
pub open spec fn dty(vals: Map<Value, VM>, gvals: Map<Value, VM>, v: Value) -> Option<Ty> {
    if vals.contains_key(v) { Some(vals[v].ty) } else if gvals.contains_key(v) { Some(gvals[v].ty) } else { None }
}
/// the types of the parameters of `b`
pub open spec fn par_tys(vals: Map<Value, VM>, pars: Seq<Value>) -> Seq<Ty> { pars.map_values(|p: Value| vals[p].ty) }
/// `xs` can be passed for parameters of types `ts`
pub open spec fn typed(vals: Map<Value, VM>, gvals: Map<Value, VM>, xs: Seq<Value>, ts: Seq<Ty>) -> bool {
    xs.len() == ts.len() && forall|i: int| 0 <= i < xs.len() ==> dty(vals, gvals, #[trigger] xs[i]) == Some(ts[i])
}
pub open spec fn anon(ty: Ty, kind: Kd) -> VM { VM { ty: ty, name: None, kind: kind } }
/// parameters number `i0`.. with the given names and types, all new
pub open spec fn new_pars(v0: Map<Value, VM>, v1: Map<Value, VM>, pars: Seq<Value>, ps: Seq<(Name, Ty)>, block: bool) -> bool {
    &&& pars.len() == ps.len()
    &&& pars.no_duplicates()
    &&& forall|v: Value| #[trigger] v0.contains_key(v) ==> v1.contains_key(v) && v1[v] == v0[v]
    &&& forall|v: Value| #[trigger] v1.contains_key(v) ==> v0.contains_key(v) || pars.contains(v)
    &&& forall|i: int| 0 <= i < pars.len() ==> !v0.contains_key(#[trigger] pars[i]) && !pars[i].global() && v1.contains_key(pars[i])
        && v1[pars[i]] == (VM { ty: ps[i].1, name: ps[i].0, kind: if block { Kd::BArg(i) } else { Kd::FArg(i) } })
}
pub open spec fn nts(v: Seq<(Option<String>, Type)>) -> Seq<(Name, Ty)> { v.map_values(|p: (Option<String>, Type)| (nm(p.0), p.1@)) }
pub open spec fn pars_ok(ps: Seq<(Name, Ty)>) -> bool { forall|i: int| 0 <= i < ps.len() ==> name_ok((#[trigger] ps[i]).0) && !(ps[i].1 is Unit) }
pub open spec fn pty(ps: Seq<(Name, Ty)>) -> Seq<Ty> { ps.map_values(|p: (Name, Ty)| p.1) }

#[verifier::external_body]
pub struct ValueData { x: usize }
impl ValueData {
    pub uninterp spec fn vm(&self) -> VM;
    #[verifier::external_body]
    pub fn ty(&self) -> (r: &Type) ensures r@ == self.vm().ty, { unimplemented!() }
}
#[verifier::external_body]
pub struct BasicBlockData { x: usize }
impl BasicBlockData {
    pub uninterp spec fn bm(&self) -> BM;
    #[verifier::external_body]
    pub fn params(&self) -> (r: &Vec<Value>) ensures r@ == self.bm().pars, { unimplemented!() }
}
#[verifier::external_body]
pub struct DataFlowGraph { x: usize }
pub open spec fn dnew(d0: DM, d1: DM, v: Value, ty: Ty, kind: Kd) -> bool {
    !d0.vals.contains_key(v) && !v.global() && d1 == (DM { vals: d0.vals.insert(v, anon(ty, kind)), bbs: d0.bbs })
}
impl DataFlowGraph {
    pub uninterp spec fn dm(&self) -> DM;
    pub uninterp spec fn env(&self) -> Env;
    pub open spec fn t(&self, v: Value) -> Option<Ty> { dty(self.dm().vals, self.env().gvals, v) }
    pub open spec fn args(&self, b: BasicBlock, xs: Seq<Value>) -> bool {
        self.dm().bbs.contains_key(b) && typed(self.dm().vals, self.env().gvals, xs, par_tys(self.dm().vals, self.dm().bbs[b].pars))
    }
    #[verifier::external_body]
    pub fn value(&self, v: Value) -> (r: &ValueData)
        requires self.dm().vals.contains_key(v),
        ensures r.vm() == self.dm().vals[v],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn bb(&self, b: BasicBlock) -> (r: &BasicBlockData)
        requires self.dm().bbs.contains_key(b),
        ensures r.bm() == self.dm().bbs[b],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_value_name(&mut self, v: Value, name: Option<String>)
        requires old(self).dm().vals.contains_key(v), name_ok(nm(name)),
        ensures final(self).dm() == (DM { vals: old(self).dm().vals.insert(v, VM { name: nm(name), ..old(self).dm().vals[v] }), ..old(self).dm() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_integer(&mut self, i: i32) -> (r: Value)
        ensures dnew(old(self).dm(), final(self).dm(), r, Ty::I32, Kd::Int(i)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_zero_init(&mut self, t: Type) -> (r: Value)
        requires !(t@ is Unit),
        ensures dnew(old(self).dm(), final(self).dm(), r, t@, Kd::Zero),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_undef(&mut self, t: Type) -> (r: Value)
        requires !(t@ is Unit),
        ensures dnew(old(self).dm(), final(self).dm(), r, t@, Kd::Undef),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_aggregate(&mut self, e: Vec<Value>) -> (r: Value)
        requires agg_ok(old(self).dm().vals, old(self).env().gvals, e@),
        ensures dnew(old(self).dm(), final(self).dm(), r, Ty::Arr(Box::new(old(self).t(e@[0])->0), e@.len() as usize), Kd::Agg(e@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_alloc(&mut self, t: Type) -> (r: Value)
        requires !(t@ is Unit),
        ensures dnew(old(self).dm(), final(self).dm(), r, Ty::Ptr(Box::new(t@)), Kd::Alloc),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_load(&mut self, s: Value) -> (r: Value)
        requires old(self).t(s) is Some, old(self).t(s)->0 is Ptr,
        ensures dnew(old(self).dm(), final(self).dm(), r, *(old(self).t(s)->0->Ptr_0), Kd::Load(s)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_store(&mut self, v: Value, d: Value) -> (r: Value)
        requires old(self).t(v) is Some, old(self).t(d) == Some(Ty::Ptr(Box::new(old(self).t(v)->0))),
        ensures dnew(old(self).dm(), final(self).dm(), r, Ty::Unit, Kd::Store(v, d)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get_ptr(&mut self, s: Value, i: Value) -> (r: Value)
        requires old(self).t(s) is Some, old(self).t(s)->0 is Ptr, old(self).t(i) == Some(Ty::I32),
        ensures dnew(old(self).dm(), final(self).dm(), r, old(self).t(s)->0, Kd::GetPtr(s, i)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get_elem_ptr(&mut self, s: Value, i: Value) -> (r: Value)
        requires old(self).t(s) is Some, old(self).t(s)->0 is Ptr, *(old(self).t(s)->0->Ptr_0) is Arr, old(self).t(i) == Some(Ty::I32),
        ensures dnew(old(self).dm(), final(self).dm(), r, Ty::Ptr((*(old(self).t(s)->0->Ptr_0))->Arr_0), Kd::GetElem(s, i)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_binary(&mut self, op: BinaryOp, a: Value, b: Value) -> (r: Value)
        requires old(self).t(a) == Some(Ty::I32), old(self).t(b) == Some(Ty::I32),
        ensures dnew(old(self).dm(), final(self).dm(), r, Ty::I32, Kd::Bin(op, a, b)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_branch(&mut self, c: Value, t: BasicBlock, f: BasicBlock, ta: Vec<Value>, fa: Vec<Value>) -> (r: Value)
        requires old(self).t(c) == Some(Ty::I32), old(self).args(t, ta@), old(self).args(f, fa@), t != f || (ta@.len() == 0 && fa@.len() == 0),
        ensures dnew(old(self).dm(), final(self).dm(), r, Ty::Unit, Kd::Br(c, t, f, ta@, fa@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_jump(&mut self, t: BasicBlock, a: Vec<Value>) -> (r: Value)
        requires old(self).args(t, a@),
        ensures dnew(old(self).dm(), final(self).dm(), r, Ty::Unit, Kd::Jump(t, a@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_call(&mut self, f: Function, a: Vec<Value>) -> (r: Value)
        requires old(self).env().ftys.contains_key(f), old(self).env().ftys[f] is Fun,
            typed(old(self).dm().vals, old(self).env().gvals, a@, old(self).env().ftys[f]->Fun_0),
        ensures dnew(old(self).dm(), final(self).dm(), r, *(old(self).env().ftys[f]->Fun_1), Kd::Call(f, a@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_ret(&mut self, v: Option<Value>) -> (r: Value)
        requires v is Some ==> old(self).t(v->0) is Some && !(old(self).t(v->0)->0 is Unit),
        ensures dnew(old(self).dm(), final(self).dm(), r, Ty::Unit, Kd::Ret(v)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_basic_block(&mut self, name: Option<String>, ps: Vec<(Option<String>, Type)>) -> (r: BasicBlock)
        requires name_ok(nm(name)), pars_ok(nts(ps@)),
        ensures
            !old(self).dm().bbs.contains_key(r),
            final(self).dm().bbs == old(self).dm().bbs.insert(r, BM { name: nm(name), pars: final(self).dm().bbs[r].pars }),
            new_pars(old(self).dm().vals, final(self).dm().vals, final(self).dm().bbs[r].pars, nts(ps@), true),
    { unimplemented!() }
}
pub open spec fn agg_ok(vals: Map<Value, VM>, gvals: Map<Value, VM>, e: Seq<Value>) -> bool {
    &&& e.len() > 0
    &&& forall|i: int| 0 <= i < e.len() ==> dty(vals, gvals, #[trigger] e[i]) is Some && dty(vals, gvals, e[i]) == dty(vals, gvals, e[0])
        && const_kd(if vals.contains_key(e[i]) { vals[e[i]].kind } else { gvals[e[i]].kind })
    &&& !(dty(vals, gvals, e[0])->0 is Unit)
}
#[verifier::external_body]
pub struct FunctionData { x: usize }
impl FunctionData {
    pub uninterp spec fn fm(&self) -> FM;
    pub uninterp spec fn env(&self) -> Env;
    #[verifier::external_body]
    pub fn ty(&self) -> (r: &Type) ensures r@ == self.fm().ty, { unimplemented!() }
    #[verifier::external_body]
    pub fn params(&self) -> (r: &Vec<Value>) ensures r@ == self.fm().pars, { unimplemented!() }
    #[verifier::external_body]
    pub fn dfg(&self) -> (r: &DataFlowGraph)
        ensures r.dm() == (DM { vals: self.fm().vals, bbs: self.fm().bbs }), r.env() == self.env(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn dfg_mut(&mut self) -> (r: &mut DataFlowGraph)
        ensures r.dm() == (DM { vals: old(self).fm().vals, bbs: old(self).fm().bbs }), r.env() == old(self).env(),
            final(self).fm() == (FM { vals: final(r).dm().vals, bbs: final(r).dm().bbs, ..old(self).fm() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_push_bb(&mut self, b: BasicBlock)
        requires !old(self).fm().order.contains(b),
        ensures final(self).fm() == (FM { order: old(self).fm().order.push(b), body: old(self).fm().body.insert(b, Seq::empty()), ..old(self).fm() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_push_inst(&mut self, b: BasicBlock, i: Value)
        requires old(self).fm().order.contains(b), old(self).fm().body.contains_key(b),
            forall|c: BasicBlock| #[trigger] old(self).fm().body.contains_key(c) ==> !old(self).fm().body[c].contains(i),
        ensures final(self).fm() == (FM { body: old(self).fm().body.insert(b, old(self).fm().body[b].push(i)), ..old(self).fm() }),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Program { x: usize }
pub open spec fn pnew(p0: PM, p1: PM, v: Value, ty: Ty, kind: Kd) -> bool {
    !p0.gvals.contains_key(v) && v.global() && p1 == (PM { gvals: p0.gvals.insert(v, anon(ty, kind)), ..p0 })
}
pub open spec fn fresh_fun(fm: FM, name: Seq<char>, ps: Seq<(Name, Ty)>, ret: Ty) -> bool {
    &&& fm.name == name && fm.ty == Ty::Fun(pty(ps), Box::new(ret))
    &&& fm.bbs == Map::<BasicBlock, BM>::empty() && fm.order == Seq::<BasicBlock>::empty() && fm.body == Map::<BasicBlock, Seq<Value>>::empty()
    &&& new_pars(Map::empty(), fm.vals, fm.pars, ps, false)
}
pub open spec fn decl_fun(fm: FM, name: Seq<char>, ps: Seq<Ty>, ret: Ty) -> bool {
    &&& fm.name == name && fm.ty == Ty::Fun(ps, Box::new(ret))
    &&& fm.bbs == Map::<BasicBlock, BM>::empty() && fm.order == Seq::<BasicBlock>::empty() && fm.body == Map::<BasicBlock, Seq<Value>>::empty()
    &&& fm.vals == Map::<Value, VM>::empty() && fm.pars == Seq::<Value>::empty()
}
impl Program {
    pub uninterp spec fn m(&self) -> PM;
    #[verifier::external_body]
    pub fn borrow_value(&self, v: Value) -> (r: &ValueData)
        requires self.m().gvals.contains_key(v),
        ensures r.vm() == self.m().gvals[v],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn func(&self, f: Function) -> (r: &FunctionData)
        requires self.m().fns.contains_key(f),
        ensures r.fm() == self.m().fns[f], r.env() == env(self.m()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn func_mut(&mut self, f: Function) -> (r: &mut FunctionData)
        requires old(self).m().fns.contains_key(f),
        ensures r.fm() == old(self).m().fns[f], r.env() == env(old(self).m()),
            final(self).m() == (PM { fns: old(self).m().fns.insert(f, final(r).fm()), ..old(self).m() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_value_name(&mut self, v: Value, name: Option<String>)
        requires old(self).m().gvals.contains_key(v), name_ok(nm(name)),
        ensures final(self).m() == (PM { gvals: old(self).m().gvals.insert(v, VM { name: nm(name), ..old(self).m().gvals[v] }), ..old(self).m() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_integer(&mut self, i: i32) -> (r: Value)
        ensures pnew(old(self).m(), final(self).m(), r, Ty::I32, Kd::Int(i)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_zero_init(&mut self, t: Type) -> (r: Value)
        requires !(t@ is Unit),
        ensures pnew(old(self).m(), final(self).m(), r, t@, Kd::Zero),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_undef(&mut self, t: Type) -> (r: Value)
        requires !(t@ is Unit),
        ensures pnew(old(self).m(), final(self).m(), r, t@, Kd::Undef),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_aggregate(&mut self, e: Vec<Value>) -> (r: Value)
        requires agg_ok(old(self).m().gvals, Map::empty(), e@),
        ensures pnew(old(self).m(), final(self).m(), r, Ty::Arr(Box::new(old(self).m().gvals[e@[0]].ty), e@.len() as usize), Kd::Agg(e@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_global_alloc(&mut self, i: Value) -> (r: Value)
        requires old(self).m().gvals.contains_key(i), !(old(self).m().gvals[i].ty is Unit),
        ensures
            !old(self).m().gvals.contains_key(r), r.global(),
            final(self).m() == (PM {
                gvals: old(self).m().gvals.insert(r, anon(Ty::Ptr(Box::new(old(self).m().gvals[i].ty)), Kd::GAlloc(i))),
                insts: old(self).m().insts.push(r), ..old(self).m() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_func_def_with_param_names(&mut self, name: String, ps: Vec<(Option<String>, Type)>, ret: Type) -> (r: Function)
        requires sym_ok(name@), pars_ok(nts(ps@)),
        ensures
            !old(self).m().fns.contains_key(r),
            final(self).m() == (PM { fns: old(self).m().fns.insert(r, final(self).m().fns[r]), order: old(self).m().order.push(r), ..old(self).m() }),
            fresh_fun(final(self).m().fns[r], name@, nts(ps@), ret@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_func_decl(&mut self, name: String, ps: Vec<Type>, ret: Type) -> (r: Function)
        requires sym_ok(name@), forall|i: int| 0 <= i < tys(ps@).len() ==> !((#[trigger] tys(ps@)[i]) is Unit),
        ensures
            !old(self).m().fns.contains_key(r),
            final(self).m() == (PM { fns: old(self).m().fns.insert(r, final(self).m().fns[r]), order: old(self).m().order.push(r), ..old(self).m() }),
            decl_fun(final(self).m().fns[r], name@, tys(ps@), ret@),
    { unimplemented!() }
}
} // verus!
