//@ include shim/base.vx
//@ path BinaryOp => BinaryOp
//@ source koopa
//@ include shim/progbuild.vx
//@ source libkoopa
//@ include shim/rawread.vx
// ---- C13: reading a raw program back ----
// `raw_ok` says of the memory that it holds the image of a valid program (types, names, operands,
// ownership), which is what C13's builder contracts establish. Under it every function of the
// reader succeeds, no constructor refuses, and what it adds to the program is the image of what
// it read: kinds, operands, types, names, block and parameter lists, one object per raw object.
//@ type Result<__T> => Result<__T, ErrorCode>
//@ rule __a.map(|__p| __retb).collect()? => { let mut vx_v: Vec<(Option<String>, Type)> = Vec::new(); for __p in __a { vx_v.push(match __retb { Ok(vx_x) => vx_x, Err(vx_e) => return Err(vx_e) }); } vx_v }
//@ rule __e? => match __e { Ok(vx_x) => vx_x, Err(vx_e) => return Err(vx_e) }
//@ rule __c.then(|| __e) => if __c { Some(__e) } else { None }
//@ rule __e.or_else(|| __f) => match __e { Some(vx_x) => Some(vx_x), None => __f }
//@ rule __e.transpose() => match __e { Some(Ok(vx_x)) => Ok(Some(vx_x)), Some(Err(vx_e)) => Err(vx_e), None => Ok(None) }
//@ rule __e as *const PAny => __e
//@ rule *__b.add(__i) => vx_cell(__b, __i)
//@ rule {CStr::from_ptr(*self)}.to_str().map(|s| s.into()).map_err(|_| __g) => match vx_cstr(*self) { Ok(vx_x) => Ok(vx_x), Err(_) => Err(__g) }
//@ rule __a.into_iter().zip(__b) => vx_zip_tp(&__a, __b)
//@ rule __a.zip(__b.iter().copied()) => vx_zip_pc(__a, __b)
//@ rule vx_zip_pc(__a, __b).collect() => vx_zip_map(__a, __b)
//@ rule __a.zip(__b) => vx_zip_pv(__a, __b)
//@ rule vx_zip_pv(__a, __b).for_each(|(__k, __v)| { __m.insert(__k, *__v); }) => vx_zip_into(&mut __m, __a, __b)
//@ rule __e.bb_mut(__b).insts_mut().push_key_back(__i).unwrap() => __e.vx_push_inst(__b, __i)
//@ rule __e.bbs_mut().push_key_back(__b).unwrap() => __e.vx_push_bb(__b)
//@ rule __e.unwrap_string() => vx_unwrap_string(__e)
//@ rule replace(&mut __a, __b) => vx_replace(&mut __a, __b)
//@ rule null() => vx_nullf()
//@ rule &*p => vx_mv(&p)
//@ rule b.integer(__a) => b.vx_integer(__a)
//@ rule b.zero_init(__a) => b.vx_zero_init(__a)
//@ rule b.undef(__a) => b.vx_undef(__a)
//@ rule b.aggregate(__a) => b.vx_aggregate(__a)
//@ rule __e.ok_or(__f) => match __e { Some(vx_x) => Ok(vx_x), None => Err(__f) }
verus! {
impl Program {
    /// `ValueBuilder`s are the place the value goes to
    pub fn new_value(&mut self) -> (r: &mut Program) ensures *r == *old(self), *final(self) == *final(r), { self }
}
impl DataFlowGraph {
    pub fn new_value(&mut self) -> (r: &mut DataFlowGraph) ensures *r == *old(self), *final(self) == *final(r), { self }
}
impl FunctionData {
    pub fn layout_mut(&mut self) -> (r: &mut FunctionData) ensures *r == *old(self), *final(self) == *final(r), { self }
}
/// `Type` and `Vec<Type>` are `Clone`
pub trait VxClone: Sized { spec fn same(&self, o: Self) -> bool; fn vx_clone(&self) -> (r: Self) ensures self.same(r); }
impl VxClone for Type {
    open spec fn same(&self, o: Self) -> bool { o@ == self@ }
    fn vx_clone(&self) -> Type { self.clone() }
}
impl VxClone for Vec<Type> {
    open spec fn same(&self, o: Self) -> bool { tys(o@) == tys(self@) }
    fn vx_clone(&self) -> Vec<Type> {
        let mut v: Vec<Type> = Vec::new();
        let mut i = 0;
        while i < self.len()
            invariant i <= self.len(), v.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] v@[j])@ == self@[j]@,
            decreases self.len() - i,
        { v.push(self[i].clone()); i += 1; }
        proof { assert(tys(v@) =~= tys(self@)); }
        v
    }
}
/// `std::mem::replace`
pub fn vx_replace<T: Copy>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b, { let r = *a; *a = b; r }
/// refusing where the specification allows it
#[verifier::external_body]
pub fn vx_refuse(Ghost(vx_ok): Ghost<bool>) -> ! requires !vx_ok, ensures false, { unimplemented!() }
pub open spec fn sym_ok(s: Seq<char>) -> bool { s.len() > 1 && (s[0] == '%' || s[0] == '@') }
//@ item errors::ErrorCode
pub struct PhantomData<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
pub fn vx_phantom<T>() -> PhantomData<T> { unimplemented!() }
//@ rule PhantomData => vx_phantom()
//@ item raw::generator::ProgramInfo
//@ item raw::generator::FunctionInfo
//@ item raw::generator::RawSliceIter

// ---- the raw program ----
/// the type a raw type object stands for
pub uninterp spec fn rty(p: PTy) -> Ty;
/// the type objects, functions, blocks and values of the program; values and blocks with the
/// function they are in (null: global values)
pub uninterp spec fn okt(p: PTy) -> bool;
pub uninterp spec fn okf(p: PFn) -> bool;
pub uninterp spec fn okb(c: PFn, p: PBb) -> bool;
pub uninterp spec fn okv(c: PFn, p: PVal) -> bool;
/// the values in the program's list of globals
pub uninterp spec fn gl(p: PVal) -> bool;
/// the block an instruction or a block parameter belongs to
pub uninterp spec fn home(p: PVal) -> PBb;
/// operands come before the values that use them
pub uninterp spec fn rk(p: PVal) -> nat;

pub open spec fn gv(p: PVal) -> bool { okv(nullf(), p) }
pub open spec fn oty(p: PVal) -> Ty { rty(mv(p).ty) }
pub open spec fn unit(p: PVal) -> bool { oty(p) is Unit }
pub open spec fn rnm(p: PStr) -> Name { if p.a == 0 { None } else { mstr(p) } }
pub open spec fn rname_ok(p: PStr) -> bool { p.a == 0 || (mstr(p) is Some && sym_ok(mstr(p)->0)) }
pub open spec fn rtys(s: Seq<PTy>) -> Seq<Ty> { s.map_values(|p: PTy| rty(p)) }
pub open spec fn otys(s: Seq<PVal>) -> Seq<Ty> { s.map_values(|p: PVal| oty(p)) }
/// `q` can be an operand in `c`
pub open spec fn opv(c: PFn, q: PVal) -> bool { !unit(q) && (if c == nullf() { gv(q) && const_rk(mv(q).kind) } else { (okv(c, q) && !gv(q)) || gl(q) }) }
pub open spec fn opvs(c: PFn, s: Seq<PVal>) -> bool { forall|i: int| 0 <= i < s.len() ==> opv(c, #[trigger] s[i]) }
pub open spec fn vals(s: RawSlice) -> Seq<PVal> { sl::<PVal>(s) }
pub open spec fn vslice(s: RawSlice) -> bool { s.kind is Value }
pub open spec fn const_rk(k: RawValueKind) -> bool { k is Integer || k is ZeroInit || k is Undef || k is Aggregate }

pub open spec fn t_ok(p: PTy) -> bool {
    match mt(p) {
        RawTypeKind::Int32 => rty(p) == Ty::I32,
        RawTypeKind::Unit => rty(p) == Ty::Unit,
        RawTypeKind::Array(b, n) => okt(b) && n != 0 && rty(p) == Ty::Arr(Box::new(rty(b)), n),
        RawTypeKind::Pointer(b) => okt(b) && rty(p) == Ty::Ptr(Box::new(rty(b))),
        RawTypeKind::Function(ps, r) => ps.kind is Type && okt(r) && rty(p) == Ty::Fun(rtys(sl(ps)), Box::new(rty(r)))
            && forall|i: int| 0 <= i < ps.len ==> okt(#[trigger] sl::<PTy>(ps)[i]),
    }
}
pub open spec fn agg_rok(c: PFn, e: Seq<PVal>) -> bool {
    &&& e.len() > 0 && opvs(c, e)
    &&& forall|i: int| 0 <= i < e.len() ==> oty(#[trigger] e[i]) == oty(e[0]) && const_rk(mv(e[i]).kind)
}
pub open spec fn tgt_ok(c: PFn, b: PBb, s: RawSlice) -> bool {
    okb(c, b) && vslice(s) && opvs(c, vals(s)) && otys(vals(s)) == otys(vals(mb(b).params))
}
/// the operands of a value
pub open spec fn ops(k: RawValueKind) -> Seq<PVal> {
    match k {
        RawValueKind::Aggregate(x) => vals(x.elems),
        RawValueKind::GlobalAlloc(x) => seq![x.init],
        RawValueKind::Load(x) => seq![x.src],
        RawValueKind::Store(x) => seq![x.value, x.dest],
        RawValueKind::GetPtr(x) => seq![x.src, x.index],
        RawValueKind::GetElemPtr(x) => seq![x.src, x.index],
        RawValueKind::Binary(x) => seq![x.lhs, x.rhs],
        RawValueKind::Call(x) => vals(x.args),
        RawValueKind::Return(x) => if x.value.a == 0 { Seq::empty() } else { seq![x.value] },
        _ => Seq::empty(),
    }
}
/// what the reader relies on for a value of kind `k` and type `t`
pub open spec fn k_ok(c: PFn, k: RawValueKind, t: Ty) -> bool {
    let l = c != nullf();
    match k {
        RawValueKind::Integer(x) => t == Ty::I32,
        RawValueKind::ZeroInit => !(t is Unit),
        RawValueKind::Undef => !(t is Unit),
        RawValueKind::Aggregate(x) => vslice(x.elems) && agg_rok(c, vals(x.elems)) && t == Ty::Arr(Box::new(oty(vals(x.elems)[0])), x.elems.len as usize),
        RawValueKind::FuncArgRef(_) => l,
        RawValueKind::BlockArgRef(_) => l,
        RawValueKind::Alloc => l && t is Ptr && !(*t->Ptr_0 is Unit),
        RawValueKind::GlobalAlloc(x) => !l && opv(c, x.init) && t == Ty::Ptr(Box::new(oty(x.init))),
        RawValueKind::Load(x) => l && opv(c, x.src) && oty(x.src) == Ty::Ptr(Box::new(t)),
        RawValueKind::Store(x) => l && opv(c, x.value) && opv(c, x.dest) && oty(x.dest) == Ty::Ptr(Box::new(oty(x.value))) && t is Unit,
        RawValueKind::GetPtr(x) => l && opv(c, x.src) && opv(c, x.index) && oty(x.src) is Ptr && oty(x.index) is I32 && t == oty(x.src),
        RawValueKind::GetElemPtr(x) => l && opv(c, x.src) && opv(c, x.index) && oty(x.src) is Ptr && *(oty(x.src)->Ptr_0) is Arr && oty(x.index) is I32
            && t == Ty::Ptr((*(oty(x.src)->Ptr_0))->Arr_0),
        RawValueKind::Binary(x) => l && opv(c, x.lhs) && opv(c, x.rhs) && oty(x.lhs) is I32 && oty(x.rhs) is I32 && t == Ty::I32,
        RawValueKind::Branch(x) => l && opv(c, x.cond) && oty(x.cond) is I32 && tgt_ok(c, x.true_bb, x.true_args) && tgt_ok(c, x.false_bb, x.false_args)
            && (x.true_bb != x.false_bb || (x.true_args.len == 0 && x.false_args.len == 0)) && t is Unit,
        RawValueKind::Jump(x) => l && tgt_ok(c, x.target, x.args) && t is Unit,
        RawValueKind::Call(x) => l && okf(x.callee) && vslice(x.args) && opvs(c, vals(x.args)) && rty(mf(x.callee).ty) is Fun
            && otys(vals(x.args)) == rty(mf(x.callee).ty)->Fun_0 && t == *(rty(mf(x.callee).ty)->Fun_1),
        RawValueKind::Return(x) => l && (x.value.a == 0 || opv(c, x.value)) && t is Unit,
    }
}
pub open spec fn v_ok(c: PFn, p: PVal) -> bool {
    &&& okt(mv(p).ty) && rname_ok(mv(p).name)
    &&& k_ok(c, mv(p).kind, oty(p))
    &&& forall|i: int| 0 <= i < ops(mv(p).kind).len() ==> rk(#[trigger] ops(mv(p).kind)[i]) < rk(p)
    &&& c != nullf() ==> !gv(p)
    &&& mv(p).kind is FuncArgRef ==> vals(mf(c).params).contains(p)
}
pub open spec fn f_ok(f: PFn) -> bool {
    let d = mf(f);
    &&& f.a != 0 && okt(d.ty) && rname_ok(d.name) && d.name.a != 0
    &&& rty(d.ty) is Fun && forall|i: int| 0 <= i < (rty(d.ty)->Fun_0).len() ==> !((#[trigger] (rty(d.ty)->Fun_0)[i]) is Unit)
    &&& vslice(d.params) && d.bbs.kind is BasicBlock
    &&& d.bbs.len == 0 ==> d.params.len == 0
    &&& d.bbs.len != 0 ==> {
        &&& otys(vals(d.params)) == rty(d.ty)->Fun_0
        &&& vals(d.params).no_duplicates() && sl::<PBb>(d.bbs).no_duplicates()
        &&& forall|i: int| 0 <= i < d.params.len ==> okv(f, #[trigger] vals(d.params)[i]) && rname_ok(mv(vals(d.params)[i]).name)
            && mv(vals(d.params)[i]).kind == RawValueKind::FuncArgRef(RawFuncArgRef { index: i as usize })
    }
    &&& forall|i: int| 0 <= i < d.bbs.len ==> okb(f, #[trigger] sl::<PBb>(d.bbs)[i])
}
pub open spec fn b_ok(c: PFn, b: PBb) -> bool {
    let d = mb(b);
    &&& c != nullf() && rname_ok(d.name) && vslice(d.params) && vslice(d.insts)
    &&& sl::<PBb>(mf(c).bbs).contains(b)
    &&& vals(d.params).no_duplicates() && vals(d.insts).no_duplicates()
    &&& forall|i: int| 0 <= i < d.params.len ==> okv(c, #[trigger] vals(d.params)[i]) && home(vals(d.params)[i]) == b && !unit(vals(d.params)[i])
        && okt(mv(vals(d.params)[i]).ty) && rname_ok(mv(vals(d.params)[i]).name)
        && mv(vals(d.params)[i]).kind == RawValueKind::BlockArgRef(RawBlockArgRef { index: i as usize })
    &&& forall|i: int| 0 <= i < d.insts.len ==> okv(c, #[trigger] vals(d.insts)[i]) && home(vals(d.insts)[i]) == b
        && !(mv(vals(d.insts)[i]).kind is BlockArgRef) && !(mv(vals(d.insts)[i]).kind is FuncArgRef)
}
#[verifier::opaque]
pub open spec fn raw_ok() -> bool {
    &&& forall|p: PTy| #[trigger] okt(p) ==> t_ok(p)
    &&& forall|f: PFn| #[trigger] okf(f) ==> f_ok(f)
    &&& forall|c: PFn, b: PBb| #[trigger] okb(c, b) ==> b_ok(c, b)
    &&& forall|c: PFn, p: PVal| #[trigger] okv(c, p) ==> v_ok(c, p)
    &&& forall|p: PVal| #[trigger] gl(p) ==> gv(p)
}
pub proof fn use_t(p: PTy) requires raw_ok(), okt(p), ensures t_ok(p), { reveal(raw_ok); }
pub proof fn use_f(f: PFn) requires raw_ok(), okf(f), ensures f_ok(f), { reveal(raw_ok); }
pub proof fn use_b(c: PFn, b: PBb) requires raw_ok(), okb(c, b), ensures b_ok(c, b), { reveal(raw_ok); }
pub proof fn use_v(c: PFn, p: PVal) requires raw_ok(), okv(c, p), ensures v_ok(c, p), { reveal(raw_ok); }
pub proof fn use_gl(p: PVal) requires raw_ok(), gl(p), ensures gv(p), { reveal(raw_ok); }

// ---- the state of the reader ----
pub struct FI { pub func: Function, pub bbs: Map<PBb, BasicBlock>, pub vals: Map<PVal, Value> }
pub struct ST { pub pm: PM, pub gm: Map<PVal, Value>, pub fs: Map<PFn, FI>, pub cur: PFn }
impl FunctionInfo {
    pub open spec fn v(&self) -> FI { FI { func: self.func, bbs: self.bbs@, vals: self.values@ } }
}
pub open spec fn fmap(m: Map<PFn, FunctionInfo>) -> Map<PFn, FI> { m.map_values(|x: FunctionInfo| x.v()) }
pub open spec fn st(p: Program, i: ProgramInfo) -> ST { ST { pm: p.m(), gm: i.values@, fs: fmap(i.funcs@), cur: i.cur_func } }

pub open spec fn vmap(s: ST, c: PFn) -> Map<PVal, Value> {
    if c == nullf() { s.gm } else if s.fs.contains_key(c) { s.fs[c].vals } else { Map::empty() }
}
pub open spec fn get<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
/// the value read for `q`, as seen in `c`
pub open spec fn lk(s: ST, c: PFn, q: PVal) -> Option<Value> { get(vmap(s, if gv(q) { nullf() } else { c }), q) }
pub open spec fn lks(s: ST, c: PFn, q: Seq<PVal>, v: Seq<Value>) -> bool {
    q.len() == v.len() && forall|i: int| 0 <= i < q.len() ==> lk(s, c, #[trigger] q[i]) == Some(v[i])
}
pub open spec fn lb(s: ST, c: PFn, b: PBb) -> Option<BasicBlock> { if s.fs.contains_key(c) { get(s.fs[c].bbs, b) } else { None } }
pub open spec fn lf(s: ST, f: PFn) -> Option<Function> { if s.fs.contains_key(f) { Some(s.fs[f].func) } else { None } }
pub open spec fn fmd(s: ST, c: PFn) -> FM { s.pm.fns[s.fs[c].func] }
/// the values of the program that `c` holds
pub open spec fn dv(s: ST, c: PFn) -> Map<Value, VM> { if c == nullf() { s.pm.gvals } else { fmd(s, c).vals } }

pub open spec fn bop(o: RawBinaryOp) -> BinaryOp {
    match o {
        RawBinaryOp::NotEq => BinaryOp::NotEq, RawBinaryOp::Eq => BinaryOp::Eq, RawBinaryOp::Gt => BinaryOp::Gt,
        RawBinaryOp::Lt => BinaryOp::Lt, RawBinaryOp::Ge => BinaryOp::Ge, RawBinaryOp::Le => BinaryOp::Le,
        RawBinaryOp::Add => BinaryOp::Add, RawBinaryOp::Sub => BinaryOp::Sub, RawBinaryOp::Mul => BinaryOp::Mul,
        RawBinaryOp::Div => BinaryOp::Div, RawBinaryOp::Mod => BinaryOp::Mod, RawBinaryOp::And => BinaryOp::And,
        RawBinaryOp::Or => BinaryOp::Or, RawBinaryOp::Xor => BinaryOp::Xor, RawBinaryOp::Shl => BinaryOp::Shl,
        RawBinaryOp::Shr => BinaryOp::Shr, RawBinaryOp::Sar => BinaryOp::Sar,
    }
}
/// `k` is the image of the raw kind `r`
pub open spec fn kimg(s: ST, c: PFn, r: RawValueKind, k: Kd) -> bool {
    match r {
        RawValueKind::Integer(x) => k == Kd::Int(x.value),
        RawValueKind::ZeroInit => k is Zero,
        RawValueKind::Undef => k is Undef,
        RawValueKind::Aggregate(x) => k is Agg && lks(s, c, vals(x.elems), k->Agg_0),
        RawValueKind::FuncArgRef(x) => k == Kd::FArg(x.index as int),
        RawValueKind::BlockArgRef(x) => k == Kd::BArg(x.index as int),
        RawValueKind::Alloc => k is Alloc,
        RawValueKind::GlobalAlloc(x) => k is GAlloc && lk(s, c, x.init) == Some(k->GAlloc_0),
        RawValueKind::Load(x) => k is Load && lk(s, c, x.src) == Some(k->Load_0),
        RawValueKind::Store(x) => k is Store && lk(s, c, x.value) == Some(k->Store_0) && lk(s, c, x.dest) == Some(k->Store_1),
        RawValueKind::GetPtr(x) => k is GetPtr && lk(s, c, x.src) == Some(k->GetPtr_0) && lk(s, c, x.index) == Some(k->GetPtr_1),
        RawValueKind::GetElemPtr(x) => k is GetElem && lk(s, c, x.src) == Some(k->GetElem_0) && lk(s, c, x.index) == Some(k->GetElem_1),
        RawValueKind::Binary(x) => k is Bin && k->Bin_0 == bop(x.op) && lk(s, c, x.lhs) == Some(k->Bin_1) && lk(s, c, x.rhs) == Some(k->Bin_2),
        RawValueKind::Branch(x) => k is Br && lk(s, c, x.cond) == Some(k->Br_0) && lb(s, c, x.true_bb) == Some(k->Br_1) && lb(s, c, x.false_bb) == Some(k->Br_2)
            && lks(s, c, vals(x.true_args), k->Br_3) && lks(s, c, vals(x.false_args), k->Br_4),
        RawValueKind::Jump(x) => k is Jump && lb(s, c, x.target) == Some(k->Jump_0) && lks(s, c, vals(x.args), k->Jump_1),
        RawValueKind::Call(x) => k is Call && lf(s, x.callee) == Some(k->Call_0) && lks(s, c, vals(x.args), k->Call_1),
        RawValueKind::Return(x) => k is Ret && (if x.value.a == 0 { k->Ret_0 is None } else { k->Ret_0 is Some && lk(s, c, x.value) == k->Ret_0 }),
    }
}
/// the mapped value `p` is in the program, as its image
pub open spec fn vin(s: ST, c: PFn, p: PVal) -> bool {
    let v = vmap(s, c)[p];
    &&& okv(c, p) && dv(s, c).contains_key(v) && v.global() == (c == nullf())
    &&& dv(s, c)[v].ty == oty(p) && dv(s, c)[v].name == rnm(mv(p).name) && kimg(s, c, mv(p).kind, dv(s, c)[v].kind)
    &&& c != nullf() && mv(p).kind is BlockArgRef ==> s.fs[c].bbs.contains_key(home(p))
}
pub open spec fn bimg(s: ST, c: PFn, v: BasicBlock) -> bool { exists|b: PBb| #[trigger] s.fs[c].bbs.contains_key(b) && s.fs[c].bbs[b] == v }
pub open spec fn bin(s: ST, c: PFn, b: PBb) -> bool {
    let v = s.fs[c].bbs[b];
    let m = fmd(s, c);
    &&& okb(c, b) && m.bbs.contains_key(v) && m.bbs[v].name == rnm(mb(b).name)
    &&& m.order.contains(v) && m.body.contains_key(v)
    &&& m.bbs[v].pars.len() == mb(b).params.len
    &&& forall|i: int| 0 <= i < mb(b).params.len ==> get(s.fs[c].vals, #[trigger] vals(mb(b).params)[i]) == Some(m.bbs[v].pars[i])
    &&& m.body[v].len() <= mb(b).insts.len
    &&& forall|i: int| 0 <= i < m.body[v].len() ==> get(s.fs[c].vals, #[trigger] vals(mb(b).insts)[i]) == Some(m.body[v][i])
}
pub open spec fn inj<K, V>(m: Map<K, V>) -> bool {
    forall|a: K, b: K| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(b) && m[a] == m[b] ==> a == b
}
pub open spec fn vimg(s: ST, c: PFn, v: Value) -> bool { exists|p: PVal| #[trigger] vmap(s, c).contains_key(p) && vmap(s, c)[p] == v }
/// the values of `c`: the mapped ones and their images, and nothing else
#[verifier::opaque]
pub open spec fn wv(s: ST, c: PFn) -> bool {
    &&& forall|p: PVal| #[trigger] vmap(s, c).contains_key(p) ==> vin(s, c, p)
    &&& inj(vmap(s, c))
    &&& forall|v: Value| #[trigger] dv(s, c).contains_key(v) ==> vimg(s, c, v) && v.global() == (c == nullf())
}
/// the blocks of a function
#[verifier::opaque]
pub open spec fn wb(s: ST, c: PFn) -> bool {
    let m = fmd(s, c);
    &&& forall|b: PBb| #[trigger] s.fs[c].bbs.contains_key(b) ==> bin(s, c, b)
    &&& inj(s.fs[c].bbs)
    &&& m.order.no_duplicates()
    &&& forall|i: int| 0 <= i < m.order.len() ==> bimg(s, c, #[trigger] m.order[i])
    &&& forall|v: BasicBlock| #[trigger] m.body.contains_key(v) ==> bimg(s, c, v)
    &&& forall|v: BasicBlock| #[trigger] m.bbs.contains_key(v) ==> bimg(s, c, v)
    &&& m.order.len() > 0 ==> sl::<PBb>(mf(c).bbs).len() > 0 && lb(s, c, sl::<PBb>(mf(c).bbs)[0]) == Some(m.order[0])
}
/// the function itself
#[verifier::opaque]
pub open spec fn wf(s: ST, c: PFn) -> bool {
    let m = fmd(s, c);
    &&& okf(c) && s.pm.fns.contains_key(s.fs[c].func) && s.pm.order.contains(s.fs[c].func)
    &&& mstr(mf(c).name) == Some(m.name) && m.ty == rty(mf(c).ty)
    &&& m.pars.len() == mf(c).params.len
    &&& forall|i: int| 0 <= i < mf(c).params.len ==> get(s.fs[c].vals, #[trigger] vals(mf(c).params)[i]) == Some(m.pars[i])
}
pub open spec fn fimg(s: ST, v: Function) -> bool { exists|f: PFn| #[trigger] s.fs.contains_key(f) && s.fs[f].func == v }
#[verifier::opaque]
pub open spec fn wo(s: ST) -> bool {
    &&& forall|a: PFn, b: PFn| #[trigger] s.fs.contains_key(a) && #[trigger] s.fs.contains_key(b) && s.fs[a].func == s.fs[b].func ==> a == b
    &&& s.pm.order.no_duplicates()
    &&& forall|i: int| 0 <= i < s.pm.order.len() ==> fimg(s, #[trigger] s.pm.order[i])
    &&& forall|f: PFn| #[trigger] s.fs.contains_key(f) ==> f != nullf()
    &&& forall|v: Function| #[trigger] s.pm.fns.contains_key(v) ==> fimg(s, v)
}
/// the global allocations that were read are among the instances of the program
#[verifier::opaque]
pub open spec fn wi(s: ST) -> bool {
    forall|p: PVal| #[trigger] s.gm.contains_key(p) && mv(p).kind is GlobalAlloc ==> s.pm.insts.contains(s.gm[p])
}
pub open spec fn w(s: ST) -> bool {
    &&& wo(s) && wv(s, nullf()) && wi(s)
    &&& forall|c: PFn| #[trigger] s.fs.contains_key(c) ==> wf(s, c) && wv(s, c) && wb(s, c)
    &&& s.cur != nullf() ==> s.fs.contains_key(s.cur)
}
/// the globals are there
pub open spec fn gready(s: ST) -> bool { forall|p: PVal| #[trigger] gl(p) ==> s.gm.contains_key(p) }
/// values can be read here: the globals are there, and a block has been begun
pub open spec fn rdy(s: ST) -> bool { s.cur != nullf() ==> gready(s) && fmd(s, s.cur).order.len() > 0 }

// ---- what reading may change ----
pub open spec fn sub<K, V>(a: Map<K, V>, b: Map<K, V>) -> bool { forall|k: K| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k] == a[k] }
pub open spec fn bdone(s: ST, c: PFn, b: PBb) -> bool {
    s.fs[c].bbs.contains_key(b) && fmd(s, c).body.contains_key(s.fs[c].bbs[b]) && fmd(s, c).body[s.fs[c].bbs[b]].len() == mb(b).insts.len
}
pub open spec fn fdone(s: ST, f: PFn) -> bool {
    &&& forall|i: int| 0 <= i < mf(f).bbs.len ==> s.fs[f].bbs.contains_key(#[trigger] sl::<PBb>(mf(f).bbs)[i])
    &&& forall|b: PBb| #[trigger] s.fs[f].bbs.contains_key(b) ==> bdone(s, f, b)
}
pub open spec fn fmstep(a: FM, b: FM, e: Option<BasicBlock>) -> bool {
    &&& b.name == a.name && b.ty == a.ty && b.pars == a.pars
    &&& sub(a.vals, b.vals) && sub(a.bbs, b.bbs)
    &&& a.order.len() <= b.order.len() && forall|i: int| 0 <= i < a.order.len() ==> #[trigger] b.order[i] == a.order[i]
    &&& forall|v: BasicBlock| #[trigger] a.body.contains_key(v) ==> b.body.contains_key(v) && (b.body[v] == a.body[v] || e == Some(v))
}
pub open spec fn gstep(a: ST, b: ST, k: PFn, e: Option<BasicBlock>) -> bool {
    &&& sub(a.fs[k].bbs, b.fs[k].bbs) && sub(a.fs[k].vals, b.fs[k].vals) && fmstep(fmd(a, k), fmd(b, k), e)
    &&& forall|r: PBb| #[trigger] b.fs[k].bbs.contains_key(r) ==> a.fs[k].bbs.contains_key(r) || bdone(b, k, r) || e == Some(b.fs[k].bbs[r])
}
/// reading on behalf of `k` went from `a` to `b`; block `e` is still being read
#[verifier::opaque]
pub open spec fn step(a: ST, b: ST, k: PFn, e: Option<BasicBlock>) -> bool {
    &&& b.cur == a.cur
    &&& k != nullf() ==> b.gm == a.gm && b.pm.gvals == a.pm.gvals && b.pm.insts == a.pm.insts
    &&& k == nullf() ==> sub(a.gm, b.gm) && sub(a.pm.gvals, b.pm.gvals) && b.fs == a.fs && b.pm.fns == a.pm.fns && b.pm.order == a.pm.order
    &&& forall|g: PFn| #[trigger] a.fs.contains_key(g) ==> {
        &&& b.fs.contains_key(g) && b.fs[g].func == a.fs[g].func
        &&& g != k ==> b.fs[g] == a.fs[g] && fmd(b, g) == fmd(a, g)
        &&& g == k ==> gstep(a, b, g, e)
    }
    &&& forall|g: PFn| #[trigger] b.fs.contains_key(g) ==> a.fs.contains_key(g) || fdone(b, g)
}
/// functions were read between `a` and `b`, nothing else
#[verifier::opaque]
pub open spec fn fstep(a: ST, b: ST) -> bool {
    &&& b.cur == a.cur && b.gm == a.gm && b.pm.gvals == a.pm.gvals && b.pm.insts == a.pm.insts
    &&& forall|g: PFn| #[trigger] a.fs.contains_key(g) ==> b.fs.contains_key(g) && b.fs[g] == a.fs[g] && fmd(b, g) == fmd(a, g)
    &&& forall|g: PFn| #[trigger] b.fs.contains_key(g) ==> a.fs.contains_key(g) || fdone(b, g)
}
/// `q` was read between `a` and `b`
pub open spec fn newk(a: ST, b: ST, c: PFn, q: PVal) -> bool { vmap(b, c).contains_key(q) && !vmap(a, c).contains_key(q) }
pub open spec fn rkle(q: PVal, o: Seq<PVal>) -> bool { exists|i: int| 0 <= i < o.len() && rk(q) <= rk(#[trigger] o[i]) }
/// only values needed for the operands `o` were read
#[verifier::opaque]
pub open spec fn only(a: ST, b: ST, o: Seq<PVal>) -> bool { forall|q: PVal| #[trigger] newk(a, b, a.cur, q) ==> !unit(q) && rkle(q, o) }
/// unit values were only read as part of newly read blocks
#[verifier::opaque]
pub open spec fn nob(a: ST, b: ST) -> bool {
    forall|q: PVal| #[trigger] newk(a, b, a.cur, q) ==> !unit(q) || (a.cur != nullf() && !a.fs[a.cur].bbs.contains_key(home(q)))
}

/// reading the operands `o` went from `a` to `b`; `blk`: and blocks
pub open spec fn acc(a: ST, b: ST, o: Seq<PVal>, blk: bool) -> bool {
    &&& w(b) && rdy(b) && step(a, b, a.cur, None)
    &&& b.pm.insts == a.pm.insts
    &&& if blk { nob(a, b) } else { only(a, b, o) }
}
/// `m` with the value `v` added as the image of `p`
pub open spec fn bindv(m: ST, p: PVal, v: Value, x: VM, g: bool) -> ST {
    let c = m.cur;
    if c == nullf() {
        ST { pm: PM { gvals: m.pm.gvals.insert(v, x), insts: if g { m.pm.insts.push(v) } else { m.pm.insts }, ..m.pm }, gm: m.gm.insert(p, v), ..m }
    } else {
        let f = m.fs[c];
        ST {
            pm: PM { fns: m.pm.fns.insert(f.func, FM { vals: fmd(m, c).vals.insert(v, x), ..fmd(m, c) }), ..m.pm },
            fs: m.fs.insert(c, FI { vals: f.vals.insert(p, v), ..f }), ..m }
    }
}
/// `m` with the value `v` added, not yet known as an image
pub open spec fn addv(m: ST, v: Value, x: VM, g: bool) -> ST {
    let c = m.cur;
    if c == nullf() {
        ST { pm: PM { gvals: m.pm.gvals.insert(v, x), insts: if g { m.pm.insts.push(v) } else { m.pm.insts }, ..m.pm }, ..m }
    } else {
        ST { pm: PM { fns: m.pm.fns.insert(m.fs[c].func, FM { vals: fmd(m, c).vals.insert(v, x), ..fmd(m, c) }), ..m.pm }, ..m }
    }
}
/// after reading its operands (`m`), `v` was made for a value of kind `k` and type `t`
pub open spec fn fresh(m: ST, b: ST, k: RawValueKind, t: Ty, v: Value) -> bool {
    let x = dv(b, m.cur)[v];
    &&& !dv(m, m.cur).contains_key(v) && v.global() == (m.cur == nullf())
    &&& x.ty == t && x.name is None && kimg(m, m.cur, k, x.kind)
    &&& b == addv(m, v, x, k is GlobalAlloc)
}
pub open spec fn ext(a: ST, b: ST, c: PFn) -> bool {
    &&& sub(vmap(a, c), vmap(b, c)) && sub(a.gm, b.gm)
    &&& a.fs.contains_key(c) ==> b.fs.contains_key(c) && sub(a.fs[c].bbs, b.fs[c].bbs)
    &&& forall|f: PFn| #[trigger] a.fs.contains_key(f) ==> b.fs.contains_key(f) && b.fs[f].func == a.fs[f].func
}
pub open spec fn mono(a: ST, b: ST, c: PFn) -> bool {
    &&& forall|q: PVal| (#[trigger] lk(a, c, q)) is Some ==> lk(b, c, q) == lk(a, c, q)
    &&& forall|q: Seq<PVal>, v: Seq<Value>| #[trigger] lks(a, c, q, v) ==> lks(b, c, q, v)
    &&& forall|q: PBb| (#[trigger] lb(a, c, q)) is Some ==> lb(b, c, q) == lb(a, c, q)
    &&& forall|q: PFn| (#[trigger] lf(a, q)) is Some ==> lf(b, q) == lf(a, q)
}
/// the parameters of the image of `q`
pub open spec fn bty(s: ST, c: PFn, q: PBb, v: BasicBlock) -> bool {
    &&& lb(s, c, q) == Some(v) && fmd(s, c).bbs.contains_key(v) && par_tys(fmd(s, c).vals, fmd(s, c).bbs[v].pars) == otys(vals(mb(q).params))
    &&& forall|p: PBb| #[trigger] lb(s, c, p) == Some(v) ==> p == q
}
/// what is known stays known
pub open spec fn got(a: ST, b: ST, c: PFn) -> bool {
    &&& mono(a, b, c) && b.cur == c
    &&& forall|q: PVal, v: Value| #[trigger] typ(a, c, q, v) ==> typ(b, c, q, v)
    &&& forall|q: Seq<PVal>, v: Seq<Value>| #[trigger] typs(a, c, q, v) ==> typs(b, c, q, v)
    &&& forall|q: PBb, v: BasicBlock| #[trigger] bty(a, c, q, v) ==> bty(b, c, q, v)
    &&& forall|h: Function| #[trigger] a.pm.fns.contains_key(h) ==> b.pm.fns.contains_key(h) && b.pm.fns[h].ty == a.pm.fns[h].ty
}
pub open spec fn kd(s: ST, c: PFn, v: Value) -> Kd { if c != nullf() && fmd(s, c).vals.contains_key(v) { fmd(s, c).vals[v].kind } else { s.pm.gvals[v].kind } }
pub open spec fn tyof(s: ST, c: PFn, v: Value) -> Option<Ty> { if c != nullf() { dty(fmd(s, c).vals, s.pm.gvals, v) } else { dty(s.pm.gvals, Map::empty(), v) } }
pub open spec fn typ(s: ST, c: PFn, q: PVal, v: Value) -> bool {
    tyof(s, c, v) == Some(oty(q)) && (const_rk(mv(q).kind) ==> const_kd(kd(s, c, v)))
}
pub open spec fn typs(s: ST, c: PFn, q: Seq<PVal>, v: Seq<Value>) -> bool {
    q.len() == v.len() && forall|i: int| 0 <= i < q.len() ==> typ(s, c, q[i], #[trigger] v[i])
}
/// the values `vs` were entered for `ks`
pub open spec fn zext(m0: Map<PVal, Value>, m1: Map<PVal, Value>, ks: Seq<PVal>, vs: Seq<Value>) -> bool {
    &&& ks.len() == vs.len() && sub(m0, m1)
    &&& forall|q: PVal| #[trigger] m1.contains_key(q) ==> m0.contains_key(q) || ks.contains(q)
    &&& forall|i: int| 0 <= i < ks.len() ==> m1.contains_key(#[trigger] ks[i]) && m1[ks[i]] == vs[i]
}
pub open spec fn rpars(ps: Seq<PVal>) -> Seq<(Name, Ty)> { ps.map_values(|p: PVal| (rnm(mv(p).name), oty(p))) }
/// block `v` was added to `m` for `b`
pub open spec fn addb(m: ST, s: ST, b: PBb, v: BasicBlock) -> bool {
    let c = m.cur;
    let f = m.fs[c];
    let x = fmd(m, c);
    let y = fmd(s, c);
    &&& s == (ST { pm: PM { fns: m.pm.fns.insert(f.func, y), ..m.pm }, fs: m.fs.insert(c, s.fs[c]), ..m })
    &&& s.fs[c].func == f.func && s.fs[c].bbs == f.bbs.insert(b, v) && zext(f.vals, s.fs[c].vals, vals(mb(b).params), y.bbs[v].pars)
    &&& y == (FM { vals: y.vals, bbs: x.bbs.insert(v, y.bbs[v]), order: x.order.push(v), body: x.body.insert(v, Seq::empty()), ..x })
    &&& !x.bbs.contains_key(v) && y.bbs[v].name == rnm(mb(b).name)
    &&& new_pars(x.vals, y.vals, y.bbs[v].pars, rpars(vals(mb(b).params)), true)
}
pub open spec fn pushi(m: ST, v: BasicBlock, i: Value) -> ST {
    let x = fmd(m, m.cur);
    ST { pm: PM { fns: m.pm.fns.insert(m.fs[m.cur].func, FM { body: x.body.insert(v, x.body[v].push(i)), ..x }), ..m.pm }, ..m }
}
/// function `h` was added to `m` for `f`
pub open spec fn addf(m: ST, s: ST, f: PFn, h: Function) -> bool {
    let y = s.pm.fns[h];
    &&& s == (ST { pm: PM { fns: m.pm.fns.insert(h, y), order: m.pm.order.push(h), ..m.pm }, fs: m.fs.insert(f, s.fs[f]), ..m })
    &&& s.fs[f].func == h && s.fs[f].bbs == Map::<PBb, BasicBlock>::empty() && zext(Map::empty(), s.fs[f].vals, vals(mf(f).params), y.pars)
    &&& !m.pm.fns.contains_key(h) && mstr(mf(f).name) == Some(y.name) && y.ty == rty(mf(f).ty)
    &&& y.bbs == Map::<BasicBlock, BM>::empty() && y.order == Seq::<BasicBlock>::empty() && y.body == Map::<BasicBlock, Seq<Value>>::empty()
    &&& new_pars(Map::empty(), y.vals, y.pars, rpars(vals(mf(f).params)), false)
}
pub open spec fn setc(s: ST, c: PFn) -> ST { ST { cur: c, ..s } }
pub mod facts {
use super::*;
pub proof fn lk_ext(a: ST, b: ST, c: PFn, q: PVal)
    requires ext(a, b, c), lk(a, c, q) is Some,
    ensures lk(b, c, q) == lk(a, c, q),
{ }
pub proof fn lks_ext(a: ST, b: ST, c: PFn, q: Seq<PVal>, v: Seq<Value>)
    requires ext(a, b, c), lks(a, c, q, v),
    ensures lks(b, c, q, v),
{
    assert forall|i: int| 0 <= i < q.len() implies lk(b, c, #[trigger] q[i]) == Some(v[i]) by { lk_ext(a, b, c, q[i]); }
}
pub proof fn kimg_ext(a: ST, b: ST, c: PFn, r: RawValueKind, k: Kd)
    requires ext(a, b, c), kimg(a, c, r, k),
    ensures kimg(b, c, r, k),
{
    match r {
        RawValueKind::Aggregate(x) => { lks_ext(a, b, c, vals(x.elems), k->Agg_0); }
        RawValueKind::Branch(x) => { lks_ext(a, b, c, vals(x.true_args), k->Br_3); lks_ext(a, b, c, vals(x.false_args), k->Br_4); }
        RawValueKind::Jump(x) => { lks_ext(a, b, c, vals(x.args), k->Jump_1); }
        RawValueKind::Call(x) => { lks_ext(a, b, c, vals(x.args), k->Call_1); }
        _ => {}
    }
}
pub proof fn wv_ext(a: ST, b: ST, c: PFn)
    requires wv(a, c), ext(a, b, c), vmap(b, c) == vmap(a, c), dv(b, c) == dv(a, c),
        c != nullf() ==> a.fs.contains_key(c),
    ensures wv(b, c),
{
    reveal(wv);
    assert forall|p: PVal| #[trigger] vmap(b, c).contains_key(p) implies vin(b, c, p) by {
        assert(vin(a, c, p));
        kimg_ext(a, b, c, mv(p).kind, dv(a, c)[vmap(a, c)[p]].kind);
    }
    assert forall|v: Value| #[trigger] dv(b, c).contains_key(v) implies vimg(b, c, v) by { assert(vimg(a, c, v)); }
}
pub proof fn wv_bind(m: ST, s: ST, c: PFn, p: PVal, v: Value, x: VM)
    requires
        wv(m, c), ext(m, s, c), c != nullf() ==> m.fs.contains_key(c),
        vmap(s, c) == vmap(m, c).insert(p, v), dv(s, c) == dv(m, c).insert(v, x),
        okv(c, p), !vmap(m, c).contains_key(p), !dv(m, c).contains_key(v), v.global() == (c == nullf()),
        x.ty == oty(p), x.name == rnm(mv(p).name), kimg(m, c, mv(p).kind, x.kind), c != nullf() ==> !(mv(p).kind is BlockArgRef),
    ensures wv(s, c),
{
    reveal(wv);
    assert forall|q: PVal| #[trigger] vmap(s, c).contains_key(q) implies vin(s, c, q) by {
        if q == p {
            kimg_ext(m, s, c, mv(p).kind, x.kind);
        } else {
            assert(vin(m, c, q));
            kimg_ext(m, s, c, mv(q).kind, dv(m, c)[vmap(m, c)[q]].kind);
        }
    }
    assert forall|a: PVal, b: PVal| #[trigger] vmap(s, c).contains_key(a) && #[trigger] vmap(s, c).contains_key(b) && vmap(s, c)[a] == vmap(s, c)[b] implies a == b by {
        if a != p { assert(vmap(m, c).contains_key(a)); assert(vin(m, c, a)); }
        if b != p { assert(vmap(m, c).contains_key(b)); assert(vin(m, c, b)); }
    }
    assert forall|u: Value| #[trigger] dv(s, c).contains_key(u) implies vimg(s, c, u) && u.global() == (c == nullf()) by {
        if u == v { assert(vmap(s, c).contains_key(p)); }
        else {
            assert(vimg(m, c, u));
            let q = choose|q: PVal| #[trigger] vmap(m, c).contains_key(q) && vmap(m, c)[q] == u;
            assert(vmap(s, c).contains_key(q));
        }
    }
}
pub proof fn wb_ext(a: ST, b: ST, c: PFn)
    requires wb(a, c), a.fs.contains_key(c), b.fs.contains_key(c), b.fs[c].bbs == a.fs[c].bbs, sub(a.fs[c].vals, b.fs[c].vals),
        fmd(b, c).bbs == fmd(a, c).bbs, fmd(b, c).order == fmd(a, c).order, fmd(b, c).body == fmd(a, c).body,
    ensures wb(b, c),
{
    reveal(wb);
    assert forall|r: PBb| #[trigger] b.fs[c].bbs.contains_key(r) implies bin(b, c, r) by { assert(bin(a, c, r)); }
    assert forall|v: BasicBlock| bimg(a, c, v) implies bimg(b, c, v) by {
        let r = choose|r: PBb| #[trigger] a.fs[c].bbs.contains_key(r) && a.fs[c].bbs[r] == v;
        assert(b.fs[c].bbs.contains_key(r));
    }
}
pub proof fn wf_ext(a: ST, b: ST, c: PFn)
    requires wf(a, c), b.fs[c].func == a.fs[c].func, sub(a.fs[c].vals, b.fs[c].vals), b.pm.fns.contains_key(b.fs[c].func),
        fmd(b, c).name == fmd(a, c).name, fmd(b, c).ty == fmd(a, c).ty, fmd(b, c).pars == fmd(a, c).pars, b.pm.order.contains(b.fs[c].func),
    ensures wf(b, c),
{
    reveal(wf);
}
/// a function that is not touched
pub proof fn frame(a: ST, b: ST, g: PFn)
    requires
        wf(a, g), wv(a, g), wb(a, g), a.fs.contains_key(g), g != nullf(),
        ext(a, b, g), b.fs.contains_key(g), b.fs[g] == a.fs[g], b.pm.fns.contains_key(b.fs[g].func), fmd(b, g) == fmd(a, g),
        b.pm.order.contains(b.fs[g].func),
    ensures wf(b, g), wv(b, g), wb(b, g),
{
    wf_ext(a, b, g); wv_ext(a, b, g); wb_ext(a, b, g);
}
/// nothing about the functions' handles changed
pub proof fn wo_ext(a: ST, b: ST)
    requires wo(a), b.pm.order == a.pm.order, b.pm.fns.dom() == a.pm.fns.dom(), b.fs.dom() == a.fs.dom(),
        forall|g: PFn| #[trigger] a.fs.contains_key(g) ==> b.fs[g].func == a.fs[g].func,
    ensures wo(b),
{
    reveal(wo);
    assert forall|v: Function| fimg(a, v) implies fimg(b, v) by {
        let f = choose|f: PFn| #[trigger] a.fs.contains_key(f) && a.fs[f].func == v;
        assert(b.fs.contains_key(f));
    }
    assert forall|x: PFn, y: PFn| #[trigger] b.fs.contains_key(x) && #[trigger] b.fs.contains_key(y) && b.fs[x].func == b.fs[y].func implies x == y by {
        assert(a.fs.contains_key(x) && a.fs.contains_key(y));
    }
    assert forall|v: Function| #[trigger] b.pm.fns.contains_key(v) implies fimg(b, v) by { assert(a.pm.fns.contains_key(v)); assert(fimg(a, v)); }
    assert forall|f: PFn| #[trigger] b.fs.contains_key(f) implies f != nullf() by { assert(a.fs.contains_key(f)); }
}
pub proof fn wi_ext(a: ST, b: ST)
    requires wi(a), b.gm == a.gm, b.pm.insts == a.pm.insts,
    ensures wi(b),
{
    reveal(wi);
}
pub proof fn step_refl(s: ST, k: PFn, e: Option<BasicBlock>)
    ensures step(s, s, k, e),
{
    reveal(step);
}
pub proof fn bind_ok(m: ST, p: PVal, v: Value, x: VM, g: bool)
    requires
        w(m), okv(m.cur, p), !vmap(m, m.cur).contains_key(p), !dv(m, m.cur).contains_key(v), v.global() == (m.cur == nullf()),
        x.ty == oty(p), x.name == rnm(mv(p).name), kimg(m, m.cur, mv(p).kind, x.kind), m.cur != nullf() ==> !(mv(p).kind is BlockArgRef),
        g == (mv(p).kind is GlobalAlloc),
    ensures
        w(bindv(m, p, v, x, g)), step(m, bindv(m, p, v, x, g), m.cur, None), lk(bindv(m, p, v, x, g), m.cur, p) == Some(v) || (m.cur != nullf() && gv(p)),
{
    let s = bindv(m, p, v, x, g);
    let c = m.cur;
    if c == nullf() {
        wo_ext(m, s);
        wv_bind(m, s, c, p, v, x);
        assert forall|k: PFn| #[trigger] s.fs.contains_key(k) implies wf(s, k) && wv(s, k) && wb(s, k) by {
            reveal(wo);
            assert(wf(m, k)) ;
            reveal(wf);
            frame(m, s, k);
        }
        reveal(step);
        assert(wi(s)) by {
            reveal(wi);
            if g { assert(s.pm.insts[m.pm.insts.len() as int] == v); }
            assert forall|q: PVal| #[trigger] s.gm.contains_key(q) && mv(q).kind is GlobalAlloc implies s.pm.insts.contains(s.gm[q]) by {
                if q != p {
                    assert(m.gm.contains_key(q));
                    let i = choose|i: int| 0 <= i < m.pm.insts.len() && m.pm.insts[i] == m.gm[q];
                    assert(s.pm.insts[i] == m.gm[q]);
                }
            }
        }
    } else {
        wi_ext(m, s);
        let h = m.fs[c].func;
        assert(wf(m, c) && wv(m, c) && wb(m, c));
        assert(m.pm.fns.contains_key(h) && m.pm.order.contains(h)) by { reveal(wf); }
        assert(s.fs.dom() =~= m.fs.dom());
        assert(s.pm.fns.dom() =~= m.pm.fns.dom());
        wo_ext(m, s);
        wv_ext(m, s, nullf());
        wf_ext(m, s, c);
        wb_ext(m, s, c);
        wv_bind(m, s, c, p, v, x);
        assert forall|k: PFn| #[trigger] s.fs.contains_key(k) implies wf(s, k) && wv(s, k) && wb(s, k) by {
            if k != c {
                assert(m.fs[k].func != h && k != nullf()) by { reveal(wo); }
                assert(m.pm.fns.contains_key(m.fs[k].func) && m.pm.order.contains(m.fs[k].func)) by { assert(wf(m, k)); reveal(wf); }
                frame(m, s, k);
            }
        }
        assert(step(m, s, c, None)) by {
            reveal(step);
            assert forall|k: PFn| #[trigger] m.fs.contains_key(k) && k != c implies s.fs[k] == m.fs[k] && fmd(s, k) == fmd(m, k) by { reveal(wo); }
        }
    }
}
pub proof fn step_ext(a: ST, b: ST, k: PFn, e: Option<BasicBlock>)
    requires step(a, b, k, e), k == nullf() || a.fs.contains_key(k),
    ensures ext(a, b, k), b.cur == a.cur,
{
    reveal(step);
}
pub proof fn step_trans(a: ST, b: ST, c: ST, k: PFn, e: Option<BasicBlock>)
    requires step(a, b, k, e), step(b, c, k, e), k == nullf() || a.fs.contains_key(k),
    ensures step(a, c, k, e),
{
    reveal(step);
    assert forall|g: PFn| #[trigger] a.fs.contains_key(g) implies c.fs.contains_key(g) && c.fs[g].func == a.fs[g].func
        && (g != k ==> c.fs[g] == a.fs[g] && fmd(c, g) == fmd(a, g)) && (g == k ==> gstep(a, c, g, e)) by {
        assert(b.fs.contains_key(g));
        if g == k {
            assert(gstep(a, b, g, e) && gstep(b, c, g, e));
            assert forall|i: int| 0 <= i < fmd(a, g).order.len() implies #[trigger] fmd(c, g).order[i] == fmd(a, g).order[i] by {
                assert(fmd(b, g).order[i] == fmd(a, g).order[i]);
            }
            assert forall|r: PBb| #[trigger] c.fs[k].bbs.contains_key(r) implies a.fs[k].bbs.contains_key(r) || bdone(c, k, r) || e == Some(c.fs[k].bbs[r]) by {
                if b.fs[k].bbs.contains_key(r) && !a.fs[k].bbs.contains_key(r) && bdone(b, k, r) {
                    assert(c.fs[k].bbs[r] == b.fs[k].bbs[r]);
                }
            }
        }
    }
}
/// functions were read on the way
pub proof fn fstep_step(a: ST, b: ST, k: PFn)
    requires fstep(a, b), k != nullf(),
    ensures step(a, b, k, None),
{
    reveal(fstep); reveal(step);
}
pub proof fn fstep_new(a: ST, b: ST, k: PFn, q: PVal)
    requires fstep(a, b), k == nullf() || a.fs.contains_key(k),
    ensures !newk(a, b, k, q),
{
    reveal(fstep);
}
pub proof fn ext_mono(a: ST, b: ST, c: PFn)
    requires ext(a, b, c),
    ensures mono(a, b, c),
{
    assert forall|q: Seq<PVal>, v: Seq<Value>| #[trigger] lks(a, c, q, v) implies lks(b, c, q, v) by { lks_ext(a, b, c, q, v); }
}
pub proof fn acc_refl(s: ST, o: Seq<PVal>, blk: bool)
    requires w(s), rdy(s),
    ensures acc(s, s, o, blk),
{
    step_refl(s, s.cur, None);
    reveal(only); reveal(nob);
}
/// one more operand (`blk` false) or block (`blk` true) was read
pub proof fn acc_more(a: ST, b: ST, c: ST, o: Seq<PVal>, p: Seq<PVal>, blk: bool, blk2: bool)
    requires
        raw_ok(), acc(a, b, o, blk), w(a), w(c), step(b, c, a.cur, None), c.pm.insts == b.pm.insts, blk2 ==> blk,
        if blk2 { nob(b, c) } else { only(b, c, p) }, blk || (forall|i: int| 0 <= i < p.len() ==> o.contains(#[trigger] p[i])),
    ensures acc(a, c, o, blk), got(b, c, a.cur), b.cur == a.cur, c.cur == a.cur,
{
    let k = a.cur;
    reveal(step); reveal(only); reveal(nob);
    step_trans(a, b, c, k, None);
    assert(b.cur == a.cur && c.cur == a.cur);
    step_ext(b, c, k, None);
    step_ext(a, b, k, None);
    got_step(b, c, k);
    if k != nullf() {
        assert(a.fs.contains_key(k) && b.fs.contains_key(k) && c.fs.contains_key(k));
        assert(gready(c));
        assert(fmd(c, k).order.len() > 0);
    }
    assert forall|q: PVal| #[trigger] newk(a, c, k, q) implies
        (if blk { !unit(q) || (k != nullf() && !a.fs[k].bbs.contains_key(home(q))) } else { !unit(q) && rkle(q, o) }) by {
        if newk(a, b, k, q) { } else {
            assert(newk(b, c, k, q));
            if !blk {
                let i = choose|i: int| 0 <= i < p.len() && rk(q) <= rk(#[trigger] p[i]);
                let j = choose|j: int| 0 <= j < o.len() && o[j] == p[i];
                assert(rk(q) <= rk(o[j]));
            }
        }
    }
}
/// the type of an operand that was read
pub proof fn operand(s: ST, c: PFn, q: PVal)
    requires w(s), s.cur == c, lk(s, c, q) is Some, opv(c, q), raw_ok(),
    ensures typ(s, c, q, lk(s, c, q)->0),
{
    let v = lk(s, c, q)->0;
    reveal(wv);
    if gv(q) || c == nullf() {
        assert(vmap(s, nullf()).contains_key(q));
        assert(vin(s, nullf(), q));
        assert(v.global());
        if c != nullf() { assert(wv(s, c)); assert(!dv(s, c).contains_key(v)); }
    } else {
        assert(wv(s, c));
        assert(vmap(s, c).contains_key(q));
        assert(vin(s, c, q));
    }
}
pub proof fn operands(s: ST, c: PFn, q: Seq<PVal>, v: Seq<Value>)
    requires w(s), s.cur == c, lks(s, c, q, v), opvs(c, q), raw_ok(),
    ensures typs(s, c, q, v),
{
    assert forall|i: int| 0 <= i < v.len() implies typ(s, c, q[i], #[trigger] v[i]) by { assert(lk(s, c, q[i]) == Some(v[i])); operand(s, c, q[i]); }
}
pub proof fn typ_step(a: ST, b: ST, c: PFn, q: PVal, v: Value)
    requires w(a), w(b), step(a, b, c, None), typ(a, c, q, v), a.cur == c,
    ensures typ(b, c, q, v),
{
    reveal(step); reveal(wv);
    assert(wv(a, nullf()) && wv(b, nullf()));
    if c != nullf() {
        assert(a.fs.contains_key(c) && b.fs.contains_key(c));
        assert(wv(a, c) && wv(b, c));
        assert(gstep(a, b, c, None));
        if !fmd(a, c).vals.contains_key(v) {
            assert(dv(a, nullf()).contains_key(v));
            assert(v.global());
            assert(!dv(b, c).contains_key(v));
        }
    }
}
pub proof fn block_bty(s: ST, c: PFn, q: PBb)
    requires raw_ok(), w(s), s.cur == c, c != nullf(), lb(s, c, q) is Some,
    ensures bty(s, c, q, lb(s, c, q)->0),
{
    reveal(wv); reveal(wb);
    assert(wv(s, c) && wb(s, c));
    assert(bin(s, c, q));
    let v = lb(s, c, q)->0;
    let ps = vals(mb(q).params);
    let pars = fmd(s, c).bbs[v].pars;
    assert forall|i: int| 0 <= i < ps.len() implies fmd(s, c).vals[pars[i]].ty == oty(#[trigger] ps[i]) by {
        assert(get(s.fs[c].vals, ps[i]) == Some(pars[i]));
        assert(vmap(s, c).contains_key(ps[i]));
        assert(vin(s, c, ps[i]));
    }
    assert(par_tys(fmd(s, c).vals, pars) =~= otys(ps));
}
/// what is known stays known
pub proof fn got_step(a: ST, b: ST, c: PFn)
    requires raw_ok(), w(a), w(b), step(a, b, c, None), a.cur == c,
    ensures got(a, b, c),
{
    reveal(step);
    step_ext(a, b, c, None);
    ext_mono(a, b, c);
    assert forall|q: PVal, v: Value| #[trigger] typ(a, c, q, v) implies typ(b, c, q, v) by { typ_step(a, b, c, q, v); }
    assert forall|q: Seq<PVal>, v: Seq<Value>| #[trigger] typs(a, c, q, v) implies typs(b, c, q, v) by {
        assert forall|i: int| 0 <= i < v.len() implies typ(b, c, q[i], #[trigger] v[i]) by { typ_step(a, b, c, q[i], v[i]); }
    }
    assert forall|q: PBb, v: BasicBlock| #[trigger] bty(a, c, q, v) implies bty(b, c, q, v) by { if c != nullf() { block_bty(b, c, q); } else { reveal(wo); } }
    assert forall|h: Function| #[trigger] a.pm.fns.contains_key(h) implies b.pm.fns.contains_key(h) && b.pm.fns[h].ty == a.pm.fns[h].ty by {
        reveal(wo); reveal(wf);
        assert(fimg(a, h));
        let f = choose|f: PFn| #[trigger] a.fs.contains_key(f) && a.fs[f].func == h;
        assert(b.fs.contains_key(f));
        assert(wf(b, f));
        if f == c { assert(gstep(a, b, c, None)); }
    }
}
/// the other functions when only `m.cur` changed
pub proof fn others(m: ST, s: ST)
    requires
        w(m), m.cur != nullf(), s.pm.gvals == m.pm.gvals, s.gm == m.gm, s.pm.insts == m.pm.insts, s.pm.order == m.pm.order, s.cur == m.cur,
        s.fs == m.fs.insert(m.cur, s.fs[m.cur]), s.fs[m.cur].func == m.fs[m.cur].func,
        s.pm.fns == m.pm.fns.insert(m.fs[m.cur].func, fmd(s, m.cur)),
        wf(s, m.cur), wv(s, m.cur), wb(s, m.cur),
    ensures w(s),
{
    let c = m.cur;
    let h = m.fs[c].func;
    assert(wf(m, c) && wv(m, c) && wb(m, c));
    assert(m.pm.fns.contains_key(h) && m.pm.order.contains(h)) by { reveal(wf); }
    assert(s.fs.dom() =~= m.fs.dom());
    assert(s.pm.fns.dom() =~= m.pm.fns.dom());
    wo_ext(m, s);
    wi_ext(m, s);
    wv_ext(m, s, nullf());
    assert forall|k: PFn| #[trigger] s.fs.contains_key(k) implies wf(s, k) && wv(s, k) && wb(s, k) by {
        if k != c {
            assert(m.fs[k].func != h && k != nullf()) by { reveal(wo); }
            assert(m.pm.fns.contains_key(m.fs[k].func) && m.pm.order.contains(m.fs[k].func)) by { assert(wf(m, k)); reveal(wf); }
            frame(m, s, k);
        }
    }
}
pub proof fn others_step(m: ST, s: ST, e: Option<BasicBlock>)
    requires
        w(m), m.cur != nullf(), s.pm.gvals == m.pm.gvals, s.gm == m.gm, s.pm.order == m.pm.order, s.cur == m.cur, s.pm.insts == m.pm.insts,
        s.fs == m.fs.insert(m.cur, s.fs[m.cur]), s.fs[m.cur].func == m.fs[m.cur].func,
        s.pm.fns == m.pm.fns.insert(m.fs[m.cur].func, fmd(s, m.cur)),
        gstep(m, s, m.cur, e),
    ensures step(m, s, m.cur, e),
{
    reveal(step);
    assert forall|k: PFn| #[trigger] m.fs.contains_key(k) && k != m.cur implies s.fs[k] == m.fs[k] && fmd(s, k) == fmd(m, k) by { reveal(wo); }
}
pub proof fn addb_wv(m: ST, s: ST, b: PBb, v: BasicBlock)
    requires raw_ok(), w(m), m.cur != nullf(), okb(m.cur, b), !m.fs[m.cur].bbs.contains_key(b), addb(m, s, b, v),
    ensures wv(s, m.cur),
        forall|i: int| 0 <= i < mb(b).params.len ==> !m.fs[m.cur].vals.contains_key(#[trigger] vals(mb(b).params)[i]),
{
    let c = m.cur;
    let ps = vals(mb(b).params);
    let pars = fmd(s, c).bbs[v].pars;
    use_b(c, b);
    assert(wv(m, c));
    reveal(wv);
    assert forall|i: int| 0 <= i < ps.len() implies !vmap(m, c).contains_key(#[trigger] ps[i]) by {
        if vmap(m, c).contains_key(ps[i]) { assert(vin(m, c, ps[i])); }
    }
    assert(ext(m, s, c));
    assert(rpars(ps).len() == ps.len());
    assert forall|q: PVal| #[trigger] vmap(s, c).contains_key(q) implies vin(s, c, q) by {
        if vmap(m, c).contains_key(q) {
            assert(vin(m, c, q));
            kimg_ext(m, s, c, mv(q).kind, dv(m, c)[vmap(m, c)[q]].kind);
        } else {
            let i = choose|i: int| 0 <= i < ps.len() && ps[i] == q;
            assert(!pars[i].global());
            assert(rpars(ps)[i] == (rnm(mv(q).name), oty(q)));
        }
    }
    assert forall|x: PVal, y: PVal| #[trigger] vmap(s, c).contains_key(x) && #[trigger] vmap(s, c).contains_key(y) && vmap(s, c)[x] == vmap(s, c)[y] implies x == y by {
        if vmap(m, c).contains_key(x) { assert(vin(m, c, x)); }
        if vmap(m, c).contains_key(y) { assert(vin(m, c, y)); }
        if !vmap(m, c).contains_key(x) {
            let i = choose|i: int| 0 <= i < ps.len() && ps[i] == x;
            assert(vmap(s, c)[ps[i]] == pars[i]);
            if !vmap(m, c).contains_key(y) {
                let j = choose|j: int| 0 <= j < ps.len() && ps[j] == y;
                assert(vmap(s, c)[ps[j]] == pars[j]);
            }
        } else if !vmap(m, c).contains_key(y) {
            let j = choose|j: int| 0 <= j < ps.len() && ps[j] == y;
            assert(vmap(s, c)[ps[j]] == pars[j]);
        }
    }
    assert forall|u: Value| #[trigger] dv(s, c).contains_key(u) implies vimg(s, c, u) && u.global() == (c == nullf()) by {
        if dv(m, c).contains_key(u) {
            assert(vimg(m, c, u));
            let q = choose|q: PVal| #[trigger] vmap(m, c).contains_key(q) && vmap(m, c)[q] == u;
            assert(vmap(s, c).contains_key(q));
        } else {
            let i = choose|i: int| 0 <= i < pars.len() && pars[i] == u;
            assert(vmap(s, c).contains_key(ps[i]));
        }
    }
}
pub proof fn addb_wb(m: ST, s: ST, b: PBb, v: BasicBlock)
    requires raw_ok(), w(m), m.cur != nullf(), okb(m.cur, b), !m.fs[m.cur].bbs.contains_key(b), addb(m, s, b, v),
        fmd(m, m.cur).order.len() > 0 || b == sl::<PBb>(mf(m.cur).bbs)[0],
    ensures wb(s, m.cur),
{
    let c = m.cur;
    use_b(c, b);
    assert(wb(m, c));
    reveal(wb);
    let x = fmd(m, c);
    let y = fmd(s, c);
    assert(rpars(vals(mb(b).params)).len() == mb(b).params.len);
    assert forall|r: PBb| #[trigger] s.fs[c].bbs.contains_key(r) implies bin(s, c, r) by {
        if r != b {
            assert(bin(m, c, r));
            assert(s.fs[c].bbs[r] == m.fs[c].bbs[r] && m.fs[c].bbs[r] != v);
            let u = m.fs[c].bbs[r];
            assert(x.order.contains(u));
            let i = choose|i: int| 0 <= i < x.order.len() && x.order[i] == u;
            assert(y.order[i] == u);
        } else {
            assert(y.order[x.order.len() as int] == v);
            assert forall|i: int| 0 <= i < mb(b).params.len implies get(s.fs[c].vals, #[trigger] vals(mb(b).params)[i]) == Some(y.bbs[v].pars[i]) by { }
        }
    }
    assert forall|r: PBb| #[trigger] m.fs[c].bbs.contains_key(r) implies m.fs[c].bbs[r] != v && s.fs[c].bbs.contains_key(r) by { assert(bin(m, c, r)); }
    assert(s.fs[c].bbs.contains_key(b));
    assert forall|u: BasicBlock| bimg(m, c, u) implies bimg(s, c, u) by {
        let r = choose|r: PBb| #[trigger] m.fs[c].bbs.contains_key(r) && m.fs[c].bbs[r] == u;
        assert(s.fs[c].bbs.contains_key(r));
    }
    assert(bimg(s, c, v));
    assert(!x.order.contains(v)) by {
        if x.order.contains(v) {
            let i = choose|i: int| 0 <= i < x.order.len() && x.order[i] == v;
            assert(bimg(m, c, x.order[i]));
        }
    }
    assert forall|i: int| 0 <= i < y.order.len() implies bimg(s, c, #[trigger] y.order[i]) by {
        if i < x.order.len() { assert(y.order[i] == x.order[i]); assert(bimg(m, c, x.order[i])); }
    }
    assert(y.order.no_duplicates());
    let l = sl::<PBb>(mf(c).bbs);
    if x.order.len() > 0 { assert(y.order[0] == x.order[0]); }
    assert(l.contains(b));
}
pub proof fn addb_ok(m: ST, s: ST, b: PBb, v: BasicBlock)
    requires raw_ok(), w(m), m.cur != nullf(), okb(m.cur, b), !m.fs[m.cur].bbs.contains_key(b), addb(m, s, b, v),
        fmd(m, m.cur).order.len() > 0 || b == sl::<PBb>(mf(m.cur).bbs)[0],
    ensures
        w(s), step(m, s, m.cur, Some(v)), lb(s, m.cur, b) == Some(v), fmd(s, m.cur).order.len() > 0, fmd(s, m.cur).order.contains(v),
        fmd(s, m.cur).body.contains_key(v), fmd(s, m.cur).body[v] == Seq::<Value>::empty(), !fmd(m, m.cur).body.contains_key(v),
        forall|q: PVal| #[trigger] newk(m, s, m.cur, q) ==> !unit(q),
{
    let c = m.cur;
    addb_wv(m, s, b, v);
    addb_wb(m, s, b, v);
    use_b(c, b);
    assert(wf(s, c)) by { assert(wf(m, c)); wf_ext_here(m, s, c); }
    others(m, s);
    assert(wb(m, c));
    let x = fmd(m, c);
    let y = fmd(s, c);
    assert(!x.body.contains_key(v)) by { reveal(wb); if x.body.contains_key(v) { assert(bimg(m, c, v)); let r = choose|r: PBb| #[trigger] m.fs[c].bbs.contains_key(r) && m.fs[c].bbs[r] == v; assert(bin(m, c, r)); } }
    assert(sub(x.vals, y.vals));
    assert(sub(x.bbs, y.bbs));
    assert(sub(m.fs[c].bbs, s.fs[c].bbs));
    assert(gstep(m, s, c, Some(v)));
    others_step(m, s, Some(v));
    assert(y.order[x.order.len() as int] == v);
}
pub proof fn wf_ext_here(m: ST, s: ST, c: PFn)
    requires wf(m, c), s.fs[c].func == m.fs[c].func, sub(m.fs[c].vals, s.fs[c].vals), s.pm.order == m.pm.order,
        s.pm.fns == m.pm.fns.insert(m.fs[c].func, fmd(s, c)), fmd(s, c).name == fmd(m, c).name, fmd(s, c).ty == fmd(m, c).ty, fmd(s, c).pars == fmd(m, c).pars,
    ensures wf(s, c),
{
    reveal(wf);
}
/// an instruction that is not in the block yet is in no block
pub proof fn not_in(m: ST, b: PBb, v: BasicBlock, p: PVal, i: Value)
    requires
        raw_ok(), w(m), m.cur != nullf(), lb(m, m.cur, b) == Some(v), fmd(m, m.cur).body[v].len() < mb(b).insts.len,
        p == vals(mb(b).insts)[fmd(m, m.cur).body[v].len() as int], lk(m, m.cur, p) == Some(i), okb(m.cur, b),
    ensures
        fmd(m, m.cur).order.contains(v), fmd(m, m.cur).body.contains_key(v), get(m.fs[m.cur].vals, p) == Some(i),
        forall|u: BasicBlock| #[trigger] fmd(m, m.cur).body.contains_key(u) ==> !fmd(m, m.cur).body[u].contains(i),
{
    let c = m.cur;
    let x = fmd(m, c);
    assert(wb(m, c) && wv(m, c));
    reveal(wb); reveal(wv);
    assert(bin(m, c, b));
    use_b(c, b);
    use_v(c, p);
    assert(vmap(m, c).contains_key(p));
    assert forall|u: BasicBlock| #[trigger] x.body.contains_key(u) implies !x.body[u].contains(i) by {
        if x.body[u].contains(i) {
            assert(bimg(m, c, u));
            let r = choose|r: PBb| #[trigger] m.fs[c].bbs.contains_key(r) && m.fs[c].bbs[r] == u;
            assert(bin(m, c, r));
            use_b(c, r);
            let j = choose|j: int| 0 <= j < x.body[u].len() && x.body[u][j] == i;
            let q = vals(mb(r).insts)[j];
            assert(get(m.fs[c].vals, q) == Some(x.body[u][j]));
            assert(vmap(m, c).contains_key(q));
            assert(q == p);
            assert(r == b);
            assert(j == x.body[v].len());
        }
    }
}
pub proof fn push_ok(m: ST, b: PBb, v: BasicBlock, p: PVal, i: Value)
    requires
        raw_ok(), w(m), m.cur != nullf(), lb(m, m.cur, b) == Some(v), fmd(m, m.cur).body[v].len() < mb(b).insts.len,
        p == vals(mb(b).insts)[fmd(m, m.cur).body[v].len() as int], lk(m, m.cur, p) == Some(i), okb(m.cur, b),
    ensures w(pushi(m, v, i)), step(m, pushi(m, v, i), m.cur, Some(v)),
{
    let c = m.cur;
    let s = pushi(m, v, i);
    not_in(m, b, v, p, i);
    assert(wf(m, c) && wb(m, c) && wv(m, c));
    let x = fmd(m, c);
    let y = fmd(s, c);
    assert(y == FM { body: x.body.insert(v, x.body[v].push(i)), ..x });
    assert(s.fs =~= m.fs.insert(c, s.fs[c]));
    wf_ext_here(m, s, c);
    wv_ext(m, s, c);
    assert(wb(s, c)) by {
        reveal(wb);
        assert(bin(m, c, b));
        assert forall|r: PBb| #[trigger] s.fs[c].bbs.contains_key(r) implies bin(s, c, r) by { assert(bin(m, c, r)); }
        assert forall|u: BasicBlock| bimg(m, c, u) implies bimg(s, c, u) by {
            let r = choose|r: PBb| #[trigger] m.fs[c].bbs.contains_key(r) && m.fs[c].bbs[r] == u;
            assert(s.fs[c].bbs.contains_key(r));
        }
    }
    others(m, s);
    assert(gstep(m, s, c, Some(v)));
    others_step(m, s, Some(v));
}
}
pub use facts::*;
pub open spec fn blk(k: RawValueKind) -> bool { k is Branch || k is Jump }
/// the type of a value of kind `k`, where the kind decides it
pub open spec fn kt(k: RawValueKind) -> Ty {
    match k {
        RawValueKind::Integer(x) => Ty::I32,
        RawValueKind::Aggregate(x) => Ty::Arr(Box::new(oty(vals(x.elems)[0])), x.elems.len as usize),
        RawValueKind::GlobalAlloc(x) => Ty::Ptr(Box::new(oty(x.init))),
        RawValueKind::Load(x) => *(oty(x.src)->Ptr_0),
        RawValueKind::GetPtr(x) => oty(x.src),
        RawValueKind::GetElemPtr(x) => Ty::Ptr((*(oty(x.src)->Ptr_0))->Arr_0),
        RawValueKind::Binary(x) => Ty::I32,
        RawValueKind::Call(x) => *(rty(mf(x.callee).ty)->Fun_1),
        _ => Ty::Unit,
    }
}
pub open spec fn rv_ok(s: ST, p: PVal) -> bool {
    opv(s.cur, p) || (s.cur == nullf() && gl(p)) || (s.cur != nullf() && unit(p) && okv(s.cur, p) && s.fs[s.cur].bbs.contains_key(home(p)))
}
pub open spec fn vread(a: ST, b: ST, p: PVal) -> bool {
    if unit(p) {
        forall|q: PVal| #[trigger] newk(a, b, a.cur, q) ==> !unit(q) || q == p || (a.cur != nullf() && !a.fs[a.cur].bbs.contains_key(home(q)))
    } else { only(a, b, seq![p]) }
}
pub open spec fn pay_pre(s: ST, k: RawValueKind) -> bool { raw_ok() && w(s) && rdy(s) && k_ok(s.cur, k, kt(k)) }
pub open spec fn made(a: ST, b: ST, k: RawValueKind, v: Value) -> bool {
    exists|m: ST| #[trigger] acc(a, m, ops(k), blk(k)) && fresh(m, b, k, kt(k), v)
}
/// the current function is there
pub open spec fn okc(p: Program, i: ProgramInfo) -> bool {
    i.cur_func != nullf() ==> i.funcs@.contains_key(i.cur_func) && p.m().fns.contains_key(i.funcs@[i.cur_func].func)
}
pub proof fn use_rdy(p: Program, i: ProgramInfo) requires w(st(p, i)), ensures okc(p, i), {
    let s = st(p, i);
    if s.cur != nullf() { assert(wf(s, s.cur)); reveal(wf); }
}
pub proof fn ops_in(k: RawValueKind)
    ensures
        match k {
            RawValueKind::Aggregate(x) => forall|i: int| 0 <= i < x.elems.len ==> ops(k).contains(#[trigger] vals(x.elems)[i]),
            RawValueKind::GlobalAlloc(x) => ops(k).contains(x.init),
            RawValueKind::Load(x) => ops(k).contains(x.src),
            RawValueKind::Store(x) => ops(k).contains(x.value) && ops(k).contains(x.dest),
            RawValueKind::GetPtr(x) => ops(k).contains(x.src) && ops(k).contains(x.index),
            RawValueKind::GetElemPtr(x) => ops(k).contains(x.src) && ops(k).contains(x.index),
            RawValueKind::Binary(x) => ops(k).contains(x.lhs) && ops(k).contains(x.rhs),
            RawValueKind::Call(x) => forall|i: int| 0 <= i < x.args.len ==> ops(k).contains(#[trigger] vals(x.args)[i]),
            RawValueKind::Return(x) => x.value.a != 0 ==> ops(k).contains(x.value),
            _ => true,
        },
{
    match k {
        RawValueKind::GlobalAlloc(x) => { assert(ops(k)[0] == x.init); }
        RawValueKind::Load(x) => { assert(ops(k)[0] == x.src); }
        RawValueKind::Store(x) => { assert(ops(k)[0] == x.value); assert(ops(k)[1] == x.dest); }
        RawValueKind::GetPtr(x) => { assert(ops(k)[0] == x.src); assert(ops(k)[1] == x.index); }
        RawValueKind::GetElemPtr(x) => { assert(ops(k)[0] == x.src); assert(ops(k)[1] == x.index); }
        RawValueKind::Binary(x) => { assert(ops(k)[0] == x.lhs); assert(ops(k)[1] == x.rhs); }
        RawValueKind::Return(x) => { if x.value.a != 0 { assert(ops(k)[0] == x.value); } }
        _ => {}
    }
}
pub open spec fn rv_post(a: ST, b: ST, p: PVal, v: Value) -> bool {
    &&& w(b) && step(a, b, a.cur, None) && lk(b, a.cur, p) == Some(v) && vread(a, b, p)
    &&& b.pm.insts == (if a.cur == nullf() && !a.gm.contains_key(p) && mv(p).kind is GlobalAlloc { a.pm.insts.push(v) } else { a.pm.insts })
}
pub open spec fn bb_pre(s: ST, b: PBb) -> bool {
    &&& raw_ok() && w(s) && gready(s) && s.cur != nullf() && okb(s.cur, b)
    &&& fmd(s, s.cur).order.len() > 0 || b == sl::<PBb>(mf(s.cur).bbs)[0]
}
pub open spec fn bb_post(a: ST, b: ST, p: PBb, v: BasicBlock) -> bool {
    &&& w(b) && step(a, b, a.cur, None) && lb(b, a.cur, p) == Some(v) && nob(a, b) && fmd(b, a.cur).order.len() > 0
}
pub broadcast proof fn fmap_insert(m: Map<PFn, FunctionInfo>, k: PFn, v: FunctionInfo)
    ensures #[trigger] fmap(m.insert(k, v)) == fmap(m).insert(k, v.v()),
{
    assert(fmap(m.insert(k, v)) =~= fmap(m).insert(k, v.v()));
}
pub broadcast proof fn tys_len(v: Seq<Type>)
    ensures #[trigger] tys(v).len() == v.len(),
{ }
pub broadcast proof fn insert_twice<K, V>(m: Map<K, V>, k: K, a: V, b: V)
    ensures #[trigger] m.insert(k, a).insert(k, b) == m.insert(k, b),
{
    assert(m.insert(k, a).insert(k, b) =~= m.insert(k, b));
}
pub broadcast proof fn insert_same<K, V>(m: Map<K, V>, k: K)
    requires m.contains_key(k),
    ensures #[trigger] m.insert(k, m[k]) == m,
{
    assert(m.insert(k, m[k]) =~= m);
}
/// what is known when reading `p` begins
pub proof fn val_start(a: ST, p: PVal)
    requires raw_ok(), w(a), rdy(a), rv_ok(a, p),
    ensures
        acc(a, a, ops(mv(p).kind), blk(mv(p).kind)), a.gm.contains_key(p) ==> lk(a, a.cur, p) == Some(a.gm[p]),
        a.cur != nullf() && a.fs[a.cur].vals.contains_key(p) && !a.gm.contains_key(p) ==> lk(a, a.cur, p) == Some(a.fs[a.cur].vals[p]),
        lk(a, a.cur, p) is Some ==> rv_post(a, a, p, lk(a, a.cur, p)->0),
        lk(a, a.cur, p) is None ==> okv(a.cur, p) && v_ok(a.cur, p) && !(mv(p).kind is FuncArgRef) && k_ok(a.cur, mv(p).kind, oty(p)) && !a.gm.contains_key(p)
            && (a.cur != nullf() ==> !gv(p) && !a.fs[a.cur].vals.contains_key(p)),
{
    let c = a.cur;
    acc_refl(a, ops(mv(p).kind), blk(mv(p).kind));
    step_refl(a, c, None);
    reveal(only);
    assert forall|q: PVal| !newk(a, a, c, q) by { }
    reveal(wv); reveal(wf);
    if a.gm.contains_key(p) { assert(vmap(a, nullf()).contains_key(p)); assert(vin(a, nullf(), p)); }
    if gl(p) { use_gl(p); }
    if c != nullf() {
        assert(wv(a, c) && wf(a, c));
        if okv(c, p) { use_v(c, p); }
        if vmap(a, c).contains_key(p) { assert(vin(a, c, p)); use_v(c, p); }
        if okv(c, p) && mv(p).kind is FuncArgRef {
            let i = choose|i: int| 0 <= i < vals(mf(c).params).len() && vals(mf(c).params)[i] == p;
            assert(get(a.fs[c].vals, vals(mf(c).params)[i]) is Some);
        }
    } else {
        use_v(c, p);
    }
}
/// `v` was made and entered for `p`
pub open spec fn bound(a: ST, b: ST, p: PVal, v: Value) -> bool {
    exists|m: ST| #[trigger] acc(a, m, ops(mv(p).kind), blk(mv(p).kind)) && bound_at(m, b, p, v)
}
pub open spec fn bound_at(m: ST, b: ST, p: PVal, v: Value) -> bool {
    let x = dv(b, m.cur)[v];
    &&& !dv(m, m.cur).contains_key(v) && v.global() == (m.cur == nullf())
    &&& x.ty == oty(p) && x.name == rnm(mv(p).name) && kimg(m, m.cur, mv(p).kind, x.kind)
    &&& b == bindv(m, p, v, x, mv(p).kind is GlobalAlloc)
}
pub proof fn bound_post(a: ST, b: ST, p: PVal, v: Value)
    requires raw_ok(), w(a), rdy(a), rv_ok(a, p), lk(a, a.cur, p) is None, bound(a, b, p, v), !(mv(p).kind is BlockArgRef),
    ensures rv_post(a, b, p, v),
{
    let c = a.cur;
    let k = mv(p).kind;
    val_start(a, p);
    let m = choose|m: ST| #[trigger] acc(a, m, ops(k), blk(k)) && bound_at(m, b, p, v);
    reveal(only); reveal(nob);
    assert(m.cur == c) by { reveal(step); }
    assert(!vmap(a, c).contains_key(p));
    if vmap(m, c).contains_key(p) {
        assert(newk(a, m, c, p));
        if !blk(k) {
            let i = choose|i: int| 0 <= i < ops(k).len() && rk(p) <= rk(#[trigger] ops(k)[i]);
            assert(rk(ops(k)[i]) < rk(p));
        }
    }
    bind_ok(m, p, v, dv(b, c)[v], k is GlobalAlloc);
    step_trans(a, m, b, c, None);
    assert forall|q: PVal| #[trigger] newk(a, b, c, q) implies q == p || newk(a, m, c, q) by { }
    if !unit(p) {
        assert(!blk(k));
        assert forall|q: PVal| #[trigger] newk(a, b, c, q) implies !unit(q) && rkle(q, seq![p]) by {
            assert(seq![p][0] == p);
            if q != p {
                assert(newk(a, m, c, q));
                let i = choose|i: int| 0 <= i < ops(k).len() && rk(q) <= rk(#[trigger] ops(k)[i]);
                assert(rk(ops(k)[i]) < rk(p));
            }
            assert(rk(q) <= rk(seq![p][0]));
        }
    }
}
/// the number of instructions of `b` entered so far
pub open spec fn ilen(s: ST, b: PBb) -> nat { fmd(s, s.cur).body[lb(s, s.cur, b)->0].len() }
/// `b`, which is not there in `a`, is being read
pub open spec fn inst_inv(a: ST, s: ST, b: PBb) -> bool {
    &&& raw_ok() && w(a) && w(s) && a.cur != nullf() && s.cur == a.cur && okb(a.cur, b) && gready(s) && fmd(s, a.cur).order.len() > 0
    &&& !a.fs[a.cur].bbs.contains_key(b) && lb(s, a.cur, b) is Some && step(a, s, a.cur, lb(s, a.cur, b)) && nob(a, s)
    &&& ilen(s, b) <= mb(b).insts.len
}
pub open spec fn can_push(s: ST, b: PBb, i: Value) -> bool {
    &&& lb(s, s.cur, b) is Some && fmd(s, s.cur).order.contains(lb(s, s.cur, b)->0) && fmd(s, s.cur).body.contains_key(lb(s, s.cur, b)->0)
    &&& forall|u: BasicBlock| #[trigger] fmd(s, s.cur).body.contains_key(u) ==> !fmd(s, s.cur).body[u].contains(i)
}
pub proof fn inst_pre(a: ST, m: ST, b: PBb, p: PVal)
    requires inst_inv(a, m, b), ilen(m, b) < mb(b).insts.len, p == vals(mb(b).insts)[ilen(m, b) as int],
    ensures rdy(m), rv_ok(m, p),
{
    let c = a.cur;
    use_b(c, b);
    assert(okv(c, p) && home(p) == b);
    use_v(c, p);
    if !gv(p) { }
}
pub proof fn inst_next(a: ST, m: ST, n: ST, b: PBb, p: PVal, i: Value)
    requires inst_inv(a, m, b), ilen(m, b) < mb(b).insts.len, p == vals(mb(b).insts)[ilen(m, b) as int], rv_post(m, n, p, i),
    ensures
        n.cur == a.cur, lb(n, a.cur, b) == lb(m, a.cur, b), can_push(n, b, i),
        inst_inv(a, pushi(n, lb(n, a.cur, b)->0, i), b), ilen(pushi(n, lb(n, a.cur, b)->0, i), b) == ilen(m, b) + 1,
{
    let c = a.cur;
    let v = lb(m, c, b)->0;
    assert(w(m) && w(n));
    assert(n.cur == c && gstep(m, n, c, None) && n.gm == m.gm) by { reveal(step); }
    assert(lb(n, c, b) == Some(v));
    assert(fmd(m, c).body.contains_key(v)) by { assert(wb(m, c)); reveal(wb); assert(bin(m, c, b)); }
    assert(fmd(n, c).body[v] == fmd(m, c).body[v]);
    not_in(n, b, v, p, i);
    push_ok(n, b, v, p, i);
    let s = pushi(n, v, i);
    step_weaken(m, n, c, Some(v));
    step_trans(a, m, n, c, Some(v));
    step_trans(a, n, s, c, Some(v));
    assert(fmd(s, c) == FM { body: fmd(n, c).body.insert(v, fmd(n, c).body[v].push(i)), ..fmd(n, c) });
    use_b(c, b);
    assert(nob(a, s)) by {
        reveal(nob);
        assert(gstep(a, m, c, Some(v))) by { reveal(step); }
        assert forall|q: PVal| #[trigger] newk(a, s, c, q) implies !unit(q) || (c != nullf() && !a.fs[c].bbs.contains_key(home(q))) by {
            if newk(a, m, c, q) { } else {
                assert(newk(m, n, c, q));
                reveal(only);
                if unit(q) && a.fs[c].bbs.contains_key(home(q)) { assert(m.fs[c].bbs.contains_key(home(q))); }
            }
        }
    }
}
pub proof fn step_weaken(a: ST, b: ST, k: PFn, e: Option<BasicBlock>)
    requires step(a, b, k, None),
    ensures step(a, b, k, e),
{
    reveal(step);
}
pub proof fn inst_done(a: ST, s: ST, b: PBb)
    requires inst_inv(a, s, b), ilen(s, b) == mb(b).insts.len,
    ensures bb_post(a, s, b, lb(s, a.cur, b)->0),
{
    let c = a.cur;
    let v = lb(s, c, b)->0;
    assert(wb(a, c) && wb(s, c));
    assert(a.fs.contains_key(c)) ;
    assert(gstep(a, s, c, Some(v))) by { reveal(step); }
    assert(bdone(s, c, b)) by { reveal(wb); assert(bin(s, c, b)); }
    assert(!fmd(a, c).body.contains_key(v)) by {
        reveal(wb);
        if fmd(a, c).body.contains_key(v) {
            assert(bimg(a, c, v));
            let r = choose|r: PBb| #[trigger] a.fs[c].bbs.contains_key(r) && a.fs[c].bbs[r] == v;
            assert(s.fs[c].bbs.contains_key(r) && s.fs[c].bbs.contains_key(b));
        }
    }
    assert(gstep(a, s, c, None)) by {
        assert forall|r: PBb| #[trigger] s.fs[c].bbs.contains_key(r) implies a.fs[c].bbs.contains_key(r) || bdone(s, c, r) by {
            reveal(wb);
            assert(s.fs[c].bbs.contains_key(b));
            if s.fs[c].bbs[r] == v { assert(r == b); }
        }
    }
    assert(step(a, s, c, None)) by { reveal(step); }
}
/// the globals and functions a raw program lists
#[verifier::opaque]
pub open spec fn prog_ok(r: RawProgram) -> bool {
    &&& vslice(r.values) && r.funcs.kind is Function && vals(r.values).no_duplicates()
    &&& forall|i: int| 0 <= i < r.values.len ==> gl(#[trigger] vals(r.values)[i]) && mv(vals(r.values)[i]).kind is GlobalAlloc
    &&& forall|p: PVal| #[trigger] gl(p) ==> vals(r.values).contains(p)
    &&& forall|i: int| 0 <= i < r.funcs.len ==> okf(#[trigger] sl::<PFn>(r.funcs)[i])
}
/// the first `n` globals of the program are the instances, in order
pub open spec fn globs(s: ST, q: Seq<PVal>, n: int) -> bool {
    &&& s.pm.insts.len() == n
    &&& forall|i: int| 0 <= i < n ==> get(s.gm, #[trigger] q[i]) == Some(s.pm.insts[i])
}
pub open spec fn all_done(s: ST) -> bool { forall|f: PFn| #[trigger] s.fs.contains_key(f) ==> fdone(s, f) }
/// everything the raw program lists has been read: its globals, in order, are the global instances; its functions are there with all their
/// blocks, instructions and operands; what is there is the image of something of the raw program (`w`)
pub open spec fn read_all(r: RawProgram, s: ST) -> bool {
    &&& w(s) && s.cur == nullf() && globs(s, vals(r.values), r.values.len as int) && all_done(s)
    &&& forall|i: int| 0 <= i < r.funcs.len ==> s.fs.contains_key(#[trigger] sl::<PFn>(r.funcs)[i])
}
pub open spec fn no_st() -> ST {
    ST { pm: PM { gvals: Map::empty(), insts: Seq::empty(), fns: Map::empty(), order: Seq::empty() }, gm: Map::empty(), fs: Map::empty(), cur: nullf() }
}
pub proof fn no_st_w()
    ensures w(no_st()),
{
    reveal(wo); reveal(wv); reveal(wi);
}
/// a global that is listed once has not been read before its turn
pub proof fn glob_new(s: ST, q: Seq<PVal>, n: int)
    requires w(s), s.cur == nullf(), q.no_duplicates(), 0 <= n < q.len(), globs(s, q, n), mv(q[n]).kind is GlobalAlloc,
    ensures !s.gm.contains_key(q[n]),
{
    if s.gm.contains_key(q[n]) {
        reveal(wi); reveal(wv);
        let j = choose|j: int| 0 <= j < s.pm.insts.len() && s.pm.insts[j] == s.gm[q[n]];
        assert(get(s.gm, q[j]) == Some(s.pm.insts[j]));
        assert(vmap(s, nullf()).contains_key(q[j]) && vmap(s, nullf()).contains_key(q[n]));
    }
}
pub proof fn glob_next(a: ST, b: ST, q: Seq<PVal>, n: int, v: Value)
    requires w(a), a.cur == nullf(), q.no_duplicates(), 0 <= n < q.len(), globs(a, q, n), mv(q[n]).kind is GlobalAlloc, gv(q[n]), rv_post(a, b, q[n], v), all_done(a),
    ensures globs(b, q, n + 1), b.cur == nullf(), all_done(b),
{
    glob_new(a, q, n);
    reveal(step);
    assert forall|i: int| 0 <= i < n + 1 implies get(b.gm, #[trigger] q[i]) == Some(b.pm.insts[i]) by {
        if i < n { assert(get(a.gm, q[i]) == Some(a.pm.insts[i])); }
    }
    assert forall|f: PFn| #[trigger] b.fs.contains_key(f) implies fdone(b, f) by {
        assert(a.fs.contains_key(f));
        assert(fdone(a, f));
        assert forall|r: PBb| #[trigger] b.fs[f].bbs.contains_key(r) implies bdone(b, f, r) by { assert(bdone(a, f, r)); }
    }
}
pub proof fn func_next(a: ST, b: ST)
    requires fstep(a, b), all_done(a),
    ensures all_done(b),
{
    reveal(fstep);
    assert forall|f: PFn| #[trigger] b.fs.contains_key(f) implies fdone(b, f) by {
        if a.fs.contains_key(f) {
            assert(fdone(a, f));
            assert forall|r: PBb| #[trigger] b.fs[f].bbs.contains_key(r) implies bdone(b, f, r) by { assert(bdone(a, f, r)); }
        }
    }
}
/// which function is being read does not matter to what has been read
pub proof fn setc_w(s: ST, c: PFn)
    requires wo(s), wi(s), wv(s, nullf()), forall|g: PFn| #[trigger] s.fs.contains_key(g) ==> wf(s, g) && wv(s, g) && wb(s, g), c != nullf() ==> s.fs.contains_key(c),
    ensures w(setc(s, c)),
{
    let t = setc(s, c);
    wo_ext(s, t);
    wi_ext(s, t);
    wv_ext(s, t, nullf());
    assert forall|g: PFn| #[trigger] t.fs.contains_key(g) implies wf(t, g) && wv(t, g) && wb(t, g) by {
        assert(g != nullf()) by { reveal(wo); }
        assert(s.fs.contains_key(g));
        assert(wf(s, g));
        assert(s.pm.fns.contains_key(s.fs[g].func) && s.pm.order.contains(s.fs[g].func)) by { reveal(wf); }
        frame(s, t, g);
    }
}
pub proof fn addf_wv(m: ST, s: ST, f: PFn, h: Function)
    requires raw_ok(), w(m), okf(f), !m.fs.contains_key(f), addf(m, s, f, h),
    ensures wv(s, f), wf(s, f), wb(s, f),
{
    use_f(f);
    let ps = vals(mf(f).params);
    let pars = fmd(s, f).pars;
    assert(rpars(ps).len() == ps.len());
    assert(s.pm.order[m.pm.order.len() as int] == h);
    assert(wf(s, f)) by { reveal(wf); }
    assert(wb(s, f)) by { reveal(wb); }
    reveal(wv);
    assert forall|q: PVal| #[trigger] vmap(s, f).contains_key(q) implies vin(s, f, q) by {
        let i = choose|i: int| 0 <= i < ps.len() && ps[i] == q;
        assert(!pars[i].global());
        assert(vmap(s, f)[ps[i]] == pars[i]);
        assert(rpars(ps)[i] == (rnm(mv(q).name), oty(q)));
    }
    assert forall|x: PVal, y: PVal| #[trigger] vmap(s, f).contains_key(x) && #[trigger] vmap(s, f).contains_key(y) && vmap(s, f)[x] == vmap(s, f)[y] implies x == y by {
        let i = choose|i: int| 0 <= i < ps.len() && ps[i] == x;
        let j = choose|j: int| 0 <= j < ps.len() && ps[j] == y;
        assert(vmap(s, f)[ps[i]] == pars[i] && vmap(s, f)[ps[j]] == pars[j]);
    }
    assert forall|u: Value| #[trigger] dv(s, f).contains_key(u) implies vimg(s, f, u) && u.global() == (f == nullf()) by {
        let i = choose|i: int| 0 <= i < pars.len() && pars[i] == u;
        assert(vmap(s, f).contains_key(ps[i]) && vmap(s, f)[ps[i]] == pars[i]);
    }
}
/// entering a function
pub proof fn addf_ok(m: ST, s: ST, f: PFn, h: Function)
    requires raw_ok(), w(m), okf(f), !m.fs.contains_key(f), addf(m, s, f, h),
    ensures
        w(s), w(setc(s, f)), f != nullf(), lf(s, f) == Some(h), s.fs[f].bbs == Map::<PBb, BasicBlock>::empty(),
        forall|g: PFn| #[trigger] m.fs.contains_key(g) ==> s.fs.contains_key(g) && s.fs[g] == m.fs[g] && fmd(s, g) == fmd(m, g),
        mf(f).bbs.len == 0 ==> fstep(m, s),
{
    use_f(f);
    addf_wv(m, s, f, h);
    assert forall|g: PFn| #[trigger] m.fs.contains_key(g) implies m.pm.fns.contains_key(m.fs[g].func) && m.pm.order.contains(m.fs[g].func) by {
        assert(wf(m, g)); reveal(wf);
    }
    assert(s.pm.order[m.pm.order.len() as int] == h);
    assert forall|u: Function| m.pm.order.contains(u) implies s.pm.order.contains(u) by {
        let i = choose|i: int| 0 <= i < m.pm.order.len() && m.pm.order[i] == u;
        assert(s.pm.order[i] == u);
    }
    assert(!m.pm.order.contains(h)) by {
        reveal(wo);
        if m.pm.order.contains(h) {
            let i = choose|i: int| 0 <= i < m.pm.order.len() && m.pm.order[i] == h;
            assert(fimg(m, m.pm.order[i]));
        }
    }
    assert(wo(s)) by {
        reveal(wo);
        assert forall|u: Function| fimg(m, u) implies fimg(s, u) by {
            let g = choose|g: PFn| #[trigger] m.fs.contains_key(g) && m.fs[g].func == u;
            assert(s.fs.contains_key(g) && s.fs[g].func == u);
        }
        assert(s.fs.contains_key(f) && s.fs[f].func == h);
        assert(fimg(s, h));
        assert forall|i: int| 0 <= i < s.pm.order.len() implies fimg(s, #[trigger] s.pm.order[i]) by {
            if i < m.pm.order.len() { assert(fimg(m, m.pm.order[i])); assert(s.pm.order[i] == m.pm.order[i]); }
        }
        assert forall|u: Function| #[trigger] s.pm.fns.contains_key(u) implies fimg(s, u) by { if u != h { assert(m.pm.fns.contains_key(u)); assert(fimg(m, u)); } }
        assert forall|x: PFn, y: PFn| #[trigger] s.fs.contains_key(x) && #[trigger] s.fs.contains_key(y) && s.fs[x].func == s.fs[y].func implies x == y by {
            if x != f { assert(m.fs.contains_key(x)); }
            if y != f { assert(m.fs.contains_key(y)); }
        }
        assert forall|g: PFn| #[trigger] s.fs.contains_key(g) implies g != nullf() by { if g != f { assert(m.fs.contains_key(g)); } }
    }
    assert(!m.fs.contains_key(nullf())) by { reveal(wo); }
    wv_ext(m, s, nullf());
    wi_ext(m, s);
    assert forall|g: PFn| #[trigger] s.fs.contains_key(g) implies wf(s, g) && wv(s, g) && wb(s, g) by {
        if g != f {
            assert(m.fs.contains_key(g) && g != nullf());
            frame(m, s, g);
        }
    }
    setc_w(s, f);
    setc_w(s, m.cur);
    assert(setc(s, m.cur) == s);
    reveal(fstep);
}
/// a function that has been read
pub proof fn func_done(m: ST, s: ST, t: ST, f: PFn, h: Function)
    requires
        raw_ok(), w(m), okf(f), !m.fs.contains_key(f), addf(m, s, f, h), w(t), step(setc(s, f), t, f, None),
        forall|i: int| 0 <= i < mf(f).bbs.len ==> t.fs[f].bbs.contains_key(#[trigger] sl::<PBb>(mf(f).bbs)[i]),
    ensures w(setc(t, m.cur)), fstep(m, setc(t, m.cur)), lf(setc(t, m.cur), f) == Some(h),
{
    addf_ok(m, s, f, h);
    let r = setc(t, m.cur);
    reveal(step);
    reveal(fstep);
    assert(setc(s, f).fs.contains_key(f));
    assert forall|g: PFn| #[trigger] m.fs.contains_key(g) implies r.fs.contains_key(g) && r.fs[g] == m.fs[g] && fmd(r, g) == fmd(m, g) by {
        assert(setc(s, f).fs.contains_key(g) && g != f);
        assert(fmd(setc(s, f), g) == fmd(s, g));
        assert(fmd(t, g) == fmd(setc(s, f), g));
    }
    setc_w(t, m.cur);
    assert(gstep(setc(s, f), t, f, None));
    assert(fdone(t, f)) by {
        assert forall|b: PBb| #[trigger] t.fs[f].bbs.contains_key(b) implies bdone(t, f, b) by { assert(!setc(s, f).fs[f].bbs.contains_key(b)); }
    }
    assert forall|g: PFn| #[trigger] r.fs.contains_key(g) implies m.fs.contains_key(g) || fdone(r, g) by {
        assert(t.fs.contains_key(g));
        if !m.fs.contains_key(g) {
            if g != f { assert(!setc(s, f).fs.contains_key(g)); }
            assert(fdone(t, g));
            assert forall|b: PBb| #[trigger] r.fs[g].bbs.contains_key(b) implies bdone(r, g, b) by { assert(bdone(t, g, b)); }
        }
    }
}
/// what is known when reading a block begins
pub proof fn bb_start(a: ST, b: PBb)
    requires bb_pre(a, b),
    ensures
        a.fs.contains_key(a.cur), a.pm.fns.contains_key(a.fs[a.cur].func),
        a.fs[a.cur].bbs.contains_key(b) ==> fmd(a, a.cur).order.len() > 0,
        forall|u: BasicBlock| #[trigger] fmd(a, a.cur).order.contains(u) ==> fmd(a, a.cur).bbs.contains_key(u),
        !a.fs[a.cur].bbs.contains_key(b) ==> forall|i: int| 0 <= i < mb(b).params.len ==> !a.fs[a.cur].vals.contains_key(#[trigger] vals(mb(b).params)[i]),
{
    let c = a.cur;
    let x = fmd(a, c);
    assert(wf(a, c) && wb(a, c) && wv(a, c));
    assert(a.pm.fns.contains_key(a.fs[c].func)) by { reveal(wf); }
    reveal(wb);
    if a.fs[c].bbs.contains_key(b) { assert(bin(a, c, b)); }
    assert forall|u: BasicBlock| #[trigger] x.order.contains(u) implies x.bbs.contains_key(u) by {
        let i = choose|i: int| 0 <= i < x.order.len() && x.order[i] == u;
        assert(bimg(a, c, x.order[i]));
        let r = choose|r: PBb| #[trigger] a.fs[c].bbs.contains_key(r) && a.fs[c].bbs[r] == u;
        assert(bin(a, c, r));
    }
    use_b(c, b);
    let ps = vals(mb(b).params);
    if !a.fs[c].bbs.contains_key(b) {
        assert forall|i: int| 0 <= i < mb(b).params.len implies !a.fs[c].vals.contains_key(#[trigger] ps[i]) by {
            reveal(wv);
            if vmap(a, c).contains_key(ps[i]) { assert(vin(a, c, ps[i])); }
        }
    }
}
pub mod rd {
use super::*;
broadcast use {fmap_insert, insert_twice, insert_same};
impl ProgramInfo {
//@ fn raw::generator::ProgramInfo::new ret=r
    ensures r.values@ == Map::<PVal, Value>::empty(), r.funcs@ == Map::<PFn, FunctionInfo>::empty(), r.cur_func == nullf(),
//@ end
//@ fn raw::generator::ProgramInfo::cur_func_info ret=r
    requires self.funcs@.contains_key(self.cur_func),
    ensures *r == self.funcs@[self.cur_func],
//@ end
//@ fn raw::generator::ProgramInfo::cur_func_info_mut ret=r
    requires old(self).funcs@.contains_key(old(self).cur_func),
    ensures *r == old(self).funcs@[old(self).cur_func], final(self).cur_func == old(self).cur_func, final(self).values == old(self).values,
        final(self).funcs@ == old(self).funcs@.insert(old(self).cur_func, *final(r)),
//@ end
}
impl FunctionInfo {
//@ fn raw::generator::FunctionInfo::new ret=r
    ensures r.func == func, r.bbs@ == Map::<PBb, BasicBlock>::empty(), r.values == values,
//@ end
}
impl<T: Pointer> RawSliceIter<'_, T> {
//@ fn raw::generator::RawSliceIter@Iterator::next ret=r
    requires old(self).index <= old(self).slice.len,
    ensures
        final(self).slice == old(self).slice,
        match r {
            Some(x) => old(self).index < old(self).slice.len && final(self).index == old(self).index + 1 && x == sl::<T>(*old(self).slice)[old(self).index as int],
            None => old(self).index == old(self).slice.len && final(self).index == old(self).index,
        },
//@ end
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self, { self }
}
impl RawSlice {
//@ fn raw::generator::RawSlice::types ret=r
    ensures (r is Ok) == (self.kind is Type), r is Ok ==> r->Ok_0.slice == self && r->Ok_0.index == 0,
//@ end
//@ fn raw::generator::RawSlice::funcs ret=r
    ensures (r is Ok) == (self.kind is Function), r is Ok ==> r->Ok_0.slice == self && r->Ok_0.index == 0,
//@ end
//@ fn raw::generator::RawSlice::bbs ret=r
    ensures (r is Ok) == (self.kind is BasicBlock), r is Ok ==> r->Ok_0.slice == self && r->Ok_0.index == 0,
//@ end
//@ fn raw::generator::RawSlice::values ret=r
    ensures (r is Ok) == (self.kind is Value), r is Ok ==> r->Ok_0.slice == self && r->Ok_0.index == 0,
//@ end
}
// ---- iterators ----
pub struct ZipTp<'a> { pub a: &'a Vec<Type>, pub b: RawSliceIter<'a, PVal>, pub i: usize }
pub fn vx_zip_tp<'a>(a: &'a Vec<Type>, b: RawSliceIter<'a, PVal>) -> (r: ZipTp<'a>) ensures r.a == a, r.b == b, r.i == 0, { ZipTp { a: a, b: b, i: 0 } }
impl<'a> ZipTp<'a> {
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self, { self }
    pub fn next(&mut self) -> (r: Option<(Type, PVal)>)
        requires old(self).i <= old(self).a@.len(), old(self).b.index <= old(self).b.slice.len,
        ensures
            final(self).a == old(self).a, final(self).b.slice == old(self).b.slice,
            match r {
                Some(x) => old(self).i < old(self).a@.len() && final(self).i == old(self).i + 1 && old(self).b.index < old(self).b.slice.len && final(self).b.index == old(self).b.index + 1
                    && x.0@ == old(self).a@[old(self).i as int]@ && x.1 == vals(*old(self).b.slice)[old(self).b.index as int],
                None => old(self).i == old(self).a@.len() || old(self).b.index == old(self).b.slice.len,
            },
    {
        if self.i < self.a.len() {
            match self.b.next() {
                Some(p) => { let t = self.a[self.i].clone(); self.i = self.i + 1; Some((t, p)) }
                None => None,
            }
        } else { None }
    }
}
pub struct ZipPv<'a, 'b> { pub a: RawSliceIter<'a, PVal>, pub b: &'b Vec<Value>, pub i: usize }
pub fn vx_zip_pv<'a, 'b>(a: RawSliceIter<'a, PVal>, b: &'b Vec<Value>) -> (r: ZipPv<'a, 'b>) ensures r.a == a, r.b == b, r.i == 0, { ZipPv { a: a, b: b, i: 0 } }
impl<'a, 'b> ZipPv<'a, 'b> {
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self, { self }
    pub fn next(&mut self) -> (r: Option<(PVal, &'b Value)>)
        requires old(self).i <= old(self).b@.len(), old(self).a.index <= old(self).a.slice.len,
        ensures
            final(self).b == old(self).b, final(self).a.slice == old(self).a.slice,
            match r {
                Some(x) => old(self).i < old(self).b@.len() && final(self).i == old(self).i + 1 && old(self).a.index < old(self).a.slice.len && final(self).a.index == old(self).a.index + 1
                    && *x.1 == old(self).b@[old(self).i as int] && x.0 == vals(*old(self).a.slice)[old(self).a.index as int],
                None => old(self).i == old(self).b@.len() || old(self).a.index == old(self).a.slice.len,
            },
    {
        match self.a.next() {
            Some(p) => if self.i < self.b.len() { let v = &self.b[self.i]; self.i = self.i + 1; Some((p, v)) } else { None },
            None => None,
        }
    }
}
/// the values of a zip, entered into a map
pub fn vx_zip_into<'a, 'b>(m: &mut HashMap<PVal, Value>, a: RawSliceIter<'a, PVal>, b: &'b Vec<Value>)
    requires a.index == 0, a.slice.len == b@.len(), vals(*a.slice).no_duplicates(), forall|i: int| 0 <= i < b@.len() ==> !old(m)@.contains_key(#[trigger] vals(*a.slice)[i]),
    ensures zext(old(m)@, final(m)@, vals(*a.slice), b@),
{
    let ghost q = vals(*a.slice);
    let ghost m0 = m@;
    let mut it = vx_zip_pv(a, b);
    loop
        invariant_except_break
            q == vals(*it.a.slice), it.a.slice == a.slice, it.b == b, it.i == it.a.index, it.a.index <= it.a.slice.len, q.len() == b@.len(), q.len() == a.slice.len, q.no_duplicates(),
            forall|i: int| 0 <= i < b@.len() ==> !m0.contains_key(#[trigger] q[i]),
            sub(m0, m@),
            forall|p: PVal| #[trigger] m@.contains_key(p) ==> m0.contains_key(p) || q.contains(p),
            forall|i: int| 0 <= i < it.i ==> m@.contains_key(#[trigger] q[i]) && m@[q[i]] == b@[i],
        ensures q.len() == b@.len(), sub(m0, m@), (forall|p: PVal| #[trigger] m@.contains_key(p) ==> m0.contains_key(p) || q.contains(p)), forall|i: int| 0 <= i < q.len() ==> m@.contains_key(#[trigger] q[i]) && m@[q[i]] == b@[i],
        decreases q.len() - it.i,
    {
        match it.next() {
            None => { break; }
            Some((p, v)) => {
                proof { assert(q[it.i - 1] == p); }
                m.insert(p, *v);
            }
        }
    }
}
/// `zip(..).collect()` into a map
pub fn vx_zip_map<'a, 'b>(a: RawSliceIter<'a, PVal>, b: &'b Vec<Value>) -> (r: HashMap<PVal, Value>)
    requires a.index == 0, a.slice.len == b@.len(), vals(*a.slice).no_duplicates(),
    ensures zext(Map::empty(), r@, vals(*a.slice), b@),
{
    let mut r: HashMap<PVal, Value> = HashMap::new();
    let ghost q = vals(*a.slice);
    let mut it = vx_zip_pv(a, b);
    loop
        invariant_except_break
            q == vals(*it.a.slice), it.a.slice == a.slice, it.b == b, it.i == it.a.index, it.a.index <= it.a.slice.len, q.len() == b@.len(), q.len() == a.slice.len, q.no_duplicates(),
            forall|p: PVal| #[trigger] r@.contains_key(p) ==> q.contains(p),
            forall|i: int| 0 <= i < it.i ==> r@.contains_key(#[trigger] q[i]) && r@[q[i]] == b@[i],
        ensures q.len() == b@.len(), (forall|p: PVal| #[trigger] r@.contains_key(p) ==> q.contains(p)), forall|i: int| 0 <= i < q.len() ==> r@.contains_key(#[trigger] q[i]) && r@[q[i]] == b@[i],
        decreases q.len() - it.i,
    {
        match it.next() {
            None => { break; }
            Some((p, v)) => {
                proof { assert(q[it.i - 1] == p); }
                r.insert(p, *v);
            }
        }
    }
    r
}
//@ fn raw::generator::Option@UnwrapString::unwrap_string as=vx_unwrap_string
//@ sig
pub fn vx_unwrap_string(vx_self: Option<String>) -> (r: Result<String, ErrorCode>)
    ensures match vx_self { Some(s) => r == Ok::<String, ErrorCode>(s), None => r is Err },
//@ rule self => vx_self
//@ end
impl PTy {
//@ fn raw::generator::RawType@GenerateOnRaw::generate as=gen ret=r
//@ rule &**self => vx_mt(self)
//@ rule __e.generate(__p, __i) => __e.gen(__p, __i)
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Type, ErrorCode>)
    requires raw_ok(), okt(*self),
    ensures r is Ok, r->Ok_0@ == rty(*self), *final(program) == *old(program), *final(info) == *old(info),
//@ entry
    proof { use_t(*self); }
//@ end
}
impl RawSliceIter<'_, PTy> {
//@ fn raw::generator::RawSliceIter::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.gen(__p, __i)
//@ rule self.map(|__p| __b).collect() => { let mut vx_v: Vec<Type> = Vec::new(); for __p in self { vx_v.push(match __b { Ok(vx_x) => vx_x, Err(vx_e) => return Err(vx_e) }); } Ok(vx_v) }
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Vec<Type>, ErrorCode>)
    requires raw_ok(), self.index == 0, forall|i: int| 0 <= i < self.slice.len ==> okt(#[trigger] sl::<PTy>(*self.slice)[i]),
    ensures r is Ok, tys(r->Ok_0@) == rtys(sl::<PTy>(*self.slice)), *final(program) == *old(program), *final(info) == *old(info),
//@ entry
    let ghost q = sl::<PTy>(*self.slice);
//@ loop 0
    invariant
        raw_ok(), forall|i: int| 0 <= i < q.len() ==> okt(#[trigger] q[i]), q == sl::<PTy>(*vx_it0.slice), vx_it0.slice == self.slice, vx_it0.index == vx_v@.len(), vx_it0.index <= q.len(),
        *program == *old(program), *info == *old(info),
        forall|i: int| 0 <= i < vx_v@.len() ==> (#[trigger] vx_v@[i])@ == rty(q[i]),
    ensures vx_v@.len() == q.len(),
    decreases q.len() - vx_it0.index,
//@ afterloop 0
    proof { assert(tys(vx_v@) =~= rtys(q)); }
//@ end
}
impl PStr {
//@ fn raw::generator::c_char@GenerateOnRaw::generate as=gen ret=r
//@ sig
pub fn gen(&self, p: &mut Program, i: &mut ProgramInfo) -> (r: Result<Option<String>, ErrorCode>)
    requires self.a == 0 || mstr(*self) is Some,
    ensures r is Ok, nm(r->Ok_0) == rnm(*self), *final(p) == *old(p), *final(i) == *old(i),
//@ end
}
impl RawInteger {
//@ fn raw::generator::RawInteger@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.rd(__p, __i, vx_raw!(Ghost(vx_s)), vx_raw!(Ghost(vx_k)))
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Value, ErrorCode>)
    requires pay_pre(st(*old(program), *old(info)), RawValueKind::Integer(*self)),
    ensures r is Ok, made(st(*old(program), *old(info)), st(*final(program), *final(info)), RawValueKind::Integer(*self), r->Ok_0),
//@ entry
    let ghost vx_s = st(*program, *info);
    let ghost vx_k = RawValueKind::Integer(*self);
    let ghost vx_o = ops(vx_k);
    proof { acc_refl(vx_s, vx_o, blk(vx_k)); use_rdy(*program, *info); ops_in(vx_k); }
//@ end
}
impl RawAggregate {
//@ fn raw::generator::RawAggregate@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.rd(__p, __i, vx_raw!(Ghost(vx_s)), vx_raw!(Ghost(vx_k)))
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Value, ErrorCode>)
    requires pay_pre(st(*old(program), *old(info)), RawValueKind::Aggregate(*self)),
    ensures r is Ok, made(st(*old(program), *old(info)), st(*final(program), *final(info)), RawValueKind::Aggregate(*self), r->Ok_0),
//@ entry
    let ghost vx_s = st(*program, *info);
    let ghost vx_k = RawValueKind::Aggregate(*self);
    let ghost vx_o = ops(vx_k);
    proof { acc_refl(vx_s, vx_o, blk(vx_k)); use_rdy(*program, *info); ops_in(vx_k); }
//@ end
}
impl RawGlobalAlloc {
//@ fn raw::generator::RawGlobalAlloc@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.rd(__p, __i, vx_raw!(Ghost(vx_s)), vx_raw!(Ghost(vx_k)))
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Value, ErrorCode>)
    requires pay_pre(st(*old(program), *old(info)), RawValueKind::GlobalAlloc(*self)),
    ensures r is Ok, made(st(*old(program), *old(info)), st(*final(program), *final(info)), RawValueKind::GlobalAlloc(*self), r->Ok_0),
//@ entry
    let ghost vx_s = st(*program, *info);
    let ghost vx_k = RawValueKind::GlobalAlloc(*self);
    let ghost vx_o = ops(vx_k);
    proof { acc_refl(vx_s, vx_o, blk(vx_k)); use_rdy(*program, *info); ops_in(vx_k); }
//@ end
}
impl RawLoad {
//@ fn raw::generator::RawLoad@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.rd(__p, __i, vx_raw!(Ghost(vx_s)), vx_raw!(Ghost(vx_k)))
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Value, ErrorCode>)
    requires pay_pre(st(*old(program), *old(info)), RawValueKind::Load(*self)),
    ensures r is Ok, made(st(*old(program), *old(info)), st(*final(program), *final(info)), RawValueKind::Load(*self), r->Ok_0),
//@ entry
    let ghost vx_s = st(*program, *info);
    let ghost vx_k = RawValueKind::Load(*self);
    let ghost vx_o = ops(vx_k);
    proof { acc_refl(vx_s, vx_o, blk(vx_k)); use_rdy(*program, *info); ops_in(vx_k); }
//@ end
}
impl RawStore {
//@ fn raw::generator::RawStore@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.rd(__p, __i, vx_raw!(Ghost(vx_s)), vx_raw!(Ghost(vx_k)))
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Value, ErrorCode>)
    requires pay_pre(st(*old(program), *old(info)), RawValueKind::Store(*self)),
    ensures r is Ok, made(st(*old(program), *old(info)), st(*final(program), *final(info)), RawValueKind::Store(*self), r->Ok_0),
//@ entry
    let ghost vx_s = st(*program, *info);
    let ghost vx_k = RawValueKind::Store(*self);
    let ghost vx_o = ops(vx_k);
    proof { acc_refl(vx_s, vx_o, blk(vx_k)); use_rdy(*program, *info); ops_in(vx_k); }
//@ end
}
impl RawGetPtr {
//@ fn raw::generator::RawGetPtr@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.rd(__p, __i, vx_raw!(Ghost(vx_s)), vx_raw!(Ghost(vx_k)))
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Value, ErrorCode>)
    requires pay_pre(st(*old(program), *old(info)), RawValueKind::GetPtr(*self)),
    ensures r is Ok, made(st(*old(program), *old(info)), st(*final(program), *final(info)), RawValueKind::GetPtr(*self), r->Ok_0),
//@ entry
    let ghost vx_s = st(*program, *info);
    let ghost vx_k = RawValueKind::GetPtr(*self);
    let ghost vx_o = ops(vx_k);
    proof { acc_refl(vx_s, vx_o, blk(vx_k)); use_rdy(*program, *info); ops_in(vx_k); }
//@ end
}
impl RawGetElemPtr {
//@ fn raw::generator::RawGetElemPtr@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.rd(__p, __i, vx_raw!(Ghost(vx_s)), vx_raw!(Ghost(vx_k)))
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Value, ErrorCode>)
    requires pay_pre(st(*old(program), *old(info)), RawValueKind::GetElemPtr(*self)),
    ensures r is Ok, made(st(*old(program), *old(info)), st(*final(program), *final(info)), RawValueKind::GetElemPtr(*self), r->Ok_0),
//@ entry
    let ghost vx_s = st(*program, *info);
    let ghost vx_k = RawValueKind::GetElemPtr(*self);
    let ghost vx_o = ops(vx_k);
    proof { acc_refl(vx_s, vx_o, blk(vx_k)); use_rdy(*program, *info); ops_in(vx_k); }
//@ end
}
impl RawBinary {
//@ fn raw::generator::RawBinary@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.rd(__p, __i, vx_raw!(Ghost(vx_s)), vx_raw!(Ghost(vx_k)))
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Value, ErrorCode>)
    requires pay_pre(st(*old(program), *old(info)), RawValueKind::Binary(*self)),
    ensures r is Ok, made(st(*old(program), *old(info)), st(*final(program), *final(info)), RawValueKind::Binary(*self), r->Ok_0),
//@ entry
    let ghost vx_s = st(*program, *info);
    let ghost vx_k = RawValueKind::Binary(*self);
    let ghost vx_o = ops(vx_k);
    proof { acc_refl(vx_s, vx_o, blk(vx_k)); use_rdy(*program, *info); ops_in(vx_k); }
//@ end
}
impl RawBranch {
//@ fn raw::generator::RawBranch@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.rd(__p, __i, vx_raw!(Ghost(vx_s)), vx_raw!(Ghost(vx_k)))
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Value, ErrorCode>)
    requires pay_pre(st(*old(program), *old(info)), RawValueKind::Branch(*self)),
    ensures r is Ok, made(st(*old(program), *old(info)), st(*final(program), *final(info)), RawValueKind::Branch(*self), r->Ok_0),
//@ entry
    let ghost vx_s = st(*program, *info);
    let ghost vx_k = RawValueKind::Branch(*self);
    let ghost vx_o = ops(vx_k);
    proof { acc_refl(vx_s, vx_o, blk(vx_k)); use_rdy(*program, *info); ops_in(vx_k); }
//@ end
}
impl RawJump {
//@ fn raw::generator::RawJump@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.rd(__p, __i, vx_raw!(Ghost(vx_s)), vx_raw!(Ghost(vx_k)))
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Value, ErrorCode>)
    requires pay_pre(st(*old(program), *old(info)), RawValueKind::Jump(*self)),
    ensures r is Ok, made(st(*old(program), *old(info)), st(*final(program), *final(info)), RawValueKind::Jump(*self), r->Ok_0),
//@ entry
    let ghost vx_s = st(*program, *info);
    let ghost vx_k = RawValueKind::Jump(*self);
    let ghost vx_o = ops(vx_k);
    proof { acc_refl(vx_s, vx_o, blk(vx_k)); use_rdy(*program, *info); ops_in(vx_k); }
//@ end
}
impl RawCall {
//@ fn raw::generator::RawCall@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.rd(__p, __i, vx_raw!(Ghost(vx_s)), vx_raw!(Ghost(vx_k)))
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Value, ErrorCode>)
    requires pay_pre(st(*old(program), *old(info)), RawValueKind::Call(*self)),
    ensures r is Ok, made(st(*old(program), *old(info)), st(*final(program), *final(info)), RawValueKind::Call(*self), r->Ok_0),
//@ entry
    let ghost vx_s = st(*program, *info);
    let ghost vx_k = RawValueKind::Call(*self);
    let ghost vx_o = ops(vx_k);
    proof { acc_refl(vx_s, vx_o, blk(vx_k)); use_rdy(*program, *info); ops_in(vx_k); }
//@ end
}
impl RawReturn {
//@ fn raw::generator::RawReturn@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.rd(__p, __i, vx_raw!(Ghost(vx_s)), vx_raw!(Ghost(vx_k)))
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Value, ErrorCode>)
    requires pay_pre(st(*old(program), *old(info)), RawValueKind::Return(*self)),
    ensures r is Ok, made(st(*old(program), *old(info)), st(*final(program), *final(info)), RawValueKind::Return(*self), r->Ok_0),
//@ entry
    let ghost vx_s = st(*program, *info);
    let ghost vx_k = RawValueKind::Return(*self);
    let ghost vx_o = ops(vx_k);
    proof { acc_refl(vx_s, vx_o, blk(vx_k)); use_rdy(*program, *info); ops_in(vx_k); }
//@ end
}

impl PVal {
    /// `generate`, as one more operand
    #[verifier::exec_allows_no_decreases_clause]
    pub fn rd(&self, program: &mut Program, info: &mut ProgramInfo, Ghost(a): Ghost<ST>, Ghost(k): Ghost<RawValueKind>) -> (r: Result<Value, ErrorCode>)
        requires raw_ok(), w(a), acc(a, st(*old(program), *old(info)), ops(k), blk(k)), opv(a.cur, *self), blk(k) || ops(k).contains(*self),
        ensures
            r is Ok, acc(a, st(*final(program), *final(info)), ops(k), blk(k)), got(st(*old(program), *old(info)), st(*final(program), *final(info)), a.cur), okc(*final(program), *final(info)),
            lk(st(*final(program), *final(info)), a.cur, *self) == Some(r->Ok_0), typ(st(*final(program), *final(info)), a.cur, *self, r->Ok_0),
    {
        let ghost b = st(*program, *info);
        proof { reveal(step); }
        let r = self.gen(program, info);
        proof {
            let c = st(*program, *info);
            acc_more(a, b, c, ops(k), seq![*self], blk(k), false);
            operand(c, a.cur, *self);
            use_rdy(*program, *info);
        }
        r
    }
//@ fn raw::generator::RawValue@GenerateOnRaw::generate as=gen ret=r panics=refuse
//@ rule &**self => vx_mv(self)
//@ rule __e.generate(__p, __i) => __e.gen(__p, __i)
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Value, ErrorCode>)
    requires raw_ok(), w(st(*old(program), *old(info))), rdy(st(*old(program), *old(info))), rv_ok(st(*old(program), *old(info)), *self),
    ensures r is Ok, rv_post(st(*old(program), *old(info)), st(*final(program), *final(info)), *self, r->Ok_0),
//@ entry
    let ghost vx_ok = !(mv(*self).kind is BlockArgRef);
    let ghost a = st(*program, *info);
    proof { use_rdy(*program, *info); val_start(a, *self); }
//@ exit
    proof {
        if lk(a, a.cur, *self) is None { bound_post(a, st(*program, *info), *self, vx_ret->Ok_0); }
    }
//@ end
}
impl RawSliceIter<'_, PVal> {
    #[verifier::exec_allows_no_decreases_clause]
    pub fn rd(self, program: &mut Program, info: &mut ProgramInfo, Ghost(a): Ghost<ST>, Ghost(k): Ghost<RawValueKind>) -> (r: Result<Vec<Value>, ErrorCode>)
        requires
            raw_ok(), w(a), acc(a, st(*old(program), *old(info)), ops(k), blk(k)), self.index == 0, opvs(a.cur, vals(*self.slice)),
            blk(k) || (forall|i: int| 0 <= i < self.slice.len ==> ops(k).contains(#[trigger] vals(*self.slice)[i])),
        ensures
            r is Ok, acc(a, st(*final(program), *final(info)), ops(k), blk(k)), got(st(*old(program), *old(info)), st(*final(program), *final(info)), a.cur), okc(*final(program), *final(info)),
            lks(st(*final(program), *final(info)), a.cur, vals(*self.slice), r->Ok_0@), typs(st(*final(program), *final(info)), a.cur, vals(*self.slice), r->Ok_0@),
    {
        let ghost b = st(*program, *info);
        let ghost q = vals(*self.slice);
        proof { reveal(step); }
        let r = self.gen(program, info);
        proof {
            let c = st(*program, *info);
            acc_more(a, b, c, ops(k), q, blk(k), false);
            operands(c, a.cur, q, r->Ok_0@);
            use_rdy(*program, *info);
        }
        r
    }
//@ fn raw::generator::RawSliceIter::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.gen(__p, __i)
//@ rule self.map(|__p| __b).collect() => { let mut vx_v: Vec<Value> = Vec::new(); for __p in self { vx_v.push(match __b { Ok(vx_x) => vx_x, Err(vx_e) => return Err(vx_e) }); } Ok(vx_v) }
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Vec<Value>, ErrorCode>)
    requires
        raw_ok(), w(st(*old(program), *old(info))), rdy(st(*old(program), *old(info))), self.index == 0,
        opvs(st(*old(program), *old(info)).cur, vals(*self.slice)),
    ensures
        r is Ok, acc(st(*old(program), *old(info)), st(*final(program), *final(info)), vals(*self.slice), false),
        lks(st(*final(program), *final(info)), st(*old(program), *old(info)).cur, vals(*self.slice), r->Ok_0@),
//@ entry
    let ghost a = st(*program, *info);
    let ghost q = vals(*self.slice);
    proof { acc_refl(a, q, false); }
//@ loop 0
    invariant
        raw_ok(), w(a), opvs(a.cur, q), q == vals(*vx_it0.slice), vx_it0.slice == self.slice, vx_it0.index == vx_v@.len(), vx_it0.index <= q.len(),
        acc(a, st(*program, *info), q, false), st(*program, *info).cur == a.cur,
        forall|i: int| 0 <= i < vx_v@.len() ==> lk(st(*program, *info), a.cur, #[trigger] q[i]) == Some(vx_v@[i]),
    ensures vx_v@.len() == q.len(),
    decreases q.len() - vx_it0.index,
//@ body 0
    let ghost b = st(*program, *info);
//@ bodyend 0
    proof {
        let c = st(*program, *info);
        let p = q[vx_it0.index - 1];
        assert(q.contains(p));
        assert(b.cur == a.cur) by { reveal(step); }
        acc_more(a, b, c, q, seq![p], false, false);
    }
//@ end
}
impl PBb {
    #[verifier::exec_allows_no_decreases_clause]
    pub fn rd(&self, program: &mut Program, info: &mut ProgramInfo, Ghost(a): Ghost<ST>, Ghost(k): Ghost<RawValueKind>) -> (r: Result<BasicBlock, ErrorCode>)
        requires raw_ok(), w(a), acc(a, st(*old(program), *old(info)), ops(k), blk(k)), a.cur != nullf(), okb(a.cur, *self), blk(k),
        ensures
            r is Ok, acc(a, st(*final(program), *final(info)), ops(k), blk(k)), got(st(*old(program), *old(info)), st(*final(program), *final(info)), a.cur), okc(*final(program), *final(info)),
            lb(st(*final(program), *final(info)), a.cur, *self) == Some(r->Ok_0), bty(st(*final(program), *final(info)), a.cur, *self, r->Ok_0),
    {
        let ghost b = st(*program, *info);
        proof { reveal(step); }
        let r = self.gen(program, info);
        proof {
            let c = st(*program, *info);
            acc_more(a, b, c, ops(k), Seq::empty(), blk(k), true);
            block_bty(c, a.cur, *self);
            use_rdy(*program, *info);
        }
        r
    }
//@ fn raw::generator::RawBasicBlock@GenerateOnRaw::generate as=gen ret=r
//@ rule &**self => vx_mb(self)
//@ rule __e.name.generate(__p, __i) => __e.name.gen(__p, __i)
//@ rule __e.ty.generate(__p, __i) => __e.ty.gen(__p, __i)
//@ rule __e.generate(__p, __i) => __e.rdi(__p, __i, vx_raw!(Ghost(a)), vx_raw!(Ghost(*self)))
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<BasicBlock, ErrorCode>)
    requires bb_pre(st(*old(program), *old(info)), *self),
    ensures r is Ok, bb_post(st(*old(program), *old(info)), st(*final(program), *final(info)), *self, r->Ok_0),
//@ entry
    let ghost a = st(*program, *info);
    let ghost ps = vals(mb(*self).params);
    let ghost q = vals(mb(*self).insts);
    proof { use_rdy(*program, *info); use_b(a.cur, *self); bb_start(a, *self); step_refl(a, a.cur, None); reveal(nob); assert(forall|q: PVal| !newk(a, a, a.cur, q)); }
//@ loop 0
    invariant
        raw_ok(), *program == *old(program), *info == *old(info), ps == vals(*vx_it0.slice), vx_it0.slice == mb(*self).params, vx_it0.index == vx_v@.len(), vx_it0.index <= ps.len(),
        b_ok(a.cur, *self), ps == vals(mb(*self).params),
        forall|i: int| 0 <= i < vx_v@.len() ==> nm((#[trigger] vx_v@[i]).0) == rnm(mv(ps[i]).name) && vx_v@[i].1@ == oty(ps[i]),
    ensures vx_v@.len() == ps.len(),
    decreases ps.len() - vx_it0.index,
//@ afterloop 0
    proof { assert(nts(vx_v@) =~= rpars(ps)); }
//@ loop 1
    invariant
        inst_inv(a, st(*program, *info), *self), q == vals(*vx_it1.slice), q == vals(mb(*self).insts), vx_it1.index <= q.len(),
        ilen(st(*program, *info), *self) == vx_it1.index, okc(*program, *info), lb(st(*program, *info), a.cur, *self) == Some(bb),
    ensures ilen(st(*program, *info), *self) == q.len(),
    decreases q.len() - vx_it1.index,
//@ beforeloop 1
    proof {
        let s = st(*program, *info);
        let v = fmd(s, a.cur).order.last();
        assert(addb(a, s, *self, v));
        addb_ok(a, s, *self, v);
        use_rdy(*program, *info);
    }
//@ exit
    proof {
        let s = st(*program, *info);
        if lb(a, a.cur, *self) is None { inst_done(a, s, *self); }
    }
//@ end
}
impl PVal {
    /// `generate`, as the next instruction of `b`
    #[verifier::exec_allows_no_decreases_clause]
    pub fn rdi(&self, program: &mut Program, info: &mut ProgramInfo, Ghost(a): Ghost<ST>, Ghost(b): Ghost<PBb>) -> (r: Result<Value, ErrorCode>)
        requires
            inst_inv(a, st(*old(program), *old(info)), b), ilen(st(*old(program), *old(info)), b) < mb(b).insts.len,
            *self == vals(mb(b).insts)[ilen(st(*old(program), *old(info)), b) as int],
        ensures
            r is Ok, okc(*final(program), *final(info)), st(*final(program), *final(info)).cur == a.cur,
            lb(st(*final(program), *final(info)), a.cur, b) == lb(st(*old(program), *old(info)), a.cur, b),
            can_push(st(*final(program), *final(info)), b, r->Ok_0),
            inst_inv(a, pushi(st(*final(program), *final(info)), lb(st(*final(program), *final(info)), a.cur, b)->0, r->Ok_0), b),
            ilen(pushi(st(*final(program), *final(info)), lb(st(*final(program), *final(info)), a.cur, b)->0, r->Ok_0), b) == ilen(st(*old(program), *old(info)), b) + 1,
    {
        let ghost m = st(*program, *info);
        proof { inst_pre(a, m, b, *self); }
        let r = self.gen(program, info);
        proof {
            inst_next(a, m, st(*program, *info), b, *self, r->Ok_0);
            use_rdy(*program, *info);
        }
        r
    }
}
impl PFn {
    #[verifier::exec_allows_no_decreases_clause]
    pub fn rd(&self, program: &mut Program, info: &mut ProgramInfo, Ghost(a): Ghost<ST>, Ghost(k): Ghost<RawValueKind>) -> (r: Result<Function, ErrorCode>)
        requires raw_ok(), w(a), acc(a, st(*old(program), *old(info)), ops(k), blk(k)), a.cur != nullf(), okf(*self),
        ensures
            r is Ok, acc(a, st(*final(program), *final(info)), ops(k), blk(k)), got(st(*old(program), *old(info)), st(*final(program), *final(info)), a.cur), okc(*final(program), *final(info)),
            lf(st(*final(program), *final(info)), *self) == Some(r->Ok_0),
            st(*final(program), *final(info)).pm.fns.contains_key(r->Ok_0), st(*final(program), *final(info)).pm.fns[r->Ok_0].ty == rty(mf(*self).ty),
    {
        let ghost b = st(*program, *info);
        proof { reveal(step); }
        let r = self.gen(program, info);
        proof {
            let c = st(*program, *info);
            fstep_step(b, c, a.cur);
            reveal(fstep); reveal(only);
            assert forall|q: PVal| !newk(b, c, a.cur, q) by { fstep_new(b, c, a.cur, q); }
            acc_more(a, b, c, ops(k), Seq::empty(), blk(k), false);
            use_rdy(*program, *info);
            assert(wf(c, *self));
            reveal(wf);
        }
        r
    }
//@ fn raw::generator::RawFunction@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.clone() => __e.vx_clone()
//@ rule &**self => vx_mf(self)
//@ rule __e.generate(__p, __i) => __e.gen(__p, __i)
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<Function, ErrorCode>)
    requires raw_ok(), w(st(*old(program), *old(info))), gready(st(*old(program), *old(info))), okf(*self),
    ensures r is Ok, w(st(*final(program), *final(info))), fstep(st(*old(program), *old(info)), st(*final(program), *final(info))),
        lf(st(*final(program), *final(info)), *self) == Some(r->Ok_0),
//@ entry
    let ghost a = st(*program, *info);
    let ghost f = *self;
    let ghost ps = vals(mf(*self).params);
    let ghost bs = sl::<PBb>(mf(*self).bbs);
    let ghost mut gs: ST = a;
    let ghost mut gt: ST = a;
    proof { use_f(f); assert(fstep(a, a)) by { reveal(fstep); } assert(otys(ps).len() == ps.len()); assert forall|v: Seq<Type>| #[trigger] tys(v) == rty(mf(f).ty)->Fun_0 implies v.len() == (rty(mf(f).ty)->Fun_0).len() by { tys_len(v); } }
//@ loop 0
    invariant_except_break
        vx_it0.i == vx_v@.len(), vx_it0.b.index == vx_v@.len(),
    invariant
        raw_ok(), *program == *old(program), *info == *old(info), f_ok(f), raw == mf(f), mf(f).bbs.len != 0, ps == vals(mf(f).params), ps.len() == params@.len(), otys(ps) == tys(params@),
        vx_it0.a == &params, vx_it0.b.slice == &raw.params, vx_v@.len() <= ps.len(),
        forall|i: int| 0 <= i < vx_v@.len() ==> nm((#[trigger] vx_v@[i]).0) == rnm(mv(ps[i]).name) && vx_v@[i].1@ == oty(ps[i]),
    ensures vx_v@.len() == ps.len(),
    decreases ps.len() - vx_it0.i,
//@ body 0
    proof { assert(otys(ps)[vx_it0.i - 1] == tys(params@)[vx_it0.i - 1]); }
//@ afterloop 0
    proof { assert(nts(vx_v@) =~= rpars(ps)); assert(pty(rpars(ps)) =~= otys(ps));
        assert(pars_ok(rpars(ps))) by {
            assert forall|i: int| 0 <= i < rpars(ps).len() implies name_ok((#[trigger] rpars(ps)[i]).0) && !(rpars(ps)[i].1 is Unit) by {
                assert(otys(ps)[i] == (rty(mf(f).ty)->Fun_0)[i]);
                assert(okv(f, ps[i]));
            }
        }
    }
//@ loop 1
    invariant
        raw_ok(), f_ok(f), bs == sl::<PBb>(mf(f).bbs), bs == sl::<PBb>(*vx_it1.slice), vx_it1.index <= bs.len(), f != nullf(),
        w(st(*program, *info)), step(setc(gs, f), st(*program, *info), f, None), st(*program, *info).cur == f, gready(st(*program, *info)),
        setc(gs, f).fs.contains_key(f),
        fmd(st(*program, *info), f).order.len() > 0 || vx_it1.index == 0,
        forall|i: int| 0 <= i < vx_it1.index ==> st(*program, *info).fs[f].bbs.contains_key(#[trigger] bs[i]),
    ensures forall|i: int| 0 <= i < bs.len() ==> st(*program, *info).fs[f].bbs.contains_key(#[trigger] bs[i]),
    decreases bs.len() - vx_it1.index,
//@ beforeloop 1
    proof {
        gs = setc(st(*program, *info), a.cur);
        assert(addf(a, gs, f, func));
        addf_ok(a, gs, f, func);
        assert(st(*program, *info) == setc(gs, f));
        step_refl(setc(gs, f), f, None);
    }
//@ body 1
    let ghost b0 = st(*program, *info);
//@ bodyend 1
    proof {
        let b1 = st(*program, *info);
        step_trans(setc(gs, f), b0, b1, f, None);
        reveal(step);
        assert(b0.fs.contains_key(f));
    }
//@ afterloop 1
    proof { gt = st(*program, *info); }
//@ exit
    proof {
        let s = st(*program, *info);
        if !a.fs.contains_key(f) {
            let h = vx_ret->Ok_0;
            if mf(f).bbs.len == 0 {
                assert(addf(a, s, f, h));
                addf_ok(a, s, f, h);
            } else {
                assert(s == setc(gt, a.cur));
                func_done(a, gs, gt, f, h);
            }
        }
    }
//@ end
}
impl Program {
    /// assumed: a new program is empty
    #[verifier::external_body]
    pub fn new() -> (r: Program) ensures r.m() == no_st().pm, { unimplemented!() }
}
impl<'rpb> RawProgram<'rpb> {
//@ fn raw::generator::RawProgram@GenerateOnRaw::generate as=gen ret=r
//@ rule __e.generate(__p, __i) => __e.gen(__p, __i)
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn gen(&self, program: &mut Program, info: &mut ProgramInfo) -> (r: Result<(), ErrorCode>)
    requires raw_ok(), prog_ok(*self), st(*old(program), *old(info)) == no_st(),
    ensures r is Ok, read_all(*self, st(*final(program), *final(info))),
//@ entry
    let ghost q = vals(self.values);
    let ghost fq = sl::<PFn>(self.funcs);
    proof { no_st_w(); reveal(prog_ok); }
//@ loop 0
    invariant
        raw_ok(), prog_ok(*self), q == vals(*vx_it0.slice), q == vals(self.values), vx_it0.index <= q.len(), q.no_duplicates(),
        forall|i: int| 0 <= i < q.len() ==> gl(#[trigger] q[i]) && mv(q[i]).kind is GlobalAlloc,
        w(st(*program, *info)), st(*program, *info).cur == nullf(), globs(st(*program, *info), q, vx_it0.index as int), all_done(st(*program, *info)),
    ensures globs(st(*program, *info), q, q.len() as int),
    decreases q.len() - vx_it0.index,
//@ body 0
    let ghost b0 = st(*program, *info);
    let ghost i0 = vx_it0.index - 1;
    proof { assert(gl(q[i0])); use_gl(q[i0]); }
//@ bodyend 0
    proof {
        let b1 = st(*program, *info);
        let v = lk(b1, nullf(), q[i0])->0;
        glob_next(b0, b1, q, i0, v);
    }
//@ loop 1
    invariant
        raw_ok(), fq == sl::<PFn>(*vx_it1.slice), fq == sl::<PFn>(self.funcs), vx_it1.index <= fq.len(), forall|i: int| 0 <= i < fq.len() ==> okf(#[trigger] fq[i]),
        w(st(*program, *info)), st(*program, *info).cur == nullf(), globs(st(*program, *info), q, q.len() as int), all_done(st(*program, *info)), gready(st(*program, *info)),
        forall|i: int| 0 <= i < vx_it1.index ==> st(*program, *info).fs.contains_key(#[trigger] fq[i]),
    ensures forall|i: int| 0 <= i < fq.len() ==> st(*program, *info).fs.contains_key(#[trigger] fq[i]),
    decreases fq.len() - vx_it1.index,
//@ beforeloop 1
    proof {
        let s = st(*program, *info);
        reveal(prog_ok);
        assert forall|p: PVal| #[trigger] gl(p) implies s.gm.contains_key(p) by {
            let i = choose|i: int| 0 <= i < q.len() && q[i] == p;
            assert(get(s.gm, q[i]) == Some(s.pm.insts[i]));
        }
    }
//@ body 1
    let ghost b0 = st(*program, *info);
    proof { assert(okf(fq[vx_it1.index - 1])); }
//@ bodyend 1
    proof {
        let b1 = st(*program, *info);
        func_next(b0, b1);
        reveal(fstep);
    }
//@ end
}
//@ fn raw::generator::generate_program ret=r
//@ rule __e.generate(__p, __i) => __e.gen(__p, __i)
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn generate_program(raw: &RawProgram) -> (r: Result<Program, ErrorCode>)
    requires raw_ok(), prog_ok(*raw),
    ensures r is Ok, exists|s: ST| #[trigger] read_all(*raw, s) && s.pm == r->Ok_0.m(),
//@ entry
    proof {
        let e = Map::<PFn, FunctionInfo>::empty();
        assert(fmap(e) =~= Map::empty());
        assert forall|m: Map<PFn, FunctionInfo>| m == e implies #[trigger] fmap(m) == Map::<PFn, FI>::empty() by { }
    }
//@ end
} // mod rd
} // verus!
fn main() {}
