//@ include shim/base.vx
//@ include shim/kindcore.vx
//@ include shim/valacc.vx
//@ include shim/progview.vx
//@ source libkoopa
//@ include shim/rawtypes.vx
//@ include shim/rawheap.vx
//@ type *const RawValueData => VxPtr
//@ type RawObjects => (HashMap<Function, VxBox<RawFunctionData>>, HashMap<BasicBlock, VxBox<RawBasicBlockData>>, HashMap<Value, VxBox<RawValueData>>)
//@ rule __e.iter() => vx_iter(__e)
//@ rule self.into() => vx_owned(self)
//@ rule __e.value_used_by[__k] => vx_at(&__e.value_used_by, __k)
//@ rule &__e.bbs()[__k] => __e.bbs().vx_node(__k)
// ---- C13: the raw form of a program ----
use std::marker::PhantomData;
verus! {
//@ item raw::entities::RawProgram
//@ item raw::builder::RawProgramBuilder
//@ item raw::builder::ProgramInfo

pub type B = RawProgramBuilder;
pub type U<'a> = ProgramInfo<'a>;

// ---- references from raw objects to raw objects ----
pub open spec fn pv(b: B, v: Value, p: VxPtr) -> bool { b.values@.contains_key(v) && b.values@[v].p == p }
pub open spec fn pb(b: B, k: BasicBlock, p: VxPtr) -> bool { b.bbs@.contains_key(k) && b.bbs@[k].p == p }
pub open spec fn pf(b: B, f: Function, p: VxPtr) -> bool { b.funcs@.contains_key(f) && b.funcs@[f].p == p }
pub open spec fn pt(b: B, t: Type, p: VxPtr) -> bool { b.tys@.contains_key(t) && b.tys@[t].p == p }
/// the C string of a text
pub open spec fn ps(b: B, s: Seq<char>, p: VxPtr) -> bool { b.strs@.contains_key(s) && b.strs@[s]@ == s && b.strs@[s].addr() == p }
pub open spec fn po(b: B, s: Option<Seq<char>>, p: VxPtr) -> bool { match s { Some(s) => ps(b, s, p), None => p == vx_null } }
/// a slice of the raw program: the addresses `q`
pub open spec fn sl(b: B, r: RawSlice, q: Seq<VxPtr>, k: RawSliceItemKind) -> bool {
    exists|i: int| 0 <= i < b.slices@.len() && (#[trigger] b.slices@[i])@ == q && vec_addr(b.slices@[i]) == r.buffer && r.len == q.len() && r.kind == k
}
#[verifier::opaque]
pub open spec fn lv(b: B, s: Seq<Value>, r: RawSlice) -> bool {
    exists|q: Seq<VxPtr>| #[trigger] sl(b, r, q, RawSliceItemKind::Value) && q.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> pv(b, #[trigger] s[j], q[j])
}
#[verifier::opaque]
pub open spec fn lb(b: B, s: Seq<BasicBlock>, r: RawSlice) -> bool {
    exists|q: Seq<VxPtr>| #[trigger] sl(b, r, q, RawSliceItemKind::BasicBlock) && q.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> pb(b, #[trigger] s[j], q[j])
}
#[verifier::opaque]
pub open spec fn lf(b: B, s: Seq<Function>, r: RawSlice) -> bool {
    exists|q: Seq<VxPtr>| #[trigger] sl(b, r, q, RawSliceItemKind::Function) && q.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> pf(b, #[trigger] s[j], q[j])
}
#[verifier::opaque]
pub open spec fn lt(b: B, s: Seq<Type>, r: RawSlice) -> bool {
    exists|q: Seq<VxPtr>| #[trigger] sl(b, r, q, RawSliceItemKind::Type) && q.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> pt(b, #[trigger] s[j], q[j])
}

// ---- raw objects and what they stand for ----
pub open spec fn tkind_is(b: B, k: TypeKind, r: RawTypeKind) -> bool {
    match (k, r) {
        (TypeKind::Int32, RawTypeKind::Int32) => true,
        (TypeKind::Unit, RawTypeKind::Unit) => true,
        (TypeKind::Array(t, n), RawTypeKind::Array(p, m)) => pt(b, t, p) && m == n,
        (TypeKind::Pointer(t), RawTypeKind::Pointer(p)) => pt(b, t, p),
        (TypeKind::Function(a, t), RawTypeKind::Function(q, p)) => lt(b, a@, q) && pt(b, t, p),
        _ => false,
    }
}
pub open spec fn op_of(o: BinaryOp) -> RawBinaryOp {
    match o {
        BinaryOp::NotEq => RawBinaryOp::NotEq,
        BinaryOp::Eq => RawBinaryOp::Eq,
        BinaryOp::Gt => RawBinaryOp::Gt,
        BinaryOp::Lt => RawBinaryOp::Lt,
        BinaryOp::Ge => RawBinaryOp::Ge,
        BinaryOp::Le => RawBinaryOp::Le,
        BinaryOp::Add => RawBinaryOp::Add,
        BinaryOp::Sub => RawBinaryOp::Sub,
        BinaryOp::Mul => RawBinaryOp::Mul,
        BinaryOp::Div => RawBinaryOp::Div,
        BinaryOp::Mod => RawBinaryOp::Mod,
        BinaryOp::And => RawBinaryOp::And,
        BinaryOp::Or => RawBinaryOp::Or,
        BinaryOp::Xor => RawBinaryOp::Xor,
        BinaryOp::Shl => RawBinaryOp::Shl,
        BinaryOp::Shr => RawBinaryOp::Shr,
        BinaryOp::Sar => RawBinaryOp::Sar,
    }
}
pub open spec fn binary_is(b: B, v: Binary, r: RawBinary) -> bool { r.op == op_of(v.op) && pv(b, v.lhs, r.lhs) && pv(b, v.rhs, r.rhs) }
pub open spec fn branch_is(b: B, v: Branch, r: RawBranch) -> bool {
    pv(b, v.cond, r.cond) && pb(b, v.true_bb, r.true_bb) && pb(b, v.false_bb, r.false_bb) && lv(b, v.true_args@, r.true_args) && lv(b, v.false_args@, r.false_args)
}
pub open spec fn jump_is(b: B, v: Jump, r: RawJump) -> bool { pb(b, v.target, r.target) && lv(b, v.args@, r.args) }
pub open spec fn call_is(b: B, v: Call, r: RawCall) -> bool { pf(b, v.callee, r.callee) && lv(b, v.args@, r.args) }
pub open spec fn return_is(b: B, v: Return, r: RawReturn) -> bool { match v.value { Some(x) => pv(b, x, r.value), None => r.value == vx_null } }
pub open spec fn kind_is(b: B, k: ValueKind, r: RawValueKind) -> bool {
    match (k, r) {
        (ValueKind::Integer(v), RawValueKind::Integer(r)) => r.value == v.value,
        (ValueKind::ZeroInit(_), RawValueKind::ZeroInit) => true,
        (ValueKind::Undef(_), RawValueKind::Undef) => true,
        (ValueKind::Aggregate(v), RawValueKind::Aggregate(r)) => lv(b, v.elems@, r.elems),
        (ValueKind::FuncArgRef(v), RawValueKind::FuncArgRef(r)) => r.index == v.index,
        (ValueKind::BlockArgRef(v), RawValueKind::BlockArgRef(r)) => r.index == v.index,
        (ValueKind::Alloc(_), RawValueKind::Alloc) => true,
        (ValueKind::GlobalAlloc(v), RawValueKind::GlobalAlloc(r)) => pv(b, v.init, r.init),
        (ValueKind::Load(v), RawValueKind::Load(r)) => pv(b, v.src, r.src),
        (ValueKind::Store(v), RawValueKind::Store(r)) => pv(b, v.value, r.value) && pv(b, v.dest, r.dest),
        (ValueKind::GetPtr(v), RawValueKind::GetPtr(r)) => pv(b, v.src, r.src) && pv(b, v.index, r.index),
        (ValueKind::GetElemPtr(v), RawValueKind::GetElemPtr(r)) => pv(b, v.src, r.src) && pv(b, v.index, r.index),
        (ValueKind::Binary(v), RawValueKind::Binary(r)) => binary_is(b, v, r),
        (ValueKind::Branch(v), RawValueKind::Branch(r)) => branch_is(b, v, r),
        (ValueKind::Jump(v), RawValueKind::Jump(r)) => jump_is(b, v, r),
        (ValueKind::Call(v), RawValueKind::Call(r)) => call_is(b, v, r),
        (ValueKind::Return(v), RawValueKind::Return(r)) => return_is(b, v, r),
        _ => false,
    }
}
pub open spec fn value_is(b: B, d: ValueData, r: RawValueData) -> bool { pt(b, d.typed(), r.ty) && po(b, d.named(), r.name) && kind_is(b, d.what(), r.kind) }
pub open spec fn block_is(b: B, f: FunctionData, k: BasicBlock, r: RawBasicBlockData) -> bool {
    let d = f.bbs()[k];
    po(b, d.named(), r.name) && lv(b, d.pars(), r.params) && lv(b, set_order(d.users()), r.used_by) && lv(b, f.body()[k], r.insts)
}
pub open spec fn func_is(b: B, f: FunctionData, r: RawFunctionData) -> bool {
    pt(b, f.typed(), r.ty) && ps(b, f.named(), r.name) && lv(b, f.pars(), r.params) && lb(b, f.order(), r.bbs)
}

// ---- the program: every entity has one owner (C15), operands are in scope (C01), blocks are laid out ----
pub open spec fn local_in(p: Program, f: Function, v: Value) -> bool { p.fns().contains_key(f) && p.fns()[f].vals().contains_key(v) }
pub open spec fn block_in(p: Program, f: Function, k: BasicBlock) -> bool { p.fns().contains_key(f) && p.fns()[f].bbs().contains_key(k) }
pub open spec fn owner(p: Program, v: Value) -> Function { choose|f: Function| local_in(p, f, v) }
pub open spec fn home(p: Program, k: BasicBlock) -> Function { choose|f: Function| block_in(p, f, k) }
pub open spec fn dat(p: Program, v: Value) -> ValueData { if global(v) { p.gvals()[v] } else { p.fns()[owner(p, v)].vals()[v] } }
pub open spec fn see_v(p: Program, f: Option<&FunctionData>, v: Value) -> bool {
    if global(v) { p.gvals().contains_key(v) } else { f is Some && f->0.vals().contains_key(v) }
}
pub open spec fn see_b(f: Option<&FunctionData>, k: BasicBlock) -> bool { f is Some && f->0.bbs().contains_key(k) && f->0.body().contains_key(k) }
pub open spec fn fit(n: nat) -> bool { n <= u32::MAX }
pub open spec fn see_vs(p: Program, f: Option<&FunctionData>, s: Seq<Value>) -> bool { fit(s.len()) && forall|j: int| 0 <= j < s.len() ==> see_v(p, f, #[trigger] s[j]) }
pub open spec fn see_kind(p: Program, f: Option<&FunctionData>, k: ValueKind) -> bool {
    match k {
        ValueKind::Aggregate(v) => see_vs(p, f, v.elems@),
        ValueKind::GlobalAlloc(v) => see_v(p, f, v.init),
        ValueKind::Load(v) => see_v(p, f, v.src),
        ValueKind::Store(v) => see_v(p, f, v.value) && see_v(p, f, v.dest),
        ValueKind::GetPtr(v) => see_v(p, f, v.src) && see_v(p, f, v.index),
        ValueKind::GetElemPtr(v) => see_v(p, f, v.src) && see_v(p, f, v.index),
        ValueKind::Binary(v) => see_v(p, f, v.lhs) && see_v(p, f, v.rhs),
        ValueKind::Branch(v) => see_v(p, f, v.cond) && see_b(f, v.true_bb) && see_b(f, v.false_bb) && see_vs(p, f, v.true_args@) && see_vs(p, f, v.false_args@),
        ValueKind::Jump(v) => see_b(f, v.target) && see_vs(p, f, v.args@),
        ValueKind::Call(v) => p.fns().contains_key(v.callee) && see_vs(p, f, v.args@),
        ValueKind::Return(v) => match v.value { Some(x) => see_v(p, f, x), None => true },
        _ => true,
    }
}
pub open spec fn named_ok(s: Option<Seq<char>>) -> bool { match s { Some(s) => no_nul(s), None => true } }
pub open spec fn see_data(p: Program, f: Option<&FunctionData>, d: ValueData) -> bool {
    see_kind(p, f, d.what()) && named_ok(d.named()) && fit(set_order(d.users()).len())
}
pub open spec fn see_block(p: Program, f: FunctionData, k: BasicBlock) -> bool {
    let d = f.bbs()[k];
    &&& named_ok(d.named())
    &&& see_vs(p, Some(&f), d.pars())
    &&& see_vs(p, Some(&f), set_order(d.users()))
    &&& f.body().contains_key(k) ==> see_vs(p, Some(&f), f.body()[k])
}
pub open spec fn see_func(p: Program, f: FunctionData) -> bool {
    &&& no_nul(f.named())
    &&& see_vs(p, Some(&f), f.pars())
    &&& fit(f.order().len())
    &&& forall|j: int| 0 <= j < f.order().len() ==> see_b(Some(&f), #[trigger] f.order()[j])
}
#[verifier::opaque]
pub open spec fn program_ok(p: Program) -> bool {
    &&& forall|f: Function, g: Function, v: Value| #![trigger local_in(p, f, v), local_in(p, g, v)] local_in(p, f, v) && local_in(p, g, v) ==> f == g
    &&& forall|f: Function, g: Function, k: BasicBlock| #![trigger block_in(p, f, k), block_in(p, g, k)] block_in(p, f, k) && block_in(p, g, k) ==> f == g
    &&& forall|v: Value| #[trigger] p.gvals().contains_key(v) ==> see_data(p, None, p.gvals()[v])
    &&& forall|f: Function, v: Value| #[trigger] local_in(p, f, v) ==> see_data(p, Some(&p.fns()[f]), p.fns()[f].vals()[v])
    &&& forall|f: Function, k: BasicBlock| #[trigger] block_in(p, f, k) ==> see_block(p, p.fns()[f], k)
    &&& forall|f: Function| #[trigger] p.fns().contains_key(f) ==> see_func(p, p.fns()[f])
}
/// parameter lists of types are not longer than a slice can say
pub open spec fn types_fit() -> bool { forall|t: Type| match #[trigger] tk(t) { TypeKind::Function(a, _) => fit(a@.len()), _ => true } }

/// depth of a type: types are built from types that exist, so this is well-founded
pub uninterp spec fn tdepth(t: Type) -> nat;
pub uninterp spec fn kdepth(t: TypeKind) -> nat;
#[verifier::external_body]
pub proof fn axiom_kdepth(k: TypeKind)
    ensures
        match k {
            TypeKind::Array(b, _) => tdepth(b) < kdepth(k),
            TypeKind::Pointer(b) => tdepth(b) < kdepth(k),
            TypeKind::Function(a, b) => tdepth(b) < kdepth(k) && forall|i: int| 0 <= i < a@.len() ==> tdepth(#[trigger] a@[i]) < kdepth(k),
            _ => true,
        },
{}
/// types added between two states are shallower than `n`
pub open spec fn below(b0: B, b1: B, n: nat) -> bool { forall|t: Type| #[trigger] b1.tys@.contains_key(t) && !b0.tys@.contains_key(t) ==> tdepth(t) < n }

pub open spec fn among(b0: B, b1: B, s: Seq<Type>) -> bool {
    forall|t: Type| #[trigger] b1.tys@.contains_key(t) && !b0.tys@.contains_key(t) ==> exists|j: int| 0 <= j < s.len() && tdepth(t) <= tdepth(#[trigger] s[j])
}

// ---- builder states ----
pub open spec fn v_ok(p: Program, b: B, v: Value) -> bool { value_is(b, dat(p, v), b.values@[v].c) }
pub open spec fn b_ok(p: Program, b: B, k: BasicBlock) -> bool { block_is(b, p.fns()[home(p, k)], k, b.bbs@[k].c) }
pub open spec fn f_ok(p: Program, b: B, f: Function) -> bool { func_is(b, p.fns()[f], b.funcs@[f].c) }
pub open spec fn t_ok(b: B, t: Type) -> bool { tkind_is(b, tk(t), b.tys@[t].c) }
/// strings and types are shared by all raw programs of a builder
#[verifier::opaque]
pub open spec fn inv(b: B) -> bool {
    &&& forall|s: Seq<char>| #[trigger] b.strs@.contains_key(s) ==> b.strs@[s]@ == s
    &&& forall|t: Type| #[trigger] b.tys@.contains_key(t) ==> t_ok(b, t)
}
pub open spec fn grows(b0: B, b1: B) -> bool {
    &&& forall|v: Value| #![trigger b0.values@.contains_key(v)] #![trigger b1.values@.contains_key(v)] b0.values@.contains_key(v) ==> b1.values@.contains_key(v) && b1.values@[v].p == b0.values@[v].p
    &&& forall|k: BasicBlock| #![trigger b0.bbs@.contains_key(k)] #![trigger b1.bbs@.contains_key(k)] b0.bbs@.contains_key(k) ==> b1.bbs@.contains_key(k) && b1.bbs@[k].p == b0.bbs@[k].p
    &&& forall|f: Function| #![trigger b0.funcs@.contains_key(f)] #![trigger b1.funcs@.contains_key(f)] b0.funcs@.contains_key(f) ==> b1.funcs@.contains_key(f) && b1.funcs@[f].p == b0.funcs@[f].p
    &&& forall|t: Type| #![trigger b0.tys@.contains_key(t)] #![trigger b1.tys@.contains_key(t)] b0.tys@.contains_key(t) ==> b1.tys@.contains_key(t) && b1.tys@[t] == b0.tys@[t]
    &&& forall|s: Seq<char>| #![trigger b0.strs@.contains_key(s)] #![trigger b1.strs@.contains_key(s)] b0.strs@.contains_key(s) ==> b1.strs@.contains_key(s) && b1.strs@[s] == b0.strs@[s]
    &&& b0.slices@.len() <= b1.slices@.len()
    &&& forall|i: int| 0 <= i < b0.slices@.len() ==> b1.slices@[i] == #[trigger] b0.slices@[i]
    &&& b1.built@ == b0.built@
}
pub open spec fn kept(u0: U, u1: U) -> bool { u1.program == u0.program && u1.cur_func == u0.cur_func && u1.cur_bb == u0.cur_bb }
/// the users noted for the values added
pub open spec fn noted(b0: B, u0: U, b1: B, u1: U) -> bool {
    forall|v: Value| {
        let new = b1.values@.contains_key(v) && !b0.values@.contains_key(v);
        &&& (#[trigger] u1.value_used_by@.contains_key(v)) == (u0.value_used_by@.contains_key(v) || new)
        &&& u1.value_used_by@.contains_key(v) ==> if new { u1.value_used_by@[v]@ == set_order(dat(*u0.program, v).users()) && fit(u1.value_used_by@[v]@.len()) } else { u1.value_used_by@[v] == u0.value_used_by@[v] }
    }
}
/// what a build adds is complete; what was there stays as it is
#[verifier::opaque]
pub open spec fn step(b0: B, u0: U, b1: B, u1: U) -> bool {
    let p = *u0.program;
    &&& kept(u0, u1)
    &&& grows(b0, b1)
    &&& inv(b1)
    &&& forall|v: Value| #[trigger] b1.values@.contains_key(v) ==> if b0.values@.contains_key(v) { b1.values@[v] == b0.values@[v] } else { v_ok(p, b1, v) }
    &&& forall|k: BasicBlock| #[trigger] b1.bbs@.contains_key(k) ==> if b0.bbs@.contains_key(k) { b1.bbs@[k] == b0.bbs@[k] } else { b_ok(p, b1, k) }
    &&& forall|f: Function| #[trigger] b1.funcs@.contains_key(f) ==> if b0.funcs@.contains_key(f) { b1.funcs@[f] == b0.funcs@[f] } else { f_ok(p, b1, f) }
    &&& noted(b0, u0, b1, u1)
}
/// the function being built is one of the program
pub open spec fn cx(u: U) -> bool { u.cur_func is Some ==> exists|f: Function| #[trigger] u.program.fns().contains_key(f) && u.program.fns()[f] == *u.cur_func->0 }
/// users are noted for values that have an object only
pub open spec fn cov(b: B, u: U) -> bool { forall|v: Value| #[trigger] u.value_used_by@.contains_key(v) ==> b.values@.contains_key(v) }
pub open spec fn wf(b: B, u: U) -> bool { inv(b) && cov(b, u) && program_ok(*u.program) && types_fit() && cx(u) }
pub open spec fn at_v(u: U, v: Value) -> bool { see_v(*u.program, u.cur_func, v) }
pub open spec fn at_vs(u: U, s: Seq<Value>) -> bool { see_vs(*u.program, u.cur_func, s) }
pub open spec fn at_b(u: U, k: BasicBlock) -> bool { see_b(u.cur_func, k) }

pub mod facts {
use super::*;
#[verifier::external_body]
pub broadcast proof fn axiom_tdepth(t: Type)
    ensures #[trigger] kdepth(tk(t)) == tdepth(t),
{}
pub open spec fn users_of(p: Program, v: Value, us: Seq<Value>) -> bool { us == set_order(dat(p, v).users()) && fit(us.len()) }
pub open spec fn mid_v(b0: B, u0: U, ba: B, ua: U, bb: B, ub: U, b1: B, u1: U, v: Value) -> bool {
    // the users are noted before or after the parts are built
    &&& ua == (U { value_used_by: ua.value_used_by, ..u0 })
    &&& {
        ||| ua.value_used_by@ == u0.value_used_by@ && u1.value_used_by@ =~= ub.value_used_by@.insert(v, u1.value_used_by@[v]) && users_of(*u0.program, v, u1.value_used_by@[v]@)
        ||| ua.value_used_by@ =~= u0.value_used_by@.insert(v, ua.value_used_by@[v]) && u1.value_used_by@ == ub.value_used_by@ && users_of(*u0.program, v, ua.value_used_by@[v]@)
    }
    &&& !b0.values@.contains_key(v)
    &&& !u0.value_used_by@.contains_key(v)
    &&& ba == (B { values: ba.values, ..b0 })
    &&& ba.values@ == b0.values@.insert(v, ba.values@[v])
    &&& u1 == (U { value_used_by: u1.value_used_by, ..ub })
    &&& b1 == (B { values: b1.values, ..bb })
    &&& b1.values@ == bb.values@.insert(v, b1.values@[v])
    &&& b1.values@[v].p == bb.values@[v].p
    &&& value_is(bb, dat(*u0.program, v), b1.values@[v].c)
}
pub open spec fn mid_b(b0: B, u0: U, ba: B, ua: U, bb: B, ub: U, b1: B, u1: U, k: BasicBlock) -> bool {
    &&& !b0.bbs@.contains_key(k)
    &&& ba == (B { bbs: ba.bbs, ..b0 })
    &&& ba.bbs@ == b0.bbs@.insert(k, ba.bbs@[k])
    &&& ua == (U { cur_bb: ua.cur_bb, ..u0 })
    &&& u1 == (U { cur_bb: u0.cur_bb, ..ub })
    &&& b1 == (B { bbs: b1.bbs, ..bb })
    &&& b1.bbs@ == bb.bbs@.insert(k, b1.bbs@[k])
    &&& b1.bbs@[k].p == bb.bbs@[k].p
    &&& block_is(bb, u0.program.fns()[home(*u0.program, k)], k, b1.bbs@[k].c)
}
pub open spec fn mid_f(b0: B, u0: U, ba: B, ua: U, bb: B, ub: U, b1: B, u1: U, f: Function) -> bool {
    &&& !b0.funcs@.contains_key(f)
    &&& ba == (B { funcs: ba.funcs, ..b0 })
    &&& ba.funcs@ == b0.funcs@.insert(f, ba.funcs@[f])
    &&& ua == (U { cur_func: ua.cur_func, ..u0 })
    &&& u1 == (U { cur_func: u0.cur_func, ..ub })
    &&& b1 == (B { funcs: b1.funcs, ..bb })
    &&& b1.funcs@ == bb.funcs@.insert(f, b1.funcs@[f])
    &&& b1.funcs@[f].p == bb.funcs@[f].p
    &&& func_is(bb, u0.program.fns()[f], b1.funcs@[f].c)
}
pub open spec fn mid_t(b0: B, u0: U, b1: B, t: Type) -> bool {
    &&& !b0.tys@.contains_key(t)
    &&& b1 == (B { tys: b1.tys, ..b0 })
    &&& b1.tys@ == b0.tys@.insert(t, b1.tys@[t])
    &&& tkind_is(b0, tk(t), b1.tys@[t].c)
}
pub open spec fn mid_l(b0: B, b1: B) -> bool { b1 == (B { slices: b1.slices, ..b0 }) && b1.slices@ == b0.slices@.push(b1.slices@.last()) }
/// the program's own lists
pub open spec fn listed(p: Program) -> bool {
    &&& fit(p.insts().len()) && fit(p.order().len())
    &&& forall|j: int| 0 <= j < p.insts().len() ==> global(#[trigger] p.insts()[j]) && p.gvals().contains_key(p.insts()[j])
    &&& forall|j: int| 0 <= j < p.order().len() ==> p.fns().contains_key(#[trigger] p.order()[j])
}
/// those of the first `n` values that have a raw object
pub open spec fn present(b: Set<Value>, s: Seq<Value>, n: nat) -> Seq<Value>
    decreases n,
{
    if n == 0 { Seq::empty() } else {
        let q = present(b, s, (n - 1) as nat);
        if b.contains(s[n - 1]) { q.push(s[n - 1]) } else { q }
    }
}
pub open spec fn users_is(b: B, d: ValueData, r: RawSlice) -> bool {
    let s = set_order(d.users());
    lv(b, present(b.values@.dom(), s, s.len()), r)
}
/// `r` and the objects of the builder are the raw form of `p`
pub open spec fn raw_of(b: B, p: Program, r: RawProgram) -> bool {
    &&& inv(b)
    &&& lv(b, p.insts(), r.values)
    &&& lf(b, p.order(), r.funcs)
    &&& forall|v: Value| #[trigger] b.values@.contains_key(v) ==> v_ok(p, b, v) && users_is(b, dat(p, v), b.values@[v].c.used_by)
    &&& forall|k: BasicBlock| #[trigger] b.bbs@.contains_key(k) ==> b_ok(p, b, k)
    &&& forall|f: Function| #[trigger] b.funcs@.contains_key(f) ==> f_ok(p, b, f)
}
/// what raw programs built before refer to stays
pub open spec fn keeps(b0: B, b1: B) -> bool {
    &&& b1.built@.len() == b0.built@.len() + 1
    &&& forall|i: int| 0 <= i < b0.built@.len() ==> b1.built@[i] == #[trigger] b0.built@[i]
    &&& b1.built@.last().0@ == b0.funcs@ && b1.built@.last().1@ == b0.bbs@ && b1.built@.last().2@ == b0.values@
    &&& forall|t: Type| #[trigger] b0.tys@.contains_key(t) ==> b1.tys@.contains_key(t) && b1.tys@[t] == b0.tys@[t]
    &&& forall|s: Seq<char>| #[trigger] b0.strs@.contains_key(s) ==> b1.strs@.contains_key(s) && b1.strs@[s] == b0.strs@[s]
    &&& b0.slices@.len() <= b1.slices@.len()
    &&& forall|i: int| 0 <= i < b0.slices@.len() ==> b1.slices@[i] == #[trigger] b0.slices@[i]
}
pub uninterp spec fn map_order<K, V>(m: Map<K, V>) -> Seq<K>;
/// a builder that begins another raw program
pub open spec fn start(b0: B, b: B) -> bool {
    &&& b.values@ == Map::<Value, VxBox<RawValueData>>::empty() && b.bbs@ == Map::<BasicBlock, VxBox<RawBasicBlockData>>::empty() && b.funcs@ == Map::<Function, VxBox<RawFunctionData>>::empty()
    &&& b == (B { values: b.values, bbs: b.bbs, funcs: b.funcs, built: b.built, ..b0 })
    &&& keeps(b0, b)
}
pub open spec fn complete(p: Program, b: B) -> bool {
    &&& inv(b)
    &&& forall|v: Value| #[trigger] b.values@.contains_key(v) ==> v_ok(p, b, v)
    &&& forall|k: BasicBlock| #[trigger] b.bbs@.contains_key(k) ==> b_ok(p, b, k)
    &&& forall|f: Function| #[trigger] b.funcs@.contains_key(f) ==> f_ok(p, b, f)
}
pub open spec fn listed_users(p: Program, b: B, u: U) -> bool {
    forall|v: Value| #[trigger] b.values@.contains_key(v) ==> u.value_used_by@.contains_key(v) && u.value_used_by@[v]@ == set_order(dat(p, v).users()) && fit(set_order(dat(p, v).users()).len())
}
pub open spec fn filled(b: VxBox<RawValueData>, r: RawSlice) -> VxBox<RawValueData> { VxBox { p: b.p, c: RawValueData { used_by: r, ..b.c } } }
// ---- facts ----
pub proof fn grow_sl(b0: B, b1: B, r: RawSlice, q: Seq<VxPtr>, k: RawSliceItemKind)
    requires grows(b0, b1), sl(b0, r, q, k),
    ensures sl(b1, r, q, k),
{
    let i = choose|i: int| 0 <= i < b0.slices@.len() && (#[trigger] b0.slices@[i])@ == q && vec_addr(b0.slices@[i]) == r.buffer && r.len == q.len() && r.kind == k;
    assert(b1.slices@[i] == b0.slices@[i]);
}
pub proof fn grow_trans(a: B, b: B, c: B)
    requires grows(a, b), grows(b, c),
    ensures grows(a, c),
{
    assert forall|x: Value| #[trigger] a.values@.contains_key(x) implies c.values@.contains_key(x) && c.values@[x].p == a.values@[x].p by { assert(b.values@.contains_key(x)); }
    assert forall|x: BasicBlock| #[trigger] a.bbs@.contains_key(x) implies c.bbs@.contains_key(x) && c.bbs@[x].p == a.bbs@[x].p by { assert(b.bbs@.contains_key(x)); }
    assert forall|x: Function| #[trigger] a.funcs@.contains_key(x) implies c.funcs@.contains_key(x) && c.funcs@[x].p == a.funcs@[x].p by { assert(b.funcs@.contains_key(x)); }
    assert forall|x: Type| #[trigger] a.tys@.contains_key(x) implies c.tys@.contains_key(x) && c.tys@[x] == a.tys@[x] by { assert(b.tys@.contains_key(x)); }
    assert forall|x: Seq<char>| #[trigger] a.strs@.contains_key(x) implies c.strs@.contains_key(x) && c.strs@[x] == a.strs@[x] by { assert(b.strs@.contains_key(x)); }
    assert forall|i: int| 0 <= i < a.slices@.len() implies c.slices@[i] == #[trigger] a.slices@[i] by { assert(b.slices@[i] == a.slices@[i]); }
}
pub proof fn grow_lv(b0: B, b1: B, s: Seq<Value>, r: RawSlice)
    requires grows(b0, b1), lv(b0, s, r),
    ensures lv(b1, s, r),
{
    reveal(lv);
    let q = choose|q: Seq<VxPtr>| #[trigger] sl(b0, r, q, RawSliceItemKind::Value) && q.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> pv(b0, #[trigger] s[j], q[j]);
    grow_sl(b0, b1, r, q, RawSliceItemKind::Value);
    assert forall|j: int| 0 <= j < s.len() implies pv(b1, #[trigger] s[j], q[j]) by { assert(pv(b0, s[j], q[j])); }
}
pub proof fn grow_lb(b0: B, b1: B, s: Seq<BasicBlock>, r: RawSlice)
    requires grows(b0, b1), lb(b0, s, r),
    ensures lb(b1, s, r),
{
    reveal(lb);
    let q = choose|q: Seq<VxPtr>| #[trigger] sl(b0, r, q, RawSliceItemKind::BasicBlock) && q.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> pb(b0, #[trigger] s[j], q[j]);
    grow_sl(b0, b1, r, q, RawSliceItemKind::BasicBlock);
    assert forall|j: int| 0 <= j < s.len() implies pb(b1, #[trigger] s[j], q[j]) by { assert(pb(b0, s[j], q[j])); }
}
pub proof fn grow_lf(b0: B, b1: B, s: Seq<Function>, r: RawSlice)
    requires grows(b0, b1), lf(b0, s, r),
    ensures lf(b1, s, r),
{
    reveal(lf);
    let q = choose|q: Seq<VxPtr>| #[trigger] sl(b0, r, q, RawSliceItemKind::Function) && q.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> pf(b0, #[trigger] s[j], q[j]);
    grow_sl(b0, b1, r, q, RawSliceItemKind::Function);
    assert forall|j: int| 0 <= j < s.len() implies pf(b1, #[trigger] s[j], q[j]) by { assert(pf(b0, s[j], q[j])); }
}
pub proof fn grow_lt(b0: B, b1: B, s: Seq<Type>, r: RawSlice)
    requires grows(b0, b1), lt(b0, s, r),
    ensures lt(b1, s, r),
{
    reveal(lt);
    let q = choose|q: Seq<VxPtr>| #[trigger] sl(b0, r, q, RawSliceItemKind::Type) && q.len() == s.len() && forall|j: int| 0 <= j < s.len() ==> pt(b0, #[trigger] s[j], q[j]);
    grow_sl(b0, b1, r, q, RawSliceItemKind::Type);
    assert forall|j: int| 0 <= j < s.len() implies pt(b1, #[trigger] s[j], q[j]) by { assert(pt(b0, s[j], q[j])); }
}
pub proof fn grow_tkind(b0: B, b1: B, k: TypeKind, r: RawTypeKind)
    requires grows(b0, b1), tkind_is(b0, k, r),
    ensures tkind_is(b1, k, r),
{
    match (k, r) {
        (TypeKind::Function(a, t), RawTypeKind::Function(q, p)) => { grow_lt(b0, b1, a@, q); },
        _ => {},
    }
}
pub proof fn grow_kind(b0: B, b1: B, k: ValueKind, r: RawValueKind)
    requires grows(b0, b1), kind_is(b0, k, r),
    ensures kind_is(b1, k, r),
{
    match (k, r) {
        (ValueKind::Aggregate(v), RawValueKind::Aggregate(r)) => { grow_lv(b0, b1, v.elems@, r.elems); },
        (ValueKind::Branch(v), RawValueKind::Branch(r)) => { grow_lv(b0, b1, v.true_args@, r.true_args); grow_lv(b0, b1, v.false_args@, r.false_args); },
        (ValueKind::Jump(v), RawValueKind::Jump(r)) => { grow_lv(b0, b1, v.args@, r.args); },
        (ValueKind::Call(v), RawValueKind::Call(r)) => { grow_lv(b0, b1, v.args@, r.args); },
        _ => {},
    }
}
pub proof fn grow_value(b0: B, b1: B, d: ValueData, r: RawValueData)
    requires grows(b0, b1), value_is(b0, d, r),
    ensures value_is(b1, d, r),
{
    grow_kind(b0, b1, d.what(), r.kind);
}
pub proof fn grow_block(b0: B, b1: B, f: FunctionData, k: BasicBlock, r: RawBasicBlockData)
    requires grows(b0, b1), block_is(b0, f, k, r),
    ensures block_is(b1, f, k, r),
{
    let d = f.bbs()[k];
    grow_lv(b0, b1, d.pars(), r.params);
    grow_lv(b0, b1, set_order(d.users()), r.used_by);
    grow_lv(b0, b1, f.body()[k], r.insts);
}
pub proof fn grow_func(b0: B, b1: B, f: FunctionData, r: RawFunctionData)
    requires grows(b0, b1), func_is(b0, f, r),
    ensures func_is(b1, f, r),
{
    grow_lv(b0, b1, f.pars(), r.params);
    grow_lb(b0, b1, f.order(), r.bbs);
}
/// types and strings carried over to a grown builder
pub proof fn grow_inv(b0: B, b1: B)
    requires grows(b0, b1), inv(b0), forall|t: Type| b1.tys@.contains_key(t) ==> b0.tys@.contains_key(t), forall|s: Seq<char>| b1.strs@.contains_key(s) ==> b0.strs@.contains_key(s),
    ensures inv(b1),
{
    reveal(inv);
    assert forall|t: Type| #[trigger] b1.tys@.contains_key(t) implies t_ok(b1, t) by {
        assert(b0.tys@.contains_key(t));
        grow_tkind(b0, b1, tk(t), b0.tys@[t].c);
    }
}
pub proof fn refl(b: B, u: U)
    requires inv(b),
    ensures step(b, u, b, u),
{
    reveal(step);
}
pub broadcast proof fn trans(a: B, u: U, b: B, v: U, c: B, w: U)
    requires #[trigger] step(a, u, b, v), #[trigger] step(b, v, c, w),
    ensures step(a, u, c, w),
{
    reveal(step);
    let p = *u.program;
    assert forall|x: Value| #[trigger] c.values@.contains_key(x) implies if a.values@.contains_key(x) { c.values@[x] == a.values@[x] } else { v_ok(p, c, x) } by {
        if b.values@.contains_key(x) && !a.values@.contains_key(x) { grow_value(b, c, dat(p, x), b.values@[x].c); }
    }
    assert forall|x: BasicBlock| #[trigger] c.bbs@.contains_key(x) implies if a.bbs@.contains_key(x) { c.bbs@[x] == a.bbs@[x] } else { b_ok(p, c, x) } by {
        if b.bbs@.contains_key(x) && !a.bbs@.contains_key(x) { grow_block(b, c, p.fns()[home(p, x)], x, b.bbs@[x].c); }
    }
    assert forall|x: Function| #[trigger] c.funcs@.contains_key(x) implies if a.funcs@.contains_key(x) { c.funcs@[x] == a.funcs@[x] } else { f_ok(p, c, x) } by {
        if b.funcs@.contains_key(x) && !a.funcs@.contains_key(x) { grow_func(b, c, p.fns()[x], b.funcs@[x].c); }
    }
    assert forall|i: int| 0 <= i < a.slices@.len() implies c.slices@[i] == #[trigger] a.slices@[i] by { assert(b.slices@[i] == a.slices@[i]); }
    assert(noted(a, u, c, w)) by {
        assert forall|x: Value| {
            let new = c.values@.contains_key(x) && !a.values@.contains_key(x);
            &&& (#[trigger] w.value_used_by@.contains_key(x)) == (u.value_used_by@.contains_key(x) || new)
            &&& w.value_used_by@.contains_key(x) ==> if new { w.value_used_by@[x]@ == set_order(dat(*u.program, x).users()) && fit(w.value_used_by@[x]@.len()) } else { w.value_used_by@[x] == u.value_used_by@[x] }
        } by {
            assert(v.value_used_by@.contains_key(x) || !v.value_used_by@.contains_key(x));
        }
    }
}
pub broadcast proof fn step_facts(b0: B, u0: U, b1: B, u1: U)
    requires #[trigger] step(b0, u0, b1, u1),
    ensures kept(u0, u1), grows(b0, b1), inv(b1), cov(b0, u0) ==> cov(b1, u1),
{
    reveal(step);
    assert forall|v: Value| cov(b0, u0) && #[trigger] u1.value_used_by@.contains_key(v) implies b1.values@.contains_key(v) by {
        if !b1.values@.contains_key(v) { assert(!b0.values@.contains_key(v)); }
    }
}
pub broadcast proof fn mono_lv(b0: B, u0: U, b1: B, u1: U, s: Seq<Value>, r: RawSlice)
    requires #[trigger] step(b0, u0, b1, u1), #[trigger] lv(b0, s, r),
    ensures lv(b1, s, r),
{ step_facts(b0, u0, b1, u1); grow_lv(b0, b1, s, r); }
pub broadcast proof fn mono_lb(b0: B, u0: U, b1: B, u1: U, s: Seq<BasicBlock>, r: RawSlice)
    requires #[trigger] step(b0, u0, b1, u1), #[trigger] lb(b0, s, r),
    ensures lb(b1, s, r),
{ step_facts(b0, u0, b1, u1); grow_lb(b0, b1, s, r); }
pub broadcast proof fn mono_lf(b0: B, u0: U, b1: B, u1: U, s: Seq<Function>, r: RawSlice)
    requires #[trigger] step(b0, u0, b1, u1), #[trigger] lf(b0, s, r),
    ensures lf(b1, s, r),
{ step_facts(b0, u0, b1, u1); grow_lf(b0, b1, s, r); }
pub broadcast proof fn mono_lt(b0: B, u0: U, b1: B, u1: U, s: Seq<Type>, r: RawSlice)
    requires #[trigger] step(b0, u0, b1, u1), #[trigger] lt(b0, s, r),
    ensures lt(b1, s, r),
{ step_facts(b0, u0, b1, u1); grow_lt(b0, b1, s, r); }
pub broadcast proof fn same_inv(b0: B, b1: B)
    requires #[trigger] inv(b0), b1.tys == b0.tys, b1.strs == b0.strs, b1.slices == b0.slices,
    ensures #[trigger] inv(b1),
{
    reveal(inv); reveal(lt);
    assert forall|t: Type| #[trigger] b1.tys@.contains_key(t) implies t_ok(b1, t) by {
        assert(b0.tys@.contains_key(t));
        match (tk(t), b0.tys@[t].c) {
            (TypeKind::Function(a, _), RawTypeKind::Function(q, _)) => {
                let z = choose|z: Seq<VxPtr>| #[trigger] sl(b0, q, z, RawSliceItemKind::Type) && z.len() == a@.len() && forall|j: int| 0 <= j < a@.len() ==> pt(b0, #[trigger] a@[j], z[j]);
                assert(sl(b1, q, z, RawSliceItemKind::Type));
                assert forall|j: int| 0 <= j < a@.len() implies pt(b1, #[trigger] a@[j], z[j]) by { assert(pt(b0, a@[j], z[j])); }
            },
            _ => {},
        }
    }
}
pub broadcast group steps { same_inv,  trans, step_facts, mono_lv, mono_lb, mono_lf, mono_lt }

/// a value in scope: its data is the program's, and what it refers to is in scope
pub proof fn seen_v(u: U, v: Value)
    requires program_ok(*u.program), cx(u), at_v(u, v),
    ensures
        see_data(*u.program, u.cur_func, dat(*u.program, v)),
        !global(v) ==> dat(*u.program, v) == u.cur_func->0.vals()[v],
{
    reveal(program_ok);
    let p = *u.program;
    if global(v) {
        let d = p.gvals()[v];
        assert(see_data(p, None, d));
        assert(see_kind(p, u.cur_func, d.what()));
    } else {
        let f = choose|f: Function| #[trigger] u.program.fns().contains_key(f) && u.program.fns()[f] == *u.cur_func->0;
        assert(local_in(p, f, v));
        assert(local_in(p, owner(p, v), v));
        assert(owner(p, v) == f);
    }
}
pub proof fn seen_b(u: U, k: BasicBlock)
    requires program_ok(*u.program), cx(u), at_b(u, k),
    ensures see_block(*u.program, *u.cur_func->0, k), u.program.fns()[home(*u.program, k)] == *u.cur_func->0,
{
    reveal(program_ok);
    let p = *u.program;
    let f = choose|f: Function| #[trigger] u.program.fns().contains_key(f) && u.program.fns()[f] == *u.cur_func->0;
    assert(block_in(p, f, k));
    assert(block_in(p, home(p, k), k));
    assert(home(p, k) == f);
}
pub proof fn seen_f(p: Program, f: Function)
    requires program_ok(p), p.fns().contains_key(f),
    ensures see_func(p, p.fns()[f]),
{ reveal(program_ok); }

/// adding a value: its box first, then all it refers to, then its content
pub proof fn add_v(b0: B, u0: U, ba: B, ua: U, bb: B, ub: U, b1: B, u1: U, v: Value)
    requires inv(b0), step(ba, ua, bb, ub), mid_v(b0, u0, ba, ua, bb, ub, b1, u1, v),
    ensures step(b0, u0, b1, u1), b1.values@.contains_key(v),
{
    reveal(step);
    let p = *u0.program;
    assert(ba.values@.contains_key(v));
    assert(grows(bb, b1));
    grow_inv(bb, b1);
    grow_value(bb, b1, dat(p, v), b1.values@[v].c);
    assert forall|x: Value| #[trigger] b1.values@.contains_key(x) implies if b0.values@.contains_key(x) { b1.values@[x] == b0.values@[x] } else { v_ok(p, b1, x) } by {
        if x != v && !b0.values@.contains_key(x) { assert(bb.values@.contains_key(x)); grow_value(bb, b1, dat(p, x), bb.values@[x].c); }
    }
    assert forall|x: BasicBlock| #[trigger] b1.bbs@.contains_key(x) implies if b0.bbs@.contains_key(x) { b1.bbs@[x] == b0.bbs@[x] } else { b_ok(p, b1, x) } by {
        if !b0.bbs@.contains_key(x) { grow_block(bb, b1, p.fns()[home(p, x)], x, bb.bbs@[x].c); }
    }
    assert forall|x: Function| #[trigger] b1.funcs@.contains_key(x) implies if b0.funcs@.contains_key(x) { b1.funcs@[x] == b0.funcs@[x] } else { f_ok(p, b1, x) } by {
        if !b0.funcs@.contains_key(x) { grow_func(bb, b1, p.fns()[x], bb.funcs@[x].c); }
    }
    assert(grows(b0, ba));
    grow_trans(b0, ba, bb);
    grow_trans(b0, bb, b1);
    assert(noted(b0, u0, b1, u1)) by {
        assert forall|x: Value| {
            let new = b1.values@.contains_key(x) && !b0.values@.contains_key(x);
            &&& (#[trigger] u1.value_used_by@.contains_key(x)) == (u0.value_used_by@.contains_key(x) || new)
            &&& u1.value_used_by@.contains_key(x) ==> if new { u1.value_used_by@[x]@ == set_order(dat(p, x).users()) && fit(u1.value_used_by@[x]@.len()) } else { u1.value_used_by@[x] == u0.value_used_by@[x] }
        } by {
            assert(ub.value_used_by@.contains_key(x) || !ub.value_used_by@.contains_key(x));
        }
    }
}
pub proof fn add_b(b0: B, u0: U, ba: B, ua: U, bb: B, ub: U, b1: B, u1: U, k: BasicBlock)
    requires inv(b0), step(ba, ua, bb, ub), mid_b(b0, u0, ba, ua, bb, ub, b1, u1, k),
    ensures step(b0, u0, b1, u1), b1.bbs@.contains_key(k),
{
    reveal(step);
    let p = *u0.program;
    assert(ba.bbs@.contains_key(k));
    assert(grows(bb, b1));
    grow_inv(bb, b1);
    grow_block(bb, b1, p.fns()[home(p, k)], k, b1.bbs@[k].c);
    assert forall|x: Value| #[trigger] b1.values@.contains_key(x) implies if b0.values@.contains_key(x) { b1.values@[x] == b0.values@[x] } else { v_ok(p, b1, x) } by {
        if !b0.values@.contains_key(x) { grow_value(bb, b1, dat(p, x), bb.values@[x].c); }
    }
    assert forall|x: BasicBlock| #[trigger] b1.bbs@.contains_key(x) implies if b0.bbs@.contains_key(x) { b1.bbs@[x] == b0.bbs@[x] } else { b_ok(p, b1, x) } by {
        if x != k && !b0.bbs@.contains_key(x) { assert(bb.bbs@.contains_key(x)); grow_block(bb, b1, p.fns()[home(p, x)], x, bb.bbs@[x].c); }
    }
    assert forall|x: Function| #[trigger] b1.funcs@.contains_key(x) implies if b0.funcs@.contains_key(x) { b1.funcs@[x] == b0.funcs@[x] } else { f_ok(p, b1, x) } by {
        if !b0.funcs@.contains_key(x) { grow_func(bb, b1, p.fns()[x], bb.funcs@[x].c); }
    }
    assert(grows(b0, ba));
    grow_trans(b0, ba, bb);
    grow_trans(b0, bb, b1);
    assert(noted(b0, u0, b1, u1));
}
pub proof fn add_f(b0: B, u0: U, ba: B, ua: U, bb: B, ub: U, b1: B, u1: U, f: Function)
    requires inv(b0), step(ba, ua, bb, ub), mid_f(b0, u0, ba, ua, bb, ub, b1, u1, f),
    ensures step(b0, u0, b1, u1), b1.funcs@.contains_key(f),
{
    reveal(step);
    let p = *u0.program;
    assert(ba.funcs@.contains_key(f));
    assert(grows(bb, b1));
    grow_inv(bb, b1);
    grow_func(bb, b1, p.fns()[f], b1.funcs@[f].c);
    assert forall|x: Value| #[trigger] b1.values@.contains_key(x) implies if b0.values@.contains_key(x) { b1.values@[x] == b0.values@[x] } else { v_ok(p, b1, x) } by {
        if !b0.values@.contains_key(x) { grow_value(bb, b1, dat(p, x), bb.values@[x].c); }
    }
    assert forall|x: BasicBlock| #[trigger] b1.bbs@.contains_key(x) implies if b0.bbs@.contains_key(x) { b1.bbs@[x] == b0.bbs@[x] } else { b_ok(p, b1, x) } by {
        if !b0.bbs@.contains_key(x) { grow_block(bb, b1, p.fns()[home(p, x)], x, bb.bbs@[x].c); }
    }
    assert forall|x: Function| #[trigger] b1.funcs@.contains_key(x) implies if b0.funcs@.contains_key(x) { b1.funcs@[x] == b0.funcs@[x] } else { f_ok(p, b1, x) } by {
        if x != f && !b0.funcs@.contains_key(x) { assert(bb.funcs@.contains_key(x)); grow_func(bb, b1, p.fns()[x], bb.funcs@[x].c); }
    }
    assert(grows(b0, ba));
    grow_trans(b0, ba, bb);
    grow_trans(b0, bb, b1);
    assert(noted(b0, u0, b1, u1));
}
/// adding a type, a string or a slice: only what refers to nothing pending
pub proof fn add_t(b0: B, u0: U, b1: B, t: Type)
    requires inv(b0), mid_t(b0, u0, b1, t),
    ensures step(b0, u0, b1, u0), b1.tys@.contains_key(t),
{
    reveal(step);
    assert(grows(b0, b1));
    assert(inv(b1)) by {
        reveal(inv);
        grow_tkind(b0, b1, tk(t), b1.tys@[t].c);
        assert forall|x: Type| #[trigger] b1.tys@.contains_key(x) implies t_ok(b1, x) by {
            if x != t { assert(b0.tys@.contains_key(x)); grow_tkind(b0, b1, tk(x), b0.tys@[x].c); }
        }
    }
}
pub proof fn add_s(b0: B, u0: U, b1: B, s: Seq<char>)
    requires
        inv(b0), !b0.strs@.contains_key(s),
        b1 == (B { strs: b1.strs, ..b0 }), b1.strs@ == b0.strs@.insert(s, b1.strs@[s]), b1.strs@[s]@ == s,
    ensures step(b0, u0, b1, u0), b1.strs@.contains_key(s),
{
    reveal(step);
    assert(grows(b0, b1));
    assert(inv(b1)) by {
        reveal(inv);
        assert forall|x: Type| #[trigger] b1.tys@.contains_key(x) implies t_ok(b1, x) by { grow_tkind(b0, b1, tk(x), b0.tys@[x].c); }
    }
}
pub proof fn add_l(b0: B, u0: U, b1: B, v: Vec<VxPtr>)
    requires
        inv(b0),
        b1 == (B { slices: b1.slices, ..b0 }), b1.slices@ == b0.slices@.push(v),
    ensures step(b0, u0, b1, u0), b1.slices@.last() == v,
{
    reveal(step);
    assert(grows(b0, b1));
    grow_inv(b0, b1);
}
/// the last slice is the one described
pub proof fn last_slice(b: B, r: RawSlice, k: RawSliceItemKind)
    requires b.slices@.len() > 0, r.buffer == vec_addr(b.slices@.last()), r.len == b.slices@.last()@.len(), r.kind == k,
    ensures sl(b, r, b.slices@.last()@, k),
{
    let i = b.slices@.len() - 1;
    assert(b.slices@[i] == b.slices@.last());
}
pub proof fn started(b0: B, bs: B, us: U, b: B, u: U)
    requires step(bs, us, b, u), start(b0, bs), us.value_used_by@ == Map::<Value, Vec<Value>>::empty(),
    ensures complete(*us.program, b), listed_users(*us.program, b, u), keeps(b0, b),
{
    reveal(step);
    assert forall|v: Value| #[trigger] b.values@.contains_key(v) implies u.value_used_by@.contains_key(v) && u.value_used_by@[v]@ == set_order(dat(*us.program, v).users()) by {
        assert(u.value_used_by@.contains_key(v) || !u.value_used_by@.contains_key(v));
        assert(!bs.values@.contains_key(v));
    }
    assert forall|i: int| 0 <= i < b0.slices@.len() implies b.slices@[i] == #[trigger] b0.slices@[i] by { assert(bs.slices@[i] == b0.slices@[i]); }
}
pub proof fn finish(p: Program, m: B, u: U, n: B, b: B)
    requires
        step(m, u, n, u), n == (B { slices: n.slices, ..m }), complete(p, m),
        b == (B { values: b.values, ..n }),
        b.values@.dom() == n.values@.dom(),
        forall|v: Value| #[trigger] n.values@.contains_key(v) ==> b.values@[v] == filled(n.values@[v], b.values@[v].c.used_by) && users_is(n, dat(p, v), b.values@[v].c.used_by),
        u.program == p,
    ensures
        complete(p, b), grows(m, b),
        forall|v: Value| #[trigger] b.values@.contains_key(v) ==> users_is(b, dat(p, v), b.values@[v].c.used_by),
{
    reveal(step);
    assert(grows(m, n));
    assert(grows(n, b));
    grow_trans(m, n, b);
    grow_inv(n, b);
    assert forall|v: Value| #[trigger] b.values@.contains_key(v) implies v_ok(p, b, v) && users_is(b, dat(p, v), b.values@[v].c.used_by) by {
        assert(n.values@.contains_key(v));
        grow_value(m, b, dat(p, v), m.values@[v].c);
        let s = set_order(dat(p, v).users());
        grow_lv(n, b, present(n.values@.dom(), s, s.len()), b.values@[v].c.used_by);
    }
    assert forall|k: BasicBlock| #[trigger] b.bbs@.contains_key(k) implies b_ok(p, b, k) by { grow_block(m, b, p.fns()[home(p, k)], k, m.bbs@[k].c); }
    assert forall|f: Function| #[trigger] b.funcs@.contains_key(f) implies f_ok(p, b, f) by { grow_func(m, b, p.fns()[f], m.funcs@[f].c); }
}
} // mod facts
pub use facts::*;
// ---- what is iterated ----
pub trait VxIter<'a, T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_iter(self) -> (r: SliceIter<'a, T>) where Self: Sized ensures r.s@ == self.vx_seq(), r.i == 0;
}
impl<'a, T> VxIter<'a, T> for &'a [T] {
    open spec fn vx_seq(&self) -> Seq<T> { (*self)@ }
    fn vx_iter(self) -> (r: SliceIter<'a, T>) { SliceIter { s: self, i: 0 } }
}
impl<'a, T> VxIter<'a, T> for &'a Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { (*self)@ }
    fn vx_iter(self) -> (r: SliceIter<'a, T>) { SliceIter { s: self.as_slice(), i: 0 } }
}
impl<'a, T> VxIter<'a, T> for &'a HashSet<T> {
    open spec fn vx_seq(&self) -> Seq<T> { set_order((*self)@) }
    #[verifier::external_body]
    fn vx_iter(self) -> (r: SliceIter<'a, T>) { unimplemented!() }
}
pub fn vx_iter<'a, T, S: VxIter<'a, T>>(s: S) -> (r: SliceIter<'a, T>)
    ensures r.s@ == s.vx_seq(), r.i == 0,
{ s.vx_iter() }
impl BasicBlockList {
    #[verifier::external_body]
    pub fn keys(&self) -> (r: SliceIter<'_, BasicBlock>) ensures r.s@ == self.order(), r.i == 0, { unimplemented!() }
    /// index of a block that is laid out
    #[verifier::external_body]
    pub fn vx_node(&self, k: &BasicBlock) -> (r: &BasicBlockNode)
        requires self.body().contains_key(*k),
        ensures r.list() == self.body()[*k],
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_at<'a>(m: &'a HashMap<Value, Vec<Value>>, k: &Value) -> (r: &'a Vec<Value>)
    requires m@.contains_key(*k),
    ensures *r == m@[*k],
{ unimplemented!() }

pub mod build {
use super::*;
broadcast use {steps, axiom_tdepth};

/// what is built through a generic implementation
pub trait VxBuild {
    spec fn vx_pre(&self, u: U) -> bool;
    spec fn vx_post(&self, b: B, r: VxPtr) -> bool;
    fn build(&self, builder: &mut B, info: &mut U) -> (r: VxPtr)
        requires wf(*old(builder), *old(info)), self.vx_pre(*old(info)),
        ensures step(*old(builder), *old(info), *final(builder), *final(info)), self.vx_post(*final(builder), r);
}
impl VxBuild for str {
    open spec fn vx_pre(&self, u: U) -> bool { no_nul(self@) }
    open spec fn vx_post(&self, b: B, r: VxPtr) -> bool { ps(b, self@, r) }
//@ fn raw::builder::str@BuildRaw::build ret=r
//@ sig
fn build(&self, builder: &mut B, info: &mut U) -> (r: VxPtr)
//@ exit
    proof {
        reveal(inv);
        if old(builder).strs@.contains_key(self@) { refl(*old(builder), *old(info)); } else { add_s(*old(builder), *old(info), *builder, self@); }
    }
//@ end
}
impl VxBuild for String {
    open spec fn vx_pre(&self, u: U) -> bool { no_nul(self@) }
    open spec fn vx_post(&self, b: B, r: VxPtr) -> bool { ps(b, self@, r) }
//@ fn raw::builder::String@BuildRaw::build ret=r
//@ sig
fn build(&self, builder: &mut B, info: &mut U) -> (r: VxPtr)
//@ end
}
impl VxBuild for Option<String> {
    open spec fn vx_pre(&self, u: U) -> bool { named_ok(opt_text(*self)) }
    open spec fn vx_post(&self, b: B, r: VxPtr) -> bool { po(b, opt_text(*self), r) }
//@ fn raw::builder::Option@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
fn build(&self, builder: &mut B, info: &mut U) -> (r: VxPtr)
//@ entry
    proof { refl(*builder, *info); }
//@ end
}
impl VxBuild for Option<Value> {
    open spec fn vx_pre(&self, u: U) -> bool { match self { Some(v) => at_v(u, *v), None => true } }
    open spec fn vx_post(&self, b: B, r: VxPtr) -> bool { match self { Some(v) => pv(b, *v, r), None => r == vx_null } }
//@ fn raw::builder::Option@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
fn build(&self, builder: &mut B, info: &mut U) -> (r: VxPtr)
//@ entry
    proof { refl(*builder, *info); }
//@ end
}
/// the list forms of `iter_into_raw`, one per item type
pub trait VxList {
    spec fn vx_lpre(&self, u: U) -> bool;
    spec fn vx_lpost(&self, b0: B, b: B, r: RawSlice) -> bool;
    fn vx_list(self, builder: &mut B, info: &mut U) -> (r: RawSlice) where Self: Sized
        requires wf(*old(builder), *old(info)), self.vx_lpre(*old(info)),
        ensures step(*old(builder), *old(info), *final(builder), *final(info)), self.vx_lpost(*old(builder), *final(builder), r);
}
//@ rule iter_into_raw(__i, __b, __n) => __i.vx_list(__b, __n)

pub mod kind_Value {
use super::*;
//@ path Self::X => X
//@ item raw::builder::Value::KIND
}
impl<'a> VxList for SliceIter<'a, Value> {
    open spec fn vx_lpre(&self, u: U) -> bool { self.i == 0 && at_vs(u, self.s@) }
    open spec fn vx_lpost(&self, b0: B, b: B, r: RawSlice) -> bool { lv(b, self.s@, r) }
    #[verifier::exec_allows_no_decreases_clause]
    fn vx_list(self, builder: &mut B, info: &mut U) -> (r: RawSlice) { iter_Value(self, builder, info) }
}
//@ fn raw::builder::iter_into_raw as=iter_Value ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn iter_Value<'a>(iter: SliceIter<'a, Value>, builder: &mut B, info: &mut U) -> (r: RawSlice)
    requires wf(*old(builder), *old(info)), iter.vx_lpre(*old(info)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), iter.vx_lpost(*old(builder), *final(builder), r),
//@ rule T::KIND => kind_Value::KIND
//@ entry
    proof { refl(*builder, *info); }
//@ loop 0
        invariant
            wf(*builder, *info), iter.vx_lpre(*old(info)), iter.vx_lpre(*info),
            vx_it0.s@ == iter.s@, vx_it0.i == vx_v@.len(), vx_v@.len() <= iter.s@.len(),
            step(*old(builder), *old(info), *builder, *info),
            forall|j: int| 0 <= j < vx_v@.len() ==> pv(*builder, iter.s@[j], #[trigger] vx_v@[j]),
        ensures vx_v@.len() == iter.s@.len(),
//@ exit
    proof {
        let b0 = *old(builder); let u0 = *old(info);
        let bb = choose|bb: B| #[trigger] step(b0, u0, bb, *info) && mid_l(bb, *builder);
        let q = builder.slices@.last();
        add_l(bb, *info, *builder, q);
        last_slice(*builder, vx_ret, RawSliceItemKind::Value);
        reveal(lv);
        assert forall|j: int| 0 <= j < iter.s@.len() implies pv(*builder, #[trigger] iter.s@[j], q@[j]) by { assert(pv(bb, iter.s@[j], q@[j])); }
    }
//@ end

pub mod kind_BasicBlock {
use super::*;
//@ path Self::X => X
//@ item raw::builder::BasicBlock::KIND
}
impl<'a> VxList for SliceIter<'a, BasicBlock> {
    open spec fn vx_lpre(&self, u: U) -> bool { self.i == 0 && fit(self.s@.len()) && forall|j: int| 0 <= j < self.s@.len() ==> at_b(u, #[trigger] self.s@[j]) }
    open spec fn vx_lpost(&self, b0: B, b: B, r: RawSlice) -> bool { lb(b, self.s@, r) }
    #[verifier::exec_allows_no_decreases_clause]
    fn vx_list(self, builder: &mut B, info: &mut U) -> (r: RawSlice) { iter_BasicBlock(self, builder, info) }
}
//@ fn raw::builder::iter_into_raw as=iter_BasicBlock ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn iter_BasicBlock<'a>(iter: SliceIter<'a, BasicBlock>, builder: &mut B, info: &mut U) -> (r: RawSlice)
    requires wf(*old(builder), *old(info)), iter.vx_lpre(*old(info)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), iter.vx_lpost(*old(builder), *final(builder), r),
//@ rule T::KIND => kind_BasicBlock::KIND
//@ entry
    proof { refl(*builder, *info); }
//@ loop 0
        invariant
            wf(*builder, *info), iter.vx_lpre(*old(info)), iter.vx_lpre(*info),
            vx_it0.s@ == iter.s@, vx_it0.i == vx_v@.len(), vx_v@.len() <= iter.s@.len(),
            step(*old(builder), *old(info), *builder, *info),
            forall|j: int| 0 <= j < vx_v@.len() ==> pb(*builder, iter.s@[j], #[trigger] vx_v@[j]),
        ensures vx_v@.len() == iter.s@.len(),
//@ exit
    proof {
        let b0 = *old(builder); let u0 = *old(info);
        let bb = choose|bb: B| #[trigger] step(b0, u0, bb, *info) && mid_l(bb, *builder);
        let q = builder.slices@.last();
        add_l(bb, *info, *builder, q);
        last_slice(*builder, vx_ret, RawSliceItemKind::BasicBlock);
        reveal(lb);
        assert forall|j: int| 0 <= j < iter.s@.len() implies pb(*builder, #[trigger] iter.s@[j], q@[j]) by { assert(pb(bb, iter.s@[j], q@[j])); }
    }
//@ end

pub mod kind_Function {
use super::*;
//@ path Self::X => X
//@ item raw::builder::Function::KIND
}
impl<'a> VxList for SliceIter<'a, Function> {
    open spec fn vx_lpre(&self, u: U) -> bool { self.i == 0 && fit(self.s@.len()) && forall|j: int| 0 <= j < self.s@.len() ==> u.program.fns().contains_key(#[trigger] self.s@[j]) }
    open spec fn vx_lpost(&self, b0: B, b: B, r: RawSlice) -> bool { lf(b, self.s@, r) }
    #[verifier::exec_allows_no_decreases_clause]
    fn vx_list(self, builder: &mut B, info: &mut U) -> (r: RawSlice) { iter_Function(self, builder, info) }
}
//@ fn raw::builder::iter_into_raw as=iter_Function ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn iter_Function<'a>(iter: SliceIter<'a, Function>, builder: &mut B, info: &mut U) -> (r: RawSlice)
    requires wf(*old(builder), *old(info)), iter.vx_lpre(*old(info)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), iter.vx_lpost(*old(builder), *final(builder), r),
//@ rule T::KIND => kind_Function::KIND
//@ entry
    proof { refl(*builder, *info); }
//@ loop 0
        invariant
            wf(*builder, *info), iter.vx_lpre(*old(info)), iter.vx_lpre(*info),
            vx_it0.s@ == iter.s@, vx_it0.i == vx_v@.len(), vx_v@.len() <= iter.s@.len(),
            step(*old(builder), *old(info), *builder, *info),
            forall|j: int| 0 <= j < vx_v@.len() ==> pf(*builder, iter.s@[j], #[trigger] vx_v@[j]),
        ensures vx_v@.len() == iter.s@.len(),
//@ exit
    proof {
        let b0 = *old(builder); let u0 = *old(info);
        let bb = choose|bb: B| #[trigger] step(b0, u0, bb, *info) && mid_l(bb, *builder);
        let q = builder.slices@.last();
        add_l(bb, *info, *builder, q);
        last_slice(*builder, vx_ret, RawSliceItemKind::Function);
        reveal(lf);
        assert forall|j: int| 0 <= j < iter.s@.len() implies pf(*builder, #[trigger] iter.s@[j], q@[j]) by { assert(pf(bb, iter.s@[j], q@[j])); }
    }
//@ end

pub mod kind_Type {
use super::*;
//@ path Self::X => X
//@ item raw::builder::Type::KIND
}
impl<'a> VxList for SliceIter<'a, Type> {
    open spec fn vx_lpre(&self, u: U) -> bool { self.i == 0 && fit(self.s@.len()) }
    open spec fn vx_lpost(&self, b0: B, b: B, r: RawSlice) -> bool { lt(b, self.s@, r) && among(b0, b, self.s@) }
    #[verifier::exec_allows_no_decreases_clause]
    fn vx_list(self, builder: &mut B, info: &mut U) -> (r: RawSlice) { iter_Type(self, builder, info) }
}
//@ fn raw::builder::iter_into_raw as=iter_Type ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn iter_Type<'a>(iter: SliceIter<'a, Type>, builder: &mut B, info: &mut U) -> (r: RawSlice)
    requires wf(*old(builder), *old(info)), iter.vx_lpre(*old(info)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), iter.vx_lpost(*old(builder), *final(builder), r),
//@ rule T::KIND => kind_Type::KIND
//@ entry
    proof { refl(*builder, *info); }
//@ loop 0
        invariant
            wf(*builder, *info), iter.vx_lpre(*old(info)), iter.vx_lpre(*info),
            vx_it0.s@ == iter.s@, vx_it0.i == vx_v@.len(), vx_v@.len() <= iter.s@.len(),
            step(*old(builder), *old(info), *builder, *info),
            forall|j: int| 0 <= j < vx_v@.len() ==> pt(*builder, iter.s@[j], #[trigger] vx_v@[j]),
            among(*old(builder), *builder, iter.s@),
        ensures vx_v@.len() == iter.s@.len(),
//@ exit
    proof {
        let b0 = *old(builder); let u0 = *old(info);
        let bb = choose|bb: B| #[trigger] step(b0, u0, bb, *info) && mid_l(bb, *builder);
        let q = builder.slices@.last();
        add_l(bb, *info, *builder, q);
        last_slice(*builder, vx_ret, RawSliceItemKind::Type);
        reveal(lt);
        assert forall|j: int| 0 <= j < iter.s@.len() implies pt(*builder, #[trigger] iter.s@[j], q@[j]) by { assert(pt(bb, iter.s@[j], q@[j])); }
    }
//@ end

impl Type {
//@ fn raw::builder::Type@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: VxPtr)
    requires wf(*old(builder), *old(info)), true,
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), pt(*final(builder), *self, r), below(*old(builder), *final(builder), tdepth(*self) + 1),
//@ exit
    proof {
        if old(builder).tys@.contains_key(*self) { refl(*old(builder), *old(info)); }
        else {
            let b0 = *old(builder); let u0 = *old(info);
            let bb = choose|bb: B| #[trigger] step(b0, u0, bb, *info) && mid_t(bb, *info, *builder, *self);
            add_t(bb, *info, *builder, *self);
        }
    }
//@ end
}

impl TypeKind {
//@ fn raw::builder::TypeKind@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawTypeKind)
    requires wf(*old(builder), *old(info)), exists|t: Type| #[trigger] tk(t) == *self,
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), tkind_is(*final(builder), *self, r), below(*old(builder), *final(builder), kdepth(*self)),
//@ entry
    proof { axiom_kdepth(*self); refl(*builder, *info); }
//@ end
}

impl Function {
//@ fn raw::builder::Function@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: VxPtr)
    requires wf(*old(builder), *old(info)), old(info).program.fns().contains_key(*self),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), pf(*final(builder), *self, r),
//@ entry
    proof { seen_f(*info.program, *self); }
//@ exit
    proof {
        let b0 = *old(builder); let u0 = *old(info);
        if b0.funcs@.contains_key(*self) { refl(b0, u0); }
        else {
            let (ba, ua, bb, ub) = choose|ba: B, ua: U, bb: B, ub: U| #[trigger] step(ba, ua, bb, ub) && mid_f(b0, u0, ba, ua, bb, ub, *builder, *info, *self);
            add_f(b0, u0, ba, ua, bb, ub, *builder, *info, *self);
        }
    }
//@ end
}

impl FunctionData {
//@ fn raw::builder::FunctionData@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawFunctionData)
    requires wf(*old(builder), *old(info)), old(info).cur_func == Some(self), see_func(*old(info).program, *self),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), func_is(*final(builder), *self, r),
//@ end
}

impl BasicBlock {
//@ fn raw::builder::BasicBlock@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: VxPtr)
    requires wf(*old(builder), *old(info)), at_b(*old(info), *self),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), pb(*final(builder), *self, r),
//@ entry
    proof { seen_b(*info, *self); }
//@ exit
    proof {
        let b0 = *old(builder); let u0 = *old(info);
        if b0.bbs@.contains_key(*self) { refl(b0, u0); }
        else {
            let (ba, ua, bb, ub) = choose|ba: B, ua: U, bb: B, ub: U| #[trigger] step(ba, ua, bb, ub) && mid_b(b0, u0, ba, ua, bb, ub, *builder, *info, *self);
            add_b(b0, u0, ba, ua, bb, ub, *builder, *info, *self);
        }
    }
//@ end
}

impl BasicBlockData {
//@ fn raw::builder::BasicBlockData@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawBasicBlockData)
    requires wf(*old(builder), *old(info)), old(info).cur_bb is Some, at_b(*old(info), old(info).cur_bb->0), *self == old(info).cur_func->0.bbs()[old(info).cur_bb->0], see_block(*old(info).program, *old(info).cur_func->0, old(info).cur_bb->0),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), block_is(*final(builder), *old(info).cur_func->0, old(info).cur_bb->0, r),
//@ end
}

impl Value {
//@ fn raw::builder::Value@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: VxPtr)
    requires wf(*old(builder), *old(info)), at_v(*old(info), *self),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), pv(*final(builder), *self, r),
//@ entry
    proof { seen_v(*info, *self); }
//@ exit
    proof {
        let b0 = *old(builder); let u0 = *old(info);
        if b0.values@.contains_key(*self) { refl(b0, u0); }
        else {
            let (ba, ua, bb, ub) = choose|ba: B, ua: U, bb: B, ub: U| #[trigger] step(ba, ua, bb, ub) && mid_v(b0, u0, ba, ua, bb, ub, *builder, *info, *self);
            add_v(b0, u0, ba, ua, bb, ub, *builder, *info, *self);
        }
    }
//@ end
}

impl ValueData {
//@ fn raw::builder::ValueData@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawValueData)
    requires wf(*old(builder), *old(info)), see_data(*old(info).program, old(info).cur_func, *self),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), value_is(*final(builder), *self, r),
//@ end
}

impl ValueKind {
//@ fn raw::builder::ValueKind@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawValueKind)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, *self),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), kind_is(*final(builder), *self, r),
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl Integer {
//@ fn raw::builder::Integer@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawInteger)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::Integer(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), r.value == self.value,
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl Aggregate {
//@ fn raw::builder::Aggregate@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawAggregate)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::Aggregate(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), kind_is(*final(builder), ValueKind::Aggregate(*self), RawValueKind::Aggregate(r)),
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl FuncArgRef {
//@ fn raw::builder::FuncArgRef@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawFuncArgRef)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::FuncArgRef(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), r.index == self.index,
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl BlockArgRef {
//@ fn raw::builder::BlockArgRef@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawBlockArgRef)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::BlockArgRef(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), r.index == self.index,
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl GlobalAlloc {
//@ fn raw::builder::GlobalAlloc@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawGlobalAlloc)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::GlobalAlloc(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), kind_is(*final(builder), ValueKind::GlobalAlloc(*self), RawValueKind::GlobalAlloc(r)),
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl Load {
//@ fn raw::builder::Load@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawLoad)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::Load(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), kind_is(*final(builder), ValueKind::Load(*self), RawValueKind::Load(r)),
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl Store {
//@ fn raw::builder::Store@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawStore)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::Store(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), kind_is(*final(builder), ValueKind::Store(*self), RawValueKind::Store(r)),
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl GetPtr {
//@ fn raw::builder::GetPtr@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawGetPtr)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::GetPtr(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), kind_is(*final(builder), ValueKind::GetPtr(*self), RawValueKind::GetPtr(r)),
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl GetElemPtr {
//@ fn raw::builder::GetElemPtr@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawGetElemPtr)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::GetElemPtr(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), kind_is(*final(builder), ValueKind::GetElemPtr(*self), RawValueKind::GetElemPtr(r)),
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl Binary {
//@ fn raw::builder::Binary@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawBinary)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::Binary(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), kind_is(*final(builder), ValueKind::Binary(*self), RawValueKind::Binary(r)),
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl Branch {
//@ fn raw::builder::Branch@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawBranch)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::Branch(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), kind_is(*final(builder), ValueKind::Branch(*self), RawValueKind::Branch(r)),
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl Jump {
//@ fn raw::builder::Jump@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawJump)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::Jump(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), kind_is(*final(builder), ValueKind::Jump(*self), RawValueKind::Jump(r)),
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl Call {
//@ fn raw::builder::Call@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawCall)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::Call(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), kind_is(*final(builder), ValueKind::Call(*self), RawValueKind::Call(r)),
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl Return {
//@ fn raw::builder::Return@BuildRaw::build ret=r
//@ sig
#[verifier::exec_allows_no_decreases_clause]
pub fn build(&self, builder: &mut B, info: &mut U) -> (r: RawReturn)
    requires wf(*old(builder), *old(info)), see_kind(*old(info).program, old(info).cur_func, ValueKind::Return(*self)),
    ensures step(*old(builder), *old(info), *final(builder), *final(info)), kind_is(*final(builder), ValueKind::Return(*self), RawValueKind::Return(r)),
//@ entry
    proof { refl(*builder, *info); }
//@ end
}

impl RawSlice {
//@ fn raw::builder::RawSlice@Default::default ret=r
//@ sig
pub fn default() -> (r: RawSlice)
//@ end
}

//@ rule __m.values_mut().zip(__l.into_iter()) => vx_zip_mut(&mut __m, __l)
//@ rule __m.values.keys() => vx_keys(&__m.values)
#[verifier::external_body]
pub fn vx_keys<'a, K, V>(m: &'a HashMap<K, V>) -> (r: SliceIter<'a, K>)
    ensures r.s@ == map_order(m@), r.i == 0, map_order(m@).no_duplicates(), forall|k: K| map_order(m@).contains(k) == #[trigger] m@.contains_key(k),
{ unimplemented!() }
/// `values_mut().zip(..)`: the entries of a map, in the order of its keys, each with the element of the list at that place
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct ZipMut<'a, K, V, S> { m: &'a mut HashMap<K, V>, l: Vec<S> }
impl<'a, K, V, S> ZipMut<'a, K, V, S> {
    pub uninterp spec fn orig(&self) -> Map<K, V>;
    /// the map once the borrow ends
    pub uninterp spec fn fin(&self) -> Map<K, V>;
    pub uninterp spec fn list(&self) -> Seq<S>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a mut V, S)>)
        ensures
            final(self).orig() == old(self).orig(), final(self).fin() == old(self).fin(), final(self).list() == old(self).list(),
            match r {
                Some((d, s)) => {
                    let k = map_order(old(self).orig())[old(self).pos() as int];
                    &&& old(self).pos() < map_order(old(self).orig()).len() && old(self).pos() < old(self).list().len()
                    &&& final(self).pos() == old(self).pos() + 1
                    &&& *d == old(self).orig()[k] && *final(d) == old(self).fin()[k]
                    &&& s == old(self).list()[old(self).pos() as int]
                },
                None => {
                    &&& old(self).pos() >= map_order(old(self).orig()).len() || old(self).pos() >= old(self).list().len()
                    &&& final(self).pos() == old(self).pos()
                    &&& forall|j: int| old(self).pos() <= j < map_order(old(self).orig()).len() ==> {
                        let k = #[trigger] map_order(old(self).orig())[j];
                        old(self).fin()[k] == old(self).orig()[k]
                    }
                },
            },
    { unimplemented!() }
}
impl<'a, K, V, S> VxIntoIter for ZipMut<'a, K, V, S> {
    type It = Self;
    fn vx_into_iter(self) -> (r: Self) ensures r == self, { self }
}
#[verifier::external_body]
pub fn vx_zip_mut<'a, K, V, S>(m: &'a mut HashMap<K, V>, l: Vec<S>) -> (r: ZipMut<'a, K, V, S>)
    ensures
        r.orig() == old(m)@, r.fin() == final(m)@, r.list() == l@, r.pos() == 0,
        r.fin().dom() == old(m)@.dom(),
        map_order(old(m)@).no_duplicates(), forall|k: K| map_order(old(m)@).contains(k) == #[trigger] old(m)@.contains_key(k),
{ unimplemented!() }

impl<'a> ProgramInfo<'a> {
//@ fn raw::builder::ProgramInfo::new ret=r
    ensures r.program == program, r.cur_func is None, r.value_used_by@ == Map::<Value, Vec<Value>>::empty(),
//@ end
}
/// `#[derive(Default)]`: every field is empty
#[verifier::external_body]
pub fn vx_empty_builder() -> (r: B)
    ensures r.slices@.len() == 0, r.strs@ == Map::<Seq<char>, CString>::empty(), r.tys@ == Map::<Type, VxBox<RawTypeKind>>::empty(), r.funcs@ == Map::<Function, VxBox<RawFunctionData>>::empty(),
        r.bbs@ == Map::<BasicBlock, VxBox<RawBasicBlockData>>::empty(), r.values@ == Map::<Value, VxBox<RawValueData>>::empty(), r.built@.len() == 0,
{ unimplemented!() }
//@ rule Self::default() => vx_empty_builder()
//@ fn raw::ffi::koopa_build_raw_program ret=r
    requires inv(*old(builder)), program_ok(*program), types_fit(), listed(*program),
    ensures raw_of(*final(builder), *program, r), keeps(*old(builder), *final(builder)), inv(*final(builder)),
//@ end
impl RawProgramBuilder {
//@ fn raw::builder::RawProgramBuilder::new ret=r
    ensures inv(r), r.built@.len() == 0,
//@ exit
    proof { reveal(inv); }
//@ end
//@ fn raw::builder::RawProgramBuilder::build_on ret=r
    requires inv(*old(self)), program_ok(*program), types_fit(), listed(*program),
    ensures raw_of(*final(self), *program, r), keeps(*old(self), *final(self)), inv(*final(self)),
//@ entry
        let ghost mut vx_m = *self;
        let ghost mut vx_n = *self;
//@ beforeloop 0
        proof {
            vx_m = *self;
            let (bs, us) = choose|bs: B, us: U| #[trigger] step(bs, us, *self, info) && start(*old(self), bs) && us.program == program && us.value_used_by@ == Map::<Value, Vec<Value>>::empty();
            started(*old(self), bs, us, *self, info);
            refl(*self, info);
        }
//@ loop 0
            invariant
                vx_it0.i <= vx_it0.s@.len(), vx_it0.s@ == map_order(vx_m.values@), vx_v@.len() == vx_it0.i,
                forall|k: Value| map_order(vx_m.values@).contains(k) == #[trigger] vx_m.values@.contains_key(k),
                *self == (B { slices: self.slices, ..vx_m }), step(vx_m, info, *self, info), inv(*self),
                listed_users(*program, vx_m, info),
                forall|j: int| 0 <= j < vx_v@.len() ==> users_is(*self, dat(*program, vx_it0.s@[j]), #[trigger] vx_v@[j]),
            ensures vx_v@.len() == vx_it0.s@.len(),
            decreases vx_it0.s@.len() - vx_it0.i,
//@ loopstart 0
            let ghost vx_b = *self;
            proof { if vx_it0.i < vx_it0.s@.len() { let x = vx_it0.s@[vx_it0.i as int]; assert(map_order(vx_m.values@).contains(x)); assert(vx_m.values@.contains_key(x)); } }
//@ loop 1
            invariant
                vx_it1.i <= vx_it1.s@.len(), vx_it1.s@ == info.value_used_by@[*value]@,
                *self == vx_b,
                vx_w@.len() == present(self.values@.dom(), vx_it1.s@, vx_it1.i as nat).len(), vx_w@.len() <= vx_it1.i,
                forall|j: int| 0 <= j < vx_w@.len() ==> pv(*self, present(self.values@.dom(), vx_it1.s@, vx_it1.i as nat)[j], #[trigger] vx_w@[j]),
            ensures vx_it1.i == vx_it1.s@.len(),
            decreases vx_it1.s@.len() - vx_it1.i,
//@ bodyend 0
            proof {
                let q = self.slices@.last();
                add_l(vx_b, info, *self, q);
                let r = vx_v@.last();
                let x = vx_it0.s@[vx_v@.len() - 1];
                let q0 = set_order(dat(*program, x).users());
                let q1 = present(self.values@.dom(), q0, q0.len());
                last_slice(*self, r, RawSliceItemKind::Value);
                assert(lv(*self, q1, r)) by {
                    reveal(lv);
                    assert forall|j: int| 0 <= j < q1.len() implies pv(*self, #[trigger] q1[j], q@[j]) by { assert(pv(vx_b, q1[j], q@[j])); }
                }
            }
//@ afterloop 0
        proof { vx_n = *self; }
//@ beforeloop 2
        let ghost vx_l = vx_it2.list();
        let ghost vx_f = vx_it2.fin();
//@ loop 2
            invariant
                vx_it2.list() == vx_l, vx_it2.fin() == vx_f,
                vx_it2.orig() == vx_n.values@, vx_it2.pos() <= vx_it2.list().len(), vx_it2.list().len() == map_order(vx_n.values@).len(),
                vx_it2.fin().dom() == vx_n.values@.dom(),
                map_order(vx_n.values@).no_duplicates(),
                forall|j: int| 0 <= j < vx_it2.pos() ==> vx_it2.fin()[#[trigger] map_order(vx_n.values@)[j]] == filled(vx_n.values@[map_order(vx_n.values@)[j]], vx_it2.list()[j]),
            ensures
                vx_it2.pos() == vx_it2.list().len(),
            decreases vx_it2.list().len() - vx_it2.pos(),
//@ exit
        proof {
            let o = map_order(vx_n.values@);
            assert forall|v: Value| #[trigger] vx_n.values@.contains_key(v) implies self.values@[v] == filled(vx_n.values@[v], self.values@[v].c.used_by) && users_is(vx_n, dat(*program, v), self.values@[v].c.used_by) by {
                assert(o.contains(v));
                let j = o.index_of(v);
                assert(o[j] == v);
            }
            finish(*program, vx_m, info, vx_n, *self);
            grow_lv(vx_m, *self, program.insts(), vx_ret.values);
            grow_lf(vx_m, *self, program.order(), vx_ret.funcs);
        }
//@ end
}
} // mod build
} // verus!
fn main() {}
