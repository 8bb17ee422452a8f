//@ include shim/base.vx
//@ include shim/kinds.vx
//@ include shim/accessors.vx
//@ include shim/uses.vx
// ---- classification ----
verus! {
pub open spec fn const_kind(k: ValueKind) -> bool { k is Integer || k is ZeroInit || k is Undef || k is Aggregate }
pub open spec fn inst_kind(k: ValueKind) -> bool {
    k is Alloc || k is Load || k is Store || k is GetPtr || k is GetElemPtr || k is Binary || k is Branch || k is Jump || k is Call || k is Return
}
impl ValueKind {
//@ fn ir::entities::ValueKind::is_const
    ensures r == const_kind(*self),
//@ end
//@ fn ir::entities::ValueKind::is_global_alloc
    ensures r == (*self is GlobalAlloc),
//@ end
//@ fn ir::entities::ValueKind::is_local_inst
    ensures r == inst_kind(*self),
//@ end
}
/// the three classes and the argument references do not overlap, and nothing else is left
pub proof fn classes(k: ValueKind)
    ensures
        !(const_kind(k) && inst_kind(k)), !(k is GlobalAlloc && (const_kind(k) || inst_kind(k))),
        const_kind(k) || inst_kind(k) || k is GlobalAlloc || k is FuncArgRef || k is BlockArgRef,
{ }
// ---- the operands, to be changed in place: each accessor gives its own field, and nothing else changes ----
impl Integer {
//@ fn ir::values::Integer::value_mut
    ensures *r == old(self).value, *final(self) == (Integer { value: *final(r), ..*old(self) }),
//@ end
}
impl Aggregate {
//@ fn ir::values::Aggregate::elems_mut
    ensures *r == old(self).elems, *final(self) == (Aggregate { elems: *final(r), ..*old(self) }),
//@ end
}
impl FuncArgRef {
//@ fn ir::values::FuncArgRef::index_mut
    ensures *r == old(self).index, *final(self) == (FuncArgRef { index: *final(r), ..*old(self) }),
//@ end
}
impl BlockArgRef {
//@ fn ir::values::BlockArgRef::index_mut
    ensures *r == old(self).index, *final(self) == (BlockArgRef { index: *final(r), ..*old(self) }),
//@ end
}
impl GlobalAlloc {
//@ fn ir::values::GlobalAlloc::init_mut
    ensures *r == old(self).init, *final(self) == (GlobalAlloc { init: *final(r), ..*old(self) }),
//@ end
}
impl Load {
//@ fn ir::values::Load::src_mut
    ensures *r == old(self).src, *final(self) == (Load { src: *final(r), ..*old(self) }),
//@ end
}
impl Store {
//@ fn ir::values::Store::value_mut
    ensures *r == old(self).value, *final(self) == (Store { value: *final(r), ..*old(self) }),
//@ end
//@ fn ir::values::Store::dest_mut
    ensures *r == old(self).dest, *final(self) == (Store { dest: *final(r), ..*old(self) }),
//@ end
}
impl GetPtr {
//@ fn ir::values::GetPtr::src_mut
    ensures *r == old(self).src, *final(self) == (GetPtr { src: *final(r), ..*old(self) }),
//@ end
//@ fn ir::values::GetPtr::index_mut
    ensures *r == old(self).index, *final(self) == (GetPtr { index: *final(r), ..*old(self) }),
//@ end
}
impl GetElemPtr {
//@ fn ir::values::GetElemPtr::src_mut
    ensures *r == old(self).src, *final(self) == (GetElemPtr { src: *final(r), ..*old(self) }),
//@ end
//@ fn ir::values::GetElemPtr::index_mut
    ensures *r == old(self).index, *final(self) == (GetElemPtr { index: *final(r), ..*old(self) }),
//@ end
}
impl Binary {
//@ fn ir::values::Binary::op_mut
    ensures *r == old(self).op, *final(self) == (Binary { op: *final(r), ..*old(self) }),
//@ end
//@ fn ir::values::Binary::lhs_mut
    ensures *r == old(self).lhs, *final(self) == (Binary { lhs: *final(r), ..*old(self) }),
//@ end
//@ fn ir::values::Binary::rhs_mut
    ensures *r == old(self).rhs, *final(self) == (Binary { rhs: *final(r), ..*old(self) }),
//@ end
}
impl Branch {
//@ fn ir::values::Branch::cond_mut
    ensures *r == old(self).cond, *final(self) == (Branch { cond: *final(r), ..*old(self) }),
//@ end
//@ fn ir::values::Branch::true_bb_mut
    ensures *r == old(self).true_bb, *final(self) == (Branch { true_bb: *final(r), ..*old(self) }),
//@ end
//@ fn ir::values::Branch::false_bb_mut
    ensures *r == old(self).false_bb, *final(self) == (Branch { false_bb: *final(r), ..*old(self) }),
//@ end
//@ fn ir::values::Branch::true_args_mut
    ensures *r == old(self).true_args, *final(self) == (Branch { true_args: *final(r), ..*old(self) }),
//@ end
//@ fn ir::values::Branch::false_args_mut
    ensures *r == old(self).false_args, *final(self) == (Branch { false_args: *final(r), ..*old(self) }),
//@ end
}
impl Jump {
//@ fn ir::values::Jump::target_mut
    ensures *r == old(self).target, *final(self) == (Jump { target: *final(r), ..*old(self) }),
//@ end
//@ fn ir::values::Jump::args_mut
    ensures *r == old(self).args, *final(self) == (Jump { args: *final(r), ..*old(self) }),
//@ end
}
impl Call {
//@ fn ir::values::Call::callee_mut
    ensures *r == old(self).callee, *final(self) == (Call { callee: *final(r), ..*old(self) }),
//@ end
//@ fn ir::values::Call::args_mut
    ensures *r == old(self).args, *final(self) == (Call { args: *final(r), ..*old(self) }),
//@ end
}
impl Return {
//@ fn ir::values::Return::value_mut
    ensures *r == old(self).value, *final(self) == (Return { value: *final(r), ..*old(self) }),
//@ end
}
impl ValueData {
//@ fn ir::entities::ValueData::kind_mut
    ensures *r == old(self).kind, *final(self) == (ValueData { kind: *final(r), ..*old(self) }),
//@ end
}
} // verus!
fn main() {}
