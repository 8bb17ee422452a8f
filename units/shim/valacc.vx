// ---- shim/accessors: accessors of the value kinds, under contract ----
verus! {
impl Integer {
//@ fn ir::values::Integer::value
    ensures r == self.value,
//@ end
}
impl Aggregate {
//@ fn ir::values::Aggregate::elems
    ensures r@ == self.elems@,
//@ end
}
impl FuncArgRef {
//@ fn ir::values::FuncArgRef::index
    ensures r == self.index,
//@ end
}
impl BlockArgRef {
//@ fn ir::values::BlockArgRef::index
    ensures r == self.index,
//@ end
}
impl GlobalAlloc {
//@ fn ir::values::GlobalAlloc::init
    ensures r == self.init,
//@ end
}
impl Load {
//@ fn ir::values::Load::src
    ensures r == self.src,
//@ end
}
impl Store {
//@ fn ir::values::Store::value
    ensures r == self.value,
//@ end
//@ fn ir::values::Store::dest
    ensures r == self.dest,
//@ end
}
impl GetPtr {
//@ fn ir::values::GetPtr::src
    ensures r == self.src,
//@ end
//@ fn ir::values::GetPtr::index
    ensures r == self.index,
//@ end
}
impl GetElemPtr {
//@ fn ir::values::GetElemPtr::src
    ensures r == self.src,
//@ end
//@ fn ir::values::GetElemPtr::index
    ensures r == self.index,
//@ end
}
impl Binary {
//@ fn ir::values::Binary::op
    ensures r == self.op,
//@ end
//@ fn ir::values::Binary::lhs
    ensures r == self.lhs,
//@ end
//@ fn ir::values::Binary::rhs
    ensures r == self.rhs,
//@ end
}
impl Branch {
//@ fn ir::values::Branch::cond
    ensures r == self.cond,
//@ end
//@ fn ir::values::Branch::true_bb
    ensures r == self.true_bb,
//@ end
//@ fn ir::values::Branch::false_bb
    ensures r == self.false_bb,
//@ end
//@ fn ir::values::Branch::true_args
    ensures r@ == self.true_args@,
//@ end
//@ fn ir::values::Branch::false_args
    ensures r@ == self.false_args@,
//@ end
}
impl Jump {
//@ fn ir::values::Jump::target
    ensures r == self.target,
//@ end
//@ fn ir::values::Jump::args
    ensures r@ == self.args@,
//@ end
}
impl Call {
//@ fn ir::values::Call::callee
    ensures r == self.callee,
//@ end
//@ fn ir::values::Call::args
    ensures r@ == self.args@,
//@ end
}
impl Return {
//@ fn ir::values::Return::value
    ensures r == self.value,
//@ end
}
} // verus!
