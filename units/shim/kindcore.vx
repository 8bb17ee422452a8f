// ---- shim/kindcore: the IR data types, extracted; types and names opaque ----
verus! {
//@ path ValueId => u32
//@ path BasicBlockId => u32
//@ path FunctionId => u32
//@ type Rc<RefCell<__T>> => __T

/// An interned type: equal exactly when identical (proved separately for `Type`, see C05).
#[verifier::external_body]
pub struct Type { x: usize }
impl Type {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Type)
        ensures r == *self,
    { unimplemented!() }
}
impl PartialEq for Type {
    #[verifier::external_body]
    fn eq(&self, o: &Type) -> (r: bool)
        ensures r == (*self == *o),
    { unimplemented!() }
}
/// `==` of types: C05
impl vstd::std_specs::cmp::PartialEqSpecImpl for Type {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Type) -> bool { *self == *o }
}

//@ item ir::entities::Value #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item ir::entities::BasicBlock #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item ir::entities::Function #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item ir::values::BinaryOp #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item ir::values::Integer
//@ item ir::values::ZeroInit
//@ item ir::values::Undef
//@ item ir::values::Aggregate
//@ item ir::values::FuncArgRef
//@ item ir::values::BlockArgRef
//@ item ir::values::Alloc
//@ item ir::values::GlobalAlloc
//@ item ir::values::Load
//@ item ir::values::Store
//@ item ir::values::GetPtr
//@ item ir::values::GetElemPtr
//@ item ir::values::Binary
//@ item ir::values::Branch
//@ item ir::values::Jump
//@ item ir::values::Call
//@ item ir::values::Return
//@ item ir::entities::ValueKind

/// The operand list of a value, in the order of its textual form.
pub open spec fn operands(k: ValueKind) -> Seq<Value> {
    match k {
        ValueKind::Aggregate(v) => v.elems@,
        ValueKind::GlobalAlloc(v) => seq![v.init],
        ValueKind::Load(v) => seq![v.src],
        ValueKind::Store(v) => seq![v.value, v.dest],
        ValueKind::GetPtr(v) => seq![v.src, v.index],
        ValueKind::GetElemPtr(v) => seq![v.src, v.index],
        ValueKind::Binary(v) => seq![v.lhs, v.rhs],
        ValueKind::Branch(v) => seq![v.cond] + v.true_args@ + v.false_args@,
        ValueKind::Jump(v) => v.args@,
        ValueKind::Call(v) => v.args@,
        ValueKind::Return(v) => match v.value { Some(x) => seq![x], None => Seq::empty() },
        _ => Seq::empty(),
    }
}

/// The basic blocks a value refers to, in order.
pub open spec fn targets(k: ValueKind) -> Seq<BasicBlock> {
    match k {
        ValueKind::Branch(v) => seq![v.true_bb, v.false_bb],
        ValueKind::Jump(v) => seq![v.target],
        _ => Seq::empty(),
    }
}


pub open spec fn small(k: ValueKind) -> bool {
    operands(k).len() < usize::MAX && match k { ValueKind::Branch(v) => v.true_args@.len() + v.false_args@.len() + 2 < usize::MAX, _ => true }
}
} // verus!
