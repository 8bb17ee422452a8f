//@ include shim/base.vx
//@ include shim/kinds.vx
//@ include shim/accessors.vx
//@ include shim/uses.vx
//@ include shim/dfg.vx
verus! {
//@ rule __a.ty() != __b.ty() => !vx_ty_eq(__a.ty(), __b.ty())
//@ rule __a.ty() == __b.ty() => vx_ty_eq(__a.ty(), __b.ty())
/// `==` of types: C05
#[verifier::external_body]
pub fn vx_ty_eq(a: &Type, b: &Type) -> (r: bool)
    ensures r == (*a == *b),
{ unimplemented!() }
//@ rule __a.zip(__b) => vx_zip(__a, __b)
//@ rule __a.xor(__b) => vx_xor(__a, __b)
#[verifier::external_body]
pub fn vx_xor<T>(a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (match (a, b) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None }),
{ unimplemented!() }
/// Iterator::zip: pairs until either side is exhausted
pub struct VxZip<'a, 'b> { pub a: ValueUses<'a>, pub b: ValueUses<'b> }
pub fn vx_zip<'a, 'b>(a: ValueUses<'a>, b: ValueUses<'b>) -> (r: VxZip<'a, 'b>)
    ensures r.a == a, r.b == b,
{ VxZip { a, b } }
impl<'a, 'b> VxZip<'a, 'b> {
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
    pub fn next(&mut self) -> (r: Option<(Value, Value)>)
        requires
            old(self).a.index == old(self).b.index, old(self).a.index < usize::MAX,
            old(self).a.index <= operands(*old(self).a.kind).len(), old(self).a.index <= operands(*old(self).b.kind).len(),
            small(*old(self).a.kind), small(*old(self).b.kind),
        ensures
            final(self).a.kind == old(self).a.kind, final(self).b.kind == old(self).b.kind,
            ({
                let i = old(self).a.index;
                let (x, y) = (operands(*old(self).a.kind), operands(*old(self).b.kind));
                if i < x.len() && i < y.len() {
                    r == Some((x[i as int], y[i as int])) && final(self).a.index == i + 1 && final(self).b.index == i + 1
                } else { r is None }
            }),
    {
        let x = self.a.next();
        if x.is_none() { return None; }
        let y = self.b.next();
        if y.is_none() { return None; }
        Some((x.unwrap(), y.unwrap()))
    }
}

/// Distance of a value from the leaves of the operand graph.  Its existence with `acyclic` is
/// the stated assumption that operands do not form a cycle.
pub uninterp spec fn rank(d: DataFlowGraph, v: Value) -> nat;
pub open spec fn maxrank(d: DataFlowGraph, s: Seq<Value>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { let m = maxrank(d, s.drop_last()); if rank(d, s.last()) > m { rank(d, s.last()) } else { m } }
}
pub proof fn lemma_maxrank(d: DataFlowGraph, s: Seq<Value>, i: int)
    requires 0 <= i < s.len(),
    ensures rank(d, s[i]) <= maxrank(d, s),
    decreases s.len(),
{
    if i < s.len() - 1 { lemma_maxrank(d, s.drop_last(), i); assert(s.drop_last()[i] == s[i]); }
}
impl DataFlowGraph {
    pub open spec fn data(self, v: Value) -> ValueData {
        if self.globals@.contains_key(v) { self.globals@[v] } else { self.values@[v] }
    }
    /// operands exist (in the graph or among the globals) and do not form cycles
    pub open spec fn comparable(self) -> bool {
        forall|v: Value| self.exists_val(v) ==> self.ok_kind((#[trigger] self.data(v)).kind) && rank(self, v) > maxrank(self, operands(self.data(v).kind))
    }
    pub open spec fn ok_kind(self, k: ValueKind) -> bool {
        small(k) && forall|i: int| 0 <= i < operands(k).len() ==> self.exists_val(#[trigger] operands(k)[i])
    }
}
/// everything of a value but its operands: kind, literal, operator, blocks, callee, and how
/// many operands there are in each group
pub open spec fn same_head(a: ValueKind, b: ValueKind) -> bool {
    match (a, b) {
        (ValueKind::Integer(l), ValueKind::Integer(r)) => l.value == r.value,
        (ValueKind::ZeroInit(_), ValueKind::ZeroInit(_)) => true,
        (ValueKind::Undef(_), ValueKind::Undef(_)) => true,
        (ValueKind::Aggregate(l), ValueKind::Aggregate(r)) => l.elems@.len() == r.elems@.len(),
        (ValueKind::FuncArgRef(l), ValueKind::FuncArgRef(r)) => l.index == r.index,
        (ValueKind::BlockArgRef(l), ValueKind::BlockArgRef(r)) => l.index == r.index,
        (ValueKind::Alloc(_), ValueKind::Alloc(_)) => true,
        (ValueKind::GlobalAlloc(_), ValueKind::GlobalAlloc(_)) => true,
        (ValueKind::Load(_), ValueKind::Load(_)) => true,
        (ValueKind::Store(_), ValueKind::Store(_)) => true,
        (ValueKind::GetPtr(_), ValueKind::GetPtr(_)) => true,
        (ValueKind::GetElemPtr(_), ValueKind::GetElemPtr(_)) => true,
        (ValueKind::Binary(l), ValueKind::Binary(r)) => l.op == r.op,
        (ValueKind::Branch(l), ValueKind::Branch(r)) => l.true_bb == r.true_bb && l.false_bb == r.false_bb && l.true_args@.len() == r.true_args@.len() && l.false_args@.len() == r.false_args@.len(),
        (ValueKind::Jump(l), ValueKind::Jump(r)) => l.target == r.target && l.args@.len() == r.args@.len(),
        (ValueKind::Call(l), ValueKind::Call(r)) => l.callee == r.callee && l.args@.len() == r.args@.len(),
        (ValueKind::Return(l), ValueKind::Return(r)) => l.value is Some == r.value is Some,
        _ => false,
    }
}
/// Structural equality: the definition the property states.
pub open spec fn eq_val(d: DataFlowGraph, a: Value, b: Value) -> bool
    decreases rank(d, a), 0nat when d.comparable() && d.exists_val(a)
{
    eq_data(d, d.data(a), d.data(b))
}
pub open spec fn eq_data(d: DataFlowGraph, a: ValueData, b: ValueData) -> bool
    decreases maxrank(d, operands(a.kind)), 1nat when d.comparable() && d.ok_kind(a.kind) via eq_data_decreases
{
    &&& a.ty == b.ty
    &&& same_head(a.kind, b.kind)
    &&& forall|i: int| 0 <= i < operands(a.kind).len() ==> eq_val(d, #[trigger] operands(a.kind)[i], operands(b.kind)[i])
}
#[via_fn]
proof fn eq_data_decreases(d: DataFlowGraph, a: ValueData, b: ValueData) {
    assert forall|i: int| 0 <= i < operands(a.kind).len() implies rank(d, #[trigger] operands(a.kind)[i]) <= maxrank(d, operands(a.kind)) by { lemma_maxrank(d, operands(a.kind), i); }
}

impl DataFlowGraph {
//@ fn ir::dfg::DataFlowGraph::value_eq
    requires self.comparable(), self.exists_val(lhs), self.exists_val(rhs),
    ensures r == eq_val(*self, lhs, rhs),
    decreases rank(*self, lhs), 0nat,
//@ entry
        proof {
            let (a, b) = (self.data(lhs), self.data(rhs));
            assert(self.ok_kind(self.data(lhs).kind));
            assert(self.ok_kind(self.data(rhs).kind));
        }
//@ end
//@ fn ir::dfg::DataFlowGraph::data_eq
    requires self.comparable(), self.ok_kind(lhs.kind), self.ok_kind(rhs.kind),
    ensures r == eq_data(*self, *lhs, *rhs),
    decreases maxrank(*self, operands(lhs.kind)), 1nat,
//@ loop 0
    invariant_except_break
        vx_it0.a.index == vx_it0.b.index,
        vx_it0.a.index <= operands(lhs.kind).len(),
        forall|i: int| 0 <= i < vx_it0.a.index ==> eq_val(*self, #[trigger] operands(lhs.kind)[i], operands(rhs.kind)[i]),
    invariant
        vx_it0.a.kind == &lhs.kind, vx_it0.b.kind == &rhs.kind,
        self.comparable(), self.ok_kind(lhs.kind), self.ok_kind(rhs.kind),
        operands(lhs.kind).len() == operands(rhs.kind).len(),
        lhs.ty == rhs.ty, same_head(lhs.kind, rhs.kind),
    ensures
        forall|i: int| 0 <= i < operands(lhs.kind).len() ==> eq_val(*self, #[trigger] operands(lhs.kind)[i], operands(rhs.kind)[i]),
    decreases operands(lhs.kind).len() - vx_it0.a.index,
//@ loopstart 0
        proof { if vx_it0.a.index < operands(lhs.kind).len() {
            lemma_maxrank(*self, operands(lhs.kind), vx_it0.a.index as int);
            let i = vx_it0.a.index as int;
            assert(self.exists_val(operands(lhs.kind)[i]));
            assert(self.exists_val(operands(rhs.kind)[i]));
        } }
//@ end
}
/// Comparing a value with itself answers yes.
pub proof fn reflexive(d: DataFlowGraph, a: Value)
    requires d.comparable(), d.exists_val(a),
    ensures eq_val(d, a, a),
    decreases rank(d, a),
{
    let k = d.data(a).kind;
    assert forall|i: int| 0 <= i < operands(k).len() implies eq_val(d, #[trigger] operands(k)[i], operands(k)[i]) by {
        lemma_maxrank(d, operands(k), i);
        reflexive(d, operands(k)[i]);
    }
    assert(eq_data(d, d.data(a), d.data(a)));
}
} // verus!
fn main() {}
