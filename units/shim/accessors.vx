//@ include valacc.vx
verus! {
impl ValueKind {
//@ fn ir::entities::ValueKind::value_uses
    ensures r.kind == self, r.index == 0,
//@ end
//@ fn ir::entities::ValueKind::bb_uses
    ensures r.kind == self, r.index == 0,
//@ end
}
impl ValueData {
//@ fn ir::entities::ValueData::ty
    ensures *r == self.ty,
//@ end
//@ fn ir::entities::ValueData::name
    ensures *r == self.name,
//@ end
//@ fn ir::entities::ValueData::kind
    ensures *r == self.kind,
//@ end
//@ fn ir::entities::ValueData::used_by
    ensures *r == self.used_by,
//@ end
}
impl BasicBlockData {
//@ fn ir::entities::BasicBlockData::name
    ensures *r == self.name,
//@ end
//@ fn ir::entities::BasicBlockData::used_by
    ensures *r == self.used_by,
//@ end
//@ fn ir::entities::BasicBlockData::params
    ensures r@ == self.params@,
//@ end
}
} // verus!
