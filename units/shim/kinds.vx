// ---- shim/kinds: the IR data types and the objects that hold them ----
//@ include kindcore.vx
verus! {
//@ item ir::entities::ValueData
//@ item ir::entities::BasicBlockData
//@ item ir::entities::ValueUses
//@ item ir::entities::BasicBlockUses
} // verus!
