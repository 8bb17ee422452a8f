// ---- shim/rawtypes: raw objects; a raw pointer is an address ----
//@ type RawType => VxPtr
//@ type RawFunction => VxPtr
//@ type RawBasicBlock => VxPtr
//@ type RawValue => VxPtr
//@ type *const c_void => VxPtr
//@ type *const c_char => VxPtr
//@ type *const () => VxPtr
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct VxPtr { pub a: usize }
//@ item raw::entities::RawSliceItemKind
//@ item raw::entities::RawSlice
//@ item raw::entities::RawTypeKind
//@ item raw::entities::RawFunctionData
//@ item raw::entities::RawBasicBlockData
//@ item raw::entities::RawInteger
//@ item raw::entities::RawAggregate
//@ item raw::entities::RawFuncArgRef
//@ item raw::entities::RawBlockArgRef
//@ item raw::entities::RawGlobalAlloc
//@ item raw::entities::RawLoad
//@ item raw::entities::RawStore
//@ item raw::entities::RawGetPtr
//@ item raw::entities::RawGetElemPtr
//@ item raw::entities::RawBinaryOp
//@ item raw::entities::RawBinary
//@ item raw::entities::RawBranch
//@ item raw::entities::RawJump
//@ item raw::entities::RawCall
//@ item raw::entities::RawReturn
//@ item raw::entities::RawValueKind
//@ item raw::entities::RawValueData
} // verus!
