//@ include shim/base.vx
//@ include shim/kinds.vx
//@ include shim/accessors.vx
//@ source koopa
//@ type Box<[Type]> => Vec<Type>
verus! {
//@ item ir::types::TypeKind
} // verus!
//@ source libkoopa
//@ include shim/rawtypes.vx
verus! {
// ---- declarations of the shipped header and of the crate, as constants (extracted on every run) ----
#[verifier::opaque]
pub open spec fn vx_up(a: int, b: int) -> int { ((a + b - 1) / b) * b }
pub open spec fn vx_max(a: int, b: int) -> int { if a < b { b } else { a } }
//@ cheader
//@ rlayout raw::entities
//@ rlayout errors

} // verus!
//@ include shim/errcodes.vx
verus! {
proof fn enum_RawSliceItemKind()
    ensures
        R_RawSliceItemKind__Unknown == C_KOOPA_RSIK_UNKNOWN,
        R_RawSliceItemKind__Type == C_KOOPA_RSIK_TYPE,
        R_RawSliceItemKind__Function == C_KOOPA_RSIK_FUNCTION,
        R_RawSliceItemKind__BasicBlock == C_KOOPA_RSIK_BASIC_BLOCK,
        R_RawSliceItemKind__Value == C_KOOPA_RSIK_VALUE,
{
    assert(R_RawSliceItemKind__Unknown == C_KOOPA_RSIK_UNKNOWN) by (compute_only);
    assert(R_RawSliceItemKind__Type == C_KOOPA_RSIK_TYPE) by (compute_only);
    assert(R_RawSliceItemKind__Function == C_KOOPA_RSIK_FUNCTION) by (compute_only);
    assert(R_RawSliceItemKind__BasicBlock == C_KOOPA_RSIK_BASIC_BLOCK) by (compute_only);
    assert(R_RawSliceItemKind__Value == C_KOOPA_RSIK_VALUE) by (compute_only);
}

proof fn enum_RawTypeKind()
    ensures
        R_RawTypeKind__Int32 == C_KOOPA_RTT_INT32,
        R_RawTypeKind__Unit == C_KOOPA_RTT_UNIT,
        R_RawTypeKind__Array == C_KOOPA_RTT_ARRAY,
        R_RawTypeKind__Pointer == C_KOOPA_RTT_POINTER,
        R_RawTypeKind__Function == C_KOOPA_RTT_FUNCTION,
{
    assert(R_RawTypeKind__Int32 == C_KOOPA_RTT_INT32) by (compute_only);
    assert(R_RawTypeKind__Unit == C_KOOPA_RTT_UNIT) by (compute_only);
    assert(R_RawTypeKind__Array == C_KOOPA_RTT_ARRAY) by (compute_only);
    assert(R_RawTypeKind__Pointer == C_KOOPA_RTT_POINTER) by (compute_only);
    assert(R_RawTypeKind__Function == C_KOOPA_RTT_FUNCTION) by (compute_only);
}

proof fn enum_RawValueKind()
    ensures
        R_RawValueKind__Integer == C_KOOPA_RVT_INTEGER,
        R_RawValueKind__ZeroInit == C_KOOPA_RVT_ZERO_INIT,
        R_RawValueKind__Undef == C_KOOPA_RVT_UNDEF,
        R_RawValueKind__Aggregate == C_KOOPA_RVT_AGGREGATE,
        R_RawValueKind__FuncArgRef == C_KOOPA_RVT_FUNC_ARG_REF,
        R_RawValueKind__BlockArgRef == C_KOOPA_RVT_BLOCK_ARG_REF,
        R_RawValueKind__Alloc == C_KOOPA_RVT_ALLOC,
        R_RawValueKind__GlobalAlloc == C_KOOPA_RVT_GLOBAL_ALLOC,
        R_RawValueKind__Load == C_KOOPA_RVT_LOAD,
        R_RawValueKind__Store == C_KOOPA_RVT_STORE,
        R_RawValueKind__GetPtr == C_KOOPA_RVT_GET_PTR,
        R_RawValueKind__GetElemPtr == C_KOOPA_RVT_GET_ELEM_PTR,
        R_RawValueKind__Binary == C_KOOPA_RVT_BINARY,
        R_RawValueKind__Branch == C_KOOPA_RVT_BRANCH,
        R_RawValueKind__Jump == C_KOOPA_RVT_JUMP,
        R_RawValueKind__Call == C_KOOPA_RVT_CALL,
        R_RawValueKind__Return == C_KOOPA_RVT_RETURN,
{
    assert(R_RawValueKind__Integer == C_KOOPA_RVT_INTEGER) by (compute_only);
    assert(R_RawValueKind__ZeroInit == C_KOOPA_RVT_ZERO_INIT) by (compute_only);
    assert(R_RawValueKind__Undef == C_KOOPA_RVT_UNDEF) by (compute_only);
    assert(R_RawValueKind__Aggregate == C_KOOPA_RVT_AGGREGATE) by (compute_only);
    assert(R_RawValueKind__FuncArgRef == C_KOOPA_RVT_FUNC_ARG_REF) by (compute_only);
    assert(R_RawValueKind__BlockArgRef == C_KOOPA_RVT_BLOCK_ARG_REF) by (compute_only);
    assert(R_RawValueKind__Alloc == C_KOOPA_RVT_ALLOC) by (compute_only);
    assert(R_RawValueKind__GlobalAlloc == C_KOOPA_RVT_GLOBAL_ALLOC) by (compute_only);
    assert(R_RawValueKind__Load == C_KOOPA_RVT_LOAD) by (compute_only);
    assert(R_RawValueKind__Store == C_KOOPA_RVT_STORE) by (compute_only);
    assert(R_RawValueKind__GetPtr == C_KOOPA_RVT_GET_PTR) by (compute_only);
    assert(R_RawValueKind__GetElemPtr == C_KOOPA_RVT_GET_ELEM_PTR) by (compute_only);
    assert(R_RawValueKind__Binary == C_KOOPA_RVT_BINARY) by (compute_only);
    assert(R_RawValueKind__Branch == C_KOOPA_RVT_BRANCH) by (compute_only);
    assert(R_RawValueKind__Jump == C_KOOPA_RVT_JUMP) by (compute_only);
    assert(R_RawValueKind__Call == C_KOOPA_RVT_CALL) by (compute_only);
    assert(R_RawValueKind__Return == C_KOOPA_RVT_RETURN) by (compute_only);
}

proof fn enum_RawBinaryOp()
    ensures
        R_RawBinaryOp__NotEq == C_KOOPA_RBO_NOT_EQ,
        R_RawBinaryOp__Eq == C_KOOPA_RBO_EQ,
        R_RawBinaryOp__Gt == C_KOOPA_RBO_GT,
        R_RawBinaryOp__Lt == C_KOOPA_RBO_LT,
        R_RawBinaryOp__Ge == C_KOOPA_RBO_GE,
        R_RawBinaryOp__Le == C_KOOPA_RBO_LE,
        R_RawBinaryOp__Add == C_KOOPA_RBO_ADD,
        R_RawBinaryOp__Sub == C_KOOPA_RBO_SUB,
        R_RawBinaryOp__Mul == C_KOOPA_RBO_MUL,
        R_RawBinaryOp__Div == C_KOOPA_RBO_DIV,
        R_RawBinaryOp__Mod == C_KOOPA_RBO_MOD,
        R_RawBinaryOp__And == C_KOOPA_RBO_AND,
        R_RawBinaryOp__Or == C_KOOPA_RBO_OR,
        R_RawBinaryOp__Xor == C_KOOPA_RBO_XOR,
        R_RawBinaryOp__Shl == C_KOOPA_RBO_SHL,
        R_RawBinaryOp__Shr == C_KOOPA_RBO_SHR,
        R_RawBinaryOp__Sar == C_KOOPA_RBO_SAR,
{
    assert(R_RawBinaryOp__NotEq == C_KOOPA_RBO_NOT_EQ) by (compute_only);
    assert(R_RawBinaryOp__Eq == C_KOOPA_RBO_EQ) by (compute_only);
    assert(R_RawBinaryOp__Gt == C_KOOPA_RBO_GT) by (compute_only);
    assert(R_RawBinaryOp__Lt == C_KOOPA_RBO_LT) by (compute_only);
    assert(R_RawBinaryOp__Ge == C_KOOPA_RBO_GE) by (compute_only);
    assert(R_RawBinaryOp__Le == C_KOOPA_RBO_LE) by (compute_only);
    assert(R_RawBinaryOp__Add == C_KOOPA_RBO_ADD) by (compute_only);
    assert(R_RawBinaryOp__Sub == C_KOOPA_RBO_SUB) by (compute_only);
    assert(R_RawBinaryOp__Mul == C_KOOPA_RBO_MUL) by (compute_only);
    assert(R_RawBinaryOp__Div == C_KOOPA_RBO_DIV) by (compute_only);
    assert(R_RawBinaryOp__Mod == C_KOOPA_RBO_MOD) by (compute_only);
    assert(R_RawBinaryOp__And == C_KOOPA_RBO_AND) by (compute_only);
    assert(R_RawBinaryOp__Or == C_KOOPA_RBO_OR) by (compute_only);
    assert(R_RawBinaryOp__Xor == C_KOOPA_RBO_XOR) by (compute_only);
    assert(R_RawBinaryOp__Shl == C_KOOPA_RBO_SHL) by (compute_only);
    assert(R_RawBinaryOp__Shr == C_KOOPA_RBO_SHR) by (compute_only);
    assert(R_RawBinaryOp__Sar == C_KOOPA_RBO_SAR) by (compute_only);
}

proof fn layout_RawSlice()
    ensures
        R_RawSlice__SIZE == C_koopa_raw_slice_t__SIZE,
        R_RawSlice__ALIGN == C_koopa_raw_slice_t__ALIGN,
        R_RawSlice__buffer__OFF == C_koopa_raw_slice_t__buffer__OFF,
        R_RawSlice__buffer__KIND == C_koopa_raw_slice_t__buffer__KIND,
        R_RawSlice__buffer__FSIZE == C_koopa_raw_slice_t__buffer__FSIZE,
        R_RawSlice__len__OFF == C_koopa_raw_slice_t__len__OFF,
        R_RawSlice__len__KIND == C_koopa_raw_slice_t__len__KIND,
        R_RawSlice__len__FSIZE == C_koopa_raw_slice_t__len__FSIZE,
        R_RawSlice__kind__OFF == C_koopa_raw_slice_t__kind__OFF,
        R_RawSlice__kind__KIND == C_koopa_raw_slice_t__kind__KIND,
        R_RawSlice__kind__FSIZE == C_koopa_raw_slice_t__kind__FSIZE,
{
    assert(R_RawSlice__SIZE == C_koopa_raw_slice_t__SIZE) by (compute_only);
    assert(R_RawSlice__ALIGN == C_koopa_raw_slice_t__ALIGN) by (compute_only);
    assert(R_RawSlice__buffer__OFF == C_koopa_raw_slice_t__buffer__OFF) by (compute_only);
    assert(R_RawSlice__buffer__KIND == C_koopa_raw_slice_t__buffer__KIND) by (compute_only);
    assert(R_RawSlice__buffer__FSIZE == C_koopa_raw_slice_t__buffer__FSIZE) by (compute_only);
    assert(R_RawSlice__len__OFF == C_koopa_raw_slice_t__len__OFF) by (compute_only);
    assert(R_RawSlice__len__KIND == C_koopa_raw_slice_t__len__KIND) by (compute_only);
    assert(R_RawSlice__len__FSIZE == C_koopa_raw_slice_t__len__FSIZE) by (compute_only);
    assert(R_RawSlice__kind__OFF == C_koopa_raw_slice_t__kind__OFF) by (compute_only);
    assert(R_RawSlice__kind__KIND == C_koopa_raw_slice_t__kind__KIND) by (compute_only);
    assert(R_RawSlice__kind__FSIZE == C_koopa_raw_slice_t__kind__FSIZE) by (compute_only);
}

proof fn layout_RawProgram()
    ensures
        R_RawProgram__SIZE == C_koopa_raw_program_t__SIZE,
        R_RawProgram__ALIGN == C_koopa_raw_program_t__ALIGN,
        R_RawProgram__values__OFF == C_koopa_raw_program_t__values__OFF,
        R_RawProgram__values__KIND == C_koopa_raw_program_t__values__KIND,
        R_RawProgram__values__FSIZE == C_koopa_raw_program_t__values__FSIZE,
        R_RawProgram__funcs__OFF == C_koopa_raw_program_t__funcs__OFF,
        R_RawProgram__funcs__KIND == C_koopa_raw_program_t__funcs__KIND,
        R_RawProgram__funcs__FSIZE == C_koopa_raw_program_t__funcs__FSIZE,
{
    assert(R_RawProgram__SIZE == C_koopa_raw_program_t__SIZE) by (compute_only);
    assert(R_RawProgram__ALIGN == C_koopa_raw_program_t__ALIGN) by (compute_only);
    assert(R_RawProgram__values__OFF == C_koopa_raw_program_t__values__OFF) by (compute_only);
    assert(R_RawProgram__values__KIND == C_koopa_raw_program_t__values__KIND) by (compute_only);
    assert(R_RawProgram__values__FSIZE == C_koopa_raw_program_t__values__FSIZE) by (compute_only);
    assert(R_RawProgram__funcs__OFF == C_koopa_raw_program_t__funcs__OFF) by (compute_only);
    assert(R_RawProgram__funcs__KIND == C_koopa_raw_program_t__funcs__KIND) by (compute_only);
    assert(R_RawProgram__funcs__FSIZE == C_koopa_raw_program_t__funcs__FSIZE) by (compute_only);
}

proof fn layout_RawFunctionData()
    ensures
        R_RawFunctionData__SIZE == C_koopa_raw_function_data_t__SIZE,
        R_RawFunctionData__ALIGN == C_koopa_raw_function_data_t__ALIGN,
        R_RawFunctionData__ty__OFF == C_koopa_raw_function_data_t__ty__OFF,
        R_RawFunctionData__ty__KIND == C_koopa_raw_function_data_t__ty__KIND,
        R_RawFunctionData__ty__FSIZE == C_koopa_raw_function_data_t__ty__FSIZE,
        R_RawFunctionData__name__OFF == C_koopa_raw_function_data_t__name__OFF,
        R_RawFunctionData__name__KIND == C_koopa_raw_function_data_t__name__KIND,
        R_RawFunctionData__name__FSIZE == C_koopa_raw_function_data_t__name__FSIZE,
        R_RawFunctionData__params__OFF == C_koopa_raw_function_data_t__params__OFF,
        R_RawFunctionData__params__KIND == C_koopa_raw_function_data_t__params__KIND,
        R_RawFunctionData__params__FSIZE == C_koopa_raw_function_data_t__params__FSIZE,
        R_RawFunctionData__bbs__OFF == C_koopa_raw_function_data_t__bbs__OFF,
        R_RawFunctionData__bbs__KIND == C_koopa_raw_function_data_t__bbs__KIND,
        R_RawFunctionData__bbs__FSIZE == C_koopa_raw_function_data_t__bbs__FSIZE,
{
    assert(R_RawFunctionData__SIZE == C_koopa_raw_function_data_t__SIZE) by (compute_only);
    assert(R_RawFunctionData__ALIGN == C_koopa_raw_function_data_t__ALIGN) by (compute_only);
    assert(R_RawFunctionData__ty__OFF == C_koopa_raw_function_data_t__ty__OFF) by (compute_only);
    assert(R_RawFunctionData__ty__KIND == C_koopa_raw_function_data_t__ty__KIND) by (compute_only);
    assert(R_RawFunctionData__ty__FSIZE == C_koopa_raw_function_data_t__ty__FSIZE) by (compute_only);
    assert(R_RawFunctionData__name__OFF == C_koopa_raw_function_data_t__name__OFF) by (compute_only);
    assert(R_RawFunctionData__name__KIND == C_koopa_raw_function_data_t__name__KIND) by (compute_only);
    assert(R_RawFunctionData__name__FSIZE == C_koopa_raw_function_data_t__name__FSIZE) by (compute_only);
    assert(R_RawFunctionData__params__OFF == C_koopa_raw_function_data_t__params__OFF) by (compute_only);
    assert(R_RawFunctionData__params__KIND == C_koopa_raw_function_data_t__params__KIND) by (compute_only);
    assert(R_RawFunctionData__params__FSIZE == C_koopa_raw_function_data_t__params__FSIZE) by (compute_only);
    assert(R_RawFunctionData__bbs__OFF == C_koopa_raw_function_data_t__bbs__OFF) by (compute_only);
    assert(R_RawFunctionData__bbs__KIND == C_koopa_raw_function_data_t__bbs__KIND) by (compute_only);
    assert(R_RawFunctionData__bbs__FSIZE == C_koopa_raw_function_data_t__bbs__FSIZE) by (compute_only);
}

proof fn layout_RawBasicBlockData()
    ensures
        R_RawBasicBlockData__SIZE == C_koopa_raw_basic_block_data_t__SIZE,
        R_RawBasicBlockData__ALIGN == C_koopa_raw_basic_block_data_t__ALIGN,
        R_RawBasicBlockData__name__OFF == C_koopa_raw_basic_block_data_t__name__OFF,
        R_RawBasicBlockData__name__KIND == C_koopa_raw_basic_block_data_t__name__KIND,
        R_RawBasicBlockData__name__FSIZE == C_koopa_raw_basic_block_data_t__name__FSIZE,
        R_RawBasicBlockData__params__OFF == C_koopa_raw_basic_block_data_t__params__OFF,
        R_RawBasicBlockData__params__KIND == C_koopa_raw_basic_block_data_t__params__KIND,
        R_RawBasicBlockData__params__FSIZE == C_koopa_raw_basic_block_data_t__params__FSIZE,
        R_RawBasicBlockData__used_by__OFF == C_koopa_raw_basic_block_data_t__used_by__OFF,
        R_RawBasicBlockData__used_by__KIND == C_koopa_raw_basic_block_data_t__used_by__KIND,
        R_RawBasicBlockData__used_by__FSIZE == C_koopa_raw_basic_block_data_t__used_by__FSIZE,
        R_RawBasicBlockData__insts__OFF == C_koopa_raw_basic_block_data_t__insts__OFF,
        R_RawBasicBlockData__insts__KIND == C_koopa_raw_basic_block_data_t__insts__KIND,
        R_RawBasicBlockData__insts__FSIZE == C_koopa_raw_basic_block_data_t__insts__FSIZE,
{
    assert(R_RawBasicBlockData__SIZE == C_koopa_raw_basic_block_data_t__SIZE) by (compute_only);
    assert(R_RawBasicBlockData__ALIGN == C_koopa_raw_basic_block_data_t__ALIGN) by (compute_only);
    assert(R_RawBasicBlockData__name__OFF == C_koopa_raw_basic_block_data_t__name__OFF) by (compute_only);
    assert(R_RawBasicBlockData__name__KIND == C_koopa_raw_basic_block_data_t__name__KIND) by (compute_only);
    assert(R_RawBasicBlockData__name__FSIZE == C_koopa_raw_basic_block_data_t__name__FSIZE) by (compute_only);
    assert(R_RawBasicBlockData__params__OFF == C_koopa_raw_basic_block_data_t__params__OFF) by (compute_only);
    assert(R_RawBasicBlockData__params__KIND == C_koopa_raw_basic_block_data_t__params__KIND) by (compute_only);
    assert(R_RawBasicBlockData__params__FSIZE == C_koopa_raw_basic_block_data_t__params__FSIZE) by (compute_only);
    assert(R_RawBasicBlockData__used_by__OFF == C_koopa_raw_basic_block_data_t__used_by__OFF) by (compute_only);
    assert(R_RawBasicBlockData__used_by__KIND == C_koopa_raw_basic_block_data_t__used_by__KIND) by (compute_only);
    assert(R_RawBasicBlockData__used_by__FSIZE == C_koopa_raw_basic_block_data_t__used_by__FSIZE) by (compute_only);
    assert(R_RawBasicBlockData__insts__OFF == C_koopa_raw_basic_block_data_t__insts__OFF) by (compute_only);
    assert(R_RawBasicBlockData__insts__KIND == C_koopa_raw_basic_block_data_t__insts__KIND) by (compute_only);
    assert(R_RawBasicBlockData__insts__FSIZE == C_koopa_raw_basic_block_data_t__insts__FSIZE) by (compute_only);
}

proof fn layout_RawValueData()
    ensures
        R_RawValueData__SIZE == C_koopa_raw_value_data__SIZE,
        R_RawValueData__ALIGN == C_koopa_raw_value_data__ALIGN,
        R_RawValueData__ty__OFF == C_koopa_raw_value_data__ty__OFF,
        R_RawValueData__ty__KIND == C_koopa_raw_value_data__ty__KIND,
        R_RawValueData__ty__FSIZE == C_koopa_raw_value_data__ty__FSIZE,
        R_RawValueData__name__OFF == C_koopa_raw_value_data__name__OFF,
        R_RawValueData__name__KIND == C_koopa_raw_value_data__name__KIND,
        R_RawValueData__name__FSIZE == C_koopa_raw_value_data__name__FSIZE,
        R_RawValueData__used_by__OFF == C_koopa_raw_value_data__used_by__OFF,
        R_RawValueData__used_by__KIND == C_koopa_raw_value_data__used_by__KIND,
        R_RawValueData__used_by__FSIZE == C_koopa_raw_value_data__used_by__FSIZE,
        R_RawValueData__kind__OFF == C_koopa_raw_value_data__kind__OFF,
        R_RawValueData__kind__KIND == C_koopa_raw_value_data__kind__KIND,
        R_RawValueData__kind__FSIZE == C_koopa_raw_value_data__kind__FSIZE,
{
    assert(R_RawValueData__SIZE == C_koopa_raw_value_data__SIZE) by (compute_only);
    assert(R_RawValueData__ALIGN == C_koopa_raw_value_data__ALIGN) by (compute_only);
    assert(R_RawValueData__ty__OFF == C_koopa_raw_value_data__ty__OFF) by (compute_only);
    assert(R_RawValueData__ty__KIND == C_koopa_raw_value_data__ty__KIND) by (compute_only);
    assert(R_RawValueData__ty__FSIZE == C_koopa_raw_value_data__ty__FSIZE) by (compute_only);
    assert(R_RawValueData__name__OFF == C_koopa_raw_value_data__name__OFF) by (compute_only);
    assert(R_RawValueData__name__KIND == C_koopa_raw_value_data__name__KIND) by (compute_only);
    assert(R_RawValueData__name__FSIZE == C_koopa_raw_value_data__name__FSIZE) by (compute_only);
    assert(R_RawValueData__used_by__OFF == C_koopa_raw_value_data__used_by__OFF) by (compute_only);
    assert(R_RawValueData__used_by__KIND == C_koopa_raw_value_data__used_by__KIND) by (compute_only);
    assert(R_RawValueData__used_by__FSIZE == C_koopa_raw_value_data__used_by__FSIZE) by (compute_only);
    assert(R_RawValueData__kind__OFF == C_koopa_raw_value_data__kind__OFF) by (compute_only);
    assert(R_RawValueData__kind__KIND == C_koopa_raw_value_data__kind__KIND) by (compute_only);
    assert(R_RawValueData__kind__FSIZE == C_koopa_raw_value_data__kind__FSIZE) by (compute_only);
}

proof fn layout_RawInteger()
    ensures
        R_RawInteger__SIZE == C_koopa_raw_integer_t__SIZE,
        R_RawInteger__ALIGN == C_koopa_raw_integer_t__ALIGN,
        R_RawInteger__value__OFF == C_koopa_raw_integer_t__value__OFF,
        R_RawInteger__value__KIND == C_koopa_raw_integer_t__value__KIND,
        R_RawInteger__value__FSIZE == C_koopa_raw_integer_t__value__FSIZE,
{
    assert(R_RawInteger__SIZE == C_koopa_raw_integer_t__SIZE) by (compute_only);
    assert(R_RawInteger__ALIGN == C_koopa_raw_integer_t__ALIGN) by (compute_only);
    assert(R_RawInteger__value__OFF == C_koopa_raw_integer_t__value__OFF) by (compute_only);
    assert(R_RawInteger__value__KIND == C_koopa_raw_integer_t__value__KIND) by (compute_only);
    assert(R_RawInteger__value__FSIZE == C_koopa_raw_integer_t__value__FSIZE) by (compute_only);
}

proof fn layout_RawAggregate()
    ensures
        R_RawAggregate__SIZE == C_koopa_raw_aggregate_t__SIZE,
        R_RawAggregate__ALIGN == C_koopa_raw_aggregate_t__ALIGN,
        R_RawAggregate__elems__OFF == C_koopa_raw_aggregate_t__elems__OFF,
        R_RawAggregate__elems__KIND == C_koopa_raw_aggregate_t__elems__KIND,
        R_RawAggregate__elems__FSIZE == C_koopa_raw_aggregate_t__elems__FSIZE,
{
    assert(R_RawAggregate__SIZE == C_koopa_raw_aggregate_t__SIZE) by (compute_only);
    assert(R_RawAggregate__ALIGN == C_koopa_raw_aggregate_t__ALIGN) by (compute_only);
    assert(R_RawAggregate__elems__OFF == C_koopa_raw_aggregate_t__elems__OFF) by (compute_only);
    assert(R_RawAggregate__elems__KIND == C_koopa_raw_aggregate_t__elems__KIND) by (compute_only);
    assert(R_RawAggregate__elems__FSIZE == C_koopa_raw_aggregate_t__elems__FSIZE) by (compute_only);
}

proof fn layout_RawFuncArgRef()
    ensures
        R_RawFuncArgRef__SIZE == C_koopa_raw_func_arg_ref_t__SIZE,
        R_RawFuncArgRef__ALIGN == C_koopa_raw_func_arg_ref_t__ALIGN,
        R_RawFuncArgRef__index__OFF == C_koopa_raw_func_arg_ref_t__index__OFF,
        R_RawFuncArgRef__index__KIND == C_koopa_raw_func_arg_ref_t__index__KIND,
        R_RawFuncArgRef__index__FSIZE == C_koopa_raw_func_arg_ref_t__index__FSIZE,
{
    assert(R_RawFuncArgRef__SIZE == C_koopa_raw_func_arg_ref_t__SIZE) by (compute_only);
    assert(R_RawFuncArgRef__ALIGN == C_koopa_raw_func_arg_ref_t__ALIGN) by (compute_only);
    assert(R_RawFuncArgRef__index__OFF == C_koopa_raw_func_arg_ref_t__index__OFF) by (compute_only);
    assert(R_RawFuncArgRef__index__KIND == C_koopa_raw_func_arg_ref_t__index__KIND) by (compute_only);
    assert(R_RawFuncArgRef__index__FSIZE == C_koopa_raw_func_arg_ref_t__index__FSIZE) by (compute_only);
}

proof fn layout_RawBlockArgRef()
    ensures
        R_RawBlockArgRef__SIZE == C_koopa_raw_block_arg_ref_t__SIZE,
        R_RawBlockArgRef__ALIGN == C_koopa_raw_block_arg_ref_t__ALIGN,
        R_RawBlockArgRef__index__OFF == C_koopa_raw_block_arg_ref_t__index__OFF,
        R_RawBlockArgRef__index__KIND == C_koopa_raw_block_arg_ref_t__index__KIND,
        R_RawBlockArgRef__index__FSIZE == C_koopa_raw_block_arg_ref_t__index__FSIZE,
{
    assert(R_RawBlockArgRef__SIZE == C_koopa_raw_block_arg_ref_t__SIZE) by (compute_only);
    assert(R_RawBlockArgRef__ALIGN == C_koopa_raw_block_arg_ref_t__ALIGN) by (compute_only);
    assert(R_RawBlockArgRef__index__OFF == C_koopa_raw_block_arg_ref_t__index__OFF) by (compute_only);
    assert(R_RawBlockArgRef__index__KIND == C_koopa_raw_block_arg_ref_t__index__KIND) by (compute_only);
    assert(R_RawBlockArgRef__index__FSIZE == C_koopa_raw_block_arg_ref_t__index__FSIZE) by (compute_only);
}

proof fn layout_RawGlobalAlloc()
    ensures
        R_RawGlobalAlloc__SIZE == C_koopa_raw_global_alloc_t__SIZE,
        R_RawGlobalAlloc__ALIGN == C_koopa_raw_global_alloc_t__ALIGN,
        R_RawGlobalAlloc__init__OFF == C_koopa_raw_global_alloc_t__init__OFF,
        R_RawGlobalAlloc__init__KIND == C_koopa_raw_global_alloc_t__init__KIND,
        R_RawGlobalAlloc__init__FSIZE == C_koopa_raw_global_alloc_t__init__FSIZE,
{
    assert(R_RawGlobalAlloc__SIZE == C_koopa_raw_global_alloc_t__SIZE) by (compute_only);
    assert(R_RawGlobalAlloc__ALIGN == C_koopa_raw_global_alloc_t__ALIGN) by (compute_only);
    assert(R_RawGlobalAlloc__init__OFF == C_koopa_raw_global_alloc_t__init__OFF) by (compute_only);
    assert(R_RawGlobalAlloc__init__KIND == C_koopa_raw_global_alloc_t__init__KIND) by (compute_only);
    assert(R_RawGlobalAlloc__init__FSIZE == C_koopa_raw_global_alloc_t__init__FSIZE) by (compute_only);
}

proof fn layout_RawLoad()
    ensures
        R_RawLoad__SIZE == C_koopa_raw_load_t__SIZE,
        R_RawLoad__ALIGN == C_koopa_raw_load_t__ALIGN,
        R_RawLoad__src__OFF == C_koopa_raw_load_t__src__OFF,
        R_RawLoad__src__KIND == C_koopa_raw_load_t__src__KIND,
        R_RawLoad__src__FSIZE == C_koopa_raw_load_t__src__FSIZE,
{
    assert(R_RawLoad__SIZE == C_koopa_raw_load_t__SIZE) by (compute_only);
    assert(R_RawLoad__ALIGN == C_koopa_raw_load_t__ALIGN) by (compute_only);
    assert(R_RawLoad__src__OFF == C_koopa_raw_load_t__src__OFF) by (compute_only);
    assert(R_RawLoad__src__KIND == C_koopa_raw_load_t__src__KIND) by (compute_only);
    assert(R_RawLoad__src__FSIZE == C_koopa_raw_load_t__src__FSIZE) by (compute_only);
}

proof fn layout_RawStore()
    ensures
        R_RawStore__SIZE == C_koopa_raw_store_t__SIZE,
        R_RawStore__ALIGN == C_koopa_raw_store_t__ALIGN,
        R_RawStore__value__OFF == C_koopa_raw_store_t__value__OFF,
        R_RawStore__value__KIND == C_koopa_raw_store_t__value__KIND,
        R_RawStore__value__FSIZE == C_koopa_raw_store_t__value__FSIZE,
        R_RawStore__dest__OFF == C_koopa_raw_store_t__dest__OFF,
        R_RawStore__dest__KIND == C_koopa_raw_store_t__dest__KIND,
        R_RawStore__dest__FSIZE == C_koopa_raw_store_t__dest__FSIZE,
{
    assert(R_RawStore__SIZE == C_koopa_raw_store_t__SIZE) by (compute_only);
    assert(R_RawStore__ALIGN == C_koopa_raw_store_t__ALIGN) by (compute_only);
    assert(R_RawStore__value__OFF == C_koopa_raw_store_t__value__OFF) by (compute_only);
    assert(R_RawStore__value__KIND == C_koopa_raw_store_t__value__KIND) by (compute_only);
    assert(R_RawStore__value__FSIZE == C_koopa_raw_store_t__value__FSIZE) by (compute_only);
    assert(R_RawStore__dest__OFF == C_koopa_raw_store_t__dest__OFF) by (compute_only);
    assert(R_RawStore__dest__KIND == C_koopa_raw_store_t__dest__KIND) by (compute_only);
    assert(R_RawStore__dest__FSIZE == C_koopa_raw_store_t__dest__FSIZE) by (compute_only);
}

proof fn layout_RawGetPtr()
    ensures
        R_RawGetPtr__SIZE == C_koopa_raw_get_ptr_t__SIZE,
        R_RawGetPtr__ALIGN == C_koopa_raw_get_ptr_t__ALIGN,
        R_RawGetPtr__src__OFF == C_koopa_raw_get_ptr_t__src__OFF,
        R_RawGetPtr__src__KIND == C_koopa_raw_get_ptr_t__src__KIND,
        R_RawGetPtr__src__FSIZE == C_koopa_raw_get_ptr_t__src__FSIZE,
        R_RawGetPtr__index__OFF == C_koopa_raw_get_ptr_t__index__OFF,
        R_RawGetPtr__index__KIND == C_koopa_raw_get_ptr_t__index__KIND,
        R_RawGetPtr__index__FSIZE == C_koopa_raw_get_ptr_t__index__FSIZE,
{
    assert(R_RawGetPtr__SIZE == C_koopa_raw_get_ptr_t__SIZE) by (compute_only);
    assert(R_RawGetPtr__ALIGN == C_koopa_raw_get_ptr_t__ALIGN) by (compute_only);
    assert(R_RawGetPtr__src__OFF == C_koopa_raw_get_ptr_t__src__OFF) by (compute_only);
    assert(R_RawGetPtr__src__KIND == C_koopa_raw_get_ptr_t__src__KIND) by (compute_only);
    assert(R_RawGetPtr__src__FSIZE == C_koopa_raw_get_ptr_t__src__FSIZE) by (compute_only);
    assert(R_RawGetPtr__index__OFF == C_koopa_raw_get_ptr_t__index__OFF) by (compute_only);
    assert(R_RawGetPtr__index__KIND == C_koopa_raw_get_ptr_t__index__KIND) by (compute_only);
    assert(R_RawGetPtr__index__FSIZE == C_koopa_raw_get_ptr_t__index__FSIZE) by (compute_only);
}

proof fn layout_RawGetElemPtr()
    ensures
        R_RawGetElemPtr__SIZE == C_koopa_raw_get_elem_ptr_t__SIZE,
        R_RawGetElemPtr__ALIGN == C_koopa_raw_get_elem_ptr_t__ALIGN,
        R_RawGetElemPtr__src__OFF == C_koopa_raw_get_elem_ptr_t__src__OFF,
        R_RawGetElemPtr__src__KIND == C_koopa_raw_get_elem_ptr_t__src__KIND,
        R_RawGetElemPtr__src__FSIZE == C_koopa_raw_get_elem_ptr_t__src__FSIZE,
        R_RawGetElemPtr__index__OFF == C_koopa_raw_get_elem_ptr_t__index__OFF,
        R_RawGetElemPtr__index__KIND == C_koopa_raw_get_elem_ptr_t__index__KIND,
        R_RawGetElemPtr__index__FSIZE == C_koopa_raw_get_elem_ptr_t__index__FSIZE,
{
    assert(R_RawGetElemPtr__SIZE == C_koopa_raw_get_elem_ptr_t__SIZE) by (compute_only);
    assert(R_RawGetElemPtr__ALIGN == C_koopa_raw_get_elem_ptr_t__ALIGN) by (compute_only);
    assert(R_RawGetElemPtr__src__OFF == C_koopa_raw_get_elem_ptr_t__src__OFF) by (compute_only);
    assert(R_RawGetElemPtr__src__KIND == C_koopa_raw_get_elem_ptr_t__src__KIND) by (compute_only);
    assert(R_RawGetElemPtr__src__FSIZE == C_koopa_raw_get_elem_ptr_t__src__FSIZE) by (compute_only);
    assert(R_RawGetElemPtr__index__OFF == C_koopa_raw_get_elem_ptr_t__index__OFF) by (compute_only);
    assert(R_RawGetElemPtr__index__KIND == C_koopa_raw_get_elem_ptr_t__index__KIND) by (compute_only);
    assert(R_RawGetElemPtr__index__FSIZE == C_koopa_raw_get_elem_ptr_t__index__FSIZE) by (compute_only);
}

proof fn layout_RawBinary()
    ensures
        R_RawBinary__SIZE == C_koopa_raw_binary_t__SIZE,
        R_RawBinary__ALIGN == C_koopa_raw_binary_t__ALIGN,
        R_RawBinary__op__OFF == C_koopa_raw_binary_t__op__OFF,
        R_RawBinary__op__KIND == C_koopa_raw_binary_t__op__KIND,
        R_RawBinary__op__FSIZE == C_koopa_raw_binary_t__op__FSIZE,
        R_RawBinary__lhs__OFF == C_koopa_raw_binary_t__lhs__OFF,
        R_RawBinary__lhs__KIND == C_koopa_raw_binary_t__lhs__KIND,
        R_RawBinary__lhs__FSIZE == C_koopa_raw_binary_t__lhs__FSIZE,
        R_RawBinary__rhs__OFF == C_koopa_raw_binary_t__rhs__OFF,
        R_RawBinary__rhs__KIND == C_koopa_raw_binary_t__rhs__KIND,
        R_RawBinary__rhs__FSIZE == C_koopa_raw_binary_t__rhs__FSIZE,
{
    assert(R_RawBinary__SIZE == C_koopa_raw_binary_t__SIZE) by (compute_only);
    assert(R_RawBinary__ALIGN == C_koopa_raw_binary_t__ALIGN) by (compute_only);
    assert(R_RawBinary__op__OFF == C_koopa_raw_binary_t__op__OFF) by (compute_only);
    assert(R_RawBinary__op__KIND == C_koopa_raw_binary_t__op__KIND) by (compute_only);
    assert(R_RawBinary__op__FSIZE == C_koopa_raw_binary_t__op__FSIZE) by (compute_only);
    assert(R_RawBinary__lhs__OFF == C_koopa_raw_binary_t__lhs__OFF) by (compute_only);
    assert(R_RawBinary__lhs__KIND == C_koopa_raw_binary_t__lhs__KIND) by (compute_only);
    assert(R_RawBinary__lhs__FSIZE == C_koopa_raw_binary_t__lhs__FSIZE) by (compute_only);
    assert(R_RawBinary__rhs__OFF == C_koopa_raw_binary_t__rhs__OFF) by (compute_only);
    assert(R_RawBinary__rhs__KIND == C_koopa_raw_binary_t__rhs__KIND) by (compute_only);
    assert(R_RawBinary__rhs__FSIZE == C_koopa_raw_binary_t__rhs__FSIZE) by (compute_only);
}

proof fn layout_RawBranch()
    ensures
        R_RawBranch__SIZE == C_koopa_raw_branch_t__SIZE,
        R_RawBranch__ALIGN == C_koopa_raw_branch_t__ALIGN,
        R_RawBranch__cond__OFF == C_koopa_raw_branch_t__cond__OFF,
        R_RawBranch__cond__KIND == C_koopa_raw_branch_t__cond__KIND,
        R_RawBranch__cond__FSIZE == C_koopa_raw_branch_t__cond__FSIZE,
        R_RawBranch__true_bb__OFF == C_koopa_raw_branch_t__true_bb__OFF,
        R_RawBranch__true_bb__KIND == C_koopa_raw_branch_t__true_bb__KIND,
        R_RawBranch__true_bb__FSIZE == C_koopa_raw_branch_t__true_bb__FSIZE,
        R_RawBranch__false_bb__OFF == C_koopa_raw_branch_t__false_bb__OFF,
        R_RawBranch__false_bb__KIND == C_koopa_raw_branch_t__false_bb__KIND,
        R_RawBranch__false_bb__FSIZE == C_koopa_raw_branch_t__false_bb__FSIZE,
        R_RawBranch__true_args__OFF == C_koopa_raw_branch_t__true_args__OFF,
        R_RawBranch__true_args__KIND == C_koopa_raw_branch_t__true_args__KIND,
        R_RawBranch__true_args__FSIZE == C_koopa_raw_branch_t__true_args__FSIZE,
        R_RawBranch__false_args__OFF == C_koopa_raw_branch_t__false_args__OFF,
        R_RawBranch__false_args__KIND == C_koopa_raw_branch_t__false_args__KIND,
        R_RawBranch__false_args__FSIZE == C_koopa_raw_branch_t__false_args__FSIZE,
{
    assert(R_RawBranch__SIZE == C_koopa_raw_branch_t__SIZE) by (compute_only);
    assert(R_RawBranch__ALIGN == C_koopa_raw_branch_t__ALIGN) by (compute_only);
    assert(R_RawBranch__cond__OFF == C_koopa_raw_branch_t__cond__OFF) by (compute_only);
    assert(R_RawBranch__cond__KIND == C_koopa_raw_branch_t__cond__KIND) by (compute_only);
    assert(R_RawBranch__cond__FSIZE == C_koopa_raw_branch_t__cond__FSIZE) by (compute_only);
    assert(R_RawBranch__true_bb__OFF == C_koopa_raw_branch_t__true_bb__OFF) by (compute_only);
    assert(R_RawBranch__true_bb__KIND == C_koopa_raw_branch_t__true_bb__KIND) by (compute_only);
    assert(R_RawBranch__true_bb__FSIZE == C_koopa_raw_branch_t__true_bb__FSIZE) by (compute_only);
    assert(R_RawBranch__false_bb__OFF == C_koopa_raw_branch_t__false_bb__OFF) by (compute_only);
    assert(R_RawBranch__false_bb__KIND == C_koopa_raw_branch_t__false_bb__KIND) by (compute_only);
    assert(R_RawBranch__false_bb__FSIZE == C_koopa_raw_branch_t__false_bb__FSIZE) by (compute_only);
    assert(R_RawBranch__true_args__OFF == C_koopa_raw_branch_t__true_args__OFF) by (compute_only);
    assert(R_RawBranch__true_args__KIND == C_koopa_raw_branch_t__true_args__KIND) by (compute_only);
    assert(R_RawBranch__true_args__FSIZE == C_koopa_raw_branch_t__true_args__FSIZE) by (compute_only);
    assert(R_RawBranch__false_args__OFF == C_koopa_raw_branch_t__false_args__OFF) by (compute_only);
    assert(R_RawBranch__false_args__KIND == C_koopa_raw_branch_t__false_args__KIND) by (compute_only);
    assert(R_RawBranch__false_args__FSIZE == C_koopa_raw_branch_t__false_args__FSIZE) by (compute_only);
}

proof fn layout_RawJump()
    ensures
        R_RawJump__SIZE == C_koopa_raw_jump_t__SIZE,
        R_RawJump__ALIGN == C_koopa_raw_jump_t__ALIGN,
        R_RawJump__target__OFF == C_koopa_raw_jump_t__target__OFF,
        R_RawJump__target__KIND == C_koopa_raw_jump_t__target__KIND,
        R_RawJump__target__FSIZE == C_koopa_raw_jump_t__target__FSIZE,
        R_RawJump__args__OFF == C_koopa_raw_jump_t__args__OFF,
        R_RawJump__args__KIND == C_koopa_raw_jump_t__args__KIND,
        R_RawJump__args__FSIZE == C_koopa_raw_jump_t__args__FSIZE,
{
    assert(R_RawJump__SIZE == C_koopa_raw_jump_t__SIZE) by (compute_only);
    assert(R_RawJump__ALIGN == C_koopa_raw_jump_t__ALIGN) by (compute_only);
    assert(R_RawJump__target__OFF == C_koopa_raw_jump_t__target__OFF) by (compute_only);
    assert(R_RawJump__target__KIND == C_koopa_raw_jump_t__target__KIND) by (compute_only);
    assert(R_RawJump__target__FSIZE == C_koopa_raw_jump_t__target__FSIZE) by (compute_only);
    assert(R_RawJump__args__OFF == C_koopa_raw_jump_t__args__OFF) by (compute_only);
    assert(R_RawJump__args__KIND == C_koopa_raw_jump_t__args__KIND) by (compute_only);
    assert(R_RawJump__args__FSIZE == C_koopa_raw_jump_t__args__FSIZE) by (compute_only);
}

proof fn layout_RawCall()
    ensures
        R_RawCall__SIZE == C_koopa_raw_call_t__SIZE,
        R_RawCall__ALIGN == C_koopa_raw_call_t__ALIGN,
        R_RawCall__callee__OFF == C_koopa_raw_call_t__callee__OFF,
        R_RawCall__callee__KIND == C_koopa_raw_call_t__callee__KIND,
        R_RawCall__callee__FSIZE == C_koopa_raw_call_t__callee__FSIZE,
        R_RawCall__args__OFF == C_koopa_raw_call_t__args__OFF,
        R_RawCall__args__KIND == C_koopa_raw_call_t__args__KIND,
        R_RawCall__args__FSIZE == C_koopa_raw_call_t__args__FSIZE,
{
    assert(R_RawCall__SIZE == C_koopa_raw_call_t__SIZE) by (compute_only);
    assert(R_RawCall__ALIGN == C_koopa_raw_call_t__ALIGN) by (compute_only);
    assert(R_RawCall__callee__OFF == C_koopa_raw_call_t__callee__OFF) by (compute_only);
    assert(R_RawCall__callee__KIND == C_koopa_raw_call_t__callee__KIND) by (compute_only);
    assert(R_RawCall__callee__FSIZE == C_koopa_raw_call_t__callee__FSIZE) by (compute_only);
    assert(R_RawCall__args__OFF == C_koopa_raw_call_t__args__OFF) by (compute_only);
    assert(R_RawCall__args__KIND == C_koopa_raw_call_t__args__KIND) by (compute_only);
    assert(R_RawCall__args__FSIZE == C_koopa_raw_call_t__args__FSIZE) by (compute_only);
}

proof fn layout_RawReturn()
    ensures
        R_RawReturn__SIZE == C_koopa_raw_return_t__SIZE,
        R_RawReturn__ALIGN == C_koopa_raw_return_t__ALIGN,
        R_RawReturn__value__OFF == C_koopa_raw_return_t__value__OFF,
        R_RawReturn__value__KIND == C_koopa_raw_return_t__value__KIND,
        R_RawReturn__value__FSIZE == C_koopa_raw_return_t__value__FSIZE,
{
    assert(R_RawReturn__SIZE == C_koopa_raw_return_t__SIZE) by (compute_only);
    assert(R_RawReturn__ALIGN == C_koopa_raw_return_t__ALIGN) by (compute_only);
    assert(R_RawReturn__value__OFF == C_koopa_raw_return_t__value__OFF) by (compute_only);
    assert(R_RawReturn__value__KIND == C_koopa_raw_return_t__value__KIND) by (compute_only);
    assert(R_RawReturn__value__FSIZE == C_koopa_raw_return_t__value__FSIZE) by (compute_only);
}

proof fn layout_RawTypeKind()
    ensures
        R_RawTypeKind__SIZE == C_koopa_raw_type_kind_t__SIZE,
        R_RawTypeKind__ALIGN == C_koopa_raw_type_kind_t__ALIGN,
        R_RawTypeKind__tag__OFF == C_koopa_raw_type_kind_t__tag__OFF,
        4 == C_koopa_raw_type_kind_t__tag__FSIZE,
        R_RawTypeKind__data__OFF == C_koopa_raw_type_kind_t__data__OFF,
        R_RawTypeKind__V_Array__f0__OFF == C_koopa_raw_type_kind_t__data__array__base__OFF,
        R_RawTypeKind__V_Array__f0__KIND == C_koopa_raw_type_kind_t__data__array__base__KIND,
        R_RawTypeKind__V_Array__f0__FSIZE == C_koopa_raw_type_kind_t__data__array__base__FSIZE,
        R_RawTypeKind__V_Array__f1__OFF == C_koopa_raw_type_kind_t__data__array__len__OFF,
        R_RawTypeKind__V_Array__f1__KIND == C_koopa_raw_type_kind_t__data__array__len__KIND,
        R_RawTypeKind__V_Array__f1__FSIZE == C_koopa_raw_type_kind_t__data__array__len__FSIZE,
        0 == C_koopa_raw_type_kind_t__data__array__OFF,
        R_RawTypeKind__V_Pointer__f0__OFF == C_koopa_raw_type_kind_t__data__pointer__base__OFF,
        R_RawTypeKind__V_Pointer__f0__KIND == C_koopa_raw_type_kind_t__data__pointer__base__KIND,
        R_RawTypeKind__V_Pointer__f0__FSIZE == C_koopa_raw_type_kind_t__data__pointer__base__FSIZE,
        0 == C_koopa_raw_type_kind_t__data__pointer__OFF,
        R_RawTypeKind__V_Function__f0__OFF == C_koopa_raw_type_kind_t__data__function__params__OFF,
        R_RawTypeKind__V_Function__f0__KIND == C_koopa_raw_type_kind_t__data__function__params__KIND,
        R_RawTypeKind__V_Function__f0__FSIZE == C_koopa_raw_type_kind_t__data__function__params__FSIZE,
        R_RawTypeKind__V_Function__f1__OFF == C_koopa_raw_type_kind_t__data__function__ret__OFF,
        R_RawTypeKind__V_Function__f1__KIND == C_koopa_raw_type_kind_t__data__function__ret__KIND,
        R_RawTypeKind__V_Function__f1__FSIZE == C_koopa_raw_type_kind_t__data__function__ret__FSIZE,
        0 == C_koopa_raw_type_kind_t__data__function__OFF,
{
    assert(R_RawTypeKind__SIZE == C_koopa_raw_type_kind_t__SIZE) by (compute_only);
    assert(R_RawTypeKind__ALIGN == C_koopa_raw_type_kind_t__ALIGN) by (compute_only);
    assert(R_RawTypeKind__tag__OFF == C_koopa_raw_type_kind_t__tag__OFF) by (compute_only);
    assert(4 == C_koopa_raw_type_kind_t__tag__FSIZE) by (compute_only);
    assert(R_RawTypeKind__data__OFF == C_koopa_raw_type_kind_t__data__OFF) by (compute_only);
    assert(R_RawTypeKind__V_Array__f0__OFF == C_koopa_raw_type_kind_t__data__array__base__OFF) by (compute_only);
    assert(R_RawTypeKind__V_Array__f0__KIND == C_koopa_raw_type_kind_t__data__array__base__KIND) by (compute_only);
    assert(R_RawTypeKind__V_Array__f0__FSIZE == C_koopa_raw_type_kind_t__data__array__base__FSIZE) by (compute_only);
    assert(R_RawTypeKind__V_Array__f1__OFF == C_koopa_raw_type_kind_t__data__array__len__OFF) by (compute_only);
    assert(R_RawTypeKind__V_Array__f1__KIND == C_koopa_raw_type_kind_t__data__array__len__KIND) by (compute_only);
    assert(R_RawTypeKind__V_Array__f1__FSIZE == C_koopa_raw_type_kind_t__data__array__len__FSIZE) by (compute_only);
    assert(0 == C_koopa_raw_type_kind_t__data__array__OFF) by (compute_only);
    assert(R_RawTypeKind__V_Pointer__f0__OFF == C_koopa_raw_type_kind_t__data__pointer__base__OFF) by (compute_only);
    assert(R_RawTypeKind__V_Pointer__f0__KIND == C_koopa_raw_type_kind_t__data__pointer__base__KIND) by (compute_only);
    assert(R_RawTypeKind__V_Pointer__f0__FSIZE == C_koopa_raw_type_kind_t__data__pointer__base__FSIZE) by (compute_only);
    assert(0 == C_koopa_raw_type_kind_t__data__pointer__OFF) by (compute_only);
    assert(R_RawTypeKind__V_Function__f0__OFF == C_koopa_raw_type_kind_t__data__function__params__OFF) by (compute_only);
    assert(R_RawTypeKind__V_Function__f0__KIND == C_koopa_raw_type_kind_t__data__function__params__KIND) by (compute_only);
    assert(R_RawTypeKind__V_Function__f0__FSIZE == C_koopa_raw_type_kind_t__data__function__params__FSIZE) by (compute_only);
    assert(R_RawTypeKind__V_Function__f1__OFF == C_koopa_raw_type_kind_t__data__function__ret__OFF) by (compute_only);
    assert(R_RawTypeKind__V_Function__f1__KIND == C_koopa_raw_type_kind_t__data__function__ret__KIND) by (compute_only);
    assert(R_RawTypeKind__V_Function__f1__FSIZE == C_koopa_raw_type_kind_t__data__function__ret__FSIZE) by (compute_only);
    assert(0 == C_koopa_raw_type_kind_t__data__function__OFF) by (compute_only);
}

proof fn layout_RawValueKind()
    ensures
        R_RawValueKind__SIZE == C_koopa_raw_value_kind_t__SIZE,
        R_RawValueKind__ALIGN == C_koopa_raw_value_kind_t__ALIGN,
        R_RawValueKind__tag__OFF == C_koopa_raw_value_kind_t__tag__OFF,
        4 == C_koopa_raw_value_kind_t__tag__FSIZE,
        R_RawValueKind__data__OFF == C_koopa_raw_value_kind_t__data__OFF,
        R_RawValueKind__V_Integer__f0__OFF == C_koopa_raw_value_kind_t__data__integer__OFF,
        R_RawValueKind__V_Integer__f0__FSIZE == C_koopa_raw_value_kind_t__data__integer__FSIZE,
        R_RawValueKind__V_Integer__f0__KIND == C_koopa_raw_value_kind_t__data__integer__KIND,
        R_RawValueKind__V_Integer__f0__FSIZE == R_RawInteger__SIZE,
        R_RawValueKind__V_Aggregate__f0__OFF == C_koopa_raw_value_kind_t__data__aggregate__OFF,
        R_RawValueKind__V_Aggregate__f0__FSIZE == C_koopa_raw_value_kind_t__data__aggregate__FSIZE,
        R_RawValueKind__V_Aggregate__f0__KIND == C_koopa_raw_value_kind_t__data__aggregate__KIND,
        R_RawValueKind__V_Aggregate__f0__FSIZE == R_RawAggregate__SIZE,
        R_RawValueKind__V_FuncArgRef__f0__OFF == C_koopa_raw_value_kind_t__data__func_arg_ref__OFF,
        R_RawValueKind__V_FuncArgRef__f0__FSIZE == C_koopa_raw_value_kind_t__data__func_arg_ref__FSIZE,
        R_RawValueKind__V_FuncArgRef__f0__KIND == C_koopa_raw_value_kind_t__data__func_arg_ref__KIND,
        R_RawValueKind__V_FuncArgRef__f0__FSIZE == R_RawFuncArgRef__SIZE,
        R_RawValueKind__V_BlockArgRef__f0__OFF == C_koopa_raw_value_kind_t__data__block_arg_ref__OFF,
        R_RawValueKind__V_BlockArgRef__f0__FSIZE == C_koopa_raw_value_kind_t__data__block_arg_ref__FSIZE,
        R_RawValueKind__V_BlockArgRef__f0__KIND == C_koopa_raw_value_kind_t__data__block_arg_ref__KIND,
        R_RawValueKind__V_BlockArgRef__f0__FSIZE == R_RawBlockArgRef__SIZE,
        R_RawValueKind__V_GlobalAlloc__f0__OFF == C_koopa_raw_value_kind_t__data__global_alloc__OFF,
        R_RawValueKind__V_GlobalAlloc__f0__FSIZE == C_koopa_raw_value_kind_t__data__global_alloc__FSIZE,
        R_RawValueKind__V_GlobalAlloc__f0__KIND == C_koopa_raw_value_kind_t__data__global_alloc__KIND,
        R_RawValueKind__V_GlobalAlloc__f0__FSIZE == R_RawGlobalAlloc__SIZE,
        R_RawValueKind__V_Load__f0__OFF == C_koopa_raw_value_kind_t__data__load__OFF,
        R_RawValueKind__V_Load__f0__FSIZE == C_koopa_raw_value_kind_t__data__load__FSIZE,
        R_RawValueKind__V_Load__f0__KIND == C_koopa_raw_value_kind_t__data__load__KIND,
        R_RawValueKind__V_Load__f0__FSIZE == R_RawLoad__SIZE,
        R_RawValueKind__V_Store__f0__OFF == C_koopa_raw_value_kind_t__data__store__OFF,
        R_RawValueKind__V_Store__f0__FSIZE == C_koopa_raw_value_kind_t__data__store__FSIZE,
        R_RawValueKind__V_Store__f0__KIND == C_koopa_raw_value_kind_t__data__store__KIND,
        R_RawValueKind__V_Store__f0__FSIZE == R_RawStore__SIZE,
        R_RawValueKind__V_GetPtr__f0__OFF == C_koopa_raw_value_kind_t__data__get_ptr__OFF,
        R_RawValueKind__V_GetPtr__f0__FSIZE == C_koopa_raw_value_kind_t__data__get_ptr__FSIZE,
        R_RawValueKind__V_GetPtr__f0__KIND == C_koopa_raw_value_kind_t__data__get_ptr__KIND,
        R_RawValueKind__V_GetPtr__f0__FSIZE == R_RawGetPtr__SIZE,
        R_RawValueKind__V_GetElemPtr__f0__OFF == C_koopa_raw_value_kind_t__data__get_elem_ptr__OFF,
        R_RawValueKind__V_GetElemPtr__f0__FSIZE == C_koopa_raw_value_kind_t__data__get_elem_ptr__FSIZE,
        R_RawValueKind__V_GetElemPtr__f0__KIND == C_koopa_raw_value_kind_t__data__get_elem_ptr__KIND,
        R_RawValueKind__V_GetElemPtr__f0__FSIZE == R_RawGetElemPtr__SIZE,
        R_RawValueKind__V_Binary__f0__OFF == C_koopa_raw_value_kind_t__data__binary__OFF,
        R_RawValueKind__V_Binary__f0__FSIZE == C_koopa_raw_value_kind_t__data__binary__FSIZE,
        R_RawValueKind__V_Binary__f0__KIND == C_koopa_raw_value_kind_t__data__binary__KIND,
        R_RawValueKind__V_Binary__f0__FSIZE == R_RawBinary__SIZE,
        R_RawValueKind__V_Branch__f0__OFF == C_koopa_raw_value_kind_t__data__branch__OFF,
        R_RawValueKind__V_Branch__f0__FSIZE == C_koopa_raw_value_kind_t__data__branch__FSIZE,
        R_RawValueKind__V_Branch__f0__KIND == C_koopa_raw_value_kind_t__data__branch__KIND,
        R_RawValueKind__V_Branch__f0__FSIZE == R_RawBranch__SIZE,
        R_RawValueKind__V_Jump__f0__OFF == C_koopa_raw_value_kind_t__data__jump__OFF,
        R_RawValueKind__V_Jump__f0__FSIZE == C_koopa_raw_value_kind_t__data__jump__FSIZE,
        R_RawValueKind__V_Jump__f0__KIND == C_koopa_raw_value_kind_t__data__jump__KIND,
        R_RawValueKind__V_Jump__f0__FSIZE == R_RawJump__SIZE,
        R_RawValueKind__V_Call__f0__OFF == C_koopa_raw_value_kind_t__data__call__OFF,
        R_RawValueKind__V_Call__f0__FSIZE == C_koopa_raw_value_kind_t__data__call__FSIZE,
        R_RawValueKind__V_Call__f0__KIND == C_koopa_raw_value_kind_t__data__call__KIND,
        R_RawValueKind__V_Call__f0__FSIZE == R_RawCall__SIZE,
        R_RawValueKind__V_Return__f0__OFF == C_koopa_raw_value_kind_t__data__ret__OFF,
        R_RawValueKind__V_Return__f0__FSIZE == C_koopa_raw_value_kind_t__data__ret__FSIZE,
        R_RawValueKind__V_Return__f0__KIND == C_koopa_raw_value_kind_t__data__ret__KIND,
        R_RawValueKind__V_Return__f0__FSIZE == R_RawReturn__SIZE,
{
    assert(R_RawValueKind__SIZE == C_koopa_raw_value_kind_t__SIZE) by (compute_only);
    assert(R_RawValueKind__ALIGN == C_koopa_raw_value_kind_t__ALIGN) by (compute_only);
    assert(R_RawValueKind__tag__OFF == C_koopa_raw_value_kind_t__tag__OFF) by (compute_only);
    assert(4 == C_koopa_raw_value_kind_t__tag__FSIZE) by (compute_only);
    assert(R_RawValueKind__data__OFF == C_koopa_raw_value_kind_t__data__OFF) by (compute_only);
    assert(R_RawValueKind__V_Integer__f0__OFF == C_koopa_raw_value_kind_t__data__integer__OFF) by (compute_only);
    assert(R_RawValueKind__V_Integer__f0__FSIZE == C_koopa_raw_value_kind_t__data__integer__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_Integer__f0__KIND == C_koopa_raw_value_kind_t__data__integer__KIND) by (compute_only);
    assert(R_RawValueKind__V_Integer__f0__FSIZE == R_RawInteger__SIZE) by (compute_only);
    assert(R_RawValueKind__V_Aggregate__f0__OFF == C_koopa_raw_value_kind_t__data__aggregate__OFF) by (compute_only);
    assert(R_RawValueKind__V_Aggregate__f0__FSIZE == C_koopa_raw_value_kind_t__data__aggregate__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_Aggregate__f0__KIND == C_koopa_raw_value_kind_t__data__aggregate__KIND) by (compute_only);
    assert(R_RawValueKind__V_Aggregate__f0__FSIZE == R_RawAggregate__SIZE) by (compute_only);
    assert(R_RawValueKind__V_FuncArgRef__f0__OFF == C_koopa_raw_value_kind_t__data__func_arg_ref__OFF) by (compute_only);
    assert(R_RawValueKind__V_FuncArgRef__f0__FSIZE == C_koopa_raw_value_kind_t__data__func_arg_ref__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_FuncArgRef__f0__KIND == C_koopa_raw_value_kind_t__data__func_arg_ref__KIND) by (compute_only);
    assert(R_RawValueKind__V_FuncArgRef__f0__FSIZE == R_RawFuncArgRef__SIZE) by (compute_only);
    assert(R_RawValueKind__V_BlockArgRef__f0__OFF == C_koopa_raw_value_kind_t__data__block_arg_ref__OFF) by (compute_only);
    assert(R_RawValueKind__V_BlockArgRef__f0__FSIZE == C_koopa_raw_value_kind_t__data__block_arg_ref__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_BlockArgRef__f0__KIND == C_koopa_raw_value_kind_t__data__block_arg_ref__KIND) by (compute_only);
    assert(R_RawValueKind__V_BlockArgRef__f0__FSIZE == R_RawBlockArgRef__SIZE) by (compute_only);
    assert(R_RawValueKind__V_GlobalAlloc__f0__OFF == C_koopa_raw_value_kind_t__data__global_alloc__OFF) by (compute_only);
    assert(R_RawValueKind__V_GlobalAlloc__f0__FSIZE == C_koopa_raw_value_kind_t__data__global_alloc__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_GlobalAlloc__f0__KIND == C_koopa_raw_value_kind_t__data__global_alloc__KIND) by (compute_only);
    assert(R_RawValueKind__V_GlobalAlloc__f0__FSIZE == R_RawGlobalAlloc__SIZE) by (compute_only);
    assert(R_RawValueKind__V_Load__f0__OFF == C_koopa_raw_value_kind_t__data__load__OFF) by (compute_only);
    assert(R_RawValueKind__V_Load__f0__FSIZE == C_koopa_raw_value_kind_t__data__load__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_Load__f0__KIND == C_koopa_raw_value_kind_t__data__load__KIND) by (compute_only);
    assert(R_RawValueKind__V_Load__f0__FSIZE == R_RawLoad__SIZE) by (compute_only);
    assert(R_RawValueKind__V_Store__f0__OFF == C_koopa_raw_value_kind_t__data__store__OFF) by (compute_only);
    assert(R_RawValueKind__V_Store__f0__FSIZE == C_koopa_raw_value_kind_t__data__store__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_Store__f0__KIND == C_koopa_raw_value_kind_t__data__store__KIND) by (compute_only);
    assert(R_RawValueKind__V_Store__f0__FSIZE == R_RawStore__SIZE) by (compute_only);
    assert(R_RawValueKind__V_GetPtr__f0__OFF == C_koopa_raw_value_kind_t__data__get_ptr__OFF) by (compute_only);
    assert(R_RawValueKind__V_GetPtr__f0__FSIZE == C_koopa_raw_value_kind_t__data__get_ptr__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_GetPtr__f0__KIND == C_koopa_raw_value_kind_t__data__get_ptr__KIND) by (compute_only);
    assert(R_RawValueKind__V_GetPtr__f0__FSIZE == R_RawGetPtr__SIZE) by (compute_only);
    assert(R_RawValueKind__V_GetElemPtr__f0__OFF == C_koopa_raw_value_kind_t__data__get_elem_ptr__OFF) by (compute_only);
    assert(R_RawValueKind__V_GetElemPtr__f0__FSIZE == C_koopa_raw_value_kind_t__data__get_elem_ptr__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_GetElemPtr__f0__KIND == C_koopa_raw_value_kind_t__data__get_elem_ptr__KIND) by (compute_only);
    assert(R_RawValueKind__V_GetElemPtr__f0__FSIZE == R_RawGetElemPtr__SIZE) by (compute_only);
    assert(R_RawValueKind__V_Binary__f0__OFF == C_koopa_raw_value_kind_t__data__binary__OFF) by (compute_only);
    assert(R_RawValueKind__V_Binary__f0__FSIZE == C_koopa_raw_value_kind_t__data__binary__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_Binary__f0__KIND == C_koopa_raw_value_kind_t__data__binary__KIND) by (compute_only);
    assert(R_RawValueKind__V_Binary__f0__FSIZE == R_RawBinary__SIZE) by (compute_only);
    assert(R_RawValueKind__V_Branch__f0__OFF == C_koopa_raw_value_kind_t__data__branch__OFF) by (compute_only);
    assert(R_RawValueKind__V_Branch__f0__FSIZE == C_koopa_raw_value_kind_t__data__branch__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_Branch__f0__KIND == C_koopa_raw_value_kind_t__data__branch__KIND) by (compute_only);
    assert(R_RawValueKind__V_Branch__f0__FSIZE == R_RawBranch__SIZE) by (compute_only);
    assert(R_RawValueKind__V_Jump__f0__OFF == C_koopa_raw_value_kind_t__data__jump__OFF) by (compute_only);
    assert(R_RawValueKind__V_Jump__f0__FSIZE == C_koopa_raw_value_kind_t__data__jump__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_Jump__f0__KIND == C_koopa_raw_value_kind_t__data__jump__KIND) by (compute_only);
    assert(R_RawValueKind__V_Jump__f0__FSIZE == R_RawJump__SIZE) by (compute_only);
    assert(R_RawValueKind__V_Call__f0__OFF == C_koopa_raw_value_kind_t__data__call__OFF) by (compute_only);
    assert(R_RawValueKind__V_Call__f0__FSIZE == C_koopa_raw_value_kind_t__data__call__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_Call__f0__KIND == C_koopa_raw_value_kind_t__data__call__KIND) by (compute_only);
    assert(R_RawValueKind__V_Call__f0__FSIZE == R_RawCall__SIZE) by (compute_only);
    assert(R_RawValueKind__V_Return__f0__OFF == C_koopa_raw_value_kind_t__data__ret__OFF) by (compute_only);
    assert(R_RawValueKind__V_Return__f0__FSIZE == C_koopa_raw_value_kind_t__data__ret__FSIZE) by (compute_only);
    assert(R_RawValueKind__V_Return__f0__KIND == C_koopa_raw_value_kind_t__data__ret__KIND) by (compute_only);
    assert(R_RawValueKind__V_Return__f0__FSIZE == R_RawReturn__SIZE) by (compute_only);
}

// ---- tags of the same meaning ----
pub open spec fn op_tag(o: BinaryOp) -> int {
    match o {
        BinaryOp::NotEq => C_KOOPA_RBO_NOT_EQ,
        BinaryOp::Eq => C_KOOPA_RBO_EQ,
        BinaryOp::Gt => C_KOOPA_RBO_GT,
        BinaryOp::Lt => C_KOOPA_RBO_LT,
        BinaryOp::Ge => C_KOOPA_RBO_GE,
        BinaryOp::Le => C_KOOPA_RBO_LE,
        BinaryOp::Add => C_KOOPA_RBO_ADD,
        BinaryOp::Sub => C_KOOPA_RBO_SUB,
        BinaryOp::Mul => C_KOOPA_RBO_MUL,
        BinaryOp::Div => C_KOOPA_RBO_DIV,
        BinaryOp::Mod => C_KOOPA_RBO_MOD,
        BinaryOp::And => C_KOOPA_RBO_AND,
        BinaryOp::Or => C_KOOPA_RBO_OR,
        BinaryOp::Xor => C_KOOPA_RBO_XOR,
        BinaryOp::Shl => C_KOOPA_RBO_SHL,
        BinaryOp::Shr => C_KOOPA_RBO_SHR,
        BinaryOp::Sar => C_KOOPA_RBO_SAR,
    }
}
pub open spec fn raw_op_tag(o: RawBinaryOp) -> int {
    match o {
        RawBinaryOp::NotEq => R_RawBinaryOp__NotEq,
        RawBinaryOp::Eq => R_RawBinaryOp__Eq,
        RawBinaryOp::Gt => R_RawBinaryOp__Gt,
        RawBinaryOp::Lt => R_RawBinaryOp__Lt,
        RawBinaryOp::Ge => R_RawBinaryOp__Ge,
        RawBinaryOp::Le => R_RawBinaryOp__Le,
        RawBinaryOp::Add => R_RawBinaryOp__Add,
        RawBinaryOp::Sub => R_RawBinaryOp__Sub,
        RawBinaryOp::Mul => R_RawBinaryOp__Mul,
        RawBinaryOp::Div => R_RawBinaryOp__Div,
        RawBinaryOp::Mod => R_RawBinaryOp__Mod,
        RawBinaryOp::And => R_RawBinaryOp__And,
        RawBinaryOp::Or => R_RawBinaryOp__Or,
        RawBinaryOp::Xor => R_RawBinaryOp__Xor,
        RawBinaryOp::Shl => R_RawBinaryOp__Shl,
        RawBinaryOp::Shr => R_RawBinaryOp__Shr,
        RawBinaryOp::Sar => R_RawBinaryOp__Sar,
    }
}
pub open spec fn kind_tag(k: ValueKind) -> int {
    match k {
        ValueKind::Integer(_) => C_KOOPA_RVT_INTEGER,
        ValueKind::ZeroInit(_) => C_KOOPA_RVT_ZERO_INIT,
        ValueKind::Undef(_) => C_KOOPA_RVT_UNDEF,
        ValueKind::Aggregate(_) => C_KOOPA_RVT_AGGREGATE,
        ValueKind::FuncArgRef(_) => C_KOOPA_RVT_FUNC_ARG_REF,
        ValueKind::BlockArgRef(_) => C_KOOPA_RVT_BLOCK_ARG_REF,
        ValueKind::Alloc(_) => C_KOOPA_RVT_ALLOC,
        ValueKind::GlobalAlloc(_) => C_KOOPA_RVT_GLOBAL_ALLOC,
        ValueKind::Load(_) => C_KOOPA_RVT_LOAD,
        ValueKind::Store(_) => C_KOOPA_RVT_STORE,
        ValueKind::GetPtr(_) => C_KOOPA_RVT_GET_PTR,
        ValueKind::GetElemPtr(_) => C_KOOPA_RVT_GET_ELEM_PTR,
        ValueKind::Binary(_) => C_KOOPA_RVT_BINARY,
        ValueKind::Branch(_) => C_KOOPA_RVT_BRANCH,
        ValueKind::Jump(_) => C_KOOPA_RVT_JUMP,
        ValueKind::Call(_) => C_KOOPA_RVT_CALL,
        ValueKind::Return(_) => C_KOOPA_RVT_RETURN,
    }
}
pub open spec fn raw_kind_tag(k: RawValueKind) -> int {
    match k {
        RawValueKind::Integer(_) => R_RawValueKind__Integer,
        RawValueKind::ZeroInit => R_RawValueKind__ZeroInit,
        RawValueKind::Undef => R_RawValueKind__Undef,
        RawValueKind::Aggregate(_) => R_RawValueKind__Aggregate,
        RawValueKind::FuncArgRef(_) => R_RawValueKind__FuncArgRef,
        RawValueKind::BlockArgRef(_) => R_RawValueKind__BlockArgRef,
        RawValueKind::Alloc => R_RawValueKind__Alloc,
        RawValueKind::GlobalAlloc(_) => R_RawValueKind__GlobalAlloc,
        RawValueKind::Load(_) => R_RawValueKind__Load,
        RawValueKind::Store(_) => R_RawValueKind__Store,
        RawValueKind::GetPtr(_) => R_RawValueKind__GetPtr,
        RawValueKind::GetElemPtr(_) => R_RawValueKind__GetElemPtr,
        RawValueKind::Binary(_) => R_RawValueKind__Binary,
        RawValueKind::Branch(_) => R_RawValueKind__Branch,
        RawValueKind::Jump(_) => R_RawValueKind__Jump,
        RawValueKind::Call(_) => R_RawValueKind__Call,
        RawValueKind::Return(_) => R_RawValueKind__Return,
    }
}
pub open spec fn type_tag(k: TypeKind) -> int {
    match k {
        TypeKind::Int32 => C_KOOPA_RTT_INT32,
        TypeKind::Unit => C_KOOPA_RTT_UNIT,
        TypeKind::Array(_, _) => C_KOOPA_RTT_ARRAY,
        TypeKind::Pointer(_) => C_KOOPA_RTT_POINTER,
        TypeKind::Function(_, _) => C_KOOPA_RTT_FUNCTION,
    }
}
pub open spec fn raw_type_tag(k: RawTypeKind) -> int {
    match k {
        RawTypeKind::Int32 => R_RawTypeKind__Int32,
        RawTypeKind::Unit => R_RawTypeKind__Unit,
        RawTypeKind::Array(_, _) => R_RawTypeKind__Array,
        RawTypeKind::Pointer(_) => R_RawTypeKind__Pointer,
        RawTypeKind::Function(_, _) => R_RawTypeKind__Function,
    }
}
pub open spec fn raw_item_tag(k: RawSliceItemKind) -> int {
    match k {
        RawSliceItemKind::Unknown => R_RawSliceItemKind__Unknown,
        RawSliceItemKind::Type => R_RawSliceItemKind__Type,
        RawSliceItemKind::Function => R_RawSliceItemKind__Function,
        RawSliceItemKind::BasicBlock => R_RawSliceItemKind__BasicBlock,
        RawSliceItemKind::Value => R_RawSliceItemKind__Value,
    }
}
// ---- the builder writes the tag of the same meaning ----
#[verifier::external_body]
pub struct RawProgramBuilder { x: usize }
#[verifier::external_body]
pub struct ProgramInfo { x: usize }
/// what is built from a part is C13's matter; here only the tags are
pub trait VxRaw { type Raw; fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> Self::Raw; }
#[verifier::external_body]
pub fn iter_into_raw() -> RawSlice { unimplemented!() }
//@ rule __x.build(builder, info) => __x.vx_raw(builder, info)
//@ rule iter_into_raw(__i, builder, info) => iter_into_raw()
impl VxRaw for Value { type Raw = VxPtr; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> VxPtr { unimplemented!() } }
impl VxRaw for Type { type Raw = VxPtr; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> VxPtr { unimplemented!() } }
impl VxRaw for Integer { type Raw = RawInteger; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawInteger { unimplemented!() } }
impl VxRaw for Aggregate { type Raw = RawAggregate; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawAggregate { unimplemented!() } }
impl VxRaw for FuncArgRef { type Raw = RawFuncArgRef; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawFuncArgRef { unimplemented!() } }
impl VxRaw for BlockArgRef { type Raw = RawBlockArgRef; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawBlockArgRef { unimplemented!() } }
impl VxRaw for GlobalAlloc { type Raw = RawGlobalAlloc; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawGlobalAlloc { unimplemented!() } }
impl VxRaw for Load { type Raw = RawLoad; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawLoad { unimplemented!() } }
impl VxRaw for Store { type Raw = RawStore; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawStore { unimplemented!() } }
impl VxRaw for GetPtr { type Raw = RawGetPtr; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawGetPtr { unimplemented!() } }
impl VxRaw for GetElemPtr { type Raw = RawGetElemPtr; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawGetElemPtr { unimplemented!() } }
impl VxRaw for Binary { type Raw = RawBinary; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawBinary { unimplemented!() } }
impl VxRaw for Branch { type Raw = RawBranch; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawBranch { unimplemented!() } }
impl VxRaw for Jump { type Raw = RawJump; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawJump { unimplemented!() } }
impl VxRaw for Call { type Raw = RawCall; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawCall { unimplemented!() } }
impl VxRaw for Return { type Raw = RawReturn; #[verifier::external_body] fn vx_raw(&self, b: &mut RawProgramBuilder, i: &mut ProgramInfo) -> RawReturn { unimplemented!() } }

impl Binary {
//@ fn raw::builder::Binary@BuildRaw::build
    ensures raw_op_tag(r.op) == op_tag(self.op),
//@ sig
pub fn build(&self, builder: &mut RawProgramBuilder, info: &mut ProgramInfo) -> (r: RawBinary)
//@ entry
        proof { enum_RawBinaryOp(); }
//@ end
}
impl ValueKind {
//@ fn raw::builder::ValueKind@BuildRaw::build
    ensures raw_kind_tag(r) == kind_tag(*self),
//@ sig
pub fn build(&self, builder: &mut RawProgramBuilder, info: &mut ProgramInfo) -> (r: RawValueKind)
//@ entry
        proof { enum_RawValueKind(); }
//@ end
}
impl TypeKind {
//@ fn raw::builder::TypeKind@BuildRaw::build
    ensures raw_type_tag(r) == type_tag(*self),
//@ sig
pub fn build(&self, builder: &mut RawProgramBuilder, info: &mut ProgramInfo) -> (r: RawTypeKind)
//@ entry
        proof { enum_RawTypeKind(); }
//@ end
}

pub mod kind_Type {
use super::*;
//@ item raw::builder::Type::KIND
}
fn item_kind_Type()
{
    let k = kind_Type::KIND;
    proof { enum_RawSliceItemKind(); }
    assert(raw_item_tag(k) == C_KOOPA_RSIK_TYPE);
}
pub mod kind_Function {
use super::*;
//@ item raw::builder::Function::KIND
}
fn item_kind_Function()
{
    let k = kind_Function::KIND;
    proof { enum_RawSliceItemKind(); }
    assert(raw_item_tag(k) == C_KOOPA_RSIK_FUNCTION);
}
pub mod kind_BasicBlock {
use super::*;
//@ item raw::builder::BasicBlock::KIND
}
fn item_kind_BasicBlock()
{
    let k = kind_BasicBlock::KIND;
    proof { enum_RawSliceItemKind(); }
    assert(raw_item_tag(k) == C_KOOPA_RSIK_BASIC_BLOCK);
}
pub mod kind_Value {
use super::*;
//@ item raw::builder::Value::KIND
}
fn item_kind_Value()
{
    let k = kind_Value::KIND;
    proof { enum_RawSliceItemKind(); }
    assert(raw_item_tag(k) == C_KOOPA_RSIK_VALUE);
}

impl RawSlice {
//@ fn raw::builder::RawSlice@Default::default as=vx_default
    ensures r.len == 0, raw_item_tag(r.kind) == C_KOOPA_RSIK_UNKNOWN, r.buffer.a == 0,
//@ rule null() => VxPtr { a: 0 }
//@ entry
        proof { enum_RawSliceItemKind(); }
//@ end
}
} // verus!
fn main() {}
