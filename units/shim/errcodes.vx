// ---- the error codes of the library and of the shipped header agree ----
verus! {
proof fn enum_ErrorCode()
    ensures
        R_ErrorCode__Success == C_KOOPA_EC_SUCCESS,
        R_ErrorCode__InvalidUtf8String == C_KOOPA_EC_INVALID_UTF8_STRING,
        R_ErrorCode__InvalidFile == C_KOOPA_EC_INVALID_FILE,
        R_ErrorCode__InvalidKoopaProgram == C_KOOPA_EC_INVALID_KOOPA_PROGRAM,
        R_ErrorCode__IoError == C_KOOPA_EC_IO_ERROR,
        R_ErrorCode__NullByteError == C_KOOPA_EC_NULL_BYTE_ERROR,
        R_ErrorCode__InsufficientBufferLength == C_KOOPA_EC_INSUFFICIENT_BUFFER_LENGTH,
        R_ErrorCode__RawSliceItemKindMismatch == C_KOOPA_EC_RAW_SLICE_ITEM_KIND_MISMATCH,
        R_ErrorCode__NullPointerError == C_KOOPA_EC_NULL_POINTER_ERROR,
        R_ErrorCode__TypeMismatch == C_KOOPA_EC_TYPE_MISMATCH,
        R_ErrorCode__FuncParamNumMismatch == C_KOOPA_EC_FUNC_PARAM_NUM_MISMATCH,
{
    assert(R_ErrorCode__Success == C_KOOPA_EC_SUCCESS) by (compute_only);
    assert(R_ErrorCode__InvalidUtf8String == C_KOOPA_EC_INVALID_UTF8_STRING) by (compute_only);
    assert(R_ErrorCode__InvalidFile == C_KOOPA_EC_INVALID_FILE) by (compute_only);
    assert(R_ErrorCode__InvalidKoopaProgram == C_KOOPA_EC_INVALID_KOOPA_PROGRAM) by (compute_only);
    assert(R_ErrorCode__IoError == C_KOOPA_EC_IO_ERROR) by (compute_only);
    assert(R_ErrorCode__NullByteError == C_KOOPA_EC_NULL_BYTE_ERROR) by (compute_only);
    assert(R_ErrorCode__InsufficientBufferLength == C_KOOPA_EC_INSUFFICIENT_BUFFER_LENGTH) by (compute_only);
    assert(R_ErrorCode__RawSliceItemKindMismatch == C_KOOPA_EC_RAW_SLICE_ITEM_KIND_MISMATCH) by (compute_only);
    assert(R_ErrorCode__NullPointerError == C_KOOPA_EC_NULL_POINTER_ERROR) by (compute_only);
    assert(R_ErrorCode__TypeMismatch == C_KOOPA_EC_TYPE_MISMATCH) by (compute_only);
    assert(R_ErrorCode__FuncParamNumMismatch == C_KOOPA_EC_FUNC_PARAM_NUM_MISMATCH) by (compute_only);
}
}
