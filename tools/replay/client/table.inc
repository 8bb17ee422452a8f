KOOPA_EC_SUCCESS, KOOPA_EC_INVALID_UTF8_STRING, KOOPA_EC_INVALID_FILE, KOOPA_EC_INVALID_KOOPA_PROGRAM,
KOOPA_EC_IO_ERROR, KOOPA_EC_NULL_BYTE_ERROR, KOOPA_EC_INSUFFICIENT_BUFFER_LENGTH,
KOOPA_EC_RAW_SLICE_ITEM_KIND_MISMATCH, KOOPA_EC_NULL_POINTER_ERROR, KOOPA_EC_TYPE_MISMATCH, KOOPA_EC_FUNC_PARAM_NUM_MISMATCH,
KOOPA_RSIK_UNKNOWN, KOOPA_RSIK_TYPE, KOOPA_RSIK_FUNCTION, KOOPA_RSIK_BASIC_BLOCK, KOOPA_RSIK_VALUE,
KOOPA_RBO_NOT_EQ, KOOPA_RBO_EQ, KOOPA_RBO_GT, KOOPA_RBO_LT, KOOPA_RBO_GE, KOOPA_RBO_LE, KOOPA_RBO_ADD, KOOPA_RBO_SUB,
KOOPA_RBO_MUL, KOOPA_RBO_DIV, KOOPA_RBO_MOD, KOOPA_RBO_AND, KOOPA_RBO_OR, KOOPA_RBO_XOR, KOOPA_RBO_SHL, KOOPA_RBO_SHR, KOOPA_RBO_SAR,
sizeof(koopa_raw_slice_t), OFF(koopa_raw_slice_t, buffer), OFF(koopa_raw_slice_t, len), OFF(koopa_raw_slice_t, kind),
sizeof(koopa_raw_type_kind_t),
sizeof(koopa_raw_program_t), OFF(koopa_raw_program_t, values), OFF(koopa_raw_program_t, funcs),
sizeof(koopa_raw_function_data_t), OFF(koopa_raw_function_data_t, ty), OFF(koopa_raw_function_data_t, name), OFF(koopa_raw_function_data_t, params), OFF(koopa_raw_function_data_t, bbs),
sizeof(koopa_raw_basic_block_data_t), OFF(koopa_raw_basic_block_data_t, name), OFF(koopa_raw_basic_block_data_t, params), OFF(koopa_raw_basic_block_data_t, used_by), OFF(koopa_raw_basic_block_data_t, insts),
sizeof(koopa_raw_value_data_t), OFF(koopa_raw_value_data_t, ty), OFF(koopa_raw_value_data_t, name), OFF(koopa_raw_value_data_t, used_by), OFF(koopa_raw_value_data_t, kind),
sizeof(koopa_raw_value_kind_t),
sizeof(koopa_raw_integer_t), OFF(koopa_raw_integer_t, value),
sizeof(koopa_raw_aggregate_t), OFF(koopa_raw_aggregate_t, elems),
sizeof(koopa_raw_func_arg_ref_t), OFF(koopa_raw_func_arg_ref_t, index),
sizeof(koopa_raw_block_arg_ref_t), OFF(koopa_raw_block_arg_ref_t, index),
sizeof(koopa_raw_global_alloc_t), OFF(koopa_raw_global_alloc_t, init),
sizeof(koopa_raw_load_t), OFF(koopa_raw_load_t, src),
sizeof(koopa_raw_store_t), OFF(koopa_raw_store_t, value), OFF(koopa_raw_store_t, dest),
sizeof(koopa_raw_get_ptr_t), OFF(koopa_raw_get_ptr_t, src), OFF(koopa_raw_get_ptr_t, index),
sizeof(koopa_raw_get_elem_ptr_t), OFF(koopa_raw_get_elem_ptr_t, src), OFF(koopa_raw_get_elem_ptr_t, index),
sizeof(koopa_raw_binary_t), OFF(koopa_raw_binary_t, op), OFF(koopa_raw_binary_t, lhs), OFF(koopa_raw_binary_t, rhs),
sizeof(koopa_raw_branch_t), OFF(koopa_raw_branch_t, cond), OFF(koopa_raw_branch_t, true_bb), OFF(koopa_raw_branch_t, false_bb), OFF(koopa_raw_branch_t, true_args), OFF(koopa_raw_branch_t, false_args),
sizeof(koopa_raw_jump_t), OFF(koopa_raw_jump_t, target), OFF(koopa_raw_jump_t, args),
sizeof(koopa_raw_call_t), OFF(koopa_raw_call_t, callee), OFF(koopa_raw_call_t, args),
sizeof(koopa_raw_return_t), OFF(koopa_raw_return_t, value),
