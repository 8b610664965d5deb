/* stand-ins for the predefined handles of Open MPI's mpi.h */
char ompi_mpi_comm_world[64] __attribute__((weak));
char ompi_mpi_comm_self[64] __attribute__((weak));
char ompi_mpi_comm_null[64] __attribute__((weak));
char ompi_mpi_group_empty[64] __attribute__((weak));
char ompi_mpi_group_null[64] __attribute__((weak));
char ompi_request_null[64] __attribute__((weak));
char ompi_message_null[64] __attribute__((weak));
char ompi_message_no_proc[64] __attribute__((weak));
char ompi_mpi_op_null[64] __attribute__((weak));
char ompi_mpi_op_min[64] __attribute__((weak));
char ompi_mpi_op_max[64] __attribute__((weak));
char ompi_mpi_op_sum[64] __attribute__((weak));
char ompi_mpi_op_prod[64] __attribute__((weak));
char ompi_mpi_op_land[64] __attribute__((weak));
char ompi_mpi_op_band[64] __attribute__((weak));
char ompi_mpi_op_lor[64] __attribute__((weak));
char ompi_mpi_op_bor[64] __attribute__((weak));
char ompi_mpi_op_lxor[64] __attribute__((weak));
char ompi_mpi_op_bxor[64] __attribute__((weak));
char ompi_mpi_op_maxloc[64] __attribute__((weak));
char ompi_mpi_op_minloc[64] __attribute__((weak));
char ompi_mpi_op_replace[64] __attribute__((weak));
char ompi_mpi_op_no_op[64] __attribute__((weak));
char ompi_mpi_datatype_null[64] __attribute__((weak));
char ompi_mpi_char[64] __attribute__((weak));
char ompi_mpi_signed_char[64] __attribute__((weak));
char ompi_mpi_unsigned_char[64] __attribute__((weak));
char ompi_mpi_byte[64] __attribute__((weak));
char ompi_mpi_short[64] __attribute__((weak));
char ompi_mpi_unsigned_short[64] __attribute__((weak));
char ompi_mpi_int[64] __attribute__((weak));
char ompi_mpi_unsigned[64] __attribute__((weak));
char ompi_mpi_long[64] __attribute__((weak));
char ompi_mpi_unsigned_long[64] __attribute__((weak));
char ompi_mpi_long_long_int[64] __attribute__((weak));
char ompi_mpi_unsigned_long_long[64] __attribute__((weak));
char ompi_mpi_float[64] __attribute__((weak));
char ompi_mpi_double[64] __attribute__((weak));
char ompi_mpi_long_double[64] __attribute__((weak));
char ompi_mpi_wchar[64] __attribute__((weak));
char ompi_mpi_packed[64] __attribute__((weak));
char ompi_mpi_cxx_bool[64] __attribute__((weak));
char ompi_mpi_cxx_cplex[64] __attribute__((weak));
char ompi_mpi_cxx_dblcplex[64] __attribute__((weak));
char ompi_mpi_cxx_ldblcplex[64] __attribute__((weak));
char ompi_mpi_logical[64] __attribute__((weak));
char ompi_mpi_character[64] __attribute__((weak));
char ompi_mpi_integer[64] __attribute__((weak));
char ompi_mpi_real[64] __attribute__((weak));
char ompi_mpi_dblprec[64] __attribute__((weak));
char ompi_mpi_cplex[64] __attribute__((weak));
char ompi_mpi_dblcplex[64] __attribute__((weak));
char ompi_mpi_ldblcplex[64] __attribute__((weak));
char ompi_mpi_2int[64] __attribute__((weak));
char ompi_mpi_2integer[64] __attribute__((weak));
char ompi_mpi_2real[64] __attribute__((weak));
char ompi_mpi_2dblprec[64] __attribute__((weak));
char ompi_mpi_2cplex[64] __attribute__((weak));
char ompi_mpi_2dblcplex[64] __attribute__((weak));
char ompi_mpi_float_int[64] __attribute__((weak));
char ompi_mpi_double_int[64] __attribute__((weak));
char ompi_mpi_longdbl_int[64] __attribute__((weak));
char ompi_mpi_short_int[64] __attribute__((weak));
char ompi_mpi_long_int[64] __attribute__((weak));
char ompi_mpi_logical1[64] __attribute__((weak));
char ompi_mpi_logical2[64] __attribute__((weak));
char ompi_mpi_logical4[64] __attribute__((weak));
char ompi_mpi_logical8[64] __attribute__((weak));
char ompi_mpi_integer1[64] __attribute__((weak));
char ompi_mpi_integer2[64] __attribute__((weak));
char ompi_mpi_integer4[64] __attribute__((weak));
char ompi_mpi_integer8[64] __attribute__((weak));
char ompi_mpi_integer16[64] __attribute__((weak));
char ompi_mpi_real2[64] __attribute__((weak));
char ompi_mpi_real4[64] __attribute__((weak));
char ompi_mpi_real8[64] __attribute__((weak));
char ompi_mpi_real16[64] __attribute__((weak));
char ompi_mpi_complex8[64] __attribute__((weak));
char ompi_mpi_complex16[64] __attribute__((weak));
char ompi_mpi_complex32[64] __attribute__((weak));
char ompi_mpi_int8_t[64] __attribute__((weak));
char ompi_mpi_uint8_t[64] __attribute__((weak));
char ompi_mpi_int16_t[64] __attribute__((weak));
char ompi_mpi_uint16_t[64] __attribute__((weak));
char ompi_mpi_int32_t[64] __attribute__((weak));
char ompi_mpi_uint32_t[64] __attribute__((weak));
char ompi_mpi_int64_t[64] __attribute__((weak));
char ompi_mpi_uint64_t[64] __attribute__((weak));
char ompi_mpi_aint[64] __attribute__((weak));
char ompi_mpi_offset[64] __attribute__((weak));
char ompi_mpi_count[64] __attribute__((weak));
char ompi_mpi_c_bool[64] __attribute__((weak));
char ompi_mpi_c_float_complex[64] __attribute__((weak));
char ompi_mpi_c_double_complex[64] __attribute__((weak));
char ompi_mpi_c_long_double_complex[64] __attribute__((weak));
char ompi_mpi_errhandler_null[64] __attribute__((weak));
char ompi_mpi_errors_are_fatal[64] __attribute__((weak));
char ompi_mpi_errors_return[64] __attribute__((weak));
char ompi_mpi_win_null[64] __attribute__((weak));
char ompi_mpi_file_null[64] __attribute__((weak));
char ompi_mpi_info_null[64] __attribute__((weak));
char ompi_mpi_info_env[64] __attribute__((weak));
char ompi_mpi_lb[64] __attribute__((weak));
char ompi_mpi_ub[64] __attribute__((weak));
