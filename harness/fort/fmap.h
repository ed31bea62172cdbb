/* The calls of the workload go through the Fortran interface (fshim.c, fwrap.F90). */
#define bml_zero_matrix fbml_zero_matrix
#define bml_noinit_matrix fbml_noinit_matrix
#define bml_getNRanks fw_get_nranks
#define bml_getMyRank fw_get_my_rank
int fw_get_nranks(void); int fw_get_my_rank(void);
#define bml_allGatherVParallel fw_allgather
#define bml_block_matrix fbml_block_matrix
#define bml_banded_matrix fbml_banded_matrix
#define bml_random_matrix fbml_random_matrix
#define bml_identity_matrix fbml_identity_matrix
#define bml_import_from_dense fbml_import_from_dense
#define bml_export_to_dense fbml_export_to_dense
#define bml_get_row fbml_get_row
#define bml_get_diagonal fbml_get_diagonal
#define bml_get_element fbml_get_element
#define bml_set_element fbml_set_element
#define bml_set_element_new fbml_set_element_new
#define bml_set_row fbml_set_row
#define bml_set_diagonal fbml_set_diagonal
#define bml_scale fbml_scale
#define bml_scale_inplace fbml_scale_inplace
#define bml_deallocate fbml_deallocate
#define bml_clear fbml_clear
#define bml_allocated fbml_allocated
#define bml_update_domain fbml_update_domain
#define bml_copy_new fbml_copy_new
#define bml_copy fbml_copy
#define bml_reorder fbml_reorder
#define bml_save_domain fbml_save_domain
#define bml_restore_domain fbml_restore_domain
#define bml_diagonalize fbml_diagonalize
#define bml_add fbml_add
#define bml_add_norm fbml_add_norm
#define bml_add_identity fbml_add_identity
#define bml_scale_add_identity fbml_scale_add_identity
#define bml_multiply fbml_multiply
#define bml_element_multiply_AB fbml_element_multiply_AB
#define bml_multiply_x2 fbml_multiply_x2
#define bml_inverse fbml_inverse
#define bml_transpose_new fbml_transpose_new
#define bml_transpose_triangle fbml_transpose_triangle
#define bml_adjungate_triangle fbml_adjungate_triangle
#define bml_threshold fbml_threshold
#define bml_sum_squares fbml_sum_squares
#define bml_fnorm fbml_fnorm
#define bml_trace fbml_trace
#define bml_sum_squares_submatrix fbml_sum_squares_submatrix
#define bml_sum_AB fbml_sum_AB
#define bml_sum_squares2 fbml_sum_squares2
#define bml_fnorm2 fbml_fnorm2
#define bml_trace_mult fbml_trace_mult
#define bml_normalize fbml_normalize
#define bml_gershgorin fbml_gershgorin
#define bml_gershgorin_partial fbml_gershgorin_partial
#define bml_get_N fbml_get_N
#define bml_get_M fbml_get_M
#define bml_get_row_bandwidth fbml_get_row_bandwidth
#define bml_get_bandwidth fbml_get_bandwidth
#define bml_get_sparsity fbml_get_sparsity
#define bml_get_type fbml_get_type
#define bml_get_deep_type fbml_get_deep_type
#define bml_get_precision fbml_get_precision
#define bml_get_distribution_mode fbml_get_distribution_mode
#define bml_matrix2submatrix_index fbml_matrix2submatrix_index
#define bml_matrix2submatrix_index_graph fbml_matrix2submatrix_index_graph
#define bml_matrix2submatrix fbml_matrix2submatrix
#define bml_submatrix2matrix fbml_submatrix2matrix
#define bml_adjacency fbml_adjacency
#define bml_adjacency_group fbml_adjacency_group
#define bml_group_matrix fbml_group_matrix
#define bml_write_bml_matrix fbml_write_bml_matrix
#define bml_read_bml_matrix fbml_read_bml_matrix
