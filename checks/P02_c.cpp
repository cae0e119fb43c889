// P02: matrix storage.
#include "boxes.h"
#include "P02_common.h"

INST("assign_fixed_2x2_rbrm_float_from_float", 5000, (assign_all<matrix<float, fixed<2, 2>, row_basis, row_major>, float, 2, 2>));
INST("assign_fixed_2x2_rbcm_int_from_int", 5000, (assign_all<matrix<int, fixed<2, 2>, row_basis, col_major>, int, 2, 2>));
INST("assign_fixed_2x2_cbrm_double_from_double", 5000, (assign_all<matrix<double, fixed<2, 2>, col_basis, row_major>, double, 2, 2>));
INST("assign_fixed_2x2_cbcm_float_from_double", 5000, (assign_all<matrix<float, fixed<2, 2>, col_basis, col_major>, double, 2, 2>));
INST("assign_dynamic_2x2_rbrm_int_from_double", 5000, (assign_all<matrix<int, dynamic<>, row_basis, row_major>, double, 2, 2>));
INST("assign_dynamic_2x2_rbcm_double_from_int", 5000, (assign_all<matrix<double, dynamic<>, row_basis, col_major>, int, 2, 2>));
INST("assign_dynamic_2x2_cbrm_float_from_float", 5000, (assign_all<matrix<float, dynamic<>, col_basis, row_major>, float, 2, 2>));
INST("assign_dynamic_2x2_cbcm_int_from_int", 5000, (assign_all<matrix<int, dynamic<>, col_basis, col_major>, int, 2, 2>));
INST("assign_fixed_3x2_rbrm_int_from_double", 5000, (assign_all<matrix<int, fixed<3, 2>, row_basis, row_major>, double, 3, 2>));
INST("assign_fixed_3x2_rbcm_double_from_int", 5000, (assign_all<matrix<double, fixed<3, 2>, row_basis, col_major>, int, 3, 2>));
INST("assign_fixed_3x2_cbrm_float_from_float", 5000, (assign_all<matrix<float, fixed<3, 2>, col_basis, row_major>, float, 3, 2>));
INST("assign_fixed_3x2_cbcm_int_from_int", 5000, (assign_all<matrix<int, fixed<3, 2>, col_basis, col_major>, int, 3, 2>));
INST("assign_dynamic_3x2_rbrm_double_from_double", 5000, (assign_all<matrix<double, dynamic<>, row_basis, row_major>, double, 3, 2>));
INST("assign_dynamic_3x2_rbcm_float_from_double", 5000, (assign_all<matrix<float, dynamic<>, row_basis, col_major>, double, 3, 2>));
INST("assign_dynamic_3x2_cbrm_int_from_double", 5000, (assign_all<matrix<int, dynamic<>, col_basis, row_major>, double, 3, 2>));
INST("assign_dynamic_3x2_cbcm_double_from_int", 5000, (assign_all<matrix<double, dynamic<>, col_basis, col_major>, int, 3, 2>));
INST("assign_fixed_2x3_rbrm_double_from_double", 5000, (assign_all<matrix<double, fixed<2, 3>, row_basis, row_major>, double, 2, 3>));
INST("assign_fixed_2x3_rbcm_float_from_double", 5000, (assign_all<matrix<float, fixed<2, 3>, row_basis, col_major>, double, 2, 3>));
INST("assign_fixed_2x3_cbrm_int_from_double", 5000, (assign_all<matrix<int, fixed<2, 3>, col_basis, row_major>, double, 2, 3>));
INST("assign_fixed_2x3_cbcm_double_from_int", 5000, (assign_all<matrix<double, fixed<2, 3>, col_basis, col_major>, int, 2, 3>));
INST("assign_dynamic_2x3_rbrm_float_from_float", 5000, (assign_all<matrix<float, dynamic<>, row_basis, row_major>, float, 2, 3>));
INST("assign_dynamic_2x3_rbcm_int_from_int", 5000, (assign_all<matrix<int, dynamic<>, row_basis, col_major>, int, 2, 3>));
INST("assign_dynamic_2x3_cbrm_double_from_double", 5000, (assign_all<matrix<double, dynamic<>, col_basis, row_major>, double, 2, 3>));
INST("assign_dynamic_2x3_cbcm_float_from_double", 5000, (assign_all<matrix<float, dynamic<>, col_basis, col_major>, double, 2, 3>));
INST("assign_fixed_4x4_rbrm_float_from_float", 5000, (assign_all<matrix<float, fixed<4, 4>, row_basis, row_major>, float, 4, 4>));
INST("assign_fixed_4x4_cbcm_float_from_double", 5000, (assign_all<matrix<float, fixed<4, 4>, col_basis, col_major>, double, 4, 4>));
INST("assign_dynamic_4x4_rbrm_int_from_double", 5000, (assign_all<matrix<int, dynamic<>, row_basis, row_major>, double, 4, 4>));
INST("assign_dynamic_4x4_cbcm_int_from_int", 5000, (assign_all<matrix<int, dynamic<>, col_basis, col_major>, int, 4, 4>));
