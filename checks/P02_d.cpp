// P02: matrix storage.
#include "boxes.h"
#include "P02_common.h"

INST("writes_fixed_2x2_rbrm_int", 5000, (write_ops<matrix<int, fixed<2, 2>, row_basis, row_major>>));
INST("writes_fixed_2x2_rbcm_double", 5000, (write_ops<matrix<double, fixed<2, 2>, row_basis, col_major>>));
INST("writes_fixed_2x2_cbrm_float", 5000, (write_ops<matrix<float, fixed<2, 2>, col_basis, row_major>>));
INST("writes_fixed_2x2_cbcm_int", 5000, (write_ops<matrix<int, fixed<2, 2>, col_basis, col_major>>));
INST("writes_fixed_3x2_rbrm_double", 5000, (write_ops<matrix<double, fixed<3, 2>, row_basis, row_major>>));
INST("writes_fixed_3x2_rbcm_float", 5000, (write_ops<matrix<float, fixed<3, 2>, row_basis, col_major>>));
INST("writes_fixed_3x2_cbrm_int", 5000, (write_ops<matrix<int, fixed<3, 2>, col_basis, row_major>>));
INST("writes_fixed_3x2_cbcm_double", 5000, (write_ops<matrix<double, fixed<3, 2>, col_basis, col_major>>));
INST("writes_fixed_2x4_rbrm_float", 5000, (write_ops<matrix<float, fixed<2, 4>, row_basis, row_major>>));
INST("writes_fixed_2x4_rbcm_int", 5000, (write_ops<matrix<int, fixed<2, 4>, row_basis, col_major>>));
INST("writes_fixed_2x4_cbrm_double", 5000, (write_ops<matrix<double, fixed<2, 4>, col_basis, row_major>>));
INST("writes_fixed_2x4_cbcm_float", 5000, (write_ops<matrix<float, fixed<2, 4>, col_basis, col_major>>));
INST("writes_fixed_4x4_rbrm_int", 5000, (write_ops<matrix<int, fixed<4, 4>, row_basis, row_major>>));
INST("writes_fixed_4x4_rbcm_double", 5000, (write_ops<matrix<double, fixed<4, 4>, row_basis, col_major>>));
INST("writes_fixed_4x4_cbrm_float", 5000, (write_ops<matrix<float, fixed<4, 4>, col_basis, row_major>>));
INST("writes_fixed_4x4_cbcm_int", 5000, (write_ops<matrix<int, fixed<4, 4>, col_basis, col_major>>));
INST("writes_dynamic_0x0_rbrm_double", 5000, (write_ops<matrix<double, dynamic<>, row_basis, row_major>>));
INST("writes_dynamic_0x0_rbcm_float", 5000, (write_ops<matrix<float, dynamic<>, row_basis, col_major>>));
INST("writes_dynamic_0x0_cbrm_int", 5000, (write_ops<matrix<int, dynamic<>, col_basis, row_major>>));
INST("writes_dynamic_0x0_cbcm_double", 5000, (write_ops<matrix<double, dynamic<>, col_basis, col_major>>));
INST("writes_external_2x2_rbrm_float", 5000, (write_ops<matrix<float, external<2, 2>, row_basis, row_major>>));
INST("writes_external_2x2_rbcm_int", 5000, (write_ops<matrix<int, external<2, 2>, row_basis, col_major>>));
INST("writes_external_2x2_cbrm_double", 5000, (write_ops<matrix<double, external<2, 2>, col_basis, row_major>>));
INST("writes_external_2x2_cbcm_float", 5000, (write_ops<matrix<float, external<2, 2>, col_basis, col_major>>));
INST("writes_external_3x2_rbrm_int", 5000, (write_ops<matrix<int, external<3, 2>, row_basis, row_major>>));
INST("writes_external_3x2_rbcm_double", 5000, (write_ops<matrix<double, external<3, 2>, row_basis, col_major>>));
INST("writes_external_3x2_cbrm_float", 5000, (write_ops<matrix<float, external<3, 2>, col_basis, row_major>>));
INST("writes_external_3x2_cbcm_int", 5000, (write_ops<matrix<int, external<3, 2>, col_basis, col_major>>));
INST("writes_external_2x4_rbrm_double", 5000, (write_ops<matrix<double, external<2, 4>, row_basis, row_major>>));
INST("writes_external_2x4_rbcm_float", 5000, (write_ops<matrix<float, external<2, 4>, row_basis, col_major>>));
INST("writes_external_2x4_cbrm_int", 5000, (write_ops<matrix<int, external<2, 4>, col_basis, row_major>>));
INST("writes_external_2x4_cbcm_double", 5000, (write_ops<matrix<double, external<2, 4>, col_basis, col_major>>));
INST("writes_external_4x4_rbrm_float", 5000, (write_ops<matrix<float, external<4, 4>, row_basis, row_major>>));
INST("writes_external_4x4_rbcm_int", 5000, (write_ops<matrix<int, external<4, 4>, row_basis, col_major>>));
INST("writes_external_4x4_cbrm_double", 5000, (write_ops<matrix<double, external<4, 4>, col_basis, row_major>>));
INST("writes_external_4x4_cbcm_float", 5000, (write_ops<matrix<float, external<4, 4>, col_basis, col_major>>));
INST("writes_externaln_0x0_rbrm_int", 5000, (write_ops<matrix<int, external<>, row_basis, row_major>>));
INST("writes_externaln_0x0_rbcm_double", 5000, (write_ops<matrix<double, external<>, row_basis, col_major>>));
INST("writes_externaln_0x0_cbrm_float", 5000, (write_ops<matrix<float, external<>, col_basis, row_major>>));
INST("writes_externaln_0x0_cbcm_int", 5000, (write_ops<matrix<int, external<>, col_basis, col_major>>));
INST("from_fixed_rbrm_double__fixed_cbrm_int_3x2", 4000, (cross<matrix<double, fixed<3, 2>, row_basis, row_major>, matrix<int, fixed<3, 2>, col_basis, row_major>>));
INST("from_fixed_rbcm_float__fixed_cbcm_double_4x4", 4000, (cross<matrix<float, fixed<4, 4>, row_basis, col_major>, matrix<double, fixed<4, 4>, col_basis, col_major>>));
INST("from_fixed_cbrm_int__dynamic_rbrm_float_3x2", 4000, (cross<matrix<int, fixed<3, 2>, col_basis, row_major>, matrix<float, dynamic<>, row_basis, row_major>>));
INST("from_fixed_cbcm_double__dynamic_rbcm_double_4x4", 4000, (cross<matrix<double, fixed<4, 4>, col_basis, col_major>, matrix<double, dynamic<>, row_basis, col_major>>));
INST("from_fixed_rbrm_float__external_cbcm_float_3x2", 4000, (cross<matrix<float, fixed<3, 2>, row_basis, row_major>, matrix<float, external<3, 2>, col_basis, col_major>>));
INST("from_fixed_rbcm_int__external_rbrm_int_4x4", 4000, (cross<matrix<int, fixed<4, 4>, row_basis, col_major>, matrix<int, external<4, 4>, row_basis, row_major>>));
INST("from_fixed_cbrm_double__externaln_rbcm_float_3x2", 4000, (cross<matrix<double, fixed<3, 2>, col_basis, row_major>, matrix<float, external<>, row_basis, col_major>>));
INST("from_fixed_cbcm_float__externaln_cbrm_int_4x4", 4000, (cross<matrix<float, fixed<4, 4>, col_basis, col_major>, matrix<int, external<>, col_basis, row_major>>));
INST("from_dynamic_rbrm_int__fixed_rbrm_double_3x2", 4000, (cross<matrix<int, dynamic<>, row_basis, row_major>, matrix<double, fixed<3, 2>, row_basis, row_major>>));
INST("from_dynamic_rbcm_double__fixed_rbcm_int_4x4", 4000, (cross<matrix<double, dynamic<>, row_basis, col_major>, matrix<int, fixed<4, 4>, row_basis, col_major>>));
INST("from_dynamic_cbrm_float__dynamic_cbrm_double_3x2", 4000, (cross<matrix<float, dynamic<>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("from_dynamic_cbcm_int__dynamic_cbcm_float_4x4", 4000, (cross<matrix<int, dynamic<>, col_basis, col_major>, matrix<float, dynamic<>, col_basis, col_major>>));
INST("from_dynamic_rbrm_double__external_rbcm_double_3x2", 4000, (cross<matrix<double, dynamic<>, row_basis, row_major>, matrix<double, external<3, 2>, row_basis, col_major>>));
INST("from_dynamic_rbcm_float__external_cbrm_float_4x4", 4000, (cross<matrix<float, dynamic<>, row_basis, col_major>, matrix<float, external<4, 4>, col_basis, row_major>>));
INST("from_dynamic_cbrm_int__externaln_cbcm_int_3x2", 4000, (cross<matrix<int, dynamic<>, col_basis, row_major>, matrix<int, external<>, col_basis, col_major>>));
INST("from_dynamic_cbcm_double__externaln_rbrm_float_4x4", 4000, (cross<matrix<double, dynamic<>, col_basis, col_major>, matrix<float, external<>, row_basis, row_major>>));
INST("from_external_rbrm_float__fixed_cbrm_int_3x2", 4000, (cross<matrix<float, external<3, 2>, row_basis, row_major>, matrix<int, fixed<3, 2>, col_basis, row_major>>));
INST("from_external_rbcm_int__fixed_cbcm_double_4x4", 4000, (cross<matrix<int, external<4, 4>, row_basis, col_major>, matrix<double, fixed<4, 4>, col_basis, col_major>>));
INST("from_external_cbrm_double__dynamic_rbrm_int_3x2", 4000, (cross<matrix<double, external<3, 2>, col_basis, row_major>, matrix<int, dynamic<>, row_basis, row_major>>));
INST("from_external_cbcm_float__dynamic_rbcm_double_4x4", 4000, (cross<matrix<float, external<4, 4>, col_basis, col_major>, matrix<double, dynamic<>, row_basis, col_major>>));
INST("from_external_rbrm_int__external_cbcm_float_3x2", 4000, (cross<matrix<int, external<3, 2>, row_basis, row_major>, matrix<float, external<3, 2>, col_basis, col_major>>));
INST("from_external_rbcm_double__external_rbrm_double_4x4", 4000, (cross<matrix<double, external<4, 4>, row_basis, col_major>, matrix<double, external<4, 4>, row_basis, row_major>>));
INST("from_external_cbrm_float__externaln_rbcm_float_3x2", 4000, (cross<matrix<float, external<3, 2>, col_basis, row_major>, matrix<float, external<>, row_basis, col_major>>));
INST("from_external_cbcm_int__externaln_cbrm_int_4x4", 4000, (cross<matrix<int, external<4, 4>, col_basis, col_major>, matrix<int, external<>, col_basis, row_major>>));
INST("from_externaln_rbrm_double__fixed_rbrm_float_3x2", 4000, (cross<matrix<double, external<>, row_basis, row_major>, matrix<float, fixed<3, 2>, row_basis, row_major>>));
INST("from_externaln_rbcm_float__fixed_rbcm_int_4x4", 4000, (cross<matrix<float, external<>, row_basis, col_major>, matrix<int, fixed<4, 4>, row_basis, col_major>>));
INST("from_externaln_cbrm_int__dynamic_cbrm_double_3x2", 4000, (cross<matrix<int, external<>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("from_externaln_cbcm_double__dynamic_cbcm_int_4x4", 4000, (cross<matrix<double, external<>, col_basis, col_major>, matrix<int, dynamic<>, col_basis, col_major>>));
INST("from_externaln_rbrm_float__external_rbcm_double_3x2", 4000, (cross<matrix<float, external<>, row_basis, row_major>, matrix<double, external<3, 2>, row_basis, col_major>>));
INST("from_externaln_rbcm_int__external_cbrm_float_4x4", 4000, (cross<matrix<int, external<>, row_basis, col_major>, matrix<float, external<4, 4>, col_basis, row_major>>));
INST("from_externaln_cbrm_double__externaln_cbcm_double_3x2", 4000, (cross<matrix<double, external<>, col_basis, row_major>, matrix<double, external<>, col_basis, col_major>>));
INST("from_externaln_cbcm_float__externaln_rbrm_float_4x4", 4000, (cross<matrix<float, external<>, col_basis, col_major>, matrix<float, external<>, row_basis, row_major>>));
