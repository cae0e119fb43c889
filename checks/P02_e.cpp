#include "boxes.h"
#include "P02_common.h"
// P02: larger shapes
INST("ctor_fixed5x2_rbrm_double_from_double", 3000, (ctor_fixed<double, double, 5, 2, row_basis, row_major>));
INST("ctor_dyn5x2_rbrm_double_from_int", 3000, (ctor_dyn<double, int, 5, 2, row_basis, row_major>));
INST("ctor_fixed5x2_rbcm_float_from_double", 3000, (ctor_fixed<float, double, 5, 2, row_basis, col_major>));
INST("ctor_fixed5x2_cbrm_int_from_double", 3000, (ctor_fixed<int, double, 5, 2, col_basis, row_major>));
INST("ctor_fixed5x2_cbcm_double_from_int", 3000, (ctor_fixed<double, int, 5, 2, col_basis, col_major>));
INST("ctor_dyn5x2_cbcm_double_from_double", 3000, (ctor_dyn<double, double, 5, 2, col_basis, col_major>));
INST("ctor_fixed2x6_rbrm_int_from_int", 3000, (ctor_fixed<int, int, 2, 6, row_basis, row_major>));
INST("ctor_dyn2x6_rbrm_int_from_double", 3000, (ctor_dyn<int, double, 2, 6, row_basis, row_major>));
INST("ctor_fixed2x6_rbcm_double_from_double", 3000, (ctor_fixed<double, double, 2, 6, row_basis, col_major>));
INST("ctor_fixed2x6_cbrm_float_from_double", 3000, (ctor_fixed<float, double, 2, 6, col_basis, row_major>));
INST("ctor_fixed2x6_cbcm_int_from_double", 3000, (ctor_fixed<int, double, 2, 6, col_basis, col_major>));
INST("ctor_dyn2x6_cbcm_int_from_int", 3000, (ctor_dyn<int, int, 2, 6, col_basis, col_major>));
INST("ctor_fixed6x3_rbrm_float_from_float", 3000, (ctor_fixed<float, float, 6, 3, row_basis, row_major>));
INST("ctor_dyn6x3_rbrm_float_from_double", 3000, (ctor_dyn<float, double, 6, 3, row_basis, row_major>));
INST("ctor_fixed6x3_rbcm_int_from_int", 3000, (ctor_fixed<int, int, 6, 3, row_basis, col_major>));
INST("ctor_fixed6x3_cbrm_double_from_double", 3000, (ctor_fixed<double, double, 6, 3, col_basis, row_major>));
INST("ctor_fixed6x3_cbcm_float_from_double", 3000, (ctor_fixed<float, double, 6, 3, col_basis, col_major>));
INST("ctor_dyn6x3_cbcm_float_from_float", 3000, (ctor_dyn<float, float, 6, 3, col_basis, col_major>));
INST("ctor_fixed5x5_rbrm_double_from_int", 3000, (ctor_fixed<double, int, 5, 5, row_basis, row_major>));
INST("ctor_dyn5x5_rbrm_double_from_double", 3000, (ctor_dyn<double, double, 5, 5, row_basis, row_major>));
INST("ctor_fixed5x5_rbcm_float_from_float", 3000, (ctor_fixed<float, float, 5, 5, row_basis, col_major>));
INST("ctor_fixed5x5_cbrm_int_from_int", 3000, (ctor_fixed<int, int, 5, 5, col_basis, row_major>));
INST("ctor_fixed5x5_cbcm_double_from_double", 3000, (ctor_fixed<double, double, 5, 5, col_basis, col_major>));
INST("ctor_dyn5x5_cbcm_double_from_int", 3000, (ctor_dyn<double, int, 5, 5, col_basis, col_major>));
INST("ctor_fixed9x1_rbrm_int_from_double", 3000, (ctor_fixed<int, double, 9, 1, row_basis, row_major>));
INST("ctor_dyn9x1_rbrm_int_from_int", 3000, (ctor_dyn<int, int, 9, 1, row_basis, row_major>));
INST("ctor_fixed9x1_rbcm_double_from_int", 3000, (ctor_fixed<double, int, 9, 1, row_basis, col_major>));
INST("ctor_fixed9x1_cbrm_float_from_float", 3000, (ctor_fixed<float, float, 9, 1, col_basis, row_major>));
INST("ctor_fixed9x1_cbcm_int_from_int", 3000, (ctor_fixed<int, int, 9, 1, col_basis, col_major>));
INST("ctor_dyn9x1_cbcm_int_from_double", 3000, (ctor_dyn<int, double, 9, 1, col_basis, col_major>));
INST("ctor_fixed1x7_rbrm_float_from_double", 3000, (ctor_fixed<float, double, 1, 7, row_basis, row_major>));
INST("ctor_dyn1x7_rbrm_float_from_float", 3000, (ctor_dyn<float, float, 1, 7, row_basis, row_major>));
INST("ctor_fixed1x7_rbcm_int_from_double", 3000, (ctor_fixed<int, double, 1, 7, row_basis, col_major>));
INST("ctor_fixed1x7_cbrm_double_from_int", 3000, (ctor_fixed<double, int, 1, 7, col_basis, row_major>));
INST("ctor_fixed1x7_cbcm_float_from_float", 3000, (ctor_fixed<float, float, 1, 7, col_basis, col_major>));
INST("ctor_dyn1x7_cbcm_float_from_double", 3000, (ctor_dyn<float, double, 1, 7, col_basis, col_major>));
INST("ctor_fixed4x8_rbrm_double_from_double", 3000, (ctor_fixed<double, double, 4, 8, row_basis, row_major>));
INST("ctor_dyn4x8_rbrm_double_from_int", 3000, (ctor_dyn<double, int, 4, 8, row_basis, row_major>));
INST("ctor_fixed4x8_rbcm_float_from_double", 3000, (ctor_fixed<float, double, 4, 8, row_basis, col_major>));
INST("ctor_fixed4x8_cbrm_int_from_double", 3000, (ctor_fixed<int, double, 4, 8, col_basis, row_major>));
INST("ctor_fixed4x8_cbcm_double_from_int", 3000, (ctor_fixed<double, int, 4, 8, col_basis, col_major>));
INST("ctor_dyn4x8_cbcm_double_from_double", 3000, (ctor_dyn<double, double, 4, 8, col_basis, col_major>));
INST("ctor_fixed7x6_rbrm_int_from_int", 3000, (ctor_fixed<int, int, 7, 6, row_basis, row_major>));
INST("ctor_dyn7x6_rbrm_int_from_double", 3000, (ctor_dyn<int, double, 7, 6, row_basis, row_major>));
INST("ctor_fixed7x6_rbcm_double_from_double", 3000, (ctor_fixed<double, double, 7, 6, row_basis, col_major>));
INST("ctor_fixed7x6_cbrm_float_from_double", 3000, (ctor_fixed<float, double, 7, 6, col_basis, row_major>));
INST("ctor_fixed7x6_cbcm_int_from_double", 3000, (ctor_fixed<int, double, 7, 6, col_basis, col_major>));
INST("ctor_dyn7x6_cbcm_int_from_int", 3000, (ctor_dyn<int, int, 7, 6, col_basis, col_major>));
INST("assign_fixed_5x2_rbrm_float_from_float", 2500, (assign_all<matrix<float, fixed<5, 2>, row_basis, row_major>, float, 5, 2>));
INST("assign_external_5x2_rbrm_double_from_double", 2500, (assign_all<matrix<double, external<5, 2>, row_basis, row_major>, double, 5, 2>));
INST("assign_fixed_5x2_rbcm_int_from_double", 2500, (assign_all<matrix<int, fixed<5, 2>, row_basis, col_major>, double, 5, 2>));
INST("assign_external_5x2_rbcm_float_from_float", 2500, (assign_all<matrix<float, external<5, 2>, row_basis, col_major>, float, 5, 2>));
INST("assign_fixed_5x2_cbrm_double_from_double", 2500, (assign_all<matrix<double, fixed<5, 2>, col_basis, row_major>, double, 5, 2>));
INST("assign_external_5x2_cbrm_int_from_double", 2500, (assign_all<matrix<int, external<5, 2>, col_basis, row_major>, double, 5, 2>));
INST("assign_fixed_5x2_cbcm_float_from_float", 2500, (assign_all<matrix<float, fixed<5, 2>, col_basis, col_major>, float, 5, 2>));
INST("assign_external_5x2_cbcm_double_from_double", 2500, (assign_all<matrix<double, external<5, 2>, col_basis, col_major>, double, 5, 2>));
INST("assign_fixed_2x6_rbrm_int_from_double", 2500, (assign_all<matrix<int, fixed<2, 6>, row_basis, row_major>, double, 2, 6>));
INST("assign_external_2x6_rbrm_float_from_float", 2500, (assign_all<matrix<float, external<2, 6>, row_basis, row_major>, float, 2, 6>));
INST("assign_fixed_2x6_rbcm_double_from_double", 2500, (assign_all<matrix<double, fixed<2, 6>, row_basis, col_major>, double, 2, 6>));
INST("assign_external_2x6_rbcm_int_from_double", 2500, (assign_all<matrix<int, external<2, 6>, row_basis, col_major>, double, 2, 6>));
INST("assign_fixed_2x6_cbrm_float_from_float", 2500, (assign_all<matrix<float, fixed<2, 6>, col_basis, row_major>, float, 2, 6>));
INST("assign_external_2x6_cbrm_double_from_double", 2500, (assign_all<matrix<double, external<2, 6>, col_basis, row_major>, double, 2, 6>));
INST("assign_fixed_2x6_cbcm_int_from_double", 2500, (assign_all<matrix<int, fixed<2, 6>, col_basis, col_major>, double, 2, 6>));
INST("assign_external_2x6_cbcm_float_from_float", 2500, (assign_all<matrix<float, external<2, 6>, col_basis, col_major>, float, 2, 6>));
INST("assign_fixed_6x5_rbrm_double_from_double", 2500, (assign_all<matrix<double, fixed<6, 5>, row_basis, row_major>, double, 6, 5>));
INST("assign_external_6x5_rbrm_int_from_double", 2500, (assign_all<matrix<int, external<6, 5>, row_basis, row_major>, double, 6, 5>));
INST("assign_fixed_6x5_rbcm_float_from_float", 2500, (assign_all<matrix<float, fixed<6, 5>, row_basis, col_major>, float, 6, 5>));
INST("assign_external_6x5_rbcm_double_from_double", 2500, (assign_all<matrix<double, external<6, 5>, row_basis, col_major>, double, 6, 5>));
INST("assign_fixed_6x5_cbrm_int_from_double", 2500, (assign_all<matrix<int, fixed<6, 5>, col_basis, row_major>, double, 6, 5>));
INST("assign_external_6x5_cbrm_float_from_float", 2500, (assign_all<matrix<float, external<6, 5>, col_basis, row_major>, float, 6, 5>));
INST("assign_fixed_6x5_cbcm_double_from_double", 2500, (assign_all<matrix<double, fixed<6, 5>, col_basis, col_major>, double, 6, 5>));
INST("assign_external_6x5_cbcm_int_from_double", 2500, (assign_all<matrix<int, external<6, 5>, col_basis, col_major>, double, 6, 5>));
