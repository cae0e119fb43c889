// P02: matrix storage.
#include "boxes.h"
#include "P02_common.h"

INST("ctor_dyn2x2_rbrm_float_from_float", 8000, (ctor_dyn<float, float, 2, 2, row_basis, row_major>));
INST("ctor_dyn2x2_rbcm_int_from_int", 8000, (ctor_dyn<int, int, 2, 2, row_basis, col_major>));
INST("ctor_dyn2x2_cbrm_double_from_double", 8000, (ctor_dyn<double, double, 2, 2, col_basis, row_major>));
INST("ctor_dyn2x2_cbcm_float_from_double", 8000, (ctor_dyn<float, double, 2, 2, col_basis, col_major>));
INST("ctor_dyn3x3_rbrm_int_from_double", 8000, (ctor_dyn<int, double, 3, 3, row_basis, row_major>));
INST("ctor_dyn3x3_rbcm_double_from_int", 8000, (ctor_dyn<double, int, 3, 3, row_basis, col_major>));
INST("ctor_dyn3x3_cbrm_float_from_float", 8000, (ctor_dyn<float, float, 3, 3, col_basis, row_major>));
INST("ctor_dyn3x3_cbcm_int_from_int", 8000, (ctor_dyn<int, int, 3, 3, col_basis, col_major>));
INST("ctor_dyn2x3_rbrm_double_from_double", 8000, (ctor_dyn<double, double, 2, 3, row_basis, row_major>));
INST("ctor_dyn2x3_cbrm_int_from_double", 8000, (ctor_dyn<int, double, 2, 3, col_basis, row_major>));
INST("ctor_dyn4x2_rbrm_float_from_float", 8000, (ctor_dyn<float, float, 4, 2, row_basis, row_major>));
INST("ctor_dyn4x2_cbrm_double_from_double", 8000, (ctor_dyn<double, double, 4, 2, col_basis, row_major>));
INST("ctor_dyn1x5_rbrm_int_from_double", 8000, (ctor_dyn<int, double, 1, 5, row_basis, row_major>));
INST("ctor_dyn1x5_cbrm_float_from_float", 8000, (ctor_dyn<float, float, 1, 5, col_basis, row_major>));
INST("ctor_dyn5x1_rbrm_double_from_double", 8000, (ctor_dyn<double, double, 5, 1, row_basis, row_major>));
INST("ctor_dyn5x1_cbrm_int_from_double", 8000, (ctor_dyn<int, double, 5, 1, col_basis, row_major>));
INST("assign_external_2x2_rbrm_double_from_double", 5000, (assign_all<matrix<double, external<2, 2>, row_basis, row_major>, double, 2, 2>));
INST("assign_external_2x2_rbcm_float_from_double", 5000, (assign_all<matrix<float, external<2, 2>, row_basis, col_major>, double, 2, 2>));
INST("assign_external_2x2_cbrm_int_from_double", 5000, (assign_all<matrix<int, external<2, 2>, col_basis, row_major>, double, 2, 2>));
INST("assign_external_2x2_cbcm_double_from_int", 5000, (assign_all<matrix<double, external<2, 2>, col_basis, col_major>, int, 2, 2>));
INST("assign_externaln_2x2_rbrm_float_from_float", 5000, (assign_all<matrix<float, external<>, row_basis, row_major>, float, 2, 2>));
INST("assign_externaln_2x2_rbcm_int_from_int", 5000, (assign_all<matrix<int, external<>, row_basis, col_major>, int, 2, 2>));
INST("assign_externaln_2x2_cbrm_double_from_double", 5000, (assign_all<matrix<double, external<>, col_basis, row_major>, double, 2, 2>));
INST("assign_externaln_2x2_cbcm_float_from_double", 5000, (assign_all<matrix<float, external<>, col_basis, col_major>, double, 2, 2>));
INST("assign_external_3x2_rbrm_float_from_float", 5000, (assign_all<matrix<float, external<3, 2>, row_basis, row_major>, float, 3, 2>));
INST("assign_external_3x2_rbcm_int_from_int", 5000, (assign_all<matrix<int, external<3, 2>, row_basis, col_major>, int, 3, 2>));
INST("assign_external_3x2_cbrm_double_from_double", 5000, (assign_all<matrix<double, external<3, 2>, col_basis, row_major>, double, 3, 2>));
INST("assign_external_3x2_cbcm_float_from_double", 5000, (assign_all<matrix<float, external<3, 2>, col_basis, col_major>, double, 3, 2>));
INST("assign_externaln_3x2_rbrm_int_from_double", 5000, (assign_all<matrix<int, external<>, row_basis, row_major>, double, 3, 2>));
INST("assign_externaln_3x2_rbcm_double_from_int", 5000, (assign_all<matrix<double, external<>, row_basis, col_major>, int, 3, 2>));
INST("assign_externaln_3x2_cbrm_float_from_float", 5000, (assign_all<matrix<float, external<>, col_basis, row_major>, float, 3, 2>));
INST("assign_externaln_3x2_cbcm_int_from_int", 5000, (assign_all<matrix<int, external<>, col_basis, col_major>, int, 3, 2>));
INST("assign_external_2x3_rbrm_int_from_double", 5000, (assign_all<matrix<int, external<2, 3>, row_basis, row_major>, double, 2, 3>));
INST("assign_external_2x3_rbcm_double_from_int", 5000, (assign_all<matrix<double, external<2, 3>, row_basis, col_major>, int, 2, 3>));
INST("assign_external_2x3_cbrm_float_from_float", 5000, (assign_all<matrix<float, external<2, 3>, col_basis, row_major>, float, 2, 3>));
INST("assign_external_2x3_cbcm_int_from_int", 5000, (assign_all<matrix<int, external<2, 3>, col_basis, col_major>, int, 2, 3>));
INST("assign_externaln_2x3_rbrm_double_from_double", 5000, (assign_all<matrix<double, external<>, row_basis, row_major>, double, 2, 3>));
INST("assign_externaln_2x3_rbcm_float_from_double", 5000, (assign_all<matrix<float, external<>, row_basis, col_major>, double, 2, 3>));
INST("assign_externaln_2x3_cbrm_int_from_double", 5000, (assign_all<matrix<int, external<>, col_basis, row_major>, double, 2, 3>));
INST("assign_externaln_2x3_cbcm_double_from_int", 5000, (assign_all<matrix<double, external<>, col_basis, col_major>, int, 2, 3>));
INST("assign_external_4x4_rbrm_double_from_double", 5000, (assign_all<matrix<double, external<4, 4>, row_basis, row_major>, double, 4, 4>));
INST("assign_external_4x4_cbcm_double_from_int", 5000, (assign_all<matrix<double, external<4, 4>, col_basis, col_major>, int, 4, 4>));
INST("assign_externaln_4x4_rbrm_float_from_float", 5000, (assign_all<matrix<float, external<>, row_basis, row_major>, float, 4, 4>));
INST("assign_externaln_4x4_cbcm_float_from_double", 5000, (assign_all<matrix<float, external<>, col_basis, col_major>, double, 4, 4>));
INST("ext_ctor_2x3_rbrm_double", 4000, (ext_ctor<double, 2, 3, row_basis, row_major>));
INST("ext_ctor_2x3_rbrm_float", 4000, (ext_ctor<float, 2, 3, row_basis, row_major>));
INST("ext_ctor_3x3_rbrm_double", 4000, (ext_ctor<double, 3, 3, row_basis, row_major>));
INST("ext_ctor_3x3_rbrm_float", 4000, (ext_ctor<float, 3, 3, row_basis, row_major>));
INST("ext_ctor_2x3_rbcm_double", 4000, (ext_ctor<double, 2, 3, row_basis, col_major>));
INST("ext_ctor_2x3_rbcm_float", 4000, (ext_ctor<float, 2, 3, row_basis, col_major>));
INST("ext_ctor_3x3_rbcm_double", 4000, (ext_ctor<double, 3, 3, row_basis, col_major>));
INST("ext_ctor_3x3_rbcm_float", 4000, (ext_ctor<float, 3, 3, row_basis, col_major>));
INST("ext_ctor_2x3_cbrm_double", 4000, (ext_ctor<double, 2, 3, col_basis, row_major>));
INST("ext_ctor_2x3_cbrm_float", 4000, (ext_ctor<float, 2, 3, col_basis, row_major>));
INST("ext_ctor_3x3_cbrm_double", 4000, (ext_ctor<double, 3, 3, col_basis, row_major>));
INST("ext_ctor_3x3_cbrm_float", 4000, (ext_ctor<float, 3, 3, col_basis, row_major>));
INST("ext_ctor_2x3_cbcm_double", 4000, (ext_ctor<double, 2, 3, col_basis, col_major>));
INST("ext_ctor_2x3_cbcm_float", 4000, (ext_ctor<float, 2, 3, col_basis, col_major>));
INST("ext_ctor_3x3_cbcm_double", 4000, (ext_ctor<double, 3, 3, col_basis, col_major>));
INST("ext_ctor_3x3_cbcm_float", 4000, (ext_ctor<float, 3, 3, col_basis, col_major>));
