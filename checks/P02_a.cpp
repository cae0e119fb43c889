// P02: matrix storage.
#include "boxes.h"
#include "P02_common.h"

INST("ctor_fixed1x1_rbrm_double_from_double", 8000, (ctor_fixed<double, double, 1, 1, row_basis, row_major>));
INST("ctor_fixed1x1_rbcm_float_from_double", 8000, (ctor_fixed<float, double, 1, 1, row_basis, col_major>));
INST("ctor_fixed1x1_cbrm_int_from_double", 8000, (ctor_fixed<int, double, 1, 1, col_basis, row_major>));
INST("ctor_fixed1x1_cbcm_double_from_int", 8000, (ctor_fixed<double, int, 1, 1, col_basis, col_major>));
INST("ctor_fixed2x2_rbrm_float_from_float", 8000, (ctor_fixed<float, float, 2, 2, row_basis, row_major>));
INST("ctor_fixed2x2_rbcm_int_from_int", 8000, (ctor_fixed<int, int, 2, 2, row_basis, col_major>));
INST("ctor_fixed2x2_cbrm_double_from_double", 8000, (ctor_fixed<double, double, 2, 2, col_basis, row_major>));
INST("ctor_fixed2x2_cbcm_float_from_double", 8000, (ctor_fixed<float, double, 2, 2, col_basis, col_major>));
INST("ctor_fixed3x3_rbrm_int_from_double", 8000, (ctor_fixed<int, double, 3, 3, row_basis, row_major>));
INST("ctor_fixed3x3_rbcm_double_from_int", 8000, (ctor_fixed<double, int, 3, 3, row_basis, col_major>));
INST("ctor_fixed3x3_cbrm_float_from_float", 8000, (ctor_fixed<float, float, 3, 3, col_basis, row_major>));
INST("ctor_fixed3x3_cbcm_int_from_int", 8000, (ctor_fixed<int, int, 3, 3, col_basis, col_major>));
INST("ctor_fixed4x4_rbrm_double_from_double", 8000, (ctor_fixed<double, double, 4, 4, row_basis, row_major>));
INST("ctor_fixed4x4_rbcm_float_from_double", 8000, (ctor_fixed<float, double, 4, 4, row_basis, col_major>));
INST("ctor_fixed4x4_cbrm_int_from_double", 8000, (ctor_fixed<int, double, 4, 4, col_basis, row_major>));
INST("ctor_fixed4x4_cbcm_double_from_int", 8000, (ctor_fixed<double, int, 4, 4, col_basis, col_major>));
INST("ctor_fixed2x3_rbrm_float_from_float", 8000, (ctor_fixed<float, float, 2, 3, row_basis, row_major>));
INST("ctor_fixed2x3_rbcm_int_from_int", 8000, (ctor_fixed<int, int, 2, 3, row_basis, col_major>));
INST("ctor_fixed2x3_cbrm_double_from_double", 8000, (ctor_fixed<double, double, 2, 3, col_basis, row_major>));
INST("ctor_fixed2x3_cbcm_float_from_double", 8000, (ctor_fixed<float, double, 2, 3, col_basis, col_major>));
INST("ctor_fixed3x2_rbrm_int_from_double", 8000, (ctor_fixed<int, double, 3, 2, row_basis, row_major>));
INST("ctor_fixed3x2_rbcm_double_from_int", 8000, (ctor_fixed<double, int, 3, 2, row_basis, col_major>));
INST("ctor_fixed3x2_cbrm_float_from_float", 8000, (ctor_fixed<float, float, 3, 2, col_basis, row_major>));
INST("ctor_fixed3x2_cbcm_int_from_int", 8000, (ctor_fixed<int, int, 3, 2, col_basis, col_major>));
INST("ctor_fixed4x3_rbrm_double_from_double", 8000, (ctor_fixed<double, double, 4, 3, row_basis, row_major>));
INST("ctor_fixed4x3_rbcm_float_from_double", 8000, (ctor_fixed<float, double, 4, 3, row_basis, col_major>));
INST("ctor_fixed4x3_cbrm_int_from_double", 8000, (ctor_fixed<int, double, 4, 3, col_basis, row_major>));
INST("ctor_fixed4x3_cbcm_double_from_int", 8000, (ctor_fixed<double, int, 4, 3, col_basis, col_major>));
INST("ctor_fixed1x4_rbrm_float_from_float", 8000, (ctor_fixed<float, float, 1, 4, row_basis, row_major>));
INST("ctor_fixed1x4_rbcm_int_from_int", 8000, (ctor_fixed<int, int, 1, 4, row_basis, col_major>));
INST("ctor_fixed1x4_cbrm_double_from_double", 8000, (ctor_fixed<double, double, 1, 4, col_basis, row_major>));
INST("ctor_fixed1x4_cbcm_float_from_double", 8000, (ctor_fixed<float, double, 1, 4, col_basis, col_major>));
INST("ctor_fixed4x1_rbrm_int_from_double", 8000, (ctor_fixed<int, double, 4, 1, row_basis, row_major>));
INST("ctor_fixed4x1_rbcm_double_from_int", 8000, (ctor_fixed<double, int, 4, 1, row_basis, col_major>));
INST("ctor_fixed4x1_cbrm_float_from_float", 8000, (ctor_fixed<float, float, 4, 1, col_basis, row_major>));
INST("ctor_fixed4x1_cbcm_int_from_int", 8000, (ctor_fixed<int, int, 4, 1, col_basis, col_major>));
INST("ctor_fixed3x5_rbrm_double_from_double", 8000, (ctor_fixed<double, double, 3, 5, row_basis, row_major>));
INST("ctor_fixed3x5_rbcm_float_from_double", 8000, (ctor_fixed<float, double, 3, 5, row_basis, col_major>));
INST("ctor_fixed3x5_cbrm_int_from_double", 8000, (ctor_fixed<int, double, 3, 5, col_basis, row_major>));
INST("ctor_fixed3x5_cbcm_double_from_int", 8000, (ctor_fixed<double, int, 3, 5, col_basis, col_major>));
