// P24: constants and fills.  Generated by tools/gen_P24.py
#include "boxes.h"
#include "P24_common.h"

INST("vec_fixed2_float", 2000, (vec<vector<float, fixed<2>>>));
INST("vec_fixed4_float", 2000, (vec<vector<float, fixed<4>>>));
INST("vec_dynamic_float", 2000, (vec<vector<float, dynamic<>>>));
INST("vec_external5_float", 2000, (vec<vector<float, external<5>>>));
INST("mat_fixed1x1_rr_double", 1000, (mat<matrix<double, fixed<1, 1>, row_basis, row_major>>));
INST("mat_fixed4x4_rr_double", 1000, (mat<matrix<double, fixed<4, 4>, row_basis, row_major>>));
INST("mat_external_rr_double", 1000, (mat<matrix<double, external<>, row_basis, row_major>>));
INST("mat_fixed4x2_rc_double", 1000, (mat<matrix<double, fixed<4, 2>, row_basis, col_major>>));
INST("mat_external4x4_rc_double", 1000, (mat<matrix<double, external<4, 4>, row_basis, col_major>>));
INST("mat_fixed3x4_cr_double", 1000, (mat<matrix<double, fixed<3, 4>, col_basis, row_major>>));
INST("mat_external2x3_cr_double", 1000, (mat<matrix<double, external<2, 3>, col_basis, row_major>>));
INST("mat_fixed2x2_cc_double", 1000, (mat<matrix<double, fixed<2, 2>, col_basis, col_major>>));
INST("mat_dynamic_cc_double", 1000, (mat<matrix<double, dynamic<>, col_basis, col_major>>));
INST("quat_float_i_n", 500, (quat<quaternion<float, fixed<>, imaginary_first, negative_cross>>));
INST("quat_int_i_n", 500, (quat<quaternion<int, fixed<>, imaginary_first, negative_cross>>));
INST("freev_6", 50, (freev<6>));
INST("freem_2x1", 2, (freem<2, 1>));
INST("freem_3x4", 2, (freem<3, 4>));
INST("freem_5x2", 2, (freem<5, 2>));
