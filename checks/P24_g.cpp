// P24: constants and fills.  Generated by tools/gen_P24.py
#include "boxes.h"
#include "P24_common.h"

INST("vec_fixed2_double", 2000, (vec<vector<double, fixed<2>>>));
INST("vec_fixed4_double", 2000, (vec<vector<double, fixed<4>>>));
INST("vec_dynamic_double", 2000, (vec<vector<double, dynamic<>>>));
INST("vec_external5_double", 2000, (vec<vector<double, external<5>>>));
INST("mat_fixed2x2_rr_float", 1000, (mat<matrix<float, fixed<2, 2>, row_basis, row_major>>));
INST("mat_dynamic_rr_float", 1000, (mat<matrix<float, dynamic<>, row_basis, row_major>>));
INST("mat_fixed1x1_rc_int", 1000, (mat<matrix<int, fixed<1, 1>, row_basis, col_major>>));
INST("mat_fixed4x4_rc_int", 1000, (mat<matrix<int, fixed<4, 4>, row_basis, col_major>>));
INST("mat_external_rc_int", 1000, (mat<matrix<int, external<>, row_basis, col_major>>));
INST("mat_fixed4x2_cr_float", 1000, (mat<matrix<float, fixed<4, 2>, col_basis, row_major>>));
INST("mat_external4x4_cr_float", 1000, (mat<matrix<float, external<4, 4>, col_basis, row_major>>));
INST("mat_fixed3x4_cc_int", 1000, (mat<matrix<int, fixed<3, 4>, col_basis, col_major>>));
INST("mat_external2x3_cc_int", 1000, (mat<matrix<int, external<2, 3>, col_basis, col_major>>));
INST("quat_float_r_p", 500, (quat<quaternion<float, fixed<>, real_first, positive_cross>>));
INST("quat_int_r_p", 500, (quat<quaternion<int, fixed<>, real_first, positive_cross>>));
INST("freev_7", 50, (freev<7>));
INST("freem_2x2", 2, (freem<2, 2>));
INST("freem_3x5", 2, (freem<3, 5>));
INST("freem_5x3", 2, (freem<5, 3>));
