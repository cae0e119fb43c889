// P24: constants and fills.  Generated by tools/gen_P24.py
#include "boxes.h"
#include "P24_common.h"

INST("vec_fixed2_int", 2000, (vec<vector<int, fixed<2>>>));
INST("vec_fixed4_int", 2000, (vec<vector<int, fixed<4>>>));
INST("vec_dynamic_int", 2000, (vec<vector<int, dynamic<>>>));
INST("vec_external5_int", 2000, (vec<vector<int, external<5>>>));
INST("mat_fixed1x1_rr_float", 1000, (mat<matrix<float, fixed<1, 1>, row_basis, row_major>>));
INST("mat_fixed4x4_rr_float", 1000, (mat<matrix<float, fixed<4, 4>, row_basis, row_major>>));
INST("mat_external_rr_float", 1000, (mat<matrix<float, external<>, row_basis, row_major>>));
INST("mat_fixed4x2_rc_int", 1000, (mat<matrix<int, fixed<4, 2>, row_basis, col_major>>));
INST("mat_external4x4_rc_int", 1000, (mat<matrix<int, external<4, 4>, row_basis, col_major>>));
INST("mat_fixed3x4_cr_float", 1000, (mat<matrix<float, fixed<3, 4>, col_basis, row_major>>));
INST("mat_external2x3_cr_float", 1000, (mat<matrix<float, external<2, 3>, col_basis, row_major>>));
INST("mat_fixed2x2_cc_int", 1000, (mat<matrix<int, fixed<2, 2>, col_basis, col_major>>));
INST("mat_dynamic_cc_int", 1000, (mat<matrix<int, dynamic<>, col_basis, col_major>>));
INST("quat_float_i_p", 500, (quat<quaternion<float, fixed<>, imaginary_first, positive_cross>>));
INST("quat_int_i_p", 500, (quat<quaternion<int, fixed<>, imaginary_first, positive_cross>>));
INST("freev_5", 50, (freev<5>));
INST("freem_1x5", 2, (freem<1, 5>));
INST("freem_3x3", 2, (freem<3, 3>));
INST("freem_5x1", 2, (freem<5, 1>));
