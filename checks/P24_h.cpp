// P24: constants and fills.  Generated by tools/gen_P24.py
#include "boxes.h"
#include "P24_common.h"

INST("vec_fixed2_unsigned", 2000, (vec<vector<unsigned, fixed<2>>>));
INST("vec_fixed4_unsigned", 2000, (vec<vector<unsigned, fixed<4>>>));
INST("vec_dynamic_unsigned", 2000, (vec<vector<unsigned, dynamic<>>>));
INST("vec_external5_unsigned", 2000, (vec<vector<unsigned, external<5>>>));
INST("mat_fixed2x2_rr_double", 1000, (mat<matrix<double, fixed<2, 2>, row_basis, row_major>>));
INST("mat_dynamic_rr_double", 1000, (mat<matrix<double, dynamic<>, row_basis, row_major>>));
INST("mat_fixed1x1_rc_double", 1000, (mat<matrix<double, fixed<1, 1>, row_basis, col_major>>));
INST("mat_fixed4x4_rc_double", 1000, (mat<matrix<double, fixed<4, 4>, row_basis, col_major>>));
INST("mat_external_rc_double", 1000, (mat<matrix<double, external<>, row_basis, col_major>>));
INST("mat_fixed4x2_cr_double", 1000, (mat<matrix<double, fixed<4, 2>, col_basis, row_major>>));
INST("mat_external4x4_cr_double", 1000, (mat<matrix<double, external<4, 4>, col_basis, row_major>>));
INST("mat_fixed3x4_cc_double", 1000, (mat<matrix<double, fixed<3, 4>, col_basis, col_major>>));
INST("mat_external2x3_cc_double", 1000, (mat<matrix<double, external<2, 3>, col_basis, col_major>>));
INST("quat_float_r_n", 500, (quat<quaternion<float, fixed<>, real_first, negative_cross>>));
INST("quat_int_r_n", 500, (quat<quaternion<int, fixed<>, real_first, negative_cross>>));
INST("freev_8", 50, (freev<8>));
INST("freem_2x3", 2, (freem<2, 3>));
INST("freem_4x1", 2, (freem<4, 1>));
INST("freem_5x4", 2, (freem<5, 4>));
