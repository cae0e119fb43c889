// P24: constants and fills.  Generated by tools/gen_P24.py
#include "boxes.h"
#include "P24_common.h"

INST("vec_fixed1_unsigned", 2000, (vec<vector<unsigned, fixed<1>>>));
INST("vec_fixed3_unsigned", 2000, (vec<vector<unsigned, fixed<3>>>));
INST("vec_fixed7_unsigned", 2000, (vec<vector<unsigned, fixed<7>>>));
INST("vec_external3_unsigned", 2000, (vec<vector<unsigned, external<3>>>));
INST("vec_external_unsigned", 2000, (vec<vector<unsigned, external<>>>));
INST("mat_fixed4x2_rr_double", 1000, (mat<matrix<double, fixed<4, 2>, row_basis, row_major>>));
INST("mat_external4x4_rr_double", 1000, (mat<matrix<double, external<4, 4>, row_basis, row_major>>));
INST("mat_fixed3x4_rc_double", 1000, (mat<matrix<double, fixed<3, 4>, row_basis, col_major>>));
INST("mat_external2x3_rc_double", 1000, (mat<matrix<double, external<2, 3>, row_basis, col_major>>));
INST("mat_fixed2x2_cr_double", 1000, (mat<matrix<double, fixed<2, 2>, col_basis, row_major>>));
INST("mat_dynamic_cr_double", 1000, (mat<matrix<double, dynamic<>, col_basis, row_major>>));
INST("mat_fixed1x1_cc_double", 1000, (mat<matrix<double, fixed<1, 1>, col_basis, col_major>>));
INST("mat_fixed4x4_cc_double", 1000, (mat<matrix<double, fixed<4, 4>, col_basis, col_major>>));
INST("mat_external_cc_double", 1000, (mat<matrix<double, external<>, col_basis, col_major>>));
INST("quat_double_r_n", 500, (quat<quaternion<double, fixed<>, real_first, negative_cross>>));
INST("freev_4", 50, (freev<4>));
INST("freem_1x4", 2, (freem<1, 4>));
INST("freem_3x2", 2, (freem<3, 2>));
INST("freem_4x5", 2, (freem<4, 5>));
