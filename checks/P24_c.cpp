// P24: constants and fills.  Generated by tools/gen_P24.py
#include "boxes.h"
#include "P24_common.h"

INST("vec_fixed1_double", 2000, (vec<vector<double, fixed<1>>>));
INST("vec_fixed3_double", 2000, (vec<vector<double, fixed<3>>>));
INST("vec_fixed7_double", 2000, (vec<vector<double, fixed<7>>>));
INST("vec_external3_double", 2000, (vec<vector<double, external<3>>>));
INST("vec_external_double", 2000, (vec<vector<double, external<>>>));
INST("mat_fixed4x2_rr_float", 1000, (mat<matrix<float, fixed<4, 2>, row_basis, row_major>>));
INST("mat_external4x4_rr_float", 1000, (mat<matrix<float, external<4, 4>, row_basis, row_major>>));
INST("mat_fixed3x4_rc_int", 1000, (mat<matrix<int, fixed<3, 4>, row_basis, col_major>>));
INST("mat_external2x3_rc_int", 1000, (mat<matrix<int, external<2, 3>, row_basis, col_major>>));
INST("mat_fixed2x2_cr_float", 1000, (mat<matrix<float, fixed<2, 2>, col_basis, row_major>>));
INST("mat_dynamic_cr_float", 1000, (mat<matrix<float, dynamic<>, col_basis, row_major>>));
INST("mat_fixed1x1_cc_int", 1000, (mat<matrix<int, fixed<1, 1>, col_basis, col_major>>));
INST("mat_fixed4x4_cc_int", 1000, (mat<matrix<int, fixed<4, 4>, col_basis, col_major>>));
INST("mat_external_cc_int", 1000, (mat<matrix<int, external<>, col_basis, col_major>>));
INST("quat_double_r_p", 500, (quat<quaternion<double, fixed<>, real_first, positive_cross>>));
INST("freev_3", 50, (freev<3>));
INST("freem_1x3", 2, (freem<1, 3>));
INST("freem_3x1", 2, (freem<3, 1>));
INST("freem_4x4", 2, (freem<4, 4>));
