// P24: constants and fills.  Generated by tools/gen_P24.py
#include "boxes.h"
#include "P24_common.h"

INST("vec_fixed1_float", 2000, (vec<vector<float, fixed<1>>>));
INST("vec_fixed3_float", 2000, (vec<vector<float, fixed<3>>>));
INST("vec_fixed7_float", 2000, (vec<vector<float, fixed<7>>>));
INST("vec_external3_float", 2000, (vec<vector<float, external<3>>>));
INST("vec_external_float", 2000, (vec<vector<float, external<>>>));
INST("mat_fixed3x4_rr_double", 1000, (mat<matrix<double, fixed<3, 4>, row_basis, row_major>>));
INST("mat_external2x3_rr_double", 1000, (mat<matrix<double, external<2, 3>, row_basis, row_major>>));
INST("mat_fixed2x2_rc_double", 1000, (mat<matrix<double, fixed<2, 2>, row_basis, col_major>>));
INST("mat_dynamic_rc_double", 1000, (mat<matrix<double, dynamic<>, row_basis, col_major>>));
INST("mat_fixed1x1_cr_double", 1000, (mat<matrix<double, fixed<1, 1>, col_basis, row_major>>));
INST("mat_fixed4x4_cr_double", 1000, (mat<matrix<double, fixed<4, 4>, col_basis, row_major>>));
INST("mat_external_cr_double", 1000, (mat<matrix<double, external<>, col_basis, row_major>>));
INST("mat_fixed4x2_cc_double", 1000, (mat<matrix<double, fixed<4, 2>, col_basis, col_major>>));
INST("mat_external4x4_cc_double", 1000, (mat<matrix<double, external<4, 4>, col_basis, col_major>>));
INST("quat_double_i_n", 500, (quat<quaternion<double, fixed<>, imaginary_first, negative_cross>>));
INST("freev_2", 50, (freev<2>));
INST("freem_1x2", 2, (freem<1, 2>));
INST("freem_2x5", 2, (freem<2, 5>));
INST("freem_4x3", 2, (freem<4, 3>));
