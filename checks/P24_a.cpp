// P24: constants and fills.  Generated by tools/gen_P24.py
#include "boxes.h"
#include "P24_common.h"

INST("vec_fixed1_int", 2000, (vec<vector<int, fixed<1>>>));
INST("vec_fixed3_int", 2000, (vec<vector<int, fixed<3>>>));
INST("vec_fixed7_int", 2000, (vec<vector<int, fixed<7>>>));
INST("vec_external3_int", 2000, (vec<vector<int, external<3>>>));
INST("vec_external_int", 2000, (vec<vector<int, external<>>>));
INST("mat_fixed3x4_rr_float", 1000, (mat<matrix<float, fixed<3, 4>, row_basis, row_major>>));
INST("mat_external2x3_rr_float", 1000, (mat<matrix<float, external<2, 3>, row_basis, row_major>>));
INST("mat_fixed2x2_rc_int", 1000, (mat<matrix<int, fixed<2, 2>, row_basis, col_major>>));
INST("mat_dynamic_rc_int", 1000, (mat<matrix<int, dynamic<>, row_basis, col_major>>));
INST("mat_fixed1x1_cr_float", 1000, (mat<matrix<float, fixed<1, 1>, col_basis, row_major>>));
INST("mat_fixed4x4_cr_float", 1000, (mat<matrix<float, fixed<4, 4>, col_basis, row_major>>));
INST("mat_external_cr_float", 1000, (mat<matrix<float, external<>, col_basis, row_major>>));
INST("mat_fixed4x2_cc_int", 1000, (mat<matrix<int, fixed<4, 2>, col_basis, col_major>>));
INST("mat_external4x4_cc_int", 1000, (mat<matrix<int, external<4, 4>, col_basis, col_major>>));
INST("quat_double_i_p", 500, (quat<quaternion<double, fixed<>, imaginary_first, positive_cross>>));
INST("freev_1", 50, (freev<1>));
INST("freem_1x1", 2, (freem<1, 1>));
INST("freem_2x4", 2, (freem<2, 4>));
INST("freem_4x2", 2, (freem<4, 2>));
INST("freem_5x5", 2, (freem<5, 5>));
