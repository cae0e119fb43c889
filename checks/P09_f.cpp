// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_Di_F3f", 5000, (vec2<vector<int, dynamic<>>, vector<float, fixed<3>>>));
INST("vec3_F3d_Df_Yf", 5000, (vec3<vector<double, fixed<3>>, vector<float, dynamic<>>, vector<float, external<>>>));
INST("mat2_Df_X32d", 5000, (mat2<matrix<float, dynamic<>, col_basis, row_major>, matrix<double, external<3, 2>, col_basis, col_major>>));
INST("mv_F33i_Di_cr", 5000, (mvprod<matrix<int, fixed<3, 3>, col_basis, row_major>, vector<int, dynamic<>>>));
INST("mlist_F23", 4000, (mlist<matrix<double, fixed<2, 3>, row_basis, col_major>>));
INST("mlib_D_rc_D", 8000, (mlib<matrix<double, dynamic<>, row_basis, col_major>, vector<double, dynamic<>>>));
INST("mlib_Y_cc_Y", 8000, (mlib<matrix<double, external<>, col_basis, col_major>, vector<double, external<>>>));
