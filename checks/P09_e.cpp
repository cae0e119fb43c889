// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_F3f_Df", 5000, (vec2<vector<float, fixed<3>>, vector<float, dynamic<>>>));
INST("vec3_Di_Dd_Df", 5000, (vec3<vector<int, dynamic<>>, vector<double, dynamic<>>, vector<float, dynamic<>>>));
INST("mat2_X32d_Dd", 5000, (mat2<matrix<double, external<3, 2>, row_basis, col_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("mv_Yf_Di_rc", 5000, (mvprod<matrix<float, external<>, row_basis, col_major>, vector<int, dynamic<>>>));
INST("mlist_F22", 4000, (mlist<matrix<int, fixed<2, 2>, row_basis, row_major>>));
INST("mlib_D_rr_Y", 8000, (mlib<matrix<double, dynamic<>, row_basis, row_major>, vector<double, external<>>>));
INST("mlib_Y_cc_D", 8000, (mlib<matrix<double, external<>, col_basis, col_major>, vector<double, dynamic<>>>));
