// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_X2f_Yd", 5000, (vec2<vector<float, external<2>>, vector<double, external<>>>));
INST("vec3_F3i_F3i_Df", 5000, (vec3<vector<int, fixed<3>>, vector<int, fixed<3>>, vector<float, dynamic<>>>));
INST("prod_Dd_Yi_cc", 5000, (prod<matrix<double, dynamic<>, col_basis, col_major>, matrix<int, external<>, col_basis, col_major>>));
INST("mv_X32f_Df_cc", 5000, (mvprod<matrix<float, external<3, 2>, col_basis, col_major>, vector<float, dynamic<>>>));
INST("mlist_Y", 4000, (mlist<matrix<int, external<>, col_basis, row_major>>));
INST("mlib_D_cc_D", 8000, (mlib<matrix<double, dynamic<>, col_basis, col_major>, vector<double, dynamic<>>>));
INST("vlib_D_Y", 6000, (vlib<vector<double, dynamic<>>, vector<double, external<>>>));
