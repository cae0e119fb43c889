// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_Yi_X4d", 5000, (vec2<vector<int, external<>>, vector<double, external<4>>>));
INST("vec3_Dd_F3d_F3f", 5000, (vec3<vector<double, dynamic<>>, vector<double, fixed<3>>, vector<float, fixed<3>>>));
INST("prod_Yf_Di_rr", 5000, (prod<matrix<float, external<>, row_basis, row_major>, matrix<int, dynamic<>, row_basis, row_major>>));
INST("mv_Yi_kf_rr", 5000, (mvprod<matrix<int, external<>, row_basis, row_major>, vector<const float, external<>>>));
INST("square_Df_D", 4000, (square<matrix<float, dynamic<>, row_basis, row_major>, vector<float, dynamic<>>>));
INST("mlib_D_cc_Y", 8000, (mlib<matrix<double, dynamic<>, col_basis, col_major>, vector<double, external<>>>));
INST("vlib_Y_D", 6000, (vlib<vector<double, external<>>, vector<double, dynamic<>>>));
