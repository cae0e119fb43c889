// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_Yi_Dd", 5000, (vec2<vector<int, external<>>, vector<double, dynamic<>>>));
INST("vec2_Dd_F1d", 5000, (vec2<vector<double, dynamic<>>, vector<double, fixed<1>>>));
INST("mat2_F23f_Yi", 5000, (mat2<matrix<float, fixed<2, 3>, col_basis, col_major>, matrix<int, external<>, row_basis, col_major>>));
INST("mv_Di_Df_cc", 5000, (mvprod<matrix<int, dynamic<>, col_basis, col_major>, vector<float, dynamic<>>>));
INST("vlist_X1", 4000, (vlist<vector<double, external<1>>>));
INST("mlib_D_rr_D", 8000, (mlib<matrix<double, dynamic<>, row_basis, row_major>, vector<double, dynamic<>>>));
INST("mlib_Y_cr_F3", 8000, (mlib<matrix<double, external<>, col_basis, row_major>, vector<double, fixed<3>>>));
INST("quaternions", 10000, (quats));
