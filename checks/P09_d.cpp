// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_Yd_Yf", 5000, (vec2<vector<double, external<>>, vector<float, external<>>>));
INST("vec2_F4f_Dd", 5000, (vec2<vector<float, fixed<4>>, vector<double, dynamic<>>>));
INST("mat2_Yi_F23i", 5000, (mat2<matrix<int, external<>, row_basis, row_major>, matrix<int, fixed<2, 3>, col_basis, row_major>>));
INST("mv_Dd_Yi_rr", 5000, (mvprod<matrix<double, dynamic<>, row_basis, row_major>, vector<int, external<>>>));
INST("vlist_Y", 4000, (vlist<vector<float, external<>>>));
INST("mlib_D_rr_F3", 8000, (mlib<matrix<double, dynamic<>, row_basis, row_major>, vector<double, fixed<3>>>));
INST("mlib_Y_cr_Y", 8000, (mlib<matrix<double, external<>, col_basis, row_major>, vector<double, external<>>>));
