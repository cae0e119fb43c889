// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_Df_kf", 5000, (vec2<vector<float, dynamic<>>, vector<const float, external<>>>));
INST("mat2_Di_Yd", 5000, (mat2<matrix<int, dynamic<>, col_basis, row_major>, matrix<double, external<>, col_basis, col_major>>));
INST("prod_Dd_F33d_cr", 5000, (prod<matrix<double, dynamic<>, col_basis, row_major>, matrix<double, fixed<3, 3>, col_basis, row_major>>));
INST("vlist_F3", 4000, (vlist<vector<float, fixed<3>>>));
INST("square_Df_F3", 4000, (square<matrix<float, dynamic<>, col_basis, row_major>, vector<float, fixed<3>>>));
INST("mlib_Y_rr_F3", 8000, (mlib<matrix<double, external<>, row_basis, row_major>, vector<double, fixed<3>>>));
INST("vlib_D_F3", 6000, (vlib<vector<double, dynamic<>>, vector<double, fixed<3>>>));
