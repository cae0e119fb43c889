// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_Dd_Dd", 5000, (vec2<vector<double, dynamic<>>, vector<double, dynamic<>>>));
INST("vec2_Yf_c2i", 5000, (vec2<vector<float, external<>>, vector<const int, external<2>>>));
INST("mat2_F33i_Df", 5000, (mat2<matrix<int, fixed<3, 3>, row_basis, col_major>, matrix<float, dynamic<>, row_basis, row_major>>));
INST("prod_X22d_Df_rc", 5000, (prod<matrix<double, external<2, 2>, row_basis, col_major>, matrix<float, dynamic<>, row_basis, col_major>>));
INST("vlist_D", 4000, (vlist<vector<float, dynamic<>>>));
INST("square_Yd_X4", 4000, (square<matrix<double, external<>, row_basis, col_major>, vector<double, external<4>>>));
INST("mlib_Y_rc_Y", 8000, (mlib<matrix<double, external<>, row_basis, col_major>, vector<double, external<>>>));
INST("vlib_X3_D", 6000, (vlib<vector<double, external<3>>, vector<double, dynamic<>>>));
