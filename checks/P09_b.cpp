// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_Df_Yd", 5000, (vec2<vector<float, dynamic<>>, vector<double, external<>>>));
INST("vec2_ki_Yi", 5000, (vec2<vector<const int, external<>>, vector<int, external<>>>));
INST("mat2_Dd_F33i", 5000, (mat2<matrix<double, dynamic<>, col_basis, row_major>, matrix<int, fixed<3, 3>, row_basis, col_major>>));
INST("prod_Df_X23f_cr", 5000, (prod<matrix<float, dynamic<>, col_basis, row_major>, matrix<float, external<2, 3>, col_basis, row_major>>));
INST("vlist_X4", 4000, (vlist<vector<int, external<4>>>));
INST("square_Df_Y", 4000, (square<matrix<float, dynamic<>, col_basis, row_major>, vector<float, external<>>>));
INST("mlib_Y_cr_D", 8000, (mlib<matrix<double, external<>, col_basis, row_major>, vector<double, dynamic<>>>));
INST("vlib_Y_X2", 6000, (vlib<vector<double, external<>>, vector<double, external<2>>>));
