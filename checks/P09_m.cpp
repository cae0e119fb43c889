// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_kd_Df", 5000, (vec2<vector<const double, external<>>, vector<float, dynamic<>>>));
INST("mat2_Df_Dd", 5000, (mat2<matrix<float, dynamic<>, row_basis, col_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("prod_F33i_Di_rc", 5000, (prod<matrix<int, fixed<3, 3>, row_basis, col_major>, matrix<int, dynamic<>, row_basis, col_major>>));
INST("mv_Dd_c2i_rc", 5000, (mvprod<matrix<double, dynamic<>, row_basis, col_major>, vector<const int, external<2>>>));
INST("square_Yd_Y", 4000, (square<matrix<double, external<>, row_basis, col_major>, vector<double, external<>>>));
INST("mlib_Y_rr_D", 8000, (mlib<matrix<double, external<>, row_basis, row_major>, vector<double, dynamic<>>>));
INST("vlib_F3_D", 6000, (vlib<vector<double, fixed<3>>, vector<double, dynamic<>>>));
