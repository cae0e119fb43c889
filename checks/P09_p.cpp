// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_c3d_Di", 5000, (vec2<vector<const double, external<3>>, vector<int, dynamic<>>>));
INST("mat2_Yf_Yf", 5000, (mat2<matrix<float, external<>, row_basis, row_major>, matrix<float, external<>, row_basis, row_major>>));
INST("prod_Yi_F32d_rr", 5000, (prod<matrix<int, external<>, row_basis, row_major>, matrix<double, fixed<3, 2>, row_basis, row_major>>));
INST("vlist_F5", 4000, (vlist<vector<double, fixed<5>>>));
INST("square_F55f_Y", 4000, (square<matrix<float, fixed<5, 5>, row_basis, row_major>, vector<float, external<>>>));
INST("mlib_Y_rc_D", 8000, (mlib<matrix<double, external<>, row_basis, col_major>, vector<double, dynamic<>>>));
INST("vlib_F2_Y", 6000, (vlib<vector<double, fixed<2>>, vector<double, external<>>>));
