// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_F3i_kf", 5000, (vec2<vector<int, fixed<3>>, vector<const float, external<>>>));
INST("mat2_Yd_Df", 5000, (mat2<matrix<double, external<>, col_basis, col_major>, matrix<float, dynamic<>, col_basis, col_major>>));
INST("prod_F23f_Yd_cc", 5000, (prod<matrix<float, fixed<2, 3>, col_basis, col_major>, matrix<double, external<>, col_basis, col_major>>));
INST("vlist_F2", 4000, (vlist<vector<int, fixed<2>>>));
INST("square_F33d_D", 4000, (square<matrix<double, fixed<3, 3>, col_basis, col_major>, vector<double, dynamic<>>>));
INST("mlib_Y_rr_Y", 8000, (mlib<matrix<double, external<>, row_basis, row_major>, vector<double, external<>>>));
INST("vlib_Y_k", 6000, (vlib<vector<double, external<>>, vector<const double, external<>>>));
