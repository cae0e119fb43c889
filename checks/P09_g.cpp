// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_F2d_Yi", 5000, (vec2<vector<double, fixed<2>>, vector<int, external<>>>));
INST("vec3_Yf_F3f_Di", 5000, (vec3<vector<float, external<>>, vector<float, fixed<3>>, vector<int, dynamic<>>>));
INST("mat2_X22i_Yd", 5000, (mat2<matrix<int, external<2, 2>, col_basis, col_major>, matrix<double, external<>, col_basis, col_major>>));
INST("mv_F23d_Yd_cc", 5000, (mvprod<matrix<double, fixed<2, 3>, col_basis, col_major>, vector<double, external<>>>));
INST("mlist_F31", 4000, (mlist<matrix<float, fixed<3, 1>, col_basis, row_major>>));
INST("mlib_D_rc_Y", 8000, (mlib<matrix<double, dynamic<>, row_basis, col_major>, vector<double, external<>>>));
INST("mlib_D_rc_F2", 4000, (mlib<matrix<double, dynamic<>, row_basis, col_major>, vector<double, fixed<2>>>));
