// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_X3i_Di", 5000, (vec2<vector<int, external<3>>, vector<int, dynamic<>>>));
INST("vec3_X3d_ki_Dd", 5000, (vec3<vector<double, external<3>>, vector<const int, external<>>, vector<double, dynamic<>>>));
INST("mat2_F44f_Df", 5000, (mat2<matrix<float, fixed<4, 4>, row_basis, col_major>, matrix<float, dynamic<>, row_basis, row_major>>));
INST("mv_Yi_F2d_rc", 5000, (mvprod<matrix<int, external<>, row_basis, col_major>, vector<double, fixed<2>>>));
INST("mlist_X22", 4000, (mlist<matrix<double, external<2, 2>, row_basis, row_major>>));
INST("mlib_D_cr_F3", 8000, (mlib<matrix<double, dynamic<>, col_basis, row_major>, vector<double, fixed<3>>>));
INST("mlib_Y_cr_F4", 2000, (mlib<matrix<double, external<>, col_basis, row_major>, vector<double, fixed<4>>>));
