// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_Yf_F2i", 5000, (vec2<vector<float, external<>>, vector<int, fixed<2>>>));
INST("vec3_Di_Yf_F3i", 5000, (vec3<vector<int, dynamic<>>, vector<float, external<>>, vector<int, fixed<3>>>));
INST("mat2_Yd_X22f", 5000, (mat2<matrix<double, external<>, row_basis, row_major>, matrix<float, external<2, 2>, row_basis, row_major>>));
INST("mv_Df_F3d_rr", 5000, (mvprod<matrix<float, dynamic<>, row_basis, row_major>, vector<double, fixed<3>>>));
INST("mlist_D", 4000, (mlist<matrix<int, dynamic<>, col_basis, col_major>>));
INST("mlib_D_cr_D", 8000, (mlib<matrix<double, dynamic<>, col_basis, row_major>, vector<double, dynamic<>>>));
INST("mlib_D_cc_k", 4000, (mlib<matrix<double, dynamic<>, col_basis, col_major>, vector<const double, external<>>>));
