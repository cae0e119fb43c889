// P09: size mismatches.  Generated by tools/gen_P09.py
#include "boxes.h"
#include "P09_common.h"

INST("vec2_Dd_X3d", 5000, (vec2<vector<double, dynamic<>>, vector<double, external<3>>>));
INST("vec3_Yf_Di_c3d", 5000, (vec3<vector<float, external<>>, vector<int, dynamic<>>, vector<const double, external<3>>>));
INST("prod_Di_Df_cr", 5000, (prod<matrix<int, dynamic<>, col_basis, row_major>, matrix<float, dynamic<>, col_basis, row_major>>));
INST("mv_Dd_X3f_cr", 5000, (mvprod<matrix<double, dynamic<>, col_basis, row_major>, vector<float, external<3>>>));
INST("mlist_X32", 4000, (mlist<matrix<float, external<3, 2>, row_basis, col_major>>));
INST("mlib_D_cr_Y", 8000, (mlib<matrix<double, dynamic<>, col_basis, row_major>, vector<double, external<>>>));
INST("vlib_D_D", 6000, (vlib<vector<double, dynamic<>>, vector<double, dynamic<>>>));
