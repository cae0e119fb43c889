// P10: views.  Generated by tools/gen_P10.py
#include "boxes.h"
#include "P10_common.h"

INST("views_F23f_rc", 3000, (matviews<matrix<float, fixed<2, 3>, row_basis, col_major>, matrix<float, fixed<3, 2>, row_basis, row_major>>));
INST("views_Di_cr", 3000, (matviews<matrix<int, dynamic<>, col_basis, row_major>, matrix<int, dynamic<>, col_basis, row_major>>));
INST("views_X24d_cc", 3000, (matviews<matrix<double, external<2, 4>, col_basis, col_major>, matrix<double, dynamic<>, row_basis, row_major>>));
INST("views_Df_rr", 3000, (matviews<matrix<float, dynamic<>, row_basis, row_major>, matrix<float, dynamic<>, col_basis, row_major>>));
INST("subviews_F4i", 4000, (subviews<vector<int, fixed<4>>>));
INST("subviews_Df", 4000, (subviews<vector<float, dynamic<>>>));
