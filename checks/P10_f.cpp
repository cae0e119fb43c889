// P10: views.  Generated by tools/gen_P10.py
#include "boxes.h"
#include "P10_common.h"

INST("views_F44d_rr", 3000, (matviews<matrix<double, fixed<4, 4>, row_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("views_Df_rc", 3000, (matviews<matrix<float, dynamic<>, row_basis, col_major>, matrix<float, fixed<2, 3>, row_basis, row_major>>));
INST("views_X32i_cr", 3000, (matviews<matrix<int, external<3, 2>, col_basis, row_major>, matrix<int, fixed<2, 3>, col_basis, row_major>>));
INST("views_F22d_cc", 3000, (matviews<matrix<double, fixed<2, 2>, col_basis, col_major>, matrix<double, fixed<2, 2>, row_basis, row_major>>));
INST("subviews_X2i", 4000, (subviews<vector<int, external<2>>>));
