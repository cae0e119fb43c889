// P10: views.  Generated by tools/gen_P10.py
#include "boxes.h"
#include "P10_common.h"

INST("views_F31d_cc", 3000, (matviews<matrix<double, fixed<3, 1>, col_basis, col_major>, matrix<double, fixed<1, 3>, row_basis, col_major>>));
INST("views_Df_rr", 3000, (matviews<matrix<float, dynamic<>, row_basis, row_major>, matrix<float, fixed<3, 3>, col_basis, col_major>>));
INST("views_Yi_rc", 3000, (matviews<matrix<int, external<>, row_basis, col_major>, matrix<int, dynamic<>, row_basis, col_major>>));
INST("views_F14d_cr", 3000, (matviews<matrix<double, fixed<1, 4>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, col_major>>));
INST("subviews_X5d", 4000, (subviews<vector<double, external<5>>>));
