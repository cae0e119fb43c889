// P10: views.  Generated by tools/gen_P10.py
#include "boxes.h"
#include "P10_common.h"

INST("views_F44i_cr", 3000, (matviews<matrix<int, fixed<4, 4>, col_basis, row_major>, matrix<int, dynamic<>, row_basis, col_major>>));
INST("views_Dd_cc", 3000, (matviews<matrix<double, dynamic<>, col_basis, col_major>, matrix<double, fixed<2, 3>, col_basis, col_major>>));
INST("views_X32f_rr", 3000, (matviews<matrix<float, external<3, 2>, row_basis, row_major>, matrix<float, fixed<2, 3>, row_basis, col_major>>));
INST("views_F22i_rc", 3000, (matviews<matrix<int, fixed<2, 2>, row_basis, col_major>, matrix<int, fixed<2, 2>, col_basis, col_major>>));
INST("subviews_Df", 4000, (subviews<vector<float, dynamic<>>>));
