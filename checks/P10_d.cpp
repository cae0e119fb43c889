// P10: views.  Generated by tools/gen_P10.py
#include "boxes.h"
#include "P10_common.h"

INST("views_F23i_cc", 3000, (matviews<matrix<int, fixed<2, 3>, col_basis, col_major>, matrix<int, fixed<3, 2>, row_basis, col_major>>));
INST("views_Dd_rr", 3000, (matviews<matrix<double, dynamic<>, row_basis, row_major>, matrix<double, dynamic<>, col_basis, col_major>>));
INST("views_X24f_rc", 3000, (matviews<matrix<float, external<2, 4>, row_basis, col_major>, matrix<float, dynamic<>, row_basis, col_major>>));
INST("views_Di_cr", 3000, (matviews<matrix<int, dynamic<>, col_basis, row_major>, matrix<int, dynamic<>, col_basis, col_major>>));
INST("subviews_F6d", 4000, (subviews<vector<double, fixed<6>>>));
INST("subviews_Yi", 4000, (subviews<vector<int, external<>>>));
