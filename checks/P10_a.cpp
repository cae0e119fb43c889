// P10: views.  Generated by tools/gen_P10.py
#include "boxes.h"
#include "P10_common.h"

INST("views_F33d_rr", 3000, (matviews<matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, row_major>>));
INST("views_F25f_rc", 3000, (matviews<matrix<float, fixed<2, 5>, row_basis, col_major>, matrix<float, dynamic<>, col_basis, row_major>>));
INST("views_X33i_cr", 3000, (matviews<matrix<int, external<3, 3>, col_basis, row_major>, matrix<int, fixed<3, 3>, row_basis, row_major>>));
INST("views_Yd_cc", 3000, (matviews<matrix<double, external<>, col_basis, col_major>, matrix<double, fixed<2, 2>, col_basis, row_major>>));
INST("subviews_F2d", 4000, (subviews<vector<double, fixed<2>>>));
INST("subviews_c3i", 4000, (subviews<vector<const int, external<3>>>));
