// P10: views.  Generated by tools/gen_P10.py
#include "boxes.h"
#include "P10_common.h"

INST("views_F33f_cr", 3000, (matviews<matrix<float, fixed<3, 3>, col_basis, row_major>, matrix<float, fixed<3, 3>, row_basis, col_major>>));
INST("views_F25i_cc", 3000, (matviews<matrix<int, fixed<2, 5>, col_basis, col_major>, matrix<int, dynamic<>, col_basis, col_major>>));
INST("views_X33d_rr", 3000, (matviews<matrix<double, external<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, col_major>>));
INST("views_Yf_rc", 3000, (matviews<matrix<float, external<>, row_basis, col_major>, matrix<float, fixed<2, 2>, col_basis, col_major>>));
INST("subviews_F3f", 4000, (subviews<vector<float, fixed<3>>>));
INST("subviews_kd", 4000, (subviews<vector<const double, external<>>>));
