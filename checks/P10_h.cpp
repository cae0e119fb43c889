// P10: views.  Generated by tools/gen_P10.py
#include "boxes.h"
#include "P10_common.h"

INST("views_F31f_rc", 3000, (matviews<matrix<float, fixed<3, 1>, row_basis, col_major>, matrix<float, fixed<1, 3>, col_basis, row_major>>));
INST("views_Di_cr", 3000, (matviews<matrix<int, dynamic<>, col_basis, row_major>, matrix<int, fixed<3, 3>, row_basis, row_major>>));
INST("views_Yd_cc", 3000, (matviews<matrix<double, external<>, col_basis, col_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("views_F14f_rr", 3000, (matviews<matrix<float, fixed<1, 4>, row_basis, row_major>, matrix<float, dynamic<>, row_basis, row_major>>));
INST("subviews_Yf", 4000, (subviews<vector<float, external<>>>));
