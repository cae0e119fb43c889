// P08: matrix products.  Generated by tools/gen_P08.py
#include "boxes.h"
#include "P08_common.h"

INST("mm_F33f_F33i_cr", 5000, (mm<matrix<float, fixed<3, 3>, col_basis, row_major>, matrix<int, fixed<3, 3>, col_basis, row_major>>));
INST("mm_X33d_F33d_rr", 5000, (mm<matrix<double, external<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, row_major>>));
INST("mm_Yi_Yi_cr", 5000, (mm<matrix<int, external<>, col_basis, row_major>, matrix<int, external<>, col_basis, row_major>>));
INST("mm_X42f_Yf_rr", 5000, (mm<matrix<float, external<4, 2>, row_basis, row_major>, matrix<float, external<>, row_basis, row_major>>));
INST("laws_F33f_F33d_F33i_rc", 4000, (laws<matrix<float, fixed<3, 3>, row_basis, col_major>, matrix<double, fixed<3, 3>, row_basis, col_major>, matrix<int, fixed<3, 3>, row_basis, col_major>>));
INST("mv_F33d_F3d_rr", 6000, (mv<matrix<double, fixed<3, 3>, row_basis, row_major>, vector<double, fixed<3>>>));
INST("mv_Yf_Dd_rr", 6000, (mv<matrix<float, external<>, row_basis, row_major>, vector<double, dynamic<>>>));
INST("mv_F33i_c3d_rc", 6000, (mv<matrix<int, fixed<3, 3>, row_basis, col_major>, vector<const double, external<3>>>));
INST("inexact_X22_X22_X2", 5000, (inexact<matrix<double, external<2, 2>, col_basis, row_major>, matrix<float, external<2, 2>, col_basis, row_major>, vector<double, external<2>>>));
