// P08: matrix products.  Generated by tools/gen_P08.py
#include "boxes.h"
#include "P08_common.h"

INST("mm_F33d_F33d_rr", 5000, (mm<matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, row_major>>));
INST("mm_X33i_F33f_cr", 5000, (mm<matrix<int, external<3, 3>, col_basis, row_major>, matrix<float, fixed<3, 3>, col_basis, row_major>>));
INST("mm_Yf_Yd_rr", 5000, (mm<matrix<float, external<>, row_basis, row_major>, matrix<double, external<>, row_basis, row_major>>));
INST("mm_X42d_Yi_cr", 5000, (mm<matrix<double, external<4, 2>, col_basis, row_major>, matrix<int, external<>, col_basis, row_major>>));
INST("laws_F33d_F33d_F33d_rr", 4000, (laws<matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, row_major>>));
INST("laws_Di_Yf_X31i_rr", 4000, (laws<matrix<int, dynamic<>, row_basis, row_major>, matrix<float, external<>, row_basis, row_major>, matrix<int, external<3, 1>, row_basis, row_major>>));
INST("mv_X23d_Dd_cc", 6000, (mv<matrix<double, external<2, 3>, col_basis, col_major>, vector<double, dynamic<>>>));
INST("mv_X24f_Yd_cc", 6000, (mv<matrix<float, external<2, 4>, col_basis, col_major>, vector<double, external<>>>));
INST("inexact_F44_F44_D", 5000, (inexact<matrix<float, fixed<4, 4>, row_basis, col_major>, matrix<double, fixed<4, 4>, row_basis, col_major>, vector<float, dynamic<>>>));
