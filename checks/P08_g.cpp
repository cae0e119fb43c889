// P08: matrix products.  Generated by tools/gen_P08.py
#include "boxes.h"
#include "P08_common.h"

INST("mm_Dd_F44f_cc", 5000, (mm<matrix<double, dynamic<>, col_basis, col_major>, matrix<float, fixed<4, 4>, col_basis, col_major>>));
INST("mm_X33i_Di_cr", 5000, (mm<matrix<int, external<3, 3>, col_basis, row_major>, matrix<int, dynamic<>, col_basis, row_major>>));
INST("mm_Yf_F33f_rr", 5000, (mm<matrix<float, external<>, row_basis, row_major>, matrix<float, fixed<3, 3>, row_basis, row_major>>));
INST("mm_F22d_F22d_cr", 5000, (mm<matrix<double, fixed<2, 2>, col_basis, row_major>, matrix<double, fixed<2, 2>, col_basis, row_major>>));
INST("laws_Yf_Di_F22f_rr", 4000, (laws<matrix<float, external<>, row_basis, row_major>, matrix<int, dynamic<>, row_basis, row_major>, matrix<float, fixed<2, 2>, row_basis, row_major>>));
INST("mv_Di_F3f_cr", 6000, (mv<matrix<int, dynamic<>, col_basis, row_major>, vector<float, fixed<3>>>));
INST("mv_F32d_Yi_cr", 6000, (mv<matrix<double, fixed<3, 2>, col_basis, row_major>, vector<int, external<>>>));
INST("inexact_D_D_D", 5000, (inexact<matrix<float, dynamic<>, row_basis, col_major>, matrix<double, dynamic<>, row_basis, col_major>, vector<float, dynamic<>>>));
