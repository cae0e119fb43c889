// P08: matrix products.  Generated by tools/gen_P08.py
#include "boxes.h"
#include "P08_common.h"

INST("mm_Df_F44d_rc", 5000, (mm<matrix<float, dynamic<>, row_basis, col_major>, matrix<double, fixed<4, 4>, row_basis, col_major>>));
INST("mm_X33d_Df_rr", 5000, (mm<matrix<double, external<3, 3>, row_basis, row_major>, matrix<float, dynamic<>, row_basis, row_major>>));
INST("mm_Yi_F33d_cr", 5000, (mm<matrix<int, external<>, col_basis, row_major>, matrix<double, fixed<3, 3>, col_basis, row_major>>));
INST("mm_F22f_F22i_rr", 5000, (mm<matrix<float, fixed<2, 2>, row_basis, row_major>, matrix<int, fixed<2, 2>, row_basis, row_major>>));
INST("laws_X22i_Yi_Di_rc", 4000, (laws<matrix<int, external<2, 2>, row_basis, col_major>, matrix<int, external<>, row_basis, col_major>, matrix<int, dynamic<>, row_basis, col_major>>));
INST("mv_Dd_Di_cc", 6000, (mv<matrix<double, dynamic<>, col_basis, col_major>, vector<int, dynamic<>>>));
INST("mv_X33f_X3i_rr", 6000, (mv<matrix<float, external<3, 3>, row_basis, row_major>, vector<int, external<3>>>));
INST("inexact_F23_F34_F3", 5000, (inexact<matrix<double, fixed<2, 3>, col_basis, row_major>, matrix<float, fixed<3, 4>, col_basis, row_major>, vector<double, fixed<3>>>));
