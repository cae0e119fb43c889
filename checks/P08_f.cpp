// P08: matrix products.  Generated by tools/gen_P08.py
#include "boxes.h"
#include "P08_common.h"

INST("mm_F22d_Di_rr", 5000, (mm<matrix<double, fixed<2, 2>, row_basis, row_major>, matrix<int, dynamic<>, row_basis, row_major>>));
INST("mm_X22i_X24f_cr", 5000, (mm<matrix<int, external<2, 2>, col_basis, row_major>, matrix<float, external<2, 4>, col_basis, row_major>>));
INST("mm_Df_Yd_rc", 5000, (mm<matrix<float, dynamic<>, row_basis, col_major>, matrix<double, external<>, row_basis, col_major>>));
INST("mm_F44d_F44f_cc", 5000, (mm<matrix<double, fixed<4, 4>, col_basis, col_major>, matrix<float, fixed<4, 4>, col_basis, col_major>>));
INST("laws_Dd_F33f_Dd_cc", 4000, (laws<matrix<double, dynamic<>, col_basis, col_major>, matrix<float, fixed<3, 3>, col_basis, col_major>, matrix<double, dynamic<>, col_basis, col_major>>));
INST("mv_F22f_F2f_rc", 6000, (mv<matrix<float, fixed<2, 2>, row_basis, col_major>, vector<float, fixed<2>>>));
INST("mv_F33i_X3f_rc", 6000, (mv<matrix<int, fixed<3, 3>, row_basis, col_major>, vector<float, external<3>>>));
INST("inexact_F33_F33_F3", 5000, (inexact<matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, row_major>, vector<float, fixed<3>>>));
