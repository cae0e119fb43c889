// P08: matrix products.  Generated by tools/gen_P08.py
#include "boxes.h"
#include "P08_common.h"

INST("mm_Df_Df_rc", 5000, (mm<matrix<float, dynamic<>, row_basis, col_major>, matrix<float, dynamic<>, row_basis, col_major>>));
INST("mm_Dd_X33d_cc", 5000, (mm<matrix<double, dynamic<>, col_basis, col_major>, matrix<double, external<3, 3>, col_basis, col_major>>));
INST("mm_F13i_Yf_rc", 5000, (mm<matrix<int, fixed<1, 3>, row_basis, col_major>, matrix<float, external<>, row_basis, col_major>>));
INST("mm_F31f_F15d_cc", 5000, (mm<matrix<float, fixed<3, 1>, col_basis, col_major>, matrix<double, fixed<1, 5>, col_basis, col_major>>));
INST("laws_F44d_F44d_F44d_cr", 4000, (laws<matrix<double, fixed<4, 4>, col_basis, row_major>, matrix<double, fixed<4, 4>, col_basis, row_major>, matrix<double, fixed<4, 4>, col_basis, row_major>>));
INST("mv_F34f_Di_rr", 6000, (mv<matrix<float, fixed<3, 4>, row_basis, row_major>, vector<int, dynamic<>>>));
INST("mv_Yi_Yi_rc", 6000, (mv<matrix<int, external<>, row_basis, col_major>, vector<int, external<>>>));
INST("inexact_D_F22_F2", 5000, (inexact<matrix<float, dynamic<>, col_basis, col_major>, matrix<float, fixed<2, 2>, col_basis, col_major>, vector<double, fixed<2>>>));
