// P08: matrix products.  Generated by tools/gen_P08.py
#include "boxes.h"
#include "P08_common.h"

INST("mm_Di_Dd_cc", 5000, (mm<matrix<int, dynamic<>, col_basis, col_major>, matrix<double, dynamic<>, col_basis, col_major>>));
INST("mm_Df_X33i_rc", 5000, (mm<matrix<float, dynamic<>, row_basis, col_major>, matrix<int, external<3, 3>, row_basis, col_major>>));
INST("mm_F13d_Yd_cc", 5000, (mm<matrix<double, fixed<1, 3>, col_basis, col_major>, matrix<double, external<>, col_basis, col_major>>));
INST("mm_F31i_F15i_rc", 5000, (mm<matrix<int, fixed<3, 1>, row_basis, col_major>, matrix<int, fixed<1, 5>, row_basis, col_major>>));
INST("laws_F22f_F22d_F22f_cc", 4000, (laws<matrix<float, fixed<2, 2>, col_basis, col_major>, matrix<double, fixed<2, 2>, col_basis, col_major>, matrix<float, fixed<2, 2>, col_basis, col_major>>));
INST("mv_X33i_F3i_cr", 6000, (mv<matrix<int, external<3, 3>, col_basis, row_major>, vector<int, fixed<3>>>));
INST("mv_Yd_X4d_cr", 6000, (mv<matrix<double, external<>, col_basis, row_major>, vector<double, external<4>>>));
INST("inexact_Y_D_Y", 5000, (inexact<matrix<double, external<>, row_basis, row_major>, matrix<double, dynamic<>, row_basis, row_major>, vector<float, external<>>>));
