// P08: matrix products.  Generated by tools/gen_P08.py
#include "boxes.h"
#include "P08_common.h"

INST("mm_F22i_Dd_cr", 5000, (mm<matrix<int, fixed<2, 2>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("mm_X22f_X24i_rr", 5000, (mm<matrix<float, external<2, 2>, row_basis, row_major>, matrix<int, external<2, 4>, row_basis, row_major>>));
INST("mm_Dd_Yf_cc", 5000, (mm<matrix<double, dynamic<>, col_basis, col_major>, matrix<float, external<>, col_basis, col_major>>));
INST("mm_F44i_F44i_rc", 5000, (mm<matrix<int, fixed<4, 4>, row_basis, col_major>, matrix<int, fixed<4, 4>, row_basis, col_major>>));
INST("laws_F23i_F34f_Di_cr", 4000, (laws<matrix<int, fixed<2, 3>, col_basis, row_major>, matrix<float, fixed<3, 4>, col_basis, row_major>, matrix<int, dynamic<>, col_basis, row_major>>));
INST("mv_F44d_F4f_cc", 6000, (mv<matrix<double, fixed<4, 4>, col_basis, col_major>, vector<float, fixed<4>>>));
INST("mv_Df_Yf_rr", 6000, (mv<matrix<float, dynamic<>, row_basis, row_major>, vector<float, external<>>>));
INST("mv_F25i_kf_rr", 6000, (mv<matrix<int, fixed<2, 5>, row_basis, row_major>, vector<const float, external<>>>));
