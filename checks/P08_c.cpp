// P08: matrix products.  Generated by tools/gen_P08.py
#include "boxes.h"
#include "P08_common.h"

INST("mm_F23f_F34d_rc", 5000, (mm<matrix<float, fixed<2, 3>, row_basis, col_major>, matrix<double, fixed<3, 4>, row_basis, col_major>>));
INST("mm_F32d_X21i_cc", 5000, (mm<matrix<double, fixed<3, 2>, col_basis, col_major>, matrix<int, external<2, 1>, col_basis, col_major>>));
INST("mm_Yi_Dd_rc", 5000, (mm<matrix<int, external<>, row_basis, col_major>, matrix<double, dynamic<>, row_basis, col_major>>));
INST("mm_Yf_X23i_rr", 5000, (mm<matrix<float, external<>, row_basis, row_major>, matrix<int, external<2, 3>, row_basis, row_major>>));
INST("laws_Df_Dd_Df_rc", 4000, (laws<matrix<float, dynamic<>, row_basis, col_major>, matrix<double, dynamic<>, row_basis, col_major>, matrix<float, dynamic<>, row_basis, col_major>>));
INST("mv_F23f_F3d_rc", 6000, (mv<matrix<float, fixed<2, 3>, row_basis, col_major>, vector<double, fixed<3>>>));
INST("mv_Yi_F2d_rc", 6000, (mv<matrix<int, external<>, row_basis, col_major>, vector<double, fixed<2>>>));
INST("mv_Dd_kf_cr", 6000, (mv<matrix<double, dynamic<>, col_basis, row_major>, vector<const float, external<>>>));
