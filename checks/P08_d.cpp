// P08: matrix products.  Generated by tools/gen_P08.py
#include "boxes.h"
#include "P08_common.h"

INST("mm_F23i_F34i_cc", 5000, (mm<matrix<int, fixed<2, 3>, col_basis, col_major>, matrix<int, fixed<3, 4>, col_basis, col_major>>));
INST("mm_F32f_X21f_rc", 5000, (mm<matrix<float, fixed<3, 2>, row_basis, col_major>, matrix<float, external<2, 1>, row_basis, col_major>>));
INST("mm_Yd_Di_cc", 5000, (mm<matrix<double, external<>, col_basis, col_major>, matrix<int, dynamic<>, col_basis, col_major>>));
INST("mm_Yi_X23f_cr", 5000, (mm<matrix<int, external<>, col_basis, row_major>, matrix<float, external<2, 3>, col_basis, row_major>>));
INST("laws_Di_Dd_Dd_cr", 4000, (laws<matrix<int, dynamic<>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("mv_F23i_F2d_cr", 6000, (mv<matrix<int, fixed<2, 3>, col_basis, row_major>, vector<double, fixed<2>>>));
INST("mv_Dd_X3f_cc", 6000, (mv<matrix<double, dynamic<>, col_basis, col_major>, vector<float, external<3>>>));
INST("mv_Yf_c2f_cc", 6000, (mv<matrix<float, external<>, col_basis, col_major>, vector<const float, external<2>>>));
