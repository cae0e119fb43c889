// P11: determinant, inverse, trace.  Generated by tools/gen_P11.py
#include "boxes.h"
#include "P11_common.h"

INST("inv_F33f_rc", 2400, (inv<matrix<float, fixed<3, 3>, row_basis, col_major>>));
INST("inv_Yf_cr", 2400, (inv<matrix<float, external<>, col_basis, row_major>>));
INST("inv_Df_cc", 2400, (inv<matrix<float, dynamic<>, col_basis, col_major>>));
INST("inv_X22f_rr", 2400, (inv<matrix<float, external<2, 2>, row_basis, row_major>>));
INST("det_F33f_rc", 1600, (det<matrix<float, fixed<3, 3>, row_basis, col_major>>));
INST("det_Yf_cr", 1200, (det<matrix<float, external<>, col_basis, row_major>>));
INST("det_Df_cc", 1200, (det<matrix<float, dynamic<>, col_basis, col_major>>));
INST("det_X22f_rr", 1600, (det<matrix<float, external<2, 2>, row_basis, row_major>>));
INST("det_F44i_cr", 3000, (det<matrix<int, fixed<4, 4>, col_basis, row_major>>));
INST("det_F77i_rc", 1500, (det<matrix<int, fixed<7, 7>, row_basis, col_major>>));
INST("detint_X55sh_rr", 3000, (det_int<matrix<short, external<5, 5>, row_basis, row_major>>));
