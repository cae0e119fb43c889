// P11: determinant, inverse, trace.  Generated by tools/gen_P11.py
#include "boxes.h"
#include "P11_common.h"

INST("inv_F44f_rr", 2400, (inv<matrix<float, fixed<4, 4>, row_basis, row_major>>));
INST("inv_X33f_rc", 2400, (inv<matrix<float, external<3, 3>, row_basis, col_major>>));
INST("inv_F77f_cr", 800, (inv<matrix<float, fixed<7, 7>, col_basis, row_major>>));
INST("inv_Df_cc", 2400, (inv<matrix<float, dynamic<>, col_basis, col_major>>));
INST("exact_F44f_cc", 2000, (exactm<matrix<float, fixed<4, 4>, col_basis, col_major>>));
INST("exact_X33f_cc", 2000, (exactm<matrix<float, external<3, 3>, col_basis, col_major>>));
INST("exact_F77f_cc", 2000, (exactm<matrix<float, fixed<7, 7>, col_basis, col_major>>));
INST("exact_Df_cc", 2000, (exactm<matrix<float, dynamic<>, col_basis, col_major>>));
INST("det_X33i_rc", 3000, (det<matrix<int, external<3, 3>, row_basis, col_major>>));
INST("detint_Din_rc", 3000, (det_int<matrix<int, dynamic<>, row_basis, col_major>>));
INST("reject_Y", 2000, (reject<matrix<double, external<>, row_basis, col_major>>));
