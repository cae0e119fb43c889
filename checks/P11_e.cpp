// P11: determinant, inverse, trace.  Generated by tools/gen_P11.py
#include "boxes.h"
#include "P11_common.h"

INST("inv_F44d_cr", 2400, (inv<matrix<double, fixed<4, 4>, col_basis, row_major>>));
INST("inv_X33d_cc", 2400, (inv<matrix<double, external<3, 3>, col_basis, col_major>>));
INST("inv_F77d_rr", 800, (inv<matrix<double, fixed<7, 7>, row_basis, row_major>>));
INST("inv_Dd_rc", 2400, (inv<matrix<double, dynamic<>, row_basis, col_major>>));
INST("det_F44d_cr", 1600, (det<matrix<double, fixed<4, 4>, col_basis, row_major>>));
INST("det_X33d_cc", 1600, (det<matrix<double, external<3, 3>, col_basis, col_major>>));
INST("det_F77d_rr", 400, (det<matrix<double, fixed<7, 7>, row_basis, row_major>>));
INST("det_Dd_rc", 1200, (det<matrix<double, dynamic<>, row_basis, col_major>>));
INST("det_Yi_rr", 3000, (det<matrix<int, external<>, row_basis, row_major>>));
INST("detint_F55in_cr", 3000, (det_int<matrix<int, fixed<5, 5>, col_basis, row_major>>));
INST("reject_D", 2000, (reject<matrix<double, dynamic<>, row_basis, row_major>>));
