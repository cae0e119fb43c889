// P11: determinant, inverse, trace.  Generated by tools/gen_P11.py
#include "boxes.h"
#include "P11_common.h"

INST("inv_F55f_cc", 2400, (inv<matrix<float, fixed<5, 5>, col_basis, col_major>>));
INST("inv_X44f_rr", 2400, (inv<matrix<float, external<4, 4>, row_basis, row_major>>));
INST("inv_X55f_rc", 2400, (inv<matrix<float, external<5, 5>, row_basis, col_major>>));
INST("inv_Yf_cr", 2400, (inv<matrix<float, external<>, col_basis, row_major>>));
INST("det_F55f_cc", 1600, (det<matrix<float, fixed<5, 5>, col_basis, col_major>>));
INST("det_X44f_rr", 1600, (det<matrix<float, external<4, 4>, row_basis, row_major>>));
INST("det_X55f_rc", 1600, (det<matrix<float, external<5, 5>, row_basis, col_major>>));
INST("det_Yf_cr", 1200, (det<matrix<float, external<>, col_basis, row_major>>));
INST("det_F55i_rc", 1500, (det<matrix<int, fixed<5, 5>, row_basis, col_major>>));
INST("detint_F66lo_rr", 3000, (det_int<matrix<long long, fixed<6, 6>, row_basis, row_major>>));
