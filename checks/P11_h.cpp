// P11: determinant, inverse, trace.  Generated by tools/gen_P11.py
#include "boxes.h"
#include "P11_common.h"

INST("inv_F55d_rc", 2400, (inv<matrix<double, fixed<5, 5>, row_basis, col_major>>));
INST("inv_X44d_cr", 2400, (inv<matrix<double, external<4, 4>, col_basis, row_major>>));
INST("inv_X55d_cc", 2400, (inv<matrix<double, external<5, 5>, col_basis, col_major>>));
INST("inv_Yd_rr", 2400, (inv<matrix<double, external<>, row_basis, row_major>>));
INST("exact_F55d_rr", 2000, (exactm<matrix<double, fixed<5, 5>, row_basis, row_major>>));
INST("exact_X44d_rr", 2000, (exactm<matrix<double, external<4, 4>, row_basis, row_major>>));
INST("exact_X55d_rr", 2000, (exactm<matrix<double, external<5, 5>, row_basis, row_major>>));
INST("exact_Yd_rr", 2000, (exactm<matrix<double, external<>, row_basis, row_major>>));
INST("det_Dl_rr", 1500, (det<matrix<long long, dynamic<>, row_basis, row_major>>));
INST("detint_Ysh_cc", 3000, (det_int<matrix<short, external<>, col_basis, col_major>>));
