// P11: determinant, inverse, trace.  Generated by tools/gen_P11.py
#include "boxes.h"
#include "P11_common.h"

INST("inv_F33d_cc", 2400, (inv<matrix<double, fixed<3, 3>, col_basis, col_major>>));
INST("inv_Yd_rr", 2400, (inv<matrix<double, external<>, row_basis, row_major>>));
INST("inv_Dd_rc", 2400, (inv<matrix<double, dynamic<>, row_basis, col_major>>));
INST("inv_X22d_cr", 2400, (inv<matrix<double, external<2, 2>, col_basis, row_major>>));
INST("exact_F33d_cr", 2000, (exactm<matrix<double, fixed<3, 3>, col_basis, row_major>>));
INST("exact_Yd_cr", 2000, (exactm<matrix<double, external<>, col_basis, row_major>>));
INST("exact_Dd_cr", 2000, (exactm<matrix<double, dynamic<>, col_basis, row_major>>));
INST("exact_X22d_cr", 2000, (exactm<matrix<double, external<2, 2>, col_basis, row_major>>));
INST("det_Di_cc", 3000, (det<matrix<int, dynamic<>, col_basis, col_major>>));
INST("det_X55l_rr", 1500, (det<matrix<long long, external<5, 5>, row_basis, row_major>>));
INST("detint_Dlo_cc", 3000, (det_int<matrix<long long, dynamic<>, col_basis, col_major>>));
