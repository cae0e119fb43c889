// P11: determinant, inverse, trace.  Generated by tools/gen_P11.py
#include "boxes.h"
#include "P11_common.h"

INST("inv_F22d_rr", 2400, (inv<matrix<double, fixed<2, 2>, row_basis, row_major>>));
INST("inv_Dd_rc", 2400, (inv<matrix<double, dynamic<>, row_basis, col_major>>));
INST("inv_F66d_cr", 800, (inv<matrix<double, fixed<6, 6>, col_basis, row_major>>));
INST("inv_F11d_cc", 2400, (inv<matrix<double, fixed<1, 1>, col_basis, col_major>>));
INST("det_F22d_rr", 1600, (det<matrix<double, fixed<2, 2>, row_basis, row_major>>));
INST("det_Dd_rc", 1200, (det<matrix<double, dynamic<>, row_basis, col_major>>));
INST("det_F66d_cr", 400, (det<matrix<double, fixed<6, 6>, col_basis, row_major>>));
INST("det_F11d_cc", 1600, (det<matrix<double, fixed<1, 1>, col_basis, col_major>>));
INST("det_F22i_rr", 3000, (det<matrix<int, fixed<2, 2>, row_basis, row_major>>));
INST("det_F66l_cc", 1500, (det<matrix<long long, fixed<6, 6>, col_basis, col_major>>));
INST("detint_Dun_cr", 3000, (det_int<matrix<unsigned, dynamic<>, col_basis, row_major>>));
