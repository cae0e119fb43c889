// P11: determinant, inverse, trace.  Generated by tools/gen_P11.py
#include "boxes.h"
#include "P11_common.h"

INST("inv_F22f_cr", 2400, (inv<matrix<float, fixed<2, 2>, col_basis, row_major>>));
INST("inv_Df_cc", 2400, (inv<matrix<float, dynamic<>, col_basis, col_major>>));
INST("inv_F66f_rr", 800, (inv<matrix<float, fixed<6, 6>, row_basis, row_major>>));
INST("inv_F11f_rc", 2400, (inv<matrix<float, fixed<1, 1>, row_basis, col_major>>));
INST("exact_F22f_rc", 2000, (exactm<matrix<float, fixed<2, 2>, row_basis, col_major>>));
INST("exact_Df_rc", 2000, (exactm<matrix<float, dynamic<>, row_basis, col_major>>));
INST("exact_F66f_rc", 2000, (exactm<matrix<float, fixed<6, 6>, row_basis, col_major>>));
INST("exact_F11f_rc", 2000, (exactm<matrix<float, fixed<1, 1>, row_basis, col_major>>));
INST("det_F33i_rc", 3000, (det<matrix<int, fixed<3, 3>, row_basis, col_major>>));
INST("det_Yl_cr", 1500, (det<matrix<long long, external<>, col_basis, row_major>>));
INST("detint_F77un_rc", 3000, (det_int<matrix<unsigned, fixed<7, 7>, row_basis, col_major>>));
