// P12: LU.  Generated by tools/gen_P12.py
#include "boxes.h"
#include "P12_common.h"

INST("lu_F22d_rr", 2000, (lu_plain<matrix<double, fixed<2, 2>, row_basis, row_major>>));
INST("singular_F33f_rc", 1000, (singular<matrix<float, fixed<3, 3>, row_basis, col_major>>));
INST("pivot_F44f_rr", 2000, (lu_piv<matrix<float, fixed<4, 4>, row_basis, row_major>>));
INST("lu_Yd_rc", 2000, (lu_plain<matrix<double, external<>, row_basis, col_major>>));
INST("singular_X33f_cr", 1000, (singular<matrix<float, external<3, 3>, col_basis, row_major>>));
INST("pivot_F55f_rc", 2000, (lu_piv<matrix<float, fixed<5, 5>, row_basis, col_major>>));
INST("lu_Dd_cr", 2000, (lu_plain<matrix<double, dynamic<>, col_basis, row_major>>));
INST("singular_F11f_cc", 1000, (singular<matrix<float, fixed<1, 1>, col_basis, col_major>>));
INST("pivot_X44f_cr", 2000, (lu_piv<matrix<float, external<4, 4>, col_basis, row_major>>));
INST("singular_F33i_rc", 1000, (singular_int<matrix<int, fixed<3, 3>, row_basis, col_major>>));
INST("solve_F33d_F3f_cc", 3000, (solve<matrix<double, fixed<3, 3>, col_basis, col_major>, vector<float, fixed<3>>>));
INST("solve_Yd_Yf_rr", 3000, (solve<matrix<double, external<>, row_basis, row_major>, vector<float, external<>>>));
INST("solve_Yd_X4f_rc", 3000, (solve<matrix<double, external<>, row_basis, col_major>, vector<float, external<4>>>));
INST("solve_X44d_F4f_cr", 3000, (solve<matrix<double, external<4, 4>, col_basis, row_major>, vector<float, fixed<4>>>));
