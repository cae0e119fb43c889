// P12: LU.  Generated by tools/gen_P12.py
#include "boxes.h"
#include "P12_common.h"

INST("pivot_F33f_rc", 2000, (lu_piv<matrix<float, fixed<3, 3>, row_basis, col_major>>));
INST("lu_F44f_rr", 2000, (lu_plain<matrix<float, fixed<4, 4>, row_basis, row_major>>));
INST("singular_Dd_rc", 1000, (singular<matrix<double, dynamic<>, row_basis, col_major>>));
INST("pivot_X33f_cr", 2000, (lu_piv<matrix<float, external<3, 3>, col_basis, row_major>>));
INST("lu_F55f_rc", 2000, (lu_plain<matrix<float, fixed<5, 5>, row_basis, col_major>>));
INST("singular_F66d_cr", 1000, (singular<matrix<double, fixed<6, 6>, col_basis, row_major>>));
INST("pivot_F11f_cc", 2000, (lu_piv<matrix<float, fixed<1, 1>, col_basis, col_major>>));
INST("lu_X44f_cr", 2000, (lu_plain<matrix<float, external<4, 4>, col_basis, row_major>>));
INST("singular_Yd_cc", 1000, (singular<matrix<double, external<>, col_basis, col_major>>));
INST("solve_F33f_F3d_rc", 3000, (solve<matrix<float, fixed<3, 3>, row_basis, col_major>, vector<double, fixed<3>>>));
INST("solve_Yf_Yd_cr", 3000, (solve<matrix<float, external<>, col_basis, row_major>, vector<double, external<>>>));
INST("solve_Yf_X4d_cc", 3000, (solve<matrix<float, external<>, col_basis, col_major>, vector<double, external<4>>>));
INST("solve_X44f_F4d_rr", 3000, (solve<matrix<float, external<4, 4>, row_basis, row_major>, vector<double, fixed<4>>>));
