// P12: LU.  Generated by tools/gen_P12.py
#include "boxes.h"
#include "P12_common.h"

INST("pivot_F22f_cr", 2000, (lu_piv<matrix<float, fixed<2, 2>, col_basis, row_major>>));
INST("lu_F44d_cr", 2000, (lu_plain<matrix<double, fixed<4, 4>, col_basis, row_major>>));
INST("singular_Df_cc", 1000, (singular<matrix<float, dynamic<>, col_basis, col_major>>));
INST("pivot_Yf_cc", 2000, (lu_piv<matrix<float, external<>, col_basis, col_major>>));
INST("lu_F55d_cc", 2000, (lu_plain<matrix<double, fixed<5, 5>, col_basis, col_major>>));
INST("singular_F66f_rr", 1000, (singular<matrix<float, fixed<6, 6>, row_basis, row_major>>));
INST("pivot_Df_rr", 2000, (lu_piv<matrix<float, dynamic<>, row_basis, row_major>>));
INST("lu_X44d_rr", 2000, (lu_plain<matrix<double, external<4, 4>, row_basis, row_major>>));
INST("singular_Yf_rc", 1000, (singular<matrix<float, external<>, row_basis, col_major>>));
INST("singular_Yi_rc", 1000, (singular_int<matrix<int, external<>, row_basis, col_major>>));
INST("solve_Dd_Dd_rc", 3000, (solve<matrix<double, dynamic<>, row_basis, col_major>, vector<double, dynamic<>>>));
INST("solve_F55d_F5d_cr", 3000, (solve<matrix<double, fixed<5, 5>, col_basis, row_major>, vector<double, fixed<5>>>));
INST("solve_Dd_kd_cc", 3000, (solve<matrix<double, dynamic<>, col_basis, col_major>, vector<const double, external<>>>));
INST("solve_F11d_F1d_rr", 3000, (solve<matrix<double, fixed<1, 1>, row_basis, row_major>, vector<double, fixed<1>>>));
