// P12: LU.  Generated by tools/gen_P12.py
#include "boxes.h"
#include "P12_common.h"

INST("singular_F22f_cr", 1000, (singular<matrix<float, fixed<2, 2>, col_basis, row_major>>));
INST("pivot_F44d_cr", 2000, (lu_piv<matrix<double, fixed<4, 4>, col_basis, row_major>>));
INST("lu_Dd_rc", 2000, (lu_plain<matrix<double, dynamic<>, row_basis, col_major>>));
INST("singular_Yf_cc", 1000, (singular<matrix<float, external<>, col_basis, col_major>>));
INST("pivot_F55d_cc", 2000, (lu_piv<matrix<double, fixed<5, 5>, col_basis, col_major>>));
INST("lu_F66d_cr", 2000, (lu_plain<matrix<double, fixed<6, 6>, col_basis, row_major>>));
INST("singular_Df_rr", 1000, (singular<matrix<float, dynamic<>, row_basis, row_major>>));
INST("pivot_X44d_rr", 2000, (lu_piv<matrix<double, external<4, 4>, row_basis, row_major>>));
INST("lu_Yd_cc", 2000, (lu_plain<matrix<double, external<>, col_basis, col_major>>));
INST("solve_F22d_F2d_rr", 3000, (solve<matrix<double, fixed<2, 2>, row_basis, row_major>, vector<double, fixed<2>>>));
INST("solve_Dd_F3d_rc", 3000, (solve<matrix<double, dynamic<>, row_basis, col_major>, vector<double, fixed<3>>>));
INST("solve_Dd_Yd_cr", 3000, (solve<matrix<double, dynamic<>, col_basis, row_major>, vector<double, external<>>>));
INST("solve_F66d_Yd_cc", 3000, (solve<matrix<double, fixed<6, 6>, col_basis, col_major>, vector<double, external<>>>));
INST("empty_D", 20, (empty<matrix<double, dynamic<>, row_basis, row_major>>));
