// P12: LU.  Generated by tools/gen_P12.py
#include "boxes.h"
#include "P12_common.h"

INST("pivot_F22d_rr", 2000, (lu_piv<matrix<double, fixed<2, 2>, row_basis, row_major>>));
INST("lu_F33d_cc", 2000, (lu_plain<matrix<double, fixed<3, 3>, col_basis, col_major>>));
INST("singular_F44f_rr", 1000, (singular<matrix<float, fixed<4, 4>, row_basis, row_major>>));
INST("pivot_Yd_rc", 2000, (lu_piv<matrix<double, external<>, row_basis, col_major>>));
INST("lu_X33d_rr", 2000, (lu_plain<matrix<double, external<3, 3>, row_basis, row_major>>));
INST("singular_F55f_rc", 1000, (singular<matrix<float, fixed<5, 5>, row_basis, col_major>>));
INST("pivot_Dd_cr", 2000, (lu_piv<matrix<double, dynamic<>, col_basis, row_major>>));
INST("lu_F11d_rc", 2000, (lu_plain<matrix<double, fixed<1, 1>, row_basis, col_major>>));
INST("singular_X44f_cr", 1000, (singular<matrix<float, external<4, 4>, col_basis, row_major>>));
INST("singular_Di_cr", 1000, (singular_int<matrix<int, dynamic<>, col_basis, row_major>>));
INST("solve_F44d_Df_cr", 3000, (solve<matrix<double, fixed<4, 4>, col_basis, row_major>, vector<float, dynamic<>>>));
INST("solve_X33d_X3f_cc", 3000, (solve<matrix<double, external<3, 3>, col_basis, col_major>, vector<float, external<3>>>));
INST("solve_F33d_c3f_rr", 3000, (solve<matrix<double, fixed<3, 3>, row_basis, row_major>, vector<const float, external<3>>>));
INST("solve_Dd_Df_rc", 3000, (solve<matrix<double, dynamic<>, row_basis, col_major>, vector<float, dynamic<>>>));
