// P12: LU.  Generated by tools/gen_P12.py
#include "boxes.h"
#include "P12_common.h"

INST("lu_F33f_rc", 2000, (lu_plain<matrix<float, fixed<3, 3>, row_basis, col_major>>));
INST("singular_F44d_cr", 1000, (singular<matrix<double, fixed<4, 4>, col_basis, row_major>>));
INST("pivot_Dd_rc", 2000, (lu_piv<matrix<double, dynamic<>, row_basis, col_major>>));
INST("lu_X33f_cr", 2000, (lu_plain<matrix<float, external<3, 3>, col_basis, row_major>>));
INST("singular_F55d_cc", 1000, (singular<matrix<double, fixed<5, 5>, col_basis, col_major>>));
INST("pivot_F66d_cr", 2000, (lu_piv<matrix<double, fixed<6, 6>, col_basis, row_major>>));
INST("lu_F11f_cc", 2000, (lu_plain<matrix<float, fixed<1, 1>, col_basis, col_major>>));
INST("singular_X44d_rr", 1000, (singular<matrix<double, external<4, 4>, row_basis, row_major>>));
INST("pivot_Yd_cc", 2000, (lu_piv<matrix<double, external<>, col_basis, col_major>>));
INST("solve_F22f_F2f_cr", 3000, (solve<matrix<float, fixed<2, 2>, col_basis, row_major>, vector<float, fixed<2>>>));
INST("solve_Df_F3f_cc", 3000, (solve<matrix<float, dynamic<>, col_basis, col_major>, vector<float, fixed<3>>>));
INST("solve_Df_Yf_rr", 3000, (solve<matrix<float, dynamic<>, row_basis, row_major>, vector<float, external<>>>));
INST("solve_F66f_Yf_rc", 3000, (solve<matrix<float, fixed<6, 6>, row_basis, col_major>, vector<float, external<>>>));
INST("empty_Y", 20, (empty<matrix<double, external<>, row_basis, col_major>>));
