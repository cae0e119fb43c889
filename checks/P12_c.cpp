// P12: LU.  Generated by tools/gen_P12.py
#include "boxes.h"
#include "P12_common.h"

INST("singular_F22d_rr", 1000, (singular<matrix<double, fixed<2, 2>, row_basis, row_major>>));
INST("pivot_F33d_cc", 2000, (lu_piv<matrix<double, fixed<3, 3>, col_basis, col_major>>));
INST("lu_Df_cc", 2000, (lu_plain<matrix<float, dynamic<>, col_basis, col_major>>));
INST("singular_Yd_rc", 1000, (singular<matrix<double, external<>, row_basis, col_major>>));
INST("pivot_X33d_rr", 2000, (lu_piv<matrix<double, external<3, 3>, row_basis, row_major>>));
INST("lu_F66f_rr", 2000, (lu_plain<matrix<float, fixed<6, 6>, row_basis, row_major>>));
INST("singular_Dd_cr", 1000, (singular<matrix<double, dynamic<>, col_basis, row_major>>));
INST("pivot_F11d_rc", 2000, (lu_piv<matrix<double, fixed<1, 1>, row_basis, col_major>>));
INST("lu_Yf_rc", 2000, (lu_plain<matrix<float, external<>, row_basis, col_major>>));
INST("singular_Dl_cc", 1000, (singular_int<matrix<long long, dynamic<>, col_basis, col_major>>));
INST("solve_F44f_Dd_rr", 3000, (solve<matrix<float, fixed<4, 4>, row_basis, row_major>, vector<double, dynamic<>>>));
INST("solve_X33f_X3d_rc", 3000, (solve<matrix<float, external<3, 3>, row_basis, col_major>, vector<double, external<3>>>));
INST("solve_F33f_c3d_cr", 3000, (solve<matrix<float, fixed<3, 3>, col_basis, row_major>, vector<const double, external<3>>>));
INST("solve_Df_Dd_cc", 3000, (solve<matrix<float, dynamic<>, col_basis, col_major>, vector<double, dynamic<>>>));
