// P12: LU.  Generated by tools/gen_P12.py
#include "boxes.h"
#include "P12_common.h"

INST("lu_F22f_cr", 2000, (lu_plain<matrix<float, fixed<2, 2>, col_basis, row_major>>));
INST("singular_F33d_cc", 1000, (singular<matrix<double, fixed<3, 3>, col_basis, col_major>>));
INST("pivot_Df_cc", 2000, (lu_piv<matrix<float, dynamic<>, col_basis, col_major>>));
INST("lu_Yf_cc", 2000, (lu_plain<matrix<float, external<>, col_basis, col_major>>));
INST("singular_X33d_rr", 1000, (singular<matrix<double, external<3, 3>, row_basis, row_major>>));
INST("pivot_F66f_rr", 2000, (lu_piv<matrix<float, fixed<6, 6>, row_basis, row_major>>));
INST("lu_Df_rr", 2000, (lu_plain<matrix<float, dynamic<>, row_basis, row_major>>));
INST("singular_F11d_rc", 1000, (singular<matrix<double, fixed<1, 1>, row_basis, col_major>>));
INST("pivot_Yf_rc", 2000, (lu_piv<matrix<float, external<>, row_basis, col_major>>));
INST("singular_F55l_rr", 1000, (singular_int<matrix<long long, fixed<5, 5>, row_basis, row_major>>));
INST("solve_Df_Df_cc", 3000, (solve<matrix<float, dynamic<>, col_basis, col_major>, vector<float, dynamic<>>>));
INST("solve_F55f_F5f_rr", 3000, (solve<matrix<float, fixed<5, 5>, row_basis, row_major>, vector<float, fixed<5>>>));
INST("solve_Df_kf_rc", 3000, (solve<matrix<float, dynamic<>, row_basis, col_major>, vector<const float, external<>>>));
INST("solve_F11f_F1f_cr", 3000, (solve<matrix<float, fixed<1, 1>, col_basis, row_major>, vector<float, fixed<1>>>));
