// P13: comparison, hashing, printing.  Generated by tools/gen_P13.py
#include "boxes.h"
#include <map>
#include "P13_common.h"

INST("rel_D_D_f", 5000, (vrel<vector<float, dynamic<>>, vector<float, dynamic<>>>));
INST("rel_Y_Y_i", 5000, (vrel<vector<int, external<>>, vector<int, external<>>>));
INST("rel_F4f_X4i", 3000, (vrel<vector<float, fixed<4>>, vector<int, external<4>>>));
INST("rel_ki_Yf", 3000, (vrel<vector<const int, external<>>, vector<float, external<>>>));
INST("hash_F3_Dd", 2500, (hashes<vector<double, fixed<3>>, vector<double, dynamic<>>>));
INST("mrel_Dfrc_Dfrr", 5000, (mrel<matrix<float, dynamic<>, row_basis, col_major>, matrix<float, dynamic<>, row_basis, row_major>>));
INST("mrel_X22irc_F22frc", 5000, (mrel<matrix<int, external<2, 2>, row_basis, col_major>, matrix<float, fixed<2, 2>, row_basis, col_major>>));
INST("mrel_F14drc_F14frc", 5000, (mrel<matrix<double, fixed<1, 4>, row_basis, col_major>, matrix<float, fixed<1, 4>, row_basis, col_major>>));
INST("qrel_r_ii", 3000, (qrel<quaternion<int, fixed<>, cml::real_first, cml::negative_cross>, quaternion<int, fixed<>, cml::real_first, cml::negative_cross>>));
INST("vprint_F3d", 2500, (vprint<vector<double, fixed<3>>>));
INST("vprint_Di", 2500, (vprint<vector<int, dynamic<>>>));
INST("mprint_Df", 2500, (mprint<matrix<float, dynamic<>, col_basis, col_major>>));
