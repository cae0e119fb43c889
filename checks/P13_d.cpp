// P13: comparison, hashing, printing.  Generated by tools/gen_P13.py
#include "boxes.h"
#include <map>
#include "P13_common.h"

INST("rel_Df_Di", 3000, (vrel<vector<float, dynamic<>>, vector<int, dynamic<>>>));
INST("rel_Yi_Yf", 3000, (vrel<vector<int, external<>>, vector<float, external<>>>));
INST("rel_F2_F3_i", 5000, (vrel<vector<int, fixed<2>>, vector<int, fixed<3>>>));
INST("containers_F2d", 2500, (containers<vector<double, fixed<2>>>));
INST("hash_D_Yf", 2500, (hashes<vector<float, dynamic<>>, vector<float, external<>>>));
INST("mrel_Dfrc_Dfcr", 3000, (mrel<matrix<float, dynamic<>, row_basis, col_major>, matrix<float, dynamic<>, col_basis, row_major>>));
INST("mrel_X22irc_F22icc", 3000, (mrel<matrix<int, external<2, 2>, row_basis, col_major>, matrix<int, fixed<2, 2>, col_basis, col_major>>));
INST("mrel_F14drc_F14dcc", 3000, (mrel<matrix<double, fixed<1, 4>, row_basis, col_major>, matrix<double, fixed<1, 4>, col_basis, col_major>>));
INST("qrel_id", 6000, (qrel<quaternion<double, fixed<>, cml::imaginary_first, cml::positive_cross>, quaternion<double, fixed<>, cml::imaginary_first, cml::positive_cross>>));
INST("vprint_Df", 2500, (vprint<vector<float, dynamic<>>>));
INST("mprint_F33d", 2500, (mprint<matrix<double, fixed<3, 3>, row_basis, row_major>>));
