// P13: comparison, hashing, printing.  Generated by tools/gen_P13.py
#include "boxes.h"
#include <map>
#include "P13_common.h"

INST("rel_Dd_F4i", 3000, (vrel<vector<double, dynamic<>>, vector<int, fixed<4>>>));
INST("rel_D_Y_d", 5000, (vrel<vector<double, dynamic<>>, vector<double, external<>>>));
INST("rel_F1_D_f", 5000, (vrel<vector<float, fixed<1>>, vector<float, dynamic<>>>));
INST("containers_Df", 2500, (containers<vector<float, dynamic<>>>));
INST("hash_X3_Yf", 2500, (hashes<vector<float, external<3>>, vector<float, external<>>>));
INST("mrel_Ddcc_F32drc", 3000, (mrel<matrix<double, dynamic<>, col_basis, col_major>, matrix<double, fixed<3, 2>, row_basis, col_major>>));
INST("mrel_X24fcc_Yfrr", 3000, (mrel<matrix<float, external<2, 4>, col_basis, col_major>, matrix<float, external<>, row_basis, row_major>>));
INST("qprint_rf", 2500, (qprint<quaternion<float, fixed<>, cml::real_first, cml::negative_cross>>));
INST("qrel_i_df", 6000, (qrel<quaternion<double, fixed<>, cml::imaginary_first, cml::positive_cross>, quaternion<float, fixed<>, cml::imaginary_first, cml::negative_cross>>));
INST("vprint_ki", 2500, (vprint<vector<const int, external<>>>));
INST("mprint_X32f", 2500, (mprint<matrix<float, external<3, 2>, row_basis, row_major>>));
