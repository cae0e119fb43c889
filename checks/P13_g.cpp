// P13: comparison, hashing, printing.  Generated by tools/gen_P13.py
#include "boxes.h"
#include <map>
#include "P13_common.h"

INST("rel_D_F4_d", 5000, (vrel<vector<double, dynamic<>>, vector<double, fixed<4>>>));
INST("rel_k_D_i", 5000, (vrel<vector<const int, external<>>, vector<int, dynamic<>>>));
INST("rel_X2d_X4i", 3000, (vrel<vector<double, external<2>>, vector<int, external<4>>>));
INST("containers_F4d", 2500, (containers<vector<double, fixed<4>>>));
INST("hash_D_Dd", 2500, (hashes<vector<double, dynamic<>>, vector<double, dynamic<>>>));
INST("mrel_Ddcc_F32fcc", 5000, (mrel<matrix<double, dynamic<>, col_basis, col_major>, matrix<float, fixed<3, 2>, col_basis, col_major>>));
INST("mrel_X24fcc_Yfcr", 5000, (mrel<matrix<float, external<2, 4>, col_basis, col_major>, matrix<float, external<>, col_basis, row_major>>));
INST("qrel_rf", 6000, (qrel<quaternion<float, fixed<>, cml::real_first, cml::positive_cross>, quaternion<float, fixed<>, cml::real_first, cml::positive_cross>>));
INST("qprint_if", 2500, (qprint<quaternion<float, fixed<>, cml::imaginary_first, cml::negative_cross>>));
INST("vprint_c4f", 2500, (vprint<vector<const float, external<4>>>));
INST("mprint_Yd", 2500, (mprint<matrix<double, external<>, col_basis, col_major>>));
