// P13: comparison, hashing, printing.  Generated by tools/gen_P13.py
#include "boxes.h"
#include <map>
#include "P13_common.h"

INST("rel_F2i_Dd", 3000, (vrel<vector<int, fixed<2>>, vector<double, dynamic<>>>));
INST("rel_c3_F3_f", 5000, (vrel<vector<const float, external<3>>, vector<float, fixed<3>>>));
INST("rel_X2_X4_d", 5000, (vrel<vector<double, external<2>>, vector<double, external<4>>>));
INST("containers_Di", 2500, (containers<vector<int, dynamic<>>>));
INST("hash_F2_F2f", 2500, (hashes<vector<float, fixed<2>>, vector<float, fixed<2>>>));
INST("mrel_F23icr_Dirc", 3000, (mrel<matrix<int, fixed<2, 3>, col_basis, row_major>, matrix<int, dynamic<>, row_basis, col_major>>));
INST("mrel_F23dcr_F32drc", 3000, (mrel<matrix<double, fixed<2, 3>, col_basis, row_major>, matrix<double, fixed<3, 2>, row_basis, col_major>>));
INST("qprint_rd", 2500, (qprint<quaternion<double, fixed<>, cml::real_first, cml::negative_cross>>));
INST("qrel_if", 6000, (qrel<quaternion<float, fixed<>, cml::imaginary_first, cml::positive_cross>, quaternion<float, fixed<>, cml::imaginary_first, cml::positive_cross>>));
INST("vprint_Yd", 2500, (vprint<vector<double, external<>>>));
INST("mprint_F24i", 2500, (mprint<matrix<int, fixed<2, 4>, col_basis, row_major>>));
