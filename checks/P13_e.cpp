// P13: comparison, hashing, printing.  Generated by tools/gen_P13.py
#include "boxes.h"
#include <map>
#include "P13_common.h"

INST("rel_F2_D_i", 5000, (vrel<vector<int, fixed<2>>, vector<int, dynamic<>>>));
INST("rel_Y_D_d", 5000, (vrel<vector<double, external<>>, vector<double, dynamic<>>>));
INST("rel_F2i_F3d", 3000, (vrel<vector<int, fixed<2>>, vector<double, fixed<3>>>));
INST("containers_F3f", 2500, (containers<vector<float, fixed<3>>>));
INST("hash_F4_X4d", 2500, (hashes<vector<double, fixed<4>>, vector<double, external<4>>>));
INST("mrel_F23icr_Ddcc", 5000, (mrel<matrix<int, fixed<2, 3>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, col_major>>));
INST("mrel_F23dcr_F32dcc", 5000, (mrel<matrix<double, fixed<2, 3>, col_basis, row_major>, matrix<double, fixed<3, 2>, col_basis, col_major>>));
INST("qrel_rd", 6000, (qrel<quaternion<double, fixed<>, cml::real_first, cml::positive_cross>, quaternion<double, fixed<>, cml::real_first, cml::positive_cross>>));
INST("qprint_id", 2500, (qprint<quaternion<double, fixed<>, cml::imaginary_first, cml::negative_cross>>));
INST("vprint_X2i", 2500, (vprint<vector<int, external<2>>>));
INST("mprint_Df", 2500, (mprint<matrix<float, dynamic<>, row_basis, col_major>>));
