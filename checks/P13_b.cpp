// P13: comparison, hashing, printing.  Generated by tools/gen_P13.py
#include "boxes.h"
#include <map>
#include "P13_common.h"

INST("rel_F3d_F3f", 3000, (vrel<vector<double, fixed<3>>, vector<float, fixed<3>>>));
INST("rel_X3f_F3d", 3000, (vrel<vector<float, external<3>>, vector<double, fixed<3>>>));
INST("rel_F4_X4_f", 5000, (vrel<vector<float, fixed<4>>, vector<float, external<4>>>));
INST("rel_k_Y_i", 5000, (vrel<vector<const int, external<>>, vector<int, external<>>>));
INST("containers_F3u", 2500, (containers<vector<unsigned, fixed<3>>>));
INST("mrel_F33drr_F33dcc", 3000, (mrel<matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, col_basis, col_major>>));
INST("mrel_Yfrr_Dfcr", 3000, (mrel<matrix<float, external<>, row_basis, row_major>, matrix<float, dynamic<>, col_basis, row_major>>));
INST("mrel_Dirr_Yicc", 3000, (mrel<matrix<int, dynamic<>, row_basis, row_major>, matrix<int, external<>, col_basis, col_major>>));
INST("qrel_r_id", 6000, (qrel<quaternion<int, fixed<>, cml::real_first, cml::negative_cross>, quaternion<double, fixed<>, cml::real_first, cml::positive_cross>>));
INST("qrel_i_ii", 3000, (qrel<quaternion<int, fixed<>, cml::imaginary_first, cml::negative_cross>, quaternion<int, fixed<>, cml::imaginary_first, cml::negative_cross>>));
INST("vprint_Df", 2500, (vprint<vector<float, dynamic<>>>));
INST("mprint_F11d", 2500, (mprint<matrix<double, fixed<1, 1>, col_basis, row_major>>));
