// P18: alignment and look-at.  Generated by tools/gen_P18.py
#include "boxes.h"
#include "P18_common.h"

INST("ortho2_fixed2", 3000, (ortho2<vector<double, fixed<2>>, vector<double, dynamic<>>, vector<double, external<>>>));
INST("ortho3_external3_external3_0", 2000, (ortho3<vector<double, external<3>>, vector<double, external<3>>, vector<double, fixed<3>>, vector<double, external<3>>, vector<double, external<>>>));
INST("align_fixed3x3_rbrm_fdd", 2000, (align<matrix<float, fixed<3, 3>, row_basis, row_major>, vector<double, fixed<3>>, vector<double, fixed<3>>>));
INST("align_fixed4x3_rbcm_ddd", 2000, (align<matrix<double, fixed<4, 3>, row_basis, col_major>, vector<double, fixed<3>>, vector<double, external<3>>>));
INST("align_external_cbrm_dfd", 2000, (align<matrix<double, external<>, col_basis, row_major>, vector<float, fixed<3>>, vector<double, fixed<3>>>));
INST("align2_fixed2x2_rbrm_fd", 1000, (align2<matrix<float, fixed<2, 2>, row_basis, row_major>, vector<double, fixed<2>>>));
INST("align2_fixed3x2_rbcm_dd", 1000, (align2<matrix<double, fixed<3, 2>, row_basis, col_major>, vector<double, external<2>>>));
INST("align2_external_cbrm_dd", 1000, (align2<matrix<double, external<>, col_basis, row_major>, vector<double, fixed<2>>>));
INST("look_fixed4x4_rbrm_fdd", 3000, (look<matrix<float, fixed<4, 4>, row_basis, row_major>, vector<double, fixed<3>>, vector<double, fixed<3>>, vector<double, dynamic<>>>));
INST("look_external_rbcm_ddd", 3000, (look<matrix<double, external<>, row_basis, col_major>, vector<double, fixed<3>>, vector<double, external<3>>, vector<double, dynamic<>>>));
INST("look_fixed3x4_cbcm_dfd", 3000, (look<matrix<double, fixed<3, 4>, col_basis, col_major>, vector<float, fixed<3>>, vector<double, fixed<3>>, vector<double, dynamic<>>>));
INST("qalign_rp_d", 4000, (qalign<quaternion<double, fixed<>, real_first, positive_cross>, vector<double, external<3>>, vector<double, external<>>>));
