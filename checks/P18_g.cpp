// P18: alignment and look-at.  Generated by tools/gen_P18.py
#include "boxes.h"
#include "P18_common.h"

INST("ortho3_dynamic_dynamic_0", 2000, (ortho3<vector<double, dynamic<>>, vector<double, dynamic<>>, vector<double, external<3>>, vector<double, dynamic<>>, vector<double, fixed<3>>>));
INST("ortho2_external2", 3000, (ortho2<vector<double, external<2>>, vector<double, external<>>, vector<float, dynamic<>>>));
INST("align_fixed4x3_rbrm_ddd", 2000, (align<matrix<double, fixed<4, 3>, row_basis, row_major>, vector<double, external<3>>, vector<double, fixed<3>>>));
INST("align_external_rbcm_dfd", 2000, (align<matrix<double, external<>, row_basis, col_major>, vector<float, external<3>>, vector<double, external<3>>>));
INST("align_fixed3x3_cbcm_fdd", 2000, (align<matrix<float, fixed<3, 3>, col_basis, col_major>, vector<double, external<3>>, vector<double, fixed<3>>>));
INST("align2_fixed3x2_rbrm_dd", 1000, (align2<matrix<double, fixed<3, 2>, row_basis, row_major>, vector<double, external<2>>>));
INST("align2_external_rbcm_dd", 1000, (align2<matrix<double, external<>, row_basis, col_major>, vector<double, fixed<2>>>));
INST("align2_fixed2x2_cbcm_fd", 1000, (align2<matrix<float, fixed<2, 2>, col_basis, col_major>, vector<double, external<2>>>));
INST("look_dynamic_rbrm_ddd", 3000, (look<matrix<double, dynamic<>, row_basis, row_major>, vector<double, external<3>>, vector<double, fixed<3>>, vector<double, external<>>>));
INST("look_fixed4x4_cbrm_dfd", 3000, (look<matrix<double, fixed<4, 4>, col_basis, row_major>, vector<float, external<3>>, vector<double, external<3>>, vector<double, external<>>>));
INST("look_external_cbcm_fdd", 3000, (look<matrix<float, external<>, col_basis, col_major>, vector<double, external<3>>, vector<double, fixed<3>>, vector<double, external<>>>));
INST("qalign_rn_d", 4000, (qalign<quaternion<double, fixed<>, real_first, negative_cross>, vector<float, external<>>, vector<double, fixed<3>>>));
