// P18: alignment and look-at.  Generated by tools/gen_P18.py
#include "boxes.h"
#include "P18_common.h"

INST("ortho3_fixed3_external3_2", 2000, (ortho3<vector<double, fixed<3>>, vector<float, external<3>>, vector<double, external<3>>, vector<double, external<3>>, vector<double, dynamic<>>>));
INST("ortho3_external3_fixed3_3", 2000, (ortho3<vector<float, external<3>>, vector<double, fixed<3>>, vector<double, external<3>>, vector<float, fixed<3>>, vector<double, external<>>>));
INST("ortho3_external_external_0", 2000, (ortho3<vector<double, external<>>, vector<double, external<>>, vector<double, external<3>>, vector<double, external<>>, vector<double, external<3>>>));
INST("align_fixed3x3_rbcm_fdd", 2000, (align<matrix<float, fixed<3, 3>, row_basis, col_major>, vector<double, external<3>>, vector<double, dynamic<>>>));
INST("align_fixed3x4_cbrm_ddf", 2000, (align<matrix<double, fixed<3, 4>, col_basis, row_major>, vector<double, external<3>>, vector<float, external<>>>));
INST("align_external_cbcm_dff", 2000, (align<matrix<double, external<>, col_basis, col_major>, vector<float, external<3>>, vector<float, dynamic<>>>));
INST("align2_fixed2x2_rbcm_fd", 1000, (align2<matrix<float, fixed<2, 2>, row_basis, col_major>, vector<double, external<>>>));
INST("align2_fixed2x3_cbrm_dd", 1000, (align2<matrix<double, fixed<2, 3>, col_basis, row_major>, vector<double, dynamic<>>>));
INST("align2_external_cbcm_dd", 1000, (align2<matrix<double, external<>, col_basis, col_major>, vector<double, external<>>>));
INST("look_fixed4x3_rbcm_fdd", 3000, (look<matrix<float, fixed<4, 3>, row_basis, col_major>, vector<double, external<3>>, vector<double, dynamic<>>, vector<double, external<>>>));
INST("look_external4x4_cbrm_ddf", 3000, (look<matrix<double, external<4, 4>, col_basis, row_major>, vector<double, external<3>>, vector<float, external<>>, vector<double, external<>>>));
INST("qalign_in_d", 4000, (qalign<quaternion<double, fixed<>, imaginary_first, negative_cross>, vector<float, dynamic<>>, vector<double, external<3>>>));
