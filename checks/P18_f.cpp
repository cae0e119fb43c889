// P18: alignment and look-at.  Generated by tools/gen_P18.py
#include "boxes.h"
#include "P18_common.h"

INST("ortho3_dynamic_fixed3_4", 2000, (ortho3<vector<double, dynamic<>>, vector<double, fixed<3>>, vector<float, dynamic<>>, vector<double, fixed<3>>, vector<float, external<3>>>));
INST("ortho3_external3_external_1", 2000, (ortho3<vector<float, external<3>>, vector<float, external<>>, vector<float, dynamic<>>, vector<float, external<>>, vector<float, dynamic<>>>));
INST("align_fixed4x4_rbrm_ddd", 2000, (align<matrix<double, fixed<4, 4>, row_basis, row_major>, vector<double, dynamic<>>, vector<double, fixed<3>>>));
INST("align_dynamic_rbcm_fdd", 2000, (align<matrix<float, dynamic<>, row_basis, col_major>, vector<double, dynamic<>>, vector<double, external<3>>>));
INST("align_external4x4_cbrm_dfd", 2000, (align<matrix<double, external<4, 4>, col_basis, row_major>, vector<float, dynamic<>>, vector<double, fixed<3>>>));
INST("align2_fixed3x3_rbrm_df", 1000, (align2<matrix<double, fixed<3, 3>, row_basis, row_major>, vector<float, dynamic<>>>));
INST("align2_dynamic_rbcm_ff", 1000, (align2<matrix<float, dynamic<>, row_basis, col_major>, vector<float, external<>>>));
INST("align2_external3x3_cbrm_df", 1000, (align2<matrix<double, external<3, 3>, col_basis, row_major>, vector<float, dynamic<>>>));
INST("look_fixed4x3_rbrm_ddd", 3000, (look<matrix<double, fixed<4, 3>, row_basis, row_major>, vector<double, dynamic<>>, vector<double, fixed<3>>, vector<double, external<3>>>));
INST("look_external4x4_rbcm_fdd", 3000, (look<matrix<float, external<4, 4>, row_basis, col_major>, vector<double, dynamic<>>, vector<double, external<3>>, vector<double, external<3>>>));
INST("look_dynamic_cbcm_dfd", 3000, (look<matrix<double, dynamic<>, col_basis, col_major>, vector<float, dynamic<>>, vector<double, fixed<3>>, vector<double, external<3>>>));
INST("qalign_rp_f", 4000, (qalign<quaternion<float, fixed<>, real_first, positive_cross>, vector<float, external<>>, vector<float, dynamic<>>>));
