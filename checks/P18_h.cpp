// P18: alignment and look-at.  Generated by tools/gen_P18.py
#include "boxes.h"
#include "P18_common.h"

INST("ortho3_dynamic_external3_1", 2000, (ortho3<vector<float, dynamic<>>, vector<float, external<3>>, vector<float, external<>>, vector<float, external<3>>, vector<float, external<3>>>));
INST("ortho3_external_fixed3_2", 2000, (ortho3<vector<double, external<>>, vector<float, fixed<3>>, vector<double, external<>>, vector<double, fixed<3>>, vector<double, fixed<3>>>));
INST("align_dynamic_rbrm_fdf", 2000, (align<matrix<float, dynamic<>, row_basis, row_major>, vector<double, external<>>, vector<float, fixed<3>>>));
INST("align_external4x4_rbcm_dfd", 2000, (align<matrix<double, external<4, 4>, row_basis, col_major>, vector<float, external<>>, vector<double, external<3>>>));
INST("align_fixed4x4_cbcm_ddd", 2000, (align<matrix<double, fixed<4, 4>, col_basis, col_major>, vector<double, external<>>, vector<double, fixed<3>>>));
INST("align2_dynamic_rbrm_ff", 1000, (align2<matrix<float, dynamic<>, row_basis, row_major>, vector<float, external<>>>));
INST("align2_external3x3_rbcm_df", 1000, (align2<matrix<double, external<3, 3>, row_basis, col_major>, vector<float, dynamic<>>>));
INST("align2_fixed3x3_cbcm_df", 1000, (align2<matrix<double, fixed<3, 3>, col_basis, col_major>, vector<float, external<>>>));
INST("look_external_rbrm_fdf", 3000, (look<matrix<float, external<>, row_basis, row_major>, vector<double, external<>>, vector<float, fixed<3>>, vector<double, fixed<3>>>));
INST("look_fixed3x4_cbrm_dfd", 3000, (look<matrix<double, fixed<3, 4>, col_basis, row_major>, vector<float, external<>>, vector<double, external<3>>, vector<double, fixed<3>>>));
INST("look_external4x4_cbcm_ddd", 3000, (look<matrix<double, external<4, 4>, col_basis, col_major>, vector<double, external<>>, vector<double, fixed<3>>, vector<double, fixed<3>>>));
INST("qalign_rn_f", 4000, (qalign<quaternion<float, fixed<>, real_first, negative_cross>, vector<double, fixed<3>>, vector<float, external<3>>>));
