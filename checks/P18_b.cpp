// P18: alignment and look-at.  Generated by tools/gen_P18.py
#include "boxes.h"
#include "P18_common.h"

INST("ortho3_fixed3_dynamic_1", 2000, (ortho3<vector<float, fixed<3>>, vector<float, dynamic<>>, vector<float, dynamic<>>, vector<float, dynamic<>>, vector<float, external<>>>));
INST("ortho2_dynamic", 3000, (ortho2<vector<float, dynamic<>>, vector<double, external<2>>, vector<double, fixed<2>>>));
INST("ortho3_external_external3_4", 2000, (ortho3<vector<double, external<>>, vector<double, external<3>>, vector<float, dynamic<>>, vector<double, external<3>>, vector<float, fixed<3>>>));
INST("align_external4x4_rbrm_dff", 2000, (align<matrix<double, external<4, 4>, row_basis, row_major>, vector<float, dynamic<>>, vector<float, dynamic<>>>));
INST("align_fixed4x4_cbrm_ddf", 2000, (align<matrix<double, fixed<4, 4>, col_basis, row_major>, vector<double, dynamic<>>, vector<float, external<>>>));
INST("align_dynamic_cbcm_fdf", 2000, (align<matrix<float, dynamic<>, col_basis, col_major>, vector<double, dynamic<>>, vector<float, dynamic<>>>));
INST("align2_external3x3_rbrm_df", 1000, (align2<matrix<double, external<3, 3>, row_basis, row_major>, vector<float, external<2>>>));
INST("align2_fixed3x3_cbrm_df", 1000, (align2<matrix<double, fixed<3, 3>, col_basis, row_major>, vector<float, fixed<2>>>));
INST("align2_dynamic_cbcm_ff", 1000, (align2<matrix<float, dynamic<>, col_basis, col_major>, vector<float, external<2>>>));
INST("look_fixed4x4_rbcm_dff", 3000, (look<matrix<double, fixed<4, 4>, row_basis, col_major>, vector<float, dynamic<>>, vector<float, dynamic<>>, vector<double, external<3>>>));
INST("look_external_cbrm_ddf", 3000, (look<matrix<double, external<>, col_basis, row_major>, vector<double, dynamic<>>, vector<float, external<>>, vector<double, external<3>>>));
INST("qalign_ip_f", 4000, (qalign<quaternion<float, fixed<>, imaginary_first, positive_cross>, vector<float, dynamic<>>, vector<float, external<>>>));
