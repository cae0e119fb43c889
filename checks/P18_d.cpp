// P18: alignment and look-at.  Generated by tools/gen_P18.py
#include "boxes.h"
#include "P18_common.h"

INST("ortho3_fixed3_external_3", 2000, (ortho3<vector<float, fixed<3>>, vector<double, external<>>, vector<double, external<>>, vector<float, external<>>, vector<double, external<>>>));
INST("ortho3_external3_dynamic_4", 2000, (ortho3<vector<double, external<3>>, vector<double, dynamic<>>, vector<float, external<>>, vector<double, dynamic<>>, vector<float, dynamic<>>>));
INST("ortho2_external", 3000, (ortho2<vector<float, external<>>, vector<double, fixed<2>>, vector<float, external<2>>>));
INST("align_fixed4x4_rbcm_ddd", 2000, (align<matrix<double, fixed<4, 4>, row_basis, col_major>, vector<double, external<>>, vector<double, dynamic<>>>));
INST("align_dynamic_cbrm_fdd", 2000, (align<matrix<float, dynamic<>, col_basis, row_major>, vector<double, external<>>, vector<double, external<>>>));
INST("align_external4x4_cbcm_dff", 2000, (align<matrix<double, external<4, 4>, col_basis, col_major>, vector<float, external<>>, vector<float, dynamic<>>>));
INST("align2_fixed3x3_rbcm_df", 1000, (align2<matrix<double, fixed<3, 3>, row_basis, col_major>, vector<float, fixed<2>>>));
INST("align2_dynamic_cbrm_ff", 1000, (align2<matrix<float, dynamic<>, col_basis, row_major>, vector<float, external<2>>>));
INST("align2_external3x3_cbcm_df", 1000, (align2<matrix<double, external<3, 3>, col_basis, col_major>, vector<float, fixed<2>>>));
INST("look_dynamic_rbcm_ddd", 3000, (look<matrix<double, dynamic<>, row_basis, col_major>, vector<double, external<>>, vector<double, dynamic<>>, vector<double, fixed<3>>>));
INST("look_fixed4x4_cbcm_fdd", 3000, (look<matrix<float, fixed<4, 4>, col_basis, col_major>, vector<double, external<>>, vector<double, external<>>, vector<double, fixed<3>>>));
INST("qalign_in_f", 4000, (qalign<quaternion<float, fixed<>, imaginary_first, negative_cross>, vector<double, external<3>>, vector<float, fixed<3>>>));
