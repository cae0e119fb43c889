// P18: alignment and look-at.  Generated by tools/gen_P18.py
#include "boxes.h"
#include "P18_common.h"

INST("ortho3_fixed3_fixed3_0", 2000, (ortho3<vector<double, fixed<3>>, vector<double, fixed<3>>, vector<double, fixed<3>>, vector<double, fixed<3>>, vector<double, dynamic<>>>));
INST("ortho3_dynamic_external_2", 2000, (ortho3<vector<double, dynamic<>>, vector<float, external<>>, vector<double, fixed<3>>, vector<double, external<>>, vector<double, fixed<3>>>));
INST("ortho3_external_dynamic_3", 2000, (ortho3<vector<float, external<>>, vector<double, dynamic<>>, vector<double, fixed<3>>, vector<float, dynamic<>>, vector<double, external<3>>>));
INST("align_external_rbrm_dff", 2000, (align<matrix<double, external<>, row_basis, row_major>, vector<float, fixed<3>>, vector<float, dynamic<>>>));
INST("align_fixed3x3_cbrm_fdf", 2000, (align<matrix<float, fixed<3, 3>, col_basis, row_major>, vector<double, fixed<3>>, vector<float, external<>>>));
INST("align_fixed3x4_cbcm_ddd", 2000, (align<matrix<double, fixed<3, 4>, col_basis, col_major>, vector<double, fixed<3>>, vector<double, dynamic<>>>));
INST("align2_external_rbrm_dd", 1000, (align2<matrix<double, external<>, row_basis, row_major>, vector<double, dynamic<>>>));
INST("align2_fixed2x2_cbrm_fd", 1000, (align2<matrix<float, fixed<2, 2>, col_basis, row_major>, vector<double, external<>>>));
INST("align2_fixed2x3_cbcm_dd", 1000, (align2<matrix<double, fixed<2, 3>, col_basis, col_major>, vector<double, dynamic<>>>));
INST("look_external4x4_rbrm_dff", 3000, (look<matrix<double, external<4, 4>, row_basis, row_major>, vector<float, fixed<3>>, vector<float, dynamic<>>, vector<double, dynamic<>>>));
INST("look_dynamic_cbrm_fdf", 3000, (look<matrix<float, dynamic<>, col_basis, row_major>, vector<double, fixed<3>>, vector<float, external<>>, vector<double, dynamic<>>>));
INST("qalign_ip_d", 4000, (qalign<quaternion<double, fixed<>, imaginary_first, positive_cross>, vector<double, fixed<3>>, vector<double, dynamic<>>>));
INST("axis_orders", 500, (orders));
