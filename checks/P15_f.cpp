// P15: rotation builders and conversions.  Generated by tools/gen_P15.py
#include "boxes.h"
#include "P15_common.h"

INST("axis_angle_fixed4x4_rbrm_dd", 3000, (axis_angle<matrix<double, fixed<4, 4>, row_basis, row_major>, vector<double, dynamic<>>, double>));
INST("axis_angle_dynamic_rbrm_fd", 3000, (axis_angle<matrix<float, dynamic<>, row_basis, row_major>, vector<float, external<>>, double>));
INST("axis_angle_external4x4_rbrm_df", 3000, (axis_angle<matrix<double, external<4, 4>, row_basis, row_major>, vector<double, dynamic<>>, float>));
INST("axis_angle_fixed4x4_rbcm_dd", 3000, (axis_angle<matrix<double, fixed<4, 4>, row_basis, col_major>, vector<double, external<>>, double>));
INST("axis_angle_dynamic_rbcm_fd", 3000, (axis_angle<matrix<float, dynamic<>, row_basis, col_major>, vector<float, dynamic<>>, double>));
INST("axis_angle_external4x4_rbcm_df", 3000, (axis_angle<matrix<double, external<4, 4>, row_basis, col_major>, vector<double, external<>>, float>));
INST("axis_angle_fixed4x4_cbrm_dd", 3000, (axis_angle<matrix<double, fixed<4, 4>, col_basis, row_major>, vector<double, dynamic<>>, double>));
INST("axis_angle_dynamic_cbrm_fd", 3000, (axis_angle<matrix<float, dynamic<>, col_basis, row_major>, vector<float, external<>>, double>));
INST("axis_angle_external4x4_cbrm_df", 3000, (axis_angle<matrix<double, external<4, 4>, col_basis, row_major>, vector<double, dynamic<>>, float>));
INST("axis_angle_fixed4x4_cbcm_dd", 3000, (axis_angle<matrix<double, fixed<4, 4>, col_basis, col_major>, vector<double, external<>>, double>));
INST("axis_angle_dynamic_cbcm_fd", 3000, (axis_angle<matrix<float, dynamic<>, col_basis, col_major>, vector<float, dynamic<>>, double>));
INST("axis_angle_external4x4_cbcm_df", 3000, (axis_angle<matrix<double, external<4, 4>, col_basis, col_major>, vector<double, external<>>, float>));
INST("rot2d_external3x3_rbrm_df", 1500, (rot2d<matrix<double, external<3, 3>, row_basis, row_major>, float>));
INST("rot2d_fixed3x3_cbrm_df", 1500, (rot2d<matrix<double, fixed<3, 3>, col_basis, row_major>, float>));
INST("rot2d_dynamic_cbcm_ff", 1500, (rot2d<matrix<float, dynamic<>, col_basis, col_major>, float>));
INST("q_to_aa_ip_f", 6000, (q_to_aa<quaternion<float, fixed<>, imaginary_first, positive_cross>, vector<float, external<3>>>));
INST("qbuild_rp_ff", 3000, (qbuild<quaternion<float, fixed<>, real_first, positive_cross>, float>));
INST("qbuild_rn_fd", 3000, (qbuild<quaternion<float, fixed<>, real_first, negative_cross>, double>));
