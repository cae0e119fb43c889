// P15: rotation builders and conversions.  Generated by tools/gen_P15.py
#include "boxes.h"
#include "P15_common.h"

INST("axis_angle_fixed3x3_rbrm_fd", 3000, (axis_angle<matrix<float, fixed<3, 3>, row_basis, row_major>, vector<float, fixed<3>>, double>));
INST("axis_angle_fixed4x3_rbrm_dd", 3000, (axis_angle<matrix<double, fixed<4, 3>, row_basis, row_major>, vector<double, external<3>>, double>));
INST("axis_angle_external_rbrm_df", 3000, (axis_angle<matrix<double, external<>, row_basis, row_major>, vector<double, fixed<3>>, float>));
INST("axis_angle_fixed3x3_rbcm_fd", 3000, (axis_angle<matrix<float, fixed<3, 3>, row_basis, col_major>, vector<float, external<3>>, double>));
INST("axis_angle_fixed4x3_rbcm_dd", 3000, (axis_angle<matrix<double, fixed<4, 3>, row_basis, col_major>, vector<double, fixed<3>>, double>));
INST("axis_angle_external_rbcm_df", 3000, (axis_angle<matrix<double, external<>, row_basis, col_major>, vector<double, external<3>>, float>));
INST("axis_angle_fixed3x3_cbrm_fd", 3000, (axis_angle<matrix<float, fixed<3, 3>, col_basis, row_major>, vector<float, fixed<3>>, double>));
INST("axis_angle_fixed3x4_cbrm_dd", 3000, (axis_angle<matrix<double, fixed<3, 4>, col_basis, row_major>, vector<double, external<3>>, double>));
INST("axis_angle_external_cbrm_df", 3000, (axis_angle<matrix<double, external<>, col_basis, row_major>, vector<double, fixed<3>>, float>));
INST("axis_angle_fixed3x3_cbcm_fd", 3000, (axis_angle<matrix<float, fixed<3, 3>, col_basis, col_major>, vector<float, external<3>>, double>));
INST("axis_angle_fixed3x4_cbcm_dd", 3000, (axis_angle<matrix<double, fixed<3, 4>, col_basis, col_major>, vector<double, fixed<3>>, double>));
INST("axis_angle_external_cbcm_df", 3000, (axis_angle<matrix<double, external<>, col_basis, col_major>, vector<double, external<3>>, float>));
INST("rot2d_fixed3x3_rbrm_df", 1500, (rot2d<matrix<double, fixed<3, 3>, row_basis, row_major>, float>));
INST("rot2d_dynamic_rbcm_ff", 1500, (rot2d<matrix<float, dynamic<>, row_basis, col_major>, float>));
INST("rot2d_external3x3_cbrm_df", 1500, (rot2d<matrix<double, external<3, 3>, col_basis, row_major>, float>));
INST("qbuild_ip_ff", 3000, (qbuild<quaternion<float, fixed<>, imaginary_first, positive_cross>, float>));
INST("qbuild_in_fd", 3000, (qbuild<quaternion<float, fixed<>, imaginary_first, negative_cross>, double>));
INST("q_to_aa_rp_f", 6000, (q_to_aa<quaternion<float, fixed<>, real_first, positive_cross>, vector<float, fixed<3>>>));
