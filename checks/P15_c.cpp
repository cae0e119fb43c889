// P15: rotation builders and conversions.  Generated by tools/gen_P15.py
#include "boxes.h"
#include "P15_common.h"

INST("convert_fixed3x3_rbrm_ip_ff", 3000, (convert<matrix<float, fixed<3, 3>, row_basis, row_major>, quaternion<float, fixed<>, imaginary_first, positive_cross>>));
INST("convert_fixed4x3_rbrm_rp_dd", 3000, (convert<matrix<double, fixed<4, 3>, row_basis, row_major>, quaternion<double, fixed<>, real_first, positive_cross>>));
INST("convert_external_rbrm_ip_dd", 3000, (convert<matrix<double, external<>, row_basis, row_major>, quaternion<double, fixed<>, imaginary_first, positive_cross>>));
INST("convert_fixed3x3_rbcm_rp_ff", 3000, (convert<matrix<float, fixed<3, 3>, row_basis, col_major>, quaternion<float, fixed<>, real_first, positive_cross>>));
INST("convert_fixed4x3_rbcm_ip_df", 3000, (convert<matrix<double, fixed<4, 3>, row_basis, col_major>, quaternion<float, fixed<>, imaginary_first, positive_cross>>));
INST("convert_external_rbcm_rp_dd", 3000, (convert<matrix<double, external<>, row_basis, col_major>, quaternion<double, fixed<>, real_first, positive_cross>>));
INST("convert_fixed3x3_cbrm_ip_ff", 3000, (convert<matrix<float, fixed<3, 3>, col_basis, row_major>, quaternion<float, fixed<>, imaginary_first, positive_cross>>));
INST("convert_fixed3x4_cbrm_rp_dd", 3000, (convert<matrix<double, fixed<3, 4>, col_basis, row_major>, quaternion<double, fixed<>, real_first, positive_cross>>));
INST("convert_external_cbrm_ip_dd", 3000, (convert<matrix<double, external<>, col_basis, row_major>, quaternion<double, fixed<>, imaginary_first, positive_cross>>));
INST("convert_fixed3x3_cbcm_rp_ff", 3000, (convert<matrix<float, fixed<3, 3>, col_basis, col_major>, quaternion<float, fixed<>, real_first, positive_cross>>));
INST("convert_fixed3x4_cbcm_ip_dd", 3000, (convert<matrix<double, fixed<3, 4>, col_basis, col_major>, quaternion<double, fixed<>, imaginary_first, positive_cross>>));
INST("convert_external_cbcm_rp_dd", 3000, (convert<matrix<double, external<>, col_basis, col_major>, quaternion<double, fixed<>, real_first, positive_cross>>));
INST("rot2d_fixed3x2_rbrm_dd", 1500, (rot2d<matrix<double, fixed<3, 2>, row_basis, row_major>, double>));
INST("rot2d_external_rbcm_dd", 1500, (rot2d<matrix<double, external<>, row_basis, col_major>, double>));
INST("rot2d_fixed2x2_cbcm_fd", 1500, (rot2d<matrix<float, fixed<2, 2>, col_basis, col_major>, double>));
INST("qbuild_ip_df", 3000, (qbuild<quaternion<double, fixed<>, imaginary_first, positive_cross>, float>));
INST("q_to_aa_in_d", 6000, (q_to_aa<quaternion<double, fixed<>, imaginary_first, negative_cross>, vector<double, dynamic<>>>));
INST("qbuild_rn_dd", 3000, (qbuild<quaternion<double, fixed<>, real_first, negative_cross>, double>));
