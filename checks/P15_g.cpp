// P15: rotation builders and conversions.  Generated by tools/gen_P15.py
#include "boxes.h"
#include "P15_common.h"

INST("convert_fixed4x4_rbrm_in_dd", 3000, (convert<matrix<double, fixed<4, 4>, row_basis, row_major>, quaternion<double, fixed<>, imaginary_first, negative_cross>>));
INST("convert_dynamic_rbrm_rn_ff", 3000, (convert<matrix<float, dynamic<>, row_basis, row_major>, quaternion<float, fixed<>, real_first, negative_cross>>));
INST("convert_external4x4_rbrm_in_dd", 3000, (convert<matrix<double, external<4, 4>, row_basis, row_major>, quaternion<double, fixed<>, imaginary_first, negative_cross>>));
INST("convert_fixed4x4_rbcm_rn_dd", 3000, (convert<matrix<double, fixed<4, 4>, row_basis, col_major>, quaternion<double, fixed<>, real_first, negative_cross>>));
INST("convert_dynamic_rbcm_in_ff", 3000, (convert<matrix<float, dynamic<>, row_basis, col_major>, quaternion<float, fixed<>, imaginary_first, negative_cross>>));
INST("convert_external4x4_rbcm_rn_dd", 3000, (convert<matrix<double, external<4, 4>, row_basis, col_major>, quaternion<double, fixed<>, real_first, negative_cross>>));
INST("convert_fixed4x4_cbrm_in_df", 3000, (convert<matrix<double, fixed<4, 4>, col_basis, row_major>, quaternion<float, fixed<>, imaginary_first, negative_cross>>));
INST("convert_dynamic_cbrm_rn_ff", 3000, (convert<matrix<float, dynamic<>, col_basis, row_major>, quaternion<float, fixed<>, real_first, negative_cross>>));
INST("convert_external4x4_cbrm_in_dd", 3000, (convert<matrix<double, external<4, 4>, col_basis, row_major>, quaternion<double, fixed<>, imaginary_first, negative_cross>>));
INST("convert_fixed4x4_cbcm_rn_dd", 3000, (convert<matrix<double, fixed<4, 4>, col_basis, col_major>, quaternion<double, fixed<>, real_first, negative_cross>>));
INST("convert_dynamic_cbcm_in_ff", 3000, (convert<matrix<float, dynamic<>, col_basis, col_major>, quaternion<float, fixed<>, imaginary_first, negative_cross>>));
INST("convert_external4x4_cbcm_rn_df", 3000, (convert<matrix<double, external<4, 4>, col_basis, col_major>, quaternion<float, fixed<>, real_first, negative_cross>>));
INST("rot2d_fixed2x2_rbcm_fd", 1500, (rot2d<matrix<float, fixed<2, 2>, row_basis, col_major>, double>));
INST("rot2d_fixed2x3_cbrm_dd", 1500, (rot2d<matrix<double, fixed<2, 3>, col_basis, row_major>, double>));
INST("rot2d_external_cbcm_dd", 1500, (rot2d<matrix<double, external<>, col_basis, col_major>, double>));
INST("qbuild_in_dd", 3000, (qbuild<quaternion<double, fixed<>, imaginary_first, negative_cross>, double>));
INST("qbuild_rp_df", 3000, (qbuild<quaternion<double, fixed<>, real_first, positive_cross>, float>));
INST("q_to_aa_rn_d", 6000, (q_to_aa<quaternion<double, fixed<>, real_first, negative_cross>, vector<double, external<>>>));
