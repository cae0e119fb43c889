// P15: rotation builders and conversions.  Generated by tools/gen_P15.py
#include "boxes.h"
#include "P15_common.h"

INST("to_aa_fixed3x3_rbrm_ff", 5000, (to_aa<matrix<float, fixed<3, 3>, row_basis, row_major>, vector<float, fixed<3>>>));
INST("to_aa_fixed4x3_rbrm_dd", 5000, (to_aa<matrix<double, fixed<4, 3>, row_basis, row_major>, vector<double, dynamic<>>>));
INST("to_aa_external_rbrm_dd", 5000, (to_aa<matrix<double, external<>, row_basis, row_major>, vector<double, external<3>>>));
INST("to_aa_fixed3x3_rbcm_ff", 5000, (to_aa<matrix<float, fixed<3, 3>, row_basis, col_major>, vector<float, external<>>>));
INST("to_aa_fixed4x3_rbcm_df", 5000, (to_aa<matrix<double, fixed<4, 3>, row_basis, col_major>, vector<float, fixed<3>>>));
INST("to_aa_external_rbcm_dd", 5000, (to_aa<matrix<double, external<>, row_basis, col_major>, vector<double, dynamic<>>>));
INST("to_aa_fixed3x3_cbrm_ff", 5000, (to_aa<matrix<float, fixed<3, 3>, col_basis, row_major>, vector<float, external<3>>>));
INST("to_aa_fixed3x4_cbrm_dd", 5000, (to_aa<matrix<double, fixed<3, 4>, col_basis, row_major>, vector<double, external<>>>));
INST("to_aa_external_cbrm_dd", 5000, (to_aa<matrix<double, external<>, col_basis, row_major>, vector<double, fixed<3>>>));
INST("to_aa_fixed3x3_cbcm_ff", 5000, (to_aa<matrix<float, fixed<3, 3>, col_basis, col_major>, vector<float, dynamic<>>>));
INST("to_aa_fixed3x4_cbcm_dd", 5000, (to_aa<matrix<double, fixed<3, 4>, col_basis, col_major>, vector<double, external<3>>>));
INST("to_aa_external_cbcm_dd", 5000, (to_aa<matrix<double, external<>, col_basis, col_major>, vector<double, external<>>>));
INST("rot2d_dynamic_rbrm_ff", 1500, (rot2d<matrix<float, dynamic<>, row_basis, row_major>, float>));
INST("rot2d_external3x3_rbcm_df", 1500, (rot2d<matrix<double, external<3, 3>, row_basis, col_major>, float>));
INST("rot2d_fixed3x3_cbcm_df", 1500, (rot2d<matrix<double, fixed<3, 3>, col_basis, col_major>, float>));
INST("qbuild_ip_fd", 3000, (qbuild<quaternion<float, fixed<>, imaginary_first, positive_cross>, double>));
INST("q_to_aa_in_f", 6000, (q_to_aa<quaternion<float, fixed<>, imaginary_first, negative_cross>, vector<float, external<>>>));
INST("qbuild_rn_ff", 3000, (qbuild<quaternion<float, fixed<>, real_first, negative_cross>, float>));
