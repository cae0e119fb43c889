// P15: rotation builders and conversions.  Generated by tools/gen_P15.py
#include "boxes.h"
#include "P15_common.h"

INST("world_fixed3x3_rbrm_fd", 3000, (world<matrix<float, fixed<3, 3>, row_basis, row_major>, double>));
INST("world_fixed4x3_rbrm_dd", 3000, (world<matrix<double, fixed<4, 3>, row_basis, row_major>, double>));
INST("world_external_rbrm_df", 3000, (world<matrix<double, external<>, row_basis, row_major>, float>));
INST("world_fixed3x3_rbcm_fd", 3000, (world<matrix<float, fixed<3, 3>, row_basis, col_major>, double>));
INST("world_fixed4x3_rbcm_dd", 3000, (world<matrix<double, fixed<4, 3>, row_basis, col_major>, double>));
INST("world_external_rbcm_df", 3000, (world<matrix<double, external<>, row_basis, col_major>, float>));
INST("world_fixed3x3_cbrm_fd", 3000, (world<matrix<float, fixed<3, 3>, col_basis, row_major>, double>));
INST("world_fixed3x4_cbrm_dd", 3000, (world<matrix<double, fixed<3, 4>, col_basis, row_major>, double>));
INST("world_external_cbrm_df", 3000, (world<matrix<double, external<>, col_basis, row_major>, float>));
INST("world_fixed3x3_cbcm_fd", 3000, (world<matrix<float, fixed<3, 3>, col_basis, col_major>, double>));
INST("world_fixed3x4_cbcm_dd", 3000, (world<matrix<double, fixed<3, 4>, col_basis, col_major>, double>));
INST("world_external_cbcm_df", 3000, (world<matrix<double, external<>, col_basis, col_major>, float>));
INST("rot2d_fixed2x2_rbrm_fd", 1500, (rot2d<matrix<float, fixed<2, 2>, row_basis, row_major>, double>));
INST("rot2d_fixed3x2_rbcm_dd", 1500, (rot2d<matrix<double, fixed<3, 2>, row_basis, col_major>, double>));
INST("rot2d_external_cbrm_dd", 1500, (rot2d<matrix<double, external<>, col_basis, row_major>, double>));
INST("qbuild_ip_dd", 3000, (qbuild<quaternion<double, fixed<>, imaginary_first, positive_cross>, double>));
INST("qbuild_in_df", 3000, (qbuild<quaternion<double, fixed<>, imaginary_first, negative_cross>, float>));
INST("q_to_aa_rp_d", 6000, (q_to_aa<quaternion<double, fixed<>, real_first, positive_cross>, vector<double, external<3>>>));
