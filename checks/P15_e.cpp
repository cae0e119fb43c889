// P15: rotation builders and conversions.  Generated by tools/gen_P15.py
#include "boxes.h"
#include "P15_common.h"

INST("world_fixed4x4_rbrm_dd", 3000, (world<matrix<double, fixed<4, 4>, row_basis, row_major>, double>));
INST("world_dynamic_rbrm_fd", 3000, (world<matrix<float, dynamic<>, row_basis, row_major>, double>));
INST("world_external4x4_rbrm_df", 3000, (world<matrix<double, external<4, 4>, row_basis, row_major>, float>));
INST("world_fixed4x4_rbcm_dd", 3000, (world<matrix<double, fixed<4, 4>, row_basis, col_major>, double>));
INST("world_dynamic_rbcm_fd", 3000, (world<matrix<float, dynamic<>, row_basis, col_major>, double>));
INST("world_external4x4_rbcm_df", 3000, (world<matrix<double, external<4, 4>, row_basis, col_major>, float>));
INST("world_fixed4x4_cbrm_dd", 3000, (world<matrix<double, fixed<4, 4>, col_basis, row_major>, double>));
INST("world_dynamic_cbrm_fd", 3000, (world<matrix<float, dynamic<>, col_basis, row_major>, double>));
INST("world_external4x4_cbrm_df", 3000, (world<matrix<double, external<4, 4>, col_basis, row_major>, float>));
INST("world_fixed4x4_cbcm_dd", 3000, (world<matrix<double, fixed<4, 4>, col_basis, col_major>, double>));
INST("world_dynamic_cbcm_fd", 3000, (world<matrix<float, dynamic<>, col_basis, col_major>, double>));
INST("world_external4x4_cbcm_df", 3000, (world<matrix<double, external<4, 4>, col_basis, col_major>, float>));
INST("rot2d_external_rbrm_dd", 1500, (rot2d<matrix<double, external<>, row_basis, row_major>, double>));
INST("rot2d_fixed2x2_cbrm_fd", 1500, (rot2d<matrix<float, fixed<2, 2>, col_basis, row_major>, double>));
INST("rot2d_fixed2x3_cbcm_dd", 1500, (rot2d<matrix<double, fixed<2, 3>, col_basis, col_major>, double>));
INST("q_to_aa_ip_d", 6000, (q_to_aa<quaternion<double, fixed<>, imaginary_first, positive_cross>, vector<double, fixed<3>>>));
INST("qbuild_rp_dd", 3000, (qbuild<quaternion<double, fixed<>, real_first, positive_cross>, double>));
INST("qbuild_rn_df", 3000, (qbuild<quaternion<double, fixed<>, real_first, negative_cross>, float>));
