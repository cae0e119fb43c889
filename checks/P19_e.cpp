// P19: projections and frustum planes.  Generated by tools/gen_P19.py
#include "boxes.h"
#include "P19_common.h"

INST("planes_fixed4x4_rbrm_fd", 1500, (planes<matrix<float, fixed<4, 4>, row_basis, row_major>, double>));
INST("project_fixed4x5_rbrm_dd", 2000, (project<matrix<double, fixed<4, 5>, row_basis, row_major>, double>));
INST("project_dynamic_rbrm_dd", 2000, (project<matrix<double, dynamic<>, row_basis, row_major>, double>));
INST("project_external_rbrm_dd", 2000, (project<matrix<double, external<>, row_basis, row_major>, double>));
INST("planes_external4x4_rbrm_ff", 1500, (planes<matrix<float, external<4, 4>, row_basis, row_major>, float>));
INST("planes_fixed4x4_rbcm_ff", 1500, (planes<matrix<float, fixed<4, 4>, row_basis, col_major>, float>));
INST("project_fixed4x5_rbcm_ff", 2000, (project<matrix<float, fixed<4, 5>, row_basis, col_major>, float>));
INST("project_dynamic_rbcm_ff", 2000, (project<matrix<float, dynamic<>, row_basis, col_major>, float>));
INST("project_external_rbcm_ff", 2000, (project<matrix<float, external<>, row_basis, col_major>, float>));
INST("camera_external4x4_rbcm_f", 2000, (camera<matrix<float, external<4, 4>, row_basis, col_major>, float>));
INST("camera_fixed4x4_cbrm_f", 2000, (camera<matrix<float, fixed<4, 4>, col_basis, row_major>, double>));
INST("planes_fixed4x5_cbrm_fd", 1500, (planes<matrix<float, fixed<4, 5>, col_basis, row_major>, double>));
INST("project_dynamic_cbrm_df", 2000, (project<matrix<double, dynamic<>, col_basis, row_major>, float>));
INST("planes_external_cbrm_dd", 1500, (planes<matrix<double, external<>, col_basis, row_major>, double>));
INST("camera_external4x4_cbrm_d", 2000, (camera<matrix<double, external<4, 4>, col_basis, row_major>, double>));
INST("camera_fixed4x4_cbcm_d", 2000, (camera<matrix<double, fixed<4, 4>, col_basis, col_major>, double>));
INST("planes_fixed4x5_cbcm_ff", 1500, (planes<matrix<float, fixed<4, 5>, col_basis, col_major>, float>));
INST("project_dynamic_cbcm_fd", 2000, (project<matrix<float, dynamic<>, col_basis, col_major>, double>));
INST("planes_external_cbcm_df", 1500, (planes<matrix<double, external<>, col_basis, col_major>, float>));
