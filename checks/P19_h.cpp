// P19: projections and frustum planes.  Generated by tools/gen_P19.py
#include "boxes.h"
#include "P19_common.h"

INST("camera_fixed4x4_rbrm_d", 2000, (camera<matrix<double, fixed<4, 4>, row_basis, row_major>, double>));
INST("planes_fixed4x5_rbrm_ff", 1500, (planes<matrix<float, fixed<4, 5>, row_basis, row_major>, float>));
INST("project_dynamic_rbrm_fd", 2000, (project<matrix<float, dynamic<>, row_basis, row_major>, double>));
INST("planes_external_rbrm_df", 1500, (planes<matrix<double, external<>, row_basis, row_major>, float>));
INST("project_fixed4x4_rbcm_dd", 2000, (project<matrix<double, fixed<4, 4>, row_basis, col_major>, double>));
INST("project_fixed5x4_rbcm_dd", 2000, (project<matrix<double, fixed<5, 4>, row_basis, col_major>, double>));
INST("project_fixed5x5_rbcm_dd", 2000, (project<matrix<double, fixed<5, 5>, row_basis, col_major>, double>));
INST("planes_dynamic_rbcm_fd", 1500, (planes<matrix<float, dynamic<>, row_basis, col_major>, double>));
INST("camera_external_rbcm_d", 2000, (camera<matrix<double, external<>, row_basis, col_major>, double>));
INST("project_fixed4x4_cbrm_ff", 2000, (project<matrix<float, fixed<4, 4>, col_basis, row_major>, float>));
INST("project_fixed5x4_cbrm_ff", 2000, (project<matrix<float, fixed<5, 4>, col_basis, row_major>, float>));
INST("project_fixed5x5_cbrm_ff", 2000, (project<matrix<float, fixed<5, 5>, col_basis, row_major>, float>));
INST("planes_dynamic_cbrm_ff", 1500, (planes<matrix<float, dynamic<>, col_basis, row_major>, float>));
INST("project_external4x4_cbrm_dd", 2000, (project<matrix<double, external<4, 4>, col_basis, row_major>, double>));
INST("project_fixed4x4_cbcm_df", 2000, (project<matrix<double, fixed<4, 4>, col_basis, col_major>, float>));
INST("planes_fixed5x4_cbcm_dd", 1500, (planes<matrix<double, fixed<5, 4>, col_basis, col_major>, double>));
INST("planes_fixed5x5_cbcm_dd", 1500, (planes<matrix<double, fixed<5, 5>, col_basis, col_major>, double>));
INST("camera_dynamic_cbcm_f", 2000, (camera<matrix<float, dynamic<>, col_basis, col_major>, float>));
INST("project_external4x4_cbcm_ff", 2000, (project<matrix<float, external<4, 4>, col_basis, col_major>, float>));
