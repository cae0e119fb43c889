// P04: external windows.
#include "boxes.h"
#include "P04_common.h"

INST("matrix_external2x2_rbrm_double", 6000, (mat_windows<matrix<double, external<2, 2>, row_basis, row_major>>));
INST("matrix_external3x2_rbrm_float", 6000, (mat_windows<matrix<float, external<3, 2>, row_basis, row_major>>));
INST("matrix_external2x3_rbrm_int", 6000, (mat_windows<matrix<int, external<2, 3>, row_basis, row_major>>));
INST("matrix_external4x4_rbrm_double", 6000, (mat_windows<matrix<double, external<4, 4>, row_basis, row_major>>));
INST("matrix_external1x3_rbrm_float", 6000, (mat_windows<matrix<float, external<1, 3>, row_basis, row_major>>));
INST("matrix_external2x2_rbcm_int", 6000, (mat_windows<matrix<int, external<2, 2>, row_basis, col_major>>));
INST("matrix_external3x2_rbcm_double", 6000, (mat_windows<matrix<double, external<3, 2>, row_basis, col_major>>));
INST("matrix_external2x3_rbcm_float", 6000, (mat_windows<matrix<float, external<2, 3>, row_basis, col_major>>));
INST("matrix_external4x4_rbcm_int", 6000, (mat_windows<matrix<int, external<4, 4>, row_basis, col_major>>));
INST("matrix_external1x3_rbcm_double", 6000, (mat_windows<matrix<double, external<1, 3>, row_basis, col_major>>));
