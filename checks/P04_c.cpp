// P04: external windows.
#include "boxes.h"
#include "P04_common.h"

INST("matrix_external2x2_cbrm_float", 6000, (mat_windows<matrix<float, external<2, 2>, col_basis, row_major>>));
INST("matrix_external3x2_cbrm_int", 6000, (mat_windows<matrix<int, external<3, 2>, col_basis, row_major>>));
INST("matrix_external2x3_cbrm_double", 6000, (mat_windows<matrix<double, external<2, 3>, col_basis, row_major>>));
INST("matrix_external4x4_cbrm_float", 6000, (mat_windows<matrix<float, external<4, 4>, col_basis, row_major>>));
INST("matrix_external1x3_cbrm_int", 6000, (mat_windows<matrix<int, external<1, 3>, col_basis, row_major>>));
INST("matrix_external2x2_cbcm_double", 6000, (mat_windows<matrix<double, external<2, 2>, col_basis, col_major>>));
INST("matrix_external3x2_cbcm_float", 6000, (mat_windows<matrix<float, external<3, 2>, col_basis, col_major>>));
INST("matrix_external2x3_cbcm_int", 6000, (mat_windows<matrix<int, external<2, 3>, col_basis, col_major>>));
INST("matrix_external4x4_cbcm_double", 6000, (mat_windows<matrix<double, external<4, 4>, col_basis, col_major>>));
INST("matrix_external1x3_cbcm_float", 6000, (mat_windows<matrix<float, external<1, 3>, col_basis, col_major>>));
