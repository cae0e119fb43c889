// P04: external windows.
#include "boxes.h"
#include "P04_common.h"

INST("matrix_externaln_rbrm_double", 10000, (mat_windows<matrix<double, external<>, row_basis, row_major>>));
INST("matrix_externaln_rbrm_float", 10000, (mat_windows<matrix<float, external<>, row_basis, row_major>>));
INST("matrix_externaln_rbrm_int", 10000, (mat_windows<matrix<int, external<>, row_basis, row_major>>));
INST("matrix_externaln_rbcm_double", 10000, (mat_windows<matrix<double, external<>, row_basis, col_major>>));
INST("matrix_externaln_rbcm_float", 10000, (mat_windows<matrix<float, external<>, row_basis, col_major>>));
INST("matrix_externaln_rbcm_int", 10000, (mat_windows<matrix<int, external<>, row_basis, col_major>>));
INST("matrix_externaln_cbrm_double", 10000, (mat_windows<matrix<double, external<>, col_basis, row_major>>));
INST("matrix_externaln_cbrm_float", 10000, (mat_windows<matrix<float, external<>, col_basis, row_major>>));
INST("matrix_externaln_cbrm_int", 10000, (mat_windows<matrix<int, external<>, col_basis, row_major>>));
INST("matrix_externaln_cbcm_double", 10000, (mat_windows<matrix<double, external<>, col_basis, col_major>>));
INST("matrix_externaln_cbcm_float", 10000, (mat_windows<matrix<float, external<>, col_basis, col_major>>));
INST("matrix_externaln_cbcm_int", 10000, (mat_windows<matrix<int, external<>, col_basis, col_major>>));
