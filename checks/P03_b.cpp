// P03: histories of dynamic matrices.
#include "boxes.h"
#include "P03_common.h"
INST("matrix_double_tracked_rbrm", 20000, (mat_history<double, Track<void*>, row_basis, row_major>));
INST("matrix_float_tracked_cbcm", 20000, (mat_history<float, Track<void*>, col_basis, col_major>));
INST("matrix_int_tracked_rbcm", 15000, (mat_history<int, Track<void*>, row_basis, col_major>));
