// P03: histories of dynamic matrices, default allocator.
#include "boxes.h"
#include "P03_common.h"
INST("matrix_double_std_cbrm", 20000, (mat_history<double, std::allocator<void*>, col_basis, row_major>));
INST("matrix_int_std_cbcm", 20000, (mat_history<int, std::allocator<void*>, col_basis, col_major>));
INST("matrix_double_std_rbrm", 15000, (mat_history<double, std::allocator<void*>, row_basis, row_major>));
