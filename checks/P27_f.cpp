// P27: failed allocations and allocators.  Generated by tools/gen_P27.py
#include "boxes.h"
#include "P27_common.h"

INST("mat_T0Std_int_cr", 4000, (faults<MW<int, T0, Std, col_basis, row_major>>));
INST("mat_T0T1_double_rr", 4000, (faults<MW<double, T0, T1, row_basis, row_major>>));
