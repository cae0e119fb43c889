// P27: failed allocations and allocators.  Generated by tools/gen_P27.py
#include "boxes.h"
#include "P27_common.h"

INST("vec_T0T0_int_cr", 4000, (faults<VW<int, T0, T0, col_basis, row_major>>));
INST("vec_StdT0_double_rr", 4000, (faults<VW<double, Std, T0, row_basis, row_major>>));
INST("vec_StdStd_int_cc", 4000, (faults<VW<int, Std, Std, col_basis, col_major>>));
