// P27: failed allocations and allocators.  Generated by tools/gen_P27.py
#include "boxes.h"
#include "P27_common.h"

INST("vec_T0Std_double_cc", 4000, (faults<VW<double, T0, Std, col_basis, col_major>>));
INST("vec_T0T1_float_rc", 4000, (faults<VW<float, T0, T1, row_basis, col_major>>));
