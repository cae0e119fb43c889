// P27: failed allocations and allocators.  Generated by tools/gen_P27.py
#include "boxes.h"
#include "P27_common.h"

INST("mat_T0T0_float_rc", 4000, (faults<MW<float, T0, T0, row_basis, col_major>>));
INST("mat_StdT0_double_cc", 4000, (faults<MW<double, Std, T0, col_basis, col_major>>));
INST("mat_StdStd_float_rc", 4000, (faults<MW<float, Std, Std, row_basis, col_major>>));
