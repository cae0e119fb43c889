// P26: reentrancy.  Generated by tools/gen_P26.py
#include "boxes.h"
#include "P26_common.h"

INST("mat_float_cbrm", 1000, (concurrent<MatWorld<float, col_basis, row_major>>));
INST("changed_mat_float_cbrm", 6000, (changed<MatWorld<float, col_basis, row_major>>));
INST("order_mat_float_cbrm", 6000, (anyorder<MatWorld<float, col_basis, row_major>>));
