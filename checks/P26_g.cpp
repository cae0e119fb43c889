// P26: reentrancy.  Generated by tools/gen_P26.py
#include "boxes.h"
#include "P26_common.h"

INST("mat_float_rbcm", 1000, (concurrent<MatWorld<float, row_basis, col_major>>));
INST("changed_mat_float_rbcm", 6000, (changed<MatWorld<float, row_basis, col_major>>));
INST("order_mat_float_rbcm", 6000, (anyorder<MatWorld<float, row_basis, col_major>>));
