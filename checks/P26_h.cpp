// P26: reentrancy.  Generated by tools/gen_P26.py
#include "boxes.h"
#include "P26_common.h"

INST("mat_int_rbrm", 1000, (concurrent<MatWorld<int, row_basis, row_major>>));
INST("changed_mat_int_rbrm", 6000, (changed<MatWorld<int, row_basis, row_major>>));
INST("order_mat_int_rbrm", 6000, (anyorder<MatWorld<int, row_basis, row_major>>));
