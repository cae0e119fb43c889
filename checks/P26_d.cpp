// P26: reentrancy.  Generated by tools/gen_P26.py
#include "boxes.h"
#include "P26_common.h"

INST("mat_double_rbrm", 1000, (concurrent<MatWorld<double, row_basis, row_major>>));
INST("changed_mat_double_rbrm", 6000, (changed<MatWorld<double, row_basis, row_major>>));
INST("order_mat_double_rbrm", 6000, (anyorder<MatWorld<double, row_basis, row_major>>));
INST("rot_float_rn_rbcm", 1000, (concurrent<RotWorld<float, cml::real_first, cml::negative_cross, row_basis, col_major>>));
INST("changed_rot_float_rn_rbcm", 6000, (changed<RotWorld<float, cml::real_first, cml::negative_cross, row_basis, col_major>>));
INST("order_rot_float_rn_rbcm", 6000, (anyorder<RotWorld<float, cml::real_first, cml::negative_cross, row_basis, col_major>>));
