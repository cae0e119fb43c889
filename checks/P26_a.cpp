// P26: reentrancy.  Generated by tools/gen_P26.py
#include "boxes.h"
#include "P26_common.h"

INST("vec_double", 1000, (concurrent<VecWorld<double>>));
INST("changed_vec_double", 6000, (changed<VecWorld<double>>));
INST("order_vec_double", 6000, (anyorder<VecWorld<double>>));
INST("rot_double_rp_rbrm", 1000, (concurrent<RotWorld<double, cml::real_first, cml::positive_cross, row_basis, row_major>>));
INST("changed_rot_double_rp_rbrm", 6000, (changed<RotWorld<double, cml::real_first, cml::positive_cross, row_basis, row_major>>));
INST("order_rot_double_rp_rbrm", 6000, (anyorder<RotWorld<double, cml::real_first, cml::positive_cross, row_basis, row_major>>));
