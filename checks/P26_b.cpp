// P26: reentrancy.  Generated by tools/gen_P26.py
#include "boxes.h"
#include "P26_common.h"

INST("vec_float", 1000, (concurrent<VecWorld<float>>));
INST("changed_vec_float", 6000, (changed<VecWorld<float>>));
INST("order_vec_float", 6000, (anyorder<VecWorld<float>>));
INST("rot_double_in_cbcm", 1000, (concurrent<RotWorld<double, cml::imaginary_first, cml::negative_cross, col_basis, col_major>>));
INST("changed_rot_double_in_cbcm", 6000, (changed<RotWorld<double, cml::imaginary_first, cml::negative_cross, col_basis, col_major>>));
INST("order_rot_double_in_cbcm", 6000, (anyorder<RotWorld<double, cml::imaginary_first, cml::negative_cross, col_basis, col_major>>));
