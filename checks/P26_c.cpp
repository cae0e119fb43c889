// P26: reentrancy.  Generated by tools/gen_P26.py
#include "boxes.h"
#include "P26_common.h"

INST("vec_int", 1000, (concurrent<VecWorld<int>>));
INST("changed_vec_int", 6000, (changed<VecWorld<int>>));
INST("order_vec_int", 6000, (anyorder<VecWorld<int>>));
INST("rot_float_ip_cbrm", 1000, (concurrent<RotWorld<float, cml::imaginary_first, cml::positive_cross, col_basis, row_major>>));
INST("changed_rot_float_ip_cbrm", 6000, (changed<RotWorld<float, cml::imaginary_first, cml::positive_cross, col_basis, row_major>>));
INST("order_rot_float_ip_cbrm", 6000, (anyorder<RotWorld<float, cml::imaginary_first, cml::positive_cross, col_basis, row_major>>));
