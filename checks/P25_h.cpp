// P25: quaternion contents.  Generated by tools/gen_P25.py
#include "boxes.h"
#include "P25_common.h"

INST("compound_drn_drn", 1000, (compound<quaternion<double, fixed<>, real_first, negative_cross>, quaternion<double, fixed<>, real_first, negative_cross>>));
INST("compound_frn_frn", 1000, (compound<quaternion<float, fixed<>, real_first, negative_cross>, quaternion<float, fixed<>, real_first, negative_cross>>));
INST("compound_frn_drn", 1000, (compound<quaternion<float, fixed<>, real_first, negative_cross>, quaternion<double, fixed<>, real_first, negative_cross>>));
INST("compound_drn_frn", 1000, (compound<quaternion<double, fixed<>, real_first, negative_cross>, quaternion<float, fixed<>, real_first, negative_cross>>));
INST("compound_irn_irn", 1000, (compound<quaternion<int, fixed<>, real_first, negative_cross>, quaternion<int, fixed<>, real_first, negative_cross>>));
INST("compound_irn_drn", 1000, (compound<quaternion<int, fixed<>, real_first, negative_cross>, quaternion<double, fixed<>, real_first, negative_cross>>));
INST("compound_drn_irn", 1000, (compound<quaternion<double, fixed<>, real_first, negative_cross>, quaternion<int, fixed<>, real_first, negative_cross>>));
