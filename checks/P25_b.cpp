// P25: quaternion contents.  Generated by tools/gen_P25.py
#include "boxes.h"
#include "P25_common.h"

INST("compound_dip_dip", 1000, (compound<quaternion<double, fixed<>, imaginary_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, positive_cross>>));
INST("compound_fip_fip", 1000, (compound<quaternion<float, fixed<>, imaginary_first, positive_cross>, quaternion<float, fixed<>, imaginary_first, positive_cross>>));
INST("compound_fip_dip", 1000, (compound<quaternion<float, fixed<>, imaginary_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, positive_cross>>));
INST("compound_dip_fip", 1000, (compound<quaternion<double, fixed<>, imaginary_first, positive_cross>, quaternion<float, fixed<>, imaginary_first, positive_cross>>));
INST("compound_iip_iip", 1000, (compound<quaternion<int, fixed<>, imaginary_first, positive_cross>, quaternion<int, fixed<>, imaginary_first, positive_cross>>));
INST("compound_iip_dip", 1000, (compound<quaternion<int, fixed<>, imaginary_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, positive_cross>>));
INST("compound_dip_iip", 1000, (compound<quaternion<double, fixed<>, imaginary_first, positive_cross>, quaternion<int, fixed<>, imaginary_first, positive_cross>>));
