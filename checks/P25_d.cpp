// P25: quaternion contents.  Generated by tools/gen_P25.py
#include "boxes.h"
#include "P25_common.h"

INST("compound_din_drp", 1000, (compound<quaternion<double, fixed<>, imaginary_first, negative_cross>, quaternion<double, fixed<>, real_first, positive_cross>>));
INST("compound_fin_frp", 1000, (compound<quaternion<float, fixed<>, imaginary_first, negative_cross>, quaternion<float, fixed<>, real_first, positive_cross>>));
INST("compound_fin_drp", 1000, (compound<quaternion<float, fixed<>, imaginary_first, negative_cross>, quaternion<double, fixed<>, real_first, positive_cross>>));
INST("compound_din_frp", 1000, (compound<quaternion<double, fixed<>, imaginary_first, negative_cross>, quaternion<float, fixed<>, real_first, positive_cross>>));
INST("compound_iin_irp", 1000, (compound<quaternion<int, fixed<>, imaginary_first, negative_cross>, quaternion<int, fixed<>, real_first, positive_cross>>));
INST("compound_iin_drp", 1000, (compound<quaternion<int, fixed<>, imaginary_first, negative_cross>, quaternion<double, fixed<>, real_first, positive_cross>>));
INST("compound_din_irp", 1000, (compound<quaternion<double, fixed<>, imaginary_first, negative_cross>, quaternion<int, fixed<>, real_first, positive_cross>>));
