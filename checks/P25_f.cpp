// P25: quaternion contents.  Generated by tools/gen_P25.py
#include "boxes.h"
#include "P25_common.h"

INST("compound_drp_din", 1000, (compound<quaternion<double, fixed<>, real_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, negative_cross>>));
INST("compound_frp_fin", 1000, (compound<quaternion<float, fixed<>, real_first, positive_cross>, quaternion<float, fixed<>, imaginary_first, negative_cross>>));
INST("compound_frp_din", 1000, (compound<quaternion<float, fixed<>, real_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, negative_cross>>));
INST("compound_drp_fin", 1000, (compound<quaternion<double, fixed<>, real_first, positive_cross>, quaternion<float, fixed<>, imaginary_first, negative_cross>>));
INST("compound_irp_iin", 1000, (compound<quaternion<int, fixed<>, real_first, positive_cross>, quaternion<int, fixed<>, imaginary_first, negative_cross>>));
INST("compound_irp_din", 1000, (compound<quaternion<int, fixed<>, real_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, negative_cross>>));
INST("compound_drp_iin", 1000, (compound<quaternion<double, fixed<>, real_first, positive_cross>, quaternion<int, fixed<>, imaginary_first, negative_cross>>));
