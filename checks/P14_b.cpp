// P14: quaternion algebra.  Generated by tools/gen_P14.py
#include "boxes.h"
#include "P14_common.h"

INST("product_ip_dd", 5000, (product<quaternion<double, fixed<>, imaginary_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, positive_cross>>));
INST("product_ip_fi", 5000, (product<quaternion<float, fixed<>, imaginary_first, positive_cross>, quaternion<int, fixed<>, imaginary_first, positive_cross>>));
INST("explog_ip_f", 10000, (explog<quaternion<float, fixed<>, imaginary_first, positive_cross>>));
INST("product_in_id", 5000, (product<quaternion<int, fixed<>, imaginary_first, negative_cross>, quaternion<double, fixed<>, imaginary_first, negative_cross>>));
INST("parts_in_f", 5000, (parts<quaternion<float, fixed<>, imaginary_first, negative_cross>>));
INST("product_rp_df", 5000, (product<quaternion<double, fixed<>, real_first, positive_cross>, quaternion<float, fixed<>, real_first, positive_cross>>));
INST("inexact_rp_d", 8000, (inexact<quaternion<double, fixed<>, real_first, positive_cross>>));
INST("product_rn_ff", 5000, (product<quaternion<float, fixed<>, real_first, negative_cross>, quaternion<float, fixed<>, real_first, negative_cross>>));
INST("product_rn_ii", 5000, (product<quaternion<int, fixed<>, real_first, negative_cross>, quaternion<int, fixed<>, real_first, negative_cross>>));
