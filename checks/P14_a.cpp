// P14: quaternion algebra.  Generated by tools/gen_P14.py
#include "boxes.h"
#include "P14_common.h"

INST("linear_ip_dd", 5000, (linear<quaternion<double, fixed<>, imaginary_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, positive_cross>>));
INST("linear_ip_fi", 5000, (linear<quaternion<float, fixed<>, imaginary_first, positive_cross>, quaternion<int, fixed<>, imaginary_first, positive_cross>>));
INST("inexact_ip_f", 8000, (inexact<quaternion<float, fixed<>, imaginary_first, positive_cross>>));
INST("linear_in_id", 5000, (linear<quaternion<int, fixed<>, imaginary_first, negative_cross>, quaternion<double, fixed<>, imaginary_first, negative_cross>>));
INST("explog_in_d", 10000, (explog<quaternion<double, fixed<>, imaginary_first, negative_cross>>));
INST("linear_rp_df", 5000, (linear<quaternion<double, fixed<>, real_first, positive_cross>, quaternion<float, fixed<>, real_first, positive_cross>>));
INST("parts_rp_d", 5000, (parts<quaternion<double, fixed<>, real_first, positive_cross>>));
INST("linear_rn_ff", 5000, (linear<quaternion<float, fixed<>, real_first, negative_cross>, quaternion<float, fixed<>, real_first, negative_cross>>));
INST("linear_rn_ii", 5000, (linear<quaternion<int, fixed<>, real_first, negative_cross>, quaternion<int, fixed<>, real_first, negative_cross>>));
