// P14: quaternion algebra.  Generated by tools/gen_P14.py
#include "boxes.h"
#include "P14_common.h"

INST("linear_ip_id", 5000, (linear<quaternion<int, fixed<>, imaginary_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, positive_cross>>));
INST("explog_ip_d", 10000, (explog<quaternion<double, fixed<>, imaginary_first, positive_cross>>));
INST("linear_in_df", 5000, (linear<quaternion<double, fixed<>, imaginary_first, negative_cross>, quaternion<float, fixed<>, imaginary_first, negative_cross>>));
INST("parts_in_d", 5000, (parts<quaternion<double, fixed<>, imaginary_first, negative_cross>>));
INST("linear_rp_ff", 5000, (linear<quaternion<float, fixed<>, real_first, positive_cross>, quaternion<float, fixed<>, real_first, positive_cross>>));
INST("linear_rp_ii", 5000, (linear<quaternion<int, fixed<>, real_first, positive_cross>, quaternion<int, fixed<>, real_first, positive_cross>>));
INST("linear_rn_dd", 5000, (linear<quaternion<double, fixed<>, real_first, negative_cross>, quaternion<double, fixed<>, real_first, negative_cross>>));
INST("linear_rn_fi", 5000, (linear<quaternion<float, fixed<>, real_first, negative_cross>, quaternion<int, fixed<>, real_first, negative_cross>>));
INST("inexact_rn_f", 8000, (inexact<quaternion<float, fixed<>, real_first, negative_cross>>));
