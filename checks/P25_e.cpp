// P25: quaternion contents.  Generated by tools/gen_P25.py
#include "boxes.h"
#include "P25_common.h"

INST("history_drp_din_external3i", 2000, (history<quaternion<double, fixed<>, real_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, negative_cross>, vector<int, external<3>>>));
INST("history_frp_fin_externalf", 2000, (history<quaternion<float, fixed<>, real_first, positive_cross>, quaternion<float, fixed<>, imaginary_first, negative_cross>, vector<float, external<>>>));
INST("history_frp_din_fixed3f", 2000, (history<quaternion<float, fixed<>, real_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, negative_cross>, vector<float, fixed<3>>>));
INST("history_drp_fin_dynamici", 2000, (history<quaternion<double, fixed<>, real_first, positive_cross>, quaternion<float, fixed<>, imaginary_first, negative_cross>, vector<int, dynamic<>>>));
INST("history_irp_iin_external3d", 2000, (history<quaternion<int, fixed<>, real_first, positive_cross>, quaternion<int, fixed<>, imaginary_first, negative_cross>, vector<double, external<3>>>));
INST("history_irp_din_externalf", 2000, (history<quaternion<int, fixed<>, real_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, negative_cross>, vector<float, external<>>>));
INST("history_drp_iin_fixed3i", 2000, (history<quaternion<double, fixed<>, real_first, positive_cross>, quaternion<int, fixed<>, imaginary_first, negative_cross>, vector<int, fixed<3>>>));
