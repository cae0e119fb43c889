// P25: quaternion contents.  Generated by tools/gen_P25.py
#include "boxes.h"
#include "P25_common.h"

INST("history_din_drp_dynamicf", 2000, (history<quaternion<double, fixed<>, imaginary_first, negative_cross>, quaternion<double, fixed<>, real_first, positive_cross>, vector<float, dynamic<>>>));
INST("history_fin_frp_external3d", 2000, (history<quaternion<float, fixed<>, imaginary_first, negative_cross>, quaternion<float, fixed<>, real_first, positive_cross>, vector<double, external<3>>>));
INST("history_fin_drp_externald", 2000, (history<quaternion<float, fixed<>, imaginary_first, negative_cross>, quaternion<double, fixed<>, real_first, positive_cross>, vector<double, external<>>>));
INST("history_din_frp_fixed3f", 2000, (history<quaternion<double, fixed<>, imaginary_first, negative_cross>, quaternion<float, fixed<>, real_first, positive_cross>, vector<float, fixed<3>>>));
INST("history_iin_irp_dynamici", 2000, (history<quaternion<int, fixed<>, imaginary_first, negative_cross>, quaternion<int, fixed<>, real_first, positive_cross>, vector<int, dynamic<>>>));
INST("history_iin_drp_external3d", 2000, (history<quaternion<int, fixed<>, imaginary_first, negative_cross>, quaternion<double, fixed<>, real_first, positive_cross>, vector<double, external<3>>>));
INST("history_din_irp_externalf", 2000, (history<quaternion<double, fixed<>, imaginary_first, negative_cross>, quaternion<int, fixed<>, real_first, positive_cross>, vector<float, external<>>>));
