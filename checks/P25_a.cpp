// P25: quaternion contents.  Generated by tools/gen_P25.py
#include "boxes.h"
#include "P25_common.h"

INST("history_dip_dip_fixed3d", 2000, (history<quaternion<double, fixed<>, imaginary_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, positive_cross>, vector<double, fixed<3>>>));
INST("history_fip_fip_dynamicf", 2000, (history<quaternion<float, fixed<>, imaginary_first, positive_cross>, quaternion<float, fixed<>, imaginary_first, positive_cross>, vector<float, dynamic<>>>));
INST("history_fip_dip_external3f", 2000, (history<quaternion<float, fixed<>, imaginary_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, positive_cross>, vector<float, external<3>>>));
INST("history_dip_fip_externald", 2000, (history<quaternion<double, fixed<>, imaginary_first, positive_cross>, quaternion<float, fixed<>, imaginary_first, positive_cross>, vector<double, external<>>>));
INST("history_iip_iip_fixed3f", 2000, (history<quaternion<int, fixed<>, imaginary_first, positive_cross>, quaternion<int, fixed<>, imaginary_first, positive_cross>, vector<float, fixed<3>>>));
INST("history_iip_dip_dynamici", 2000, (history<quaternion<int, fixed<>, imaginary_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, positive_cross>, vector<int, dynamic<>>>));
INST("history_dip_iip_external3d", 2000, (history<quaternion<double, fixed<>, imaginary_first, positive_cross>, quaternion<int, fixed<>, imaginary_first, positive_cross>, vector<double, external<3>>>));
