// P25: quaternion contents.  Generated by tools/gen_P25.py
#include "boxes.h"
#include "P25_common.h"

INST("history_drn_drn_externald", 2000, (history<quaternion<double, fixed<>, real_first, negative_cross>, quaternion<double, fixed<>, real_first, negative_cross>, vector<double, external<>>>));
INST("history_frn_frn_fixed3d", 2000, (history<quaternion<float, fixed<>, real_first, negative_cross>, quaternion<float, fixed<>, real_first, negative_cross>, vector<double, fixed<3>>>));
INST("history_frn_drn_dynamicd", 2000, (history<quaternion<float, fixed<>, real_first, negative_cross>, quaternion<double, fixed<>, real_first, negative_cross>, vector<double, dynamic<>>>));
INST("history_drn_frn_external3d", 2000, (history<quaternion<double, fixed<>, real_first, negative_cross>, quaternion<float, fixed<>, real_first, negative_cross>, vector<double, external<3>>>));
INST("history_irn_irn_externalf", 2000, (history<quaternion<int, fixed<>, real_first, negative_cross>, quaternion<int, fixed<>, real_first, negative_cross>, vector<float, external<>>>));
INST("history_irn_drn_fixed3i", 2000, (history<quaternion<int, fixed<>, real_first, negative_cross>, quaternion<double, fixed<>, real_first, negative_cross>, vector<int, fixed<3>>>));
INST("history_drn_irn_dynamicd", 2000, (history<quaternion<double, fixed<>, real_first, negative_cross>, quaternion<int, fixed<>, real_first, negative_cross>, vector<double, dynamic<>>>));
