// P20: coordinate conversions.  Generated by tools/gen_P20.py
#include "boxes.h"
#include "P20_common.h"

INST("polar_to_fixed2_dd", 1500, (polar_to<vector<double, fixed<2>>, double>));
INST("polar_to_external2_dd", 1500, (polar_to<vector<double, external<2>>, double>));
INST("space_to_fixed3_ddd", 1500, (space_to<vector<double, fixed<3>>, double, double>));
INST("space_to_dynamic_dfd", 1500, (space_to<vector<double, dynamic<>>, float, double>));
INST("space_to_external3_fdf", 1500, (space_to<vector<float, external<3>>, double, float>));
INST("from_fixed2_ddd", 1500, (from<vector<double, fixed<2>>, double, double>));
INST("from_fixed3_dfd", 1500, (from<vector<double, fixed<3>>, float, double>));
INST("from_dynamic_fdf", 1500, (from<vector<float, dynamic<>>, double, float>));
INST("from_external3_ddd", 1500, (from<vector<double, external<3>>, double, double>));
INST("from_external_dfd", 1500, (from<vector<double, external<>>, float, double>));
