// P20: coordinate conversions.  Generated by tools/gen_P20.py
#include "boxes.h"
#include "P20_common.h"

INST("polar_to_dynamic_dd", 1500, (polar_to<vector<double, dynamic<>>, double>));
INST("polar_to_external_dd", 1500, (polar_to<vector<double, external<>>, double>));
INST("space_to_fixed3_fdf", 1500, (space_to<vector<float, fixed<3>>, double, float>));
INST("space_to_external3_ddd", 1500, (space_to<vector<double, external<3>>, double, double>));
INST("space_to_external_dfd", 1500, (space_to<vector<double, external<>>, float, double>));
INST("from_fixed2_fdf", 1500, (from<vector<float, fixed<2>>, double, float>));
INST("from_dynamic_ddd", 1500, (from<vector<double, dynamic<>>, double, double>));
INST("from_external2_dfd", 1500, (from<vector<double, external<2>>, float, double>));
INST("from_external3_fdf", 1500, (from<vector<float, external<3>>, double, float>));
