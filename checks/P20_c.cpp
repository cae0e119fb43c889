// P20: coordinate conversions.  Generated by tools/gen_P20.py
#include "boxes.h"
#include "P20_common.h"

INST("polar_to_fixed2_fd", 1500, (polar_to<vector<float, fixed<2>>, double>));
INST("polar_to_external2_fd", 1500, (polar_to<vector<float, external<2>>, double>));
INST("space_to_fixed3_dfd", 1500, (space_to<vector<double, fixed<3>>, float, double>));
INST("space_to_dynamic_fdf", 1500, (space_to<vector<float, dynamic<>>, double, float>));
INST("space_to_external_ddd", 1500, (space_to<vector<double, external<>>, double, double>));
INST("from_fixed2_dfd", 1500, (from<vector<double, fixed<2>>, float, double>));
INST("from_fixed3_fdf", 1500, (from<vector<float, fixed<3>>, double, float>));
INST("from_external2_ddd", 1500, (from<vector<double, external<2>>, double, double>));
INST("from_external3_dfd", 1500, (from<vector<double, external<3>>, float, double>));
INST("from_external_fdf", 1500, (from<vector<float, external<>>, double, float>));
