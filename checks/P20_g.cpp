// P20: coordinate conversions.  Generated by tools/gen_P20.py
#include "boxes.h"
#include "P20_common.h"

INST("polar_to_dynamic_fd", 1500, (polar_to<vector<float, dynamic<>>, double>));
INST("polar_to_external_fd", 1500, (polar_to<vector<float, external<>>, double>));
INST("space_to_dynamic_ddd", 1500, (space_to<vector<double, dynamic<>>, double, double>));
INST("space_to_external3_dfd", 1500, (space_to<vector<double, external<3>>, float, double>));
INST("space_to_external_fdf", 1500, (space_to<vector<float, external<>>, double, float>));
INST("from_fixed3_ddd", 1500, (from<vector<double, fixed<3>>, double, double>));
INST("from_dynamic_dfd", 1500, (from<vector<double, dynamic<>>, float, double>));
INST("from_external2_fdf", 1500, (from<vector<float, external<2>>, double, float>));
INST("from_external_ddd", 1500, (from<vector<double, external<>>, double, double>));
