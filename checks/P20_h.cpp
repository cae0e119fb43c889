// P20: coordinate conversions.  Generated by tools/gen_P20.py
#include "boxes.h"
#include "P20_common.h"

INST("polar_to_dynamic_ff", 1500, (polar_to<vector<float, dynamic<>>, float>));
INST("polar_to_external_ff", 1500, (polar_to<vector<float, external<>>, float>));
INST("space_to_dynamic_ddf", 1500, (space_to<vector<double, dynamic<>>, double, float>));
INST("space_to_external3_fff", 1500, (space_to<vector<float, external<3>>, float, float>));
INST("space_to_external_ffd", 1500, (space_to<vector<float, external<>>, float, double>));
INST("from_fixed3_ddf", 1500, (from<vector<double, fixed<3>>, double, float>));
INST("from_dynamic_fff", 1500, (from<vector<float, dynamic<>>, float, float>));
INST("from_external2_ffd", 1500, (from<vector<float, external<2>>, float, double>));
INST("from_external_ddf", 1500, (from<vector<double, external<>>, double, float>));
