// P20: coordinate conversions.  Generated by tools/gen_P20.py
#include "boxes.h"
#include "P20_common.h"

INST("polar_to_fixed2_ff", 1500, (polar_to<vector<float, fixed<2>>, float>));
INST("polar_to_external2_ff", 1500, (polar_to<vector<float, external<2>>, float>));
INST("space_to_fixed3_fff", 1500, (space_to<vector<float, fixed<3>>, float, float>));
INST("space_to_dynamic_ffd", 1500, (space_to<vector<float, dynamic<>>, float, double>));
INST("space_to_external_ddf", 1500, (space_to<vector<double, external<>>, double, float>));
INST("from_fixed2_fff", 1500, (from<vector<float, fixed<2>>, float, float>));
INST("from_fixed3_ffd", 1500, (from<vector<float, fixed<3>>, float, double>));
INST("from_external2_ddf", 1500, (from<vector<double, external<2>>, double, float>));
INST("from_external3_fff", 1500, (from<vector<float, external<3>>, float, float>));
INST("from_external_ffd", 1500, (from<vector<float, external<>>, float, double>));
