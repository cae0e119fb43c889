// P20: coordinate conversions.  Generated by tools/gen_P20.py
#include "boxes.h"
#include "P20_common.h"

INST("polar_to_fixed2_df", 1500, (polar_to<vector<double, fixed<2>>, float>));
INST("polar_to_external2_df", 1500, (polar_to<vector<double, external<2>>, float>));
INST("space_to_fixed3_ddf", 1500, (space_to<vector<double, fixed<3>>, double, float>));
INST("space_to_dynamic_fff", 1500, (space_to<vector<float, dynamic<>>, float, float>));
INST("space_to_external3_ffd", 1500, (space_to<vector<float, external<3>>, float, double>));
INST("from_fixed2_ddf", 1500, (from<vector<double, fixed<2>>, double, float>));
INST("from_fixed3_fff", 1500, (from<vector<float, fixed<3>>, float, float>));
INST("from_dynamic_ffd", 1500, (from<vector<float, dynamic<>>, float, double>));
INST("from_external3_ddf", 1500, (from<vector<double, external<3>>, double, float>));
INST("from_external_fff", 1500, (from<vector<float, external<>>, float, float>));
