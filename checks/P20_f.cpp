// P20: coordinate conversions.  Generated by tools/gen_P20.py
#include "boxes.h"
#include "P20_common.h"

INST("polar_to_dynamic_df", 1500, (polar_to<vector<double, dynamic<>>, float>));
INST("polar_to_external_df", 1500, (polar_to<vector<double, external<>>, float>));
INST("space_to_fixed3_ffd", 1500, (space_to<vector<float, fixed<3>>, float, double>));
INST("space_to_external3_ddf", 1500, (space_to<vector<double, external<3>>, double, float>));
INST("space_to_external_fff", 1500, (space_to<vector<float, external<>>, float, float>));
INST("from_fixed2_ffd", 1500, (from<vector<float, fixed<2>>, float, double>));
INST("from_dynamic_ddf", 1500, (from<vector<double, dynamic<>>, double, float>));
INST("from_external2_fff", 1500, (from<vector<float, external<2>>, float, float>));
INST("from_external3_ffd", 1500, (from<vector<float, external<3>>, float, double>));
