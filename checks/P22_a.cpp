// P22: scalar helpers.  Generated by tools/gen_P22.py
#include "boxes.h"
#include "P22_common.h"

INST("exact_helpers_float", 20000, (exact_helpers<float>));
INST("exact_helpers_long_double", 20000, (exact_helpers<long double>));
INST("exact_helpers_long", 20000, (exact_helpers<long>));
INST("exact_helpers_unsigned", 20000, (exact_helpers<unsigned>));
INST("extreme_double", 40000, (extreme<double>));
INST("extreme_int", 40000, (extreme<int>));
INST("extreme_short", 40000, (extreme<short>));
INST("wrap_map_float", 40000, (wrap_map<float>));
INST("wrap_map_long_double", 40000, (wrap_map<long double>));
INST("wrap_map_long", 40000, (wrap_map<long>));
INST("fov_float", 30000, (fov<float>));
INST("reals_double", 30000, (reals<double>));
INST("indices_double", 5000, (indices<double>));
INST("fov_long_double", 30000, (fov<long double>));
