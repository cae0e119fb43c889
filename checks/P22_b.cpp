// P22: scalar helpers.  Generated by tools/gen_P22.py
#include "boxes.h"
#include "P22_common.h"

INST("exact_helpers_double", 20000, (exact_helpers<double>));
INST("exact_helpers_int", 20000, (exact_helpers<int>));
INST("exact_helpers_short", 20000, (exact_helpers<short>));
INST("extreme_float", 40000, (extreme<float>));
INST("extreme_long_double", 40000, (extreme<long double>));
INST("extreme_long", 40000, (extreme<long>));
INST("extreme_unsigned", 40000, (extreme<unsigned>));
INST("wrap_map_double", 40000, (wrap_map<double>));
INST("wrap_map_int", 40000, (wrap_map<int>));
INST("reals_float", 30000, (reals<float>));
INST("indices_float", 5000, (indices<float>));
INST("fov_double", 30000, (fov<double>));
INST("reals_long_double", 30000, (reals<long double>));
INST("indices_long_double", 5000, (indices<long double>));
