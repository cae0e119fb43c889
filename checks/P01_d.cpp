// P01: larger sizes.
#include "boxes.h"
#include "P01_common.h"

INST("ctor_fixed9_double_from_double", 4000, (ctor_fixed<double, double, 9>));
INST("ctor_fixed12_float_from_int", 4000, (ctor_fixed<float, int, 12>));
INST("ctor_fixed17_int_from_int", 4000, (ctor_fixed<int, int, 17>));
INST("ctor_dyn9_float_from_double", 4000, (ctor_dyn<float, double, 9>));
INST("ctor_dyn17_double_from_int", 4000, (ctor_dyn<double, int, 17>));
INST("assign_fixed9_float_from_double", 4000, (assign_all<vector<float, fixed<9>>, double, 9>));
INST("assign_fixed13_int_from_int", 4000, (assign_all<vector<int, fixed<13>>, int, 13>));
INST("assign_dynamic10_double_from_float", 4000, (assign_all<vector<double, dynamic<>>, float, 10>));
INST("assign_external9_double_from_int", 4000, (assign_all<vector<double, external<9>>, int, 9>));
INST("assign_externaln11_int_from_double", 4000, (assign_all<vector<int, external<>>, double, 11>));
INST("writes_fixed16_double", 4000, (write_ops<vector<double, fixed<16>>>));
INST("cross_fixed9_dynamic", 4000, (cross<vector<float, fixed<9>>, vector<double, dynamic<>>>));
INST("cross_external12_fixed12", 4000, (cross<vector<double, external<12>>, vector<int, fixed<12>>>));
INST("combine_fixed9_fixed8", 4000, (combine<vector<double, fixed<9>>, vector<double, fixed<8>>, 1>));
INST("combine_fixed11_dynamic", 4000, (combine<vector<double, fixed<11>>, vector<double, dynamic<>>, 3>));
