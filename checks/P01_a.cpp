// P01: vector storage - construction from elements / arrays / pointers /
// lists / vectors and element access.
#include "boxes.h"
#include "P01_common.h"

INST("ctor_fixed1_double", 10000, (ctor_fixed<double, double, 1>));
INST("ctor_fixed2_float_from_double", 20000, (ctor_fixed<float, double, 2>));
INST("ctor_fixed3_double", 20000, (ctor_fixed<double, double, 3>));
INST("ctor_fixed3_int_from_double", 20000, (ctor_fixed<int, double, 3>));
INST("ctor_fixed4_float", 20000, (ctor_fixed<float, float, 4>));
INST("ctor_fixed4_double_from_int", 20000, (ctor_fixed<double, int, 4>));
INST("ctor_fixed5_int", 20000, (ctor_fixed<int, int, 5>));
INST("ctor_fixed7_double_from_float", 20000, (ctor_fixed<double, float, 7>));

INST("ctor_dyn1_double", 10000, (ctor_dyn<double, double, 1>));
INST("ctor_dyn2_float", 20000, (ctor_dyn<float, float, 2>));
INST("ctor_dyn3_int_from_double", 20000, (ctor_dyn<int, double, 3>));
INST("ctor_dyn4_double", 20000, (ctor_dyn<double, double, 4>));
INST("ctor_dyn6_float_from_int", 20000, (ctor_dyn<float, int, 6>));
INST("ctor_dyn8_double_from_float", 20000, (ctor_dyn<double, float, 8>));
