// P01: assignment in existing objects, element writes, copies and moves.
#include "boxes.h"
#include "P01_common.h"

INST("assign_fixed2_int", 15000, (assign_all<vector<int, fixed<2>>, double, 2>));
INST("assign_fixed3_double", 15000, (assign_all<vector<double, fixed<3>>, float, 3>));
INST("assign_fixed4_float", 15000, (assign_all<vector<float, fixed<4>>, float, 4>));
INST("assign_fixed6_double", 15000, (assign_all<vector<double, fixed<6>>, int, 6>));
INST("assign_dyn3_double", 15000, (assign_all<vector<double, dynamic<>>, double, 3>));
INST("assign_dyn5_float", 15000, (assign_all<vector<float, dynamic<>>, int, 5>));
INST("assign_dyn4_int", 15000, (assign_all<vector<int, dynamic<>>, double, 4>));
INST("assign_ext3_double", 15000, (assign_all<vector<double, external<3>>, float, 3>));
INST("assign_ext4_int", 15000, (assign_all<vector<int, external<4>>, int, 4>));
INST("assign_extn3_float", 15000, (assign_all<vector<float, external<>>, double, 3>));
INST("assign_extn5_double", 15000, (assign_all<vector<double, external<>>, double, 5>));

INST("write_fixed1_double", 10000, (write_ops<vector<double, fixed<1>>>));
INST("write_fixed3_float", 20000, (write_ops<vector<float, fixed<3>>>));
INST("write_fixed8_int", 20000, (write_ops<vector<int, fixed<8>>>));
INST("write_dyn_double", 20000, (write_ops<vector<double, dynamic<>>>));
INST("write_dyn_int", 20000, (write_ops<vector<int, dynamic<>>>));
INST("write_ext4_float", 20000, (write_ops<vector<float, external<4>>>));
INST("write_ext2_int", 20000, (write_ops<vector<int, external<2>>>));
INST("write_extn_double", 20000, (write_ops<vector<double, external<>>>));

INST("getI_fixed2_double", 4000, (static_get<vector<double, fixed<2>>, 2>));
INST("getI_fixed3_float", 4000, (static_get<vector<float, fixed<3>>, 3>));
INST("getI_fixed4_int", 4000, (static_get<vector<int, fixed<4>>, 4>));
INST("getI_ext3_double", 4000, (static_get<vector<double, external<3>>, 3>));
INST("getI_ext4_float", 4000, (static_get<vector<float, external<4>>, 4>));
