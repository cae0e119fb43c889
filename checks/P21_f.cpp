// P21: vector geometry helpers.  Generated by tools/gen_P21.py
#include "boxes.h"
#include "P21_common.h"

INST("single_fixed3_f", 2000, (single<vector<float, fixed<3>>>));
INST("single_dynamic_i", 2000, (single<vector<int, dynamic<>>>));
INST("pairs_fixed2_fixed2_dd", 1000, (pairs<vector<double, fixed<2>>, vector<double, fixed<2>>>));
INST("pairs_fixed3_fixed3_fd", 1000, (pairs<vector<float, fixed<3>>, vector<double, fixed<3>>>));
INST("pairs_fixed4_fixed4_id", 1000, (pairs<vector<int, fixed<4>>, vector<double, fixed<4>>>));
INST("pairs_external3_external3_dd", 1000, (pairs<vector<double, external<3>>, vector<double, external<3>>>));
INST("pairs_external_external_fd", 1000, (pairs<vector<float, external<>>, vector<double, external<>>>));
INST("pairs_fixed3_dynamic_id", 1000, (pairs<vector<int, fixed<3>>, vector<double, dynamic<>>>));
INST("pairs_external_dynamic_fd", 1000, (pairs<vector<float, external<>>, vector<double, dynamic<>>>));
INST("plane_fixed2_fixed2_dd", 2000, (plane<vector<double, fixed<2>>, vector<double, fixed<2>>>));
INST("rotate_fixed3_fixed3_fd", 2000, (rotate<vector<float, fixed<3>>, vector<double, fixed<3>>, float>));
INST("space_dynamic_dynamic_ff", 2000, (space<vector<float, dynamic<>>, vector<float, dynamic<>>, vector<float, external<3>>>));
INST("plane_external2_fixed2_dd", 2000, (plane<vector<double, external<2>>, vector<double, fixed<2>>>));
INST("rotate_external3_fixed3_fd", 2000, (rotate<vector<float, external<3>>, vector<double, fixed<3>>, double>));
INST("space_external_external_ff", 2000, (space<vector<float, external<>>, vector<float, external<>>, vector<float, external<3>>>));
INST("plane_fixed2_dynamic_dd", 2000, (plane<vector<double, fixed<2>>, vector<double, dynamic<>>>));
INST("rotate_fixed3_dynamic_fd", 2000, (rotate<vector<float, fixed<3>>, vector<double, dynamic<>>, double>));
