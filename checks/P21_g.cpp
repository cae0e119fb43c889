// P21: vector geometry helpers.  Generated by tools/gen_P21.py
#include "boxes.h"
#include "P21_common.h"

INST("single_fixed3_i", 2000, (single<vector<int, fixed<3>>>));
INST("single_external3_d", 2000, (single<vector<double, external<3>>>));
INST("pairs_fixed2_fixed2_ff", 1000, (pairs<vector<float, fixed<2>>, vector<float, fixed<2>>>));
INST("pairs_fixed3_fixed3_df", 1000, (pairs<vector<double, fixed<3>>, vector<float, fixed<3>>>));
INST("pairs_fixed4_fixed4_ii", 1000, (pairs<vector<int, fixed<4>>, vector<int, fixed<4>>>));
INST("pairs_external3_external3_ff", 1000, (pairs<vector<float, external<3>>, vector<float, external<3>>>));
INST("pairs_external_external_df", 1000, (pairs<vector<double, external<>>, vector<float, external<>>>));
INST("pairs_dynamic_fixed2_dd", 1000, (pairs<vector<double, dynamic<>>, vector<double, fixed<2>>>));
INST("pairs_external_dynamic_df", 1000, (pairs<vector<double, external<>>, vector<float, dynamic<>>>));
INST("space_fixed3_fixed3_dd", 2000, (space<vector<double, fixed<3>>, vector<double, fixed<3>>, vector<double, dynamic<>>>));
INST("plane_fixed2_fixed2_df", 2000, (plane<vector<double, fixed<2>>, vector<float, fixed<2>>>));
INST("rotate_dynamic_dynamic_ff", 2000, (rotate<vector<float, dynamic<>>, vector<float, dynamic<>>, float>));
INST("space_external3_fixed3_dd", 2000, (space<vector<double, external<3>>, vector<double, fixed<3>>, vector<double, external<3>>>));
INST("plane_external2_fixed2_df", 2000, (plane<vector<double, external<2>>, vector<float, fixed<2>>>));
INST("rotate_external_external_ff", 2000, (rotate<vector<float, external<>>, vector<float, external<>>, float>));
INST("space_fixed3_dynamic_dd", 2000, (space<vector<double, fixed<3>>, vector<double, dynamic<>>, vector<double, dynamic<>>>));
INST("plane_fixed2_dynamic_df", 2000, (plane<vector<double, fixed<2>>, vector<float, dynamic<>>>));
