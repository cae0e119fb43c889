// P21: vector geometry helpers.  Generated by tools/gen_P21.py
#include "boxes.h"
#include "P21_common.h"

INST("single_fixed2_d", 2000, (single<vector<double, fixed<2>>>));
INST("single_fixed7_f", 2000, (single<vector<float, fixed<7>>>));
INST("single_external_i", 2000, (single<vector<int, external<>>>));
INST("pairs_fixed2_fixed2_ii", 1000, (pairs<vector<int, fixed<2>>, vector<int, fixed<2>>>));
INST("pairs_fixed4_fixed4_ff", 1000, (pairs<vector<float, fixed<4>>, vector<float, fixed<4>>>));
INST("pairs_dynamic_dynamic_df", 1000, (pairs<vector<double, dynamic<>>, vector<float, dynamic<>>>));
INST("pairs_external3_external3_ii", 1000, (pairs<vector<int, external<3>>, vector<int, external<3>>>));
INST("pairs_fixed3_dynamic_ff", 1000, (pairs<vector<float, fixed<3>>, vector<float, dynamic<>>>));
INST("pairs_dynamic_fixed2_id", 1000, (pairs<vector<int, dynamic<>>, vector<double, fixed<2>>>));
INST("pairs_external3_fixed3_fd", 1000, (pairs<vector<float, external<3>>, vector<double, fixed<3>>>));
INST("rotate_fixed3_fixed3_ff", 2000, (rotate<vector<float, fixed<3>>, vector<float, fixed<3>>, float>));
INST("space_dynamic_dynamic_dd", 2000, (space<vector<double, dynamic<>>, vector<double, dynamic<>>, vector<double, external<3>>>));
INST("plane_dynamic_dynamic_df", 2000, (plane<vector<double, dynamic<>>, vector<float, dynamic<>>>));
INST("rotate_external3_fixed3_ff", 2000, (rotate<vector<float, external<3>>, vector<float, fixed<3>>, float>));
INST("space_external_external_dd", 2000, (space<vector<double, external<>>, vector<double, external<>>, vector<double, external<3>>>));
INST("plane_external_external_df", 2000, (plane<vector<double, external<>>, vector<float, external<>>>));
INST("rotate_fixed3_dynamic_ff", 2000, (rotate<vector<float, fixed<3>>, vector<float, dynamic<>>, float>));
