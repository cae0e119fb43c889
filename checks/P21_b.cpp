// P21: vector geometry helpers.  Generated by tools/gen_P21.py
#include "boxes.h"
#include "P21_common.h"

INST("single_fixed1_f", 2000, (single<vector<float, fixed<1>>>));
INST("single_fixed7_d", 2000, (single<vector<double, fixed<7>>>));
INST("single_external_f", 2000, (single<vector<float, external<>>>));
INST("pairs_fixed2_fixed2_id", 1000, (pairs<vector<int, fixed<2>>, vector<double, fixed<2>>>));
INST("pairs_fixed4_fixed4_dd", 1000, (pairs<vector<double, fixed<4>>, vector<double, fixed<4>>>));
INST("pairs_dynamic_dynamic_fd", 1000, (pairs<vector<float, dynamic<>>, vector<double, dynamic<>>>));
INST("pairs_external3_external3_id", 1000, (pairs<vector<int, external<3>>, vector<double, external<3>>>));
INST("pairs_fixed3_dynamic_dd", 1000, (pairs<vector<double, fixed<3>>, vector<double, dynamic<>>>));
INST("pairs_dynamic_fixed2_df", 1000, (pairs<vector<double, dynamic<>>, vector<float, fixed<2>>>));
INST("pairs_external3_fixed3_ff", 1000, (pairs<vector<float, external<3>>, vector<float, fixed<3>>>));
INST("space_fixed3_fixed3_ff", 2000, (space<vector<float, fixed<3>>, vector<float, fixed<3>>, vector<float, dynamic<>>>));
INST("plane_dynamic_dynamic_dd", 2000, (plane<vector<double, dynamic<>>, vector<double, dynamic<>>>));
INST("rotate_dynamic_dynamic_fd", 2000, (rotate<vector<float, dynamic<>>, vector<double, dynamic<>>, float>));
INST("space_external3_fixed3_ff", 2000, (space<vector<float, external<3>>, vector<float, fixed<3>>, vector<float, external<3>>>));
INST("plane_external_external_dd", 2000, (plane<vector<double, external<>>, vector<double, external<>>>));
INST("rotate_external_external_fd", 2000, (rotate<vector<float, external<>>, vector<double, external<>>, float>));
INST("space_fixed3_dynamic_ff", 2000, (space<vector<float, fixed<3>>, vector<float, dynamic<>>, vector<float, dynamic<>>>));
