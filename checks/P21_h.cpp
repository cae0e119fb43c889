// P21: vector geometry helpers.  Generated by tools/gen_P21.py
#include "boxes.h"
#include "P21_common.h"

INST("single_fixed4_d", 2000, (single<vector<double, fixed<4>>>));
INST("single_external3_f", 2000, (single<vector<float, external<3>>>));
INST("pairs_fixed2_fixed2_fd", 1000, (pairs<vector<float, fixed<2>>, vector<double, fixed<2>>>));
INST("pairs_fixed3_fixed3_id", 1000, (pairs<vector<int, fixed<3>>, vector<double, fixed<3>>>));
INST("pairs_dynamic_dynamic_dd", 1000, (pairs<vector<double, dynamic<>>, vector<double, dynamic<>>>));
INST("pairs_external3_external3_fd", 1000, (pairs<vector<float, external<3>>, vector<double, external<3>>>));
INST("pairs_external_external_id", 1000, (pairs<vector<int, external<>>, vector<double, external<>>>));
INST("pairs_dynamic_fixed2_ff", 1000, (pairs<vector<float, dynamic<>>, vector<float, fixed<2>>>));
INST("pairs_external_dynamic_id", 1000, (pairs<vector<int, external<>>, vector<double, dynamic<>>>));
INST("rotate_fixed3_fixed3_dd", 2000, (rotate<vector<double, fixed<3>>, vector<double, fixed<3>>, double>));
INST("space_fixed3_fixed3_df", 2000, (space<vector<double, fixed<3>>, vector<float, fixed<3>>, vector<double, dynamic<>>>));
INST("plane_dynamic_dynamic_fd", 2000, (plane<vector<float, dynamic<>>, vector<double, dynamic<>>>));
INST("rotate_external3_fixed3_dd", 2000, (rotate<vector<double, external<3>>, vector<double, fixed<3>>, double>));
INST("space_external3_fixed3_df", 2000, (space<vector<double, external<3>>, vector<float, fixed<3>>, vector<double, external<3>>>));
INST("plane_external_external_fd", 2000, (plane<vector<float, external<>>, vector<double, external<>>>));
INST("rotate_fixed3_dynamic_dd", 2000, (rotate<vector<double, fixed<3>>, vector<double, dynamic<>>, double>));
INST("space_fixed3_dynamic_df", 2000, (space<vector<double, fixed<3>>, vector<float, dynamic<>>, vector<double, dynamic<>>>));
