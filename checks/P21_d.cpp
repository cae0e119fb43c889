// P21: vector geometry helpers.  Generated by tools/gen_P21.py
#include "boxes.h"
#include "P21_common.h"

INST("single_fixed2_f", 2000, (single<vector<float, fixed<2>>>));
INST("single_dynamic_d", 2000, (single<vector<double, dynamic<>>>));
INST("single_cexternal3_d", 2000, (single<vector<const double, external<3>>>));
INST("pairs_fixed3_fixed3_dd", 1000, (pairs<vector<double, fixed<3>>, vector<double, fixed<3>>>));
INST("pairs_fixed4_fixed4_fd", 1000, (pairs<vector<float, fixed<4>>, vector<double, fixed<4>>>));
INST("pairs_dynamic_dynamic_id", 1000, (pairs<vector<int, dynamic<>>, vector<double, dynamic<>>>));
INST("pairs_external_external_dd", 1000, (pairs<vector<double, external<>>, vector<double, external<>>>));
INST("pairs_fixed3_dynamic_fd", 1000, (pairs<vector<float, fixed<3>>, vector<double, dynamic<>>>));
INST("pairs_external_dynamic_dd", 1000, (pairs<vector<double, external<>>, vector<double, dynamic<>>>));
INST("pairs_external3_fixed3_df", 1000, (pairs<vector<double, external<3>>, vector<float, fixed<3>>>));
INST("plane_fixed2_fixed2_fd", 2000, (plane<vector<float, fixed<2>>, vector<double, fixed<2>>>));
INST("rotate_dynamic_dynamic_dd", 2000, (rotate<vector<double, dynamic<>>, vector<double, dynamic<>>, double>));
INST("space_dynamic_dynamic_df", 2000, (space<vector<double, dynamic<>>, vector<float, dynamic<>>, vector<double, external<3>>>));
INST("plane_external2_fixed2_fd", 2000, (plane<vector<float, external<2>>, vector<double, fixed<2>>>));
INST("rotate_external_external_dd", 2000, (rotate<vector<double, external<>>, vector<double, external<>>, double>));
INST("space_external_external_df", 2000, (space<vector<double, external<>>, vector<float, external<>>, vector<double, external<3>>>));
INST("plane_fixed2_dynamic_fd", 2000, (plane<vector<float, fixed<2>>, vector<double, dynamic<>>>));
