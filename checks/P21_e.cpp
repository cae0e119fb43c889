// P21: vector geometry helpers.  Generated by tools/gen_P21.py
#include "boxes.h"
#include "P21_common.h"

INST("single_fixed3_d", 2000, (single<vector<double, fixed<3>>>));
INST("single_dynamic_f", 2000, (single<vector<float, dynamic<>>>));
INST("single_cexternal_d", 2000, (single<vector<const double, external<>>>));
INST("pairs_fixed3_fixed3_ff", 1000, (pairs<vector<float, fixed<3>>, vector<float, fixed<3>>>));
INST("pairs_fixed4_fixed4_df", 1000, (pairs<vector<double, fixed<4>>, vector<float, fixed<4>>>));
INST("pairs_dynamic_dynamic_ii", 1000, (pairs<vector<int, dynamic<>>, vector<int, dynamic<>>>));
INST("pairs_external_external_ff", 1000, (pairs<vector<float, external<>>, vector<float, external<>>>));
INST("pairs_fixed3_dynamic_df", 1000, (pairs<vector<double, fixed<3>>, vector<float, dynamic<>>>));
INST("pairs_external_dynamic_ff", 1000, (pairs<vector<float, external<>>, vector<float, dynamic<>>>));
INST("pairs_external3_fixed3_id", 1000, (pairs<vector<int, external<3>>, vector<double, fixed<3>>>));
INST("space_fixed3_fixed3_fd", 2000, (space<vector<float, fixed<3>>, vector<double, fixed<3>>, vector<float, dynamic<>>>));
INST("plane_dynamic_dynamic_ff", 2000, (plane<vector<float, dynamic<>>, vector<float, dynamic<>>>));
INST("rotate_dynamic_dynamic_df", 2000, (rotate<vector<double, dynamic<>>, vector<float, dynamic<>>, double>));
INST("space_external3_fixed3_fd", 2000, (space<vector<float, external<3>>, vector<double, fixed<3>>, vector<float, external<3>>>));
INST("plane_external_external_ff", 2000, (plane<vector<float, external<>>, vector<float, external<>>>));
INST("rotate_external_external_df", 2000, (rotate<vector<double, external<>>, vector<float, external<>>, double>));
INST("space_fixed3_dynamic_fd", 2000, (space<vector<float, fixed<3>>, vector<double, dynamic<>>, vector<float, dynamic<>>>));
