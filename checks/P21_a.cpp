// P21: vector geometry helpers.  Generated by tools/gen_P21.py
#include "boxes.h"
#include "P21_common.h"

INST("single_fixed1_d", 2000, (single<vector<double, fixed<1>>>));
INST("single_fixed4_f", 2000, (single<vector<float, fixed<4>>>));
INST("single_external_d", 2000, (single<vector<double, external<>>>));
INST("pairs_fixed2_fixed2_df", 1000, (pairs<vector<double, fixed<2>>, vector<float, fixed<2>>>));
INST("pairs_fixed3_fixed3_ii", 1000, (pairs<vector<int, fixed<3>>, vector<int, fixed<3>>>));
INST("pairs_dynamic_dynamic_ff", 1000, (pairs<vector<float, dynamic<>>, vector<float, dynamic<>>>));
INST("pairs_external3_external3_df", 1000, (pairs<vector<double, external<3>>, vector<float, external<3>>>));
INST("pairs_external_external_ii", 1000, (pairs<vector<int, external<>>, vector<int, external<>>>));
INST("pairs_dynamic_fixed2_fd", 1000, (pairs<vector<float, dynamic<>>, vector<double, fixed<2>>>));
INST("pairs_external3_fixed3_dd", 1000, (pairs<vector<double, external<3>>, vector<double, fixed<3>>>));
INST("plane_fixed2_fixed2_ff", 2000, (plane<vector<float, fixed<2>>, vector<float, fixed<2>>>));
INST("rotate_fixed3_fixed3_df", 2000, (rotate<vector<double, fixed<3>>, vector<float, fixed<3>>, double>));
INST("space_dynamic_dynamic_fd", 2000, (space<vector<float, dynamic<>>, vector<double, dynamic<>>, vector<float, external<3>>>));
INST("plane_external2_fixed2_ff", 2000, (plane<vector<float, external<2>>, vector<float, fixed<2>>>));
INST("rotate_external3_fixed3_df", 2000, (rotate<vector<double, external<3>>, vector<float, fixed<3>>, float>));
INST("space_external_external_fd", 2000, (space<vector<float, external<>>, vector<double, external<>>, vector<float, external<3>>>));
INST("plane_fixed2_dynamic_ff", 2000, (plane<vector<float, fixed<2>>, vector<float, dynamic<>>>));
INST("rotate_fixed3_dynamic_df", 2000, (rotate<vector<double, fixed<3>>, vector<float, dynamic<>>, float>));
