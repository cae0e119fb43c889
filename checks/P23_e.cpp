// P23: random generators.  Generated by tools/gen_P23.py
#include "boxes.h"
#include "P23_common.h"

INST("scalars_float", 150, (scalars<float>));
INST("vec_fixed2_float", 100, (vec<vector<float, fixed<2>>>));
INST("unit_fixed3_float_1", 100, (unitv<vector<float, fixed<3>>, std::minstd_rand>));
INST("vec_fixed4_unsigned", 100, (vec<vector<unsigned, fixed<4>>>));
INST("unit_fixed7_double_1", 100, (unitv<vector<double, fixed<7>>, std::minstd_rand>));
INST("unit_dynamic_float_2", 100, (unitv<vector<float, dynamic<>>, std::mt19937_64>));
INST("unit_external2_double_0", 100, (unitv<vector<double, external<2>>, std::mt19937>));
INST("vec_external_double", 100, (vec<vector<double, external<>>>));
INST("mat_fixed4x2_rr_double", 60, (mat<matrix<double, fixed<4, 2>, row_basis, row_major>>));
INST("mat_fixed2x2_rc_float", 60, (mat<matrix<float, fixed<2, 2>, row_basis, col_major>>));
INST("mat_external2x3_rc_float", 60, (mat<matrix<float, external<2, 3>, row_basis, col_major>>));
INST("mat_fixed4x2_cr_float", 60, (mat<matrix<float, fixed<4, 2>, col_basis, row_major>>));
INST("mat_fixed2x2_cc_double", 60, (mat<matrix<double, fixed<2, 2>, col_basis, col_major>>));
INST("mat_external2x3_cc_double", 60, (mat<matrix<double, external<2, 3>, col_basis, col_major>>));
INST("cone_fixed2_fixed2_dff", 120, (cone<vector<double, fixed<2>>, vector<float, fixed<2>>, float>));
INST("cone_fixed4_fixed4_dff", 120, (cone<vector<double, fixed<4>>, vector<float, fixed<4>>, float>));
INST("cone_dynamic_fixed2_fff", 120, (cone<vector<float, dynamic<>>, vector<float, fixed<2>>, float>));
INST("cone_fixed3_dynamic_fff", 120, (cone<vector<float, fixed<3>>, vector<float, dynamic<>>, float>));
