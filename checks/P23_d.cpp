// P23: random generators.  Generated by tools/gen_P23.py
#include "boxes.h"
#include "P23_common.h"

INST("scalars_unsigned", 150, (scalars<unsigned>));
INST("vec_fixed2_int", 100, (vec<vector<int, fixed<2>>>));
INST("unit_fixed3_float_0", 100, (unitv<vector<float, fixed<3>>, std::mt19937>));
INST("vec_fixed4_double", 100, (vec<vector<double, fixed<4>>>));
INST("unit_fixed7_float_1", 100, (unitv<vector<float, fixed<7>>, std::minstd_rand>));
INST("unit_dynamic_float_1", 100, (unitv<vector<float, dynamic<>>, std::minstd_rand>));
INST("unit_external2_float_0", 100, (unitv<vector<float, external<2>>, std::mt19937>));
INST("vec_external_float", 100, (vec<vector<float, external<>>>));
INST("mat_fixed4x2_rr_int", 60, (mat<matrix<int, fixed<4, 2>, row_basis, row_major>>));
INST("mat_fixed2x2_rc_int", 60, (mat<matrix<int, fixed<2, 2>, row_basis, col_major>>));
INST("mat_external2x3_rc_int", 60, (mat<matrix<int, external<2, 3>, row_basis, col_major>>));
INST("mat_fixed4x2_cr_int", 60, (mat<matrix<int, fixed<4, 2>, col_basis, row_major>>));
INST("mat_fixed2x2_cc_int", 60, (mat<matrix<int, fixed<2, 2>, col_basis, col_major>>));
INST("mat_external2x3_cc_int", 60, (mat<matrix<int, external<2, 3>, col_basis, col_major>>));
INST("cone_fixed2_fixed2_fdd", 120, (cone<vector<float, fixed<2>>, vector<double, fixed<2>>, double>));
INST("cone_fixed4_fixed4_fdd", 120, (cone<vector<float, fixed<4>>, vector<double, fixed<4>>, double>));
INST("cone_dynamic_fixed2_ddd", 120, (cone<vector<double, dynamic<>>, vector<double, fixed<2>>, double>));
INST("cone_fixed3_dynamic_ddd", 120, (cone<vector<double, fixed<3>>, vector<double, dynamic<>>, double>));
