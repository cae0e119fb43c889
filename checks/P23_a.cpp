// P23: random generators.  Generated by tools/gen_P23.py
#include "boxes.h"
#include "P23_common.h"

INST("scalars_int", 150, (scalars<int>));
INST("vec_fixed1_double", 100, (vec<vector<double, fixed<1>>>));
INST("vec_fixed3_int", 100, (vec<vector<int, fixed<3>>>));
INST("unit_fixed3_double_2", 100, (unitv<vector<double, fixed<3>>, std::mt19937_64>));
INST("vec_fixed7_int", 100, (vec<vector<int, fixed<7>>>));
INST("vec_dynamic_unsigned", 100, (vec<vector<unsigned, dynamic<>>>));
INST("vec_external2_int", 100, (vec<vector<int, external<2>>>));
INST("unit_external3_float_1", 100, (unitv<vector<float, external<3>>, std::minstd_rand>));
INST("mat_fixed2x2_rr_double", 60, (mat<matrix<double, fixed<2, 2>, row_basis, row_major>>));
INST("mat_external2x3_rr_double", 60, (mat<matrix<double, external<2, 3>, row_basis, row_major>>));
INST("mat_fixed4x2_rc_float", 60, (mat<matrix<float, fixed<4, 2>, row_basis, col_major>>));
INST("mat_fixed2x2_cr_float", 60, (mat<matrix<float, fixed<2, 2>, col_basis, row_major>>));
INST("mat_external2x3_cr_float", 60, (mat<matrix<float, external<2, 3>, col_basis, row_major>>));
INST("mat_fixed4x2_cc_double", 60, (mat<matrix<double, fixed<4, 2>, col_basis, col_major>>));
INST("cone_fixed1_fixed1_fff", 120, (cone<vector<float, fixed<1>>, vector<float, fixed<1>>, float>));
INST("cone_fixed3_fixed3_dff", 120, (cone<vector<double, fixed<3>>, vector<float, fixed<3>>, float>));
INST("cone_dynamic_dynamic_fff", 120, (cone<vector<float, dynamic<>>, vector<float, dynamic<>>, float>));
INST("cone_fixed2_dynamic_fff", 120, (cone<vector<float, fixed<2>>, vector<float, dynamic<>>, float>));
INST("cone_external2_fixed2_fff", 120, (cone<vector<float, external<2>>, vector<float, fixed<2>>, float>));
