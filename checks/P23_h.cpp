// P23: random generators.  Generated by tools/gen_P23.py
#include "boxes.h"
#include "P23_common.h"

INST("vec_fixed1_float", 100, (vec<vector<float, fixed<1>>>));
INST("unit_fixed2_double_1", 100, (unitv<vector<double, fixed<2>>, std::minstd_rand>));
INST("unit_fixed3_double_1", 100, (unitv<vector<double, fixed<3>>, std::minstd_rand>));
INST("unit_fixed4_double_0", 100, (unitv<vector<double, fixed<4>>, std::mt19937>));
INST("vec_dynamic_double", 100, (vec<vector<double, dynamic<>>>));
INST("unit_dynamic_double_2", 100, (unitv<vector<double, dynamic<>>, std::mt19937_64>));
INST("vec_external3_double", 100, (vec<vector<double, external<3>>>));
INST("mat_fixed2x2_rr_int", 60, (mat<matrix<int, fixed<2, 2>, row_basis, row_major>>));
INST("mat_external2x3_rr_int", 60, (mat<matrix<int, external<2, 3>, row_basis, row_major>>));
INST("mat_fixed4x2_rc_int", 60, (mat<matrix<int, fixed<4, 2>, row_basis, col_major>>));
INST("mat_fixed2x2_cr_int", 60, (mat<matrix<int, fixed<2, 2>, col_basis, row_major>>));
INST("mat_external2x3_cr_int", 60, (mat<matrix<int, external<2, 3>, col_basis, row_major>>));
INST("mat_fixed4x2_cc_int", 60, (mat<matrix<int, fixed<4, 2>, col_basis, col_major>>));
INST("cone_fixed1_fixed1_ddd", 120, (cone<vector<double, fixed<1>>, vector<double, fixed<1>>, double>));
INST("cone_fixed3_fixed3_fdd", 120, (cone<vector<float, fixed<3>>, vector<double, fixed<3>>, double>));
INST("cone_dynamic_dynamic_ddd", 120, (cone<vector<double, dynamic<>>, vector<double, dynamic<>>, double>));
INST("cone_fixed2_dynamic_ddd", 120, (cone<vector<double, fixed<2>>, vector<double, dynamic<>>, double>));
INST("cone_external2_fixed2_ddd", 120, (cone<vector<double, external<2>>, vector<double, fixed<2>>, double>));
