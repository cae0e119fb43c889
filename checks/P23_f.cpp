// P23: random generators.  Generated by tools/gen_P23.py
#include "boxes.h"
#include "P23_common.h"

INST("scalars_double", 150, (scalars<double>));
INST("vec_fixed2_double", 100, (vec<vector<double, fixed<2>>>));
INST("unit_fixed3_float_2", 100, (unitv<vector<float, fixed<3>>, std::mt19937_64>));
INST("vec_fixed4_short", 100, (vec<vector<short, fixed<4>>>));
INST("vec_dynamic_int", 100, (vec<vector<int, dynamic<>>>));
INST("unit_dynamic_double_0", 100, (unitv<vector<double, dynamic<>>, std::mt19937>));
INST("vec_external3_int", 100, (vec<vector<int, external<3>>>));
INST("unit_external_float_2", 100, (unitv<vector<float, external<>>, std::mt19937_64>));
INST("mat_dynamic_rr_int", 60, (mat<matrix<int, dynamic<>, row_basis, row_major>>));
INST("mat_fixed3x4_rc_int", 60, (mat<matrix<int, fixed<3, 4>, row_basis, col_major>>));
INST("mat_external_rc_int", 60, (mat<matrix<int, external<>, row_basis, col_major>>));
INST("mat_dynamic_cr_int", 60, (mat<matrix<int, dynamic<>, col_basis, row_major>>));
INST("mat_fixed3x4_cc_int", 60, (mat<matrix<int, fixed<3, 4>, col_basis, col_major>>));
INST("mat_external_cc_int", 60, (mat<matrix<int, external<>, col_basis, col_major>>));
INST("cone_fixed3_fixed3_ddd", 120, (cone<vector<double, fixed<3>>, vector<double, fixed<3>>, double>));
INST("cone_fixed6_fixed6_ddd", 120, (cone<vector<double, fixed<6>>, vector<double, fixed<6>>, double>));
INST("cone_dynamic_fixed3_ddd", 120, (cone<vector<double, dynamic<>>, vector<double, fixed<3>>, double>));
INST("cone_external3_external3_ddd", 120, (cone<vector<double, external<3>>, vector<double, external<3>>, double>));
