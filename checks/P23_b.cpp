// P23: random generators.  Generated by tools/gen_P23.py
#include "boxes.h"
#include "P23_common.h"

INST("scalars_short", 150, (scalars<short>));
INST("unit_fixed1_float_0", 100, (unitv<vector<float, fixed<1>>, std::mt19937>));
INST("vec_fixed3_float", 100, (vec<vector<float, fixed<3>>>));
INST("vec_fixed4_int", 100, (vec<vector<int, fixed<4>>>));
INST("vec_fixed7_float", 100, (vec<vector<float, fixed<7>>>));
INST("vec_dynamic_short", 100, (vec<vector<short, dynamic<>>>));
INST("vec_external2_float", 100, (vec<vector<float, external<2>>>));
INST("unit_external3_double_1", 100, (unitv<vector<double, external<3>>, std::minstd_rand>));
INST("mat_fixed3x4_rr_int", 60, (mat<matrix<int, fixed<3, 4>, row_basis, row_major>>));
INST("mat_external_rr_int", 60, (mat<matrix<int, external<>, row_basis, row_major>>));
INST("mat_dynamic_rc_int", 60, (mat<matrix<int, dynamic<>, row_basis, col_major>>));
INST("mat_fixed3x4_cr_int", 60, (mat<matrix<int, fixed<3, 4>, col_basis, row_major>>));
INST("mat_external_cr_int", 60, (mat<matrix<int, external<>, col_basis, row_major>>));
INST("mat_dynamic_cc_int", 60, (mat<matrix<int, dynamic<>, col_basis, col_major>>));
INST("cone_fixed2_fixed2_ddd", 120, (cone<vector<double, fixed<2>>, vector<double, fixed<2>>, double>));
INST("cone_fixed4_fixed4_ddd", 120, (cone<vector<double, fixed<4>>, vector<double, fixed<4>>, double>));
INST("cone_dynamic_dynamic_fdd", 120, (cone<vector<float, dynamic<>>, vector<double, dynamic<>>, double>));
INST("cone_fixed2_dynamic_fdd", 120, (cone<vector<float, fixed<2>>, vector<double, dynamic<>>, double>));
INST("cone_external_external_ddd", 120, (cone<vector<double, external<>>, vector<double, external<>>, double>));
