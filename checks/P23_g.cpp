// P23: random generators.  Generated by tools/gen_P23.py
#include "boxes.h"
#include "P23_common.h"

INST("vec_fixed1_int", 100, (vec<vector<int, fixed<1>>>));
INST("unit_fixed2_float_1", 100, (unitv<vector<float, fixed<2>>, std::minstd_rand>));
INST("unit_fixed3_double_0", 100, (unitv<vector<double, fixed<3>>, std::mt19937>));
INST("unit_fixed4_float_0", 100, (unitv<vector<float, fixed<4>>, std::mt19937>));
INST("vec_dynamic_float", 100, (vec<vector<float, dynamic<>>>));
INST("unit_dynamic_double_1", 100, (unitv<vector<double, dynamic<>>, std::minstd_rand>));
INST("vec_external3_float", 100, (vec<vector<float, external<3>>>));
INST("unit_external_double_2", 100, (unitv<vector<double, external<>>, std::mt19937_64>));
INST("mat_dynamic_rr_double", 60, (mat<matrix<double, dynamic<>, row_basis, row_major>>));
INST("mat_fixed3x4_rc_float", 60, (mat<matrix<float, fixed<3, 4>, row_basis, col_major>>));
INST("mat_external_rc_float", 60, (mat<matrix<float, external<>, row_basis, col_major>>));
INST("mat_dynamic_cr_float", 60, (mat<matrix<float, dynamic<>, col_basis, row_major>>));
INST("mat_fixed3x4_cc_double", 60, (mat<matrix<double, fixed<3, 4>, col_basis, col_major>>));
INST("mat_external_cc_double", 60, (mat<matrix<double, external<>, col_basis, col_major>>));
INST("cone_fixed3_fixed3_fff", 120, (cone<vector<float, fixed<3>>, vector<float, fixed<3>>, float>));
INST("cone_fixed6_fixed6_fff", 120, (cone<vector<float, fixed<6>>, vector<float, fixed<6>>, float>));
INST("cone_dynamic_fixed3_fff", 120, (cone<vector<float, dynamic<>>, vector<float, fixed<3>>, float>));
INST("cone_external3_external3_fff", 120, (cone<vector<float, external<3>>, vector<float, external<3>>, float>));
