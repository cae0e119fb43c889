// P23: random generators.  Generated by tools/gen_P23.py
#include "boxes.h"
#include "P23_common.h"

INST("scalars_long", 150, (scalars<long>));
INST("unit_fixed1_double_0", 100, (unitv<vector<double, fixed<1>>, std::mt19937>));
INST("vec_fixed3_double", 100, (vec<vector<double, fixed<3>>>));
INST("vec_fixed4_float", 100, (vec<vector<float, fixed<4>>>));
INST("vec_fixed7_double", 100, (vec<vector<double, fixed<7>>>));
INST("unit_dynamic_float_0", 100, (unitv<vector<float, dynamic<>>, std::mt19937>));
INST("vec_external2_double", 100, (vec<vector<double, external<2>>>));
INST("vec_external_int", 100, (vec<vector<int, external<>>>));
INST("mat_fixed3x4_rr_double", 60, (mat<matrix<double, fixed<3, 4>, row_basis, row_major>>));
INST("mat_external_rr_double", 60, (mat<matrix<double, external<>, row_basis, row_major>>));
INST("mat_dynamic_rc_float", 60, (mat<matrix<float, dynamic<>, row_basis, col_major>>));
INST("mat_fixed3x4_cr_float", 60, (mat<matrix<float, fixed<3, 4>, col_basis, row_major>>));
INST("mat_external_cr_float", 60, (mat<matrix<float, external<>, col_basis, row_major>>));
INST("mat_dynamic_cc_double", 60, (mat<matrix<double, dynamic<>, col_basis, col_major>>));
INST("cone_fixed2_fixed2_fff", 120, (cone<vector<float, fixed<2>>, vector<float, fixed<2>>, float>));
INST("cone_fixed4_fixed4_fff", 120, (cone<vector<float, fixed<4>>, vector<float, fixed<4>>, float>));
INST("cone_dynamic_dynamic_dff", 120, (cone<vector<double, dynamic<>>, vector<float, dynamic<>>, float>));
INST("cone_fixed2_dynamic_dff", 120, (cone<vector<double, fixed<2>>, vector<float, dynamic<>>, float>));
INST("cone_external_external_fff", 120, (cone<vector<float, external<>>, vector<float, external<>>, float>));
