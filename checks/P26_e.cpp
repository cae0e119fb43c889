// P26: reentrancy.  Generated by tools/gen_P26.py
#include "boxes.h"
#include "P26_common.h"

INST("mat_double_cbcm", 1000, (concurrent<MatWorld<double, col_basis, col_major>>));
INST("changed_mat_double_cbcm", 6000, (changed<MatWorld<double, col_basis, col_major>>));
INST("order_mat_double_cbcm", 6000, (anyorder<MatWorld<double, col_basis, col_major>>));
INST("disjoint_vec_0_double", 300, (disjoint_vec<vector<double, fixed<4>>>));
INST("disjoint_vec_1_char", 300, (disjoint_vec<vector<char, fixed<7>>>));
INST("disjoint_vec_2_short", 300, (disjoint_vec<vector<short, dynamic<>>>));
INST("disjoint_vec_3_float", 300, (disjoint_vec<vector<float, dynamic<>>>));
INST("disjoint_vec_4_double", 300, (disjoint_vec<vector<double, external<>>>));
INST("disjoint_vec_5_char", 300, (disjoint_vec<vector<char, external<5>>>));
INST("disjoint_mat_0_double", 300, (disjoint_mat<matrix<double, fixed<3,4>, row_basis, row_major>>));
INST("disjoint_mat_1_float", 300, (disjoint_mat<matrix<float, dynamic<>, col_basis, row_major>>));
INST("disjoint_mat_2_short", 300, (disjoint_mat<matrix<short, dynamic<>, row_basis, col_major>>));
INST("disjoint_mat_3_int", 300, (disjoint_mat<matrix<int, external<>, col_basis, col_major>>));
INST("disjoint_mat_4_double", 300, (disjoint_mat<matrix<double, fixed<2,2>, col_basis, col_major>>));
