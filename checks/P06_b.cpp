// P06: matrix expressions.
#include "boxes.h"
#include "P06_common.h"

INST("expr_F33rrdr_F33rrdr_F33rrdr_dd", 6000, (exprs<2, 2, 2, matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, row_major>, double, double>));
INST("expr_Drrdl_Dccdl_Drcdl_df", 6000, (exprs<0, 0, 0, matrix<double, dynamic<>, row_basis, row_major>, matrix<double, dynamic<>, col_basis, col_major>, matrix<double, dynamic<>, row_basis, col_major>, double, float>));
INST("expr_Yrcic_Dccil_X22rril_ii", 6000, (exprs<1, 0, 0, matrix<int, external<>, row_basis, col_major>, matrix<int, dynamic<>, col_basis, col_major>, matrix<int, external<2, 2>, row_basis, row_major>, int, int>));
