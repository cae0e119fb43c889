// P06: matrix expressions.
#include "boxes.h"
#include "P06_common.h"

INST("expr_F22ccil_F22ccic_F22rril_ii", 6000, (exprs<0, 1, 0, matrix<int, fixed<2, 2>, col_basis, col_major>, matrix<int, fixed<2, 2>, col_basis, col_major>, matrix<int, fixed<2, 2>, row_basis, row_major>, int, int>));
INST("expr_Dccir_Drrfl_Dcrdc_if", 6000, (exprs<2, 0, 1, matrix<int, dynamic<>, col_basis, col_major>, matrix<float, dynamic<>, row_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>, int, float>));
