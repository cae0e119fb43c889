// P06: matrix expressions.
#include "boxes.h"
#include "P06_common.h"

INST("expr_F22ccir_F22ccir_F22rric_ii", 6000, (exprs<2, 2, 1, matrix<int, fixed<2, 2>, col_basis, col_major>, matrix<int, fixed<2, 2>, col_basis, col_major>, matrix<int, fixed<2, 2>, row_basis, row_major>, int, int>));
INST("expr_Drcfr_F32crir_Drrfl_fi", 6000, (exprs<2, 2, 0, matrix<float, dynamic<>, row_basis, col_major>, matrix<int, fixed<3, 2>, col_basis, row_major>, matrix<float, dynamic<>, row_basis, row_major>, float, int>));
