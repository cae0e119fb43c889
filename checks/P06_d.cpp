// P06: matrix expressions.
#include "boxes.h"
#include "P06_common.h"

INST("expr_F33rcfr_F33crdc_F33ccil_di", 6000, (exprs<2, 1, 0, matrix<float, fixed<3, 3>, row_basis, col_major>, matrix<double, fixed<3, 3>, col_basis, row_major>, matrix<int, fixed<3, 3>, col_basis, col_major>, double, int>));
INST("expr_Dccic_Drrfr_Dcrdl_if", 6000, (exprs<1, 2, 0, matrix<int, dynamic<>, col_basis, col_major>, matrix<float, dynamic<>, row_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>, int, float>));
