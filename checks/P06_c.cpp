// P06: matrix expressions.
#include "boxes.h"
#include "P06_common.h"

INST("expr_F33rcfc_F33crdl_F33ccir_di", 6000, (exprs<1, 0, 2, matrix<float, fixed<3, 3>, row_basis, col_major>, matrix<double, fixed<3, 3>, col_basis, row_major>, matrix<int, fixed<3, 3>, col_basis, col_major>, double, int>));
INST("expr_Drrdr_Dccdr_Drcdr_df", 6000, (exprs<2, 2, 2, matrix<double, dynamic<>, row_basis, row_major>, matrix<double, dynamic<>, col_basis, col_major>, matrix<double, dynamic<>, row_basis, col_major>, double, float>));
