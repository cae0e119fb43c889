// P06: matrix expressions.
#include "boxes.h"
#include "P06_common.h"

INST("expr_F23rrdr_F23rcfl_F23crdl_fd", 6000, (exprs<2, 0, 0, matrix<double, fixed<2, 3>, row_basis, row_major>, matrix<float, fixed<2, 3>, row_basis, col_major>, matrix<double, fixed<2, 3>, col_basis, row_major>, float, double>));
INST("expr_X33ccdc_F33crdr_X33rcfl_dd", 6000, (exprs<1, 2, 0, matrix<double, external<3, 3>, col_basis, col_major>, matrix<double, fixed<3, 3>, col_basis, row_major>, matrix<float, external<3, 3>, row_basis, col_major>, double, double>));
