// P06: matrix expressions.
#include "boxes.h"
#include "P06_common.h"

INST("expr_F23rrdl_F23rcfr_F23crdc_fd", 6000, (exprs<0, 2, 1, matrix<double, fixed<2, 3>, row_basis, row_major>, matrix<float, fixed<2, 3>, row_basis, col_major>, matrix<double, fixed<2, 3>, col_basis, row_major>, float, double>));
INST("expr_X33ccdl_F33crdl_X33rcfc_dd", 6000, (exprs<0, 0, 1, matrix<double, external<3, 3>, col_basis, col_major>, matrix<double, fixed<3, 3>, col_basis, row_major>, matrix<float, external<3, 3>, row_basis, col_major>, double, double>));
