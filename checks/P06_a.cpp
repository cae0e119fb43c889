// P06: matrix expressions.
#include "boxes.h"
#include "P06_common.h"

INST("expr_F33rrdl_F33rrdl_F33rrdl_dd", 6000, (exprs<0, 0, 0, matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, row_major>, double, double>));
INST("expr_F44crfl_Drcfr_F44rrfc_ff", 6000, (exprs<0, 2, 1, matrix<float, fixed<4, 4>, col_basis, row_major>, matrix<float, dynamic<>, row_basis, col_major>, matrix<float, fixed<4, 4>, row_basis, row_major>, float, float>));
INST("expr_Yrrdl_Yccfc_Dcrdr_fd", 6000, (exprs<0, 1, 2, matrix<double, external<>, row_basis, row_major>, matrix<float, external<>, col_basis, col_major>, matrix<double, dynamic<>, col_basis, row_major>, float, double>));
