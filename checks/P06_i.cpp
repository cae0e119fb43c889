// P06: matrix expressions.
#include "boxes.h"
#include "P06_common.h"

INST("compound_F33drr_F33drr_double", 6000, (compound<matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, row_major>, double>));
INST("compound_F33frc_F33irc_double", 6000, (compound<matrix<float, fixed<3, 3>, row_basis, col_major>, matrix<int, fixed<3, 3>, row_basis, col_major>, double>));
INST("compound_F33icr_F33icc_int", 6000, (compound<matrix<int, fixed<3, 3>, col_basis, row_major>, matrix<int, fixed<3, 3>, col_basis, col_major>, int>));
INST("nodes_F33_F33", 5000, (named_nodes<matrix<double, fixed<3, 3>, col_basis, col_major>, matrix<double, fixed<3, 3>, row_basis, row_major>>));
INST("compound_F23dcc_F23drc_double", 6000, (compound<matrix<double, fixed<2, 3>, col_basis, col_major>, matrix<double, fixed<2, 3>, row_basis, col_major>, double>));
INST("compound_F23frr_F23icc_double", 6000, (compound<matrix<float, fixed<2, 3>, row_basis, row_major>, matrix<int, fixed<2, 3>, col_basis, col_major>, double>));
INST("compound_F23irc_F23irr_int", 6000, (compound<matrix<int, fixed<2, 3>, row_basis, col_major>, matrix<int, fixed<2, 3>, row_basis, row_major>, int>));
INST("nodes_F23_F23", 5000, (named_nodes<matrix<double, fixed<2, 3>, col_basis, row_major>, matrix<double, fixed<2, 3>, col_basis, col_major>>));
INST("compound_Ddcr_Ddcc_double", 6000, (compound<matrix<double, dynamic<>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, col_major>, double>));
INST("compound_Dfcc_Dirr_double", 6000, (compound<matrix<float, dynamic<>, col_basis, col_major>, matrix<int, dynamic<>, row_basis, row_major>, double>));
INST("compound_Dirr_Dicr_int", 6000, (compound<matrix<int, dynamic<>, row_basis, row_major>, matrix<int, dynamic<>, col_basis, row_major>, int>));
INST("nodes_D_D", 5000, (named_nodes<matrix<double, dynamic<>, row_basis, col_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("compound_Ddrc_F32drr_double", 6000, (compound<matrix<double, dynamic<>, row_basis, col_major>, matrix<double, fixed<3, 2>, row_basis, row_major>, double>));
INST("compound_Dfcr_F32icr_double", 6000, (compound<matrix<float, dynamic<>, col_basis, row_major>, matrix<int, fixed<3, 2>, col_basis, row_major>, double>));
INST("compound_Dicc_F32icc_int", 6000, (compound<matrix<int, dynamic<>, col_basis, col_major>, matrix<int, fixed<3, 2>, col_basis, col_major>, int>));
INST("nodes_D_F32", 5000, (named_nodes<matrix<double, dynamic<>, row_basis, row_major>, matrix<double, fixed<3, 2>, row_basis, col_major>>));
INST("compound_F44drr_Ddcr_double", 6000, (compound<matrix<double, fixed<4, 4>, row_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>, double>));
INST("compound_F44frc_Dicc_double", 6000, (compound<matrix<float, fixed<4, 4>, row_basis, col_major>, matrix<int, dynamic<>, col_basis, col_major>, double>));
INST("compound_F44icr_Dirc_int", 6000, (compound<matrix<int, fixed<4, 4>, col_basis, row_major>, matrix<int, dynamic<>, row_basis, col_major>, int>));
INST("nodes_F44_D", 5000, (named_nodes<matrix<double, fixed<4, 4>, col_basis, col_major>, matrix<double, dynamic<>, row_basis, row_major>>));
INST("compound_X33dcc_F33dcc_double", 6000, (compound<matrix<double, external<3, 3>, col_basis, col_major>, matrix<double, fixed<3, 3>, col_basis, col_major>, double>));
INST("compound_X33frr_F33irc_double", 6000, (compound<matrix<float, external<3, 3>, row_basis, row_major>, matrix<int, fixed<3, 3>, row_basis, col_major>, double>));
INST("compound_X33irc_F33icr_int", 6000, (compound<matrix<int, external<3, 3>, row_basis, col_major>, matrix<int, fixed<3, 3>, col_basis, row_major>, int>));
INST("nodes_X33_F33", 5000, (named_nodes<matrix<double, external<3, 3>, col_basis, row_major>, matrix<double, fixed<3, 3>, col_basis, col_major>>));
INST("compound_X32dcr_Ddrc_double", 6000, (compound<matrix<double, external<3, 2>, col_basis, row_major>, matrix<double, dynamic<>, row_basis, col_major>, double>));
INST("compound_X32fcc_Dicr_double", 6000, (compound<matrix<float, external<3, 2>, col_basis, col_major>, matrix<int, dynamic<>, col_basis, row_major>, double>));
INST("compound_X32irr_Dirr_int", 6000, (compound<matrix<int, external<3, 2>, row_basis, row_major>, matrix<int, dynamic<>, row_basis, row_major>, int>));
INST("nodes_X32_D", 5000, (named_nodes<matrix<double, external<3, 2>, row_basis, col_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("compound_Ydrc_Ddcr_double", 6000, (compound<matrix<double, external<>, row_basis, col_major>, matrix<double, dynamic<>, col_basis, row_major>, double>));
INST("compound_Yfcr_Dirr_double", 6000, (compound<matrix<float, external<>, col_basis, row_major>, matrix<int, dynamic<>, row_basis, row_major>, double>));
INST("compound_Yicc_Dirc_int", 6000, (compound<matrix<int, external<>, col_basis, col_major>, matrix<int, dynamic<>, row_basis, col_major>, int>));
INST("nodes_Y_D", 5000, (named_nodes<matrix<double, external<>, row_basis, row_major>, matrix<double, dynamic<>, row_basis, col_major>>));
INST("compound_Ydrr_Ydrr_double", 6000, (compound<matrix<double, external<>, row_basis, row_major>, matrix<double, external<>, row_basis, row_major>, double>));
INST("compound_Yfrc_Yirc_double", 6000, (compound<matrix<float, external<>, row_basis, col_major>, matrix<int, external<>, row_basis, col_major>, double>));
INST("compound_Yicr_Yicc_int", 6000, (compound<matrix<int, external<>, col_basis, row_major>, matrix<int, external<>, col_basis, col_major>, int>));
INST("nodes_Y_Y", 5000, (named_nodes<matrix<double, external<>, col_basis, col_major>, matrix<double, external<>, row_basis, row_major>>));
