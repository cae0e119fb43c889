// P05: vector expressions.
#include "boxes.h"
#include "P05_common.h"

INST("expr_F3fc_F3dl_F3ir_di", 7000, (exprs<1, 0, 2, vector<float, fixed<3>>, vector<double, fixed<3>>, vector<int, fixed<3>>, double, int>));
INST("expr_Ddr_Ddr_Ddr_df", 7000, (exprs<2, 2, 2, vector<double, dynamic<>>, vector<double, dynamic<>>, vector<double, dynamic<>>, double, float>));
INST("expr_X3dc_F3dl_X3fl_dd", 7000, (exprs<1, 0, 0, vector<double, external<3>>, vector<double, fixed<3>>, vector<float, external<3>>, double, double>));
INST("expr_X4il_Yil_F4ir_ii", 7000, (exprs<0, 0, 2, vector<int, external<4>>, vector<int, external<>>, vector<int, fixed<4>>, int, int>));
