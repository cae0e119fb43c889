// P05: vector expressions.
#include "boxes.h"
#include "P05_common.h"

INST("expr_F2ir_F2ir_F2ic_ii", 7000, (exprs<2, 2, 1, vector<int, fixed<2>>, vector<int, fixed<2>>, vector<int, fixed<2>>, int, int>));
INST("expr_Dir_Dfl_Ddc_if", 7000, (exprs<2, 0, 1, vector<int, dynamic<>>, vector<float, dynamic<>>, vector<double, dynamic<>>, int, float>));
INST("expr_c3dl_F3dr_Ddr_dd", 7000, (exprs<0, 2, 2, vector<const double, external<3>>, vector<double, fixed<3>>, vector<double, dynamic<>>, double, double>));
INST("expr_F5dr_F5il_Dfc_id", 7000, (exprs<2, 0, 1, vector<double, fixed<5>>, vector<int, fixed<5>>, vector<float, dynamic<>>, int, double>));
