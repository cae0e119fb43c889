// P05: vector expressions.
#include "boxes.h"
#include "P05_common.h"

INST("expr_F3dl_F3dl_F3dl_dd", 7000, (exprs<0, 0, 0, vector<double, fixed<3>>, vector<double, fixed<3>>, vector<double, fixed<3>>, double, double>));
INST("expr_F4fl_Dfr_F4fc_ff", 7000, (exprs<0, 2, 1, vector<float, fixed<4>>, vector<float, dynamic<>>, vector<float, fixed<4>>, float, float>));
INST("expr_Dfr_F3ir_Dfl_fi", 7000, (exprs<2, 2, 0, vector<float, dynamic<>>, vector<int, fixed<3>>, vector<float, dynamic<>>, float, int>));
INST("expr_c3dl_F3dl_Ddc_dd", 7000, (exprs<0, 0, 1, vector<const double, external<3>>, vector<double, fixed<3>>, vector<double, dynamic<>>, double, double>));
INST("expr_Ddr_kil_X3dc_ii", 7000, (exprs<2, 0, 1, vector<double, dynamic<>>, vector<const int, external<>>, vector<double, external<3>>, int, int>));
