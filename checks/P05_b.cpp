// P05: vector expressions.
#include "boxes.h"
#include "P05_common.h"

INST("expr_F3dr_F3dr_F3dr_dd", 7000, (exprs<2, 2, 2, vector<double, fixed<3>>, vector<double, fixed<3>>, vector<double, fixed<3>>, double, double>));
INST("expr_F4fr_Dfl_F4fr_ff", 7000, (exprs<2, 0, 2, vector<float, fixed<4>>, vector<float, dynamic<>>, vector<float, fixed<4>>, float, float>));
INST("expr_Dfl_F3il_Dfc_fi", 7000, (exprs<0, 0, 1, vector<float, dynamic<>>, vector<int, fixed<3>>, vector<float, dynamic<>>, float, int>));
INST("expr_kfl_Ddr_Yfl_df", 7000, (exprs<0, 2, 0, vector<const float, external<>>, vector<double, dynamic<>>, vector<float, external<>>, double, float>));
INST("expr_Ddl_kic_X3dl_ii", 7000, (exprs<0, 1, 0, vector<double, dynamic<>>, vector<const int, external<>>, vector<double, external<3>>, int, int>));
