// P05: vector expressions.
#include "boxes.h"
#include "P05_common.h"

INST("expr_F3fr_F3dc_F3il_di", 7000, (exprs<2, 1, 0, vector<float, fixed<3>>, vector<double, fixed<3>>, vector<int, fixed<3>>, double, int>));
INST("expr_Ddr_Ddc_Ddl_df", 7000, (exprs<2, 1, 0, vector<double, dynamic<>>, vector<double, dynamic<>>, vector<double, dynamic<>>, double, float>));
INST("expr_Ydl_Yfc_Ddr_fd", 7000, (exprs<0, 1, 2, vector<double, external<>>, vector<float, external<>>, vector<double, dynamic<>>, float, double>));
INST("expr_X4ic_Yic_F4ir_ii", 7000, (exprs<1, 1, 2, vector<int, external<4>>, vector<int, external<>>, vector<int, fixed<4>>, int, int>));
