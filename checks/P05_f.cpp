// P05: vector expressions.
#include "boxes.h"
#include "P05_common.h"

INST("expr_F2il_F2ic_F2il_ii", 7000, (exprs<0, 1, 0, vector<int, fixed<2>>, vector<int, fixed<2>>, vector<int, fixed<2>>, int, int>));
INST("expr_Dic_Dfr_Ddl_if", 7000, (exprs<1, 2, 0, vector<int, dynamic<>>, vector<float, dynamic<>>, vector<double, dynamic<>>, int, float>));
INST("expr_Ydc_Yfl_Ddc_fd", 7000, (exprs<1, 0, 1, vector<double, external<>>, vector<float, external<>>, vector<double, dynamic<>>, float, double>));
INST("expr_F5dl_F5ir_Dfr_id", 7000, (exprs<0, 2, 2, vector<double, fixed<5>>, vector<int, fixed<5>>, vector<float, dynamic<>>, int, double>));
