// P05: vector expressions.
#include "boxes.h"
#include "P05_common.h"

INST("expr_F3dc_F3dr_F3dl_dd", 7000, (exprs<1, 2, 0, vector<double, fixed<3>>, vector<double, fixed<3>>, vector<double, fixed<3>>, double, double>));
INST("expr_Ddl_Ddl_Ddl_df", 7000, (exprs<0, 0, 0, vector<double, dynamic<>>, vector<double, dynamic<>>, vector<double, dynamic<>>, double, float>));
INST("expr_X3dl_F3dr_X3fc_dd", 7000, (exprs<0, 2, 1, vector<double, external<3>>, vector<double, fixed<3>>, vector<float, external<3>>, double, double>));
INST("expr_kfc_Ddc_Yfc_df", 7000, (exprs<1, 1, 1, vector<const float, external<>>, vector<double, dynamic<>>, vector<float, external<>>, double, float>));
