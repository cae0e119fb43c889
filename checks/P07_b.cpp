// P07: vector products.
#include "boxes.h"
#include "P07_common.h"

INST("cross_Fd_Fd", 8000, (crosses<vector<double, fixed<3>>, vector<double, fixed<3>>>));
INST("cross_Fi_Xi", 8000, (crosses<vector<int, fixed<3>>, vector<int, external<3>>>));
INST("cross_Ff_ci", 8000, (crosses<vector<float, fixed<3>>, vector<const int, external<3>>>));
INST("cross_Dd_Fi", 8000, (crosses<vector<double, dynamic<>>, vector<int, fixed<3>>>));
INST("cross_Di_Xf", 8000, (crosses<vector<int, dynamic<>>, vector<float, external<3>>>));
INST("cross_Df_cf", 8000, (crosses<vector<float, dynamic<>>, vector<const float, external<3>>>));
INST("cross_Xd_Ff", 8000, (crosses<vector<double, external<3>>, vector<float, fixed<3>>>));
INST("cross_Xi_Xd", 8000, (crosses<vector<int, external<3>>, vector<double, external<3>>>));
INST("cross_Xf_cd", 8000, (crosses<vector<float, external<3>>, vector<const double, external<3>>>));
INST("cross_Yd_Fd", 8000, (crosses<vector<double, external<>>, vector<double, fixed<3>>>));
INST("cross_Yi_Xi", 8000, (crosses<vector<int, external<>>, vector<int, external<3>>>));
INST("cross_Yf_ci", 8000, (crosses<vector<float, external<>>, vector<const int, external<3>>>));
INST("cross_cd_Fi", 8000, (crosses<vector<const double, external<3>>, vector<int, fixed<3>>>));
INST("cross_ci_Xf", 8000, (crosses<vector<const int, external<3>>, vector<float, external<3>>>));
INST("cross_cf_cf", 8000, (crosses<vector<const float, external<3>>, vector<const float, external<3>>>));
INST("cross_kd_Ff", 8000, (crosses<vector<const double, external<>>, vector<float, fixed<3>>>));
INST("cross_ki_Xd", 8000, (crosses<vector<const int, external<>>, vector<double, external<3>>>));
INST("cross_kf_cd", 8000, (crosses<vector<const float, external<>>, vector<const double, external<3>>>));
