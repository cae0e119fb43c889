// P07: vector products.
#include "boxes.h"
#include "P07_common.h"

INST("cross_Ff_Df", 8000, (crosses<vector<float, fixed<3>>, vector<float, dynamic<>>>));
INST("cross_Fd_Yf", 8000, (crosses<vector<double, fixed<3>>, vector<float, external<>>>));
INST("cross_Fi_kd", 8000, (crosses<vector<int, fixed<3>>, vector<const double, external<>>>));
INST("cross_Df_Dd", 8000, (crosses<vector<float, dynamic<>>, vector<double, dynamic<>>>));
INST("cross_Dd_Yd", 8000, (crosses<vector<double, dynamic<>>, vector<double, external<>>>));
INST("cross_Di_ki", 8000, (crosses<vector<int, dynamic<>>, vector<const int, external<>>>));
INST("cross_Xf_Di", 8000, (crosses<vector<float, external<3>>, vector<int, dynamic<>>>));
INST("cross_Xd_Yi", 8000, (crosses<vector<double, external<3>>, vector<int, external<>>>));
INST("cross_Xi_kf", 8000, (crosses<vector<int, external<3>>, vector<const float, external<>>>));
INST("cross_Yf_Df", 8000, (crosses<vector<float, external<>>, vector<float, dynamic<>>>));
INST("cross_Yd_Yf", 8000, (crosses<vector<double, external<>>, vector<float, external<>>>));
INST("cross_Yi_kd", 8000, (crosses<vector<int, external<>>, vector<const double, external<>>>));
INST("cross_cf_Dd", 8000, (crosses<vector<const float, external<3>>, vector<double, dynamic<>>>));
INST("cross_cd_Yd", 8000, (crosses<vector<const double, external<3>>, vector<double, external<>>>));
INST("cross_ci_ki", 8000, (crosses<vector<const int, external<3>>, vector<const int, external<>>>));
INST("cross_kf_Di", 8000, (crosses<vector<const float, external<>>, vector<int, dynamic<>>>));
INST("cross_kd_Yi", 8000, (crosses<vector<const double, external<>>, vector<int, external<>>>));
INST("cross_ki_kf", 8000, (crosses<vector<const int, external<>>, vector<const float, external<>>>));
