// P07: vector products.
#include "boxes.h"
#include "P07_common.h"

INST("dot_Fd_Fd_3", 8000, (dots<vector<double, fixed<3>>, vector<double, fixed<3>>>));
INST("dot_Ff_Df_2", 8000, (dots<vector<float, fixed<2>>, vector<float, dynamic<>>>));
INST("dot_Fi_Xi_4", 8000, (dots<vector<int, fixed<4>>, vector<int, external<4>>>));
INST("dot_Fd_Yf_5", 8000, (dots<vector<double, fixed<5>>, vector<float, external<>>>));
INST("dot_Ff_ci_1", 8000, (dots<vector<float, fixed<1>>, vector<const int, external<1>>>));
INST("dot_Fi_kd_7", 8000, (dots<vector<int, fixed<7>>, vector<const double, external<>>>));
INST("dot_Dd_Fi_3", 8000, (dots<vector<double, dynamic<>>, vector<int, fixed<3>>>));
INST("dot_Df_Dd_2", 8000, (dots<vector<float, dynamic<>>, vector<double, dynamic<>>>));
INST("dot_Di_Xf_4", 8000, (dots<vector<int, dynamic<>>, vector<float, external<4>>>));
INST("dot_Dd_Yd_5", 8000, (dots<vector<double, dynamic<>>, vector<double, external<>>>));
INST("dot_Df_cf_1", 8000, (dots<vector<float, dynamic<>>, vector<const float, external<1>>>));
INST("dot_Di_ki_7", 8000, (dots<vector<int, dynamic<>>, vector<const int, external<>>>));
INST("dot_Xd_Ff_3", 8000, (dots<vector<double, external<3>>, vector<float, fixed<3>>>));
INST("dot_Xf_Di_2", 8000, (dots<vector<float, external<2>>, vector<int, dynamic<>>>));
INST("dot_Xi_Xd_4", 8000, (dots<vector<int, external<4>>, vector<double, external<4>>>));
INST("dot_Xd_Yi_5", 8000, (dots<vector<double, external<5>>, vector<int, external<>>>));
INST("dot_Xf_cd_1", 8000, (dots<vector<float, external<1>>, vector<const double, external<1>>>));
INST("dot_Xi_kf_7", 8000, (dots<vector<int, external<7>>, vector<const float, external<>>>));
INST("dot_Yd_Fd_3", 8000, (dots<vector<double, external<>>, vector<double, fixed<3>>>));
INST("dot_Yf_Df_2", 8000, (dots<vector<float, external<>>, vector<float, dynamic<>>>));
INST("dot_Yi_Xi_4", 8000, (dots<vector<int, external<>>, vector<int, external<4>>>));
INST("dot_Yd_Yf_5", 8000, (dots<vector<double, external<>>, vector<float, external<>>>));
INST("dot_Yf_ci_1", 8000, (dots<vector<float, external<>>, vector<const int, external<1>>>));
INST("dot_Yi_kd_7", 8000, (dots<vector<int, external<>>, vector<const double, external<>>>));
INST("dot_cd_Fi_3", 8000, (dots<vector<const double, external<3>>, vector<int, fixed<3>>>));
INST("dot_cf_Dd_2", 8000, (dots<vector<const float, external<2>>, vector<double, dynamic<>>>));
INST("dot_ci_Xf_4", 8000, (dots<vector<const int, external<4>>, vector<float, external<4>>>));
INST("dot_cd_Yd_5", 8000, (dots<vector<const double, external<5>>, vector<double, external<>>>));
INST("dot_cf_cf_1", 8000, (dots<vector<const float, external<1>>, vector<const float, external<1>>>));
INST("dot_ci_ki_7", 8000, (dots<vector<const int, external<7>>, vector<const int, external<>>>));
INST("dot_kd_Ff_3", 8000, (dots<vector<const double, external<>>, vector<float, fixed<3>>>));
INST("dot_kf_Di_2", 8000, (dots<vector<const float, external<>>, vector<int, dynamic<>>>));
INST("dot_ki_Xd_4", 8000, (dots<vector<const int, external<>>, vector<double, external<4>>>));
INST("dot_kd_Yi_5", 8000, (dots<vector<const double, external<>>, vector<int, external<>>>));
INST("dot_kf_cd_1", 8000, (dots<vector<const float, external<>>, vector<const double, external<1>>>));
INST("dot_ki_kf_7", 8000, (dots<vector<const int, external<>>, vector<const float, external<>>>));
