// P07: vector products.
#include "boxes.h"
#include "P07_common.h"

INST("outer_Fd_Fd_3", 6000, (outers<vector<double, fixed<3>>, vector<double, fixed<4>>>));
INST("outer_Ff_Df_2", 6000, (outers<vector<float, fixed<2>>, vector<float, dynamic<>>>));
INST("outer_Fi_Xi_4", 6000, (outers<vector<int, fixed<4>>, vector<int, external<1>>>));
INST("outer_Fd_Yf_5", 6000, (outers<vector<double, fixed<5>>, vector<float, external<>>>));
INST("outer_Ff_ci_1", 6000, (outers<vector<float, fixed<1>>, vector<const int, external<2>>>));
INST("outer_Fi_kd_7", 6000, (outers<vector<int, fixed<7>>, vector<const double, external<>>>));
INST("outer_Dd_Fi_3", 6000, (outers<vector<double, dynamic<>>, vector<int, fixed<4>>>));
INST("outer_Df_Dd_2", 6000, (outers<vector<float, dynamic<>>, vector<double, dynamic<>>>));
INST("outer_Di_Xf_4", 6000, (outers<vector<int, dynamic<>>, vector<float, external<1>>>));
INST("outer_Dd_Yd_5", 6000, (outers<vector<double, dynamic<>>, vector<double, external<>>>));
INST("outer_Df_cf_1", 6000, (outers<vector<float, dynamic<>>, vector<const float, external<2>>>));
INST("outer_Di_ki_7", 6000, (outers<vector<int, dynamic<>>, vector<const int, external<>>>));
INST("outer_Xd_Ff_3", 6000, (outers<vector<double, external<3>>, vector<float, fixed<4>>>));
INST("outer_Xf_Di_2", 6000, (outers<vector<float, external<2>>, vector<int, dynamic<>>>));
INST("outer_Xi_Xd_4", 6000, (outers<vector<int, external<4>>, vector<double, external<1>>>));
INST("outer_Xd_Yi_5", 6000, (outers<vector<double, external<5>>, vector<int, external<>>>));
INST("outer_Xf_cd_1", 6000, (outers<vector<float, external<1>>, vector<const double, external<2>>>));
INST("outer_Xi_kf_7", 6000, (outers<vector<int, external<7>>, vector<const float, external<>>>));
INST("outer_Yd_Fd_3", 6000, (outers<vector<double, external<>>, vector<double, fixed<4>>>));
INST("outer_Yf_Df_2", 6000, (outers<vector<float, external<>>, vector<float, dynamic<>>>));
INST("outer_Yi_Xi_4", 6000, (outers<vector<int, external<>>, vector<int, external<1>>>));
INST("outer_Yd_Yf_5", 6000, (outers<vector<double, external<>>, vector<float, external<>>>));
INST("outer_Yf_ci_1", 6000, (outers<vector<float, external<>>, vector<const int, external<2>>>));
INST("outer_Yi_kd_7", 6000, (outers<vector<int, external<>>, vector<const double, external<>>>));
INST("outer_cd_Fi_3", 6000, (outers<vector<const double, external<3>>, vector<int, fixed<4>>>));
INST("outer_cf_Dd_2", 6000, (outers<vector<const float, external<2>>, vector<double, dynamic<>>>));
INST("outer_ci_Xf_4", 6000, (outers<vector<const int, external<4>>, vector<float, external<1>>>));
INST("outer_cd_Yd_5", 6000, (outers<vector<const double, external<5>>, vector<double, external<>>>));
INST("outer_cf_cf_1", 6000, (outers<vector<const float, external<1>>, vector<const float, external<2>>>));
INST("outer_ci_ki_7", 6000, (outers<vector<const int, external<7>>, vector<const int, external<>>>));
INST("outer_kd_Ff_3", 6000, (outers<vector<const double, external<>>, vector<float, fixed<4>>>));
INST("outer_kf_Di_2", 6000, (outers<vector<const float, external<>>, vector<int, dynamic<>>>));
INST("outer_ki_Xd_4", 6000, (outers<vector<const int, external<>>, vector<double, external<1>>>));
INST("outer_kd_Yi_5", 6000, (outers<vector<const double, external<>>, vector<int, external<>>>));
INST("outer_kf_cd_1", 6000, (outers<vector<const float, external<>>, vector<const double, external<2>>>));
INST("outer_ki_kf_7", 6000, (outers<vector<const int, external<>>, vector<const float, external<>>>));
