// P07: vector products.
#include "boxes.h"
#include "P07_common.h"

INST("perp_dot_Fd_Fd", 5000, (perps<vector<double, fixed<2>>, vector<double, fixed<2>>>));
INST("perp_dot_Ff_Df", 5000, (perps<vector<float, fixed<2>>, vector<float, dynamic<>>>));
INST("perp_dot_Fi_Xi", 5000, (perps<vector<int, fixed<2>>, vector<int, external<2>>>));
INST("perp_dot_Fd_Yf", 5000, (perps<vector<double, fixed<2>>, vector<float, external<>>>));
INST("perp_dot_Ff_ci", 5000, (perps<vector<float, fixed<2>>, vector<const int, external<2>>>));
INST("perp_dot_Fi_kd", 5000, (perps<vector<int, fixed<2>>, vector<const double, external<>>>));
INST("perp_dot_Dd_Fi", 5000, (perps<vector<double, dynamic<>>, vector<int, fixed<2>>>));
INST("perp_dot_Df_Dd", 5000, (perps<vector<float, dynamic<>>, vector<double, dynamic<>>>));
INST("perp_dot_Di_Xf", 5000, (perps<vector<int, dynamic<>>, vector<float, external<2>>>));
INST("perp_dot_Dd_Yd", 5000, (perps<vector<double, dynamic<>>, vector<double, external<>>>));
INST("perp_dot_Df_cf", 5000, (perps<vector<float, dynamic<>>, vector<const float, external<2>>>));
INST("perp_dot_Di_ki", 5000, (perps<vector<int, dynamic<>>, vector<const int, external<>>>));
INST("perp_dot_Xd_Ff", 5000, (perps<vector<double, external<2>>, vector<float, fixed<2>>>));
INST("perp_dot_Xf_Di", 5000, (perps<vector<float, external<2>>, vector<int, dynamic<>>>));
INST("perp_dot_Xi_Xd", 5000, (perps<vector<int, external<2>>, vector<double, external<2>>>));
INST("perp_dot_Xd_Yi", 5000, (perps<vector<double, external<2>>, vector<int, external<>>>));
INST("perp_dot_Xf_cd", 5000, (perps<vector<float, external<2>>, vector<const double, external<2>>>));
INST("perp_dot_Xi_kf", 5000, (perps<vector<int, external<2>>, vector<const float, external<>>>));
INST("perp_dot_Yd_Fd", 5000, (perps<vector<double, external<>>, vector<double, fixed<2>>>));
INST("perp_dot_Yf_Df", 5000, (perps<vector<float, external<>>, vector<float, dynamic<>>>));
INST("perp_dot_Yi_Xi", 5000, (perps<vector<int, external<>>, vector<int, external<2>>>));
INST("perp_dot_Yd_Yf", 5000, (perps<vector<double, external<>>, vector<float, external<>>>));
INST("perp_dot_Yf_ci", 5000, (perps<vector<float, external<>>, vector<const int, external<2>>>));
INST("perp_dot_Yi_kd", 5000, (perps<vector<int, external<>>, vector<const double, external<>>>));
INST("perp_dot_cd_Fi", 5000, (perps<vector<const double, external<2>>, vector<int, fixed<2>>>));
INST("perp_dot_cf_Dd", 5000, (perps<vector<const float, external<2>>, vector<double, dynamic<>>>));
INST("perp_dot_ci_Xf", 5000, (perps<vector<const int, external<2>>, vector<float, external<2>>>));
INST("perp_dot_cd_Yd", 5000, (perps<vector<const double, external<2>>, vector<double, external<>>>));
INST("perp_dot_cf_cf", 5000, (perps<vector<const float, external<2>>, vector<const float, external<2>>>));
INST("perp_dot_ci_ki", 5000, (perps<vector<const int, external<2>>, vector<const int, external<>>>));
INST("perp_dot_kd_Ff", 5000, (perps<vector<const double, external<>>, vector<float, fixed<2>>>));
INST("perp_dot_kf_Di", 5000, (perps<vector<const float, external<>>, vector<int, dynamic<>>>));
INST("perp_dot_ki_Xd", 5000, (perps<vector<const int, external<>>, vector<double, external<2>>>));
INST("perp_dot_kd_Yi", 5000, (perps<vector<const double, external<>>, vector<int, external<>>>));
INST("perp_dot_kf_cd", 5000, (perps<vector<const float, external<>>, vector<const double, external<2>>>));
INST("perp_dot_ki_kf", 5000, (perps<vector<const int, external<>>, vector<const float, external<>>>));
INST("triple_FFF_ddd", 8000, (triples<vector<double, fixed<3>>, vector<double, fixed<3>>, vector<double, fixed<3>>>));
INST("triple_FFF_fdf", 8000, (triples<vector<float, fixed<3>>, vector<double, fixed<3>>, vector<float, fixed<3>>>));
INST("triple_DDD_ifi", 8000, (triples<vector<int, dynamic<>>, vector<float, dynamic<>>, vector<int, dynamic<>>>));
INST("triple_DFD_dff", 8000, (triples<vector<double, dynamic<>>, vector<float, fixed<3>>, vector<float, dynamic<>>>));
INST("triple_FDY_fii", 8000, (triples<vector<float, fixed<3>>, vector<int, dynamic<>>, vector<int, external<>>>));
INST("triple_XFc_iid", 8000, (triples<vector<int, external<3>>, vector<int, fixed<3>>, vector<const double, external<3>>>));
INST("triple_YDk_ddi", 8000, (triples<vector<double, external<>>, vector<double, dynamic<>>, vector<const int, external<>>>));
INST("triple_DDD_fdd", 8000, (triples<vector<float, dynamic<>>, vector<double, dynamic<>>, vector<double, dynamic<>>>));
INST("triple_kFX_iff", 8000, (triples<vector<const int, external<>>, vector<float, fixed<3>>, vector<float, external<3>>>));
