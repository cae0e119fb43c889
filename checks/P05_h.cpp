// P05: vector expressions.
#include "boxes.h"
#include "P05_common.h"

INST("compound_F3d_F3d_double", 7000, (compound<vector<double, fixed<3>>, vector<double, fixed<3>>, double>));
INST("compound_F3f_F3i_double", 7000, (compound<vector<float, fixed<3>>, vector<int, fixed<3>>, double>));
INST("compound_F3i_F3i_int", 7000, (compound<vector<int, fixed<3>>, vector<int, fixed<3>>, int>));
INST("nodes_F3_F3", 5000, (named_nodes<vector<double, fixed<3>>, vector<double, fixed<3>>>));
INST("compound_Dd_Dd_double", 7000, (compound<vector<double, dynamic<>>, vector<double, dynamic<>>, double>));
INST("compound_Df_Di_double", 7000, (compound<vector<float, dynamic<>>, vector<int, dynamic<>>, double>));
INST("compound_Di_Di_int", 7000, (compound<vector<int, dynamic<>>, vector<int, dynamic<>>, int>));
INST("nodes_D_D", 5000, (named_nodes<vector<double, dynamic<>>, vector<double, dynamic<>>>));
INST("compound_Dd_F3d_double", 7000, (compound<vector<double, dynamic<>>, vector<double, fixed<3>>, double>));
INST("compound_Df_F3i_double", 7000, (compound<vector<float, dynamic<>>, vector<int, fixed<3>>, double>));
INST("compound_Di_F3i_int", 7000, (compound<vector<int, dynamic<>>, vector<int, fixed<3>>, int>));
INST("nodes_D_F3", 5000, (named_nodes<vector<double, dynamic<>>, vector<double, fixed<3>>>));
INST("compound_F4d_Dd_double", 7000, (compound<vector<double, fixed<4>>, vector<double, dynamic<>>, double>));
INST("compound_F4f_Di_double", 7000, (compound<vector<float, fixed<4>>, vector<int, dynamic<>>, double>));
INST("compound_F4i_Di_int", 7000, (compound<vector<int, fixed<4>>, vector<int, dynamic<>>, int>));
INST("nodes_F4_D", 5000, (named_nodes<vector<double, fixed<4>>, vector<double, dynamic<>>>));
INST("compound_X3d_F3d_double", 7000, (compound<vector<double, external<3>>, vector<double, fixed<3>>, double>));
INST("compound_X3f_F3i_double", 7000, (compound<vector<float, external<3>>, vector<int, fixed<3>>, double>));
INST("compound_X3i_F3i_int", 7000, (compound<vector<int, external<3>>, vector<int, fixed<3>>, int>));
INST("nodes_X3_F3", 5000, (named_nodes<vector<double, external<3>>, vector<double, fixed<3>>>));
INST("compound_Yd_Dd_double", 7000, (compound<vector<double, external<>>, vector<double, dynamic<>>, double>));
INST("compound_Yf_Di_double", 7000, (compound<vector<float, external<>>, vector<int, dynamic<>>, double>));
INST("compound_Yi_Di_int", 7000, (compound<vector<int, external<>>, vector<int, dynamic<>>, int>));
INST("nodes_Y_D", 5000, (named_nodes<vector<double, external<>>, vector<double, dynamic<>>>));
INST("compound_F3d_c3d_double", 7000, (compound<vector<double, fixed<3>>, vector<const double, external<3>>, double>));
INST("compound_F3f_c3i_double", 7000, (compound<vector<float, fixed<3>>, vector<const int, external<3>>, double>));
INST("compound_F3i_c3i_int", 7000, (compound<vector<int, fixed<3>>, vector<const int, external<3>>, int>));
INST("nodes_F3_c3", 5000, (named_nodes<vector<double, fixed<3>>, vector<const double, external<3>>>));
INST("compound_Yd_kd_double", 7000, (compound<vector<double, external<>>, vector<const double, external<>>, double>));
INST("compound_Yf_ki_double", 7000, (compound<vector<float, external<>>, vector<const int, external<>>, double>));
INST("compound_Yi_ki_int", 7000, (compound<vector<int, external<>>, vector<const int, external<>>, int>));
INST("nodes_Y_k", 5000, (named_nodes<vector<double, external<>>, vector<const double, external<>>>));
INST("compound_X4d_Yd_double", 7000, (compound<vector<double, external<4>>, vector<double, external<>>, double>));
INST("compound_X4f_Yi_double", 7000, (compound<vector<float, external<4>>, vector<int, external<>>, double>));
INST("compound_X4i_Yi_int", 7000, (compound<vector<int, external<4>>, vector<int, external<>>, int>));
INST("nodes_X4_Y", 5000, (named_nodes<vector<double, external<4>>, vector<double, external<>>>));
