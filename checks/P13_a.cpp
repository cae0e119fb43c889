// P13: comparison, hashing, printing.  Generated by tools/gen_P13.py
#include "boxes.h"
#include <map>
#include "P13_common.h"

INST("rel_F3_F3_d", 5000, (vrel<vector<double, fixed<3>>, vector<double, fixed<3>>>));
INST("rel_X3_F3_f", 5000, (vrel<vector<float, external<3>>, vector<float, fixed<3>>>));
INST("rel_Dd_Yf", 3000, (vrel<vector<double, dynamic<>>, vector<float, external<>>>));
INST("rel_F1f_Dd", 3000, (vrel<vector<float, fixed<1>>, vector<double, dynamic<>>>));
INST("containers_Di", 2500, (containers<vector<int, dynamic<>>>));
INST("mrel_F33drr_F33drc", 5000, (mrel<matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, col_major>>));
INST("mrel_Yfrr_Ddrr", 5000, (mrel<matrix<float, external<>, row_basis, row_major>, matrix<double, dynamic<>, row_basis, row_major>>));
INST("mrel_Dirr_Ydrc", 5000, (mrel<matrix<int, dynamic<>, row_basis, row_major>, matrix<double, external<>, row_basis, col_major>>));
INST("qrel_r_df", 6000, (qrel<quaternion<double, fixed<>, cml::real_first, cml::positive_cross>, quaternion<float, fixed<>, cml::real_first, cml::negative_cross>>));
INST("qrel_i_id", 6000, (qrel<quaternion<int, fixed<>, cml::imaginary_first, cml::negative_cross>, quaternion<double, fixed<>, cml::imaginary_first, cml::positive_cross>>));
INST("vprint_F1d", 2500, (vprint<vector<double, fixed<1>>>));
INST("mprint_Di", 2500, (mprint<matrix<int, dynamic<>, row_basis, col_major>>));
