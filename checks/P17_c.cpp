// P17: affine transforms.  Generated by tools/gen_P17.py
#include "boxes.h"
#include "P17_common.h"

INST("misc_fixed2x2_rbrm_d", 400, (misc<matrix<double, fixed<2, 2>, row_basis, row_major>, vector<double, fixed<3>>>));
INST("apply_fixed3x2_rbrm_id", 600, (apply<matrix<int, fixed<3, 2>, row_basis, row_major>, vector<double, fixed<3>>>));
INST("misc_fixed3x3_rbrm_i", 400, (misc<matrix<int, fixed<3, 3>, row_basis, row_major>, vector<double, external<3>>>));
INST("apply_fixed4x3_rbrm_df", 900, (apply<matrix<double, fixed<4, 3>, row_basis, row_major>, vector<float, external<>>>));
INST("basis_fixed4x4_rbrm_f", 700, (basis<matrix<float, fixed<4, 4>, row_basis, row_major>, vector<float, dynamic<>>>));
INST("scale_fixed5x4_rbrm_f", 700, (scale<matrix<float, fixed<5, 4>, row_basis, row_major>, vector<float, dynamic<>>, float, double>));
INST("trans_dynamic_rbrm_d", 700, (trans<matrix<double, dynamic<>, row_basis, row_major>, vector<int, external<3>>, double, int>));
INST("concat_dynamic_rbrm_fixed3x3_ff", 500, (concat<matrix<float, dynamic<>, row_basis, row_major>, matrix<float, fixed<3, 3>, row_basis, row_major>>));
INST("basis_external_rbrm_f", 700, (basis<matrix<float, external<>, row_basis, row_major>, vector<int, external<3>>>));
INST("scale_external4x4_rbrm_f", 700, (scale<matrix<float, external<4, 4>, row_basis, row_major>, vector<int, external<3>>, float, float>));
INST("concat_external4x4_rbrm_fixed4x4_fi", 500, (concat<matrix<float, external<4, 4>, row_basis, row_major>, matrix<int, fixed<4, 4>, row_basis, row_major>>));
INST("apply_external4x3_rbrm_id", 600, (apply<matrix<int, external<4, 3>, row_basis, row_major>, vector<double, external<>>>));
INST("trans_fixed3x2_rbcm_d", 700, (trans<matrix<double, fixed<3, 2>, row_basis, col_major>, vector<double, fixed<3>>, float, double>));
INST("scale_fixed3x3_rbcm_f", 700, (scale<matrix<float, fixed<3, 3>, row_basis, col_major>, vector<float, dynamic<>>, double, int>));
INST("concat_fixed3x3_rbcm_dynamic_dd", 500, (concat<matrix<double, fixed<3, 3>, row_basis, col_major>, matrix<double, dynamic<>, row_basis, col_major>>));
INST("misc_fixed4x3_rbcm_i", 400, (misc<matrix<int, fixed<4, 3>, row_basis, col_major>, vector<float, external<3>>>));
INST("linear_fixed4x4_rbcm_fixed3x4_cbrm_dd", 700, (linear<matrix<double, fixed<4, 4>, row_basis, col_major>, matrix<double, fixed<3, 4>, col_basis, row_major>, vector<double, dynamic<>>>));
INST("apply_fixed5x4_rbcm_df", 900, (apply<matrix<double, fixed<5, 4>, row_basis, col_major>, vector<float, fixed<3>>>));
INST("invert_dynamic_rbcm_i", 400, (invert<matrix<int, dynamic<>, row_basis, col_major>>));
INST("concat_dynamic_rbcm_dynamic_fd", 500, (concat<matrix<float, dynamic<>, row_basis, col_major>, matrix<double, dynamic<>, row_basis, col_major>>));
INST("apply_external_rbcm_ii", 600, (apply<matrix<int, external<>, row_basis, col_major>, vector<int, external<3>>>));
INST("basis_external4x4_rbcm_f", 700, (basis<matrix<float, external<4, 4>, row_basis, col_major>, vector<double, external<>>>));
INST("scale_external4x3_rbcm_d", 700, (scale<matrix<double, external<4, 3>, row_basis, col_major>, vector<double, external<>>, int, int>));
INST("basis_fixed2x2_cbrm_f", 700, (basis<matrix<float, fixed<2, 2>, col_basis, row_major>, vector<double, fixed<3>>>));
INST("invert_fixed2x3_cbrm_f", 700, (invert<matrix<float, fixed<2, 3>, col_basis, row_major>>));
INST("basis_fixed3x3_cbrm_d", 700, (basis<matrix<double, fixed<3, 3>, col_basis, row_major>, vector<float, dynamic<>>>));
INST("invert_fixed3x4_cbrm_d", 700, (invert<matrix<double, fixed<3, 4>, col_basis, row_major>>));
INST("scale_fixed4x4_cbrm_i", 400, (scale<matrix<int, fixed<4, 4>, col_basis, row_major>, vector<int, external<3>>, int, int>));
INST("concat_fixed4x4_cbrm_dynamic_dd", 500, (concat<matrix<double, fixed<4, 4>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("misc_fixed4x5_cbrm_d", 400, (misc<matrix<double, fixed<4, 5>, col_basis, row_major>, vector<int, external<>>>));
INST("linear_dynamic_cbrm_fixed3x4_cbrm_dd", 700, (linear<matrix<double, dynamic<>, col_basis, row_major>, matrix<float, fixed<3, 4>, col_basis, row_major>, vector<double, external<3>>>));
INST("scale_external_cbrm_d", 700, (scale<matrix<double, external<>, col_basis, row_major>, vector<double, external<>>, double, float>));
INST("concat_external_cbrm_dynamic_dd", 500, (concat<matrix<double, external<>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("misc_external4x4_cbrm_d", 400, (misc<matrix<double, external<4, 4>, col_basis, row_major>, vector<double, external<3>>>));
INST("basis_external3x4_cbrm_f", 700, (basis<matrix<float, external<3, 4>, col_basis, row_major>, vector<double, external<>>>));
INST("concat_fixed2x2_cbcm_fixed2x2_dd", 500, (concat<matrix<double, fixed<2, 2>, col_basis, col_major>, matrix<double, fixed<2, 2>, col_basis, col_major>>));
INST("misc_fixed2x3_cbcm_f", 400, (misc<matrix<float, fixed<2, 3>, col_basis, col_major>, vector<float, external<3>>>));
INST("misc_fixed3x3_cbcm_i", 400, (misc<matrix<int, fixed<3, 3>, col_basis, col_major>, vector<float, external<>>>));
INST("apply_fixed3x4_cbcm_ff", 900, (apply<matrix<float, fixed<3, 4>, col_basis, col_major>, vector<float, fixed<3>>>));
INST("apply_fixed4x4_cbcm_dd", 900, (apply<matrix<double, fixed<4, 4>, col_basis, col_major>, vector<double, dynamic<>>>));
INST("scale_fixed4x5_cbcm_i", 400, (scale<matrix<int, fixed<4, 5>, col_basis, col_major>, vector<int, external<3>>, int, int>));
INST("scale_dynamic_cbcm_f", 700, (scale<matrix<float, dynamic<>, col_basis, col_major>, vector<double, external<>>, double, int>));
INST("concat_dynamic_cbcm_fixed3x3_ff", 500, (concat<matrix<float, dynamic<>, col_basis, col_major>, matrix<float, fixed<3, 3>, col_basis, col_major>>));
INST("basis_external_cbcm_f", 700, (basis<matrix<float, external<>, col_basis, col_major>, vector<double, external<>>>));
INST("scale_external4x4_cbcm_d", 700, (scale<matrix<double, external<4, 4>, col_basis, col_major>, vector<double, external<>>, float, float>));
INST("concat_external4x4_cbcm_dynamic_id", 500, (concat<matrix<int, external<4, 4>, col_basis, col_major>, matrix<double, dynamic<>, col_basis, col_major>>));
INST("misc_external3x4_cbcm_d", 400, (misc<matrix<double, external<3, 4>, col_basis, col_major>, vector<float, external<3>>>));
