// P17: affine transforms.  Generated by tools/gen_P17.py
#include "boxes.h"
#include "P17_common.h"

INST("concat_fixed2x2_rbrm_fixed2x2_dd", 500, (concat<matrix<double, fixed<2, 2>, row_basis, row_major>, matrix<double, fixed<2, 2>, row_basis, row_major>>));
INST("misc_fixed3x2_rbrm_f", 400, (misc<matrix<float, fixed<3, 2>, row_basis, row_major>, vector<double, dynamic<>>>));
INST("linear_fixed3x3_rbrm_fixed3x4_cbrm_dd", 700, (linear<matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<int, fixed<3, 4>, col_basis, row_major>, vector<double, fixed<3>>>));
INST("apply_fixed4x3_rbrm_if", 600, (apply<matrix<int, fixed<4, 3>, row_basis, row_major>, vector<float, dynamic<>>>));
INST("apply_fixed4x4_rbrm_fd", 900, (apply<matrix<float, fixed<4, 4>, row_basis, row_major>, vector<double, fixed<3>>>));
INST("scale_fixed5x4_rbrm_i", 400, (scale<matrix<int, fixed<5, 4>, row_basis, row_major>, vector<int, dynamic<>>, int, int>));
INST("scale_dynamic_rbrm_d", 700, (scale<matrix<double, dynamic<>, row_basis, row_major>, vector<int, external<3>>, double, int>));
INST("concat_dynamic_rbrm_fixed4x4_ii", 500, (concat<matrix<int, dynamic<>, row_basis, row_major>, matrix<int, fixed<4, 4>, row_basis, row_major>>));
INST("apply_external_rbrm_df", 900, (apply<matrix<double, external<>, row_basis, row_major>, vector<float, external<>>>));
INST("scale_external4x4_rbrm_i", 400, (scale<matrix<int, external<4, 4>, row_basis, row_major>, vector<int, external<3>>, int, int>));
INST("concat_external4x4_rbrm_dynamic_id", 500, (concat<matrix<int, external<4, 4>, row_basis, row_major>, matrix<double, dynamic<>, row_basis, row_major>>));
INST("misc_external4x3_rbrm_d", 400, (misc<matrix<double, external<4, 3>, row_basis, row_major>, vector<double, dynamic<>>>));
INST("scale_fixed3x2_rbcm_d", 700, (scale<matrix<double, fixed<3, 2>, row_basis, col_major>, vector<double, fixed<3>>, float, double>));
INST("invert_fixed3x3_rbcm_f", 700, (invert<matrix<float, fixed<3, 3>, row_basis, col_major>>));
INST("trans_fixed4x3_rbcm_i", 700, (trans<matrix<int, fixed<4, 3>, row_basis, col_major>, vector<float, external<3>>, int, int>));
INST("linear_fixed4x3_rbcm_fixed4x4_rbcm_ff", 700, (linear<matrix<float, fixed<4, 3>, row_basis, col_major>, matrix<int, fixed<4, 4>, row_basis, col_major>, vector<float, dynamic<>>>));
INST("concat_fixed4x4_rbcm_fixed4x4_fi", 500, (concat<matrix<float, fixed<4, 4>, row_basis, col_major>, matrix<int, fixed<4, 4>, row_basis, col_major>>));
INST("apply_fixed5x4_rbcm_ii", 600, (apply<matrix<int, fixed<5, 4>, row_basis, col_major>, vector<int, external<3>>>));
INST("basis_dynamic_rbcm_i", 700, (basis<matrix<int, dynamic<>, row_basis, col_major>, vector<int, external<3>>>));
INST("concat_dynamic_rbcm_external_if", 500, (concat<matrix<int, dynamic<>, row_basis, col_major>, matrix<float, external<>, row_basis, col_major>>));
INST("misc_external_rbcm_d", 400, (misc<matrix<double, external<>, row_basis, col_major>, vector<int, external<3>>>));
INST("apply_external4x4_rbcm_dd", 900, (apply<matrix<double, external<4, 4>, row_basis, col_major>, vector<double, external<>>>));
INST("scale_external4x3_rbcm_i", 400, (scale<matrix<int, external<4, 3>, row_basis, col_major>, vector<int, external<>>, int, int>));
INST("apply_fixed2x2_cbrm_fd", 900, (apply<matrix<float, fixed<2, 2>, col_basis, row_major>, vector<double, external<3>>>));
INST("basis_fixed2x3_cbrm_i", 700, (basis<matrix<int, fixed<2, 3>, col_basis, row_major>, vector<float, dynamic<>>>));
INST("apply_fixed3x3_cbrm_dd", 900, (apply<matrix<double, fixed<3, 3>, col_basis, row_major>, vector<double, fixed<3>>>));
INST("basis_fixed3x4_cbrm_f", 700, (basis<matrix<float, fixed<3, 4>, col_basis, row_major>, vector<float, dynamic<>>>));
INST("invert_fixed4x4_cbrm_f", 700, (invert<matrix<float, fixed<4, 4>, col_basis, row_major>>));
INST("concat_fixed4x4_cbrm_external4x4_ii", 500, (concat<matrix<int, fixed<4, 4>, col_basis, row_major>, matrix<int, external<4, 4>, col_basis, row_major>>));
INST("linear_fixed4x5_cbrm_fixed4x4_rbcm_ff", 700, (linear<matrix<float, fixed<4, 5>, col_basis, row_major>, matrix<double, fixed<4, 4>, row_basis, col_major>, vector<float, external<3>>>));
INST("concat_dynamic_cbrm_fixed2x2_id", 500, (concat<matrix<int, dynamic<>, col_basis, row_major>, matrix<double, fixed<2, 2>, col_basis, row_major>>));
INST("scale_external_cbrm_i", 400, (scale<matrix<int, external<>, col_basis, row_major>, vector<int, external<>>, int, int>));
INST("concat_external_cbrm_external_ff", 500, (concat<matrix<float, external<>, col_basis, row_major>, matrix<float, external<>, col_basis, row_major>>));
INST("linear_external4x4_cbrm_fixed5x4_rbrm_fd", 700, (linear<matrix<float, external<4, 4>, col_basis, row_major>, matrix<double, fixed<5, 4>, row_basis, row_major>, vector<double, external<>>>));
INST("apply_external3x4_cbrm_ff", 900, (apply<matrix<float, external<3, 4>, col_basis, row_major>, vector<float, external<>>>));
INST("concat_fixed2x2_cbcm_dynamic_dd", 500, (concat<matrix<double, fixed<2, 2>, col_basis, col_major>, matrix<double, dynamic<>, col_basis, col_major>>));
INST("trans_fixed3x3_cbcm_i", 700, (trans<matrix<int, fixed<3, 3>, col_basis, col_major>, vector<float, external<>>, float, float>));
INST("linear_fixed3x3_cbcm_fixed5x4_rbrm_fd", 700, (linear<matrix<float, fixed<3, 3>, col_basis, col_major>, matrix<int, fixed<5, 4>, row_basis, row_major>, vector<double, dynamic<>>>));
INST("apply_fixed3x4_cbcm_ii", 600, (apply<matrix<int, fixed<3, 4>, col_basis, col_major>, vector<int, external<3>>>));
INST("misc_fixed4x4_cbcm_f", 400, (misc<matrix<float, fixed<4, 4>, col_basis, col_major>, vector<int, dynamic<>>>));
INST("invert_fixed4x5_cbcm_d", 700, (invert<matrix<double, fixed<4, 5>, col_basis, col_major>>));
INST("invert_dynamic_cbcm_f", 700, (invert<matrix<float, dynamic<>, col_basis, col_major>>));
INST("concat_dynamic_cbcm_fixed4x4_ii", 500, (concat<matrix<int, dynamic<>, col_basis, col_major>, matrix<int, fixed<4, 4>, col_basis, col_major>>));
INST("apply_external_cbcm_ff", 900, (apply<matrix<float, external<>, col_basis, col_major>, vector<float, fixed<3>>>));
INST("scale_external4x4_cbcm_i", 400, (scale<matrix<int, external<4, 4>, col_basis, col_major>, vector<int, external<>>, int, int>));
INST("concat_external4x4_cbcm_external4x4_fi", 500, (concat<matrix<float, external<4, 4>, col_basis, col_major>, matrix<int, external<4, 4>, col_basis, col_major>>));
INST("linear_external3x4_cbcm_fixed3x3_cbcm_df", 700, (linear<matrix<double, external<3, 4>, col_basis, col_major>, matrix<double, fixed<3, 3>, col_basis, col_major>, vector<float, fixed<3>>>));
