// P17: affine transforms.  Generated by tools/gen_P17.py
#include "boxes.h"
#include "P17_common.h"

INST("scale_fixed3x2_rbrm_f", 700, (scale<matrix<float, fixed<3, 2>, row_basis, row_major>, vector<double, fixed<3>>, int, int>));
INST("scale_fixed3x3_rbrm_i", 400, (scale<matrix<int, fixed<3, 3>, row_basis, row_major>, vector<int, fixed<3>>, int, int>));
INST("trans_fixed4x3_rbrm_d", 700, (trans<matrix<double, fixed<4, 3>, row_basis, row_major>, vector<float, external<>>, double, float>));
INST("trans_fixed4x4_rbrm_f", 700, (trans<matrix<float, fixed<4, 4>, row_basis, row_major>, vector<float, fixed<3>>, int, double>));
INST("concat_fixed4x4_rbrm_fixed4x4_di", 500, (concat<matrix<double, fixed<4, 4>, row_basis, row_major>, matrix<int, fixed<4, 4>, row_basis, row_major>>));
INST("apply_fixed5x4_rbrm_ff", 900, (apply<matrix<float, fixed<5, 4>, row_basis, row_major>, vector<float, dynamic<>>>));
INST("apply_dynamic_rbrm_dd", 900, (apply<matrix<double, dynamic<>, row_basis, row_major>, vector<double, external<3>>>));
INST("concat_dynamic_rbrm_external4x4_ii", 500, (concat<matrix<int, dynamic<>, row_basis, row_major>, matrix<int, external<4, 4>, row_basis, row_major>>));
INST("linear_external_rbrm_fixed3x3_cbcm_df", 700, (linear<matrix<double, external<>, row_basis, row_major>, matrix<float, fixed<3, 3>, col_basis, col_major>, vector<float, external<3>>>));
INST("basis_external4x4_rbrm_i", 700, (basis<matrix<int, external<4, 4>, row_basis, row_major>, vector<int, external<3>>>));
INST("scale_external4x3_rbrm_f", 700, (scale<matrix<float, external<4, 3>, row_basis, row_major>, vector<double, external<>>, double, float>));
INST("apply_fixed2x2_rbcm_dd", 900, (apply<matrix<double, fixed<2, 2>, row_basis, col_major>, vector<double, external<>>>));
INST("apply_fixed3x2_rbcm_df", 900, (apply<matrix<double, fixed<3, 2>, row_basis, col_major>, vector<float, fixed<3>>>));
INST("apply_fixed3x3_rbcm_fd", 900, (apply<matrix<float, fixed<3, 3>, row_basis, col_major>, vector<double, dynamic<>>>));
INST("invert_fixed4x3_rbcm_f", 700, (invert<matrix<float, fixed<4, 3>, row_basis, col_major>>));
INST("invert_fixed4x4_rbcm_d", 700, (invert<matrix<double, fixed<4, 4>, row_basis, col_major>>));
INST("trans_fixed5x4_rbcm_f", 700, (trans<matrix<float, fixed<5, 4>, row_basis, col_major>, vector<int, fixed<3>>, double, float>));
INST("trans_dynamic_rbcm_i", 700, (trans<matrix<int, dynamic<>, row_basis, col_major>, vector<int, dynamic<>>, int, double>));
INST("linear_dynamic_rbcm_fixed5x4_rbrm_fd", 700, (linear<matrix<float, dynamic<>, row_basis, col_major>, matrix<int, fixed<5, 4>, row_basis, row_major>, vector<double, external<3>>>));
INST("scale_external_rbcm_f", 700, (scale<matrix<float, external<>, row_basis, col_major>, vector<int, external<3>>, float, double>));
INST("concat_external_rbcm_external_df", 500, (concat<matrix<double, external<>, row_basis, col_major>, matrix<float, external<>, row_basis, col_major>>));
INST("concat_external4x4_rbcm_fixed4x4_ii", 500, (concat<matrix<int, external<4, 4>, row_basis, col_major>, matrix<int, fixed<4, 4>, row_basis, col_major>>));
INST("apply_external4x3_rbcm_df", 900, (apply<matrix<double, external<4, 3>, row_basis, col_major>, vector<float, fixed<3>>>));
INST("concat_fixed2x2_cbrm_dynamic_id", 500, (concat<matrix<int, fixed<2, 2>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("misc_fixed2x3_cbrm_i", 400, (misc<matrix<int, fixed<2, 3>, col_basis, row_major>, vector<float, external<>>>));
INST("concat_fixed3x3_cbrm_fixed3x3_if", 500, (concat<matrix<int, fixed<3, 3>, col_basis, row_major>, matrix<float, fixed<3, 3>, col_basis, row_major>>));
INST("misc_fixed3x4_cbrm_f", 400, (misc<matrix<float, fixed<3, 4>, col_basis, row_major>, vector<float, dynamic<>>>));
INST("apply_fixed4x4_cbrm_fd", 900, (apply<matrix<float, fixed<4, 4>, col_basis, row_major>, vector<double, external<3>>>));
INST("invert_fixed4x5_cbrm_f", 700, (invert<matrix<float, fixed<4, 5>, col_basis, row_major>>));
INST("invert_dynamic_cbrm_d", 700, (invert<matrix<double, dynamic<>, col_basis, row_major>>));
INST("concat_dynamic_cbrm_dynamic_id", 500, (concat<matrix<int, dynamic<>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("apply_external_cbrm_df", 900, (apply<matrix<double, external<>, col_basis, row_major>, vector<float, dynamic<>>>));
INST("invert_external4x4_cbrm_f", 700, (invert<matrix<float, external<4, 4>, col_basis, row_major>>));
INST("concat_external4x4_cbrm_external4x4_di", 500, (concat<matrix<double, external<4, 4>, col_basis, row_major>, matrix<int, external<4, 4>, col_basis, row_major>>));
INST("linear_external3x4_cbrm_fixed4x4_rbcm_ff", 700, (linear<matrix<float, external<3, 4>, col_basis, row_major>, matrix<float, fixed<4, 4>, row_basis, col_major>, vector<float, external<>>>));
INST("invert_fixed2x3_cbcm_d", 700, (invert<matrix<double, fixed<2, 3>, col_basis, col_major>>));
INST("invert_fixed3x3_cbcm_f", 700, (invert<matrix<float, fixed<3, 3>, col_basis, col_major>>));
INST("trans_fixed3x4_cbcm_d", 700, (trans<matrix<double, fixed<3, 4>, col_basis, col_major>, vector<int, fixed<3>>, double, float>));
INST("trans_fixed4x4_cbcm_f", 700, (trans<matrix<float, fixed<4, 4>, col_basis, col_major>, vector<int, dynamic<>>, int, double>));
INST("concat_fixed4x4_cbcm_dynamic_fd", 500, (concat<matrix<float, fixed<4, 4>, col_basis, col_major>, matrix<double, dynamic<>, col_basis, col_major>>));
INST("apply_fixed4x5_cbcm_ii", 600, (apply<matrix<int, fixed<4, 5>, col_basis, col_major>, vector<int, external<3>>>));
INST("apply_dynamic_cbcm_fd", 900, (apply<matrix<float, dynamic<>, col_basis, col_major>, vector<double, external<>>>));
INST("concat_dynamic_cbcm_external4x4_ii", 500, (concat<matrix<int, dynamic<>, col_basis, col_major>, matrix<int, external<4, 4>, col_basis, col_major>>));
INST("linear_external_cbcm_fixed4x4_rbcm_ff", 700, (linear<matrix<float, external<>, col_basis, col_major>, matrix<float, fixed<4, 4>, row_basis, col_major>, vector<float, external<>>>));
INST("apply_external4x4_cbcm_dd", 900, (apply<matrix<double, external<4, 4>, col_basis, col_major>, vector<double, dynamic<>>>));
INST("invert_external3x4_cbcm_d", 700, (invert<matrix<double, external<3, 4>, col_basis, col_major>>));
