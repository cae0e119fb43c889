// P17: affine transforms.  Generated by tools/gen_P17.py
#include "boxes.h"
#include "P17_common.h"

INST("apply_fixed2x2_rbrm_fd", 900, (apply<matrix<float, fixed<2, 2>, row_basis, row_major>, vector<double, fixed<3>>>));
INST("apply_fixed3x2_rbrm_ff", 900, (apply<matrix<float, fixed<3, 2>, row_basis, row_major>, vector<float, dynamic<>>>));
INST("apply_fixed3x3_rbrm_dd", 900, (apply<matrix<double, fixed<3, 3>, row_basis, row_major>, vector<double, external<3>>>));
INST("basis_fixed4x3_rbrm_d", 700, (basis<matrix<double, fixed<4, 3>, row_basis, row_major>, vector<float, dynamic<>>>));
INST("invert_fixed4x4_rbrm_i", 400, (invert<matrix<int, fixed<4, 4>, row_basis, row_major>>));
INST("trans_fixed5x4_rbrm_i", 700, (trans<matrix<int, fixed<5, 4>, row_basis, row_major>, vector<float, dynamic<>>, float, double>));
INST("linear_fixed5x4_rbrm_fixed4x4_rbcm_ff", 700, (linear<matrix<float, fixed<5, 4>, row_basis, row_major>, matrix<int, fixed<4, 4>, row_basis, col_major>, vector<float, dynamic<>>>));
INST("concat_dynamic_rbrm_fixed2x2_dd", 500, (concat<matrix<double, dynamic<>, row_basis, row_major>, matrix<double, fixed<2, 2>, row_basis, row_major>>));
INST("invert_external_rbrm_d", 700, (invert<matrix<double, external<>, row_basis, row_major>>));
INST("trans_external4x4_rbrm_i", 700, (trans<matrix<int, external<4, 4>, row_basis, row_major>, vector<int, fixed<3>>, float, float>));
INST("linear_external4x4_rbrm_fixed5x4_rbrm_fd", 700, (linear<matrix<float, external<4, 4>, row_basis, row_major>, matrix<int, fixed<5, 4>, row_basis, row_major>, vector<double, external<3>>>));
INST("apply_external4x3_rbrm_ff", 900, (apply<matrix<float, external<4, 3>, row_basis, row_major>, vector<float, dynamic<>>>));
INST("concat_fixed2x2_rbcm_dynamic_fd", 500, (concat<matrix<float, fixed<2, 2>, row_basis, col_major>, matrix<double, dynamic<>, row_basis, col_major>>));
INST("trans_fixed3x3_rbcm_f", 700, (trans<matrix<float, fixed<3, 3>, row_basis, col_major>, vector<float, dynamic<>>, double, int>));
INST("concat_fixed3x3_rbcm_fixed3x3_ff", 500, (concat<matrix<float, fixed<3, 3>, row_basis, col_major>, matrix<float, fixed<3, 3>, row_basis, col_major>>));
INST("apply_fixed4x3_rbcm_if", 600, (apply<matrix<int, fixed<4, 3>, row_basis, col_major>, vector<float, dynamic<>>>));
INST("misc_fixed4x4_rbcm_d", 400, (misc<matrix<double, fixed<4, 4>, row_basis, col_major>, vector<float, external<>>>));
INST("basis_fixed5x4_rbcm_f", 700, (basis<matrix<float, fixed<5, 4>, row_basis, col_major>, vector<int, external<3>>>));
INST("invert_dynamic_rbcm_f", 700, (invert<matrix<float, dynamic<>, row_basis, col_major>>));
INST("concat_dynamic_rbcm_fixed4x4_di", 500, (concat<matrix<double, dynamic<>, row_basis, col_major>, matrix<int, fixed<4, 4>, row_basis, col_major>>));
INST("apply_external_rbcm_ff", 900, (apply<matrix<float, external<>, row_basis, col_major>, vector<float, external<3>>>));
INST("invert_external4x4_rbcm_d", 700, (invert<matrix<double, external<4, 4>, row_basis, col_major>>));
INST("trans_external4x3_rbcm_i", 700, (trans<matrix<int, external<4, 3>, row_basis, col_major>, vector<double, fixed<3>>, int, int>));
INST("linear_external4x3_rbcm_fixed3x3_cbcm_df", 700, (linear<matrix<double, external<4, 3>, row_basis, col_major>, matrix<int, fixed<3, 3>, col_basis, col_major>, vector<float, external<>>>));
INST("scale_fixed2x3_cbrm_i", 400, (scale<matrix<int, fixed<2, 3>, col_basis, row_major>, vector<int, dynamic<>>, int, int>));
INST("invert_fixed3x3_cbrm_d", 700, (invert<matrix<double, fixed<3, 3>, col_basis, row_major>>));
INST("scale_fixed3x4_cbrm_d", 700, (scale<matrix<double, fixed<3, 4>, col_basis, row_major>, vector<float, dynamic<>>, float, double>));
INST("scale_fixed4x4_cbrm_f", 700, (scale<matrix<float, fixed<4, 4>, col_basis, row_major>, vector<int, external<3>>, double, int>));
INST("concat_fixed4x4_cbrm_fixed4x4_ii", 500, (concat<matrix<int, fixed<4, 4>, col_basis, row_major>, matrix<int, fixed<4, 4>, col_basis, row_major>>));
INST("apply_fixed4x5_cbrm_ii", 600, (apply<matrix<int, fixed<4, 5>, col_basis, row_major>, vector<int, external<3>>>));
INST("misc_dynamic_cbrm_f", 400, (misc<matrix<float, dynamic<>, col_basis, row_major>, vector<int, fixed<3>>>));
INST("trans_external_cbrm_i", 700, (trans<matrix<int, external<>, col_basis, row_major>, vector<double, dynamic<>>, double, float>));
INST("linear_external_cbrm_fixed3x3_cbcm_df", 700, (linear<matrix<double, external<>, col_basis, row_major>, matrix<int, fixed<3, 3>, col_basis, col_major>, vector<float, external<>>>));
INST("apply_external4x4_cbrm_fd", 900, (apply<matrix<float, external<4, 4>, col_basis, row_major>, vector<double, external<3>>>));
INST("invert_external3x4_cbrm_f", 700, (invert<matrix<float, external<3, 4>, col_basis, row_major>>));
INST("misc_fixed2x2_cbcm_d", 400, (misc<matrix<double, fixed<2, 2>, col_basis, col_major>, vector<float, dynamic<>>>));
INST("apply_fixed2x3_cbcm_if", 600, (apply<matrix<int, fixed<2, 3>, col_basis, col_major>, vector<float, dynamic<>>>));
INST("apply_fixed3x3_cbcm_fd", 900, (apply<matrix<float, fixed<3, 3>, col_basis, col_major>, vector<double, external<>>>));
INST("basis_fixed3x4_cbcm_d", 700, (basis<matrix<double, fixed<3, 4>, col_basis, col_major>, vector<int, external<3>>>));
INST("basis_fixed4x4_cbcm_f", 700, (basis<matrix<float, fixed<4, 4>, col_basis, col_major>, vector<int, external<3>>>));
INST("scale_fixed4x5_cbcm_d", 700, (scale<matrix<double, fixed<4, 5>, col_basis, col_major>, vector<int, external<3>>, float, double>));
INST("trans_dynamic_cbcm_d", 700, (trans<matrix<double, dynamic<>, col_basis, col_major>, vector<double, external<>>, double, int>));
INST("concat_dynamic_cbcm_fixed2x2_dd", 500, (concat<matrix<double, dynamic<>, col_basis, col_major>, matrix<double, fixed<2, 2>, col_basis, col_major>>));
INST("invert_external_cbcm_f", 700, (invert<matrix<float, external<>, col_basis, col_major>>));
INST("trans_external4x4_cbcm_i", 700, (trans<matrix<int, external<4, 4>, col_basis, col_major>, vector<double, dynamic<>>, float, float>));
INST("concat_external4x4_cbcm_fixed4x4_fi", 500, (concat<matrix<float, external<4, 4>, col_basis, col_major>, matrix<int, fixed<4, 4>, col_basis, col_major>>));
INST("apply_external3x4_cbcm_if", 600, (apply<matrix<int, external<3, 4>, col_basis, col_major>, vector<float, fixed<3>>>));
