// P17: affine transforms.  Generated by tools/gen_P17.py
#include "boxes.h"
#include "P17_common.h"

INST("trans_fixed3x2_rbrm_f", 700, (trans<matrix<float, fixed<3, 2>, row_basis, row_major>, vector<double, dynamic<>>, int, int>));
INST("scale_fixed3x3_rbrm_d", 700, (scale<matrix<double, fixed<3, 3>, row_basis, row_major>, vector<double, fixed<3>>, float, float>));
INST("concat_fixed3x3_rbrm_dynamic_id", 500, (concat<matrix<int, fixed<3, 3>, row_basis, row_major>, matrix<double, dynamic<>, row_basis, row_major>>));
INST("linear_fixed4x3_rbrm_fixed3x3_cbcm_df", 700, (linear<matrix<double, fixed<4, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, col_basis, col_major>, vector<float, dynamic<>>>));
INST("linear_fixed4x4_rbrm_fixed5x4_rbrm_fd", 700, (linear<matrix<float, fixed<4, 4>, row_basis, row_major>, matrix<float, fixed<5, 4>, row_basis, row_major>, vector<double, dynamic<>>>));
INST("basis_fixed5x4_rbrm_i", 700, (basis<matrix<int, fixed<5, 4>, row_basis, row_major>, vector<float, dynamic<>>>));
INST("basis_dynamic_rbrm_d", 700, (basis<matrix<double, dynamic<>, row_basis, row_major>, vector<int, external<3>>>));
INST("concat_dynamic_rbrm_external_ff", 500, (concat<matrix<float, dynamic<>, row_basis, row_major>, matrix<float, external<>, row_basis, row_major>>));
INST("misc_external_rbrm_f", 400, (misc<matrix<float, external<>, row_basis, row_major>, vector<int, external<>>>));
INST("invert_external4x4_rbrm_i", 400, (invert<matrix<int, external<4, 4>, row_basis, row_major>>));
INST("trans_external4x3_rbrm_d", 700, (trans<matrix<double, external<4, 3>, row_basis, row_major>, vector<double, dynamic<>>, double, float>));
INST("basis_fixed2x2_rbcm_i", 700, (basis<matrix<int, fixed<2, 2>, row_basis, col_major>, vector<double, fixed<3>>>));
INST("basis_fixed3x2_rbcm_d", 700, (basis<matrix<double, fixed<3, 2>, row_basis, col_major>, vector<double, fixed<3>>>));
INST("basis_fixed3x3_rbcm_f", 700, (basis<matrix<float, fixed<3, 3>, row_basis, col_major>, vector<float, dynamic<>>>));
INST("scale_fixed4x3_rbcm_i", 400, (scale<matrix<int, fixed<4, 3>, row_basis, col_major>, vector<int, dynamic<>>, int, int>));
INST("scale_fixed4x4_rbcm_d", 700, (scale<matrix<double, fixed<4, 4>, row_basis, col_major>, vector<float, dynamic<>>, float, float>));
INST("concat_fixed4x4_rbcm_external4x4_fi", 500, (concat<matrix<float, fixed<4, 4>, row_basis, col_major>, matrix<int, external<4, 4>, row_basis, col_major>>));
INST("linear_fixed5x4_rbcm_fixed3x3_cbcm_df", 700, (linear<matrix<double, fixed<5, 4>, row_basis, col_major>, matrix<float, fixed<3, 3>, col_basis, col_major>, vector<float, external<3>>>));
INST("misc_dynamic_rbcm_i", 400, (misc<matrix<int, dynamic<>, row_basis, col_major>, vector<int, dynamic<>>>));
INST("trans_external_rbcm_d", 700, (trans<matrix<double, external<>, row_basis, col_major>, vector<int, external<3>>, float, double>));
INST("concat_external_rbcm_dynamic_id", 500, (concat<matrix<int, external<>, row_basis, col_major>, matrix<double, dynamic<>, row_basis, col_major>>));
INST("linear_external4x4_rbcm_fixed3x4_cbrm_dd", 700, (linear<matrix<double, external<4, 4>, row_basis, col_major>, matrix<float, fixed<3, 4>, col_basis, row_major>, vector<double, external<>>>));
INST("basis_external4x3_rbcm_i", 700, (basis<matrix<int, external<4, 3>, row_basis, col_major>, vector<double, external<>>>));
INST("concat_fixed2x2_cbrm_fixed2x2_id", 500, (concat<matrix<int, fixed<2, 2>, col_basis, row_major>, matrix<double, fixed<2, 2>, col_basis, row_major>>));
INST("apply_fixed2x3_cbrm_if", 600, (apply<matrix<int, fixed<2, 3>, col_basis, row_major>, vector<float, dynamic<>>>));
INST("linear_fixed3x3_cbrm_fixed3x4_cbrm_dd", 700, (linear<matrix<double, fixed<3, 3>, col_basis, row_major>, matrix<double, fixed<3, 4>, col_basis, row_major>, vector<double, dynamic<>>>));
INST("apply_fixed3x4_cbrm_if", 600, (apply<matrix<int, fixed<3, 4>, col_basis, row_major>, vector<float, dynamic<>>>));
INST("basis_fixed4x4_cbrm_i", 700, (basis<matrix<int, fixed<4, 4>, col_basis, row_major>, vector<int, external<3>>>));
INST("scale_fixed4x5_cbrm_f", 700, (scale<matrix<float, fixed<4, 5>, col_basis, row_major>, vector<int, external<3>>, int, int>));
INST("scale_dynamic_cbrm_d", 700, (scale<matrix<double, dynamic<>, col_basis, row_major>, vector<int, external<3>>, float, float>));
INST("concat_dynamic_cbrm_fixed4x4_fi", 500, (concat<matrix<float, dynamic<>, col_basis, row_major>, matrix<int, fixed<4, 4>, col_basis, row_major>>));
INST("basis_external_cbrm_i", 700, (basis<matrix<int, external<>, col_basis, row_major>, vector<double, external<>>>));
INST("scale_external4x4_cbrm_f", 700, (scale<matrix<float, external<4, 4>, col_basis, row_major>, vector<double, external<>>, int, double>));
INST("concat_external4x4_cbrm_dynamic_fd", 500, (concat<matrix<float, external<4, 4>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("misc_external3x4_cbrm_f", 400, (misc<matrix<float, external<3, 4>, col_basis, row_major>, vector<double, external<>>>));
INST("scale_fixed2x3_cbcm_d", 700, (scale<matrix<double, fixed<2, 3>, col_basis, col_major>, vector<float, dynamic<>>, int, int>));
INST("scale_fixed3x3_cbcm_i", 400, (scale<matrix<int, fixed<3, 3>, col_basis, col_major>, vector<int, dynamic<>>, int, int>));
INST("concat_fixed3x3_cbcm_dynamic_id", 500, (concat<matrix<int, fixed<3, 3>, col_basis, col_major>, matrix<double, dynamic<>, col_basis, col_major>>));
INST("linear_fixed3x4_cbcm_fixed4x4_rbcm_ff", 700, (linear<matrix<float, fixed<3, 4>, col_basis, col_major>, matrix<double, fixed<4, 4>, row_basis, col_major>, vector<float, external<3>>>));
INST("concat_fixed4x4_cbcm_fixed4x4_di", 500, (concat<matrix<double, fixed<4, 4>, col_basis, col_major>, matrix<int, fixed<4, 4>, col_basis, col_major>>));
INST("apply_fixed4x5_cbcm_df", 900, (apply<matrix<double, fixed<4, 5>, col_basis, col_major>, vector<float, external<3>>>));
INST("basis_dynamic_cbcm_d", 700, (basis<matrix<double, dynamic<>, col_basis, col_major>, vector<double, external<>>>));
INST("concat_dynamic_cbcm_external_ff", 500, (concat<matrix<float, dynamic<>, col_basis, col_major>, matrix<float, external<>, col_basis, col_major>>));
INST("misc_external_cbcm_f", 400, (misc<matrix<float, external<>, col_basis, col_major>, vector<double, fixed<3>>>));
INST("basis_external4x4_cbcm_i", 700, (basis<matrix<int, external<4, 4>, col_basis, col_major>, vector<double, external<>>>));
INST("scale_external3x4_cbcm_d", 700, (scale<matrix<double, external<3, 4>, col_basis, col_major>, vector<float, fixed<3>>, double, float>));
