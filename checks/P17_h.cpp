// P17: affine transforms.  Generated by tools/gen_P17.py
#include "boxes.h"
#include "P17_common.h"

INST("invert_fixed3x2_rbrm_f", 700, (invert<matrix<float, fixed<3, 2>, row_basis, row_major>>));
INST("invert_fixed3x3_rbrm_d", 700, (invert<matrix<double, fixed<3, 3>, row_basis, row_major>>));
INST("scale_fixed4x3_rbrm_d", 700, (scale<matrix<double, fixed<4, 3>, row_basis, row_major>, vector<float, dynamic<>>, double, float>));
INST("scale_fixed4x4_rbrm_f", 700, (scale<matrix<float, fixed<4, 4>, row_basis, row_major>, vector<float, dynamic<>>, int, double>));
INST("concat_fixed4x4_rbrm_dynamic_fd", 500, (concat<matrix<float, fixed<4, 4>, row_basis, row_major>, matrix<double, dynamic<>, row_basis, row_major>>));
INST("apply_fixed5x4_rbrm_if", 600, (apply<matrix<int, fixed<5, 4>, row_basis, row_major>, vector<float, dynamic<>>>));
INST("misc_dynamic_rbrm_d", 400, (misc<matrix<double, dynamic<>, row_basis, row_major>, vector<int, external<3>>>));
INST("trans_external_rbrm_f", 700, (trans<matrix<float, external<>, row_basis, row_major>, vector<int, external<>>, int, int>));
INST("concat_external_rbrm_dynamic_fd", 500, (concat<matrix<float, external<>, row_basis, row_major>, matrix<double, dynamic<>, row_basis, row_major>>));
INST("apply_external4x4_rbrm_fd", 900, (apply<matrix<float, external<4, 4>, row_basis, row_major>, vector<double, fixed<3>>>));
INST("invert_external4x3_rbrm_f", 700, (invert<matrix<float, external<4, 3>, row_basis, row_major>>));
INST("misc_fixed2x2_rbcm_i", 400, (misc<matrix<int, fixed<2, 2>, row_basis, col_major>, vector<double, external<>>>));
INST("apply_fixed3x2_rbcm_id", 600, (apply<matrix<int, fixed<3, 2>, row_basis, col_major>, vector<double, fixed<3>>>));
INST("misc_fixed3x3_rbcm_f", 400, (misc<matrix<float, fixed<3, 3>, row_basis, col_major>, vector<float, dynamic<>>>));
INST("basis_fixed4x3_rbcm_i", 700, (basis<matrix<int, fixed<4, 3>, row_basis, col_major>, vector<float, dynamic<>>>));
INST("basis_fixed4x4_rbcm_d", 700, (basis<matrix<double, fixed<4, 4>, row_basis, col_major>, vector<float, dynamic<>>>));
INST("scale_fixed5x4_rbcm_d", 700, (scale<matrix<double, fixed<5, 4>, row_basis, col_major>, vector<int, external<3>>, double, float>));
INST("scale_dynamic_rbcm_f", 700, (scale<matrix<float, dynamic<>, row_basis, col_major>, vector<int, external<3>>, int, double>));
INST("concat_dynamic_rbcm_fixed2x2_fd", 500, (concat<matrix<float, dynamic<>, row_basis, col_major>, matrix<double, fixed<2, 2>, row_basis, col_major>>));
INST("invert_external_rbcm_f", 700, (invert<matrix<float, external<>, row_basis, col_major>>));
INST("trans_external4x4_rbcm_f", 700, (trans<matrix<float, external<4, 4>, row_basis, col_major>, vector<double, external<>>, double, int>));
INST("concat_external4x4_rbcm_dynamic_dd", 500, (concat<matrix<double, external<4, 4>, row_basis, col_major>, matrix<double, dynamic<>, row_basis, col_major>>));
INST("apply_external4x3_rbcm_id", 600, (apply<matrix<int, external<4, 3>, row_basis, col_major>, vector<double, external<>>>));
INST("trans_fixed2x3_cbrm_i", 700, (trans<matrix<int, fixed<2, 3>, col_basis, row_major>, vector<float, external<>>, double, float>));
INST("trans_fixed3x3_cbrm_d", 700, (trans<matrix<double, fixed<3, 3>, col_basis, row_major>, vector<float, fixed<3>>, int, double>));
INST("concat_fixed3x3_cbrm_dynamic_fd", 500, (concat<matrix<float, fixed<3, 3>, col_basis, row_major>, matrix<double, dynamic<>, col_basis, row_major>>));
INST("linear_fixed3x4_cbrm_fixed3x3_cbcm_df", 700, (linear<matrix<double, fixed<3, 4>, col_basis, row_major>, matrix<float, fixed<3, 3>, col_basis, col_major>, vector<float, dynamic<>>>));
INST("misc_fixed4x4_cbrm_i", 400, (misc<matrix<int, fixed<4, 4>, col_basis, row_major>, vector<int, external<3>>>));
INST("basis_fixed4x5_cbrm_d", 700, (basis<matrix<double, fixed<4, 5>, col_basis, row_major>, vector<int, external<3>>>));
INST("basis_dynamic_cbrm_f", 700, (basis<matrix<float, dynamic<>, col_basis, row_major>, vector<int, external<3>>>));
INST("concat_dynamic_cbrm_external_df", 500, (concat<matrix<double, dynamic<>, col_basis, row_major>, matrix<float, external<>, col_basis, row_major>>));
INST("apply_external_cbrm_id", 600, (apply<matrix<int, external<>, col_basis, row_major>, vector<double, external<>>>));
INST("invert_external4x4_cbrm_i", 400, (invert<matrix<int, external<4, 4>, col_basis, row_major>>));
INST("trans_external3x4_cbrm_f", 700, (trans<matrix<float, external<3, 4>, col_basis, row_major>, vector<double, external<>>, float, double>));
INST("basis_fixed2x2_cbcm_d", 700, (basis<matrix<double, fixed<2, 2>, col_basis, col_major>, vector<float, dynamic<>>>));
INST("basis_fixed2x3_cbcm_f", 700, (basis<matrix<float, fixed<2, 3>, col_basis, col_major>, vector<float, dynamic<>>>));
INST("invert_fixed3x3_cbcm_i", 400, (invert<matrix<int, fixed<3, 3>, col_basis, col_major>>));
INST("scale_fixed3x4_cbcm_f", 700, (scale<matrix<float, fixed<3, 4>, col_basis, col_major>, vector<int, external<3>>, double, float>));
INST("scale_fixed4x4_cbcm_d", 700, (scale<matrix<double, fixed<4, 4>, col_basis, col_major>, vector<int, external<3>>, int, double>));
INST("concat_fixed4x4_cbcm_external4x4_di", 500, (concat<matrix<double, fixed<4, 4>, col_basis, col_major>, matrix<int, external<4, 4>, col_basis, col_major>>));
INST("misc_fixed4x5_cbcm_i", 400, (misc<matrix<int, fixed<4, 5>, col_basis, col_major>, vector<int, external<3>>>));
INST("misc_dynamic_cbcm_d", 400, (misc<matrix<double, dynamic<>, col_basis, col_major>, vector<double, external<>>>));
INST("trans_external_cbcm_f", 700, (trans<matrix<float, external<>, col_basis, col_major>, vector<double, fixed<3>>, int, int>));
INST("concat_external_cbcm_dynamic_fd", 500, (concat<matrix<float, external<>, col_basis, col_major>, matrix<double, dynamic<>, col_basis, col_major>>));
INST("misc_external4x4_cbcm_i", 400, (misc<matrix<int, external<4, 4>, col_basis, col_major>, vector<double, dynamic<>>>));
INST("basis_external3x4_cbcm_d", 700, (basis<matrix<double, external<3, 4>, col_basis, col_major>, vector<float, fixed<3>>>));
