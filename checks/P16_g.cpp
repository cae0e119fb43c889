// P16: Euler angles.  Generated by tools/gen_P16.py
#include "boxes.h"
#include "P16_common.h"

INST("build_fixed4x3_rbrm_ddfd", 4000, (build<matrix<double, fixed<4, 3>, row_basis, row_major>, double, float, double, vector<double, external<3>>>));
INST("extract_external_rbrm_dddf", 8000, (extract<matrix<double, external<>, row_basis, row_major>, double, double, float, vector<double, fixed<3>>>));
INST("deriv_fixed4x4_rbcm_dddd", 4000, (deriv<matrix<double, fixed<4, 4>, row_basis, col_major>, double, double, double, vector<double, external<>>>));
INST("build_external_rbcm_dddd", 4000, (build<matrix<double, external<>, row_basis, col_major>, double, double, double, vector<double, external<3>>>));
INST("extract_fixed3x3_cbrm_fdfd", 8000, (extract<matrix<float, fixed<3, 3>, col_basis, row_major>, double, float, double, vector<float, fixed<3>>>));
INST("deriv_dynamic_cbrm_fddd", 4000, (deriv<matrix<float, dynamic<>, col_basis, row_major>, double, double, double, vector<float, external<>>>));
INST("build_fixed3x3_cbcm_ffdf", 4000, (build<matrix<float, fixed<3, 3>, col_basis, col_major>, float, double, float, vector<float, external<3>>>));
INST("extract_fixed3x4_cbcm_dddd", 8000, (extract<matrix<double, fixed<3, 4>, col_basis, col_major>, double, double, double, vector<double, fixed<3>>>));
INST("deriv_external3x3_cbcm_dddd", 4000, (deriv<matrix<double, external<3, 3>, col_basis, col_major>, double, double, double, vector<double, external<>>>));
INST("qextract_in_d", 8000, (qextract<quaternion<double, fixed<>, imaginary_first, negative_cross>, double, double, double, vector<double, fixed<3>>>));
INST("qbuild_rp_mixed", 4000, (qbuild<quaternion<double, fixed<>, real_first, positive_cross>, double, float, double, vector<float, dynamic<>>>));
