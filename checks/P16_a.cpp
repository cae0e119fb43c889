// P16: Euler angles.  Generated by tools/gen_P16.py
#include "boxes.h"
#include "P16_common.h"

INST("build_fixed3x3_rbrm_fddd", 4000, (build<matrix<float, fixed<3, 3>, row_basis, row_major>, double, double, double, vector<float, fixed<3>>>));
INST("extract_fixed4x3_rbrm_ddfd", 8000, (extract<matrix<double, fixed<4, 3>, row_basis, row_major>, double, float, double, vector<double, fixed<3>>>));
INST("deriv_external3x3_rbrm_dddd", 4000, (deriv<matrix<double, external<3, 3>, row_basis, row_major>, double, double, double, vector<double, dynamic<>>>));
INST("build_fixed4x3_rbcm_dfdf", 4000, (build<matrix<double, fixed<4, 3>, row_basis, col_major>, float, double, float, vector<double, fixed<3>>>));
INST("extract_external_rbcm_dddd", 8000, (extract<matrix<double, external<>, row_basis, col_major>, double, double, double, vector<double, fixed<3>>>));
INST("deriv_fixed4x4_cbrm_dddd", 4000, (deriv<matrix<double, fixed<4, 4>, col_basis, row_major>, double, double, double, vector<double, dynamic<>>>));
INST("build_external_cbrm_dfff", 4000, (build<matrix<double, external<>, col_basis, row_major>, float, float, float, vector<double, fixed<3>>>));
INST("extract_fixed3x3_cbcm_ffdf", 8000, (extract<matrix<float, fixed<3, 3>, col_basis, col_major>, float, double, float, vector<float, fixed<3>>>));
INST("deriv_dynamic_cbcm_ffff", 4000, (deriv<matrix<float, dynamic<>, col_basis, col_major>, float, float, float, vector<float, dynamic<>>>));
INST("qbuild_ip_d", 6000, (qbuild<quaternion<double, fixed<>, imaginary_first, positive_cross>, double, double, double, vector<double, fixed<3>>>));
INST("qextract_in_f", 8000, (qextract<quaternion<float, fixed<>, imaginary_first, negative_cross>, float, float, float, vector<float, dynamic<>>>));
INST("qextract_rn_d", 8000, (qextract<quaternion<double, fixed<>, real_first, negative_cross>, double, double, double, vector<double, fixed<3>>>));
