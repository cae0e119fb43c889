// P16: Euler angles.  Generated by tools/gen_P16.py
#include "boxes.h"
#include "P16_common.h"

INST("extract_fixed3x3_rbrm_fddd", 8000, (extract<matrix<float, fixed<3, 3>, row_basis, row_major>, double, double, double, vector<float, fixed<3>>>));
INST("deriv_dynamic_rbrm_ffdf", 4000, (deriv<matrix<float, dynamic<>, row_basis, row_major>, float, double, float, vector<float, external<>>>));
INST("build_fixed3x3_rbcm_ffff", 4000, (build<matrix<float, fixed<3, 3>, row_basis, col_major>, float, float, float, vector<float, external<3>>>));
INST("extract_fixed4x3_rbcm_dfdf", 8000, (extract<matrix<double, fixed<4, 3>, row_basis, col_major>, float, double, float, vector<double, fixed<3>>>));
INST("deriv_external3x3_rbcm_dddd", 4000, (deriv<matrix<double, external<3, 3>, row_basis, col_major>, double, double, double, vector<double, external<>>>));
INST("build_fixed3x4_cbrm_dddf", 4000, (build<matrix<double, fixed<3, 4>, col_basis, row_major>, double, double, float, vector<double, external<3>>>));
INST("extract_external_cbrm_dfff", 8000, (extract<matrix<double, external<>, col_basis, row_major>, float, float, float, vector<double, fixed<3>>>));
INST("deriv_fixed4x4_cbcm_dddd", 4000, (deriv<matrix<double, fixed<4, 4>, col_basis, col_major>, double, double, double, vector<double, external<>>>));
INST("build_external_cbcm_ddfd", 4000, (build<matrix<double, external<>, col_basis, col_major>, double, float, double, vector<double, external<3>>>));
INST("qbuild_ip_f", 6000, (qbuild<quaternion<float, fixed<>, imaginary_first, positive_cross>, float, float, float, vector<float, dynamic<>>>));
INST("qbuild_rp_d", 6000, (qbuild<quaternion<double, fixed<>, real_first, positive_cross>, double, double, double, vector<double, fixed<3>>>));
INST("qextract_rn_f", 8000, (qextract<quaternion<float, fixed<>, real_first, negative_cross>, float, float, float, vector<float, dynamic<>>>));
