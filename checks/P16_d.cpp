// P16: Euler angles.  Generated by tools/gen_P16.py
#include "boxes.h"
#include "P16_common.h"

INST("build_fixed4x4_rbrm_dddd", 4000, (build<matrix<double, fixed<4, 4>, row_basis, row_major>, double, double, double, vector<double, dynamic<>>>));
INST("extract_dynamic_rbrm_ffdf", 8000, (extract<matrix<float, dynamic<>, row_basis, row_major>, float, double, float, vector<float, dynamic<>>>));
INST("deriv_fixed3x3_rbcm_ffff", 4000, (deriv<matrix<float, fixed<3, 3>, row_basis, col_major>, float, float, float, vector<float, external<3>>>));
INST("build_dynamic_rbcm_fddf", 4000, (build<matrix<float, dynamic<>, row_basis, col_major>, double, double, float, vector<float, dynamic<>>>));
INST("extract_external3x3_rbcm_dddd", 8000, (extract<matrix<double, external<3, 3>, row_basis, col_major>, double, double, double, vector<double, dynamic<>>>));
INST("deriv_fixed3x4_cbrm_dddf", 4000, (deriv<matrix<double, fixed<3, 4>, col_basis, row_major>, double, double, float, vector<double, external<3>>>));
INST("build_external3x3_cbrm_dddd", 4000, (build<matrix<double, external<3, 3>, col_basis, row_major>, double, double, double, vector<double, dynamic<>>>));
INST("extract_fixed4x4_cbcm_dddd", 8000, (extract<matrix<double, fixed<4, 4>, col_basis, col_major>, double, double, double, vector<double, dynamic<>>>));
INST("deriv_external_cbcm_ddfd", 4000, (deriv<matrix<double, external<>, col_basis, col_major>, double, float, double, vector<double, external<3>>>));
INST("qextract_ip_f", 8000, (qextract<quaternion<float, fixed<>, imaginary_first, positive_cross>, float, float, float, vector<float, dynamic<>>>));
INST("qextract_rp_d", 8000, (qextract<quaternion<double, fixed<>, real_first, positive_cross>, double, double, double, vector<double, fixed<3>>>));
INST("qbuild_rn_mixed", 4000, (qbuild<quaternion<double, fixed<>, real_first, negative_cross>, double, float, double, vector<float, dynamic<>>>));
