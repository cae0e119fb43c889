// P16: Euler angles.  Generated by tools/gen_P16.py
#include "boxes.h"
#include "P16_common.h"

INST("deriv_fixed3x3_rbrm_fddd", 4000, (deriv<matrix<float, fixed<3, 3>, row_basis, row_major>, double, double, double, vector<float, fixed<3>>>));
INST("build_dynamic_rbrm_ffdf", 4000, (build<matrix<float, dynamic<>, row_basis, row_major>, float, double, float, vector<float, external<>>>));
INST("extract_external3x3_rbrm_dddd", 8000, (extract<matrix<double, external<3, 3>, row_basis, row_major>, double, double, double, vector<double, dynamic<>>>));
INST("deriv_fixed4x3_rbcm_dfdf", 4000, (deriv<matrix<double, fixed<4, 3>, row_basis, col_major>, float, double, float, vector<double, fixed<3>>>));
INST("build_external3x3_rbcm_dddd", 4000, (build<matrix<double, external<3, 3>, row_basis, col_major>, double, double, double, vector<double, external<>>>));
INST("extract_fixed4x4_cbrm_dddd", 8000, (extract<matrix<double, fixed<4, 4>, col_basis, row_major>, double, double, double, vector<double, dynamic<>>>));
INST("deriv_external_cbrm_dfff", 4000, (deriv<matrix<double, external<>, col_basis, row_major>, float, float, float, vector<double, fixed<3>>>));
INST("build_fixed4x4_cbcm_dddd", 4000, (build<matrix<double, fixed<4, 4>, col_basis, col_major>, double, double, double, vector<double, external<>>>));
INST("extract_dynamic_cbcm_ffff", 8000, (extract<matrix<float, dynamic<>, col_basis, col_major>, float, float, float, vector<float, dynamic<>>>));
INST("qextract_ip_d", 8000, (qextract<quaternion<double, fixed<>, imaginary_first, positive_cross>, double, double, double, vector<double, fixed<3>>>));
INST("qbuild_in_mixed", 4000, (qbuild<quaternion<double, fixed<>, imaginary_first, negative_cross>, double, float, double, vector<float, dynamic<>>>));
INST("qbuild_rn_f", 6000, (qbuild<quaternion<float, fixed<>, real_first, negative_cross>, float, float, float, vector<float, external<>>>));
