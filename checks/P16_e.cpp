// P16: Euler angles.  Generated by tools/gen_P16.py
#include "boxes.h"
#include "P16_common.h"

INST("deriv_fixed4x4_rbrm_dddd", 4000, (deriv<matrix<double, fixed<4, 4>, row_basis, row_major>, double, double, double, vector<double, dynamic<>>>));
INST("build_external_rbrm_dddf", 4000, (build<matrix<double, external<>, row_basis, row_major>, double, double, float, vector<double, fixed<3>>>));
INST("extract_fixed3x3_rbcm_ffff", 8000, (extract<matrix<float, fixed<3, 3>, row_basis, col_major>, float, float, float, vector<float, fixed<3>>>));
INST("deriv_dynamic_rbcm_fddf", 4000, (deriv<matrix<float, dynamic<>, row_basis, col_major>, double, double, float, vector<float, dynamic<>>>));
INST("build_fixed3x3_cbrm_fdfd", 4000, (build<matrix<float, fixed<3, 3>, col_basis, row_major>, double, float, double, vector<float, fixed<3>>>));
INST("extract_fixed3x4_cbrm_dddf", 8000, (extract<matrix<double, fixed<3, 4>, col_basis, row_major>, double, double, float, vector<double, fixed<3>>>));
INST("deriv_external3x3_cbrm_dddd", 4000, (deriv<matrix<double, external<3, 3>, col_basis, row_major>, double, double, double, vector<double, dynamic<>>>));
INST("build_fixed3x4_cbcm_dddd", 4000, (build<matrix<double, fixed<3, 4>, col_basis, col_major>, double, double, double, vector<double, fixed<3>>>));
INST("extract_external_cbcm_ddfd", 8000, (extract<matrix<double, external<>, col_basis, col_major>, double, float, double, vector<double, fixed<3>>>));
INST("qbuild_ip_mixed", 4000, (qbuild<quaternion<double, fixed<>, imaginary_first, positive_cross>, double, float, double, vector<float, dynamic<>>>));
INST("qbuild_rp_f", 6000, (qbuild<quaternion<float, fixed<>, real_first, positive_cross>, float, float, float, vector<float, dynamic<>>>));
