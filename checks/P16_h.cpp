// P16: Euler angles.  Generated by tools/gen_P16.py
#include "boxes.h"
#include "P16_common.h"

INST("deriv_fixed4x3_rbrm_ddfd", 4000, (deriv<matrix<double, fixed<4, 3>, row_basis, row_major>, double, float, double, vector<double, external<3>>>));
INST("build_external3x3_rbrm_dddd", 4000, (build<matrix<double, external<3, 3>, row_basis, row_major>, double, double, double, vector<double, dynamic<>>>));
INST("extract_fixed4x4_rbcm_dddd", 8000, (extract<matrix<double, fixed<4, 4>, row_basis, col_major>, double, double, double, vector<double, dynamic<>>>));
INST("deriv_external_rbcm_dddd", 4000, (deriv<matrix<double, external<>, row_basis, col_major>, double, double, double, vector<double, external<3>>>));
INST("build_fixed4x4_cbrm_dddd", 4000, (build<matrix<double, fixed<4, 4>, col_basis, row_major>, double, double, double, vector<double, dynamic<>>>));
INST("extract_dynamic_cbrm_fddd", 8000, (extract<matrix<float, dynamic<>, col_basis, row_major>, double, double, double, vector<float, dynamic<>>>));
INST("deriv_fixed3x3_cbcm_ffdf", 4000, (deriv<matrix<float, fixed<3, 3>, col_basis, col_major>, float, double, float, vector<float, external<3>>>));
INST("build_dynamic_cbcm_ffff", 4000, (build<matrix<float, dynamic<>, col_basis, col_major>, float, float, float, vector<float, dynamic<>>>));
INST("extract_external3x3_cbcm_dddd", 8000, (extract<matrix<double, external<3, 3>, col_basis, col_major>, double, double, double, vector<double, dynamic<>>>));
INST("qbuild_in_f", 6000, (qbuild<quaternion<float, fixed<>, imaginary_first, negative_cross>, float, float, float, vector<float, external<>>>));
INST("qbuild_rn_d", 6000, (qbuild<quaternion<double, fixed<>, real_first, negative_cross>, double, double, double, vector<double, external<3>>>));
