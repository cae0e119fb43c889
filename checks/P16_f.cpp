// P16: Euler angles.  Generated by tools/gen_P16.py
#include "boxes.h"
#include "P16_common.h"

INST("extract_fixed4x4_rbrm_dddd", 8000, (extract<matrix<double, fixed<4, 4>, row_basis, row_major>, double, double, double, vector<double, dynamic<>>>));
INST("deriv_external_rbrm_dddf", 4000, (deriv<matrix<double, external<>, row_basis, row_major>, double, double, float, vector<double, fixed<3>>>));
INST("build_fixed4x4_rbcm_dddd", 4000, (build<matrix<double, fixed<4, 4>, row_basis, col_major>, double, double, double, vector<double, external<>>>));
INST("extract_dynamic_rbcm_fddf", 8000, (extract<matrix<float, dynamic<>, row_basis, col_major>, double, double, float, vector<float, dynamic<>>>));
INST("deriv_fixed3x3_cbrm_fdfd", 4000, (deriv<matrix<float, fixed<3, 3>, col_basis, row_major>, double, float, double, vector<float, fixed<3>>>));
INST("build_dynamic_cbrm_fddd", 4000, (build<matrix<float, dynamic<>, col_basis, row_major>, double, double, double, vector<float, external<>>>));
INST("extract_external3x3_cbrm_dddd", 8000, (extract<matrix<double, external<3, 3>, col_basis, row_major>, double, double, double, vector<double, dynamic<>>>));
INST("deriv_fixed3x4_cbcm_dddd", 4000, (deriv<matrix<double, fixed<3, 4>, col_basis, col_major>, double, double, double, vector<double, fixed<3>>>));
INST("build_external3x3_cbcm_dddd", 4000, (build<matrix<double, external<3, 3>, col_basis, col_major>, double, double, double, vector<double, external<>>>));
INST("qbuild_in_d", 6000, (qbuild<quaternion<double, fixed<>, imaginary_first, negative_cross>, double, double, double, vector<double, external<3>>>));
INST("qextract_rp_f", 8000, (qextract<quaternion<float, fixed<>, real_first, positive_cross>, float, float, float, vector<float, dynamic<>>>));
