// P04: external windows.
#include "boxes.h"
#include "P04_common.h"

INST("vector_external2_double", 8000, (vec_windows<vector<double, external<2>>>));
INST("vector_external3_double", 8000, (vec_windows<vector<double, external<3>>>));
INST("vector_external4_double", 8000, (vec_windows<vector<double, external<4>>>));
INST("vector_external7_double", 8000, (vec_windows<vector<double, external<7>>>));
INST("vector_externaln_double", 16000, (vec_windows<vector<double, external<>>>));
INST("vector_cexternal1_double", 5000, (const_windows<vector<const double, external<1>>>));
INST("vector_cexternal3_double", 5000, (const_windows<vector<const double, external<3>>>));
INST("vector_cexternal4_double", 5000, (const_windows<vector<const double, external<4>>>));
INST("vector_cexternaln_double", 5000, (const_windows<vector<const double, external<>>>));
INST("vector_external2_float", 8000, (vec_windows<vector<float, external<2>>>));
INST("vector_external3_float", 8000, (vec_windows<vector<float, external<3>>>));
INST("vector_external4_float", 8000, (vec_windows<vector<float, external<4>>>));
INST("vector_external7_float", 8000, (vec_windows<vector<float, external<7>>>));
INST("vector_externaln_float", 16000, (vec_windows<vector<float, external<>>>));
INST("vector_cexternal1_float", 5000, (const_windows<vector<const float, external<1>>>));
INST("vector_cexternal3_float", 5000, (const_windows<vector<const float, external<3>>>));
INST("vector_cexternal4_float", 5000, (const_windows<vector<const float, external<4>>>));
INST("vector_cexternaln_float", 5000, (const_windows<vector<const float, external<>>>));
INST("vector_external2_int", 8000, (vec_windows<vector<int, external<2>>>));
INST("vector_external3_int", 8000, (vec_windows<vector<int, external<3>>>));
INST("vector_external4_int", 8000, (vec_windows<vector<int, external<4>>>));
INST("vector_external7_int", 8000, (vec_windows<vector<int, external<7>>>));
INST("vector_externaln_int", 16000, (vec_windows<vector<int, external<>>>));
INST("vector_cexternal1_int", 5000, (const_windows<vector<const int, external<1>>>));
INST("vector_cexternal3_int", 5000, (const_windows<vector<const int, external<3>>>));
INST("vector_cexternal4_int", 5000, (const_windows<vector<const int, external<4>>>));
INST("vector_cexternaln_int", 5000, (const_windows<vector<const int, external<>>>));
