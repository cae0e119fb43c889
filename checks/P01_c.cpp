// P01: construction / assignment across storages and element types.
#include "boxes.h"
#include "P01_common.h"

#define CROSS(A, B) static fw::Reg FW_CAT(rc_, __COUNTER__)("cross_" + vname<A>() + "_from_" + vname<B>(), &cross<A, B>, 6000);
using F3d = vector<double, fixed<3>>; using F3f = vector<float, fixed<3>>; using F3i = vector<int, fixed<3>>;
using Dd = vector<double, dynamic<>>; using Df = vector<float, dynamic<>>; using Di = vector<int, dynamic<>>;
using X3d = vector<double, external<3>>; using X3f = vector<float, external<3>>; using X3i = vector<int, external<3>>;
using Yd = vector<double, external<>>; using Yf = vector<float, external<>>; using Yi = vector<int, external<>>;
using C3d = vector<const double, external<3>>; using C3i = vector<const int, external<3>>;
using Kd = vector<const double, external<>>; using Kf = vector<const float, external<>>;
#define ALLSRC(A) CROSS(A, F3d) CROSS(A, F3f) CROSS(A, F3i) CROSS(A, Dd) CROSS(A, Di) CROSS(A, X3d) CROSS(A, X3f) CROSS(A, Yd) CROSS(A, Yi) CROSS(A, C3d) CROSS(A, C3i) CROSS(A, Kd) CROSS(A, Kf)
ALLSRC(F3d) ALLSRC(F3i) ALLSRC(Df) ALLSRC(Dd) ALLSRC(X3d) ALLSRC(X3i) ALLSRC(Yd) ALLSRC(Yf)

static fw::Reg rcb1("combine_fixed3d_from_fixed2d", &combine<vector<double, fixed<3>>, vector<double, fixed<2>>, 1>, 10000);
static fw::Reg rcb2("combine_fixed4f_from_fixed3d", &combine<vector<float, fixed<4>>, vector<double, fixed<3>>, 1>, 10000);
static fw::Reg rcb3("combine_fixed4d_from_fixed2f", &combine<vector<double, fixed<4>>, vector<float, fixed<2>>, 2>, 10000);
static fw::Reg rcb4("combine_fixed4i_from_ext2d", &combine<vector<int, fixed<4>>, vector<double, external<2>>, 2>, 10000);
static fw::Reg rcb5("combine_dynd_from_fixed3d", &combine<vector<double, dynamic<>>, vector<double, fixed<3>>, 2>, 10000);
static fw::Reg rcb6("combine_dynf_from_dynd", &combine<vector<float, dynamic<>>, vector<double, dynamic<>>, 1>, 10000);
static fw::Reg rcb7("combine_dynd_from_extn", &combine<vector<double, dynamic<>>, vector<int, external<>>, 3>, 10000);
static fw::Reg rcb8("combine_fixed4d_from_dynd", &combine<vector<double, fixed<4>>, vector<double, dynamic<>>, 1>, 10000);
