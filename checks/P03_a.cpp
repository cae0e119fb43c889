// P03: histories of dynamic vectors.
#include "boxes.h"
#include "P03_common.h"
INST("vector_double_tracked", 30000, (vec_history<double, Track<void*>>));
INST("vector_float_tracked", 20000, (vec_history<float, Track<void*>>));
INST("vector_int_std", 30000, (vec_history<int, std::allocator<void*>>));
INST("vector_double_std", 20000, (vec_history<double, std::allocator<void*>>));
