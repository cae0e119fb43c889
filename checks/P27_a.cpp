// P27: failed allocations and allocators.  Generated by tools/gen_P27.py
#include "boxes.h"
#include "P27_common.h"

INST("vec_T0T0_double_rr", 4000, (faults<VW<double, T0, T0, row_basis, row_major>>));
INST("vec_StdT0_int_cr", 4000, (faults<VW<int, Std, T0, col_basis, row_major>>));
INST("vec_StdStd_double_rc", 4000, (faults<VW<double, Std, Std, row_basis, col_major>>));

void* operator new(size_t n) { return take(n, 99, NEW, NEW.armed); }
void* operator new[](size_t n) { return take(n, 99, NEW, NEW.armed); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p, 99, NEW, 0, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p, 99, NEW, 0, false); }
void operator delete(void* p) noexcept { give(p, 99, NEW, 0, false); }
void operator delete[](void* p) noexcept { give(p, 99, NEW, 0, false); }
void operator delete(void* p, size_t) noexcept { give(p, 99, NEW, 0, false); }
void operator delete[](void* p, size_t) noexcept { give(p, 99, NEW, 0, false); }
