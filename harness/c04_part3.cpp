#include "c04_ops.hpp"
namespace aad {
    void Part3() { AddRows(List_<BDiv, USqrt, UPlus, MulC, CMax>()); }
} // namespace aad
