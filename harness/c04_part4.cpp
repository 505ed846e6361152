#include "c04_ops.hpp"
namespace aad {
    void Part4() { AddRows(List_<BPow, UAbs, CAdd, CDiv, MaxC>()); }
} // namespace aad
