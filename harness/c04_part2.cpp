#include "c04_ops.hpp"
namespace aad {
    void Part2() { AddRows(List_<BMul, ULog, UNeg, CMul, Pow2>()); }
} // namespace aad
