#include "c04_ops.hpp"
namespace aad {
    void Part1() { AddRows(List_<BSub, UExp, UErfc, SubC, PowC>()); }
} // namespace aad
