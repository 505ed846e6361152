#include "c04_ops.hpp"
namespace aad {
    void Part0() { AddRows(List_<BAdd, BMin, UCdf, CSub, CPow, MinC>()); }
} // namespace aad
