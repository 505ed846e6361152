#include "c04_ops.hpp"
namespace aad {
    void Part5() { AddRows(List_<BMax, UPdf, AddC, DivC, CMin>()); }
} // namespace aad
