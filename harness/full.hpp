#pragma once
// the whole library, compiled against the stand-ins in /verif/shim
#include "std.hpp"
#include "range/v3/view/drop_exactly.hpp"
#include "resonanceReconstruction.hpp"
