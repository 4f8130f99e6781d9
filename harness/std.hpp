#pragma once
// the project's headers rely on their includer for these
#include <iostream>
#include <cstdlib>
#include <cmath>
#include <complex>
#include <vector>
#include <string>
#include <array>
#include <tuple>
#include <map>
#include <optional>
#include <variant>
#include <algorithm>
#include <numeric>
#include <limits>
#include <memory>
#include <functional>
#include <stdexcept>
