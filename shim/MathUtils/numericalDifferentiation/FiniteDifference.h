#pragma once
#include "MathUtils/interpolation/interpolation.h"
namespace Euclid { namespace MathUtils {
inline double derivative(const Function& f, double x) { double h = 1e-6 * std::max(1., std::abs(x)); return (f(x + h) - f(x - h)) / (2 * h); }
} }
