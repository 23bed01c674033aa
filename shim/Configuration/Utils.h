#pragma once
#include <atomic>
namespace Euclid { namespace Configuration { inline long getUniqueManagerId() { static std::atomic<long> n{0}; return ++n; } } }
