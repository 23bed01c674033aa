#pragma once
#include <memory>
namespace Euclid { using std::make_unique; }
