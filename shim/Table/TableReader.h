#pragma once
#include <fstream>
#include "Table/Row.h"
namespace Euclid { namespace Table {
class TableReader { public: virtual ~TableReader() = default; virtual Table read(long rows = -1) = 0; };
} }
