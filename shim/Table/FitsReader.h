#pragma once
#include "Table/TableReader.h"
namespace Euclid { namespace Table {
class FitsReader : public TableReader { public: explicit FitsReader(const std::string& f, int = 1) { throw Elements::Exception() << "not a FITS table: " << f; } Table read(long = -1) override { throw Elements::Exception("unsupported"); } };
} }
