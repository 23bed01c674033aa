#pragma once
#include <boost/filesystem.hpp>
namespace Elements { inline boost::filesystem::path getAuxiliaryPath(const boost::filesystem::path& p, bool = true) { return p; } }
