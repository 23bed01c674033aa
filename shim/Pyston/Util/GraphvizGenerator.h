#pragma once
#include <string>
namespace Pyston { struct GraphvizGenerator { explicit GraphvizGenerator(const std::string&) {} std::string str() const { return ""; } }; }
