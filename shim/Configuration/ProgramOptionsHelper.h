#pragma once
#include <map>
#include <string>
#include <vector>
#include <regex>
#include <set>
#include <boost/filesystem.hpp>
#include "Configuration/Configuration.h"
namespace Euclid { namespace Configuration {
class ProgramOptionsHelper {
public:
  static std::string wildcard(const std::string& name) { return name + "-*"; }
  static std::string wildcard(const std::string& name, const std::string& instance) { return name + "-" + instance; }
  static std::set<std::string> findWildcardNames(const std::vector<std::string>& parts, const Configuration::UserValues& args) {
    std::set<std::string> r; for (auto& a : args) for (auto& p : parts) if (a.first.compare(0, p.size() + 1, p + "-") == 0) r.insert(a.first.substr(p.size() + 1)); return r; }
  static std::pair<std::string, std::string> wildcardParts(const std::string& n) { return {n, ""}; }
};
} }
