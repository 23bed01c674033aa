#pragma once
#include <sstream>
#include <string>
#include <vector>
#include <boost/lexical_cast.hpp>
#include <boost/tokenizer.hpp>
#include <boost/algorithm/string.hpp>
#include "ElementsKernel/Exception.h"
namespace Euclid {
template <typename T> std::vector<T> stringToVector(std::string str, const std::string& delim = ",") {
  str = boost::trim_copy(str);
  std::vector<T> r;
  boost::char_separator<char> sep(delim.c_str());
  boost::tokenizer<boost::char_separator<char>> tok(str, sep);
  for (auto& s : tok) r.push_back(boost::lexical_cast<T>(boost::trim_copy(s)));
  return r;
}
inline bool startsWith(const std::string& s, const std::string& t) { return s.substr(0, t.size()) == t; }
}
