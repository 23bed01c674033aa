// Stand-in for the types Pyston's expressions see
#pragma once
#include <boost/any.hpp>
#include <map>
#include <string>
namespace Pyston {
struct Attribute { double number = 0; bool truth = false, is_bool = false; Attribute(double d) : number(d) {} Attribute(bool b) : truth(b), is_bool(true) {} };
class AttributeSet : public std::map<std::string, Attribute> { public: virtual ~AttributeSet() = default; };
using Context = std::map<std::string, boost::any>;
}
