#pragma once
#include <boost/lexical_cast.hpp>
#include "Table/Row.h"
namespace Euclid { namespace Table {
template <typename To> class CastVisitor : public boost::static_visitor<To> { public:
  template <typename F> typename std::enable_if<std::is_arithmetic<F>::value, To>::type operator()(const F& f) const { return conv(f, std::is_arithmetic<To>()); }
  To operator()(const std::string& s) const { return boost::lexical_cast<To>(s); }
  template <typename F> typename std::enable_if<!std::is_arithmetic<F>::value, To>::type operator()(const F&) const { throw Elements::Exception("CastVisitor cannot convert"); }
private: template <typename F> static To conv(const F& f, std::true_type) { return static_cast<To>(f); } template <typename F> static To conv(const F& f, std::false_type) { return boost::lexical_cast<To>(f); } };
} }
