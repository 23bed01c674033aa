// Stand-in for Pyston's exceptions
#pragma once
#include <ElementsKernel/Exception.h>
namespace log4cpp { struct Priority { enum { FATAL, ERROR = 300, WARN = 400, INFO = 600, DEBUG = 700 }; }; }
namespace Pyston {
class Exception : public Elements::Exception {
public:
  using Elements::Exception::Exception;
  template <typename L> const Exception& log(int, L&) const { return *this; }
};
}
