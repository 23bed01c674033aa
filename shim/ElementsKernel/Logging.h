#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
namespace Elements {
class Logging {
  std::string m_name;
  // Lines go nowhere, unless a harness wants them
  struct Sink {
    std::unique_ptr<std::ostringstream> o; std::string name;
    explicit Sink(const std::string& n) { if (hook()) { o.reset(new std::ostringstream); name = n; } }
    Sink(Sink&&) = default;
    ~Sink() { if (o && hook()) hook()(name, o->str()); }
    template <typename T> Sink& operator<<(const T& t) { if (o) *o << t; return *this; }
    Sink& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } };
public:
  using Hook = std::function<void(const std::string&, const std::string&)>;
  static Hook& hook() { static Hook h; return h; }
  static Logging getLogger(const std::string& n = "") { Logging l; l.m_name = n; return l; }
  static void setLevel(const std::string&) {}
  static void setLogFile(const std::string&) {}
  Sink debug() { return Sink(m_name); } Sink info() { return Sink(m_name); } Sink warn() { return Sink(m_name); } Sink error() { return Sink(m_name); } Sink fatal() { return Sink(m_name); } Sink log(int) { return Sink(m_name); }
  void debug(const std::string& s) { debug() << s; } void info(const std::string& s) { info() << s; } void warn(const std::string& s) { warn() << s; } void error(const std::string& s) { error() << s; } void fatal(const std::string& s) { fatal() << s; }
};
}
