// Minimal stand-in for Elements' Exception (same observable interface), so that the parts of the code
// that need Elements can be compiled and exercised here.
#pragma once
#include <exception>
#include <sstream>
#include <string>
namespace Elements {
enum class ExitCode : int { OK = 0, NOT_OK = 1, USAGE = 64, DATAERR = 65, NOINPUT = 66, SOFTWARE = 70, CONFIG = 78 };
using ExitCodeType = int;
class Exception : public std::exception {
public:
  Exception() = default;
  explicit Exception(const std::string& m, ExitCode e = ExitCode::NOT_OK) : m_error_msg(m), m_exit_code(e) {}
  explicit Exception(const char* m, ExitCode e = ExitCode::NOT_OK) : m_error_msg(m), m_exit_code(e) {}
  explicit Exception(std::string&& m, ExitCode e = ExitCode::NOT_OK) : m_error_msg(std::move(m)), m_exit_code(e) {}
  Exception(const Exception&) = default;
  Exception& operator=(const Exception&) = default;
  ~Exception() noexcept override = default;
  const char* what() const noexcept override { return m_error_msg.c_str(); }
  ExitCode exitCode() const noexcept { return m_exit_code; }
  void appendMessage(const std::string& m) { m_error_msg += m; }
protected:
  std::string m_error_msg;
  ExitCode m_exit_code = ExitCode::NOT_OK;
};
// operator<< keeps the dynamic type of the left operand, as in Elements
template <typename Ex, typename T, typename = typename std::enable_if<std::is_base_of<Exception, typename std::remove_reference<Ex>::type>::value>::type>
Ex&& operator<<(Ex&& ex, const T& v) {
  std::ostringstream s; s << v; ex.appendMessage(s.str()); return std::forward<Ex>(ex);
}
}
using Elements::ExitCodeType;
