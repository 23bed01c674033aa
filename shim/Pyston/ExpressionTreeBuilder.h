// Stand-in for Pyston's compiler of Python functions: nothing is compiled, every evaluation calls Python.
#pragma once
#include <Python.h>
#include <boost/mpl/vector.hpp>
#include <boost/python.hpp>
#include <functional>
#include <memory>
#include <vector>
#include "Pyston/Exceptions.h"
#include "Pyston/GIL.h"
#include "Pyston/Graph/Node.h"
namespace Pyston {
namespace shim {
inline const Context*& current() { static thread_local const Context* c = nullptr; return c; }
inline boost::python::object convert(double d) { return boost::python::object(d); }
inline boost::python::object convert(const AttributeSet& a) {
  boost::python::object o = boost::python::import("types").attr("SimpleNamespace")();
  for (auto& p : a) o.attr(p.first.c_str()) = p.second.is_bool ? boost::python::object(p.second.truth) : boost::python::object(p.second.number);
  return o; }
inline boost::python::list args(const std::vector<double>& v) { boost::python::list l; for (double d : v) l.append(d); return l; }
template <typename... A> boost::python::list args(const A&... a) { boost::python::list l; int dummy[] = {0, (l.append(convert(a)), 0)...}; (void)dummy; return l; }
struct Tree { template <typename V> void visit(V&) const {} };
}
template <typename Sig> class ExpressionTree;
template <typename R, typename... A> class ExpressionTree<R(A...)> {
public:
  explicit ExpressionTree(boost::python::object f) : m_f(new boost::python::object(f), [](boost::python::object* p) { GILLocker l; delete p; }) {}
  bool isCompiled() const { return false; }
  std::shared_ptr<Exception> reason() const { return std::make_shared<Exception>("not compiled"); }
  std::shared_ptr<shim::Tree> getTree() const { return std::make_shared<shim::Tree>(); }
  R operator()(A... a) const { Context none; return (*this)(none, a...); }
  R operator()(const Context& c, A... a) const {
    GILLocker lock; auto* old = shim::current(); shim::current() = &c;
    try { boost::python::tuple t(shim::args(a...)); boost::python::object r{boost::python::handle<>(PyObject_CallObject(m_f->ptr(), t.ptr()))}; shim::current() = old; return boost::python::extract<R>(r)(); }
    catch (const boost::python::error_already_set&) { shim::current() = old; PyErr_Print(); throw Exception("the Python function failed"); } }
private:
  std::shared_ptr<boost::python::object> m_f;
};
class ExpressionTreeBuilder {
public:
  template <typename Sig, typename F> void registerFunction(const std::string& name, F f) {
    std::function<double(double, double)> w = [f](double x, double y) { if (!shim::current()) throw Exception("no context"); return f(*shim::current(), x, y); };
    boost::python::import("pyston").attr(name.c_str()) = boost::python::make_function(w, boost::python::default_call_policies(), boost::mpl::vector<double, double, double>()); }
  template <typename Sig, typename... X> ExpressionTree<Sig> build(boost::python::object f, X&&...) const { return ExpressionTree<Sig>(f); }
};
}
