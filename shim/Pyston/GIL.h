#pragma once
#include <Python.h>
namespace Pyston {
struct GILLocker {
  GILLocker() : m_state(PyGILState_Ensure()) { ++count(); } ~GILLocker() { PyGILState_Release(m_state); }
  GILLocker(const GILLocker&) = delete;
  static unsigned& count() { static unsigned c = 0; return c; }
  static unsigned getLockCount() { return count(); }
private:
  PyGILState_STATE m_state;
};
}
