#pragma once
#include <condition_variable>
#include <mutex>
namespace Euclid {
class Semaphore {
public:
  explicit Semaphore(int i = 0) : m_count(i) {}
  void release(int i = 1) { std::lock_guard<std::mutex> l(m_mutex); m_count += i; m_cond.notify_all(); }
  void acquire(int i = 1) { std::unique_lock<std::mutex> l(m_mutex); m_cond.wait(l, [&] { return m_count >= i; }); m_count -= i; }
  bool try_acquire(int i = 1) { std::unique_lock<std::mutex> l(m_mutex); if (m_count < i) return false; m_count -= i; return true; }
private:
  std::mutex m_mutex; std::condition_variable m_cond; int m_count;
};
}
