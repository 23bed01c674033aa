// Stand-in for Alexandria's ThreadPool: FIFO queue, `block` waits for queue and workers and (by default) rethrows
// the first exception; a task that throws stops the pool. Threads stay alive until the destructor.
#pragma once
#include <atomic>
#include <condition_variable>
#include <map>
#include <set>
#include "AlexandriaKernel/memory_tools.h"
#include <deque>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace Euclid {
class ThreadPool {
public:
  using Task = std::function<void(void)>;
  explicit ThreadPool(unsigned int n = std::thread::hardware_concurrency(), unsigned int = 50) : m_alive(n), m_n(n) {
    for (unsigned i = 0; i < n; ++i) m_threads.emplace_back([this] { loop(); });
  }
  virtual ~ThreadPool() {
    if (m_n) { std::unique_lock<std::mutex> l(m_mutex); m_idle.wait(l, [&] { return m_exc || (m_queue.empty() && m_running == 0); }); }
    { std::lock_guard<std::mutex> l(m_mutex); m_stop = true; m_queue.clear(); }
    m_cond.notify_all();
    for (auto& t : m_threads) t.join();
  }
  void submit(Task t) {
    if (m_n == 0) { t(); return; }
    { std::lock_guard<std::mutex> l(m_mutex); if (m_exc) return; m_queue.push_back(std::move(t)); }
    m_cond.notify_one();
  }
  void block(bool throw_on_exception = true) {
    { std::unique_lock<std::mutex> l(m_mutex); m_idle.wait(l, [&] { return m_exc || (m_queue.empty() && m_running == 0); }); }
    checkForException(throw_on_exception);
  }
  bool checkForException(bool rethrow = false) {
    std::lock_guard<std::mutex> l(m_mutex);
    if (m_exc && rethrow) std::rethrow_exception(m_exc);
    return bool(m_exc);
  }
  size_t queued() const { std::lock_guard<std::mutex> l(m_mutex); return m_queue.size(); }
  size_t running() const { std::lock_guard<std::mutex> l(m_mutex); return m_running; }
  size_t activeThreads() const { std::lock_guard<std::mutex> l(m_mutex); return m_alive; }
private:
  void loop() {
    std::unique_lock<std::mutex> l(m_mutex);
    while (true) {
      m_cond.wait(l, [&] { return m_stop || m_exc || !m_queue.empty(); });
      if (m_stop || m_exc) break;
      Task t = std::move(m_queue.front()); m_queue.pop_front(); ++m_running;
      l.unlock();
      std::exception_ptr e;
      try { t(); } catch (...) { e = std::current_exception(); }
      t = nullptr;
      l.lock();
      --m_running;
      if (e && !m_exc) m_exc = e;
      if (m_exc) m_cond.notify_all();
      m_idle.notify_all();
    }
    --m_alive; m_idle.notify_all();
  }
  mutable std::mutex m_mutex; std::condition_variable m_cond, m_idle;
  std::deque<Task> m_queue; size_t m_running = 0, m_alive; unsigned m_n; bool m_stop = false; std::exception_ptr m_exc;
  std::vector<std::thread> m_threads;
};
}
