// Schedule perturbation: from a random stream per thread, jitter() yields or sleeps now and then. Polling intervals given
// in milliseconds are a thousand times shorter. Put before everything with -include.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <mutex>
#include <thread>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
namespace jit {
inline std::atomic<uint64_t>& base() { static std::atomic<uint64_t> s{0}; return s; }
inline std::atomic<int>& level() { static std::atomic<int> l{0}; return l; }
inline void jitter(int weight = 1) {
  int l = level().load(std::memory_order_relaxed); if (!l) return;
  static thread_local uint64_t r = 0; static thread_local uint64_t epoch = 0; uint64_t b = base().load(std::memory_order_relaxed);
  if (epoch != b) { static std::atomic<uint64_t> serial{0}; epoch = b; r = b * 0x9E3779B97F4A7C15ull + (++serial) * 0xD6E8FEB86659FD93ull; }
  r ^= r << 13; r ^= r >> 7; r ^= r << 17; unsigned k = unsigned(r >> 33) % 256;
  if (k < unsigned(4 * l * weight)) usleep(useconds_t(1 + (r >> 8) % 120)); else if (k < unsigned(24 * l * weight)) sched_yield();
}
inline void begin(uint64_t seed, int l) { base() = seed | 1; level() = l; }
inline void end() { level() = 0; }
}
#define milliseconds microseconds
