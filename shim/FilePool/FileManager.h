#pragma once
#include <boost/filesystem.hpp>
#include <map>
#include <memory>
#include <mutex>
#include <typeinfo>
#include "AlexandriaKernel/memory_tools.h"
namespace Euclid { namespace FilePool {
template <typename TFD> struct TypedFileAccessor { std::shared_ptr<void> keep; std::unique_lock<std::recursive_mutex> lock; TFD& m_fd; };
class FileHandler {
public:
  enum Mode { kRead = 1, kTryRead = 1, kWrite = 2, kTry = 4 };
  explicit FileHandler(const boost::filesystem::path& p) : m_path(p) {}
  template <typename TFD> std::unique_ptr<TypedFileAccessor<TFD>> getAccessor(Mode m = kRead) {
    std::unique_lock<std::recursive_mutex> l(m_mutex);
    bool w = m & kWrite;
    if (!m_fd || (w && !m_write)) { m_fd.reset(); m_fd = std::make_shared<TFD>(m_path, w); m_write = w; }
    else if (!w && m_write) { m_fd.reset(); m_fd = std::make_shared<TFD>(m_path, false); m_write = false; }
    return std::unique_ptr<TypedFileAccessor<TFD>>(new TypedFileAccessor<TFD>{m_fd, std::move(l), *static_cast<TFD*>(m_fd.get())});
  }
  bool isReadOnly() const { return !m_write; }
  void close() { std::lock_guard<std::recursive_mutex> l(m_mutex); m_fd.reset(); m_write = false; }
private:
  boost::filesystem::path m_path; std::recursive_mutex m_mutex; std::shared_ptr<void> m_fd; bool m_write = false;
};
class FileManager : public std::enable_shared_from_this<FileManager> {
public:
  static std::shared_ptr<FileManager> getDefault() { static auto m = std::make_shared<FileManager>(); return m; }
  std::shared_ptr<FileHandler> getFileHandler(const boost::filesystem::path& p) {
    std::lock_guard<std::mutex> l(m_mutex); auto& w = m_map[boost::filesystem::weakly_canonical(p).native()];
    auto h = w.lock(); if (!h) { h = std::make_shared<FileHandler>(p); w = h; } return h;
  }
private: std::mutex m_mutex; std::map<std::string, std::weak_ptr<FileHandler>> m_map;
};
using FileAccessor = FileHandler;
} }
