#pragma once
#include <boost/filesystem.hpp>
#include <cstdlib>
#include <string>
namespace Elements {
using Path = boost::filesystem::path;
static const std::string DEFAULT_TMP_MOTIF{"%%%%-%%%%-%%%%-%%%%"};
static const std::string DEFAULT_TMP_KEEP_VAR{"KEEPTEMPDIR"};
class TempPath {
public:
  explicit TempPath(const std::string& motif = DEFAULT_TMP_MOTIF, const std::string& = DEFAULT_TMP_KEEP_VAR)
    : m_path(boost::filesystem::temp_directory_path() / boost::filesystem::unique_path(motif)) {}
  virtual ~TempPath() { boost::system::error_code ec; boost::filesystem::remove_all(m_path, ec); }
  Path path() const { return m_path; }
  std::string motif() const { return ""; }
private: Path m_path;
};
class TempDir : public TempPath { public: explicit TempDir(const std::string& m = DEFAULT_TMP_MOTIF, const std::string& k = "") : TempPath(m, k) { boost::filesystem::create_directory(path()); } };
class TempFile : public TempPath { public: explicit TempFile(const std::string& m = DEFAULT_TMP_MOTIF, const std::string& k = "") : TempPath(m, k) { FILE* f = fopen(path().c_str(), "w"); if (f) fclose(f); } };
class TempEnv { public: std::string operator[](const std::string&) { return ""; } };
}
