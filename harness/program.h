// The whole program, linked into the harness: every run is a forked child with options, images and a Python script of its own.
#pragma once
#include <boost/python.hpp>
#include "pbt.h"
#include <cmath>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#define main sx_main
#include "SEMain/src/program/SourceXtractor.cpp"
#undef main
extern "C" PyObject* PyInit__SourceXtractorPy();
#define PROGRAM_STR2(x) #x
#define PROGRAM_STR(x) PROGRAM_STR2(x)
namespace program {
using pbt::Case;
// --- FITS images, written without the code under test
struct Img { int w = 0, h = 0; std::vector<double> d; Img() {} Img(int w_, int h_, double v = 0) : w(w_), h(h_), d(size_t(w_) * h_, v) {} double& at(int x, int y) { return d[size_t(y) * w + x]; } double at(int x, int y) const { return d[size_t(y) * w + x]; }
  // what a file of 32-bit floats holds
  void round32() { for (auto& v : d) v = double(float(v)); } };
using Cards = std::vector<std::string>;
inline std::string card(const std::string& k, const std::string& v) { char b[96]; std::snprintf(b, sizeof b, "%-8s= %20s", k.c_str(), v.c_str()); return b; }
inline std::string card(const std::string& k, double v) { char b[40]; std::snprintf(b, sizeof b, "%.14G", v); if (!std::strpbrk(b, ".EN")) std::strcat(b, ".0"); return card(k, std::string(b)); }
inline std::string card(const std::string& k, int v) { return card(k, std::to_string(v)); }
inline std::string cardS(const std::string& k, const std::string& v) { char b[96]; std::snprintf(b, sizeof b, "%-8s= '%-8s'", k.c_str(), v.c_str()); return b; }
template <typename T> void big(std::string& o, T v) { char b[sizeof(T)]; std::memcpy(b, &v, sizeof(T)); for (size_t i = 0; i < sizeof(T); ++i) o += b[sizeof(T) - 1 - i]; }
inline void appendHdu(std::string& out, const Img* im, const Cards& extra, int bitpix, bool primary) {
  Cards c{primary ? card("SIMPLE", "T") : cardS("XTENSION", "IMAGE"), card("BITPIX", bitpix)}; if (im) { c.push_back(card("NAXIS", 2)); c.push_back(card("NAXIS1", im->w)); c.push_back(card("NAXIS2", im->h)); } else c.push_back(card("NAXIS", 0));
  if (primary) c.push_back(card("EXTEND", "T")); else { c.push_back(card("PCOUNT", 0)); c.push_back(card("GCOUNT", 1)); } for (auto& e : extra) c.push_back(e); c.push_back("END");
  for (auto& l : c) { std::string s = l; s.resize(80, ' '); out += s; } while (out.size() % 2880) out += ' ';
  if (im) { for (double v : im->d) switch (bitpix) { case -64: big(out, v); break; case -32: big(out, float(v)); break; case 16: big(out, int16_t(v)); break; case 32: big(out, int32_t(v)); break; default: big(out, int64_t(v)); } while (out.size() % 2880) out += '\0'; } }
inline void writeFits(const std::string& path, const Img& im, const Cards& extra = {}, int bitpix = -32) { std::string o; appendHdu(o, &im, extra, bitpix, true); std::ofstream f(path, std::ios::binary); f << o; }
inline void writeMulti(const std::string& path, const std::vector<Img>& ims, const std::vector<Cards>& extra = {}, int bitpix = -32, bool emptyPrimary = true) { std::string o; if (emptyPrimary) appendHdu(o, nullptr, {}, 8, true); for (size_t i = 0; i < ims.size(); ++i) appendHdu(o, &ims[i], i < extra.size() ? extra[i] : Cards{}, bitpix, !emptyPrimary && i == 0); std::ofstream f(path, std::ios::binary); f << o; }
inline void writeText(const std::string& path, const std::string& t) { std::ofstream f(path); f << t; }
inline Img readFits(const std::string& path, int hdu = 0) { // first image found at or after the HDU
  Img r; std::ifstream f(path, std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), {}); size_t p = 0; for (int k = 0; p + 2880 <= s.size(); ++k) { std::map<std::string, double> v; bool end = false; size_t q = p; while (!end && q + 80 <= s.size()) { std::string l = s.substr(q, 80); q += 80; if (l.compare(0, 8, "END     ") == 0) end = true; else if (l.size() > 10 && l[8] == '=') { std::string key = l.substr(0, 8); key.erase(key.find_last_not_of(' ') + 1); v[key] = std::atof(l.c_str() + 10); } } if (!end) break; p += (q - p + 2879) / 2880 * 2880;
    int b = int(v["BITPIX"]), n = int(v["NAXIS"]); size_t e = n ? 1 : 0; for (int i = 1; i <= n; ++i) e *= size_t(v["NAXIS" + std::to_string(i)]); size_t bytes = e * size_t(std::abs(b)) / 8; if (p + bytes > s.size()) break;
    if (n >= 2 && k >= hdu) { r = Img(int(v["NAXIS1"]), int(v["NAXIS2"])); for (size_t i = 0; i < r.d.size(); ++i) { char t[8]; size_t z = size_t(std::abs(b)) / 8; for (size_t j = 0; j < z; ++j) t[j] = s[p + i * z + z - 1 - j]; auto get = [&](auto w) { std::memcpy(&w, t, sizeof w); return double(w); }; r.d[i] = b == -32 ? get(float()) : b == -64 ? get(double()) : b == 16 ? get(int16_t()) : b == 32 ? get(int32_t()) : b == 64 ? get(int64_t()) : get(uint8_t()); } return r; }
    p += (bytes + 2879) / 2880 * 2880; }
  return r; }
// --- the catalogue
struct Table { std::vector<std::string> names; std::vector<std::vector<std::string>> rows; bool present = false;
  int col(const std::string& n) const { for (size_t i = 0; i < names.size(); ++i) if (names[i] == n) return int(i); return -1; }
  const std::string& text(size_t r, const std::string& n) const { int c = col(n); if (c < 0 || size_t(c) >= rows.at(r).size()) throw std::runtime_error("no column " + n); return rows[r][size_t(c)]; }
  double get(size_t r, const std::string& n) const { return std::strtod(text(r, n).c_str(), nullptr); }
  std::vector<double> vec(size_t r, const std::string& n) const { std::vector<double> v; std::string x = text(r, n); if (!x.empty() && x[0] == '<') x = x.substr(x.find('>') + 1); std::stringstream s(x); std::string t; while (std::getline(s, t, ',')) v.push_back(std::strtod(t.c_str(), nullptr)); return v; } };
inline Table readTable(const std::string& path) { Table t; std::ifstream f(path); t.present = bool(f); std::string l; while (std::getline(f, l)) { if (l.compare(0, 10, "# Column: ") == 0) t.names.push_back(l.substr(10)); else if (!l.empty() && l[0] != '#') { std::stringstream s(l); std::vector<std::string> r; std::string w; while (s >> w) r.push_back(w); if (!r.empty() && (l[0] != '[' || r.size() == t.names.size())) t.rows.push_back(r); } } return t; }
// --- one run
struct Ran { int status = -1; bool ended = false; std::string log; }; // ended: by itself, not by a signal
using Args = std::vector<std::string>;
inline Ran run(const std::string& dir, const Args& args) {
  std::string log = dir + "/log"; fflush(nullptr); pid_t p = fork(); if (p < 0) throw std::runtime_error("harness: fork");
  if (p == 0) {
    int fd = open(log.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2); alarm(200); setpgid(0, 0); if (chdir(dir.c_str())) _exit(90); const char* r = getenv("REPO_DIR"); signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL);
    setenv("PYTHONPATH", (std::string(r ? r : "/repo") + "/SEImplementation/python:" PROGRAM_STR(VDIR) "/shim/python").c_str(), 1); setenv("PYTHONHASHSEED", "0", 1); setenv("PYTHONNOUSERSITE", "1", 1); unsetenv("PYTHONDONTWRITEBYTECODE"); setenv("PYTHONPYCACHEPREFIX", (pbt::scratchDir() + "/pyc").c_str(), 1);
    PyImport_AppendInittab("_SourceXtractorPy", PyInit__SourceXtractorPy);
    Elements::Logging::hook() = [](const std::string& n, const std::string& t) { if (n == "TileManager" || n == "Progress" || n == "BackgroundModel") return; std::string l = "[" + n + "] " + t + "\n"; if (write(2, l.data(), l.size())) {} };
    std::vector<std::string> a{"sourcextractor++"}; a.insert(a.end(), args.begin(), args.end()); std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr);
    int rc = 91; try { rc = sx_main(int(a.size()), v.data()); } catch (...) { } fflush(nullptr); _exit(rc);
  }
  Ran o; int st = 0; waitpid(p, &st, 0); o.ended = WIFEXITED(st); o.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  std::ifstream f(log); o.log.assign((std::istreambuf_iterator<char>(f)), {}); return o; }
struct Dir { std::string path; Dir() { static int n = 0; path = pbt::scratchDir() + "/run" + std::to_string(getpid()) + "_" + std::to_string(n++); mkdir(path.c_str(), 0755); } ~Dir() { boost::system::error_code ec; boost::filesystem::remove_all(path, ec); } std::string operator/(const std::string& f) const { return path + "/" + f; } };
inline std::string tail(const std::string& log) { return log.size() > 600 ? "..." + log.substr(log.size() - 600) : log; }
inline std::string num(double v) { char b[40]; std::snprintf(b, sizeof b, "%.10g", v); return b; }
}
namespace program {
// --- pseudo-random pixels: a long stream made from one drawn number
struct Noise { uint64_t s; explicit Noise(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 1) {} uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } double uni() { return double(next() >> 11) / 9007199254740992.0; } double gauss() { double t = 0; for (int i = 0; i < 4; ++i) t += uni(); return (t - 2) * 1.7320508075688772; } };
struct Blob { double x, y, a, b, th, f; double at(double px, double py) const { double dx = px - x, dy = py - y, u = dx * std::cos(th) + dy * std::sin(th), v = -dx * std::sin(th) + dy * std::cos(th); return f * std::exp(-0.5 * (u * u / (a * a) + v * v / (b * b))); } };
inline void addBlob(Img& im, const Blob& b) { double r = 6 * std::max(b.a, b.b) + 2; for (int y = std::max(0, int(b.y - r)); y < std::min<double>(im.h, b.y + r); ++y) for (int x = std::max(0, int(b.x - r)); x < std::min<double>(im.w, b.x + r); ++x) im.at(x, y) += b.at(x, y); }
// --- options: names and values, spread over the command line and a configuration file
struct Options { std::vector<std::pair<std::string, std::string>> v;
  void set(const std::string& k, const std::string& x) { for (auto& p : v) if (p.first == k) { p.second = x; return; } v.push_back({k, x}); }
  template <typename T, typename = std::enable_if_t<std::is_arithmetic<T>::value>> void set(const std::string& k, T x) { set(k, std::is_integral<T>::value ? std::to_string((long long)x) : num(double(x))); } void set(const std::string& k, const char* x) { set(k, std::string(x)); }
  void erase(const std::string& k) { for (size_t i = 0; i < v.size(); ++i) if (v[i].first == k) { v.erase(v.begin() + long(i)); return; } }
  bool has(const std::string& k) const { for (auto& p : v) if (p.first == k) return true; return false; }
  std::string get(const std::string& k) const { for (auto& p : v) if (p.first == k) return p.second; return ""; }
  Args line() const { Args a; for (auto& p : v) { a.push_back("--" + p.first); a.push_back(p.second); } return a; } };
}
