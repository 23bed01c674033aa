// A small property-based testing engine.
//
// Every generated input is a function of a sequence of bounded integer choices.  The choices are recorded in shared
// memory while they are drawn, so that a case that crashes or hangs the process can be replayed and shrunk exactly
// like one that fails an assertion; the shrunk sequence is the replay file.  Workers are forked: a crash, a sanitizer
// report or a hang of the code under test is a failure of the case, not of the harness.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

// A folder of this process alone, which check.py removes at the end
inline std::string scratchDir() {
  const char* root = getenv("PBT_SCRATCH");
  std::string d = std::string(root ? root : "/tmp") + "/pbt" + std::to_string(getpid());
  mkdir(d.c_str(), 0700);
  return d;
}

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

constexpr size_t MAX_CHOICES = 1u << 17;

struct Shared {
  std::atomic<uint64_t> progress;   // bumped for every case
  std::atomic<uint32_t> sub;        // the sub-property being run
  std::atomic<uint32_t> n;          // number of choices drawn so far
  std::atomic<uint64_t> index;      // which case of the sub-property it is
  std::atomic<uint32_t> state;      // 0 running, 1 done, 2 failed with message
  char message[4096];
  uint64_t choices[MAX_CHOICES];
};

class Src {
public:
  Src(Shared* sh, uint64_t seed) : m_sh(sh), m_replay(nullptr), m_s{seed * 0x9E3779B97F4A7C15ull + 1, seed ^ 0xD1B54A32D192ED03ull} { for (int i = 0; i < 8; ++i) next(); m_sh->n = 0; }
  Src(Shared* sh, const std::vector<uint64_t>* replay) : m_sh(sh), m_replay(replay), m_s{0, 0} { m_sh->n = 0; }

  // uniform in [0, max]
  uint64_t draw(uint64_t max) {
    uint32_t i = m_sh->n;
    if (i >= MAX_CHOICES) throw Discard();
    uint64_t v;
    if (m_replay) { v = i < m_replay->size() ? (*m_replay)[i] : 0; if (v > max) v = max == UINT64_MAX ? v : v % (max + 1); }
    else { v = next(); if (max != UINT64_MAX) v %= (max + 1); }
    m_sh->choices[i] = v;
    m_sh->n = i + 1;
    return v;
  }
  // uniform integer in [a, b]; shrinks towards a, or towards 0 if that lies inside
  int64_t range(int64_t a, int64_t b) {
    if (a >= b) return a;
    uint64_t v = draw(uint64_t(b - a));
    if (a < 0 && b > 0) { // zigzag order so that small choices mean small magnitudes
      int64_t lim = std::min(-a, b);
      if (v <= uint64_t(2 * lim)) return (v & 1) ? -int64_t((v + 1) / 2) : int64_t(v / 2);
      int64_t r = int64_t(v) - 2 * lim;
      return b > -a ? lim + r : -lim - r;
    }
    if (a < 0 && b <= 0) return b - int64_t(v);
    return a + int64_t(v);
  }
  // integer in [a, b], small values more likely
  int64_t skewed(int64_t a, int64_t b) {
    if (a >= b) return a;
    uint64_t k = draw(3); uint64_t w = uint64_t(b - a);
    if (k == 0) w = std::min<uint64_t>(w, 3); else if (k == 1) w = std::min<uint64_t>(w, std::max<uint64_t>(w / 6, 4));
    return a + int64_t(draw(w));
  }
  bool coin(int percent = 50) { return draw(99) >= uint64_t(100 - percent); } // shrinks towards false
  double unit() { return double(draw((1ull << 32) - 1)) / 4294967296.0; }
  // real in [a, b]: mixes end points, integers, quarters and arbitrary values
  double real(double a, double b) {
    switch (draw(5)) {
    case 0: { double lo = std::ceil(a), hi = std::floor(b); if (lo <= hi && hi - lo < 1e15) return double(range(int64_t(lo), int64_t(hi))); return a; }
    case 1: { double lo = std::ceil(a * 4), hi = std::floor(b * 4); if (lo <= hi && hi - lo < 1e15) return double(range(int64_t(lo), int64_t(hi))) / 4; return a; }
    case 2: { uint64_t k = draw(9); if (k == 0) return a; if (k == 1) return b; return a + (b - a) * unit(); }
    default: return a + (b - a) * unit();
    }
  }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
  // magnitude spread over decades
  double logreal(double a, double b) { return std::exp(std::log(a) + (std::log(b) - std::log(a)) * unit()); }
  double normal() { double s = 0; for (int i = 0; i < 6; ++i) s += unit(); return (s - 3.0) * std::sqrt(2.0); }
  template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
  template <typename T> const T& pick(const std::vector<T>& l) { return l.at(draw(l.size() - 1)); }
  template <typename T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[draw(i - 1)]); }

private:
  uint64_t next() { uint64_t s1 = m_s[0]; const uint64_t s0 = m_s[1]; m_s[0] = s0; s1 ^= s1 << 23; m_s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return m_s[1] + s0; }
  Shared* m_sh; const std::vector<uint64_t>* m_replay; uint64_t m_s[2];
};

class Case {
public:
  Case(Src& s, std::map<std::string, uint64_t>& c, bool verbose) : s(s), m_counts(c), m_verbose(verbose) {}
  Src& s;
  // A label of the class this case belongs to; the distribution goes into the evidence
  void label(const std::string& l) { ++m_counts[l]; }
  void label(const std::string& l, bool cond) { if (cond) ++m_counts[l]; }
  // The stated non-triviality rule of the sub-property held for this case
  void nontrivial(bool cond = true) { m_nontrivial = cond; }
  bool isNontrivial() const { return m_nontrivial; }
  std::ostringstream& note() { return m_note; }
  std::string notes() const { return m_note.str(); }
  [[noreturn]] void fail(const std::string& m) { throw Failure(m); }
  void check(bool c, const std::string& m) { if (!c) throw Failure(m); }
  template <typename A, typename B> void eq(const A& a, const B& b, const std::string& m) {
    if (!(a == b)) { std::ostringstream o; o << std::setprecision(17) << m << ": got " << a << ", expected " << b; throw Failure(o.str()); } }
  // |a - b| <= atol + rtol * |b|; equal infinities and two NaN count as close
  void close(double a, double b, double rtol, double atol, const std::string& m) {
    if (a == b || (std::isnan(a) && std::isnan(b))) return;
    if (!(std::fabs(a - b) <= atol + rtol * std::fabs(b))) { std::ostringstream o; o << std::setprecision(17) << m << ": got " << a << ", expected " << b << " (tolerance " << (atol + rtol * std::fabs(b)) << ")"; throw Failure(o.str()); } }
  void discard() { throw Discard(); }
  bool verbose() const { return m_verbose; }
private:
  std::map<std::string, uint64_t>& m_counts; bool m_nontrivial = false, m_verbose; std::ostringstream m_note;
};

struct Sub {
  const char* name;
  const char* rule;         // what makes a case non-trivial
  void (*fn)(Case&);
  uint64_t quick, thorough; // number of cases, over all workers
  double hang_s = 60;       // longest a single case may take
  bool threaded = false;    // failures may need a schedule to repeat
};

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}

struct Outcome { int kind = 0; std::string message; }; // 0 ok, 1 failure, 2 crash/hang, 3 discard

inline std::function<void()>& perProcessInit() { static std::function<void()> f; return f; }

inline uint64_t caseSeed(uint64_t seed, uint64_t k, uint64_t w, uint64_t i) {
  uint64_t h = seed; for (uint64_t x : {k, w, i}) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; } return h; }

inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// Runs one case in this process
inline Outcome runHere(const Sub& sub, Src& src, std::map<std::string, uint64_t>& counts, bool verbose, bool* nontrivial = nullptr, std::string* notes = nullptr) {
  Case c(src, counts, verbose);
  Outcome o;
  try { sub.fn(c); }
  catch (const Failure& f) { o.kind = 1; o.message = f.what(); }
  catch (const Discard&) { o.kind = 3; }
  catch (const std::exception& e) { o.kind = 1; o.message = std::string("unexpected exception: ") + e.what(); }
  catch (...) { o.kind = 1; o.message = "unexpected exception of unknown type"; }
  if (nontrivial) *nontrivial = c.isNontrivial();
  if (notes) *notes = c.notes();
  return o;
}

inline Outcome waitChild(pid_t pid, Shared* sh, double hang) {
  Outcome o; int st; double t0 = now();
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > hang) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.kind = 2; o.message = "no result after " + std::to_string(int(hang)) + " s (hang)"; return o; }
    usleep(now() - t0 < 0.05 ? 300 : 3000);
  }
  if (WIFEXITED(st) && sh->state == 1) return o;
  if (WIFEXITED(st) && sh->state == 2) { o.kind = 1; o.message = sh->message; return o; }
  if (WIFEXITED(st) && sh->state == 3) { o.kind = 3; return o; }
  o.kind = 2;
  if (WIFSIGNALED(st)) o.message = std::string("crashed: signal ") + strsignal(WTERMSIG(st));
  else o.message = "crashed: the process ended with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or exit)";
  return o;
}

// Runs one case from recorded choices in a child process
inline Outcome runForked(const Sub& sub, const std::vector<uint64_t>& choices, Shared* sh, bool quiet = true, bool verbose = false, std::string errfile = "") {
  sh->state = 0; sh->n = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    if (quiet) { int fd = open(errfile.empty() ? "/dev/null" : errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); } }
    if (perProcessInit()) perProcessInit()();
    std::map<std::string, uint64_t> c; Src s(sh, &choices); std::string notes;
    Outcome o = runHere(sub, s, c, verbose, nullptr, &notes);
    if (verbose) std::cout << "case: " << notes << "\n" << (o.kind == 1 ? "FAILED: " + o.message : o.kind == 3 ? std::string("discarded") : std::string("ok")) << std::endl;
    strncpy(sh->message, o.message.c_str(), sizeof(sh->message) - 1);
    sh->state = o.kind == 1 ? 2 : o.kind == 3 ? 3 : 1;
    fflush(nullptr);
    _exit(0);
  }
  return waitChild(pid, sh, sub.hang_s);
}

// Runs the cases first..last of a worker one after another in one child process: for failures that need the history
inline Outcome runHistory(const Sub& sub, uint32_t k, uint64_t seed, uint32_t w, uint64_t first, uint64_t last, Shared* sh, bool quiet = true) {
  sh->state = 0; sh->n = 0; fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    if (quiet) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); } }
    if (perProcessInit()) perProcessInit()();
    std::map<std::string, uint64_t> c; Outcome o;
    for (uint64_t i = first; i <= last; ++i) { Src s(sh, caseSeed(seed, k, w, i)); o = runHere(sub, s, c, false); if (o.kind == 1) break; }
    strncpy(sh->message, o.message.c_str(), sizeof(sh->message) - 1);
    sh->state = o.kind == 1 ? 2 : 1; fflush(nullptr); _exit(0);
  }
  return waitChild(pid, sh, 120 + sub.hang_s);
}

inline bool fails(const Sub& sub, const std::vector<uint64_t>& c, Shared* sh, int tries, Outcome* out) {
  for (int i = 0; i < tries; ++i) { Outcome o = runForked(sub, c, sh); if (o.kind == 1 || o.kind == 2) { *out = o; return true; } }
  return false;
}

inline std::vector<uint64_t> shrink(const Sub& sub, std::vector<uint64_t> best, Shared* sh, Outcome* out, double budget) {
  double t0 = now(); int tries = sub.threaded ? 8 : 1;
  auto attempt = [&](const std::vector<uint64_t>& c) {
    if (now() - t0 > budget) return false;
    Outcome o; if (!fails(sub, c, sh, tries, &o)) return false;
    uint32_t n = sh->n; std::vector<uint64_t> used(sh->choices, sh->choices + std::min<size_t>(n, MAX_CHOICES));
    best = used.size() <= c.size() ? used : c; *out = o; return true; };
  bool changed = true;
  while (changed && now() - t0 < budget) {
    changed = false;
    for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.size() && now() - t0 < budget;) {
        std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) changed = true; else i += k;
      }
      if (k == 1) break;
    }
    for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.size() && now() - t0 < budget; i += k) {
        bool any = false; for (size_t j = i; j < i + k; ++j) any |= best[j] != 0;
        if (!any) continue;
        std::vector<uint64_t> c(best); std::fill(c.begin() + i, c.begin() + i + k, 0);
        if (attempt(c)) changed = true;
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < best.size() && now() - t0 < budget; ++i) {
      for (int step = 0; step < 40 && i < best.size() && best[i] > 0; ++step) {
        std::vector<uint64_t> c(best); c[i] /= 2;
        if (attempt(c)) { changed = true; continue; }
        if (i >= best.size() || best[i] == 0) break;
        c = best; c[i] -= 1;
        if (attempt(c)) { changed = true; continue; }
        break;
      }
    }
  }
  return best;
}

inline int runReplay(const std::vector<Sub>& subs, const std::string& prop, const std::string& file, Shared* sh) {
  std::ifstream f(file); std::string line, name; std::vector<uint64_t> c; uint64_t hist[4] = {0, 0, 0, 0}; bool history = false;
  while (std::getline(f, line)) {
    if (line.rfind("sub: ", 0) == 0) name = line.substr(5);
    if (line.rfind("history: ", 0) == 0) { std::istringstream i(line.substr(9)); history = bool(i >> hist[0] >> hist[1] >> hist[2] >> hist[3]); }
    if (line.rfind("choices:", 0) == 0) { std::istringstream i(line.substr(8)); uint64_t v; while (i >> v) c.push_back(v); }
  }
  for (auto& s : subs) if (name == s.name) {
    if (history) {
      Outcome o = runHistory(s, uint32_t(&s - subs.data()), hist[0], uint32_t(hist[1]), hist[2], hist[3], sh, false);
      if (o.kind == 1 || o.kind == 2) { std::cout << name << ": " << o.message << "\nVIOLATION property=" << prop << " replay=" << file << std::endl; return 1; }
      std::cout << name << ": holds on this history" << std::endl; return 0;
    }
    int n = s.threaded ? 300 : 3, bad = 0; Outcome last;
    for (int i = 0; i < n; ++i) { Outcome o = runForked(s, c, sh, i > 0, i == 0); if (o.kind == 1 || o.kind == 2) { ++bad; last = o; if (s.threaded) break; } }
    if (bad) { std::cout << name << ": " << last.message << "\nVIOLATION property=" << prop << " replay=" << file << std::endl; return 1; }
    std::cout << name << ": holds on this input" << std::endl; return 0;
  }
  std::cerr << "no sub-property " << name << std::endl; return 2;
}

inline int main_(int argc, char** argv, const std::vector<Sub>& subs) {
  std::string prop = "?", tier = "quick", outdir = ".", replay, only, probe; uint64_t seed = 1; int workers = 8; double scale = 1, cap = 600; std::vector<std::string> explain;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--prop") prop = v; else if (a == "--tier") tier = v; else if (a == "--out") outdir = v; else if (a == "--replay") replay = v;
    else if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10); else if (a == "--workers") workers = atoi(v.c_str());
    else if (a == "--scale") scale = atof(v.c_str()); else if (a == "--only") only = v; else if (a == "--probe") probe = v; else if (a == "--cap") cap = atof(v.c_str());
  }
  size_t bytes = sizeof(Shared);
  auto newShared = [&] { void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return static_cast<Shared*>(p); };
  if (!replay.empty()) return runReplay(subs, prop, replay, newShared());
  if (!probe.empty()) { // a recorded known finding: a sub-property with a fixed input, named known_*
    for (auto& s : subs) if (probe == s.name) { Outcome o = runForked(s, {}, newShared()); std::cout << (o.kind == 1 || o.kind == 2 ? "PROBE-FAILS " + o.message : std::string("PROBE-HOLDS")) << std::endl; }
    return 0;
  }

  struct Worker { pid_t pid; Shared* sh; uint64_t last = 0; double last_t; bool alive = true; Outcome bad; uint32_t bad_sub = 0; std::vector<uint64_t> bad_choices; };
  std::vector<Worker> ws(workers);
  double t0 = now();
  for (int w = 0; w < workers; ++w) {
    ws[w].sh = newShared(); ws[w].last_t = now();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      Shared* sh = ws[w].sh;
      std::string err = outdir + "/worker" + std::to_string(w) + ".log";
      int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
      if (perProcessInit()) perProcessInit()();
      std::ofstream out(outdir + "/worker" + std::to_string(w) + ".json");
      std::ofstream hs(outdir + "/worker" + std::to_string(w) + ".hashes", std::ios::binary);
      std::unordered_set<uint64_t> distinct;
      out << "[";
      bool first = true;
      for (uint32_t k = 0; k < subs.size(); ++k) {
        auto& sub = subs[k];
        if (!only.empty() ? only != sub.name : strncmp(sub.name, "known_", 6) == 0) continue;
        uint64_t total = uint64_t((tier == "thorough" ? sub.thorough : sub.quick) * scale); if (total < uint64_t(workers)) total = workers;
        uint64_t n = total / workers + (uint64_t(w) < total % workers ? 1 : 0), done = 0, nontriv = 0, disc = 0;
        std::map<std::string, uint64_t> counts; std::vector<std::string> samples;
        double sub_t0 = now(); bool capped = false;
        for (uint64_t i = 0; i < n; ++i) {
          if (now() - t0 > cap) { capped = true; break; }
          sh->sub = k; ++sh->progress;
          sh->index = i;
          Src src(sh, caseSeed(seed, k, w, i)); bool nt = false; std::string notes;
          Outcome o = runHere(sub, src, counts, false, &nt, &notes);
          if (o.kind == 3) { ++disc; continue; }
          ++done; if (nt) { ++nontriv; uint64_t d = k + 1; for (uint32_t j = 0; j < sh->n; ++j) { d = (d ^ sh->choices[j]) * 0x9E3779B97F4A7C15ull; d ^= d >> 29; } if (distinct.size() < 500000 && distinct.insert(d).second) hs.write(reinterpret_cast<const char*>(&d), 8); if (samples.size() < 3 && !notes.empty()) samples.push_back(notes.substr(0, 400)); }
          if (o.kind == 1) { strncpy(sh->message, o.message.c_str(), sizeof(sh->message) - 1); sh->state = 2; fflush(nullptr); _exit(0); }
        }
        out << (first ? "" : ",\n") << "{\"sub\":" << jstr(sub.name) << ",\"rule\":" << jstr(sub.rule) << ",\"evaluations\":" << done << ",\"nontrivial\":" << nontriv << ",\"discarded\":" << disc
            << ",\"capped\":" << (capped ? "true" : "false") << ",\"seconds\":" << (now() - sub_t0) << ",\"labels\":{";
        bool f2 = true; for (auto& p : counts) { out << (f2 ? "" : ",") << jstr(p.first) << ":" << p.second; f2 = false; }
        out << "},\"samples\":["; for (size_t i = 0; i < samples.size(); ++i) out << (i ? "," : "") << jstr(samples[i]);
        out << "]}"; first = false; out.flush();
      }
      out << "]\n"; out.close();
      sh->state = 1; fflush(nullptr); _exit(0);
    }
    ws[w].pid = pid;
  }
  bool any_bad = false; int alive = workers;
  while (alive > 0) {
    usleep(20000);
    for (auto& w : ws) {
      if (!w.alive) continue;
      int st; pid_t r = waitpid(w.pid, &st, WNOHANG);
      bool hang = false;
      if (r == 0) {
        uint64_t p = w.sh->progress; if (p != w.last) { w.last = p; w.last_t = now(); continue; }
        else if (p > 0 && now() - w.last_t > subs[w.sh->sub].hang_s) { hang = true; kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); }
        else continue;
      }
      w.alive = false; --alive;
      if (!hang && WIFEXITED(st) && w.sh->state == 1) continue;
      any_bad = true; w.bad_sub = w.sh->sub;
      w.bad_choices.assign(w.sh->choices, w.sh->choices + std::min<size_t>(w.sh->n, MAX_CHOICES));
      if (hang) { w.bad.kind = 2; w.bad.message = "no result (hang)"; }
      else if (WIFEXITED(st) && w.sh->state == 2) { w.bad.kind = 1; w.bad.message = w.sh->message; }
      else { w.bad.kind = 2; w.bad.message = "crashed"; }
    }
    if (any_bad) { // no point in going on: end the others
      usleep(200000);
      for (auto& w : ws) if (w.alive) { int st; if (waitpid(w.pid, &st, WNOHANG) == 0) { kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); } w.alive = false; --alive; }
    }
  }
  if (!any_bad) return 0;
  // Confirm, shrink and report every distinct failing sub-property
  std::set<uint32_t> seen; Shared* sh = newShared(); bool reported = false, unconfirmed = false;
  for (auto& w : ws) {
    if (w.bad.kind == 0 || seen.count(w.bad_sub)) continue;
    const Sub& sub = subs[w.bad_sub]; Outcome o = w.bad;
    bool repro = sub.threaded ? fails(sub, w.bad_choices, sh, 300, &o) : true;
    if (!sub.threaded) for (int i = 0; i < 3 && repro; ++i) repro = fails(sub, w.bad_choices, sh, 1, &o);
    if (!repro && !(sub.threaded && w.bad.kind == 1)) {
      // perhaps it needs the state that earlier cases of the same process left behind
      uint32_t wi = uint32_t(&w - ws.data()); uint64_t last = w.sh->index, first = 0; bool hrep = true;
      for (int i = 0; i < 3 && hrep; ++i) { Outcome h = runHistory(sub, w.bad_sub, seed, wi, 0, last, sh); hrep = h.kind == 1 || h.kind == 2; if (hrep) o = h; }
      if (hrep) {
        for (uint64_t span = 1; span < last; span *= 4) { Outcome h = runHistory(sub, w.bad_sub, seed, wi, last - span, last, sh); if (h.kind == 1 || h.kind == 2) { first = last - span; break; } }
        seen.insert(w.bad_sub);
        std::string file = outdir + "/" + prop + "-" + sub.name + ".replay";
        std::ofstream f(file);
        f << "property: " << prop << "\nsub: " << sub.name << "\nmessage: " << o.message << "\nneeds the cases of one process in this order: seed, worker, first, last\nhistory: " << seed << " " << wi << " " << first << " " << last << "\n";
        f.close();
        std::cout << sub.name << ": " << o.message << " (after a history of cases)\nVIOLATION property=" << prop << " replay=" << file << std::endl;
        reported = true; continue;
      }
      std::cerr << "unconfirmed failure of " << sub.name << " (does not repeat on replay): " << w.bad.message << std::endl; unconfirmed = true; continue; }
    seen.insert(w.bad_sub);
    std::vector<uint64_t> c = repro ? shrink(sub, w.bad_choices, sh, &o, 25) : w.bad_choices;
    std::string file = outdir + "/" + prop + "-" + sub.name + ".replay", err = outdir + "/" + prop + "-" + sub.name + ".stderr";
    runForked(sub, c, sh, true, true, err);
    std::ofstream f(file);
    f << "property: " << prop << "\nsub: " << sub.name << "\nseed: " << seed << "\nmessage: " << o.message << "\nreproduced: " << (repro ? "yes" : "not within 300 runs (schedule dependent)") << "\nchoices:";
    for (auto v : c) f << " " << v;
    f << "\n--- output of the replay ---\n"; { std::ifstream e(err); std::string l; int nl = 0; while (std::getline(e, l) && nl++ < 60) f << l << "\n"; }
    f.close(); unlink(err.c_str());
    std::cout << sub.name << ": " << o.message << "\nVIOLATION property=" << prop << " replay=" << file << std::endl;
    reported = true;
  }
  return reported ? 1 : (unconfirmed ? 3 : 0);
}
}  // namespace pbt

#define PBT_MAIN(...) int main(int argc, char** argv) { return pbt::main_(argc, argv, std::vector<pbt::Sub>{__VA_ARGS__}); }
