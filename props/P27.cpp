// Coordinates of FITS headers: projections equal their definition, invert, survive being written, copied and shared by threads.
// SRCS: SEFramework/src/lib/CoordinateSystem/WCS.cpp SEFramework/src/lib/FITS/FitsFile.cpp SEFramework/src/lib/FITS/FitsImageSource.cpp SEFramework/src/lib/Image/BufferedImage.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/TileManager.cpp
// SAN: address thread
// LIBS: -Wl,--wrap=wcsp2s -Wl,--wrap=wcss2p -lcfitsio -lwcs -lboost_regex -lboost_filesystem -lboost_system -lpthread
#include "pbt.h"
#include <fitsio.h>
#include <wcslib/wcs.h>
#include <thread>
#include "SEFramework/CoordinateSystem/WCS.h"
#include "SEFramework/FITS/FitsImageSource.h"
using namespace pbt;
using namespace SourceXtractor;
// The library reads and writes as many numbers as the coordinates have axes, at addresses that have to be valid
#if defined(__SANITIZE_ADDRESS__)
extern "C" void* __asan_region_is_poisoned(void* beg, size_t size);
static void addressable(const struct wcsprm* w, int n, const void* p, const void* q, const void* r) { for (const void* a : {p, q, r}) if (__asan_region_is_poisoned(const_cast<void*>(a), sizeof(double) * size_t(w->naxis) * size_t(n))) throw std::runtime_error("the arrays given to wcslib are shorter than the number of axes"); }
#else
static void addressable(const struct wcsprm*, int, const void*, const void*, const void*) {}
#endif
extern "C" int __real_wcsp2s(struct wcsprm*, int, int, const double*, double*, double*, double*, double*, int*);
extern "C" int __real_wcss2p(struct wcsprm*, int, int, const double*, double*, double*, double*, double*, int*);
extern "C" int __wrap_wcsp2s(struct wcsprm* w, int n, int e, const double* a, double* b, double* c, double* d, double* f, int* g) { addressable(w, n, a, b, f); return __real_wcsp2s(w, n, e, a, b, c, d, f, g); }
extern "C" int __wrap_wcss2p(struct wcsprm* w, int n, int e, const double* a, double* b, double* c, double* d, double* f, int* g) { addressable(w, n, a, d, f); return __real_wcss2p(w, n, e, a, b, c, d, f, g); }

static const double D = M_PI / 180;
// The definition, after Calabretta & Greisen 2002 and Shupe et al. 2005
struct Model {
  int proj = 0; double crpix[2], crval[2], cd[2][2], lonpole = 180; bool swapped = false; int order = 0; double a[5][5], b[5][5];
  bool celestial() const { return proj < 5; }
  bool world(double x, double y, double& al, double& de, double* rad = nullptr) const { // 0-based pixel
    double u = x + 1 - crpix[0], v = y + 1 - crpix[1], fu = 0, fv = 0; for (int i = 0; i <= order; ++i) for (int j = 0; i + j <= order; ++j) if (order) { double t = std::pow(u, i) * std::pow(v, j); fu += a[i][j] * t; fv += b[i][j] * t; } u += fu; v += fv;
    double p = cd[0][0] * u + cd[0][1] * v, q = cd[1][0] * u + cd[1][1] * v; if (!celestial()) { al = crval[0] + p; de = crval[1] + q; return true; } if (swapped) std::swap(p, q);
    double r = std::hypot(p, q) * D, th; if (rad) *rad = r; double lim = proj == 0 ? 1e9 : proj == 1 ? 1 : proj == 2 ? M_PI : proj == 3 ? 2 : 1e9; if (r > lim) return false;
    switch (proj) { case 0: th = std::atan2(1, r); break; case 1: th = std::acos(r); break; case 2: th = M_PI / 2 - r; break; case 3: th = M_PI / 2 - 2 * std::asin(r / 2); break; default: th = M_PI / 2 - 2 * std::atan(r / 2); }
    double phi = r == 0 ? 0 : std::atan2(p, -q), a0 = crval[swapped ? 1 : 0] * D, d0 = crval[swapped ? 0 : 1] * D, dp = phi - lonpole * D; de = std::asin(std::max(-1., std::min(1., std::sin(th) * std::sin(d0) + std::cos(th) * std::cos(d0) * std::cos(dp)))) / D; al = (a0 + std::atan2(-std::cos(th) * std::sin(dp), std::sin(th) * std::cos(d0) - std::cos(th) * std::sin(d0) * std::cos(dp))) / D; al = std::fmod(al, 360); if (al < 0) al += 360; return true; } };
static double apart(bool celestial, double a1, double d1, double a2, double d2) { if (!celestial) return std::hypot(a1 - a2, d1 - d2); double da = std::fabs(std::remainder(a1 - a2, 360)) * std::cos(d2 * D); return std::hypot(da, d1 - d2); }
struct File { std::string name; ~File() { unlink(name.c_str()); } };
static std::string newName() { static int n = 0; return scratchDir() + "/w" + std::to_string(n++) + ".fits"; }
struct Setup { Model m; File file; double scale; int naxis; std::shared_ptr<WCS> wcs; };
static void must(int st) { if (st) throw std::runtime_error("harness: cfitsio " + std::to_string(st)); }
static void key(fitsfile* f, const std::string& k, double v, int& st) { fits_write_key_dbl(f, k.c_str(), v, -17, "", &st); }
static void setup(Case& c, Setup& s, bool simple) {
  Model& m = s.m; m.proj = simple ? 0 : int(c.s.pick({0, 0, 0, 1, 2, 3, 4, 5})); static const char* P[] = {"TAN", "SIN", "ARC", "ZEA", "STG", ""}; s.scale = c.s.pick({1. / 3600, 0.05 / 3600, 0.2 / 3600, 0.01, 0.2}); if (simple) s.scale = 1e-4;
  for (int i = 0; i < 2; ++i) m.crpix[i] = c.s.coin() ? double(c.s.range(-100, 3000)) + 0.5 : c.s.uniform(-1000, 3000); m.crval[0] = c.s.pick({c.s.uniform(0, 360), 0., 359.9999, 180.}); m.crval[1] = c.s.pick({c.s.uniform(-80, 80), 0., 60.}); double rot = c.s.pick({0., 90., c.s.uniform(0, 360)}) * D, flip = c.s.coin() ? -1 : 1, rat = c.s.coin(80) ? 1 : c.s.uniform(0.7, 1.4), sk = c.s.coin(80) ? 0 : c.s.uniform(-0.3, 0.3);
  m.cd[0][0] = flip * s.scale * std::cos(rot); m.cd[0][1] = s.scale * rat * (-flip * std::sin(rot) + sk); m.cd[1][0] = s.scale * std::sin(rot); m.cd[1][1] = s.scale * rat * std::cos(rot); if (m.celestial() && !simple) { m.swapped = c.s.coin(15); if (m.swapped) std::swap(m.crval[0], m.crval[1]); if (c.s.coin(10)) m.lonpole = c.s.uniform(0, 360); }
  if (m.proj == 0 && !m.swapped && c.s.coin(30)) { m.order = int(c.s.range(2, 4)); for (auto* t : {&m.a, &m.b}) for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) (*t)[i][j] = i + j < 2 || i + j > m.order || c.s.coin(30) ? 0 : c.s.uniform(-1, 1) * std::pow(1e-3, i + j - 1) * 0.03; }
  s.naxis = simple ? 2 : c.s.coin(75) ? 2 : 3; bool swap = m.swapped, gal = !m.order && c.s.coin(10), alt = c.s.coin(10); int form = m.order ? 0 : int(c.s.draw(2)); s.file.name = newName();
  fitsfile* f = nullptr; int st = 0; fits_create_file(&f, s.file.name.c_str(), &st); long ax[3] = {3, 2, 2}; fits_create_img(f, FLOAT_IMG, s.naxis, ax, &st); std::string t0 = gal ? "GLON-" : "RA---", t1 = gal ? "GLAT-" : "DEC--"; t0 += P[m.proj]; t1 += P[m.proj]; if (m.order) { t0 += "-SIP"; t1 += "-SIP"; } if (swap) std::swap(t0, t1);
  bool nokeys = !m.celestial() && c.s.coin(20);
  if (m.celestial()) { fits_write_key_str(f, "CTYPE1", t0.c_str(), "", &st); fits_write_key_str(f, "CTYPE2", t1.c_str(), "", &st); if (c.s.coin()) { fits_write_key_str(f, "CUNIT1", "deg", "", &st); fits_write_key_str(f, "CUNIT2", "deg", "", &st); } } if (s.naxis == 3 && c.s.coin()) { fits_write_key_str(f, "CTYPE3", "WAVE", "", &st); key(f, "CRVAL3", 5e-7, st); key(f, "CRPIX3", 1, st); key(f, form == 0 && !nokeys ? "CD3_3" : "CDELT3", 1e-9, st); }
   if (nokeys) { m.crpix[0] = m.crpix[1] = 0; m.crval[0] = m.crval[1] = 0; m.cd[0][0] = m.cd[1][1] = 1; m.cd[0][1] = m.cd[1][0] = 0; s.scale = 1; }
  else { for (int i = 0; i < 2; ++i) { std::string n = std::to_string(i + 1); key(f, "CRPIX" + n, m.crpix[i], st); if (swap ? (i == 1) : (i == 0)) key(f, "CRVAL" + n, m.crval[i], st); else key(f, "CRVAL" + n, m.crval[i], st); double dl = form == 0 ? 1 : form == 1 ? 1 : s.scale * (i == 0 ? flip : 1); if (form == 2) key(f, "CDELT" + n, dl, st); for (int j = 0; j < 2; ++j) { std::string nm = n + "_" + std::to_string(j + 1); key(f, (form == 2 ? "PC" : form == 1 ? "CD00" : "CD") + (form == 1 ? std::to_string(i + 1) + "00" + std::to_string(j + 1) : nm), m.cd[i][j] / dl, st); } } }
  if (form == 1) { /* old style names are not accepted everywhere: use the new ones */ for (int i = 0; i < 2 && !nokeys; ++i) for (int j = 0; j < 2; ++j) { char o[32]; snprintf(o, 32, "CD00%d00%d", i + 1, j + 1); fits_delete_key(f, o, &st); st = 0; key(f, "CD" + std::to_string(i + 1) + "_" + std::to_string(j + 1), m.cd[i][j], st); } }
  if (m.lonpole != 180) key(f, "LONPOLE", m.lonpole, st); if (alt && !nokeys) { fits_write_key_str(f, "CTYPE1A", "LINEAR", "", &st); key(f, "CRVAL1A", 7, st); key(f, "CDELT1A", 3, st); }
  if (m.order) { for (int t = 0; t < 2; ++t) { std::string n = t ? "B" : "A"; fits_write_key_lng(f, (n + "_ORDER").c_str(), m.order, "", &st); for (int i = 0; i <= m.order; ++i) for (int j = 0; i + j <= m.order; ++j) if (i + j >= 2) key(f, n + "_" + std::to_string(i) + "_" + std::to_string(j), (t ? m.b : m.a)[i][j], st); } }
  must(st); fits_close_file(f, &st); must(st); if (m.swapped) { } auto src = std::make_shared<FitsImageSource>(s.file.name, 0, ImageTile::FloatImage); s.wcs = std::make_shared<WCS>(*src);
  c.note() << "projection " << P[m.proj] << (m.swapped ? " swapped" : "") << " axes " << s.naxis << " SIP " << m.order << " CRPIX " << m.crpix[0] << "," << m.crpix[1] << " CRVAL " << m.crval[0] << "," << m.crval[1] << " CD " << m.cd[0][0] << " " << m.cd[0][1] << " " << m.cd[1][0] << " " << m.cd[1][1] << " lonpole " << m.lonpole << (alt ? " alternate" : ""); c.label("SIP", m.order > 0); c.label("cube", s.naxis == 3); c.label("latitude first", m.swapped); }
static void point(Case& c, const Setup& s, double& x, double& y) { double reach = s.m.order ? 1000 : s.scale > 5e-3 ? (c.s.coin() ? 400 : 2) : 3000; x = s.m.crpix[0] - 1 + (c.s.coin(5) ? 0 : c.s.uniform(-reach, reach)); y = s.m.crpix[1] - 1 + (c.s.coin(5) ? 0 : c.s.uniform(-reach, reach)); }
static void projections(Case& c) {
  Setup s; setup(c, s, false); const Model& m = s.m; auto copy = std::make_shared<WCS>(*s.wcs); std::shared_ptr<WCS> again; File out; if (c.s.coin(60)) { out.name = newName(); { FitsImageSource o(out.name, 4, 3, ImageTile::FloatImage, s.wcs); auto rd = std::make_shared<FitsImageSource>(out.name, 0, ImageTile::FloatImage); again = std::make_shared<WCS>(*rd); } c.label("written"); }
  std::shared_ptr<WCS> moved; int ox = int(c.s.range(-50, 50)), oy = int(c.s.range(-50, 50)); if (!m.order) { moved = std::make_shared<WCS>(*s.wcs); moved->addOffset(PixelCoordinate(ox, oy)); } int good = 0, bad = 0;
  for (int i = 0; i < 6; ++i) { double x, y, al, de, rad = 0; point(c, s, x, y); std::ostringstream w; w << std::setprecision(12) << "pixel " << x << "," << y << ": "; bool ok = m.world(x, y, al, de, &rad), threw = false; WorldCoordinate g; try { g = s.wcs->imageToWorld(ImageCoordinate(x, y)); } catch (const InvalidCoordinatesException&) { threw = true; }
    double lim = m.proj == 1 ? 1 : m.proj == 2 ? M_PI : m.proj == 3 ? 2 : 1e9; if (std::fabs(rad - lim) < 1e-6) continue; if (!ok) { c.check(threw, w.str() + "has no world coordinates but none were refused"); ++bad; continue; } c.check(!threw, w.str() + "world coordinates were refused");
    double tol = 1e-6 * s.scale + 1e-11; double e = apart(m.celestial(), g.m_alpha, g.m_delta, al, de); w << "world " << g.m_alpha << "," << g.m_delta; if (std::fabs(m.crval[m.swapped ? 0 : 1]) <= 90) c.check(e <= tol * 10, w.str() + " instead of " + std::to_string(al) + "," + std::to_string(de) + " (" + std::to_string(e / s.scale) + " pixels away)"); if (m.celestial()) c.check(g.m_alpha >= 0 && g.m_alpha <= 360 && std::fabs(g.m_delta) <= 90, w.str() + ": out of range");
    bool back = !m.celestial() || rad < (m.proj == 1 ? 0.9 : m.proj == 0 ? 20 : 1.6); double amp = m.proj == 0 ? 1 + rad * rad : 2.5; double rt = 1e-6 * amp + 1e-11 * amp / s.scale + 1e-8 * std::hypot(x - m.crpix[0], y - m.crpix[1]) * (s.scale > 5e-3); if (back) { auto p = s.wcs->worldToImage(g); c.check(std::hypot(p.m_x - x, p.m_y - y) <= 20 * rt, w.str() + ": back to pixel " + std::to_string(p.m_x) + "," + std::to_string(p.m_y)); if (m.celestial() && c.s.coin(30)) { auto q = s.wcs->worldToImage(WorldCoordinate(g.m_alpha + (c.s.coin() ? 360 : -360), g.m_delta)); c.check(std::hypot(q.m_x - x, q.m_y - y) <= 20 * rt, w.str() + ": a full turn away is another pixel"); } }
    for (auto& o : {copy, again}) if (o) { auto h = o->imageToWorld(ImageCoordinate(x, y)); double d = apart(m.celestial(), h.m_alpha, h.m_delta, g.m_alpha, g.m_delta) / s.scale; c.check(d <= 1e-5 + 1e-8 / s.scale + 1e-9 * std::hypot(x, y), w.str() + (o == copy ? ": the copy is " : ": written and read again it is ") + std::to_string(d) + " pixels away"); }
    if (moved) { auto h = moved->imageToWorld(ImageCoordinate(x - ox, y - oy)); double d = apart(m.celestial(), h.m_alpha, h.m_delta, g.m_alpha, g.m_delta) / s.scale; c.check(d <= 1e-5 + 1e-8 / s.scale + 1e-9 * std::hypot(x, y), w.str() + ": shifted it is " + std::to_string(d) + " pixels away"); } ++good; }
  if (m.celestial() && m.proj <= 1) { double a0 = m.crval[m.swapped ? 1 : 0], d0 = m.crval[m.swapped ? 0 : 1]; auto p = s.wcs->worldToImage(WorldCoordinate(std::fmod(a0 + 180, 360), -d0)); c.check(!std::isfinite(p.m_x) && !std::isfinite(p.m_y), "the point opposite of the centre has pixel coordinates"); }
  c.label("outside of the projection", bad > 0); c.nontrivial(good >= 2); }
// Several threads use the same coordinates
static void threads(Case& c) {
  Setup s; setup(c, s, true); int nt = int(c.s.range(2, 4)), n = 40; std::vector<double> px(2 * n); for (size_t i = 0; i < px.size(); ++i) px[i] = s.m.crpix[i & 1] + c.s.uniform(-1000, 1000); std::vector<double> want, got(size_t(nt) * n * 4, 0.);
  auto run = [&](double* o) { for (int i = 0; i < n; ++i) { auto w = s.wcs->imageToWorld(ImageCoordinate(px[2 * i], px[2 * i + 1])); auto p = s.wcs->worldToImage(w); o[4 * i] = w.m_alpha; o[4 * i + 1] = w.m_delta; o[4 * i + 2] = p.m_x; o[4 * i + 3] = p.m_y; } };
  want.resize(4 * n); std::vector<std::thread> t; for (int i = 0; i < nt; ++i) t.emplace_back(run, &got[size_t(i) * n * 4]); for (auto& x : t) x.join(); run(want.data()); for (int i = 0; i < nt; ++i) for (int j = 0; j < 4 * n; ++j) if (got[size_t(i) * n * 4 + j] != want[j]) { std::ostringstream o; o << std::setprecision(17) << "a thread got " << got[size_t(i) * n * 4 + j] << " instead of " << want[j] << " as coordinate " << j; c.fail(o.str()); }; c.nontrivial(); }
#if defined(__SANITIZE_THREAD__)
PBT_MAIN({"threads", "two threads or more use the coordinates", threads, 400, 8000})
#else
PBT_MAIN({"projections", "two pixels or more have world coordinates", projections, 6000, 200000}, {"threads", "two threads or more use the coordinates", threads, 300, 8000})
#endif
