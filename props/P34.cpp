// Model fitting in a whole run of the program
// SRCS: @program
// FLAGS: @python -I@REPO -DWITHOUT_NCURSES -DVDIR=@V
// LIBS: -lcfitsio -lwcs -lboost_program_options -lboost_regex -lboost_filesystem -lboost_system -lboost_locale -lboost_python312 -lpython3.12 -lpthread
// SAN: none
#include "program.h"
using namespace pbt; using namespace program;
namespace {
const double PI = 3.14159265358979323846;
std::string join(const std::vector<std::string>& v, const std::string& sep = ",") { std::string r; for (auto& s : v) r += (r.empty() ? "" : sep) + s; return r; }
enum Kind { POINT, EXPO, SERSIC };
struct Src { double x, y; std::vector<double> f; double re, q, th, n; };
struct Frame { int w, h; double dx, dy, gain = 0, sigma = 1, sat = 0; Img img, rms; };
struct Scene { int w, h, kind = POINT; double fwhm; std::vector<Src> src; Img det; std::vector<Frame> fr; Cards wcs; double s, t, f, cx, cy, ra, dec; double sig() const { return fwhm / 2.355; } };
double bn(double n) { return 2 * n - 1. / 3 + 4 / (405 * n) + 46 / (25515 * n * n) + 131 / (1148175 * n * n * n); }
// One source on an image: the profile sampled five times per pixel and axis, binned, and convolved with the sampled Gaussian PSF
void draw(Img& im, int kind, const Src& s, double flux, double dx, double dy, double sig) {
  double px = s.x + dx, py = s.y + dy; if (kind == POINT) { double a = flux / (2 * PI * sig * sig); addBlob(im, {px, py, sig, sig, 0, a}); return; }
  int k = int(3 * 2.355 * sig) + 2, r = int((s.n < 0.8 ? 4.5 : 9) * s.re) + 4, N = 2 * (r + k) + 1, ox = int(std::floor(px)) - r - k, oy = int(std::floor(py)) - r - k; Img t(N, N), u(N, N); const int S = 5; double b = bn(s.n), sum = 0;
  for (int y = k; y < N - k; ++y) for (int x = k; x < N - k; ++x) { double v = 0; for (int j = 0; j < S; ++j) for (int i = 0; i < S; ++i) { double X = ox + x + (i + 0.5) / S - 0.5 - px, Y = oy + y + (j + 0.5) / S - 0.5 - py, U = X * std::cos(s.th) + Y * std::sin(s.th), V = -X * std::sin(s.th) + Y * std::cos(s.th); v += std::exp(-b * std::pow(std::sqrt(U * U + V * V / (s.q * s.q)) / s.re, 1 / s.n)); } t.at(x, y) = v; sum += v; }
  std::vector<double> g(size_t(2 * k + 1)); double gs = 0; for (int i = -k; i <= k; ++i) gs += g[size_t(i + k)] = std::exp(-0.5 * i * i / (sig * sig)); for (auto& v : g) v /= gs;
  for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) { double v = 0; for (int i = std::max(-k, -x); i <= std::min(k, N - 1 - x); ++i) v += g[size_t(i + k)] * t.at(x + i, y); u.at(x, y) = v; }
  for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) { int X = ox + x, Y = oy + y; if (X < 0 || Y < 0 || X >= im.w || Y >= im.h) continue; double v = 0; for (int i = std::max(-k, -y); i <= std::min(k, N - 1 - y); ++i) v += g[size_t(i + k)] * u.at(x, y + i); im.at(X, Y) += flux * v / sum; } }
Cards wcs(const Scene& s, double dx, double dy) { return {cardS("CTYPE1", "RA---TAN"), cardS("CTYPE2", "DEC--TAN"), card("CRVAL1", s.ra), card("CRVAL2", s.dec), card("CRPIX1", s.cx + dx), card("CRPIX2", s.cy + dy), card("CD1_1", s.f * s.s * std::cos(s.t)), card("CD1_2", -s.s * std::sin(s.t)), card("CD2_1", s.f * s.s * std::sin(s.t)), card("CD2_2", s.s * std::cos(s.t))}; }
struct Want { bool apart = true, offside = false, holes = false, extended = true; int maxFrames = 3; double lo = 60, hi = 1500; };
Scene scene(Case& c, const Want& k) {
  Scene s; const bool apart0 = k.apart; s.w = c.s.range(45, 90); s.h = c.s.range(45, 90); s.fwhm = c.s.real(2.8, 4.5); s.kind = k.extended ? c.s.pick({int(POINT), int(POINT), int(EXPO), int(SERSIC)}) : POINT; const bool apart = apart0 || s.kind != POINT; double n = s.kind == EXPO ? 1 : c.s.pick({0.5, 1.0});
  s.s = c.s.real(0.1, 1) / 3600; s.t = c.s.real(-3.1, 3.1); s.f = c.s.coin(70) ? -1 : 1; s.cx = c.s.real(1, s.w); s.cy = c.s.real(1, s.h); s.ra = c.s.real(1, 359); s.dec = c.s.real(-80, 80); s.wcs = wcs(s, 0, 0);
  int nf = c.s.range(1, k.maxFrames); Noise noise(c.s.draw(100000)); for (int i = 0; i < nf; ++i) { Frame f; f.w = s.w; f.h = s.h; f.dx = f.dy = 0; if (c.s.coin(60)) { f.dx = c.s.real(-6, 6); f.dy = c.s.real(-6, 6); f.w += c.s.range(-6, 12); f.h += c.s.range(-6, 12); } else if (k.offside && c.s.coin(30)) { f.dx = c.s.real(-1.5, 1.5) * f.w; f.dy = c.s.real(-1.5, 1.5) * f.h; } f.sigma = c.s.coin(60) ? 1 : c.s.real(0.3, 3); f.gain = c.s.pick({0.0, 0.0, 50.0, 200.0}) / (f.sigma * f.sigma); s.fr.push_back(f); }
  int want = c.s.range(1, 4); double big = 3.2 * s.fwhm; if (s.kind != POINT) want = c.s.range(1, 2);
  for (int i = 0; i < want; ++i) for (int tries = 0; tries < 20; ++tries) { Src q; q.re = c.s.real(0.8, 1.5) * s.fwhm; q.q = c.s.real(0.5, 0.85); q.th = c.s.real(-1.4, 1.4); q.n = n; double m = s.kind == POINT ? 2 * s.fwhm : 3.5 * s.fwhm; q.x = c.s.real(m, s.w - 1 - m); q.y = c.s.real(m, s.h - 1 - m); double rr = s.kind == POINT ? big : big + 5 * q.re; if (!apart) rr = 1.8 * s.fwhm; bool ok = true; for (auto& o : s.src) ok = ok && std::hypot(o.x - q.x, o.y - q.y) > (apart ? rr + (s.kind == POINT ? big : 5 * o.re) : rr); for (auto& f : s.fr) if (apart0 || !k.offside) ok = ok && q.x + f.dx > m - 1 && q.x + f.dx < f.w - m && q.y + f.dy > m - 1 && q.y + f.dy < f.h - m; if (!ok) continue;
    double area = 2 * PI * s.sig() * s.sig() + (s.kind == POINT ? 0 : 2 * PI * q.re * q.re * q.q), peak = c.s.logreal(k.lo, k.hi); q.f.push_back(peak * area); for (int j = 0; j < nf; ++j) q.f.push_back(q.f[0] * c.s.real(0.5, 2) * s.fr[size_t(j)].sigma); s.src.push_back(q); break; }
  auto grain = [&](Img& im, double sg, double gain) { for (auto& v : im.d) v += noise.gauss() * std::sqrt(sg * sg + (gain > 0 && v > 0 ? v / gain : 0)); im.round32(); };
  s.det = Img(s.w, s.h); for (auto& q : s.src) draw(s.det, s.kind, q, q.f[0], 0, 0, s.sig()); grain(s.det, 1, 0);
  for (size_t i = 0; i < s.fr.size(); ++i) { Frame& f = s.fr[i]; f.img = Img(f.w, f.h); for (auto& q : s.src) draw(f.img, s.kind, q, q.f[i + 1], f.dx, f.dy, s.sig()); grain(f.img, f.sigma, f.gain); f.rms = Img(f.w, f.h, f.sigma);
    if (k.holes && c.s.coin(50)) { int b = c.s.range(1, 6); for (int j = 0; j < b; ++j) { int x0 = c.s.range(0, f.w - 1), y0 = c.s.range(0, f.h - 1), sz = c.s.pick({1, 2, 6, 25}); for (int y = y0; y < std::min(f.h, y0 + sz); ++y) for (int x = x0; x < std::min(f.w, x0 + sz); ++x) f.rms.at(x, y) = 1e4; } } if (k.holes && c.s.coin(25)) f.sat = c.s.real(30, 300) * f.sigma; f.rms.round32(); }
  return s; }
struct Job { Options o; std::string script; std::vector<std::string> extra; };
void store(const Scene& s, const Dir& d) { writeFits(d / "det.fits", s.det, s.wcs); writeFits(d / "detrms.fits", Img(s.w, s.h, 1)); for (size_t i = 0; i < s.fr.size(); ++i) { auto n = std::to_string(i); writeFits(d / "m" + n + ".fits", s.fr[i].img, wcs(s, s.fr[i].dx, s.fr[i].dy)); writeFits(d / "r" + n + ".fits", s.fr[i].rms); } }
std::string loading(const Scene& s, const Dir& d) { std::string t = "from sourcextractor.config import *\nimport math\nG=[]\n"; for (size_t i = 0; i < s.fr.size(); ++i) { auto n = std::to_string(i); t += "G.append(MeasurementGroup(load_fits_images(['" + (d / "m" + n) + ".fits'], weights=['" + (d / "r" + n) + ".fits'], weight_type='rms', weight_absolute=True, weight_threshold=1000, constant_background=0, gain=" + num(s.fr[i].gain) + ", saturation=" + num(s.fr[i].sat) + ")))\n"; } return t; }
Options options(Case& c, const Scene& s, const Dir& d) { Options o; o.set("detection-image", d / "det.fits"); o.set("weight-image", d / "detrms.fits"); o.set("weight-type", "rms"); o.set("weight-absolute", "true"); o.set("background-value", 0); o.set("detection-threshold", c.s.real(4, 8)); o.set("detection-minimum-area", 4); o.set("psf-fwhm", s.fwhm); o.set("psf-pixel-sampling", c.s.coin(70) ? 1.0 : 0.5); o.set("python-config-file", d / "conf.py"); o.set("output-catalog-filename", d / "cat.txt"); o.set("output-catalog-format", "ASCII"); o.set("thread-count", 0);
  o.set("output-properties", "SourceIDs,PixelCentroid,ShapeParameters,IsophotalFlux,GroupInfo,PixelBoundaries,FlexibleModelFitting"); return o; }
Ran go(Case& c, const Dir& d, const Options& o) { Ran r = run(d.path, o.line()); if (getenv("P34_LOG")) { std::ofstream f(getenv("P34_LOG")); f << r.log; } if (r.status != 0) c.fail("the program ended with status " + std::to_string(r.status) + "\n" + tail(r.log)); return r; }
// Ways to write the free parameters
std::string position(Case& c) { switch (c.s.pick({0, 0, 1, 2})) { case 0: return "x, y = get_pos_parameters()\n"; case 1: return "x = FreeParameter(lambda o: o.centroid_x, Range(lambda v, o: (v - 4, v + 4), RangeType.LINEAR))\ny = FreeParameter(lambda o: o.centroid_y, Range(lambda v, o: (v - 4, v + 4), RangeType.LINEAR))\n"; default: return "x = FreeParameter(lambda o: o.centroid_x, Unbounded(10))\ny = FreeParameter(lambda o: o.centroid_y, Unbounded(lambda v, o: v))\n"; } }
std::string fluxes(Case& c, const Scene& s) { std::string t = "F=[]\n"; for (size_t i = 0; i < s.fr.size(); ++i) switch (c.s.pick({0, 0, 1, 2})) { case 0: t += "F.append(get_flux_parameter())\n"; break; case 1: t += "F.append(FreeParameter(lambda o: o.isophotal_flux * 0.7, Range(lambda v, o: (v * 0.05, v * 20), RangeType.EXPONENTIAL)))\n"; break; default: t += "F.append(FreeParameter(lambda o: o.isophotal_flux, Unbounded(lambda v, o: v)))\n"; } return t; }
std::string shape(Case& c, const Scene& s) { if (s.kind == POINT) return ""; std::string t = "r = FreeParameter(lambda o: o.radius, Range(lambda v, o: (.02 * v, 50 * v), RangeType.EXPONENTIAL))\nq = FreeParameter(lambda o: o.aspect_ratio, Range((0.05, 5), RangeType.EXPONENTIAL))\nth = FreeParameter(lambda o: o.angle, Unbounded(" + std::string(c.s.coin(50) ? "1" : "3") + "))\n"; if (s.kind == SERSIC) t += c.s.coin(50) && !s.src.empty() ? "n = ConstantParameter(" + num(s.src[0].n) + ")\n" : "n = FreeParameter(1.2, Range((0.4, 6), RangeType.LINEAR))\n"; return t; }
std::string models(const Scene& s) { std::string m = s.kind == POINT ? "PointSourceModel(x, y, f)" : s.kind == EXPO ? "ExponentialModel(x, y, f, r, q, th)" : "SersicModel(x, y, f, r, q, th, n)"; return "for g, f in zip(G, F): add_model(g, " + m + ")\n"; }
std::string outputs(const Scene& s) { std::string t = "add_output_column('mx', x)\nadd_output_column('my', y)\nfor i, f in enumerate(F): add_output_column('flux%d' % i, f)\n"; if (s.kind != POINT) t += "add_output_column('mr', r)\nadd_output_column('mq', q)\nadd_output_column('mth', th)\n"; if (s.kind == SERSIC) t += "add_output_column('mn', n)\n"; return t; }
long nearest(const Scene& s, double x, double y) { long b = -1; double m = 3; for (size_t i = 0; i < s.src.size(); ++i) { double r = std::hypot(s.src[i].x - x, s.src[i].y - y); if (r < m) { m = r; b = long(i); } } return b; }
// --- the parameters from which the image was made come back
void recover(Case& c) {
  Want k; k.apart = c.s.coin(60); Scene s = scene(c, k); Dir d; store(s, d); Options o = options(c, s, d); bool iter = c.s.coin(75);
  std::string t = loading(s, d) + "set_engine('gsl')\nset_max_iterations(400)\n" + position(c) + fluxes(c, s) + shape(c, s) + models(s) + outputs(s); if (!iter) t += "use_iterative_fitting(False)\n"; else t += "set_meta_iterations(" + std::string(c.s.coin(50) ? "8" : "20") + ")\n"; if (c.s.coin(30)) t += "set_modified_chi_squared_scale(" + num(c.s.real(10, 50)) + ")\n"; if (c.s.coin(40)) { const char* W[] = {"SQUARE_MIN", "SQUARE_MAX", "SQUARE_AREA", "DISK_MIN", "DISK_MAX", "DISK_AREA", "ALIGNED_ELLIPSE"}; t += std::string("set_window_type(WindowType.") + W[c.s.range(0, 6)] + ")\n"; }
  writeText(d / "conf.py", t); go(c, d, o); Table T = readTable(d / "cat.txt"); std::set<long> seen; for (size_t r = 0; r < T.rows.size(); ++r) { long i = nearest(s, T.get(r, "pixel_centroid_x") - 1, T.get(r, "pixel_centroid_y") - 1); if (i >= 0 && !seen.insert(i).second) c.discard(); if (i < 0) c.discard(); } if (T.rows.size() != s.src.size()) c.discard();
  for (size_t a = 0; a < T.rows.size(); ++a) for (size_t b = 0; b < a; ++b) if (std::hypot(T.get(a, "pixel_centroid_x") - T.get(b, "pixel_centroid_x"), T.get(a, "pixel_centroid_y") - T.get(b, "pixel_centroid_y")) < 6.4 * s.fwhm && s.kind == POINT && T.text(a, "group_id") != T.text(b, "group_id")) c.discard(); // light in the window of a fit which knows nothing of it
  c.label("iterative", iter); c.label("point", s.kind == POINT); c.label("exponential", s.kind == EXPO); c.label("sersic", s.kind == SERSIC); c.label("several sources", s.src.size() > 1); c.label("several frames", s.fr.size() > 1); c.label("blended", !k.apart && s.src.size() > 1); c.nontrivial();
  for (size_t r = 0; r < T.rows.size(); ++r) { const Src& q = s.src[size_t(nearest(s, T.get(r, "pixel_centroid_x") - 1, T.get(r, "pixel_centroid_y") - 1))]; c.note() << "row " << r << ": "; for (auto* n : {"mx", "my", "flux0", "mx_err", "my_err", "flux0_err", "fmf_reduced_chi_2", "fmf_flags", "fmf_stop_reason", "fmf_iterations"}) c.note() << n << " " << T.text(r, n) << " "; if (s.kind != POINT) for (auto* n : {"mr", "mq", "mth"}) c.note() << n << " " << T.text(r, n) << " "; if (s.kind == SERSIC) c.note() << "n " << T.text(r, "mn"); c.note() << [&] { std::string z; for (size_t i = 0; i < s.fr.size(); ++i) { auto n = std::to_string(i); z += " [frame " + n + " " + std::to_string(s.fr[i].w) + "x" + std::to_string(s.fr[i].h) + " at " + num(q.x + s.fr[i].dx) + "," + num(q.y + s.fr[i].dy) + " flux " + T.text(r, "flux" + n) + " of " + num(q.f[i + 1]) + " sigma " + num(s.fr[i].sigma) + " gain " + num(s.fr[i].gain) + " area " + T.text(r, "fmf_fitting_areas_x") + "]"; } return z; }() << " truth " << q.x + 1 << " " << q.y + 1 << " " << q.f[1] << " re " << q.re << " q " << q.q << " th " << q.th << " n " << q.n << "; "; }
  for (size_t r = 0; r < T.rows.size(); ++r) { const Src& q = s.src[size_t(nearest(s, T.get(r, "pixel_centroid_x") - 1, T.get(r, "pixel_centroid_y") - 1))]; double slack = k.apart || !iter ? 1 : 2; if (iter && T.get(r, "fmf_flags") != 0) c.fail("flags " + T.text(r, "fmf_flags"));
    auto near = [&](const char* n, double got, double err, double truth, double abs) { if (!(std::fabs(got - truth) <= slack * (abs + 6 * err))) c.fail(std::string(n) + " " + num(got) + " +- " + num(err) + " instead of " + num(truth)); };
    near("x", T.get(r, "mx"), T.get(r, "mx_err"), q.x + 1, 0.03); near("y", T.get(r, "my"), T.get(r, "my_err"), q.y + 1, 0.03); for (size_t i = 0; i < s.fr.size(); ++i) { auto n = "flux" + std::to_string(i); near(n.c_str(), T.get(r, n), T.get(r, n + "_err"), q.f[i + 1], (s.kind == POINT ? 0.01 : 0.04) * q.f[i + 1]); }
    if (s.kind != POINT) { near("radius", T.get(r, "mr"), T.get(r, "mr_err"), q.re, 0.05 * q.re); double a = T.get(r, "mth"), qq = T.get(r, "mq"), rr = T.get(r, "mr"); (void)rr; near("aspect ratio", qq, T.get(r, "mq_err"), q.q, 0.05); double da = std::remainder(a - q.th, PI); near("angle", da, T.get(r, "mth_err"), 0, 0.05); }
    double x2 = T.get(r, "fmf_reduced_chi_2"); (void)x2; }
}
// --- what must hold of every fit, good or bad
struct Rect { int x0, y0, x1, y1; bool valid() const { return x1 >= x0 && y1 >= y0; } bool in(int x, int y) const { return x >= x0 && x <= x1 && y >= y0 && y <= y1; } int w() const { return x1 - x0 + 1; } int h() const { return y1 - y0 + 1; } };
const char* WINDOWS[] = {"RECTANGLE", "SQUARE_MIN", "SQUARE_MAX", "SQUARE_AREA", "DISK_MIN", "DISK_MAX", "DISK_AREA", "ALIGNED_ELLIPSE"};
// The window of a source on a frame, from the box of its detection moved there; the box may be rounded either way
Rect window(int type, double x0, double y0, double bw, double bh, const Frame& f, double el, double eh, Rect* unclipped = nullptr) {
  int lx = int(x0 + f.dx - el), ly = int(y0 + f.dy - el), hx = int(x0 + f.dx + bw + eh) + 1, hy = int(y0 + f.dy + bh + eh) + 1; if (hx < 0 || hy < 0 || lx >= f.w || ly >= f.h) return {0, 0, -1, -1}; lx = std::max(lx, 0); ly = std::max(ly, 0); hx = std::min(hx, f.w - 1); hy = std::min(hy, f.h - 1);
  int bx = int((hx - lx) * .8) + 2, by = int((hy - ly) * .8) + 2; lx -= bx; hx += bx; ly -= by; hy += by; int w = hx - lx, h = hy - ly; int side = type == 0 || type == 7 ? 0 : type == 1 || type == 4 ? std::min(w, h) : type == 2 || type == 5 ? std::max(w, h) : int(std::sqrt(double(w * h)));
  if (side) { lx += (w - side) / 2; hx = lx + side; ly += (h - side) / 2; hy = ly + side; } if (unclipped) *unclipped = {lx, ly, hx, hy}; return {std::max(lx, 0), std::max(ly, 0), std::min(hx, f.w - 1), std::min(hy, f.h - 1)}; }
std::string frameFile(const Dir& d, const std::string& stem, size_t i) { boost::filesystem::directory_iterator e; for (boost::filesystem::directory_iterator it(d.path); it != e; ++it) { auto n = it->path().filename().string(); auto want = stem + "_m" + std::to_string(i); if (n.compare(0, want.size(), want) == 0) return it->path().string(); } return ""; }
bool isnum(double v) { return std::isfinite(v); }
void identities(Case& c) {
  Want k; k.apart = c.s.coin(50); k.offside = c.s.coin(50); k.holes = c.s.coin(50); Scene s = scene(c, k); Dir d; store(s, d); Options o = options(c, s, d); bool iter = c.s.coin(75); int win = c.s.coin(50) ? 0 : c.s.range(1, 7), metas = c.s.range(1, 8); bool prior = c.s.coin(25); double pm = c.s.real(0.7, 1.4);
  bool split = s.fr.size() > 1 && c.s.coin(40); // one position per frame
  std::string t = loading(s, d) + "set_engine('gsl')\nset_max_iterations(" + std::to_string(c.s.pick({200, 50, 3})) + ")\nset_meta_iterations(" + std::to_string(metas) + ")\nset_window_type(WindowType." + WINDOWS[win] + ")\nset_deblend_factor(" + num(c.s.pick({0.95, 1.0, 0.5})) + ")\n"; if (!iter) t += "use_iterative_fitting(False)\n";
  double half = c.s.pick({4.0, 1.0, 0.2}); t += "x = FreeParameter(lambda o: o.centroid_x, Range(lambda v, o: (v - " + num(half) + ", v + " + num(half) + "), RangeType.LINEAR))\ny = FreeParameter(lambda o: o.centroid_y, Range(lambda v, o: (v - " + num(half) + ", v + " + num(half) + "), RangeType.LINEAR))\n";
  double fac = c.s.pick({20.0, 1.5}); bool bounded = c.s.coin(60) || prior; t += "F = [FreeParameter(lambda o: o.isophotal_flux, " + (bounded ? "Range(lambda v, o: (v / " + num(fac) + ", v * " + num(fac) + "), RangeType.EXPONENTIAL)" : std::string("Unbounded(lambda v, o: v)")) + ") for g in G]\n"; t += shape(c, s);
  if (prior) t += "add_prior(F[0], lambda o: o.isophotal_flux * " + num(pm) + ", lambda o: o.isophotal_flux * 1e-5)\n"; bool pinned = prior && c.s.coin(50); if (pinned) t += "add_prior(x, lambda o: o.centroid_x, 1e-5)\n";
  (void)split; t += models(s) + outputs(s);
  t += "k1 = ConstantParameter(lambda o: o.centroid_x + 2 * o.centroid_y)\nadd_output_column('k1', k1)\nk2 = ConstantParameter(lambda o: [o.radius, o.angle, o.aspect_ratio, o.isophotal_flux][" + std::to_string(c.s.draw(3)) + "])\nadd_output_column('k2', k2)\nk3 = ConstantParameter(7.25)\n"; int k2 = 0; { size_t p = t.rfind("]["); k2 = t[p + 2] - '0'; }
  t += "d1 = DependentParameter(lambda a, b: a * b + k, x, y)\nk = 3\nadd_output_column('d1', d1)\nd2 = DependentParameter(lambda f: -2.5 * math.log10(f) if f > 0 else 99, F[0])\nadd_output_column('d2', d2)\nd3 = DependentParameter(lambda a, b, q: a - b * q, d1, d2, k3)\nadd_output_column('d3', d3)\nadd_output_column('all', [x, F[-1], k3, d1])\n";
  writeText(d / "conf.py", t); bool images = c.s.coin(80); if (images) { o.set("check-image-model-fitting", d / "model.fits"); o.set("check-image-residual", d / "res.fits"); if (c.s.coin(70)) o.set("check-image-fitting-window", d / "win.fits"); } if (c.s.coin(30)) o.set("output-properties", "PixelCentroid,FlexibleModelFitting,SourceIDs,PixelBoundaries,WorldCentroid,ShapeParameters,IsophotalFlux,GroupInfo");
  c.note() << "window " << WINDOWS[win] << (iter ? " iterative " : " classic ") << "metas " << metas << " fwhm " << num(s.fwhm) << " half " << half << " kind " << s.kind << (prior ? " prior" : "") << "; "; for (auto& f : s.fr) c.note() << "frame " << f.w << "x" << f.h << " shift " << f.dx << "," << f.dy << " sigma " << f.sigma << " gain " << f.gain << " sat " << f.sat << "; "; for (auto& q : s.src) c.note() << "source " << q.x << "," << q.y << "; ";
  go(c, d, o); Table T = readTable(d / "cat.txt"); if (T.rows.empty()) { c.label("nothing detected"); return; } c.nontrivial(); c.label("iterative", iter); c.label("several rows", T.rows.size() > 1); c.label("several frames", s.fr.size() > 1); c.label("point", s.kind == POINT); c.label("images", images);
  size_t NF = s.fr.size(), R = T.rows.size(); int npar = 2 + int(NF) + (s.kind == POINT ? 0 : 3) + (s.kind == SERSIC && t.find("n = Free") != std::string::npos); std::vector<std::vector<Rect>> in(R), out(R), un(R); std::vector<char> failed(R, 0);
  for (size_t r = 0; r < R; ++r) { auto F = [&](const char* n) { return T.get(r, n); }; auto at = [&](const std::string& n) { return T.get(r, n); };
    for (auto& f : s.fr) { double x0 = F("pixel_boundaries_min_x"), y0 = F("pixel_boundaries_min_y"), bw = F("pixel_boundaries_max_x") - x0 + 1, bh = F("pixel_boundaries_max_y") - y0 + 1; Rect u; out[r].push_back(window(win, x0, y0, bw, bh, f, 1e-5, 1e-5, &u)); un[r].push_back(u); in[r].push_back(window(win, x0, y0, bw, bh, f, -1e-5, -1e-5)); }
    auto ax = T.vec(r, "fmf_fitting_areas_x"), ay = T.vec(r, "fmf_fitting_areas_y"); int valid = 0; bool edge = false; long good = 0, goodLow = 0;
    for (size_t i = 0; i < NF; ++i) { const Rect &a = in[r][i], &b = out[r][i]; edge = edge || a.valid() != b.valid(); valid += b.valid(); if (b.valid()) for (int y = b.y0; y <= b.y1; ++y) for (int x = b.x0; x <= b.x1; ++x) { bool ok = !(s.fr[i].sat > 0 && s.fr[i].img.at(x, y) > s.fr[i].sat); good += ok; (void)goodLow; } }
    if (iter && ax.size() == NF && (win == 0 || win == 7)) for (size_t i = 0; i < NF; ++i) { if (!in[r][i].valid() || !out[r][i].valid()) continue; const Frame& f = s.fr[i]; double x0 = F("pixel_boundaries_min_x"), y0 = F("pixel_boundaries_min_y"), bw = F("pixel_boundaries_max_x") - x0 + 1, bh = F("pixel_boundaries_max_y") - y0 + 1; Rect a{-1000000, -1000000, 1000000, 1000000}, b{1000000, 1000000, -1000000, -1000000}; for (double el : {-1e-5, 1e-5}) for (double eh : {-1e-5, 1e-5}) { Rect q = window(win, x0, y0, bw, bh, f, el, eh); if (q.valid() && q.w() == ax[i]) { a.x0 = std::max(a.x0, q.x0); a.x1 = std::min(a.x1, q.x1); b.x0 = std::min(b.x0, q.x0); b.x1 = std::max(b.x1, q.x1); } if (q.valid() && q.h() == ay[i]) { a.y0 = std::max(a.y0, q.y0); a.y1 = std::min(a.y1, q.y1); b.y0 = std::min(b.y0, q.y0); b.y1 = std::max(b.y1, q.y1); } } if (b.valid()) { in[r][i] = a; out[r][i] = b; } else c.fail("fitting area of frame " + std::to_string(i) + ": " + num(ax[i]) + "x" + num(ay[i]) + " instead of about " + std::to_string(out[r][i].w()) + "x" + std::to_string(out[r][i].h())); }
    int fl = int(F("fmf_flags")); if (iter) { c.eq(ax.size(), NF, "number of fitting areas"); for (size_t i = 0; i < NF; ++i) { const Rect &a = in[r][i], &b = out[r][i]; if (a.valid() != b.valid()) continue; if (!b.valid()) { c.check(ax[i] == -1 && ay[i] == -1, "fitting area of a frame the source is not on: " + num(ax[i]) + "," + num(ay[i])); continue; } bool sq = win != 0 && win != 7; double sl = sq ? 2 : 0; if (!(ax[i] >= std::min(a.w(), b.w()) - sl && ax[i] <= std::max(a.w(), b.w()) + sl && ay[i] >= std::min(a.h(), b.h()) - sl && ay[i] <= std::max(a.h(), b.h()) + sl)) c.fail("fitting area of frame " + std::to_string(i) + ": " + num(ax[i]) + "x" + num(ay[i]) + " instead of " + std::to_string(b.w()) + "x" + std::to_string(b.h())); } }
    // flags
    bool single = true; for (size_t q = 0; q < R; ++q) single = single && (q == r || T.text(q, "group_id") != T.text(r, "group_id")); bool dead = false; if (iter) { if (valid == 0 && !edge) { c.label("outside"); c.eq(fl, 32, "flags of a source on none of the frames"); dead = true; } else if (valid && !edge && good < npar) { c.label("too few pixels"); if (win == 0) c.eq(fl, 128, "flags of a source without enough pixels"); dead = true; } } failed[r] = (fl & (32 | 128)) != 0;
    bool none = failed[r]; if (none) { for (auto n : {"mx", "my", "flux0", "mx_err", "flux0_err", "d1", "d3", "d1_err"}) c.check(std::isnan(F(n)), std::string(n) + " of a source which was not fitted: " + T.text(r, n)); continue; } if (dead) continue;
    if (valid < int(NF) && !edge && iter) { c.label("some frames"); bool p = false; for (size_t i = 0; i < NF; ++i) if (!out[r][i].valid()) { auto n = "flux" + std::to_string(i); bool seen = prior && i == 0; if (!seen) { c.check(std::isnan(at(n)) && std::isnan(at(n + "_err")), n + " of a frame the source is not on: " + T.text(r, n)); p = true; } } if (p) c.check(fl & 64, "no PARTIAL_FIT flag"); } else if (iter && !edge) c.check(!(fl & 64), "PARTIAL_FIT flag of a complete fit");
    // columns
    c.close(F("k1"), F("pixel_centroid_x") + 2 * F("pixel_centroid_y"), 1e-5, 1e-4, "constant parameter"); double want2 = k2 == 0 ? std::max(F("ellipse_a") / 2, 0.01) : k2 == 1 ? F("ellipse_theta") * PI / 180 : k2 == 2 ? std::max(F("ellipse_b") / F("ellipse_a"), 0.01) : std::max(F("isophotal_flux"), 0.0001); c.close(F("k2"), want2, 1e-5, 1e-6, "constant parameter from the source"); c.eq(F("k1_err"), 0.0, "error of a constant"); c.eq(F("k2_err"), 0.0, "error of a constant");
    double x = F("mx"), y = F("my"), f0 = F("flux0"), xe = F("mx_err"), ye = F("my_err"), fe = F("flux0_err");
    c.close(F("d1"), x * y + 3, 1e-12, 0, "dependent parameter"); if (isnum(f0) && f0 > 0) { c.close(F("d2"), -2.5 * std::log10(f0), 1e-12, 1e-12, "dependent parameter"); c.close(F("d3"), F("d1") - F("d2") * 7.25, 1e-12, 1e-12, "dependent of dependents"); }
    if (isnum(xe) && isnum(ye)) { c.close(F("d1_err"), std::hypot(y * xe, x * ye), 1e-4, 1e-9, "error of a dependent parameter"); if (isnum(f0) && f0 > 0 && isnum(fe)) { c.close(F("d2_err"), 2.5 / std::log(10) / f0 * fe, 1e-4, 1e-9, "error of a dependent parameter"); c.close(F("d3_err"), std::hypot(F("d1_err"), 7.25 * F("d2_err")), 1e-4, 1e-9, "error of a dependent of dependents"); } }
    auto all = T.vec(r, "all"), alle = T.vec(r, "all_err"); c.eq(all.size(), size_t(4), "length of a column of several parameters"); auto eqn = [&](double a, double b, const char* m) { if (!(a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) < 1e-9 * std::fabs(b))) c.fail(std::string(m) + ": " + num(a) + " instead of " + num(b)); }; eqn(all[0], x, "vector column"); eqn(all[1], at("flux" + std::to_string(NF - 1)), "vector column"); eqn(all[2], 7.25, "vector column"); eqn(all[3], F("d1"), "vector column"); eqn(alle[0], xe, "vector column of errors"); eqn(alle[2], 0, "vector column of errors"); eqn(alle[3], F("d1_err"), "vector column of errors");
    // ranges and priors
    double px = F("pixel_centroid_x"), py = F("pixel_centroid_y"); c.check(std::fabs(x - px) <= half + 1e-3 && std::fabs(y - py) <= half + 1e-3, "position outside of its range: " + num(x) + "," + num(y) + " for " + num(px) + "," + num(py)); double iso = std::max(F("isophotal_flux"), 0.0001); if (bounded) for (size_t i = 0; i < NF; ++i) { double v = at("flux" + std::to_string(i)); if (isnum(v)) c.check(v >= iso / fac * (1 - 1e-4) && v <= iso * fac * (1 + 1e-4), "flux outside of its range: " + num(v) + " for " + num(iso)); } if (s.kind != POINT) c.check(F("mq") >= 0.05 - 1e-9 && F("mq") <= 5 + 1e-9, "aspect ratio outside of its range"); for (auto n : {"mx_err", "my_err", "flux0_err"}) c.check(!(F(n) < 0), "negative error");
    if (prior && single && F("fmf_stop_reason") == 0 && F("fmf_iterations") > 3) { c.label("prior"); c.close(f0, iso * pm, 0.02, 0, "flux with a narrow prior"); if (pinned) { c.label("position prior"); c.close(x, px, 0, 0.01, "position with a narrow prior"); } }
    // counters
    auto cm = T.vec(r, "fmf_chi2_per_meta"), im = T.vec(r, "fmf_iterations_per_meta"); int mi = int(F("fmf_meta_iterations")); if (iter) { c.eq(cm.size(), size_t(metas), "chi2 per meta iteration"); c.eq(im.size(), size_t(metas), "iterations per meta iteration"); c.check(mi >= 1 && mi <= metas, "meta iterations"); } else { c.eq(mi, 1, "meta iterations"); c.eq(cm.size(), size_t(1), "chi2 per meta iteration"); } double sum = 0; for (double v : im) sum += v; c.eq(sum, F("fmf_iterations"), "iterations do not add up"); double x2 = F("fmf_reduced_chi_2"); if (isnum(x2)) { c.close(cm[size_t(mi - 1)], x2, 1e-5, 1e-9, "last chi2"); c.check(x2 >= 0 || good < npar, "negative chi2"); } for (size_t i = size_t(mi); i < im.size(); ++i) c.check(im[i] == 0 && cm[i] == 0, "entries beyond the last meta iteration"); }
  if (!images) return;
  bool clean = true; for (size_t r = 0; r < R; ++r) clean = clean && !failed[r];
  for (size_t i = 0; i < NF; ++i) { const Frame& f = s.fr[i]; auto mf = frameFile(d, "model", i), rf = frameFile(d, "res", i), wf = frameFile(d, "win", i); bool any = false; for (size_t r = 0; r < R; ++r) any = any || (in[r][i].valid() && !failed[r]); if (any) c.check(!mf.empty() && !rf.empty(), "no model or residual image of frame " + std::to_string(i)); if (mf.empty()) continue; Img M = readFits(mf), S = readFits(rf); c.check(M.w == f.w && M.h == f.h && S.w == f.w && S.h == f.h, "size of the model and residual image");
    double top = 0; for (size_t j = 0; j < M.d.size(); ++j) { c.check(isnum(M.d[j]), "model image of frame " + std::to_string(i) + " is not a number at " + std::to_string(j % size_t(f.w)) + "," + std::to_string(j / size_t(f.w))); top = std::max(top, std::fabs(M.d[j])); double res = f.img.d[j] - M.d[j]; if (!(std::fabs(S.d[j] - res) <= 1e-5 * (std::fabs(f.img.d[j]) + std::fabs(M.d[j])) + 1e-6)) c.fail("residual image at " + std::to_string(j % size_t(f.w)) + "," + std::to_string(j / size_t(f.w)) + ": " + num(S.d[j]) + " instead of " + num(res)); }
    if (!iter) continue; bool sq = win != 0 && win != 7; if (sq) continue; c.label("model image compared");
    // outside of all windows there is nothing, within them the models
    Img want(f.w, f.h), tol(f.w, f.h); bool known = true; for (size_t r = 0; r < R && known; ++r) { if (failed[r] || !out[r][i].valid()) continue; Src q; q.x = T.get(r, "mx") - 1; q.y = T.get(r, "my") - 1; double fl = T.get(r, "flux" + std::to_string(i)); if (!isnum(fl) || !isnum(q.x)) { known = false; break; } q.re = q.q = 1; q.th = 0; q.n = 1; if (s.kind != POINT) { q.re = T.get(r, "mr"); q.q = T.get(r, "mq"); q.th = T.get(r, "mth"); if (s.kind == SERSIC) q.n = t.find("n = Free") != std::string::npos ? T.get(r, "mn") : s.src[0].n; if (q.q > 1 || q.re * q.q < 1.3 || q.n > 1.2 || q.n < 0.45 || q.re > std::min(out[r][i].w(), out[r][i].h()) / 6.) { known = false; break; } } Img one(f.w, f.h); draw(one, s.kind, q, fl, f.dx, f.dy, s.sig()); double pk = 0; for (double v : one.d) pk = std::max(pk, std::fabs(v)); double a = std::fabs(fl) / (2 * PI * s.sig() * s.sig() + (s.kind == POINT ? 0 : 5 * q.re * q.re * q.q)); pk = std::max(pk, a); for (int y = 0; y < f.h; ++y) for (int x = 0; x < f.w; ++x) { if (in[r][i].in(x, y)) { want.at(x, y) += one.at(x, y); tol.at(x, y) += (s.kind == POINT ? 0.015 : 0.08) * pk; } else if (out[r][i].in(x, y)) tol.at(x, y) = 1e300; } }
    if (known) { c.label("model image predicted"); for (int y = 0; y < f.h; ++y) for (int x = 0; x < f.w; ++x) if (!(std::fabs(M.at(x, y) - want.at(x, y)) <= tol.at(x, y) + 1e-5 * top)) c.fail("model image of frame " + std::to_string(i) + " at " + std::to_string(x) + "," + std::to_string(y) + ": " + num(M.at(x, y)) + " instead of " + num(want.at(x, y)) + " +- " + num(tol.at(x, y))); }
    // the window image: one for the box, two where a pixel counts
    if (!wf.empty() && clean) { Img W = readFits(wf); c.label("window image"); for (int y = 0; y < f.h; ++y) for (int x = 0; x < f.w; ++x) { int v = 0; bool sure = true; for (size_t r = 0; r < R; ++r) { bool a = in[r][i].valid() && in[r][i].in(x, y), b = out[r][i].valid() && out[r][i].in(x, y); if (a != b) { sure = false; break; } if (a) { bool ok = !(f.sat > 0 && f.img.at(x, y) > f.sat); if (win == 7) { const Rect& u = un[r][i]; double cx = T.get(r, "pixel_centroid_x") - 1 + f.dx, cy = T.get(r, "pixel_centroid_y") - 1 + f.dy; double e = std::pow((x - cx) / (u.w() / 2.), 2) + std::pow((y - cy) / (u.h() / 2.), 2); if (std::fabs(e - 1) < 0.25) { sure = false; break; } ok = ok && e < 1; } v += ok ? 2 : 1; } } if (sure && W.at(x, y) != v) c.fail("fitting window image of frame " + std::to_string(i) + " at " + std::to_string(x) + "," + std::to_string(y) + ": " + num(W.at(x, y)) + " instead of " + std::to_string(v) + [&] { std::string z; for (size_t r = 0; r < R; ++r) z += " [" + std::to_string(out[r][i].x0) + ":" + std::to_string(out[r][i].x1) + "," + std::to_string(out[r][i].y0) + ":" + std::to_string(out[r][i].y1) + " area " + T.text(r, "fmf_fitting_areas_x") + " x " + T.text(r, "fmf_fitting_areas_y") + " box " + T.text(r, "pixel_boundaries_min_x") + " " + T.text(r, "pixel_boundaries_max_x") + "]"; return z; }()); } }
    // the reduced chi squared of a source alone on the only frame
    if (NF == 1 && R == 1 && !failed[0] && win == 0 && in[0][0].w() == out[0][0].w() && in[0][0].h() == out[0][0].h() && T.vec(0, "fmf_fitting_areas_x")[0] == out[0][0].w()) { double x2 = 0; long n = 0; const Rect& b = out[0][0]; for (int y = b.y0; y <= b.y1; ++y) for (int x = b.x0; x <= b.x1; ++x) { double v = f.img.at(x, y), sd = f.rms.at(x, y); if (f.sat > 0 && v > f.sat) continue; double var = sd * sd + (f.gain > 0 && v > 0 ? v / f.gain : 0), e = v - M.at(x, y); x2 += e * e / var; ++n; } c.label("chi2"); c.close(T.get(0, "fmf_reduced_chi_2"), x2 / double(n - npar), 2e-3, 1e-6, "reduced chi squared"); } }
}
// --- alone and in threads, one after the other and again
void again(Case& c) {
  Want k; k.apart = c.s.coin(40); k.maxFrames = 2; k.holes = c.s.coin(30); Scene s = scene(c, k); Dir d, e; store(s, d); Options o = options(c, s, d); bool iter = c.s.coin(70); std::string t = loading(s, d) + "set_engine('gsl')\nset_meta_iterations(4)\n" + position(c) + fluxes(c, s) + shape(c, s) + models(s) + outputs(s); if (!iter) t += "use_iterative_fitting(False)\n"; writeText(d / "conf.py", t); Options p = o; p.set("output-catalog-filename", e / "cat.txt"); p.set("thread-count", c.s.pick({0, 2, 4, 8})); if (c.s.coin(50)) p.set("tile-size", 32); o.set("check-image-model-fitting", d / "model.fits"); p.set("check-image-model-fitting", e / "model.fits");
  go(c, d, o); go(c, e, p); Table A = readTable(d / "cat.txt"), B = readTable(e / "cat.txt"); c.eq(A.rows.size(), B.rows.size(), "number of rows"); if (A.rows.empty()) return; c.nontrivial(); c.label("several rows", A.rows.size() > 1); c.label("threads", p.get("thread-count") != "0"); c.label("iterative", iter); for (size_t r = 0; r < A.rows.size(); ++r) for (auto& n : A.names) if (n != "fmf_duration" && A.text(r, n) != B.text(r, n)) c.fail("row " + std::to_string(r) + " column " + n + ": " + A.text(r, n) + " became " + B.text(r, n));
  for (size_t i = 0; i < s.fr.size(); ++i) { auto a = frameFile(d, "model", i), b = frameFile(e, "model", i); c.check(a.empty() == b.empty(), "model image missing"); if (a.empty()) continue; Img x = readFits(a), y = readFits(b); for (size_t j = 0; j < x.d.size(); ++j) if (!(std::fabs(x.d[j] - y.d[j]) <= 1e-5 * std::fabs(x.d[j]) + 1e-6)) c.fail("model image differs at " + std::to_string(j)); } }
// --- the elliptical window follows the shape of the detection onto turned and rescaled frames
void ellipses(Case& c) {
  int w = c.s.range(44, 64), h = c.s.range(44, 64); double sx = c.s.real(1.6, 3.2), sy = c.s.real(1.1, 1.6), turn = c.s.real(-1.5, 1.5), X = c.s.real(20, w - 21), Y = c.s.real(20, h - 21), scale = c.s.coin(25) ? 3 : c.s.real(1.5, 5); Noise noise(c.s.draw(100000)); Dir d; Img det(w, h); double amp = c.s.logreal(100, 2000); addBlob(det, {X, Y, sx, sy, turn, amp}); for (auto& v : det.d) v += noise.gauss(); det.round32();
  double p = c.s.real(0.15, 0.6) / 3600, ct = c.s.real(-3.1, 3.1), ra = c.s.range(5, 355), de = c.s.range(-70, 70), cx = c.s.range(1, w), cy = c.s.range(1, h); int f = c.s.coin(70) ? -1 : 1; double D[4] = {f * p * std::cos(ct), -p * std::sin(ct), f * p * std::sin(ct), p * std::cos(ct)};
  auto cards = [&](const double* m, double px, double py) { return Cards{cardS("CTYPE1", "RA---TAN"), cardS("CTYPE2", "DEC--TAN"), card("CRVAL1", ra), card("CRVAL2", de), card("CRPIX1", px), card("CRPIX2", py), card("CD1_1", m[0]), card("CD1_2", m[1]), card("CD2_1", m[2]), card("CD2_2", m[3])}; }; writeFits(d / "det.fits", det, cards(D, cx, cy));
  struct Turned { double a[4], tx, ty; int w, h; std::vector<double> masked; }; std::vector<Turned> fr; int n = c.s.range(1, 2); std::string t = "from sourcextractor.config import *\nset_engine('gsl')\nset_max_iterations(20)\nset_meta_iterations(1)\nset_window_type(WindowType.ROTATED_ELLIPSE)\n"; if (scale != 3) t += "set_ellipse_scale(" + num(scale) + ")\n"; scale = std::strtod(num(scale).c_str(), nullptr);
  t += "x=FreeParameter(lambda o:o.centroid_x,Range(lambda v,o:(v-2,v+2),RangeType.LINEAR))\ny=FreeParameter(lambda o:o.centroid_y,Range(lambda v,o:(v-2,v+2),RangeType.LINEAR))\n";
  for (int i = 0; i < n; ++i) { Turned q; double z = c.s.coin(40) ? 1 : c.s.logreal(0.7, 1.5), al = c.s.coin(20) ? 0 : c.s.real(-3.1, 3.1); int mirror = c.s.coin(25) ? -1 : 1; q.a[0] = z * std::cos(al); q.a[1] = -z * std::sin(al) * mirror; q.a[2] = z * std::sin(al); q.a[3] = z * std::cos(al) * mirror; q.w = c.s.range(44, 80); q.h = c.s.range(44, 80); double mx = c.s.coin(70) ? c.s.real(18, q.w - 19) : c.s.real(2, q.w - 3), my = c.s.coin(70) ? c.s.real(18, q.h - 19) : c.s.real(2, q.h - 3); q.tx = mx - q.a[0] * X - q.a[1] * Y; q.ty = my - q.a[2] * X - q.a[3] * Y;
    double det2 = q.a[0] * q.a[3] - q.a[1] * q.a[2], inv[4] = {q.a[3] / det2, -q.a[1] / det2, -q.a[2] / det2, q.a[0] / det2}, M[4] = {D[0] * inv[0] + D[1] * inv[2], D[0] * inv[1] + D[1] * inv[3], D[2] * inv[0] + D[3] * inv[2], D[2] * inv[1] + D[3] * inv[3]}; Img im(q.w, q.h); addBlob(im, {mx, my, 1.5, 1.5, 0, amp}); for (auto& v : im.d) v += noise.gauss(); im.round32(); auto nm = std::to_string(i);
    writeFits(d / "m" + nm + ".fits", im, cards(M, q.a[0] * (cx - 1) + q.a[1] * (cy - 1) + q.tx + 1, q.a[2] * (cx - 1) + q.a[3] * (cy - 1) + q.ty + 1)); writeFits(d / "r" + nm + ".fits", Img(q.w, q.h, 1)); fr.push_back(q);
    t += "L=load_fits_images(['" + (d / "m" + nm) + ".fits'],weights=['" + (d / "r" + nm) + ".fits'],weight_type='rms',weight_absolute=True,weight_threshold=1000,constant_background=0)\nG=MeasurementGroup(L)\nf=FreeParameter(lambda o:o.isophotal_flux,Range(lambda v,o:(v*0.01,v*50),RangeType.EXPONENTIAL))\nadd_model(G,PointSourceModel(x,y,f))\nadd_output_column('flux" + nm + "',f)\n"; }
  writeText(d / "conf.py", t); Options o; o.set("detection-image", d / "det.fits"); o.set("background-value", 0); o.set("weight-type", "none"); o.set("detection-threshold", 6); o.set("detection-minimum-area", 6); o.set("psf-fwhm", 3.5); o.set("psf-pixel-sampling", 1); o.set("python-config-file", d / "conf.py"); o.set("output-catalog-filename", d / "cat.txt"); o.set("output-catalog-format", "ASCII"); o.set("output-properties", "PixelCentroid,ShapeParameters,FlexibleModelFitting"); o.set("check-image-fitting-window", d / "win.fits"); c.note() << n << " frames, scale " << scale << " blob " << sx << "x" << sy << " turned " << turn << "; ";
  go(c, d, o); Table T = readTable(d / "cat.txt"); if (T.rows.size() != 1) { c.label("not one detection"); return; } double ea = T.get(0, "ellipse_a"), eb = T.get(0, "ellipse_b"), th = T.get(0, "ellipse_theta") * PI / 180, px = T.get(0, "pixel_centroid_x") - 1, py = T.get(0, "pixel_centroid_y") - 1; auto ax = T.vec(0, "fmf_fitting_areas_x"), ay = T.vec(0, "fmf_fitting_areas_y"); c.eq(ax.size(), fr.size(), "number of areas"); c.nontrivial(); c.label("elongated", ea > 1.4 * eb);
  for (size_t i = 0; i < fr.size(); ++i) { const Turned& q = fr[i]; auto file = frameFile(d, "win", i); c.check(!file.empty(), "no window image of frame " + std::to_string(i)); Img W = readFits(file); double mx = q.a[0] * px + q.a[1] * py + q.tx, my = q.a[2] * px + q.a[3] * py + q.ty, z = std::sqrt(std::fabs(q.a[0] * q.a[3] - q.a[1] * q.a[2])), ux = (q.a[0] * std::cos(th) + q.a[1] * std::sin(th)) / z, uy = (q.a[2] * std::cos(th) + q.a[3] * std::sin(th)) / z, A = ea * z * scale, B = eb * z * scale, hw = std::hypot(A * ux, B * uy) + 1, hh = std::hypot(A * uy, B * ux) + 1; long sure = 0;
    for (int y = 0; y < q.h; ++y) for (int x = 0; x < q.w; ++x) { double u = (x - mx) * ux + (y - my) * uy, v = -(x - mx) * uy + (y - my) * ux, e = std::pow(u / A, 2) + std::pow(v / B, 2); if (std::fabs(e - 1) < 0.02) continue; double got = W.at(x, y); if (e < 1) ++sure; if ((e < 1) != (got == 2)) c.fail("frame " + std::to_string(i) + " pixel " + std::to_string(x) + "," + std::to_string(y) + " is " + (e < 1 ? "in" : "out of") + " the ellipse (" + num(e) + "), but the window image has " + num(got) + " there"); if ((std::fabs(x - mx) > hw + 1 || std::fabs(y - my) > hh + 1) && got != 0) c.fail("frame " + std::to_string(i) + " pixel " + std::to_string(x) + "," + std::to_string(y) + " is outside of the area, but the window image has " + num(got)); }
    double wx = std::min(q.w - 1., mx + hw) - std::max(0., mx - hw) + 1, wy = std::min(q.h - 1., my + hh) - std::max(0., my - hh) + 1; c.check(std::fabs(ax[i] - wx) <= 1.5 && std::fabs(ay[i] - wy) <= 1.5, "fitting area of frame " + std::to_string(i) + " " + num(ax[i]) + "x" + num(ay[i]) + " instead of about " + num(wx) + "x" + num(wy)); c.label("ellipse pixels", sure > 20); }
}
}
PBT_MAIN({"recover", "every source was detected", recover, 300, 6000}, {"identities", "a source was detected", identities, 300, 6000}, {"again", "a source was detected", again, 120, 2400}, {"ellipses", "one source was detected and fitted in its ellipse", ellipses, 120, 2500})
