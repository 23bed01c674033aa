// A whole run of the program
// SRCS: @program
// FLAGS: @python -I@REPO -DWITHOUT_NCURSES -DVDIR=@V
// LIBS: -lcfitsio -lwcs -lboost_program_options -lboost_regex -lboost_filesystem -lboost_system -lboost_locale -lboost_python312 -lpython3.12 -lpthread
// SAN: none
#include "program.h"
using namespace pbt; using namespace program;
namespace {
const char* ALL_PROPS[] = {"SourceIDs", "PixelCentroid", "WorldCentroid", "PixelBoundaries", "NDetectedPixels", "PeakValue", "ShapeParameters", "IsophotalFlux", "ErrorEllipse", "SNRRatio", "AutoPhotometry", "KronRadius", "FluxRadius", "GrowthCurve", "Vignet", "SourceFlags", "GroupStamp", "GroupInfo", "HduNumber"};
std::string join(const std::vector<std::string>& v, const std::string& sep = ",") { std::string r; for (auto& s : v) r += (r.empty() ? "" : sep) + s; return r; }
struct Scene { Img img; std::vector<Img> flags; Img weight; std::string wtype = "none"; Options o; std::string script; std::vector<std::string> props; int blobs = 0; Cards wcs; bool cf = false; double level = 0; bool moffat = false, grouped = false; };
Cards tan(Case& c, int w, int h) { double s = c.s.real(0.1, 1) / 3600, t = c.s.real(-3.1, 3.1); double f = c.s.coin(70) ? -1 : 1; return {cardS("CTYPE1", "RA---TAN"), cardS("CTYPE2", "DEC--TAN"), card("CRVAL1", c.s.real(1, 359)), card("CRVAL2", c.s.real(-80, 80)), card("CRPIX1", c.s.real(0, w)), card("CRPIX2", c.s.real(0, h)), card("CD1_1", f * s * std::cos(t)), card("CD1_2", -s * std::sin(t)), card("CD2_1", f * s * std::sin(t)), card("CD2_2", s * std::cos(t))}; }
Blob blob(Case& c, int w, int h, double amp) { Blob b; b.x = c.s.real(-2, w + 1); b.y = c.s.real(-2, h + 1); b.a = c.s.real(0.8, 4); b.b = b.a * c.s.real(0.4, 1); b.th = c.s.real(-1.5, 1.5); b.f = amp; return b; }
// A field of blobs on noise of standard deviation 1, with options of every part of the program.
Scene scene(Case& c, bool rich = true) {
  Scene s; int w = c.s.range(20, 90), h = c.s.range(20, 90); s.img = Img(w, h); s.level = c.s.coin(60) ? c.s.real(-50, 500) : 0; Noise n(c.s.draw(100000)); bool noisy = c.s.coin(80); for (auto& v : s.img.d) v = s.level + (noisy ? n.gauss() : 0.2 * n.gauss());
  s.blobs = c.s.range(0, 9); std::vector<Blob> bs; for (int i = 0; i < s.blobs; ++i) { Blob b = blob(c, w, h, c.s.logreal(4, 800)); if (!bs.empty() && c.s.coin(35)) { b.x = bs.back().x + c.s.real(-12, 12); b.y = bs.back().y + c.s.real(-12, 12); } bs.push_back(b); addBlob(s.img, b); } s.img.round32();
  if (c.s.coin(60)) s.wcs = tan(c, w, h);
  auto& o = s.o; o.set("detection-threshold", c.s.real(1.2, 6)); o.set("detection-minimum-area", c.s.range(1, 9));
  int wt = c.s.pick({0, 0, 1, 2, 3, 4}); s.wtype = wt == 0 ? "none" : wt == 1 ? "background" : wt == 2 ? "rms" : wt == 3 ? "variance" : "weight";
  if (wt >= 2) { s.weight = Img(w, h); double base = c.s.coin(60) ? 1 : c.s.real(0.5, 3); int bad = c.s.pick({0, 0, 1, 3, 20}); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double r = base * (1 + 0.3 * std::sin(x * 0.07) * std::cos(y * 0.05)); s.weight.at(x, y) = wt == 2 ? r : wt == 3 ? r * r : 1 / (r * r); } for (int i = 0; i < bad; ++i) { int x = c.s.range(0, w - 1), y = c.s.range(0, h - 1); s.weight.at(x, y) = wt == 2 ? 1e4 : wt == 3 ? 1e8 : 0; } s.weight.round32();
    o.set("weight-type", s.wtype); if (c.s.coin(60)) o.set("weight-absolute", "true"); if (bad && c.s.coin(70)) o.set("weight-threshold", wt == 2 ? "100" : wt == 3 ? "10000" : "0.0001"); o.set("weight-use-symmetry", c.s.coin(50) ? "true" : "false"); }
  else if (wt == 1) o.set("weight-type", "background");
  if (c.s.coin(30)) o.set("background-value", s.level); if (c.s.coin(50)) o.set("background-cell-size", c.s.range(16, 64)); if (c.s.coin(30)) o.set("smoothing-box-size", c.s.pick({0, 1, 3, 5}));
  if (c.s.coin(40)) o.set("segmentation-use-filtering", "false"); if (c.s.coin(15)) { o.set("segmentation-algorithm", "BFS"); } else if (c.s.coin(20)) o.set("segmentation-lutz-window-size", c.s.range(30, 90));
  if (c.s.coin(40)) o.set("partition-multithreshold", "false"); else { o.set("partition-threshold-count", c.s.range(2, 40)); o.set("partition-minimum-area", c.s.range(1, 8)); o.set("partition-minimum-contrast", c.s.pick({0.0001, 0.005, 0.05})); }
  if (c.s.coin(20)) o.set("use-attractors-partition", "true"); if (c.s.coin(25)) { o.set("use-cleaning", "true"); o.set("cleaning-minimum-area", c.s.range(1, 6)); }
  if (c.s.coin(20)) { o.set("core-threshold-value", c.s.real(1, 20)); o.set("core-minimum-area", c.s.range(1, 5)); s.props.push_back("NCorePixel"); }
  { const char* g[] = {"NONE", "OVERLAP", "SPLIT", "MOFFAT"}; int i = c.s.pick({2, 2, 1, 0, 3}); o.set("grouping-algorithm", g[i]); s.grouped = i; if (i == 3) { o.set("grouping-moffat-threshold", c.s.logreal(0.001, 0.5)); o.set("grouping-moffat-max-distance", c.s.range(3, 60)); } if (i && c.s.coin(20)) o.set("grouping-hard-limit", c.s.range(1, 4)); s.moffat = i == 3; }
  if (c.s.coin(50)) o.set("detection-image-gain", c.s.pick({0.0, 1.0, 4.5, 100.0})); if (c.s.coin(30)) o.set("detection-image-saturation", s.level + c.s.real(20, 400)); if (c.s.coin(15)) o.set("detection-image-flux-scale", c.s.pick({0.5, 2.0, 8.0, 0.3}));
  if (c.s.coin(30)) o.set("detection-image-interpolation", "false"); else if (c.s.coin(30)) o.set("detection-image-interpolation-gap", c.s.range(0, 8));
  if (c.s.coin(50)) o.set("magnitude-zero-point", c.s.real(-5, 30)); if (c.s.coin(40)) o.set("auto-kron-factor", c.s.real(1, 4)); if (c.s.coin(40)) o.set("auto-kron-min-radius", c.s.real(1, 5));
  if (c.s.coin(50)) o.set("vignet-size", std::to_string(c.s.range(1, 9)) + "," + std::to_string(c.s.range(1, 9))); else o.set("vignet-size", "3,3"); if (c.s.coin(40)) o.set("vignet-default-pixval", c.s.pick({0.0, -1e3})); o.set("flux-growth-samples", c.s.range(2, 10)); if (c.s.coin(50)) o.set("flux-fraction", c.s.pick({0, 1}) ? "0.2,0.5,0.8" : "0.3");
  for (auto* p : ALL_PROPS) s.props.push_back(p);
  if (rich && c.s.coin(25)) { Img f(w, h); int k = c.s.range(0, 5); for (int i = 0; i < k; ++i) { int x0 = c.s.range(0, w - 1), y0 = c.s.range(0, h - 1), v = c.s.range(1, 255); for (int y = y0; y < std::min(h, y0 + 12); ++y) for (int x = x0; x < std::min(w, x0 + 12); ++x) f.at(x, y) = v; } s.flags.push_back(f); const char* t[] = {"OR", "AND", "MIN", "MAX", "MOST"}; o.set("flag-type-1", t[c.s.range(0, 4)]); s.props.push_back("ExternalFlags"); }
  if (rich && c.s.coin(10) && s.blobs < 5) { s.props.push_back("MoffatModelFitting"); s.moffat = true; }
  return s; }
// Measurement images given in Python: the detection image again, with apertures
std::string script(Case& c, Scene& s, const std::string& img, const std::string& wgt) {
  std::string t = "from sourcextractor.config import *\n"; std::vector<std::string> kw; if (s.wtype != "none") kw.push_back("weight_type='" + s.wtype + "'"); if (!s.weight.d.empty() && s.o.get("weight-absolute") == "true") kw.push_back("weight_absolute=True"); if (s.o.has("weight-threshold")) kw.push_back("weight_threshold=" + s.o.get("weight-threshold"));
  t += "top = load_fits_images(['" + img + "']" + (s.weight.d.empty() ? "" : ", weights=['" + wgt + "']") + (kw.empty() ? "" : ", " + join(kw, ", ")) + ")\nmg = MeasurementGroup(top)\n";
  std::vector<std::string> d; int n = c.s.range(1, 3); for (int i = 0; i < n; ++i) d.push_back(num(c.s.real(1, 15)));
  t += "a = []\nfor img in mg:\n    a.extend(add_aperture_photometry(img, [" + join(d) + "]))\nadd_output_column('aper', a)\n"; s.props.push_back("AperturePhotometry"); return t; }
void store(const Scene& s, const Dir& d, const Options&) { writeFits(d / "img.fits", s.img, s.wcs); if (!s.weight.d.empty()) writeFits(d / "wgt.fits", s.weight); for (size_t i = 0; i < s.flags.size(); ++i) writeFits(d / "flag" + std::to_string(i + 1) + ".fits", s.flags[i], {}, 32); if (!s.script.empty()) writeText(d / "conf.py", s.script); }
Options files(const Scene& s, const Dir& d) { Options o = s.o; o.set("detection-image", d / "img.fits"); if (!s.weight.d.empty()) o.set("weight-image", d / "wgt.fits"); for (size_t i = 0; i < s.flags.size(); ++i) o.set("flag-image-" + std::to_string(i + 1), d / "flag" + std::to_string(i + 1) + ".fits"); if (!s.script.empty()) o.set("python-config-file", d / "conf.py"); o.set("output-properties", join(s.props)); return o; }
Options plain(Options o, const Dir& d) { o.set("output-catalog-filename", d / "cat.txt"); o.set("output-catalog-format", "ASCII"); o.set("thread-count", "0"); return o; }
Ran go(Case& c, const Dir& d, const Args& a, const char* what) { Ran r = run(d.path, a); if (r.status != 0 && getenv("P33_KEEP")) { std::string l; for (auto& x : a) l += " " + x; c.note() << l; } if (r.status != 0) c.fail(std::string(what) + ": the program ended with status " + std::to_string(r.status) + "\n" + tail(r.log)); return r; }
// Two catalogues, row by row
void compare(Case& c, const Table& a, const Table& b, const std::set<std::string>& skip, bool ordered, const char* what) {
  auto na = a.names, nb = b.names; c.check(std::set<std::string>(na.begin(), na.end()) == std::set<std::string>(nb.begin(), nb.end()), std::string(what) + ": other columns"); c.check(a.rows.size() == b.rows.size(), std::string(what) + ": " + std::to_string(a.rows.size()) + " rows became " + std::to_string(b.rows.size()));
  std::vector<size_t> order(b.rows.size()); for (size_t i = 0; i < order.size(); ++i) order[i] = i; if (!ordered) std::sort(order.begin(), order.end(), [&](size_t x, size_t y) { return b.get(x, "source_id") < b.get(y, "source_id"); });
  for (size_t i = 0; i < a.rows.size(); ++i) for (auto& n : na) if (!skip.count(n) && a.text(i, n) != b.text(order[i], n)) c.fail(std::string(what) + ": row " + std::to_string(i) + " column " + n + ": " + a.text(i, n).substr(0, 200) + " became " + b.text(order[i], n).substr(0, 200)); }
const char* CHECKS[] = {"background", "variance", "segmentation", "partition", "filtered", "thresholded", "snr", "auto-aperture"};
// The same request under another organisation of the work
void same(Case& c) {
  Scene s = scene(c); Dir d, e; if (c.s.coin(50)) s.script = script(c, s, d / "img.fits", d / "wgt.fits"); store(s, d, s.o); Options a = plain(files(s, d), d); std::vector<std::string> chk; if (c.s.coin(40)) { for (auto* k : CHECKS) if (c.s.coin(50)) chk.push_back(k); } for (auto& k : chk) a.set("check-image-" + k, d / k + ".fits");
  Options b = a; std::set<std::string> skip; std::vector<std::string> did; bool ordered = true; b.set("output-catalog-filename", e / "cat.txt"); for (auto& k : chk) b.set("check-image-" + k, e / k + ".fits");
  bool bfs = b.has("segmentation-algorithm"); if (!bfs && c.s.coin(50)) { b.set("tile-size", c.s.pick({1, 7, 16, 32, 64, 100})); did.push_back("tiles"); } if (c.s.coin(30)) { b.set("tile-memory-limit", c.s.pick({1, 2})); if (!bfs && !b.has("tile-size")) b.set("tile-size", 64); did.push_back("memory"); }
  bool threads = c.s.coin(50); if (threads) { b.set("thread-count", c.s.pick({1, 2, 3, 8, -1})); if (c.s.coin(60)) b.set("thread-max-queue-size", c.s.pick({1, 2, 5, 100})); did.push_back("threads"); }
  if (c.s.coin(40)) { b.set("output-flush-size", c.s.pick({0, 1, 2, 3, 7})); did.push_back("flush"); } if (c.s.coin(25)) { b.set("output-flush-sorted", "false"); ordered = false; did.push_back("unsorted"); }
  if (c.s.coin(30)) { auto p = s.props; for (size_t i = 1; i < p.size(); ++i) std::swap(p[i], p[c.s.draw(i)]); b.set("output-properties", join(p)); did.push_back("order"); }
  int fmt = c.s.pick({0, 0, 1, 2}); if (fmt == 1) { b.set("output-catalog-format", c.s.coin(50) ? "ASCII" : "ascii"); b.erase("output-catalog-filename"); did.push_back("stdout"); }
  bool plainLine = false; Args la = a.line(), lb; if (c.s.coin(50)) { std::string t; for (auto& p : b.v) if (c.s.coin(60)) t += p.first + (c.s.coin(50) ? " = " : "=") + p.second + "\n"; else { if (c.s.coin(50)) lb.push_back("--" + p.first + "=" + p.second); else { lb.push_back("--" + p.first); lb.push_back(p.second); } } writeText(e / "conf.txt", t + "# the end\n"); lb.push_back("--config-file"); lb.push_back(e / "conf.txt"); did.push_back("file"); } else { lb = b.line(); plainLine = true; }
  if (plainLine && c.s.coin(20)) { Dir f; Ran r = go(c, f, {"--dump-default-config"}, "default configuration"); writeText(e / "defaults.txt", r.log); lb.push_back("--config-file"); lb.push_back(e / "defaults.txt"); did.push_back("defaults"); }
  if (did.empty()) c.discard(); for (auto& x : lb) c.note() << x << " ";
  go(c, d, la, "first run"); go(c, e, lb, "second run"); Table ta = readTable(d / "cat.txt"), tb = fmt == 1 ? readTable(e / "log") : readTable(e / "cat.txt");
  for (auto& k : did) c.label(k.c_str()); c.label("rows", !ta.rows.empty()); c.label("several rows", ta.rows.size() > 2); c.label("script", !s.script.empty()); c.label("check images", !chk.empty());
  if (!ta.rows.empty()) c.nontrivial();
  if (ta.rows.empty() || tb.rows.empty()) c.eq(ta.rows.size(), tb.rows.size(), "number of rows"); else compare(c, ta, tb, skip, ordered, join(did, "+").c_str());
  for (auto& k : chk) { Img x = readFits(d / k + ".fits"), y = readFits(e / k + ".fits"); c.check(x.w == y.w && x.h == y.h && x.w == s.img.w, "check image " + k + ": size"); if (!ordered && k == "partition") continue; bool drawn = threads && k == "auto-aperture"; /* the last one to be measured wins where ellipses overlap */ for (size_t i = 0; i < x.d.size(); ++i) if (drawn ? (x.d[i] != 0) != (y.d[i] != 0) : std::memcmp(&x.d[i], &y.d[i], 8) != 0) c.fail("check image " + k + " differs at pixel " + std::to_string(i % size_t(x.w)) + "," + std::to_string(i / size_t(x.w)) + ": " + num(x.d[i]) + " became " + num(y.d[i])); }
}
// --- every column against a reference written from the definitions, in a setting where detection is a matter of counting
struct Frame { Img raw, sub, var; double gain = 0, sat = 0, bg = 0, scale = 1, dx = 0, dy = 0; };
struct Bracket { double lo = 0, hi = 0, mag = 0; void add(double alo, double ahi, double v) { lo += std::min(alo * v, ahi * v); hi += std::max(alo * v, ahi * v); mag += ahi * std::fabs(v); } bool holds(double got, double rel = 2e-5) const { double t = rel * mag + 1e-6; return got >= lo - t && got <= hi + t; } std::string str() const { return num(lo) + " to " + num(hi); } };
double circle(double r, double dx, double dy) { if (r <= 0) return 0; double far = std::hypot(std::fabs(dx) + 0.71, std::fabs(dy) + 0.71); if (far < r) return 1; int n = 0; for (int i = 0; i < 10; ++i) for (int j = 0; j < 10; ++j) { double x = dx + (i - 5) / 10., y = dy + (j - 5) / 10.; n += x * x + y * y < r * r; } return n / 100.; }
Bracket inCircle(const Img& im, double X, double Y, double r, bool var = false) { Bracket b; for (int y = std::max(0, int(Y - r) - 2); y <= std::min(im.h - 1, int(Y + r) + 2); ++y) for (int x = std::max(0, int(X - r) - 2); x <= std::min(im.w - 1, int(X + r) + 2); ++x) b.add(circle(r * (1 - 3e-5) - 2e-4, x - X, y - Y), circle(r * (1 + 3e-5) + 2e-4, x - X, y - Y), im.at(x, y)); return b; }
void columns(Case& c) {
  int w = c.s.range(20, 70), h = c.s.range(20, 70); Options o; std::vector<Frame> fs; Dir d; double thr = c.s.real(1.5, 6), level = c.s.coin(60) ? c.s.real(-20, 100) : 0, zp = c.s.real(-5, 30); int minArea = c.s.range(1, 6);
  Frame det; det.raw = Img(w, h, level); Noise n(c.s.draw(100000)); for (auto& v : det.raw.d) v += n.gauss(); int nb = c.s.range(1, 6); std::vector<Blob> bs; for (int i = 0; i < nb; ++i) { bs.push_back(blob(c, w, h, c.s.logreal(10, 500))); addBlob(det.raw, bs.back()); } det.raw.round32(); bool varying = c.s.coin(60); int wt = c.s.range(2, 4); Img weight(w, h); double base = c.s.real(0.6, 2); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double r = base * (1 + (varying ? 0.3 * std::sin(x * 0.11) * std::cos(y * 0.07) : 0)); weight.at(x, y) = wt == 2 ? r : wt == 3 ? r * r : 1 / (r * r); } weight.round32(); det.var = weight; for (auto& v : det.var.d) v = wt == 2 ? v * v : wt == 3 ? v : 1 / v;
  det.bg = level; det.gain = c.s.pick({0.0, 0.0, 3.0, 50.0}); det.sat = c.s.coin(50) ? level + c.s.real(10, 300) : 0; det.sub = det.raw; for (auto& v : det.sub.d) v -= level;
  const char* wn[] = {"", "", "rms", "variance", "weight"}; Cards wcs; bool sky = c.s.coin(70); if (sky) wcs = tan(c, w, h); writeFits(d / "img.fits", det.raw, wcs); writeFits(d / "wgt.fits", weight);
  o.set("detection-image", d / "img.fits"); o.set("weight-image", d / "wgt.fits"); o.set("weight-type", wn[wt]); o.set("weight-absolute", "true"); o.set("background-value", level); o.set("detection-threshold", thr); o.set("detection-minimum-area", minArea); o.set("segmentation-use-filtering", "false"); o.set("partition-multithreshold", "false"); o.set("magnitude-zero-point", zp); if (det.gain) o.set("detection-image-gain", det.gain); if (det.sat) o.set("detection-image-saturation", det.sat); const char* grp[] = {"NONE", "SPLIT"}; bool none = c.s.coin(50); o.set("grouping-algorithm", grp[!none]);
  double kf = c.s.real(1, 3.5), km = c.s.real(1, 5); o.set("auto-kron-factor", kf); o.set("auto-kron-min-radius", km); int vw = c.s.range(1, 8), vh = c.s.range(1, 8); o.set("vignet-size", std::to_string(vw) + "," + std::to_string(vh)); double pixval = c.s.pick({0.0, -1000.0}); o.set("vignet-default-pixval", pixval); int samples = c.s.range(2, 9); o.set("flux-growth-samples", samples); std::vector<double> frac{c.s.pick({0.5, 0.2, 0.9})}; if (c.s.coin(50)) frac.push_back(0.75); { std::vector<std::string> t; for (double f : frac) t.push_back(num(f)); o.set("flux-fraction", join(t)); }
  std::vector<double> ap; std::vector<std::string> props(std::begin(ALL_PROPS), std::end(ALL_PROPS)); bool script = c.s.coin(65);
  if (script) { int k = c.s.range(1, 3); std::string t = "from sourcextractor.config import *\nimgs = []\n"; for (int i = 0; i < k; ++i) { Frame f; f.scale = c.s.coin(30) ? c.s.pick({2.0, 0.25, 1.7}) : 1; f.bg = f.scale == 1 && c.s.coin(70) ? c.s.real(-10, 40) : 0; f.gain = c.s.pick({0.0, 2.0, 30.0}); f.sat = c.s.coin(40) ? f.bg + c.s.real(10, 300) : 0; if (sky) { f.dx = c.s.range(-6, 6) + c.s.real(0.1, 0.9); f.dy = c.s.range(-6, 6) + c.s.real(0.1, 0.9); } int fw = sky ? std::max(8, int(w + c.s.range(-10, 10))) : w, fh = sky ? std::max(8, int(h + c.s.range(-10, 10))) : h; f.raw = Img(fw, fh, f.bg); for (auto& v : f.raw.d) v += n.gauss(); double mul = c.s.real(0.3, 2); for (auto b : bs) { b.x += f.dx; b.y += f.dy; b.f *= mul; addBlob(f.raw, b); } f.raw.round32(); f.var = Img(fw, fh); double r0 = c.s.real(0.5, 2); for (int y = 0; y < fh; ++y) for (int x = 0; x < fw; ++x) f.var.at(x, y) = r0 * (1.2 + std::sin(x * 0.2 + y * 0.1)); f.var.round32();
      std::string nm = "m" + std::to_string(i); Cards wc = wcs; if (sky) { double p1 = std::atof(wc[4].c_str() + 10) + f.dx, p2 = std::atof(wc[5].c_str() + 10) + f.dy; wc[4] = card("CRPIX1", p1); wc[5] = card("CRPIX2", p2); } writeFits(d / nm + ".fits", f.raw, wc); writeFits(d / nm + "w.fits", f.var);
      t += "imgs.extend(load_fits_image('" + d / nm + ".fits', weight='" + d / nm + "w.fits', weight_type='variance', weight_absolute=True, constant_background=" + num(f.bg) + ", gain=" + num(f.gain) + ", saturation=" + num(f.sat) + ", flux_scale=" + num(f.scale) + "))\n";
      f.sub = f.raw; for (auto& v : f.raw.d) v *= f.scale; for (auto& v : f.sub.d) v = v * f.scale - f.bg; for (auto& v : f.var.d) v *= f.scale * f.scale; f.gain /= f.scale; f.sat *= f.scale; fs.push_back(f); }
    int na = c.s.range(1, 3); std::vector<std::string> ds; for (int i = 0; i < na; ++i) { ap.push_back(c.s.real(1, 14)); ds.push_back(num(ap.back())); } t += "mg = MeasurementGroup(ImageGroup(images=imgs))\na = []\nfor img in mg:\n    a.extend(add_aperture_photometry(img, [" + join(ds) + "]))\nadd_output_column('aper', a)\n"; writeText(d / "conf.py", t); o.set("python-config-file", d / "conf.py"); props.push_back("AperturePhotometry"); }
  else { Frame f = det; fs.push_back(f); o.set("check-image-measurement-background", d / "mbg.fits"); }
  Img flagIm; bool ext = c.s.coin(40); int ft = c.s.range(0, 3); if (ext) { flagIm = Img(w, h); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) flagIm.at(x, y) = (x / 3 + y / 4) % 5 == 0 ? 1 << ((x / 7 + y / 5) % 6) : 0; writeFits(d / "flag.fits", flagIm, {}, 32); o.set("flag-image-x", d / "flag.fits"); const char* t[] = {"OR", "AND", "MIN", "MAX"}; o.set("flag-type-x", t[ft]); props.push_back("ExternalFlags"); }
  o.set("output-properties", join(props)); o.set("check-image-segmentation", d / "seg.fits"); o.set("check-image-partition", d / "part.fits"); o = plain(o, d); if (c.s.coin(40)) o.set("thread-count", c.s.range(1, 4)); for (auto& p : o.v) if (p.first != "output-properties") c.note() << p.first << "=" << p.second << " ";
  go(c, d, o.line(), "run"); Table t = readTable(d / "cat.txt"); Img seg = readFits(d / "seg.fits"), part = readFits(d / "part.fits"); if (!script) { Img b = readFits(d / "mbg_img_1.fits"); c.check(b.w == w && b.h == h, "no check image of the measurement background"); for (size_t i = 0; i < b.d.size(); ++i) fs[0].sub.d[i] = fs[0].raw.d[i] - b.d[i]; fs[0].bg = b.d[0]; }
  // detection: eight-connected pixels above the threshold; a pixel too close to it to call makes the case void
  std::vector<int> lab(size_t(w) * h, 0); std::vector<char> on(lab.size()); for (size_t i = 0; i < on.size(); ++i) { double m = det.sub.d[i] - thr * std::sqrt(det.var.d[i]); if (std::fabs(m) < 1e-4 * (1 + std::fabs(level))) c.discard(); on[i] = m > 0; } std::vector<std::vector<std::pair<int, int>>> comp; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (on[size_t(y) * w + x] && !lab[size_t(y) * w + x]) { std::vector<std::pair<int, int>> q{{x, y}}; int id = int(comp.size()) + 1; lab[size_t(y) * w + x] = id; for (size_t i = 0; i < q.size(); ++i) for (int b = -1; b < 2; ++b) for (int a = -1; a < 2; ++a) { int u = q[i].first + a, v = q[i].second + b; if (u >= 0 && v >= 0 && u < w && v < h && on[size_t(v) * w + u] && !lab[size_t(v) * w + u]) { lab[size_t(v) * w + u] = id; q.push_back({u, v}); } } comp.push_back(q); }
  size_t want = 0; for (auto& q : comp) want += int(q.size()) >= minArea; c.eq(t.rows.size(), want, "number of sources"); c.label("sources", want > 0); c.label("several sources", want > 1); c.label("script", script); c.label("flags", ext); c.label("sky", sky); if (want) c.nontrivial(); std::set<int> ids; auto sq = [](double v) { return v * v; };
  for (size_t r = 0; r < t.rows.size(); ++r) {
    auto get = [&](const char* k) { return t.get(r, k); }; auto close = [&](double got, double w0, double rel, double abs, const std::string& what) { c.close(got, w0, rel, abs, "row " + std::to_string(r) + " " + what); }; auto eq = [&](double got, double w0, const std::string& what) { if (got != w0) c.fail("row " + std::to_string(r) + " " + what + ": " + num(got) + " instead of " + num(w0)); };
    eq(get("source_id"), double(r + 1), "source_id"); int px = int(get("peak_value_x")) - 1, py = int(get("peak_value_y")) - 1; c.check(px >= 0 && py >= 0 && px < w && py < h && lab[size_t(py) * w + px] > 0, "the peak is not on a detected pixel"); int id = lab[size_t(py) * w + px]; c.check(ids.insert(id).second, "two rows for one object"); auto& q = comp[size_t(id - 1)]; int N = int(q.size()); c.check(N >= minArea, "a row for an object which is too small");
    double flux = 0, var = 0, mag = 0, cx = 0, cy = 0, mx = -1e30; int x0 = w, x1 = -1, y0 = h, y1 = -1; for (auto& p : q) { double v = det.sub.at(p.first, p.second); flux += v; mag += std::fabs(v); var += det.var.at(p.first, p.second); cx += v * p.first; cy += v * p.second; mx = std::max(mx, v); x0 = std::min(x0, p.first); x1 = std::max(x1, p.first); y0 = std::min(y0, p.second); y1 = std::max(y1, p.second); eq(seg.at(p.first, p.second), get("detection_id"), "segmentation image"); eq(part.at(p.first, p.second), get("source_id"), "partition image"); } cx /= flux; cy /= flux; double fe = 1e-6 * (std::fabs(level) + 1) * N; double err = std::sqrt(var + (det.gain > 0 ? flux / det.gain : 0));
    eq(get("n_detected_pixels"), N, "n_detected_pixels"); eq(get("area"), N, "area"); eq(get("pixel_boundaries_min_x"), x0, "min x"); eq(get("pixel_boundaries_max_x"), x1, "max x"); eq(get("pixel_boundaries_min_y"), y0, "min y"); eq(get("pixel_boundaries_max_y"), y1, "max y"); eq(get("hdu_number"), 0, "hdu_number"); close(get("peak_value"), mx, 1e-5, 1e-5 * std::fabs(level) + 1e-5, "peak_value"); close(det.sub.at(px, py), mx, 1e-5, 1e-5 * std::fabs(level) + 1e-5, "position of the peak");
    close(get("isophotal_flux"), flux, 2e-5, fe, "isophotal_flux"); close(get("isophotal_flux_err"), err, 1e-4, 1e-5, "isophotal_flux_err"); close(get("isophotal_mag"), zp - 2.5 * std::log10(flux), 1e-5, 1e-3, "isophotal_mag"); close(get("isophotal_mag_err"), 2.5 / std::log(10) * err / flux, 1e-3, 1e-5, "isophotal_mag_err"); close(get("snrratio"), flux / err, 1e-3, 1e-4, "snrratio");
    double pe = 3e-5 + 2e-6 * N; close(get("pixel_centroid_x"), cx + 1, 1e-6, pe, "pixel_centroid_x"); close(get("pixel_centroid_y"), cy + 1, 1e-6, pe, "pixel_centroid_y");
    if (none) { eq(get("group_id"), get("group_id"), "group_id"); double L = get("group_stamp_left"), T = get("group_stamp_top"), W = get("group_stamp_width"), H = get("group_stamp_height"); c.check(L >= 0 && T >= 0 && L + W <= w && T + H <= h && L <= x0 && T <= y0 && L + W > x1 && T + H > y1 && L >= x0 - 0.7 * (x1 - x0 + 1) - 30, "the group stamp does not hold the source: " + num(L) + "," + num(T) + " " + num(W) + "x" + num(H)); }
    double A = cx, B = cy; if (sky) { auto v = [&](int i) { return std::atof(wcs[size_t(i)].c_str() + 10); }; double u = cx + 1 - v(4), s = cy + 1 - v(5), xi = (v(6) * u + v(7) * s) * M_PI / 180, et = (v(8) * u + v(9) * s) * M_PI / 180, a0 = v(2) * M_PI / 180, d0 = v(3) * M_PI / 180; double ra = a0 + std::atan2(xi, std::cos(d0) - et * std::sin(d0)), de = std::atan2((std::sin(d0) + et * std::cos(d0)) * std::cos(ra - a0), std::cos(d0) - et * std::sin(d0)); A = ra * 180 / M_PI; B = de * 180 / M_PI; double tol = 1e-9 + pe * 3e-4 / std::cos(d0); c.check(std::fabs(std::remainder(get("world_centroid_alpha") - A, 360)) < tol && std::fabs(get("world_centroid_delta") - B) < tol, "row " + std::to_string(r) + " world centroid " + num(get("world_centroid_alpha")) + "," + num(get("world_centroid_delta")) + " instead of " + num(A) + "," + num(B)); }
    if (ext) { int f = ft == 1 ? -1 : ft == 2 ? 1 << 30 : 0, cnt = 0; std::map<int, int> hist; for (auto& p : q) { int v = int(flagIm.at(p.first, p.second)); ++hist[v]; if (ft == 0) { f |= v; cnt += v != 0; } else if (ft == 1) f &= v; else f = ft == 2 ? std::min(f, v) : std::max(f, v); } if (ft == 1) cnt = N; if (ft > 1) cnt = hist[f]; std::string pre; for (auto& nme : t.names) if (nme.find("isophotal_image_flags") != std::string::npos && nme.find("count") == std::string::npos) eq(get(nme.c_str()), f, nme); else if (nme.find("isophotal_image_flags") != std::string::npos) eq(get(nme.c_str()), cnt, nme); }
    // shape
    double xx = 0, yy = 0, xy = 0; for (auto& p : q) { double v = det.sub.at(p.first, p.second), a = p.first - cx, b = p.second - cy; xx += v * a * a; yy += v * b * b; xy += v * a * b; } xx /= flux; yy /= flux; xy /= flux; double m = (xx + yy) / 2, dd = std::sqrt(sq(xx - yy) / 4 + xy * xy), eps = 3e-5 * m + 1e-5; close(sq(get("ellipse_a")), m + dd, 1e-3, eps, "ellipse_a squared"); close(sq(get("ellipse_b")), m - dd, 1e-3, 4 * eps, "ellipse_b squared"); if (std::hypot(xx - yy, 2 * xy) > 1e3 * eps) { double wt0 = std::atan2(2 * xy, xx - yy) / 2 * 180 / M_PI; c.check(std::fabs(std::remainder(get("ellipse_theta") - wt0, 180)) < 0.3, "row " + std::to_string(r) + " ellipse_theta " + num(get("ellipse_theta")) + " instead of " + num(wt0)); }
    double D = xx * yy - xy * xy; if (D < 0.05 || D < 1e-3 * sq(xx + yy)) { c.label("thin source"); continue; } double ea = std::sqrt(m + dd), eb = std::sqrt(m - dd); close(get("elongation"), ea / eb, 1e-3, 1e-3, "elongation"); close(get("ellipticity"), 1 - eb / ea, 1e-3, 1e-3, "ellipticity"); double Cxx = yy / D, Cyy = xx / D, Cxy = -2 * xy / D; close(get("ellipse_cxx"), Cxx, 1e-3, 1e-4, "ellipse_cxx"); close(get("ellipse_cyy"), Cyy, 1e-3, 1e-4, "ellipse_cyy"); close(get("ellipse_cxy"), Cxy, 1e-3, 1e-3, "ellipse_cxy");
    { double ex = 0, ey = 0, exy = 0; for (auto& p : q) { double a = p.first - cx, b = p.second - cy, e = det.var.at(p.first, p.second); ex += e * a * a; ey += e * b * b; exy += e * a * b; } ex /= flux * flux; ey /= flux * flux; exy /= flux * flux; double em = (ex + ey) / 2, ed = std::sqrt(sq(ex - ey) / 4 + exy * exy); close(get("error_centroid_x2"), ex, 1e-3, 1e-4 * em, "error_centroid_x2"); close(get("error_centroid_y2"), ey, 1e-3, 1e-4 * em, "error_centroid_y2"); close(get("error_centroid_xy"), exy, 1e-3, 1e-4 * em, "error_centroid_xy"); close(sq(get("error_ellipse_a")), em + ed, 2e-3, 1e-3 * em, "error_ellipse_a squared"); close(sq(get("error_ellipse_b")), em - ed, 2e-3, 1e-3 * em, "error_ellipse_b squared"); if (ed > 0.02 * em) { double wt0 = std::atan2(2 * exy, ex - ey) / 2 * 180 / M_PI; c.check(std::fabs(std::remainder(get("error_ellipse_theta") - wt0, 180)) < 1, "row " + std::to_string(r) + " error_ellipse_theta " + num(get("error_ellipse_theta")) + " instead of " + num(wt0)); } }
    auto other = [&](int x, int y) { return on[size_t(y) * w + x] && lab[size_t(y) * w + x] != id; };
    // Kron radius, with the aperture's edge left open by a hair
    double num0 = 0, den = 0, slack = 0, kmag = 0; bool out = false; double R = 6 * ea + 2; for (int y = int(cy - R) - 2; y <= int(cy + R) + 2; ++y) for (int x = int(cx - R) - 2; x <= int(cx + R) + 2; ++x) { double a = x - cx, b = y - cy, r2 = Cxx * a * a + Cyy * b * b + Cxy * a * b; if (r2 > 36 * 1.002) continue; bool edge = r2 > 36 * 0.998; if (x < 0 || y < 0 || x >= w || y >= h) { if (!edge) out = true; continue; } if (other(x, y)) continue; double v = det.sub.at(x, y); if (edge) { slack += std::fabs(v); continue; } num0 += v * std::sqrt(r2); den += v; kmag += std::fabs(v); }
    double kron = get("kron_radius"); bool kronKnown = den > 0.05 * kmag && den > 4 * slack; if (kronKnown) { double e1 = (num0 - 6.01 * slack), e2 = (num0 + 6.01 * slack), f1 = den - slack, f2 = den + slack, lo = std::min({e1 / f1, e1 / f2, e2 / f1, e2 / f2}), hi = std::max({e1 / f1, e1 / f2, e2 / f1, e2 / f2}); c.check(kron >= lo - 2e-3 * std::fabs(lo) - 2e-3 && kron <= hi + 2e-3 * std::fabs(hi) + 2e-3, "row " + std::to_string(r) + " kron_radius " + num(kron) + " instead of " + num(lo) + " to " + num(hi)); } if (out) c.check((long(get("kron_flag")) & 8) != 0, "kron_flag of an aperture reaching outside");
    // photometry in every frame
    double rad = std::max(kf * kron, km); auto af = t.vec(r, "auto_flux"), ae = t.vec(r, "auto_flux_err"), am = t.vec(r, "auto_mag"), ame = t.vec(r, "auto_mag_err"), afl = t.vec(r, "auto_flags"); size_t K = fs.size(); c.check(af.size() == K && ae.size() == K && am.size() == K && ame.size() == K && afl.size() == K, "one Kron flux per frame: " + std::to_string(af.size()) + " for " + std::to_string(K)); bool sane = rad * std::sqrt(m + dd) < 80;
    auto phot = [&](double f, double e, double mg, double me, double gain, Bracket& v, const std::string& what) { if (f > 0) { close(mg, zp - 2.5 * std::log10(f), 1e-5, 1e-4, what + " magnitude"); } else c.check(std::isnan(mg), what + ": magnitude of a negative flux"); double add = gain > 0 ? f / gain : 0; if (v.lo + add > 0.02 * (v.hi + std::fabs(add))) { c.check(e * e >= (v.lo + add) * 0.999 - 1e-5 * std::fabs(add) && e * e <= (v.hi + add) * 1.001 + 1e-5 * std::fabs(add), "row " + std::to_string(r) + " " + what + ": squared error " + num(e * e) + " instead of " + num(v.lo + add) + " to " + num(v.hi + add)); if (f != 0) close(me, 1.0857 * e / f, 1e-3, 1e-6, what + " magnitude error"); } };
    std::vector<double> apf, ape, apm, apme, apfl, vg, gs, gc, fr; if (script) { apf = t.vec(r, "aper_flux"); ape = t.vec(r, "aper_flux_err"); apm = t.vec(r, "aper_mag"); apme = t.vec(r, "aper_mag_err"); apfl = t.vec(r, "aper_flags"); size_t z = K * ap.size(); c.check(apf.size() == z && ape.size() == z && apm.size() == z && apme.size() == z && apfl.size() == z, "one aperture flux per frame and aperture: " + std::to_string(apf.size()) + " for " + std::to_string(z)); } vg = t.vec(r, "vignet"); gs = t.vec(r, "flux_growth_step"); gc = t.vec(r, "flux_growth"); fr = t.vec(r, "flux_radius"); c.check(vg.size() == K * size_t(vw * vh) && gs.size() == K && gc.size() == K * size_t(samples) && fr.size() == K * frac.size(), "sizes of vignet, growth curve or flux radius: " + std::to_string(vg.size()) + " " + std::to_string(gs.size()) + " " + std::to_string(gc.size()) + " " + std::to_string(fr.size()));
    auto sf = t.vec(r, "source_flags"); long anySat = 0; bool satSure = true;
    for (size_t i = 0; i < K; ++i) { Frame& f = fs[i]; double X = cx + f.dx, Y = cy + f.dy; std::string fn = "frame " + std::to_string(i) + " "; int W = f.sub.w, H = f.sub.h;
      // saturation inside the rectangle of the source
      double bx0 = x0 + f.dx, by0 = y0 + f.dy, bx1 = x1 + 1 + f.dx, by1 = y1 + 1 + f.dy; int rx0 = int(std::floor(bx0)), ry0 = int(std::floor(by0)), rx1 = int(std::floor(bx1)) + 1, ry1 = int(std::floor(by1)) + 1; if (sky && f.dx == 0) { --rx1; --ry1; } bool off = rx1 < 0 || ry1 < 0 || rx0 >= W || ry0 >= H; bool nearOff = bx1 < 1 || by1 < 1 || bx0 < 0 || by0 < 0; int satIn = 0, satOut = 0; if (f.sat > 0 && !off) for (int y = std::max(0, ry0 - 1); y <= std::min(H - 1, ry1 + 2); ++y) for (int x = std::max(0, rx0 - 1); x <= std::min(W - 1, rx1 + 2); ++x) { double v = f.raw.at(x, y); if (std::fabs(v - f.sat) < 1e-5 * f.sat) satOut = 1; else if (v >= f.sat) { (x >= rx0 && x < rx1 && y >= ry0 && y < ry1 ? satIn : satOut)++; } } bool satKnown = !nearOff && !(satOut && !satIn); if (satKnown && !off) { c.eq((long(afl[i]) & 4) != 0, satIn > 0, "row " + std::to_string(r) + " " + fn + "saturation flag"); if (script) for (size_t a = 0; a < ap.size(); ++a) c.eq((long(apfl[i * ap.size() + a]) & 4) != 0, satIn > 0, fn + "saturation flag of an aperture"); anySat += satIn > 0; } else satSure = false;
      // Kron aperture
      if (sane) { Bracket b, v; bool clip = false, clear = true; double ex = rad * std::sqrt(std::max(xx, 0.)), ey = rad * std::sqrt(std::max(yy, 0.)); clip = X - ex < -2 || Y - ey < -2 || X + ex > W + 1 || Y + ey > H + 1; clear = X - ex > 2 && Y - ey > 2 && X + ex < W - 4 && Y + ey < H - 4; for (int y = std::max(0, int(Y - ey) - 2); y <= std::min(H - 1, int(Y + ey) + 2); ++y) for (int x = std::max(0, int(X - ex) - 2); x <= std::min(W - 1, int(X + ex) + 2); ++x) { double p = x - X, s = y - Y, r2 = Cxx * p * p + Cyy * s * s + Cxy * p * s; double lo = r2 < rad * rad * 0.995 - 1e-3, hi = r2 < rad * rad * 1.005 + 1e-3; b.add(lo, hi, f.sub.at(x, y)); v.add(lo, hi, f.var.at(x, y)); }
        bool outside = X + ex < -3 || Y + ey < -3 || X - ex > W + 3 || Y - ey > H + 3; c.check(b.holds(af[i]), "row " + std::to_string(r) + " " + fn + "auto_flux " + num(af[i]) + " instead of " + b.str()); if (v.mag > 0) phot(af[i], ae[i], am[i], ame[i], f.gain, v, fn + "auto"); if (outside) c.check(long(afl[i]) & 32, fn + "auto_flags of an aperture outside"); else if (clip && b.mag > 0) c.check((long(afl[i]) & (8 | 32)) != 0, "row " + std::to_string(r) + " " + fn + "auto_flags of an aperture beyond the border"); else if (clear && x0 > 2 && false) c.check(false, ""); c.check((long(afl[i]) & (1 | 2)) == 0, fn + "auto_flags of an aperture without bad pixels and of a single object"); }
      // circular apertures
      if (script) for (size_t a = 0; a < ap.size(); ++a) { size_t k = i * ap.size() + a; double rr = ap[a] / 2; Bracket b = inCircle(f.sub, X, Y, rr), v = inCircle(f.var, X, Y, rr); std::string what = fn + "aperture " + num(ap[a]); bool out2 = X + rr < -3 || Y + rr < -3 || X - rr > W + 3 || Y - rr > H + 3; c.check(b.holds(apf[k]), "row " + std::to_string(r) + " " + what + " flux " + num(apf[k]) + " instead of " + b.str()); if (v.mag > 0) phot(apf[k], ape[k], apm[k], apme[k], f.gain, v, what); bool clip = X - rr < -2 || Y - rr < -2 || X + rr > W + 1 || Y + rr > H + 1 || cx - rr < -2 || cy - rr < -2 || cx + rr > w + 1 || cy + rr > h + 1; bool clear = X - rr > 2 && Y - rr > 2 && X + rr < W - 4 && Y + rr < H - 4 && cx - rr > 2 && cy - rr > 2 && cx + rr < w - 4 && cy + rr < h - 4; long fl = long(apfl[k]); if (out2) c.check(fl & 32, what + ": flags of an aperture outside"); else if (clip) c.check(fl & (8 | 32), what + ": flags of an aperture beyond the border"); else if (clear) c.check(!(fl & (8 | 32)), "row " + std::to_string(r) + " " + what + ": flags " + std::to_string(fl) + " of an aperture inside");
          if (clear) { double tot = 0, full = 0; for (int y = int(cy - rr) - 2; y <= int(cy + rr) + 2; ++y) for (int x = int(cx - rr) - 2; x <= int(cx + rr) + 2; ++x) { double ar = circle(rr, x - cx, y - cy); if (ar > 0 && x >= 0 && y >= 0 && x < w && y < h) { tot += ar; full += other(x, y); } } if (tot > 3 && std::fabs(full / tot - 0.1) > 0.04) c.eq((fl & 16) != 0, full / tot > 0.1, "row " + std::to_string(r) + " " + what + ": flag of neighbours"); } c.check((fl & 3) == 0, what + ": flags of bad or blended"); }
      // growth curve: 64 circles up to six times the major axis or the Kron radius
      double lim = std::max(6 * ea, kron), st = lim / 64; if (lim < 80) { close(gs[i] * samples, lim, 1e-3, 1e-3, fn + "flux_growth_step"); std::vector<Bracket> cv; for (int k = 1; k <= 64; ++k) { Bracket b; double rr = k * st; for (int y = std::max(0, int(Y - rr) - 2); y <= std::min(H - 1, int(Y + rr) + 2); ++y) for (int x = std::max(0, int(X - rr) - 2); x <= std::min(W - 1, int(X + rr) + 2); ++x) b.add(circle(rr * (1 - 3e-4) - 2e-4, x - X, y - Y), circle(rr * (1 + 3e-4) + 2e-4, x - X, y - Y), f.sub.at(x, y)); cv.push_back(b); }
        for (int k = 0; k < samples; ++k) { double p = (k + 1) * 64. / samples - 1; int j = std::min(62, std::max(0, int(p))); double u = p - j; Bracket b; b.lo = std::min(cv[size_t(j)].lo * (1 - u) + cv[size_t(j) + 1].lo * u, cv[size_t(j)].hi * (1 - u) + cv[size_t(j) + 1].hi * u); b.hi = std::max(cv[size_t(j)].lo * (1 - u) + cv[size_t(j) + 1].lo * u, cv[size_t(j)].hi * (1 - u) + cv[size_t(j) + 1].hi * u); b.mag = cv[size_t(j) + 1].mag; double ex = 2e-2 * std::fabs(cv[size_t(j) + 1].hi - cv[size_t(j)].lo); double got = gc[i * size_t(samples) + size_t(k)]; if (p >= 0) c.check(got >= b.lo - ex - 2e-5 * b.mag - 1e-5 && got <= b.hi + ex + 2e-5 * b.mag + 1e-5, "row " + std::to_string(r) + " " + fn + "flux_growth sample " + std::to_string(k) + ": " + num(got) + " instead of " + b.str()); }
        for (size_t k = 0; k < frac.size(); ++k) { double got = fr[i * frac.size() + k]; if (!(cv[63].lo > 0) || std::isnan(got)) continue; double tl = frac[k] * cv[63].lo, th = frac[k] * cv[63].hi; int first = -1, sure = -1; for (int j = 0; j < 64; ++j) { double t0 = 2e-5 * cv[size_t(j)].mag; if (first < 0 && cv[size_t(j)].hi + t0 >= tl) first = j; if (sure < 0 && cv[size_t(j)].lo - t0 >= th) sure = j; } if (first >= 0 && sure >= 0) { c.check(got >= first * st * 0.998 - 1e-3 && got <= (sure + 1) * st * 1.002 + 1e-3, "row " + std::to_string(r) + " " + fn + "flux_radius " + num(got) + " but the curve reaches " + num(frac[k]) + " of the flux between " + num(first * st) + " and " + num((sure + 1) * st)); c.label("flux radius"); } } }
      // vignet
      { double pxx = X + 0.5, pyy = Y + 0.5; if (pxx > 0.01 && pyy > 0.01 && std::fabs(pxx - std::round(pxx)) > 1e-3 && std::fabs(pyy - std::round(pyy)) > 1e-3) { int a0 = int(pxx) - vw / 2, b0 = int(pyy) - vh / 2; for (int y = 0; y < vh; ++y) for (int x = 0; x < vw; ++x) { int U = a0 + x, V = b0 + y; double want0 = pixval; if (U >= 0 && V >= 0 && U < W && V < H) { int a = int(std::floor(U - f.dx + 0.5)), b = int(std::floor(V - f.dy + 0.5)); double ga = std::fabs(U - f.dx + 0.5 - std::round(U - f.dx + 0.5)), gb = std::fabs(V - f.dy + 0.5 - std::round(V - f.dy + 0.5)); if (f.dx != 0 && (ga < 1e-4 || gb < 1e-4)) continue; bool in = a >= 0 && b >= 0 && a < w && b < h; if (!(in && other(a, b))) want0 = f.sub.at(U, V); } double got = vg[(i * size_t(vw) + size_t(x)) * size_t(vh) + size_t(y)]; close(got, want0, 1e-5, 1e-5 * (std::fabs(f.bg) + 1), fn + "vignet " + std::to_string(x) + "," + std::to_string(y)); } c.label("vignet"); } }
    }
    if (K == 1) { bool k1 = !fs[0].dx; if (k1) { bool b = x0 <= 0 || y0 <= 0 || x1 + 2 >= fs[0].sub.w - 1 || y1 + 2 >= fs[0].sub.h - 1; if (!sky || x0 == 0 || y0 == 0 || x1 == fs[0].sub.w - 1 || y1 == fs[0].sub.h - 1 || (x0 > 1 && y0 > 1 && x1 + 2 < fs[0].sub.w - 1 && y1 + 2 < fs[0].sub.h - 1)) c.eq((long(sf[0]) & 8) != 0, b, "row " + std::to_string(r) + " source_flags: border"); if (satSure) c.eq((long(sf[0]) & 4) != 0, anySat > 0, "row " + std::to_string(r) + " source_flags: saturation"); } } for (double v : sf) c.check((long(v) & ~12l) == 0, "source_flags of a single object: " + num(v));
  }
}
}
PBT_MAIN({"same", "at least one source", same, 400, 8000}, {"columns", "at least one source", columns, 600, 12000})
