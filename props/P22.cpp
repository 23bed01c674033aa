// Measurements on the detection frame, projections to measurement frames and flags equal their definitions.
// SRCS: SEFramework/src/lib/Source/SimpleSourceGroup.cpp SEFramework/src/lib/Source/EntangledSource.cpp SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp SEFramework/src/lib/Source/SourceWithOnDemandProperties.cpp SEFramework/src/lib/Task/TaskProvider.cpp SEFramework/src/lib/Task/TaskFactoryRegistry.cpp SEFramework/src/lib/Property/PropertyHolder.cpp SEFramework/src/lib/Property/PropertyId.cpp SEFramework/src/lib/Frame/Frame.cpp SEFramework/src/lib/Image/TileManager.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/BufferedImage.cpp SEFramework/src/lib/Aperture/EllipticalAperture.cpp SEFramework/src/lib/Aperture/NeighbourInfo.cpp  SEImplementation/src/lib/Plugin/DetectionFrameImages/DetectionFrameImagesTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameInfo/DetectionFrameInfoTask.cpp SEImplementation/src/lib/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTask.cpp SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTask.cpp SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidTask.cpp SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameCoordinates/DetectionFrameCoordinatesTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameGroupStamp/DetectionFrameGroupStampTask.cpp SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp SEImplementation/src/lib/Plugin/GroupInfo/GroupInfoTask.cpp SEImplementation/src/lib/Plugin/HduNumber/HduNumberTask.cpp SEImplementation/src/lib/Plugin/IsophotalFlux/IsophotalFluxTask.cpp SEImplementation/src/lib/Plugin/Jacobian/JacobianTask.cpp SEImplementation/src/lib/Plugin/KronRadius/KronRadiusTask.cpp SEImplementation/src/lib/Plugin/MeasurementFrame/MeasurementFrameTask.cpp SEImplementation/src/lib/Plugin/MeasurementFrameCoordinates/MeasurementFrameCoordinatesTask.cpp SEImplementation/src/lib/Plugin/MeasurementFrameGroupRectangle/MeasurementFrameGroupRectangleTask.cpp SEImplementation/src/lib/Plugin/MeasurementFrameImages/MeasurementFrameImagesTask.cpp SEImplementation/src/lib/Plugin/MeasurementFrameInfo/MeasurementFrameInfoTask.cpp SEImplementation/src/lib/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroidTask.cpp SEImplementation/src/lib/Plugin/MeasurementFrameRectangle/MeasurementFrameRectangleTask.cpp SEImplementation/src/lib/Plugin/ReferenceCoordinates/ReferenceCoordinatesTask.cpp SEImplementation/src/lib/Plugin/SourceFlags/SourceFlagsSourceTask.cpp SEImplementation/src/lib/Plugin/WorldCentroid/WorldCentroidTask.cpp SEImplementation/src/lib/Plugin/DetectionFrameImages/DetectionFrameImagesTaskFactory.cpp SEImplementation/src/lib/Plugin/DetectionFrameInfo/DetectionFrameInfoTaskFactory.cpp SEImplementation/src/lib/Plugin/DetectionFramePixelValues/DetectionFramePixelValuesTaskFactory.cpp SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/DetectionFrameSourceStampTaskFactory.cpp SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTaskFactory.cpp SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidTaskFactory.cpp SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTaskFactory.cpp
// LIBS: -lpthread
#include "measure.h"
using namespace pbt;
using namespace detect;

struct Smooth : DetectionImageFrame::ImageFilter { int kind; explicit Smooth(int k) : kind(k) {}
  std::shared_ptr<Image<SeFloat>> processImage(std::shared_ptr<Image<SeFloat>> i, std::shared_ptr<Image<SeFloat>>, SeFloat) const override { auto s = VectorImage<SeFloat>::create(*i); auto r = VectorImage<SeFloat>::create(i->getWidth(), i->getHeight()); for (int y = 0; y < i->getHeight(); ++y) for (int x = 0; x < i->getWidth(); ++x) { float v = 2 * s->getValue(x, y); if (kind) for (int d : {-1, 1}) v += s->getValue(std::min(std::max(x + d, 0), i->getWidth() - 1), y); r->setValue(x, y, v / (kind ? 4 : 2)); } return r; } };
static void tiles(Case& c) { int tw = c.s.coin() ? 256 : int(c.s.range(1, 20)), th = c.s.coin() ? 256 : int(c.s.range(1, 20)); TileManager::getInstance()->setOptions(tw, th, 100); }

// A detection frame: everything a frame can be configured with
struct Scene { int w, h; VF img, var; std::shared_ptr<DetectionImageFrame> frame; std::shared_ptr<Affine> cs; double gain, sat, vthr, rms, bg; unsigned hdu; };
static Scene scene(Case& c, bool positive, int size = 40) {
  Scene s; s.w = int(c.s.range(1, size)); s.h = int(c.s.range(1, size)); s.img = blobs(c, s.w, s.h, 5, positive ? -0.5 : c.s.pick({0.5, 1., 10.})); bool whole = c.s.coin(30); if (whole) for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) s.img->setValue(x, y, std::round(s.img->getValue(x, y))); s.var = VectorImage<SeFloat>::create(s.w, s.h); uint64_t k = c.s.draw(1 << 16); int kind = int(c.s.draw(3)); s.vthr = c.s.coin() ? 1e6 : 50; s.bg = whole || c.s.coin() ? positive && whole ? -1 : 0 : positive ? -c.s.uniform(0, 3) : c.s.uniform(-3, 3); int badPct = c.s.pick({0, 0, 1, 15});
  for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { uint64_t r = mix(k, y * s.w + x); s.var->setValue(x, y, int(r % 100) < badPct ? (r % 3 == 0 ? float(s.vthr) : float(4 * s.vthr)) : kind == 0 ? 1.f : kind == 1 ? 0.2f + float(r % 1000) / 500 : kind == 2 ? 0.5f + float(x) / s.w : 1e-4f); }
  s.gain = c.s.coin(30) ? 0 : c.s.logreal(0.1, 100); s.sat = c.s.coin(30) ? 0 : c.s.logreal(5, 1000); s.cs = affine(c, s.w); s.frame = std::make_shared<DetectionImageFrame>(s.img, s.var, float(s.vthr), s.cs, float(s.gain), float(s.sat), 0); s.rms = c.s.uniform(0, 5);
  auto bgmap = VectorImage<SeFloat>::create(s.w, s.h); bool map = !whole && c.s.coin(); for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) bgmap->setValue(x, y, float(s.bg * (map ? 0.5 + double(x) / s.w : 1))); s.frame->setBackgroundLevel(bgmap, float(s.rms)); int f = int(c.s.draw(2)); if (f) s.frame->setFilter(std::make_shared<Smooth>(f - 1)); s.frame->setDetectionThreshold(float(c.s.uniform(0.5, 4))); s.hdu = unsigned(c.s.draw(9)); s.frame->setHduIndex(s.hdu); s.frame->setMetadata({{"KEY", {double(s.hdu), {}}}});
  c.note() << "variance " << kind << " bad " << badPct << "% background " << s.bg << " gain " << s.gain << " filter " << f << " "; tiles(c); return s; }
static std::unique_ptr<SourceInterface> newSource(const std::shared_ptr<TaskProvider>& tp, const Pixels& p, const std::shared_ptr<DetectionImageFrame>& f) {
  auto s = std::make_unique<SourceWithOnDemandProperties>(tp); std::vector<PixelCoordinate> l; for (auto& q : p) l.emplace_back(q.first, q.second); s->setProperty<PixelCoordinateList>(l); s->setProperty<DetectionFrame>(f); return s; }
// the pixels of a source, in any order: a component above the threshold, or a patch, line or scatter of pixels
static Pixels somePixels(Case& c, const Scene& s) {
  int kind = int(c.s.draw(4)); Pixels p;
  if (kind == 0) { auto t = VectorImage<SeFloat>::create(*s.frame->getThresholdedImage()); auto all = components(s.w, s.h, [&](int x, int y) { return t->getValue(x, y) > 0; }); if (!all.empty()) { p = c.s.pick(all); c.label("component"); } }
  if (p.empty()) { int x = int(c.s.range(0, s.w - 1)), y = int(c.s.range(0, s.h - 1)), n = int(c.s.skewed(1, 40)), dx = int(c.s.range(-1, 1)), dy = int(c.s.range(-1, 1)); uint64_t k = c.s.draw(1 << 16); std::set<std::pair<int, int>> seen;
    for (int i = 0; i < n; ++i) { int u, v; if (kind < 2) { u = x + i % 5; v = y + i / 5; } else if (kind == 2) { u = x + i * dx; v = y + i * dy; } else if (kind == 3) { u = x + int(mix(k, i) % 9) - 4; v = y + int(mix(k, i + 999) % 9) - 4; } else { u = x + (i & 1); v = y + i / 2; } if (u >= 0 && v >= 0 && u < s.w && v < s.h && seen.insert({u, v}).second) p.emplace_back(u, v); } if (p.empty()) p.emplace_back(x, y); c.label(kind == 2 ? "line" : "patch"); }
  if (c.s.coin()) { uint64_t k = c.s.draw(1 << 16); for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[mix(k, i) % i]); }
  c.note() << p.size() << " pixels from (" << p[0].first << "," << p[0].second << ") kind " << kind; return p; }
static double ell(double cxx, double cyy, double cxy, double dx, double dy) { return cxx * dx * dx + cyy * dy * dy + cxy * dx * dy; }

static void detection(Case& c) {
  bool positive = c.s.coin(70); auto s = scene(c, positive); auto p = somePixels(c, s); int n = int(p.size()); setup() = Setup(); setup().zero_point = float(c.s.uniform(-5, 30)); auto tp = std::make_shared<TaskProvider>(allTasks()); auto src = newSource(tp, p, s.frame); auto sub = VectorImage<SeFloat>::create(*s.frame->getSubtractedImage()), fil = VectorImage<SeFloat>::create(*s.frame->getFilteredImage()), fvar = VectorImage<SeFloat>::create(*s.frame->getVarianceMap()), thr = VectorImage<SeFloat>::create(*s.frame->getThresholdedImage()), tmap = VectorImage<SeFloat>::create(*s.frame->getDetectionThresholdMap());
  bool split = c.s.coin(); if (split) src->setProperty<SourceId>(c.s.coin() ? 7u : 0u); else src->setProperty<SourceId>();
  auto& info = src->getProperty<DetectionFrameInfo>(); c.eq(info.getWidth(), s.w, "width"); c.eq(info.getHeight(), s.h, "height"); c.eq(float(info.getGain()), float(s.gain), "gain"); c.eq(float(info.getSaturation()), float(s.sat), "saturation"); c.eq(info.getVarianceThreshold(), float(s.vthr), "variance threshold"); c.eq(info.getBackgroundMedianRms(), float(s.rms), "background rms"); c.eq(info.getHduIndex(), size_t(s.hdu), "HDU"); c.eq(info.getMetadata().size(), size_t(1), "metadata"); c.eq(src->getProperty<HduNumber>().getHduNumber(), s.hdu, "HDU number");
  auto& pv = src->getProperty<DetectionFramePixelValues>(); c.eq(int(pv.getValues().size()), n, "values"); c.eq(int(pv.getFilteredValues().size()), n, "filtered values"); c.eq(int(pv.getVariances().size()), n, "variances"); c.eq(src->getProperty<NDetectedPixels>().getNDetectedPixels(), long(n), "number of pixels");
  std::vector<double> v, f, e; int x0 = 1 << 30, x1 = -1, y0 = 1 << 30, y1 = -1; for (int i = 0; i < n; ++i) { int x = p[i].first, y = p[i].second; v.push_back(sub->getValue(x, y)); f.push_back(fil->getValue(x, y)); e.push_back(fvar->getValue(x, y)); c.eq(double(pv.getValues()[i]), v[i], "value of a pixel"); c.eq(double(pv.getFilteredValues()[i]), f[i], "filtered value of a pixel"); c.eq(double(pv.getVariances()[i]), e[i], "variance of a pixel"); x0 = std::min(x0, x); x1 = std::max(x1, x); y0 = std::min(y0, y); y1 = std::max(y1, y); }
  auto& bo = src->getProperty<PixelBoundaries>(); c.eq(bo.getMin().m_x, x0, "left boundary"); c.eq(bo.getMin().m_y, y0, "lower boundary"); c.eq(bo.getMax().m_x, x1, "right boundary"); c.eq(bo.getMax().m_y, y1, "upper boundary"); c.eq(bo.getWidth(), x1 - x0 + 1, "width"); c.eq(bo.getHeight(), y1 - y0 + 1, "height");
  // stamp
  auto& st = src->getProperty<DetectionFrameSourceStamp>(); int sx = st.getTopLeft().m_x, sy = st.getTopLeft().m_y, sw = st.getStamp().getWidth(), sh = st.getStamp().getHeight(); c.check(sx >= 0 && sy >= 0 && sx + sw <= s.w && sy + sh <= s.h, "the stamp is not inside the image"); c.check(sx <= std::max(0, x0 - 2) && sy <= std::max(0, y0 - 2) && sx + sw - 1 >= std::min(s.w - 1, x1 + 2) && sy + sh - 1 >= std::min(s.h - 1, y1 + 2), "the stamp does not hold the source and a margin");
  struct L { const VectorImage<SeFloat>* i; VF full; const char* name; }; for (auto& l : {L{&st.getStamp(), sub, "stamp"}, L{&st.getFilteredStamp(), fil, "filtered stamp"}, L{&st.getThresholdedStamp(), thr, "thresholded stamp"}, L{&st.getVarianceStamp(), fvar, "variance stamp"}, L{&st.getThresholdMapStamp(), tmap, "threshold map stamp"}}) { c.eq(l.i->getWidth(), sw, std::string("width of the ") + l.name); c.eq(l.i->getHeight(), sh, std::string("height of the ") + l.name); for (int y = 0; y < sh; ++y) for (int x = 0; x < sw; ++x) c.eq(l.i->getValue(x, y), l.full->getValue(x + sx, y + sy), std::string("pixel of the ") + l.name); }
  // peak and half maximum
  auto& pk = src->getProperty<PeakValue>(); double mx = *std::max_element(f.begin(), f.end()), mn = *std::min_element(f.begin(), f.end()); c.eq(double(pk.getMaxValue()), mx, "peak"); c.eq(double(pk.getMinValue()), mn, "minimum"); { int px = int(pk.getMaxValueX()), py = int(pk.getMaxValueY()); bool own = false; for (int i = 0; i < n; ++i) own = own || (p[i].first == px && p[i].second == py && f[i] == mx); c.check(own, "the position of the peak is not that of a pixel with the highest value"); }
  if (mx > 0) { auto& hm = src->getProperty<PixelBoundariesHalfMaximum>(); int a = 1 << 30, b = a, u = -1, w = -1; for (int i = 0; i < n; ++i) if (f[i] >= mx / 2) { a = std::min(a, p[i].first); u = std::max(u, p[i].first); b = std::min(b, p[i].second); w = std::max(w, p[i].second); } c.check(hm.getMin().m_x == a && hm.getMin().m_y == b && hm.getMax().m_x == u && hm.getMax().m_y == w, "boundaries at half maximum"); }
  // fluxes
  double flux = 0, var = 0, absFlux = 0; for (int i = 0; i < n; ++i) { flux += v[i]; var += e[i]; absFlux += std::fabs(v[i]); } if (s.gain > 0) var += flux / s.gain; auto& iso = src->getProperty<IsophotalFlux>(); double fn = 1.2e-7 * n, tol = (1e-5 + fn) * absFlux; c.close(iso.getFlux(), flux, 1e-6, tol, "isophotal flux"); bool sure = std::fabs(flux) > 20 * tol;
  if (sure && (var > 1e-3 * (absFlux / (s.gain > 0 ? s.gain : 1e30)))) { c.close(iso.getFluxError(), std::sqrt(var), 2e-2, 0, "flux error"); if (flux > 0) { c.close(iso.getFluxError(), std::sqrt(var), 2e-5 + fn, 0, "flux error"); c.close(iso.getMag(), -2.5 * std::log10(double(iso.getFlux())) + setup().zero_point, 1e-5, 1e-5, "magnitude"); } else c.check(std::isnan(iso.getMag()), "magnitude of a negative flux"); c.close(iso.getMagError(), 1.0857 * iso.getFluxError() / iso.getFlux(), 1e-5, 0, "magnitude error"); c.close(src->getProperty<SNRRatio>().getSNRRatio(), iso.getFlux() / iso.getFluxError(), 1e-5, 0, "signal to noise ratio"); }
  // ids
  auto& sid = src->getProperty<SourceID>(); auto& did = src->getProperty<SourceId>(); c.eq(sid.getDetectionId(), int(did.getDetectionId()), "detection id"); c.eq(src->getProperty<BlendedFlag>().getBlendedFlag(), did.getDetectionId() != did.getSourceId(), "blended"); auto twin = newSource(tp, p, s.frame); twin->setProperty<SourceId>(did.getDetectionId()); c.check(twin->getProperty<SourceID>().getId() != sid.getId(), "two sources have the same id");
  // moments
  bool allPositive = mn > 0; if (!allPositive) { c.nontrivial(n > 1); return; }
  double tot = 0, cx = 0, cy = 0; for (int i = 0; i < n; ++i) { tot += f[i]; cx += f[i] * p[i].first; cy += f[i] * p[i].second; } cx /= tot; cy /= tot; auto& ce = src->getProperty<PixelCentroid>(); c.close(ce.getCentroidX(), cx, 2e-6, 1e-5, "centroid x"); c.close(ce.getCentroidY(), cy, 2e-6, 1e-5, "centroid y");
  double X = ce.getCentroidX(), Y = ce.getCentroidY(), xx = 0, yy = 0, xy = 0; for (int i = 0; i < n; ++i) { double a = p[i].first - X, b = p[i].second - Y; xx += f[i] * a * a; yy += f[i] * b * b; xy += f[i] * a * b; } xx /= tot; yy /= tot; xy /= tot; auto& sp = src->getProperty<ShapeParameters>(); c.eq(int(sp.getArea()), n, "area"); c.close(sp.getIntensity(), tot, 1e-5 + fn, 0, "intensity");
  double m = (xx + yy) / 2, d = std::sqrt((xx - yy) * (xx - yy) / 4 + xy * xy), eps = (1e-5 + fn) * m + 1e-6; auto sq = [](double t) { return t * t; };
  c.close(sq(sp.getEllipseA()), m + d, 1e-4 + 2 * fn, eps, "square of the semi-major axis"); c.close(sq(sp.getEllipseB()), m - d, 1e-4 + 2 * fn, 4 * eps, "square of the semi-minor axis");
  auto angle = [&](double got, double gx, double gy, double gxy, double tol, const char* what) { double r = std::hypot(gx - gy, 2 * gxy); if (r > 1e3 * tol) { double want = std::atan2(2 * gxy, gx - gy) / 2, diff = std::remainder(got - want, M_PI); c.check(std::fabs(diff) < 2e-3, std::string("position angle of the ") + what + ": " + std::to_string(got) + " instead of " + std::to_string(want)); c.check(std::fabs(got) <= M_PI / 2 + 1e-5, "range of the position angle"); } };
  angle(sp.getEllipseTheta(), xx, yy, xy, eps, "ellipse"); if (n == 1) c.close(sp.getEllipseTheta(), M_PI / 4, 1e-5, 0, "position angle of a point");
  double det = xx * yy - xy * xy, dtol = (1e-5 + 2 * fn) * (xx * yy + xy * xy) + 1e-6; bool known = std::fabs(det - 0.00694) > dtol; bool singu = det < 0.00694; if (known) { c.eq(sp.getSinguFlag(), singu, "flag of a singular shape"); }
  bool s2 = sp.getSinguFlag(); double ax = xx + (s2 ? 0.0833333 : 0), ay = yy + (s2 ? 0.0833333 : 0), D = ax * ay - xy * xy; bool stable = D > 2e3 * dtol; if (stable) { double scale = 2e-3 * (ax + ay) / D; c.close(sp.getEllipseCxx(), ay / D, 2e-3, scale / 10, "cxx"); c.close(sp.getEllipseCyy(), ax / D, 2e-3, scale / 10, "cyy"); c.close(sp.getEllipseCxy(), -2 * xy / D, 2e-3, scale, "cxy"); }
  { double A = sp.getEllipseA(), B = sp.getEllipseB(); double half = (mx + mn) / 2, ratio = mn / half; int above = 0; bool near = false; for (double t : f) { above += t > half; near = near || t != half && std::fabs(t - half) < 1e-6 * half; } double under = std::max(1, n - above), ab = ratio >= 1 ? under / (2 * M_PI * -std::log(0.99) * A * B) : under / (2 * M_PI * -std::log(ratio) * A * B); if (!near && A * B > 0 && (ratio < 0.999 || mx == mn)) c.close(sp.getAbcor(), std::min(1., ab), 1e-3, 0, "correction of the axes"); c.check(!(sp.getAbcor() > 1), "correction of the axes above one"); }
  // errors of the position
  { double I2 = tot * tot, ex = 0, ey = 0, exy = 0, sum = 0; for (int i = 0; i < n; ++i) { double a = p[i].first - X, b = p[i].second - Y; ex += e[i] * a * a; ey += e[i] * b * b; exy += e[i] * a * b; sum += e[i]; } ex /= I2; ey /= I2; exy /= I2; double t = sum * 0.08333 / I2; double edet = ex * ey - exy * exy; bool edge = std::fabs(edet - t * t) < 1e-4 * (ex * ey + exy * exy + t * t); auto& el = src->getProperty<ErrorEllipse>();
    if (!(s2 && edge)) { if (s2 && edet < t * t) { ex += t; ey += t; } double em = (ex + ey) / 2, ed = std::sqrt((ex - ey) * (ex - ey) / 4 + exy * exy), q = 1e-4 * (em + t); c.close(el.getEllipseCxxError(), ex, 1e-3, q / 100, "variance of x"); c.close(el.getEllipseCyyError(), ey, 1e-3, q / 100, "variance of y"); c.close(el.getEllipseCxyError(), exy, 1e-3, q, "covariance of x and y"); c.close(sq(el.getEllipseAError()), em + ed, 1e-3, q, "major axis of the error ellipse"); if (em - ed > q) c.close(sq(el.getEllipseBError()), em - ed, 1e-2, q, "minor axis of the error ellipse"); angle(el.getEllipseThetaError(), ex, ey, exy, q / 10, "error ellipse"); } }
  // Kron radius
  if (stable && std::isfinite(sp.getEllipseCxx())) { double a = sp.getEllipseCxx(), b = sp.getEllipseCyy(), g = sp.getEllipseCxy(), r2max = 36, R = 6 * std::sqrt(m + d + 0.1) + 2, num = 0, den = 0, area = 0, bad = 0, full = 0, mag = 0; bool out = false, edge = false; std::set<std::pair<int, int>> own(p.begin(), p.end());
    for (int y = int(Y - R) - 1; y <= int(Y + R) + 1; ++y) for (int x = int(X - R) - 1; x <= int(X + R) + 1; ++x) { double r2 = ell(a, b, g, x - X, y - Y), sc = a * sq(x - X) + b * sq(y - Y) + std::fabs(g * (x - X) * (y - Y)); if (std::fabs(r2 - r2max) < 1e-5 * (sc + 1)) edge = true; if (r2 >= r2max) continue; if (x < 0 || y < 0 || x >= s.w || y >= s.h) { out = true; continue; } ++area; bool good = double(fvar->getValue(x, y)) < s.vthr; bad += !good; if (thr->getValue(x, y) > 0 && !own.count({x, y})) { ++full; continue; } if (good) { num += sub->getValue(x, y) * std::sqrt(std::max(0., r2)); den += sub->getValue(x, y); mag += std::fabs(sub->getValue(x, y)); } }
    if (!edge) { auto& kr = src->getProperty<KronRadius>(); long fl = long(kr.getFlag()); if (std::fabs(den) > 1e-2 * mag || (mag == 0)) c.close(kr.getKronRadius(), den > 0 ? num / den : 0, 1e-3, 1e-3, "Kron radius"); c.eq((fl & 8) != 0, out, "flag of an aperture reaching outside the image"); bool isBad = area > 0 && bad / area > 0.1, crowded = area > 0 && full / area > 0.1; if (std::fabs(bad / area - 0.1) > 1e-5 && std::fabs(full / area - 0.1) > 1e-5) { c.eq((fl & 7) != 0, isBad || crowded, "flag of a bad or crowded aperture"); c.label("bad", isBad); c.label("crowded", crowded); } c.label("reaches outside", out); c.label("Kron radius"); } }
  c.label("singular", s2); c.nontrivial(n > 3 && !s2); }

static void grp(Case& c) {
  auto s = scene(c, true); setup() = Setup(); setup().reference = nullptr; auto tp = std::make_shared<TaskProvider>(allTasks()); int n = int(c.s.skewed(1, 5)); SourceGroupWithOnDemandProperties g(tp), other(tp); int x0 = 1 << 30, x1 = -1, y0 = 1 << 30, y1 = -1; for (int i = 0; i < n; ++i) { auto p = somePixels(c, s); for (auto& q : p) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); } g.addSource(newSource(tp, p, s.frame)); } other.addSource(newSource(tp, somePixels(c, s), s.frame));
  auto& st = g.getProperty<DetectionFrameGroupStamp>(); int sx = st.getTopLeft().m_x, sy = st.getTopLeft().m_y, sw = st.getStamp().getWidth(), sh = st.getStamp().getHeight(); c.check(sx >= 0 && sy >= 0 && sx + sw <= s.w && sy + sh <= s.h, "the stamp is not inside the image"); c.check(sx <= std::max(0, x0 - 2) && sy <= std::max(0, y0 - 2) && sx + sw - 1 >= std::min(s.w - 1, x1 + 2) && sy + sh - 1 >= std::min(s.h - 1, y1 + 2), "the stamp does not hold the group and a margin");
  auto sub = VectorImage<SeFloat>::create(*s.frame->getSubtractedImage()), fvar = VectorImage<SeFloat>::create(*s.frame->getVarianceMap()), thr = VectorImage<SeFloat>::create(*s.frame->getThresholdedImage()); c.check(st.getThresholdedStamp().getWidth() == sw && st.getVarianceStamp().getWidth() == sw && st.getThresholdedStamp().getHeight() == sh && st.getVarianceStamp().getHeight() == sh, "sizes of the layers");
  ImageAccessor<SeFloat> a(st.getStamp()), b(st.getThresholdedStamp()), d(st.getVarianceStamp()); for (int y = 0; y < sh; ++y) for (int x = 0; x < sw; ++x) { c.eq(a.getValue(x, y), sub->getValue(x + sx, y + sy), "pixel of the stamp"); c.eq(b.getValue(x, y), thr->getValue(x + sx, y + sy), "pixel of the thresholded stamp"); c.eq(d.getValue(x, y), fvar->getValue(x + sx, y + sy), "pixel of the variance stamp"); }
  std::set<unsigned> ids; for (auto& m : g) ids.insert(m.getProperty<GroupInfo>().getGroupId()); c.eq(ids.size(), size_t(1), "ids of the members' group"); c.eq(g.getProperty<GroupInfo>().getGroupId(), *ids.begin(), "id of the group"); c.check(other.getProperty<GroupInfo>().getGroupId() != *ids.begin(), "two groups have the same id"); c.nontrivial(n > 1); }

static void measurement(Case& c) {
  auto s = scene(c, c.s.coin(), 30); int instances = int(c.s.range(1, 3)); setup() = Setup(); struct M { int w, h; VF img; std::shared_ptr<Affine> cs; double gain, sat, rms; bool own; }; std::vector<M> ms;
  for (int i = 0; i < instances; ++i) { M m; m.own = c.s.coin(15); if (m.own) { m.w = s.w; m.h = s.h; m.img = s.img; m.cs = s.cs; m.gain = s.gain; m.sat = s.sat; m.rms = s.rms; setup().frames.push_back(nullptr); c.label("default measurement frame"); } else { m.w = int(c.s.range(1, 40)); m.h = int(c.s.range(1, 40)); m.img = blobs(c, m.w, m.h, 3, 1.); m.cs = affine(c, s.w); if (c.s.coin(60)) { // place it so that the frames overlap
        auto w0 = s.cs->imageToWorld(ImageCoordinate(s.w / 2., s.h / 2.)); m.cs->tx = m.cs->ty = 0; auto at = m.cs->imageToWorld(ImageCoordinate(m.w * c.s.uniform(0, 1), m.h * c.s.uniform(0, 1))); m.cs->tx = w0.m_alpha - at.m_alpha; m.cs->ty = w0.m_delta - at.m_delta; }
      if (c.s.coin(15)) m.cs->limit = s.cs->imageToWorld(ImageCoordinate(c.s.uniform(0, s.w), c.s.uniform(0, s.h))).m_alpha; m.gain = c.s.uniform(0, 10); m.sat = c.s.coin(30) ? 0 : c.s.coin() ? c.s.logreal(2, 300) : -5; if (c.s.coin(30)) m.sat = m.img->getValue(int(c.s.range(0, m.w - 1)), int(c.s.range(0, m.h - 1))); m.rms = c.s.uniform(0, 3); auto f = std::make_shared<MeasurementImageFrame>(m.img, VectorImage<SeFloat>::create(m.w, m.h, std::vector<float>(size_t(m.w) * m.h, 1.f)), 1e6f, m.cs, float(m.gain), float(m.sat), 0); f->setBackgroundLevel(VectorImage<SeFloat>::create(m.w, m.h, std::vector<float>(size_t(m.w) * m.h, float(1 + i))), float(m.rms)); setup().frames.push_back(f); } ms.push_back(m); }
  setup().groups["a"] = {0}; std::vector<unsigned> rest; for (int i = instances - 1; i >= 0; --i) if (i == 0 ? c.s.coin() : true) rest.push_back(unsigned(i)); if (!rest.empty()) setup().groups["b"] = rest;
  auto ref = affine(c, 10); setup().reference = c.s.coin() ? ref : nullptr; auto tp = std::make_shared<TaskProvider>(allTasks()); SourceGroupWithOnDemandProperties g(tp); int n = int(c.s.skewed(1, 3)); std::vector<Pixels> px; for (int i = 0; i < n; ++i) { px.push_back(somePixels(c, s)); auto src = newSource(tp, px.back(), s.frame); if (c.s.coin()) src->setProperty<SourceId>(); else src->setProperty<SourceId>(3u); g.addSource(std::move(src)); }
  struct Box { double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300; void add(ImageCoordinate i) { x0 = std::min(x0, i.m_x); x1 = std::max(x1, i.m_x); y0 = std::min(y0, i.m_y); y1 = std::max(y1, i.m_y); } };
  // what a rectangle of the detection frame becomes in the measurement frame: must hold all of the inner box, nothing beyond the outer one, unusable if the corners cannot be projected
  auto rectangle = [&](const M& m, const char* what, int ax, int ay, int bx, int by, bool bad, int rw, int rh, const std::function<std::pair<PixelCoordinate, PixelCoordinate>()>& r) { std::string w(what); Box in, out; bool inner = false, outer = false;
    for (int k = 0; k < 4; ++k) { try { in.add(m.cs->worldToImage(s.cs->imageToWorld(ImageCoordinate(k & 1 ? bx : ax, k & 2 ? by : ay)))); } catch (const InvalidCoordinatesException&) { inner = true; } try { out.add(m.cs->worldToImage(s.cs->imageToWorld(ImageCoordinate(k & 1 ? bx + 1.5 : ax - 1.5, k & 2 ? by + 1.5 : ay - 1.5)))); } catch (const InvalidCoordinatesException&) { outer = true; } }
    if (inner) c.check(bad, w + " which cannot be projected is not marked"); if (!outer) c.check(!bad, w + " marked as not projected"); if (bad) { c.check(rw == 0 && rh == 0, w + " without projection has a size"); c.label("bad projection"); return; } if (inner || outer) return;
    // pixels whose centre the inner box holds
    int ix0 = std::max(0, int(std::ceil(in.x0 - 1e-9))), iy0 = std::max(0, int(std::ceil(in.y0 - 1e-9))), ix1 = std::min(m.w - 1, int(std::floor(in.x1 + 1e-9))), iy1 = std::min(m.h - 1, int(std::floor(in.y1 + 1e-9))); bool touches = in.x1 > -0.49 && in.y1 > -0.49 && in.x0 < m.w - 0.51 && in.y0 < m.h - 0.51, far = out.x1 < -2 || out.y1 < -2 || out.x0 > m.w + 1 || out.y0 > m.h + 1;
    if (touches) c.check(rw > 0 && rh > 0, w + " is empty although the source lies in the frame"); if (far) c.check(rw == 0 && rh == 0, w + " is not empty although the source lies outside the frame"); c.label("inside", touches); c.label("outside", far); if (rw <= 0) return;
    auto t = r(); int x0 = t.first.m_x, y0 = t.first.m_y, x1 = t.second.m_x, y1 = t.second.m_y; c.check(rw == x1 - x0 + 1 && rh == y1 - y0 + 1, w + ": size"); c.check(x0 >= 0 && y0 >= 0 && x1 < m.w && y1 < m.h && rw > 0 && rh > 0, w + " is not inside the frame"); c.check((ix1 < ix0 || (x0 <= ix0 && x1 >= ix1)) && (iy1 < iy0 || (y0 <= iy0 && y1 >= iy1)), w + " does not hold the projected source"); c.check(x0 >= std::min(out.x0 - 2, m.w - 1.) && y0 >= std::min(out.y0 - 2, m.h - 1.) && x1 <= std::max(out.x1 + 2, 0.) && y1 <= std::max(out.y1 + 2, 0.), w + " is larger than the projected source"); };
  int k = 0; bool some = false; int gx0 = 1 << 30, gy0 = gx0, gx1 = -1, gy1 = -1; for (auto& src : g) { auto& p = px[k++]; int x0 = 1 << 30, x1 = -1, y0 = 1 << 30, y1 = -1; for (auto& q : p) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); } gx0 = std::min(gx0, x0); gy0 = std::min(gy0, y0); gx1 = std::max(gx1, x1); gy1 = std::max(gy1, y1); std::vector<Flags> fl;
    auto& ce = src.getProperty<PixelCentroid>(); bool sane = ce.getCentroidX() >= -100 && ce.getCentroidX() <= 100 && ce.getCentroidY() >= -100 && ce.getCentroidY() <= 100; auto wc = src.getProperty<WorldCentroid>().getCentroid(); auto want = s.cs->imageToWorld(ImageCoordinate(ce.getCentroidX(), ce.getCentroidY())); c.close(wc.m_alpha, want.m_alpha, 1e-9, 1e-9, "world centroid"); c.close(wc.m_delta, want.m_delta, 1e-9, 1e-9, "world centroid"); c.check(src.getProperty<ReferenceCoordinates>().getCoordinateSystem() == s.cs, "reference coordinates of a detected source");
    for (int i = 0; i < instances; ++i) { auto& m = ms[i]; auto& in = src.getProperty<MeasurementFrameInfo>(i); c.eq(in.getWidth(), m.w, "width"); c.eq(in.getHeight(), m.h, "height"); c.eq(float(in.getGain()), float(m.gain), "gain"); c.eq(float(in.getSaturation()), float(m.sat), "saturation"); c.eq(float(in.getBackgroundMedianRms()), float(m.rms), "background rms"); c.check(src.getProperty<MeasurementFrameCoordinates>(i).getCoordinateSystem() == m.cs, "coordinates of a measurement frame"); auto& im = src.getProperty<MeasurementFrameImages>(i); c.check(im.getWidth() == m.w && im.getHeight() == m.h, "size of the images"); { auto o = im.getLockedImage(LayerOriginalImage); auto u = im.getLockedImage(LayerSubtractedImage); int x = m.w / 2, y = m.h / 3; c.eq(o->getValue(x, y), m.img->getValue(x, y), "original pixel"); if (!m.own) c.close(u->getValue(x, y), m.img->getValue(x, y) - (1 + i), 1e-6, 1e-5, "subtracted pixel"); }
      auto& r = src.getProperty<MeasurementFrameRectangle>(i); rectangle(m, "rectangle", x0, y0, x1, y1, r.badProjection(), r.getWidth(), r.getHeight(), [&] { return std::make_pair(r.getTopLeft(), r.getBottomRight()); });
      auto& mc = src.getProperty<MeasurementFramePixelCentroid>(i); if (sane && wc.m_alpha > m.cs->limit) c.check(mc.badProjection(), "centroid which cannot be projected is not marked"); else if (sane) { auto q = m.cs->worldToImage(wc); c.check(!mc.badProjection(), "centroid marked as not projected"); c.close(mc.getCentroidX(), q.m_x, 1e-6, 1e-5, "centroid in the measurement frame"); c.close(mc.getCentroidY(), q.m_y, 1e-6, 1e-5, "centroid in the measurement frame"); }
      double D = m.cs->a * m.cs->d - m.cs->b * m.cs->c; auto& A = *s.cs; auto& B = *m.cs; double j[4] = {(B.d * A.a - B.b * A.c) / D, (B.a * A.c - B.c * A.a) / D, (B.d * A.b - B.b * A.d) / D, (B.a * A.d - B.c * A.b) / D}; bool projects = m.cs->limit > 1e299; if (projects && sane) { auto t = src.getProperty<JacobianSource>(i).asTuple(); double got[4] = {std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t)}; for (int q = 0; q < 4; ++q) c.close(got[q], j[q], 1e-6, 1e-7, "Jacobian " + std::to_string(q)); }
      bool edge = false, sat = false; if (r.getWidth() > 0) { some = true; auto a = r.getTopLeft(), b = r.getBottomRight(); edge = a.m_x == 0 || a.m_y == 0 || b.m_x == m.w - 1 || b.m_y == m.h - 1; for (int y = a.m_y; y <= b.m_y; ++y) for (int x = a.m_x; x <= b.m_x; ++x) sat = sat || (float(m.sat) > 0 && m.img->getValue(x, y) >= float(m.sat)); } c.eq(src.getProperty<BoundaryFlag>(i).getBoundaryFlag(), edge, "flag of a source at the border"); c.eq(src.getProperty<SaturateFlag>(i).getSaturateFlag(), sat, "flag of a saturated source"); c.label("saturated", sat); c.label("border", edge);
      auto& id = src.getProperty<SourceId>(); fl.push_back((edge ? Flags::BOUNDARY : Flags::NONE) | (sat ? Flags::SATURATED : Flags::NONE) | (id.getDetectionId() != id.getSourceId() ? Flags::BLENDED : Flags::NONE) | (r.badProjection() ? Flags::BAD_PROJECTION : Flags::NONE)); }
    std::vector<Flags> all; for (auto& e : setup().groups) { Flags f = Flags::NONE; for (auto i : e.second) f = f | fl[i]; all.push_back(f); } auto got = src.getProperty<SourceFlags>().getSourceFlags(); c.eq(got.size(), all.size(), "number of flags"); for (size_t q = 0; q < all.size(); ++q) c.eq(int64_t(got[q]), int64_t(all[q]), "flags of a group of images"); }
  auto& st = g.getProperty<DetectionFrameGroupStamp>(); int ax = st.getTopLeft().m_x, ay = st.getTopLeft().m_y, bx = ax + st.getStamp().getWidth() - 1, by = ay + st.getStamp().getHeight() - 1; for (int i = 0; i < instances; ++i) { auto& m = ms[i]; auto& r = g.getProperty<MeasurementFrameGroupRectangle>(i); rectangle(m, "rectangle of the group", ax, ay, bx, by, r.badProjection(), r.getWidth(), r.getHeight(), [&] { return std::make_pair(r.getTopLeft(), r.getBottomRight()); });
    if (m.cs->limit > 1e299) { double D = m.cs->a * m.cs->d - m.cs->b * m.cs->c; auto& A = *s.cs; auto& B = *m.cs; double j[4] = {(B.d * A.a - B.b * A.c) / D, (B.a * A.c - B.c * A.a) / D, (B.d * A.b - B.b * A.d) / D, (B.a * A.d - B.c * A.b) / D}; auto t = g.getProperty<JacobianGroup>(i).asTuple(); double got[4] = {std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t)}; for (int q = 0; q < 4; ++q) c.close(got[q], j[q], 1e-6, 1e-7, "Jacobian of the group " + std::to_string(q)); } }
  // sources which were not detected in an image: reference coordinates are those given, or those of the first measurement frame
  if (!ms[0].own) { SourceWithOnDemandProperties lone(tp); c.check(lone.getProperty<ReferenceCoordinates>().getCoordinateSystem() == (setup().reference ? setup().reference : std::static_pointer_cast<CoordinateSystem>(ms[0].cs)), "reference coordinates of a source without detection frame"); }
  c.label("nonlinear footprint", gx1 > gx0); c.nontrivial(some); }
PBT_MAIN(
  {"detection", "more than three pixels, not singular", detection, 60000, 1000000},
  {"group", "several sources", grp, 25000, 300000},
  {"measurement", "a source inside a measurement frame", measurement, 50000, 600000})
