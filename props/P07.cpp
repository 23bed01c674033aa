// The Hilbert curve visits every pixel of the square once, in unit steps; sizes are rounded up to a power of two.
// SCALE: 4
#include "pbt.h"
#include "SEUtils/HilbertCurve.h"
#include "SEUtils/PixelRectangle.h"
#include "SEUtils/Misc.h"
#include <unordered_set>
using namespace pbt;
using namespace SourceXtractor;

static void power(Case& c) {
  unsigned v = c.s.coin(50) ? unsigned(c.s.range(1, 70000)) : unsigned((1u << c.s.range(0, 30)) + c.s.range(-1, 1));
  if (v == 0) v = 1;
  uint64_t want = 1; while (want < v) want *= 2;
  c.note() << v; c.nontrivial(v > 2);
  if (want <= 0x80000000ull) c.eq(uint64_t(nextPowerOfTwo(v)), want, "next power of two of " + std::to_string(v));
  c.eq(nextPowerOfTwo(uint64_t(v)), want, "next power of two (64 bits) of " + std::to_string(v));
  if (v < 32768) { uint16_t s = uint16_t(v); c.eq(uint64_t(nextPowerOfTwo(s)), want, "next power of two (16 bits)"); }
}
static void curve(Case& c) {
  unsigned size = unsigned(c.s.skewed(1, 64)), n = 1; while (n < size) n *= 2;
  HilbertCurve h(size); auto v = h.getCurve(); c.note() << size; c.nontrivial(size > 1);
  c.eq(v.size(), size_t(n) * n, "length of the curve");
  std::vector<char> seen(n * n, 0);
  for (size_t i = 0; i < v.size(); ++i) {
    auto p = v[i];
    c.check(p.m_x >= 0 && p.m_y >= 0 && p.m_x < int(n) && p.m_y < int(n), "the curve leaves the square");
    c.check(!seen[p.m_x + p.m_y * n], "a pixel is visited twice"); seen[p.m_x + p.m_y * n] = 1;
    if (i) c.check(std::abs(p.m_x - v[i - 1].m_x) + std::abs(p.m_y - v[i - 1].m_y) == 1, "two consecutive pixels are not neighbours");
  }
  size_t i = size_t(c.s.draw(v.size() - 1)); auto p = h.get2DCoordinate(unsigned(i)); c.check(p == v[i], "single lookup differs from the curve");
}
static void bigCurve(Case& c) { // single lookups on curves too large to list: unit steps and locality (an aligned block of 4^k indices fills a square)
  unsigned n = 1u << c.s.range(7, 15); HilbertCurve h(n - unsigned(c.s.draw(n / 2 - 1))); uint64_t total = uint64_t(n) * n; 
  unsigned i = unsigned(c.s.draw(total - 2)); auto p = h.get2DCoordinate(i), q = h.get2DCoordinate(i + 1); c.note() << n << " at " << i; c.nontrivial();
  c.check(std::abs(p.m_x - q.m_x) + std::abs(p.m_y - q.m_y) == 1, "two consecutive pixels are not neighbours");
  c.check(p.m_x >= 0 && p.m_y >= 0 && p.m_x < int(n) && p.m_y < int(n), "the curve leaves the square");
  unsigned k = unsigned(c.s.range(1, 4)), block = i >> (2 * k); std::set<std::pair<int, int>> cells; int lx = 1 << 30, ly = 1 << 30, ux = -1, uy = -1;
  for (unsigned j = block << (2 * k); j < ((block + 1) << (2 * k)); ++j) { auto r = h.get2DCoordinate(j); cells.insert({r.m_x, r.m_y}); lx = std::min(lx, r.m_x); ly = std::min(ly, r.m_y); ux = std::max(ux, r.m_x); uy = std::max(uy, r.m_y); }
  c.check(cells.size() == size_t(1) << (2 * k) && ux - lx + 1 == 1 << k && uy - ly + 1 == 1 << k, "an aligned block of the curve does not fill a square");
}
// Pixel coordinates form a vector space with a partial order, and equal coordinates hash alike
static void coords(Case& c) {
  auto g = [&] { return PixelCoordinate(int(c.s.range(-1000, 1000)), int(c.s.range(-1000, 1000))); };
  auto a = g(), b = g(), d = g(); if (c.s.coin(20)) b = a; c.nontrivial(!(a == b)); c.note() << a.m_x << "," << a.m_y << " " << b.m_x << "," << b.m_y;
  auto s = a + b; c.check(s.m_x == a.m_x + b.m_x && s.m_y == a.m_y + b.m_y, "sum"); c.check(s - b == a, "difference undoes the sum"); auto t = a; t += b; c.check(t == s, "+="); t -= b; c.check(t == a, "-="); c.check((a + b) + d == a + (b + d), "associative");
  c.eq(a == b, a.m_x == b.m_x && a.m_y == b.m_y, "equality"); c.eq(a != b, !(a == b), "inequality"); c.eq(a <= b, a.m_x <= b.m_x && a.m_y <= b.m_y, "<="); c.eq(a >= b, a.m_x >= b.m_x && a.m_y >= b.m_y, ">=");
  if (a == b) c.eq(std::hash<PixelCoordinate>()(a), std::hash<PixelCoordinate>()(b), "hash of equal coordinates");
  double f = double(c.s.range(-16, 16)) / 4; auto m = a * f; c.check(m.m_x == int(a.m_x * f) && m.m_y == int(a.m_y * f), "scaling");
  int w = int(c.s.range(1, 500)), h = int(c.s.range(1, 500)); auto k = a; bool moved = k.clip(w, h); c.eq(moved, !(k == a), "clipping reports a move"); c.check(k.m_x >= 0 && k.m_y >= 0 && k.m_x < w && k.m_y < h, "clipped coordinate outside of the image");
  c.eq(k.m_x, std::min(std::max(a.m_x, 0), w - 1), "clipped x"); c.eq(k.m_y, std::min(std::max(a.m_y, 0), h - 1), "clipped y"); auto k2 = k; c.check(!k2.clip(w, h) && k2 == k, "clipping twice");
  PixelCoordinate lo(std::abs(std::min(a.m_x, b.m_x)), std::abs(std::min(a.m_y, b.m_y))), hi(lo.m_x + int(c.s.range(0, 300)), lo.m_y + int(c.s.range(0, 300))); PixelRectangle r(lo, hi), r2(r);
  c.check(r2.getTopLeft() == lo && r2.getBottomRight() == hi && r.getWidth() == hi.m_x - lo.m_x + 1 && r.getHeight() == hi.m_y - lo.m_y + 1, "rectangle corners and size"); PixelRectangle e; c.check(e.getWidth() == 0 && e.getHeight() == 0, "an empty rectangle has no size");
}
PBT_MAIN({"power_of_two", "above two", power, 60000, 400000}, {"curve", "size above one", curve, 6000, 60000}, {"large_curve", "every case", bigCurve, 60000, 1000000}, {"coordinates", "two different coordinates", coords, 300000, 3000000})
