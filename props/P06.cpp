// Spatial indices: range queries of the k-d tree and of the (changing) quad-tree equal a brute-force search.
#include "pbt.h"
#include <memory>
#include "SEUtils/KdTree.h"
#include "SEUtils/QuadTree.h"
using namespace pbt;
struct Pt { int id; double v[3]; bool operator==(const Pt& o) const { return id == o.id; } };
namespace SourceXtractor {
template <> struct KdTreeTraits<Pt> { static double getCoord(const Pt& p, size_t i) { return p.v[i]; } };
template <> struct QuadTreeTraits<Pt> { static double getCoord(const Pt& p, size_t i) { return p.v[i]; } };
}
using namespace SourceXtractor;

// Coordinates: lattice points (exact arithmetic, many ties) or arbitrary reals, clustered or spread
struct Cloud {
    double radius(Case& c, double top) const { return kind == 5 ? c.s.logreal(1e-4, 3) * scale : c.s.coin(60) ? double(c.s.range(0, 120)) / 8 : c.s.logreal(0.01, top); }
  int kind; double scale, off[3];
  Cloud(Case& c) {
    kind = int(c.s.draw(5)); scale = kind == 5 ? c.s.pick({1e-3, 0.03, 1.0}) : c.s.pick({1.0, 4.0, 64.0, 1024.0});
    for (auto& o : off) o = kind == 5 ? c.s.uniform(-1e6, 1e6) : c.s.coin(50) ? 0 : double(c.s.range(-4096, 4096));
    c.label("small cloud far from the origin", kind == 5);
    c.note() << "cloud " << kind << " scale " << scale << " ";
  }
  double coord(Case& c, int axis) const {
    switch (kind) {
    case 0: return off[axis] + double(c.s.range(-4, 4));                    // many identical points
    case 1: return off[axis] + double(c.s.range(-256, 256)) / 8;            // lattice
    case 2: return off[axis] + c.s.uniform(-scale, scale);                  // uniform
    case 5: return off[axis] + c.s.uniform(-scale, scale);                  // small and far from the origin: needs all digits
    case 3: return axis == 0 ? off[0] + double(c.s.range(-512, 512)) / 4 : off[axis]; // on a line
    default: return off[axis] + (c.s.coin(10) ? c.s.uniform(-1000 * scale, 1000 * scale) : c.s.uniform(-scale / 8, scale / 8)); // clustered with outliers
    }
  }
};

static void compare(Case& c, const std::vector<Pt>& all, const std::vector<Pt>& got, const double* q, size_t n, double r, bool inclusive) {
  std::map<int, int> seen;
  for (auto& p : got) c.check(++seen[p.id] == 1, "point " + std::to_string(p.id) + " reported twice");
  size_t in = 0;
  for (auto& p : all) {
    double d = 0;
    for (size_t i = 0; i < n; ++i) d += (p.v[i] - q[i]) * (p.v[i] - q[i]);
    bool found = seen.count(p.id); in += found;
    double slack = 1e-9 * (d + r * r); for (size_t i = 0; i < n; ++i) slack += 4e-15 * (std::fabs(q[i]) + r) * (r + std::sqrt(d)); // rounding of q +- r
    bool exact = std::fabs(d - r * r) > slack;
    for (size_t i = 0; i < n; ++i) exact |= false;
    bool lattice = std::fmod(q[0] * 8, 1) == 0 && std::fmod(r * 8, 1) == 0;
    for (size_t i = 0; i < n; ++i) lattice &= std::fmod(p.v[i] * 8, 1) == 0 && std::fmod(q[i] * 8, 1) == 0;
    if (!exact && !lattice) continue;
    bool want = inclusive ? d <= r * r : d < r * r;
    if (want && !found) c.fail("point " + std::to_string(p.id) + " at distance " + std::to_string(std::sqrt(d)) + " is missing from the radius " + std::to_string(r));
    if (!want && found) c.fail("point " + std::to_string(p.id) + " at distance " + std::to_string(std::sqrt(d)) + " is outside of the radius " + std::to_string(r));
  }
  c.check(in == got.size(), "a point was reported that was never stored, or was removed");
  c.nontrivial(in > 0 && in < all.size()); c.label("some but not all in range", in > 0 && in < all.size()); c.label("none in range", in == 0 && !all.empty());
}

template <size_t N, size_t S> static void kd(Case& c) {
  Cloud cl(c); int n = int(c.s.skewed(0, 600)); std::vector<Pt> pts;
  for (int i = 0; i < n; ++i) { Pt p{i, {0, 0, 0}}; for (size_t k = 0; k < N; ++k) p.v[k] = cl.coord(c, int(k)); pts.push_back(p); }
  KdTree<Pt, N, S> tree(pts);
  int nq = int(c.s.range(1, 6)); c.note() << n << " points, leaf " << S << " dim " << N;
  for (int q = 0; q < nq; ++q) {
    typename KdTree<Pt, N, S>::Coord co; for (size_t k = 0; k < N; ++k) co.coord[k] = cl.coord(c, int(k)); if (!pts.empty() && c.s.coin(25)) { auto& o = pts[c.s.draw(pts.size() - 1)]; for (size_t k = 0; k < N; ++k) co.coord[k] = o.v[k]; }
    double r = cl.radius(c, 4096);
    c.note() << " r=" << r;
    compare(c, pts, tree.findPointsWithinRadius(co, r), co.coord, N, r, false);
  }
}
static void kdTree(Case& c) {
  switch (c.s.draw(5)) { case 0: kd<2, 100>(c); break; case 1: kd<2, 1>(c); break; case 2: kd<2, 4>(c); break; case 3: kd<3, 2>(c); break; case 4: kd<1, 3>(c); break; default: kd<3, 10>(c); }
}

static void quadTree(Case& c) {
  Cloud cl(c); size_t cap = size_t(c.s.pick({1, 2, 3, 4, 8, 100})); QuadTree<Pt> tree(cap); std::vector<Pt> model; int id = 0;
  int steps = int(c.s.skewed(1, 250)), rem = int(c.s.pick({0, 10, 40})), qry = int(c.s.pick({5, 20})); bool any = false; int removed = 0;
  c.note() << "capacity " << cap << ", " << steps << " steps:";
  for (int i = 0; i < steps || !any; ++i) {
    int op = int(c.s.draw(99));
    if (op < qry || i >= steps) {
      double q[2] = {cl.coord(c, 0), cl.coord(c, 1)}, r = cl.radius(c, 8192); if (!model.empty() && c.s.coin(25)) { auto& o = model[c.s.draw(model.size() - 1)]; q[0] = o.v[0]; q[1] = o.v[1]; }
      compare(c, model, tree.getPointsWithinRange({q[0], q[1]}, r), q, 2, r, true); any = true; c.note() << " q" << r;
    } else if (op < qry + rem && !model.empty()) {
      size_t k = size_t(c.s.draw(model.size() - 1)); tree.remove(model[k]); model.erase(model.begin() + k); ++removed; c.note() << " -";
    } else {
      Pt p{id++, {cl.coord(c, 0), cl.coord(c, 1), 0}};
      if (!model.empty() && c.s.coin(8)) { auto& o = model[c.s.draw(model.size() - 1)]; p.v[0] = o.v[0]; p.v[1] = o.v[1]; }
      tree.add(p); model.push_back(p); c.note() << " +";
    }
  }
  // everything that is left is found by a query that covers it all
  double q[2] = {0, 0}; compare(c, model, tree.getPointsWithinRange({0, 0}, 1e9), q, 2, 1e9, true);
  c.nontrivial(model.size() > cap); c.label("with removals", removed > 0); c.label("divided", model.size() > cap);
}

PBT_MAIN({"kdtree", "the query returns some but not all of the points", kdTree, 60000, 1200000},
         {"quadtree_history", "more points than fit one leaf", quadTree, 60000, 1200000})
