// Histories through slabs of multigroup material, compared with a short
// reference simulation that draws the same random numbers.
#include "common.hpp"

namespace {
struct Ref { // one-group or two-group data of one nuclide
  double capture[2], scatter[2][2] /* [out][in] */;
  double total(int g, int G) const {
    double t = capture[g];
    for (int o = 0; o < G; o++) t += scatter[o][g];
    return t;
  }
};
} // namespace

void vf_main() {
  const int K = (int)vf_param("cells", 2);      // material slabs
  const int steps = (int)vf_param("steps", 3);  // events per history
  const int G = (int)vf_param("G", 1);
  const bool delta = vf_param("delta", 0), scatter = vf_param("scatter", 0), inner_void = vf_param("void", 0);
  const int slant = (int)vf_param("dirs", 0); // 0 fixed directions, 1 any unit direction
  // slabs between planes at c0 < c1 < ... ; material i in slab i
  std::vector<double> c, N;
  std::vector<Ref> ref(K);
  Str surf, cel, nuc, mat;
  for (int i = 0; i <= K; i++) {
    c.push_back(vf::real(name_of("c", i), -10, 10));
    if (i) vf_assume_lt(c[i - 1] + 0.125, c[i]);
    surf += planex(name_of("p", i), c[i]);
  }
  for (int i = 0; i < K; i++) {
    N.push_back(vf::real(name_of("N", i), 0.125, 4));
    MG m;
    for (int g = 0; g < G; g++) m.capture.push_back(ref[i].capture[g] = vf::real(name_of("k", i) + name_of("_", g), 0.125, 8));
    for (int o = 0; o < G; o++)
      for (int g = 0; g < G; g++) {
        ref[i].scatter[o][g] = scatter ? vf::real(name_of("s", i) + name_of("_", o) + name_of("_", g), 0, 8) : 0;
        if (scatter) m.scatter.push_back(ref[i].scatter[o][g]);
      }
    nuc += mgnuclide(name_of("n", i), m);
    mat += material(name_of("m", i), N[i], {{name_of("n", i), 1}});
    const Str between = side(name_of("p", i), false) + side(name_of("p", i + 1), true);
    cel += inner_void && i == 1 ? voidcell(between) : cell(name_of("x", i), name_of("m", i), between);
  }
  cel += voidcell(side("p0", true)) + voidcell(side(name_of("p", K), false));
  Str est;
  for (int i = 0; i <= K; i++) est += "<current name=\"" + name_of("e", i) + "\" surface=\"" + name_of("p", i) + "\"/>";
  Doc doc(general(delta ? "cell delta" : "surface") + multigroup(G, nuc) + materials(mat) + surfaces(surf) + cells(cel) + "<estimators>" + est + "</estimators>");
  const World w{doc.root};
  const PerturbationSet none{doc.root.child("perturbations"), w};
  EstimatorSet es{doc.root.child("estimators"), w, none, 1};
  Particle::transport_method = TransportMethod::Create(doc.root, w);
  const int start = inner_void ? (vf_choose("start", 2) ? K - 1 : 0) : (int)vf_choose("start", K);
  const double x0 = vf::real("x", -10, 10), y0 = vf::real("y", -10, 10), z0 = -1.5;
  vf_assume_lt(c[start] + 1e-3, x0);
  vf_assume_lt(x0 + 1e-3, c[start + 1]);
  double d[3];
  if (slant == 1) {
    vf_unit("w", d);
    vf_assume(d[0] > 1e-2 || d[0] < -1e-2);
  } else {
    static const double dirs[5][3] = {{1, 0, 0}, {-1, 0, 0}, {0.6, 0.8, 0}, {-0.8, 0, 0.6}, {0, 1, 0}};
    const size_t k = vf_choose("direction", scatter ? 2 : 5);
    std::copy(dirs[k], dirs[k] + 3, d);
  }
  const int g0 = (int)vf_choose("group", G);
  Particle p{Point{x0, y0, z0}, Direction{d[0], d[1], d[2]}, Group{(size_t)g0 + 1}, Particle::Type::neutron, 3};
  // reference ---------------------------------------------------------------
  RNG r = p.rng;
  Point pos = p.GetPosition();
  Direction dir = p.GetDirection();
  int at = start, g = g0, lastp = -1, n = 0;
  std::vector<double> crossed(K + 1, 0);
  Particle::Event ev = Particle::Event::birth;
  for (;; n++) {
    if (n == steps) vf_bound("events per history");
    const double sig = N[at] * ref[at].total(g, G);
    const double flight = -std::log(1 - U(r)) / sig;
    const double mu = X(dir);
    double to = std::numeric_limits<double>::infinity();
    if (mu > 0) to = (c[at + 1] - X(pos)) / mu;
    if (mu < 0) to = (c[at] - X(pos)) / mu;
    if (delta) vf_assume(to - flight > 1e-6 || to - flight < -1e-6); // a collision on the boundary itself is left open
    if (flight < to) {
      pos += dir * flight;
      if (delta) U(r); // the acceptance draw; everything is accepted when total equals majorant
      U(r);            // the nuclide
      const double v = U(r) * ref[at].total(g, G);
      if (v < ref[at].capture[g]) {
        ev = Particle::Event::capture;
        break;
      }
      const double q = U(r) * (ref[at].total(g, G) - ref[at].capture[g]);
      double acc = 0;
      for (int o = 0; o < G; o++) {
        acc += ref[at].scatter[o][g];
        if (q < acc || o == G - 1) {
          g = o;
          break;
        }
      }
      dir = Direction{r};
      vf_assume(X(dir) > 1e-2 || X(dir) < -1e-2);
    } else {
      lastp = mu > 0 ? at + 1 : at;
      crossed[lastp] += 1;
      pos += dir * (to + constants::nudge);
      at += mu > 0 ? 1 : -1;
      if (at < 0 || at == K || (inner_void && at == 1)) {
        ev = Particle::Event::leak;
        break;
      }
    }
  }
  // the code ------------------------------------------------------------------
  auto proxy = es.GetProxy();
  p.Transport(proxy, w);
  proxy.CommitHistory();
  vf_check(!p.IsAlive(), "a finished history ends in an absorbing event");
  vf_check(p.event == ev, "a history ends with the event the flight distances and reactions dictate");
  const Point q = p.GetPosition();
  vf_check_eq(X(q), X(pos), "a history ends where the flight distances put it");
  vf_check_eq(Y(q), Y(pos), "a history ends where the flight distances put it");
  vf_check_eq(Z(q), Z(pos), "a history ends where the flight distances put it");
  vf_check((int)std::get<Group>(p.GetEnergy()) == g + 1, "the particle carries the group of its last collision");
  vf_check_eq(X(p.GetDirection()), X(dir), "flight and crossing do not change the direction");
  vf_check_eq(Y(p.GetDirection()), Y(dir), "flight and crossing do not change the direction");
  if (lastp >= 0) vf_check(p.current_surface == w.FindSurfaceByName(name_of("p", lastp)), "a crossing records the surface that was crossed");
  else vf_check(!p.current_surface, "a particle that crossed nothing is on no surface");
  if (ev == Particle::Event::capture) vf_check(&p.GetCell() == &w.cells.at(at), "a captured particle is in the cell of its position");
  else vf_check(!p.GetCell().material, "a leaked particle is in a void cell");
  for (int i = 0; i <= K; i++) vf_check_eq(es.FindEstimatorByName(name_of("e", i)).GetScore(0, 1), crossed[i], "every crossing of a surface is scored once on that surface");
  vf_reach(ev == Particle::Event::capture ? "captured" : "leaked");
  if (n) vf_reach("several events");
}
