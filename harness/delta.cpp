// Delta tracking through a slab whose temperature varies along x: the cross
// section is one value near the temperature of the tabulated total and another
// value elsewhere.
#include "ce.hpp"

void vf_main() {
  const int steps = (int)vf_param("steps", 3);
  const double s0 = vf_real("tabulated", 0.125, 8), s1 = vf_real("summed", 0.125, 8); // below and above the limit
  vf_assume_le(s0, s1);
  const double Tt = 300, edge = 1.01 * Tt; // validity of the tabulated total
  const double g = vf_real("g", 0.5, 40), b = vf_real("b", 0, 600), up = vf_real("upper", 310, 4000);
  const double lo = vf_real("left", -10, 10), hi = vf_real("right", -10, 10), x0 = vf_real("x", -10, 10), N = vf_real("N", 0.125, 4);
  vf_assume_lt(lo + 1e-3, x0);
  vf_assume_lt(x0 + 1e-3, hi);
  const bool split = vf_param("split", 0); // two cells of the material
  const double mid = split ? vf_real("middle", -10, 10) : 0;
  if (split) {
    vf_assume_lt(lo + 0.0625, mid);
    vf_assume_lt(mid + 0.0625, hi);
    vf_assume(x0 - mid > 1e-3 || mid - x0 > 1e-3);
  }
  auto T = [&](double x) { return g * x + b; };
  vf_assume_le(0.99 * Tt + 1e-6, T(lo)); // not colder than the data
  vf_assume_le(T(hi), up);
  const Table tot{{1}, {s0}}, cap{{1}, {s1}};
  const Str est = Str("<estimators><current name=\"l\" surface=\"p\"/>") + Str("<current name=\"r\" surface=\"q\"/>") + (split ? "<current name=\"m\" surface=\"s\"/>" : "") + "</estimators>";
  Doc doc(general("cell delta") + continuous(cenuclide("n", 12, evaluation("capture", "cap", cap, 10) + evaluation("total", "tot", tot, Tt))) + materials(material("m", N, {{"n", 1}})) + surfaces(planex("p", lo) + planex("q", hi) + (split ? planex("s", mid) : Str())) +
          "<temperature><linear>" + point_tag("gradient", g, 0, 0) + "<intercept b=\"" + text(b) + "\"/><bounds upper=\"" + text(up) + "\" lower=\"0\"/></linear></temperature>" + cells((split ? cell("a", "m", side("p", false) + side("s", true)) + cell("b", "m", side("s", false) + side("q", true)) : cell("c", "m", side("p", false) + side("q", true))) + voidcell(side("p", true)) + voidcell(side("q", false))) + est);
  const World w{doc.root};
  const PerturbationSet none{doc.root.child("perturbations"), w};
  EstimatorSet es{doc.root.child("estimators"), w, none, 1};
  Particle::transport_method = TransportMethod::Create(doc.root, w);
  static const double dirs[3][3] = {{1, 0, 0}, {-0.6, 0.8, 0}, {0, 1, 0}};
  const double* d = dirs[vf_choose("direction", 3)];
  Particle p{Point{x0, 1, 2}, Direction{d[0], d[1], d[2]}, ContinuousEnergy{0.5}, Particle::Type::neutron, 3};
  // reference
  RNG r = p.rng;
  double at = x0, len = 0;
  bool leaks = false;
  int virtuals = 0, middle = 0;
  Str last;
  for (int n = 0;; n++) {
    if (n == steps) vf_bound("events per history");
    const double f = -std::log(1 - U(r)) / (N * s1);
    const bool left = split && at < mid, right = split && !left;
    const double to = d[0] > 0 ? ((left ? mid : hi) - at) / d[0] : d[0] < 0 ? ((right ? mid : lo) - at) / d[0] : std::numeric_limits<double>::infinity();
    vf_assume(to - f > 1e-6 || to - f < -1e-6); // not exactly on the boundary
    if (to < f) {
      len += to + constants::nudge;
      at += d[0] * (to + constants::nudge);
      last = (left && d[0] > 0) || (right && d[0] < 0) ? "s" : d[0] > 0 ? "q" : "p";
      if (last[0] == 's') {
        middle++;
        continue;
      }
      leaks = true;
      break;
    }
    at += d[0] * f;
    len += f;
    vf_assume(T(at) - edge > 1e-6 || T(at) - edge < -1e-6);
    const double here = T(at) < edge ? s0 : s1;
    if (U(r) < here / s1) break;
    virtuals++;
  }
  auto proxy = es.GetProxy();
  p.Transport(proxy, w);
  proxy.CommitHistory();
  vf_check(p.event == (leaks ? Particle::Event::leak : Particle::Event::capture), "a tentative collision is real with probability total over majorant where it happens");
  vf_check_eq(X(p.GetPosition()), at, "tentative collisions are the majorant's flight distances apart");
  vf_check_eq(Y(p.GetPosition()), 1 + d[1] * len, "tentative collisions are the majorant's flight distances apart");
  vf_check_eq(Z(p.GetPosition()), 2, "tentative collisions are the majorant's flight distances apart");
  vf_check_eq(energy_of(p), 0.5, "virtual collisions change nothing but the position");
  vf_check_eq(p.GetDirection().Dot(Point{d[0], d[1], d[2]}), 1, "virtual collisions change nothing but the position");
  vf_check_eq(es.FindEstimatorByName("l").GetScore(0, 1), leaks && d[0] < 0, "virtual collisions are not scored as crossings");
  vf_check_eq(es.FindEstimatorByName("r").GetScore(0, 1), leaks && d[0] > 0, "virtual collisions are not scored as crossings");
  if (split) vf_check_eq(es.FindEstimatorByName("m").GetScore(0, 1), middle, "virtual collisions are not scored as crossings");
  if (!last.empty()) vf_check(p.current_surface == w.FindSurfaceByName(last), "a crossing records the surface that was crossed");
  vf_reach(leaks ? "leaked" : "captured");
  if (virtuals) vf_reach("virtual");
  if (virtuals && middle) vf_reach("virtual and crossing");
}
