// Indirect effects of total cross section perturbations along a history, and
// the sensitivities scored with them.
#include "common.hpp"
#include "report.hpp"

void vf_main() {
  const int K = (int)vf_param("cells", 2), steps = (int)vf_param("steps", 3);
  const bool scatter = vf_param("scatter", 0), mixed = vf_param("mixed", 0);
  const int strict = (int)vf_param("strict", 0); // 1: flights to a surface have no 1/cross section
  // nuclides a and b; slab i holds a, b or (mixed) both
  std::vector<double> c, N(K), sig(K), cap(K), sca(K);
  std::vector<int> has(K); // bit 0: a, bit 1: b
  double k[2], s[2];
  Str nuc, mat, surf, cel, est;
  for (int j = 0; j < 2; j++) {
    k[j] = vf::real(name_of("capture", j), 0.125, 8);
    s[j] = scatter ? vf::real(name_of("scatter", j), 0.125, 8) : 0;
    MG m;
    m.capture = {k[j]};
    if (scatter) m.scatter = {s[j]};
    nuc += mgnuclide(j ? "b" : "a", m);
  }
  const size_t arrangement = vf_choose("arrangement", mixed ? 3 : 2);
  for (int i = 0; i <= K; i++) {
    c.push_back(vf::real(name_of("c", i), -10, 10));
    if (i) vf_assume_lt(c[i - 1] + 0.125, c[i]);
    surf += planex(name_of("p", i), c[i]);
    est += "<current name=\"" + name_of("e", i) + "\" surface=\"" + name_of("p", i) + "\"><sensitivities><perturbation name=\"A\"/><perturbation name=\"B\"/></sensitivities></current>";
  }
  for (int i = 0; i < K; i++) {
    has[i] = mixed && i == (int)arrangement % K ? 3 : (i + arrangement) % 2 ? 2 : 1;
    N[i] = vf::real(name_of("N", i), 0.125, 4);
    std::vector<std::pair<Str, double>> parts;
    const double f[2] = {vf::real(name_of("fa", i), 0.125, 2), vf::real(name_of("fb", i), 0.125, 2)};
    sig[i] = cap[i] = 0;
    for (int j = 0; j < 2; j++)
      if (has[i] >> j & 1) {
        parts.push_back({j ? "b" : "a", f[j]});
        cap[i] += f[j] * k[j];
        sig[i] += f[j] * (k[j] + s[j]);
      }
    const double whole = (has[i] & 1 ? f[0] : 0) + (has[i] & 2 ? f[1] : 0); // fractions are normalised
    cap[i] /= whole;
    sig[i] /= whole;
    mat += material(name_of("m", i), N[i], parts);
    cel += cell(name_of("x", i), name_of("m", i), side(name_of("p", i), false) + side(name_of("p", i + 1), true));
  }
  cel += voidcell(side("p0", true)) + voidcell(side(name_of("p", K), false));
  Doc doc(general("surface") + multigroup(1, nuc) + materials(mat) + surfaces(surf) + cells(cel) + "<estimators>" + est + "</estimators><perturbations><total name=\"A\" nuclide=\"a\"/><total name=\"B\" nuclide=\"b\"/></perturbations>");
  const World w{doc.root};
  const PerturbationSet set{doc.root.child("perturbations"), w};
  EstimatorSet es{doc.root.child("estimators"), w, set, 1};
  Particle::transport_method = TransportMethod::Create(doc.root, w);
  const int start = (int)vf_choose("start", K);
  const double x0 = vf::real("x", -10, 10);
  vf_assume_lt(c[start] + 1e-3, x0);
  vf_assume_lt(x0 + 1e-3, c[start + 1]);
  static const double dirs[3][3] = {{1, 0, 0}, {-0.6, 0.8, 0}, {0, 1, 0}};
  const size_t di = vf_choose("direction", scatter ? 2 : 3);
  Particle p{Point{x0, 1, 2}, Direction{dirs[di][0], dirs[di][1], dirs[di][2]}, Group{1}, Particle::Type::neutron, 3};
  p.SetPerturbations(set);
  const Perturbation* per[2] = {&set.FindPerturbationByName("A"), &set.FindPerturbationByName("B")};
  for (auto* q : per) vf_check(p.GetIndirectEffect(q) == 0, "indirect effects start at zero");
  // reference; [0]: a flight to a surface gives minus its length, [1]: it has
  // the collision term as well (known finding)
  double effect[2][2] = {};
  std::vector<double> score[2][2];
  for (auto& a : score)
    for (auto& b : a) b.assign(K + 1, 0);
  RNG r = p.rng;
  double at = x0;
  Direction d = p.GetDirection();
  int in = start, surfaces = 0, collisions = 0;
  for (int n = 0;; n++) {
    if (n == steps) vf_bound("events per history");
    const double macro = N[in] * sig[in], f = -std::log(1 - U(r)) / macro, mu = X(d);
    const double to = mu > 0 ? (c[in + 1] - at) / mu : mu < 0 ? (c[in] - at) / mu : std::numeric_limits<double>::infinity();
    vf_assume(to - f > 1e-6 || to - f < -1e-6);
    const bool hit = f < to;
    const double length = hit ? f : to + constants::nudge;
    for (int v = 0; v < 2; v++)
      for (int j = 0; j < 2; j++)
        if (has[in] >> j & 1) effect[v][j] += (hit || v ? 1 / macro : 0) - length;
    at += mu * length;
    if (!hit) {
      surfaces++;
      const int plane = mu > 0 ? in + 1 : in;
      for (int v = 0; v < 2; v++)
        for (int j = 0; j < 2; j++) score[v][j][plane] += effect[v][j];
      in += mu > 0 ? 1 : -1;
      if (in < 0 || in == K) break;
      continue;
    }
    collisions++;
    U(r); // the nuclide
    if (!scatter) { // absorbed whatever nuclide it is
      break;
    }
    if (U(r) * sig[in] < cap[in]) break;
    U(r); // the group
    d = Direction{r};
    vf_assume(X(d) > 1e-2 || X(d) < -1e-2);
  }
  auto proxy = es.GetProxy();
  p.Transport(proxy, w);
  proxy.CommitHistory();
  for (int j = 0; j < 2; j++) {
    const double got = p.GetIndirectEffect(per[j]);
    if (strict) vf_check_eq(got, effect[0][j], "a flight that ends at a surface adds minus its length");
    else vf_check_eq((got - effect[0][j]) * (got - effect[1][j]), 0, "each flight through a material with the nuclide adds the logarithmic derivative of its density");
  }
  if (!surfaces) vf_reach("only a collision");
  if (strict) vf_reach("strict");
  if (surfaces && collisions) vf_reach("crossing and collision");
  if (collisions > 1) vf_reach("collisions");
  // the report lists, per estimator, mean and deviation of the current and of
  // its two sensitivities
  const auto l = listings(es.to_string());
  if (!strict && l.size() == 6 * (size_t)(K + 1)) {
    for (int i = 0; i <= K; i++)
      for (int j = 0; j < 2; j++)
        vf_check_eq((l[6 * i + 2 + 2 * j].v[0] - score[0][j][i]) * (l[6 * i + 2 + 2 * j].v[0] - score[1][j][i]), 0, "a sensitivity scores the current's score times the indirect effect", 1e-4);
    vf_reach("report");
  }
}
