// Whole runs on one thread: histories with fission followed to the end, and
// the numbering of seeds.
#include "common.hpp"
#include "FixedSource.hpp"
#include <iostream>
#include "report.hpp"

namespace {
int particles, events, max_particles, max_events;
struct Tally { double left = 0, right = 0, mid = 0, sens[2][2] = {}; }; // sens[side][with the known finding or without]
struct Slab {
  int K; // cells
  double c[3], N[2], capture[2], fission[2], nubar;
} s;
// follows one particle and everything it produces
void follow(Tally& t, Point pos, Direction dir, unsigned long seed) {
  if (++particles > max_particles) vf_bound("particles per history");
  RNG r(seed);
  double effect[2] = {0, 0}; // of perturbing the first material's cross section
  int at = 0;
  while (at < s.K - 1 && X(pos) >= s.c[at + 1]) at++;
  while (true) {
    if (++events > max_events) vf_bound("events per history");
    const double tot = s.capture[at] + s.fission[at];
    const double flight = -std::log(1 - U(r)) / (s.N[at] * tot), mu = X(dir);
    vf_assume(mu > 1e-2 || mu < -1e-2);
    const double to = ((mu > 0 ? s.c[at + 1] : s.c[at]) - X(pos)) / mu;
    vf_assume(to - flight > 1e-6 || to - flight < -1e-6);
    const bool hit = !(to < flight);
    if (at == 0)
      for (int v = 0; v < 2; v++) effect[v] += (hit || v ? 1 / (s.N[at] * tot) : 0) - (hit ? flight : to + constants::nudge);
    if (!hit) {
      pos += dir * (to + constants::nudge);
      const int plane = mu > 0 ? at + 1 : at;
      (plane == 0 ? t.left : plane == s.K ? t.right : t.mid) += 1;
      for (int v = 0; v < 2; v++)
        if (plane == 0 || plane == s.K) t.sens[plane > 0][v] += effect[v];
      at += mu > 0 ? 1 : -1;
      if (at < 0 || at == s.K) return;
      continue;
    }
    pos += dir * flight;
    U(r); // the nuclide
    if (U(r) * tot < s.capture[at]) return;
    double yield = s.nubar + U(r);
    for (; yield >= 1; yield -= 1) {
      U(r); // the only group
      const Direction d{r};
      const auto child = r();
      vf_reach("produced");
      follow(t, pos, d, child);
    }
    return;
  }
}
} // namespace

void vf_main() {
  const long what = vf_param("what", 0);
  const bool fission = vf_param("fission", 0);
  const int histories = (int)vf_param("histories", 1), planes = (int)vf_param("cells", 1) - 1;
  max_particles = (int)vf_param("particles", 3);
  max_events = (int)vf_param("events", 4);
  s.K = 1 + planes;
  s.c[0] = -vf_real("left", 0.125, 4);
  s.c[s.K] = vf_real("right", 0.125, 4);
  if (planes) s.c[1] = vf_real("middle", 0.0625, 4);
  if (planes) vf_assume_lt(s.c[1] + 0.0625, s.c[2]);
  s.nubar = fission ? vf_real("nubar", (double)vf_param("least", 0), (double)vf_param("most", 2)) : 0;
  Str nuc, mat, surf = planex("p0", s.c[0]), cel;
  for (int i = 0; i < s.K; i++) {
    s.N[i] = vf::real(name_of("N", i), 0.125, 4);
    MG m;
    m.capture = {s.capture[i] = vf::real(name_of("capture", i), 0.125, 8)};
    s.fission[i] = 0;
    if (fission) {
      m.fission = {s.fission[i] = vf::real(name_of("fission", i), 0.125, 8)};
      m.nubar = {s.nubar};
      m.chi = {1};
    }
    nuc += mgnuclide(name_of("n", i), m);
    mat += material(name_of("m", i), s.N[i], {{name_of("n", i), 1}});
    surf += planex(name_of("p", i + 1), s.c[i + 1]);
    cel += cell(name_of("x", i), name_of("m", i), side(name_of("p", i), false) + side(name_of("p", i + 1), true));
  }
  cel += voidcell(side("p0", true)) + voidcell(side(name_of("p", s.K), false));
  const bool pert = vf_param("pert", 0);
  const Str sens = pert ? "<sensitivities><perturbation name=\"A\"/></sensitivities>" : "";
  Str est = "<current name=\"l\" surface=\"p0\">" + sens + "</current><current name=\"r\" surface=\"" + name_of("p", s.K) + "\">" + sens + "</current>";
  if (planes) est += "<current name=\"m\" surface=\"p1\"/>";
  const bool isotropic = what == 1;
  static const char* seeds[] = {"", "2", "1", "7", "123456"};
  static const unsigned long numbers[] = {1, 2, 1, 7, 123456};
  const size_t sd = what == 1 ? vf_choose("seed", (size_t)vf_param("seeds", 5)) : 3;
  auto input = [&](int h, const Str& seed) {
    return general("surface", h, 1, seed) + multigroup(1, nuc) + materials(mat) + surfaces(surf) + cells(cel) + "<estimators>" + est + "</estimators>" + (pert ? "<perturbations><total name=\"A\" nuclide=\"n0\"/></perturbations>" : "") +
           source(point_tag("constant", 0, 1, 2), isotropic ? "<isotropic/>" : point_tag("constant", 1, 0, 0), "1");
  };
  // reference: every history from its own seed, all its particles
  std::vector<Tally> want(histories);
  Tally sum, sq;
  for (int i = 0; i < histories; i++) {
    particles = events = 0;
    RNG r(numbers[sd] + i);
    Direction d{1, 0, 0};
    if (isotropic) d = Direction{r};
    follow(want[i], Point{0, 1, 2}, d, r());
    sum.left += want[i].left, sum.right += want[i].right, sum.mid += want[i].mid;
    for (int a = 0; a < 2; a++)
      for (int v = 0; v < 2; v++) sum.sens[a][v] += want[i].sens[a][v];
    sq.left += want[i].left * want[i].left, sq.right += want[i].right * want[i].right, sq.mid += want[i].mid * want[i].mid;
  }
  std::cout.setstate(std::ios::failbit);
  Doc doc(input(histories, seeds[sd]));
  FixedSource f{doc.root};
  const EstimatorSet es = f.Solve();
  vf_check_eq(es.FindEstimatorByName("l").GetScore(0, 1), sum.left, "a run scores what its histories' particles score, each followed once");
  vf_check_eq(es.FindEstimatorByName("r").GetScore(0, 1), sum.right, "a run scores what its histories' particles score, each followed once");
  if (planes) vf_check_eq(es.FindEstimatorByName("m").GetScore(0, 1), sum.mid, "a run scores what its histories' particles score, each followed once");
  const double n = histories;
  auto deviation = [&](double a, double b) { return std::sqrt(b - a * a / n) / n; };
  const auto l = listings(es.to_string());
  if (pert) {
    if (what == 1) {
      vf_check(l.size() >= 8, "every estimator is reported with its sensitivity");
      if (l.size() < 8) vf_stop();
    } else if (l.size() >= 8) {
      vf_check_eq((l[2].v[0] - sum.sens[0][0] / n) * (l[2].v[0] - sum.sens[0][1] / n), 0, "indirect effects start at zero with each particle", 1e-4);
      vf_check_eq((l[6].v[0] - sum.sens[1][0] / n) * (l[6].v[0] - sum.sens[1][1] / n), 0, "indirect effects start at zero with each particle", 1e-4);
      vf_reach("report");
    }
  } else if (l.size() >= 4) {
    vf_check_eq(l[0].v[0], sum.left / n, "the reported mean is per history", 1e-5);
    vf_check_eq(l[2].v[0], sum.right / n, "the reported mean is per history", 1e-5);
    vf_check_eq(l[1].v[0], deviation(sum.left, sq.left), "all scores of a history count as one", 1e-5);
    vf_check_eq(l[3].v[0], deviation(sum.right, sq.right), "all scores of a history count as one", 1e-5);
    vf_reach("report");
  }
  if (what == 1) { // the same histories run one at a time
    double a = 0, b = 0, sa = 0, sb = 0;
    for (int i = 0; i < histories; i++) {
      Doc one(input(1, std::to_string(numbers[sd] + i)));
      FixedSource g{one.root};
      const EstimatorSet e = g.Solve();
      a += e.FindEstimatorByName("l").GetScore(0, 1);
      b += e.FindEstimatorByName("r").GetScore(0, 1);
      if (pert) {
        const auto k = listings(e.to_string());
        if (k.size() < 8) vf_stop();
        sa += k[2].v[0];
        sb += k[6].v[0];
      }
    }
    if (pert) {
      vf_check_eq(l[2].v[0] * n, sa, "the sensitivities of a run are those of its one-history runs together", 1e-4);
      vf_check_eq(l[6].v[0] * n, sb, "the sensitivities of a run are those of its one-history runs together", 1e-4);
      vf_reach("sensitivity");
    }
    vf_check_eq(a, es.FindEstimatorByName("l").GetScore(0, 1), "a run is the sum of the one-history runs with consecutive seeds");
    vf_check_eq(b, es.FindEstimatorByName("r").GetScore(0, 1), "a run is the sum of the one-history runs with consecutive seeds");
    vf_reach(sd ? "seed" : "default seed");
  }
  if (sum.left > 1 || sum.right > 1) vf_reach("several scores");
}
