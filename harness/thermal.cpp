// Bound thermal scattering from small reconstructions: cross section, energy
// transfer and momentum transfer.
#include "ce.hpp"

namespace {
const double kB = constants::boltzmann;
// modes stored by the order of their singular values
struct Modes {
  int n, orders;
  std::vector<double> v;
  double at(int i, int o) const { return v[i * orders + o]; }
};
Modes modes(const Str& n, int k, int orders, double lo, double hi) {
  Modes m{k, orders, {}};
  for (int i = 0; i < k * orders; i++) m.v.push_back(vf::real(name_of(n, i), lo, hi));
  return m;
}
std::vector<double> upto(int n) {
  std::vector<double> x;
  for (int i = 0; i < n; i++) x.push_back(i);
  return x;
}
// value at T of something known at the temperatures Ts, nearest outside them
template <class F> double at_temperature(const std::vector<double>& Ts, double T, F f) {
  if (T < Ts.front()) return f(0);
  for (size_t i = 0; i + 1 < Ts.size(); i++)
    if (T < Ts[i + 1]) return f(i) + (T - Ts[i]) / (Ts[i + 1] - Ts[i]) * (f(i + 1) - f(i));
  return f(Ts.size() - 1);
}
// one partition of beta (per energy) or alpha (per beta) tables, one mode
struct Partition {
  std::vector<double> F, grid, cdf, gt /* [grid][T] */;
  double s;
  double at(int f, int g, const std::vector<double>& Ts, double T) const {
    return at_temperature(Ts, T, [&](int t) { return s * cdf[f] * gt[g * Ts.size() + t]; });
  }
  Str node(const Str& n, const std::vector<double>& Ts, const Str& axis) const {
    return "<partition CDF=\"" + write_hdf5(n + "C", {F, {0}}, cdf) + "\" S=\"" + write_hdf5(n + "S", {{0}}, {s}) + "\" " + axis + "=\"" + write_hdf5(n + "G", {grid, Ts, {0}}, gt) + "\"/>";
  }
};
// piecewise linear distribution through given points
struct Pdf {
  std::vector<double> x, F;
  double inverse(double u) const {
    size_t i = 1;
    while (i + 1 < F.size() && !(u < F[i])) i++;
    return x[i - 1] + (u - F[i - 1]) / (F[i] - F[i - 1]) * (x[i] - x[i - 1]);
  }
  double cdf(double a) const {
    size_t i = 1;
    while (i + 1 < x.size() && !(a < x[i])) i++;
    return F[i - 1] + (a - x[i - 1]) * (F[i] - F[i - 1]) / (x[i] - x[i - 1]);
  }
};
} // namespace

void vf_main() {
  const long what = vf_param("what", 0);
  if (what == 0) { // cross section
    const int orders = (int)vf_param("orders", 2), nE = (int)vf_param("nE", 3), nT = (int)vf_param("nT", 2);
    const std::vector<double> allE = {0.0009765625, 0.5009765625, 2.0009765625, 2.2509765625}, allT = {256, 384, 512};
    const std::vector<double> Es(allE.end() - nE, allE.end()), Ts(allT.begin(), allT.begin() + nT);
    const Modes t = modes("t", nT, orders, -4, 4), e = modes("e", nE, orders, -4, 4), s = modes("s", 1, orders, 0, 4);
    const double E = vf_real("E", 1e-6, 4), T = vf_real("T", 1, 3000), cap = vf_real("capture", 0, 8);
    const Table major = any_table("major", {1}), free = any_table("free", {1}), tot = any_table("total", {1});
    const bool photon = vf_choose("type", 2), first = vf_choose("first", 2);
    const Partition b{{0.5}, Es, {1}, std::vector<double>(nE * nT, 1), 1}, a{{0.5}, {1}, {1}, std::vector<double>(nT, 1), 1};
    const Str tsl = "<tsl majorant=\"" + table("major", major.x, major.y) + "\" total_T=\"" + write_hdf5("tT", {Ts, upto(orders)}, t.v) + "\" total_S=\"" + write_hdf5("tS", {upto(orders)}, s.v) + "\" total_E=\"" + write_hdf5("tE", {Es, upto(orders)}, e.v) +
                    "\" beta_cutoff=\"20\" alpha_cutoff=\"1000\"><beta_partitions>" + b.node("b", Ts, "E_T") + "</beta_partitions><alpha_partitions>" + a.node("a", Ts, "beta_T") + "</alpha_partitions></tsl>";
    const Str cp = "<capture file=\"" + table("cap", {1}, {cap}) + "\" temperature=\"300\"/>", sc = "<scatter>" + evaluation("xs", "free", free, T) + (photon ? "" : tsl) + "</scatter>", to = evaluation("total", "tot", tot, T);
    const Str type = photon ? "photon" : "neutron";
    Doc doc(general("surface", 1, 1, "", type) + continuous(cenuclide("n", 1, first ? sc + cp + to : to + cp + sc, type)) + materials(material("m", 1, {{"n", 1}})) + surfaces(planex("p", 10)) + cells(cell("c", "m", side("p", true), " temperature=\"" + text(T) + "\"") + cell("d", "m", side("p", false), " temperature=\"300\"")));
    const World w{doc.root};
    Particle p{Point{0, 0, 0}, Direction{1, 0, 0}, ContinuousEnergy{E}, photon ? Particle::Type::photon : Particle::Type::neutron, 1, &w.cells[0]};
    const Nuclide& n = *w.FindNuclideByName("n");
    if (vf_param("asked", 0)) { // before: at another energy or in another cell
      const bool other = vf_choose("asked", 2);
      if (other) p.SetEnergy(ContinuousEnergy{0.75});
      else p.SetCell(w.cells[1]);
      n.GetTotal(p), n.GetMajorant(p);
      p.SetEnergy(ContinuousEnergy{E});
      p.SetCell(w.cells[0]);
    }
    const double got = n.GetTotal(p), maj = n.GetMajorant(p);
    if (photon || E >= Es.back()) {
      vf_check_eq(got, tot.y[0], "above its cutoff energy a bound scatterer has its ordinary cross section");
      vf_check_eq(maj, tot.y[0], "above its cutoff energy a bound scatterer has its ordinary cross section");
      vf_reach(photon ? "photon" : "above the cutoff");
      return;
    }
    auto value = [&](int i, int k) {
      double r = 0;
      for (int o = 0; o < orders; o++) r += s.at(0, o) * e.at(i, o) * t.at(k, o);
      return r;
    };
    const double want = at_temperature(Ts, T, [&](int k) {
      std::vector<double> y;
      for (int i = 0; i < nE; i++) y.push_back(value(i, k));
      return lookup(Es, y, E);
    });
    vf_check_eq(got, want + cap, "below its cutoff energy the cross section is interpolated in energy and temperature");
    vf_check_eq(maj, major.y[0] + cap, "below its cutoff energy the majorant is the tabulated one");
    vf_reach(E < Es.front() ? "below the energies" : "between energies");
    vf_reach(T < Ts.front() ? "cold" : T >= Ts.back() ? "hot" : "between temperatures");
  } else { // energy and momentum transfer
    const int nF = (int)vf_param("nF", 1), parts = (int)vf_param("parts", 1), fix = (int)vf_param("fix", 0), tries = (int)vf_param("tries", 2);
    const bool tiny = vf_param("tiny", 0);
    static const double temps[] = {256, 64, 512, 128};
    const double T = temps[vf_choose("T", (size_t)vf_param("temps", 2))], kT = kB * T, awr = 2;
    const std::vector<double> Ts = {128, 384};
    const double u = kB * 256;
    const std::vector<double> Es = parts == 1 ? std::vector<double>{u, 4 * u} : parts == 2 ? std::vector<double>{u, 2 * u, 4 * u} : std::vector<double>{u / 2, u, 1.5 * u, 2 * u, 4 * u};
    const std::vector<double> betas = parts == 1 ? std::vector<double>{0.5, 2} : parts == 2 ? std::vector<double>{0.5, 1, 4} : std::vector<double>{0.25, 0.5, 1, 2, 4};
    static const int ends[] = {0, 1, 3, 5};
    const double bcut = vf_param("cut", 0) ? 1.5 : 8, acut = 64; // cut: the last beta lies beyond the cutoff
    double E;
    const double e = vf_real("E/u", 0.0625, 3.9375); // symbolic even when held, so that roots stay exact
    if (fix & 1) vf_assume_eq(e, vf_choose("high", 2) ? 2.375 : 0.6875);
    E = u * e;
    auto held = [&](int bit, double v, double to) {
      if (fix >> bit & 1) vf_assume_eq(v, to);
      return v;
    };
    // beta tables: every value of the distribution, increasing, between the ends
    std::vector<double> F = nF == 1 ? std::vector<double>{0.5} : std::vector<double>{0.25, 0.75};
    std::vector<Partition> B, A;
    auto fill = [&](const Str& name, const std::vector<double>& grid, double lo, double hi) {
      std::vector<Partition> r;
      for (int k = 0; k < parts; k++) {
        Partition q;
        q.F = F;
        q.grid = std::vector<double>(grid.begin() + ends[k], k + 1 == parts ? grid.end() : grid.begin() + ends[k + 1]);
        q.s = 1;
        for (int i = 0; i < nF; i++) q.cdf.push_back(fix & 16 ? lo / 4 + hi * (1 + 2 * i + k) / 16 : vf::real(name + name_of("c", k) + name_of("_", i), lo, hi));
        for (int i = 1; i < nF; i++) vf_assume_lt(q.cdf[i - 1] + 0.0625, q.cdf[i]);
        for (size_t g = 0; g < q.grid.size() * Ts.size(); g++) q.gt.push_back(fix & 2 ? 0.5 + 0.25 * (g % 3) - (parts > 2 ? 0.0625 * k : 0) : vf::real(name + name_of("g", k) + name_of("_", (int)g), 0.25, 1));
        r.push_back(q);
      }
      return r;
    };
    B = fill("b", Es, -0.5, vf_param("cut", 0) ? 1.25 : 6);
    A = fill("a", betas, 0.0625, 24);
    Str bp, ap;
    for (int k = 0; k < parts; k++) bp += B[k].node(name_of("b", k), Ts, "E_T"), ap += A[k].node(name_of("a", k), Ts, "beta_T");
    const Str tsl = "<tsl majorant=\"" + table("major", {1}, {1}) + "\" total_T=\"" + write_hdf5("tT", {Ts, {0}}, {1, 1}) + "\" total_S=\"" + write_hdf5("tS", {{0}}, {1}) + "\" total_E=\"" + write_hdf5("tE", {Es, {0}}, std::vector<double>(Es.size(), 1)) + "\" beta_cutoff=\"" + text(bcut) + "\" alpha_cutoff=\"" + text(acut) +
                    "\"><beta_partitions>" + bp + "</beta_partitions><alpha_partitions>" + ap + "</alpha_partitions></tsl>";
    Doc doc(general() + continuous(cenuclide("n", awr, evaluation("total", "one", Table{{1}, {1}}, T) + "<scatter>" + evaluation("xs", "one", Table{{1}, {1}}, T) + tsl + "</scatter>")) + materials(material("m", 1, {{"n", 1}})) + surfaces(planex("p", 10)) + cells(cell("c", "m", side("p", true), " temperature=\"" + text(T) + "\"")));
    const World w{doc.root};
    const Direction d{1, 0, 0};
    Particle p{Point{0.25, -0.5, 0.75}, d, ContinuousEnergy{E}, Particle::Type::neutron, 7, &w.cells[0]};
    // reference
    auto pick = [&](const std::vector<Partition>& P, size_t g, int f) {
      size_t k = 0;
      while (g >= P[k].grid.size()) g -= P[k++].grid.size();
      return P[k].at(f, (int)g, Ts, T);
    };
    RNG r = p.rng;
    U(r); // the reaction
    // energy transfer: from the distribution of a neighbouring incident energy
    size_t hi = 0;
    while (!(E < Es[hi])) hi++;
    const double pe = U(r);
    const size_t g = hi == 0 ? 0 : pe < (E - Es[hi - 1]) / (Es[hi] - Es[hi - 1]) ? hi : hi - 1;
    Pdf pb{{-Es[g] / kT}, {0}};
    for (int f = 0; f < nF; f++) pb.x.push_back(pick(B, g, f)), pb.F.push_back(F[f]);
    pb.x.push_back(bcut), pb.F.push_back(1);
    double b;
    for (int n = 1;; n++) {
      if (n > tries) vf_bound("tries for an energy transfer");
      b = pb.inverse(held(2, U(r), fix >> 2 & 1 && vf_choose("tail", 2) ? 0.625 : 0.375));
      vf_assume(b * kT + E > 1e-6 * u || b * kT + E < -1e-6 * u); // not all energy, exactly
      if (b * kT > -E) break;
      vf_reach("beta again");
    }
    const double Eout = E + b * kT;
    // momentum transfer: from the distribution of a neighbouring |beta|
    const double ab = b < 0 ? -b : b;
    vf_assume(ab > 1e-6);
    hi = 0;
    while (hi < betas.size() && !(ab < betas[hi])) hi++;
    const bool infeasible = hi < betas.size() && (b > 0 ? bcut <= betas[hi] : betas[hi] * kT > E);
    if (hi < betas.size()) vf_assume(betas[hi] * kT - E > 1e-6 * u || betas[hi] * kT - E < -1e-6 * u);
    if (tiny) vf_assume(hi == 0 && infeasible);
    else vf_assume(!(hi == 0 && infeasible)); // known finding
    const double pa = U(r);
    const size_t k = tiny || hi == 0 ? 0 : hi == betas.size() || infeasible ? hi - 1 : pa < (ab - betas[hi - 1]) / (betas[hi] - betas[hi - 1]) ? hi : hi - 1;
    const double gb = b < 0 ? -betas[k] : betas[k], q = std::sqrt(E), qg = std::sqrt(E + gb * kT), akT = awr * kT;
    const double lo = (q - qg) * (q - qg) / akT, up = (q + qg) * (q + qg) / akT;
    double t = 0; // where between the smallest and the largest transfer
    if (!tiny) {
      vf_assume_le(lo + 1e-6, up);
      Pdf pA{{0}, {0}};
      for (int f = 0; f < nF; f++) pA.x.push_back(pick(A, k, f)), pA.F.push_back(F[f]);
      pA.x.push_back(acut), pA.F.push_back(1);
      const double Flo = pA.cdf(lo), Fup = pA.cdf(up), v = held(3, U(r), 0.375);
      vf_assume_lt(1e-9, v); // rounding at the very limits is left out
      vf_assume_lt(v, 1 - 1e-9);
      const double a = pA.inverse(Flo + v * (Fup - Flo));
      vf_assume_lt(lo, a); // a distribution that increases
      vf_assume_lt(a, up);
      t = (a - lo) / (up - lo);
      vf_assume_le(0, t);
      vf_assume_le(t, 1);
    }
    const double mu = 1 - 2 * t, ro = std::sqrt(E) * std::sqrt(Eout);
    vf_assume_le(mu * mu, 1);
    vf_assume_lt(0, ro);
    w.FindNuclideByName("n")->Interact(p);
    vf_check(p.event == Particle::Event::scatter && p.IsAlive(), "scattering keeps the particle alive");
    const double got = energy_of(p);
    vf_check_le(0, got, "no more than the neutron's energy is given away");
    vf_check_le(got / u, E / u + bcut * (T / 256), "no more than the cutoff is gained");
    vf_check_eq(got / u, Eout / u, "the energy transfer is drawn from the tabulated distribution");
    const Direction after = p.GetDirection();
    if (!tiny && !vf_param("energy", 0)) vf_check_eq(after.Dot(d), mu, "the momentum transfer is drawn from the tabulated distribution between its kinematic limits");
    vf_check(p.GetPosition() == Point(0.25, -0.5, 0.75), "an interaction does not move the particle");
    vf_reach(b < 0 ? "energy lost" : "energy gained");
    if (hi == 0) vf_reach("below the betas");
    if (hi == betas.size()) vf_reach("beyond the betas");
    if (infeasible) vf_reach(b < 0 ? "infeasible beta" : "beta beyond the cutoff");
  }
}
