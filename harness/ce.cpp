// Continuous-energy cross sections, reaction choice and free-gas kinematics.
#include "ce.hpp"

void vf_main() {
  const long what = vf_param("what", 0);
  const double kB = constants::boltzmann;
  if (what == 0) { // cross sections at a temperature
    const std::vector<double> grid = {0.0009765625, 2.0009765625}; // exact differences
    const bool linear = vf_param("linear", 0), full = vf_param("full", 1);
    const bool photon = full && vf_choose("type", 2);
    const int mask = full ? (int)vf_choose("reactions", 8) : 2 + (int)vf_choose("reactions", 2);
    const int order = full ? (int)vf_choose("order", 2) : 0;
    const long asked = vf_param("asked", 0); // what the same particle asked for before
    const double awr = asked ? 12 : vf_real("awr", 0.5, 240);
    const double E = vf_real("E", 1e-10, 5);
    const double Tt = asked ? 300 : vf_choose("cold_total", 2) ? 0 : vf_real("T_total", 1, 3000), Ts = asked ? 300 : vf_choose("cold_scatter", 2) ? 0 : vf_real("T_scatter", 1, 3000);
    const Table tot = any_table("tot", grid), cap = any_table("cap", grid), sca = any_table("sca", grid), fis = any_table("fis", grid);
    std::vector<Str> r;
    if (mask & 1) r.push_back(evaluation("capture", "cap", cap, 20));
    if (mask & 2) r.push_back("<scatter>" + evaluation("xs", "sca", sca, Ts) + "</scatter>");
    if (mask & 4) r.push_back("<fission>" + evaluation("xs", "fis", fis, 10) + "</fission>");
    r.push_back(evaluation("total", "tot", tot, Tt));
    if (order) std::reverse(r.begin(), r.end());
    Str body;
    for (auto& x : r) body += x;
    double T, up, px = 0;
    Str cell_extra, global;
    if (linear) {
      const double g = vf_real("g", -100, 100), b = vf_real("b", 0, 3000);
      px = vf_real("x", -9, 9);
      up = vf_real("upper", 0.125, 3000);
      T = g * px + b;
      vf_assume_le(0.125, T);
      vf_assume_le(T, up);
      global = "<temperature><linear>" + point_tag("gradient", g, 0, 0) + "<intercept b=\"" + text(b) + "\"/><bounds upper=\"" + text(up) + "\" lower=\"0\"/></linear></temperature>";
    } else {
      T = up = vf_choose("absolute_zero", 2) ? 0 : vf_real("T", 0.125, 3000);
      cell_extra = " temperature=\"" + text(T) + "\"";
    }
    Doc doc(general("cell delta", 1, 1, "", photon ? "photon" : "neutron") + continuous(cenuclide("n", awr, body, photon ? "photon" : "neutron")) + materials(material("m", 1, {{"n", 1}})) + surfaces(planex("p", 10)) + global +
            cells(cell("c", "m", side("p", true), cell_extra) + cell("d", "m", side("p", false), " temperature=\"77\"")));
    const World w{doc.root};
    const auto type = photon ? Particle::Type::photon : Particle::Type::neutron;
    Particle p{Point{px - (asked ? 1 : 0), 0, 0}, Direction{1, 0, 0}, ContinuousEnergy{E}, type, 1, &w.cells[0]};
    const Nuclide& n = *w.FindNuclideByName("n");
    if (asked) {
      const size_t k = vf_choose("asked", 3); // elsewhere in the cell, in another cell, at another energy
      if (k) p.Stream(1);
      if (k == 1) p.SetCell(w.cells[1]);
      if (k == 2) p.SetEnergy(ContinuousEnergy{0.25});
      n.GetTotal(p), n.GetMajorant(p);
      if (!k) p.Stream(1);
      p.SetCell(w.cells[0]);
      p.SetEnergy(ContinuousEnergy{E});
    }
    // an evaluation is good for a temperature within one percent of its own
    auto fits = [](double own, double at) { return own != 0 && (at - own <= 0 ? own - at : at - own) < 0.01 * own; };
    auto far_above = [](double own, double at) { return own != 0 && own - at >= 0.01 * own; }; // hotter than wanted
    auto scatter = [&](double at, bool lenient) {
      if (fits(Ts, at) || (lenient && far_above(Ts, at))) return sca.at(E);
      if (!photon && (awr <= 1 || E < 500 * kB * at / awr)) return sca.at(E) / free_gas(awr, E, Ts) * free_gas(awr, E, at);
      return sca.at(E);
    };
    auto xs = [&](double at, bool lenient) {
      if (fits(Tt, at) || (lenient && far_above(Tt, at))) return tot.at(E);
      return (mask & 1 ? cap.at(E) : 0.) + (mask & 2 ? scatter(at, lenient) : 0.) + (mask & 4 ? fis.at(E) : 0.);
    };
    // boundaries of the conditions carry rounding
    for (double own : {Tt, Ts})
      for (double at : {T, up})
        if (own != 0) {
          vf_assume(at - 1.01 * own > 1e-6 || at - 1.01 * own < -1e-6);
          vf_assume(at - 0.99 * own > 1e-6 || at - 0.99 * own < -1e-6);
        }
    for (double at : {T, up}) vf_assume(E * awr - 500 * kB * at > 1e-16 || E * awr - 500 * kB * at < -1e-16);
    const bool hot_t = far_above(Tt, T), hot_s = (mask & 2) && far_above(Ts, T), hot_tu = far_above(Tt, up), hot_su = (mask & 2) && far_above(Ts, up);
    const double got = n.GetTotal(p), maj = n.GetMajorant(p);
    // Data evaluated at a much higher temperature is at present used as it is
    // (known finding, strict=1); adjusting it would be right as well.
    if (hot_t || hot_s) vf_check_eq((got - xs(T, true)) * (got - xs(T, false)), 0, "the total is the tabulated one where it is valid, else the sum of the reactions at the local temperature");
    else vf_check_eq(got, xs(T, true), "the total is the tabulated one where it is valid, else the sum of the reactions at the local temperature");
    if (hot_tu || hot_su) vf_check_eq((maj - xs(up, true)) * (maj - xs(up, false)), 0, "the majorant is the cross section at the highest temperature of the cell");
    else vf_check_eq(maj, xs(up, true), "the majorant is the cross section at the highest temperature of the cell");
    if (hot_t || hot_s) {
      vf_reach("colder than evaluated");
      if (vf_param("strict", 0)) {
        const double want = xs(T, false);
        vf_assume(want - got > 1e-3 || got - want > 1e-3);
        vf_check(false, "data evaluated at a much higher temperature is not used as it is");
      }
    } else if (fits(Tt, T)) vf_reach("tabulated");
    else vf_reach("summed");
    if (hot_tu || hot_su) vf_reach("majorant colder than evaluated");
  } else if (what == 1) { // the majorant bounds the total in a cell of varying temperature
    // one library processed at one temperature, whose total is the sum of its reactions
    const double awr = vf_real("awr", 0.5, 240), E = vf_real("E", 1e-10, 5), Te = vf_real("T_data", 1, 3000);
    const Table cap{{1}, {vf_real("cap", 0, 50)}}, sca{{1}, {vf_real("sca", 0, 50)}}, tot{{1}, {cap.y[0] + sca.y[0]}};
    const double g = vf_real("g", -100, 100), b = vf_real("b", 0, 3000), px = vf_real("x", -9, 9), up = vf_real("upper", 1, 3000), T = g * px + b;
    vf_assume_le(1, T);
    vf_assume_le(T, up);
    Doc doc(general("cell delta") + continuous(cenuclide("n", awr, evaluation("total", "tot", tot, Te) + evaluation("capture", "cap", cap, Te) + "<scatter>" + evaluation("xs", "sca", sca, Te) + "</scatter>")) +
            materials(material("m", 1, {{"n", 1}})) + surfaces(planex("p", 10)) + "<temperature><linear>" + point_tag("gradient", g, 0, 0) + "<intercept b=\"" + text(b) + "\"/><bounds upper=\"" + text(up) + "\" lower=\"0\"/></linear></temperature>" +
            cells(cell("c", "m", side("p", true))));
    const World w{doc.root};
    const Particle p{Point{px, 0, 0}, Direction{1, 0, 0}, ContinuousEnergy{E}, Particle::Type::neutron, 1, &w.cells[0]};
    // the factor grows with temperature and is at least one (a mathematical fact)
    const double t[3] = {T, up, Te};
    double f[3];
    for (int i = 0; i < 3; i++) {
      f[i] = free_gas(awr, E, t[i]);
      vf_assume_le(1, f[i]);
    }
    vf_assume_le(f[0], f[1]);
    for (int i : {0, 1}) {
      if (t[i] <= Te) vf_assume_le(f[i], f[2]);
      else vf_assume_le(f[2], f[i]);
    }
    const Nuclide& n = *w.FindNuclideByName("n");
    const double got = n.GetTotal(p), maj = n.GetMajorant(p);
    vf_check_le(got, maj, "the majorant is not below the total anywhere in its cell");
    vf_check_le(w.cells[0].material->GetMicroscopicTotal(p), w.cells[0].material->GetMicroscopicMajorant(p), "the majorant is not below the total anywhere in its cell");
    vf_reach("bounded");
  } else if (what == 2) { // which reaction happens, and fission
    const std::vector<double> grid = {0.0009765625, 2.0009765625}; // exact differences
    const double E = vf_real("E", 1e-10, 5);
    const Table tot = any_table("tot", grid, 0.0625), cap = any_table("cap", grid), sca = any_table("sca", grid), fis = any_table("fis", grid), nu = any_table("nu", grid, 0, vf_param("nu", 2));
    // capture, scattering and fission in any order, or a subset
    static const int orders[][4] = {{1, 2, 3}, {3, 2, 1}, {2, 1, 3}, {1, 3}, {2, 3}, {1}, {3}, {0}};
    const int* ord = orders[vf_choose("order", 7)];
    const bool given = vf_choose("total_first", 2);
    Str body;
    auto total = evaluation("total", "tot", tot, 300);
    if (given) body += total;
    double xs[4] = {0, cap.at(E), sca.at(E), fis.at(E)}, sum = 0;
    for (int i = 0; i < 3 && ord[i]; i++) {
      if (ord[i] == 1) body += evaluation("capture", "cap", cap, 300);
      if (ord[i] == 2) body += "<scatter>" + evaluation("xs", "sca", sca, 300) + "</scatter>";
      if (ord[i] == 3) body += "<fission>" + evaluation("xs", "fis", fis, 300) + "<nubar file=\"" + table("nu", nu.x, nu.y) + "\"/></fission>";
    }
    // warm: the cell is hotter than the data
    const long warm = vf_param("warm", 0);
    const double T = warm ? 400 : 300;
    if (warm == 1) vf_assume_le(1e-5, E); // above the free-gas limit
    if (warm == 2) {
      vf_assume_eq(E, std::ldexp(1, -21));
      xs[2] = xs[2] / free_gas(12, E, 300) * free_gas(12, E, T);
    }
    for (int i = 0; i < 3 && ord[i]; i++) sum += xs[ord[i]];
    const double all = warm ? sum : tot.at(E);
    if (!given) body += total;
    // field: the temperature varies and is T at the particle only
    const bool field = vf_param("field", 0);
    Doc doc(general() + continuous(cenuclide("n", 12, body)) + materials(material("m", 1, {{"n", 1}})) + surfaces(planex("p", 10)) +
            (field ? "<temperature><linear>" + point_tag("gradient", 16, 0, 0) + "<intercept b=\"" + std::to_string((int)T - 4) + "\"/><bounds upper=\"20000\" lower=\"0\"/></linear></temperature>" : Str{}) +
            cells(cell("c", "m", side("p", true), field ? Str{} : " temperature=\"" + std::to_string((int)T) + "\"")));
    const World w{doc.root};
    Particle p{Point{0.25, -0.5, 0.75}, Direction{0.6, 0, 0.8}, ContinuousEnergy{E}, Particle::Type::neutron, 7, &w.cells[0]};
    const Nuclide& n = *w.FindNuclideByName("n");
    // the table's total may exceed the sum of the reactions: then drawn again
    RNG r = p.rng;
    vf_assume_le(0.0625, sum);
    double v = U(r) * all;
    int again = 0;
    while (v >= sum) {
      if (++again == vf_param("again", 2)) vf_bound("draws for a reaction");
      v = U(r) * all;
    }
    int want = 0;
    double acc = 0;
    for (int i = 0; i < 3 && ord[i] && !want; i++)
    {
      acc += xs[ord[i]];
      if (warm == 2) vf_assume(acc - v > 1e-9 || acc - v < -1e-9);
      if (acc > v) want = ord[i];
    }
    double yield = 0;
    if (want == 2) { // the thermal motion is not at issue here: one collision with it
      RNG q = r;
      vf_assume_eq(E, warm == 2 ? std::ldexp(1, -21) : 0.25);
      for (double d : {0.5, 0.25, 0., 0.5, 0., 0.125, 0.75, 0.375, 0.625}) vf_assume_eq(U(q), d);
    }
    if (want == 3) yield = nu.at(E) + U(r);
    n.Interact(p);
    vf_check(p.event == (want == 1 ? Particle::Event::capture : want == 2 ? Particle::Event::scatter : Particle::Event::fission), "a reaction is chosen with probability proportional to its cross section");
    vf_check(p.IsAlive() == (want == 2), "capture and fission end the particle, scattering does not");
    vf_check(p.GetPosition() == Point(0.25, -0.5, 0.75), "an interaction does not move the particle");
    if (want != 2) vf_check_eq(energy_of(p), E, "an absorbed particle keeps its energy");
    if (again) vf_reach("drawn again");
    if (warm) vf_check(again == 0, "a total summed over the reactions always selects one");
    Bank b;
    p.MoveSecondariesTo(b);
    std::vector<Particle> kids;
    while (!b.empty()) {
      kids.push_back(b.back());
      b.pop_back();
    }
    if (want != 3) {
      vf_check(kids.empty(), "only fission produces particles");
      vf_reach(want == 1 ? "captured" : "scattered");
      return;
    }
    const double k = (double)kids.size();
    vf_check_le(k, yield, "the number of fission neutrons is the mean rounded down or up at random");
    vf_check(yield < k + 1, "the number of fission neutrons is the mean rounded down or up at random");
    vf_reach(kids.empty() ? "none" : kids.size() == 1 ? "one" : "several");
    for (size_t i = 0; i < kids.size(); i++) {
      const Particle& q = kids[kids.size() - 1 - i];
      const double v1 = U(r), v2 = U(r);
      RNG child{r()};
      vf_check_eq(energy_of(q), E, "fission neutrons carry the incident energy");
      vf_check(q.GetPosition() == Point(0.25, -0.5, 0.75), "fission neutrons start where the fission happened");
      vf_check(q.GetType() == Particle::Type::neutron, "fission produces neutrons");
      vf_check(q.IsAlive() && q.event == Particle::Event::birth, "fission neutrons are born alive");
      vf_check(&q.GetCell() == &w.cells[0], "fission neutrons are born in the cell of the fission");
      const Direction d = q.GetDirection();
      vf_check_eq(d.Dot(d), 1, "fission neutrons are emitted isotropically");
      vf_check_eq(X(d) * X(d), (2 * v1 - 1) * (2 * v1 - 1), "fission neutrons are emitted isotropically");
      vf_check_eq(Y(d) * Y(d), (1 - X(d) * X(d)) * std::cos(2 * constants::pi * v2) * std::cos(2 * constants::pi * v2), "fission neutrons are emitted isotropically");
      vf_check(q.rng == child, "each fission neutron gets its own random number stream");
    }
  } else if (what == 3) { // elastic collision with a target in thermal motion
    static const double dirs[2][3] = {{1, 0, 0}, {0, 1, 0}}; // exact, so that rotations are
    const int fix = (int)vf_param("fix", 0); // quantities held at one value, by bit
    const int far = (int)vf_param("far", 0); // which of three settings
    auto pick = [&](double a, double b, double c) { return far == 0 ? a : far == 1 ? b : c; };
    auto held = [&](int bit, double v, double to) {
      if (fix >> bit & 1) vf_assume_eq(v, to);
      return v;
    };
    const double T = fix & 1 ? 300 : vf_real("T", 10, 3000), awr = vf_param("heavy", 0) ? 236 : fix & 128 ? pick(12, 1, 4) : vf_real("awr", 0.5, 240), E = kB * T * (fix & 2 ? pick(0.25, 9, 2) : vf_real("E/kT", 0.01, 400));
    const double* d0 = dirs[vf_choose("direction", 2)];
    const Table one{{1}, {1}};
    // T at the collision, other temperatures elsewhere in the cell
    const Str global = "<temperature><linear>" + point_tag("gradient", 32, 0, 0) + "<intercept b=\"" + text(T - 8) + "\"/><bounds upper=\"4096\" lower=\"1\"/></linear></temperature>";
    Doc doc(general("cell delta") + continuous(cenuclide("n", awr, evaluation("total", "one", one, T) + "<scatter>" + evaluation("xs", "one", one, T) + "</scatter>")) + materials(material("m", 1, {{"n", 1}})) + surfaces(planex("p", 100)) + global +
            cells(cell("c", "m", side("p", true))));
    const World w{doc.root};
    const Direction d{d0[0], d0[1], d0[2]};
    Particle p{Point{0.25, -0.5, 0.75}, d, ContinuousEnergy{E}, Particle::Type::neutron, 7, &w.cells[0]};
    RNG r = p.rng;
    U(r); // the reaction
    const double m = constants::neutron_mass, sn = std::sqrt(2 * E / m), beta = std::sqrt(awr * m / (2 * kB * T)), y = beta * sn;
    double x, mu;
    for (int tries = 1;; tries++) {
      if (tries > vf_param("tries", 1)) vf_bound("tries for a target velocity");
      const double a = U(r), b = U(r);
      vf_assume_lt(0, a);
      vf_assume_lt(0, b);
      held(2, a, 0.25);
      held(2, b, pick(0.125, 0.75, 0.5));
      const bool slow = U(r) < 2 / (std::sqrt(constants::pi) * y + 2);
      if (slow) x = std::sqrt(-std::log(a * b));
      else {
        const double c = std::cos(constants::pi * held(2, U(r), pick(0.125, 0.5, 0.75)) / 2);
        x = std::sqrt(-std::log(a) - std::log(b) * c * c);
      }
      mu = 2 * U(r) - 1;
      held(3, mu, pick(0.25, -0.5, 0.75));
      const double accept = U(r), relative = std::sqrt(x * x + y * y - 2 * x * y * mu);
      vf_reach(slow ? "one branch" : "other branch");
      if (accept < relative / (x + y)) break;
      vf_reach("refused");
    }
    const double sT = x / beta, phi = 2 * constants::pi * held(4, U(r), pick(0.0625, 0.375, 0.6875));
    const Point v = sn * d, vT = sT * Direction{d, mu, phi};
    const Point vcm = (v + awr * vT) / (1 + awr), V = v - vcm;
    vf_assume_lt(1e-6 * sn * sn, V.Dot(V));
    const double mucm = held(5, 2 * U(r) - 1, pick(0.5, -0.75, -0.25)), phicm = 2 * constants::pi * held(6, U(r), pick(0.8125, 0.25, 0.4375));
    const Point W = std::sqrt(V.Dot(V)) * Direction{Direction{V}, mucm, phicm}, out = W + vcm;
    const double out2 = out.Dot(out);
    vf_assume_lt(1e-6 * sn * sn, out2);
    const double Eout = m * out2 / 2, cosine = d.Dot(out) / std::sqrt(out2);
    vf_assume_le(cosine * cosine, 1); // Cauchy and Schwarz
    w.FindNuclideByName("n")->Interact(p);
    vf_check(p.event == Particle::Event::scatter && p.IsAlive(), "scattering keeps the particle alive");
    vf_check_eq(energy_of(p) / E, Eout / E, "the outgoing energy is that of an elastic collision with the sampled target");
    const Direction got = p.GetDirection();
    vf_check_eq(got.Dot(d), cosine, "the deflection is that of an elastic collision with the sampled target");
    vf_check_eq(got.Dot(got), 1, "the outgoing direction is a unit vector");
    vf_check(p.GetPosition() == Point(0.25, -0.5, 0.75), "an interaction does not move the particle");
    vf_reach("scattered");
  } else if (what == 4) { // mixtures in a temperature gradient
    const int K = (int)vf_param("nuclides", 2);
    const std::vector<double> grid = {0.0009765625, 2.0009765625};
    const long asked = vf_param("asked", 0); // what the same particle asked for before
    const bool held = vf_param("choice", 0) || asked; // all but the position
    const double E = held ? 0x1p-25 : vf_real("E", 1e-10, 5), x = vf_real("x", -9, 9), g = held ? 32 : vf_real("g", -100, 100), b = held ? 512 : vf_real("b", 0, 3000), up = held ? 1024 : vf_real("upper", 1, 3000);
    vf_assume_le(1, g * x + b);
    vf_assume_le(g * x + b, up);
    static const double awrs[3] = {1, 15.875, 236};
    Str nucs;
    std::vector<std::pair<Str, double>> parts;
    double fs = 0;
    for (int i = 0; i < K; i++) {
      const Str n = name_of("n", i);
      const Table tot = any_table(n + "t", grid, 0.0625), cap = any_table(n + "c", grid), sca = any_table(n + "s", grid, 0.0625);
      parts.push_back({n, vf_param("choice", 0) ? i ? (3. - 2 * (K == 3)) * 2 / (K == 3 ? 2 : 1) : 2 : vf::real(name_of("a", i), 0.0625, 4)}); // choice: 2 and 6, or 2, 1 and 1
      fs += parts.back().second;
      nucs += cenuclide(n, awrs[i], evaluation("total", n + "t", tot, 293.6) + evaluation("capture", n + "c", cap, 293.6) + "<scatter>" + evaluation("xs", n + "s", sca, 293.6) + "</scatter>");
    }
    Built built;
    std::vector<Str> names;
    for (auto& part : parts) names.push_back(part.first);
    const World& w = built.make(
        K,
        [&](const std::vector<int>& order) {
          std::vector<std::pair<Str, double>> listed;
          for (int i : order) listed.push_back(parts[i]);
          return general("cell delta") + continuous(nucs) + materials(material("m", 1, listed)) + surfaces(planex("p", 10)) + "<temperature><linear>" + point_tag("gradient", g, 0, 0) + "<intercept b=\"" + text(b) + "\"/><bounds upper=\"" + text(up) +
                 "\" lower=\"0\"/></linear></temperature>" + cells(cell("c", "m", side("p", true)) + cell("d", "m", side("p", false), " temperature=\"900\""));
        },
        [](const World& x, std::vector<Str>& got) {
          for (auto& [n, f] : x.cells[0].material->afracs) got.push_back(n->name);
        },
        names);
    Particle p{Point{x - (asked ? 1 : 0), 0, 0}, Direction{1, 0, 0}, ContinuousEnergy{E}, Particle::Type::neutron, (RNG::result_type)(1 + vf_choose("seed", asked ? 1 : 2)), &w.cells[0]};
    const auto& mat = *w.cells[0].material;
    if (asked) {
      const size_t k = vf_choose("asked", 3); // elsewhere in the cell, in another cell, at another energy
      if (k) p.Stream(1);
      if (k == 1) p.SetCell(w.cells[1]);
      if (k == 2) p.SetEnergy(ContinuousEnergy{0.25});
      mat.GetMicroscopicTotal(p), mat.GetMicroscopicMajorant(p);
      if (!k) p.Stream(1);
      p.SetCell(w.cells[0]);
      p.SetEnergy(ContinuousEnergy{E});
    }
    std::map<Str, double> share, top; // what each nuclide adds to the total and the majorant
    double mix = 0, mix_top = 0;
    for (auto& [n, f] : parts) {
      mix += share[n] = f * w.FindNuclideByName(n)->GetTotal(p);
      mix_top += top[n] = f * w.FindNuclideByName(n)->GetMajorant(p);
    }
    if (vf_param("choice", 0)) {
      RNG copy = p.rng;
      const double u = U(copy);
      const Str got = p.SampleNuclide().name;
      double lo = 0;
      for (const auto& [n, a] : mat.afracs) {
        const double hi = lo + share[n->name];
        if (n->name == got) {
          vf_check_le(lo, u * mix, "the nuclide hit is chosen with probability proportional to its share of the cross section");
          vf_check_le(u * mix, hi, "the nuclide hit is chosen with probability proportional to its share of the cross section");
          vf_reach("chosen");
        }
        lo = hi;
      }
      vf_check(p.rng == copy, "choosing a nuclide uses one random number");
    } else {
      vf_check_eq(mat.GetMicroscopicTotal(p) * fs, mix, "the material cross section is the atom-fraction weighted mean of its nuclides");
      vf_check_eq(mat.GetMicroscopicMajorant(p) * fs, mix_top, "the material majorant is the atom-fraction weighted mean of the majorants");
      vf_reach("mixture");
    }
  }
}
