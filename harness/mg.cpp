// Multigroup data: totals, reaction choice, scattering, fission, materials.
#include "common.hpp"

static const double XS = 8;

static std::vector<double> vec(const char* n, int k, double lo = 0, double hi = XS) {
  std::vector<double> v;
  for (int i = 0; i < k; i++) v.push_back(vf::real(name_of(n, i), lo, hi));
  return v;
}
static Str one_cell(const Str& mat) { return surfaces(planex("p", 1)) + cells(cell("c", mat, side("p", true)) + voidcell(side("p", false))); }

// index of the interval of the running sums of w (unnormalised) that holds u*sum
static int interval(const std::vector<double>& w, double u) {
  double s = 0, a = 0;
  for (double x : w) s += x;
  for (size_t i = 0; i < w.size(); i++) {
    a += w[i];
    if (u * s < a) return (int)i;
  }
  return -1;
}
static double sum(const std::vector<double>& v) {
  double s = 0;
  for (double x : v) s += x;
  return s;
}

void vf_main() {
  const long what = vf_param("what", 0);
  const int G = (int)vf_param("G", 2);
  const auto N = Particle::Type::neutron;
  if (what <= 3) {
    // one nuclide with any subset of the three reactions, in either node order
    const bool hc = vf_choose("capture", 2), hs = vf_choose("scatter", 2), hf = vf_choose("fission", 2);
    if (!hc && !hs && !hf) vf_stop();
    if (what == 2 && !hs) vf_stop();
    if (what == 3 && !hf) vf_stop();
    MG m;
    if (hc) m.capture = vec("c", G);
    if (hs) m.scatter = vec("s", G * G);
    if (hf) {
      m.fission = vec("f", G);
      m.nubar = vec("nu", G, 0, what == 3 ? (double)vf_param("nu", 2) : 3);
      m.chi = vec("x", G * G, 0, 1);
    }
    const bool rev = what == 0 && vf_choose("order", 2);
    Str nuc = "<nuclide name=\"n\"><neutron>";
    const Str cs = hc ? "<capture>" + list(m.capture) + "</capture>" : "", ss = hs ? "<scatter>" + list(m.scatter) + "</scatter>" : "",
              fs = hf ? "<fission><xs>" + list(m.fission) + "</xs><nubar>" + list(m.nubar) + "</nubar><chi>" + list(m.chi) + "</chi></fission>" : "";
    nuc += rev ? fs + ss + cs : cs + ss + fs;
    nuc += "</neutron></nuclide>";
    const bool both = what == 0 && vf_param("both", 0);
    std::vector<double> photon;
    if (both) {
      photon = vec("photon", G);
      const Str data = "<photon><capture>" + list(photon) + "</capture></photon>";
      const size_t at = vf_choose("photon_first", 2) ? nuc.find("<neutron>") : nuc.find("</nuclide>");
      nuc.insert(at, data);
    }
    Doc doc(general("", 1, 1, "", both ? "neutron photon" : "neutron") + multigroup(G, nuc) + materials(material("m", 1, {{"n", 1}})) + one_cell("m"));
    const World w{doc.root};
    const auto n = w.FindNuclideByName("n");
    const size_t g = 1 + vf_choose("group", G);
    const double c = hc ? m.capture[g - 1] : 0, f = hf ? m.fission[g - 1] : 0;
    std::vector<double> out; // outgoing group intensities for incoming group g
    for (int o = 0; o < G && hs; o++) out.push_back(m.scatter[G * o + (g - 1)]);
    const double s = sum(out), tot = c + s + f;
    Particle p{Point{0.25, -0.5, 0.75}, Direction{0, 0, 1}, Group{g}, N, (RNG::result_type)(1 + vf_choose("seed", 2)), &w.cells.at(0)};
    if (what == 0) {
      if (vf_choose("asked", 2)) { // at another group
        p.SetEnergy(Group{g % G + 1});
        n->GetTotal(p), n->GetMajorant(p);
        p.SetEnergy(Group{g});
      }
      vf_check_eq(n->GetTotal(p), tot, "the total cross section of a group is the sum of its reactions");
      vf_check_le(n->GetTotal(p), n->GetMajorant(p), "the majorant is not below the total");
      vf_check_eq(n->GetMajorant(p), tot, "the multigroup majorant is the total");
      vf_reach("total");
      if (both) {
        const Particle q{Point{0.25, -0.5, 0.75}, Direction{0, 0, 1}, Group{g}, Particle::Type::photon, 1, &w.cells.at(0)};
        vf_check_eq(n->GetTotal(q), photon[g - 1], "the total cross section of a group is the sum of its reactions");
        vf_check_eq(n->GetMajorant(q), photon[g - 1], "the multigroup majorant is the total");
        vf_check_eq(w.cells.at(0).material->GetMicroscopicTotal(q), photon[g - 1], "the total cross section of a group is the sum of its reactions");
        vf_reach("photon");
      }
      return;
    }
    vf_assume_lt(1e-3, tot);
    RNG copy = p.rng;
    if (what == 1) { // which reaction
      const double u = U(copy);
      // sampling details of the reaction itself are the subject of other runs
      if (hf) vf_assume_lt(m.nubar[g - 1], 1e-9 + 0 * u);
      n->Interact(p);
      const double t = u * tot;
      if (p.event == Particle::Event::capture) {
        vf_reach("capture");
        vf_check(!p.IsAlive(), "capture ends the particle");
        vf_check_le(t, c, "a reaction is chosen with probability proportional to its cross section");
        vf_check(hc, "a reaction the nuclide lacks never happens");
      } else if (p.event == Particle::Event::scatter) {
        vf_reach("scatter");
        vf_check(p.IsAlive(), "scattering keeps the particle alive");
        vf_check_le(c, t, "a reaction is chosen with probability proportional to its cross section");
        vf_check_le(t, c + s, "a reaction is chosen with probability proportional to its cross section");
        vf_check(hs, "a reaction the nuclide lacks never happens");
      } else {
        vf_reach("fission");
        vf_check(p.event == Particle::Event::fission, "an interaction is a capture, a scatter or a fission");
        vf_check(!p.IsAlive(), "fission ends the particle");
        vf_check_le(c + s, t, "a reaction is chosen with probability proportional to its cross section");
        vf_check(hf, "a reaction the nuclide lacks never happens");
      }
      Bank b;
      p.MoveSecondariesTo(b);
      if (p.event != Particle::Event::fission) vf_check(b.empty(), "only fission produces particles");
      vf_check(p.GetPosition() == Point(0.25, -0.5, 0.75), "an interaction does not move the particle");
    } else if (what == 2) { // outgoing group
      const double u1 = U(copy);
      vf_assume_le(c, u1 * tot);
      vf_assume_lt(u1 * tot, c + s);
      n->Interact(p);
      vf_check(p.event == Particle::Event::scatter, "a reaction is chosen with probability proportional to its cross section");
      const double u2 = U(copy);
      const int want = interval(out, u2);
      const size_t got = std::get<Group>(p.GetEnergy());
      vf_check(got >= 1 && got <= (size_t)G, "the outgoing group exists");
      vf_check((int)got - 1 == want, "the outgoing group is chosen with probability proportional to the scattering matrix entry");
      const double v1 = U(copy), v2 = U(copy);
      const Direction d = p.GetDirection();
      vf_check_eq(d.Dot(d), 1, "the direction after scattering is isotropic");
      vf_check_eq(X(d) * X(d), (2 * v1 - 1) * (2 * v1 - 1), "the direction after scattering is isotropic");
      vf_check_eq(Y(d) * Y(d), (1 - X(d) * X(d)) * std::cos(2 * constants::pi * v2) * std::cos(2 * constants::pi * v2), "the direction after scattering is isotropic");
      vf_check(p.GetPosition() == Point(0.25, -0.5, 0.75), "an interaction does not move the particle");
      vf_check(p.IsAlive(), "scattering keeps the particle alive");
      Bank b;
      p.MoveSecondariesTo(b);
      vf_check(b.empty(), "only fission produces particles");
      vf_reach("scattered");
    } else { // fission
      std::vector<double> spectrum;
      for (int o = 0; o < G; o++) spectrum.push_back(m.chi[G * o + (g - 1)]);
      vf_assume_lt(1e-3, sum(spectrum));
      const double u1 = U(copy);
      vf_assume_le(c + s, u1 * tot);
      n->Interact(p);
      vf_check(p.event == Particle::Event::fission && !p.IsAlive(), "fission ends the particle");
      const double y = m.nubar[g - 1] + U(copy);
      Bank b;
      p.MoveSecondariesTo(b);
      std::vector<Particle> kids;
      while (!b.empty()) {
        kids.push_back(b.back());
        b.pop_back();
      }
      const double k = (double)kids.size();
      vf_check_le(k, y, "the number of fission neutrons is the mean rounded down or up at random");
      vf_check(y < k + 1, "the number of fission neutrons is the mean rounded down or up at random");
      if (kids.empty()) vf_reach("none");
      if (kids.size() == 1) vf_reach("one");
      if (kids.size() > 1) vf_reach("several");
      // in order of production
      for (size_t i = 0; i < kids.size(); i++) {
        const Particle& q = kids[kids.size() - 1 - i];
        const int want = interval(spectrum, U(copy));
        const double v1 = U(copy), v2 = U(copy);
        RNG child{copy()};
        const size_t got = std::get<Group>(q.GetEnergy());
        vf_check((int)got - 1 == want, "the group of a fission neutron is chosen from the spectrum of the incident group");
        vf_check(q.GetPosition() == Point(0.25, -0.5, 0.75), "fission neutrons start where the fission happened");
        vf_check(q.GetType() == N, "fission produces neutrons");
        vf_check(q.IsAlive() && q.event == Particle::Event::birth, "fission neutrons are born alive");
        const Direction d = q.GetDirection();
        vf_check_eq(d.Dot(d), 1, "fission neutrons are emitted isotropically");
        vf_check_eq(X(d) * X(d), (2 * v1 - 1) * (2 * v1 - 1), "fission neutrons are emitted isotropically");
        vf_check_eq(Y(d) * Y(d), (1 - X(d) * X(d)) * std::cos(2 * constants::pi * v2) * std::cos(2 * constants::pi * v2), "fission neutrons are emitted isotropically");
        vf_check(q.rng == child, "each fission neutron gets its own random number stream");
        for (size_t j = 0; j < i; j++) vf_check(!(kids[kids.size() - 1 - j].rng == q.rng), "each fission neutron gets its own random number stream");
      }
    }
    return;
  }
  // materials ---------------------------------------------------------------
  const int K = (int)vf_param("nuclides", 2);
  std::vector<MG> m(K);
  std::vector<double> frac;
  Str nucs;
  std::vector<std::pair<Str, double>> parts;
  for (int i = 0; i < K; i++) {
    m[i].capture = vec(name_of("c", i).c_str(), G);
    if (i == 0) m[i].scatter = vec("s", G * G);
    frac.push_back(vf::real(name_of("a", i), 0, 4));
    nucs += mgnuclide(name_of("n", i), m[i]);
    parts.push_back({name_of("n", i), frac[i]});
  }
  const double fs = sum(frac);
  vf_assume_lt(1e-3, fs);
  const double aden = vf_real("aden", 0, 4);
  // a second material lists the nuclides in the opposite order
  Built built;
  std::vector<Str> names;
  for (auto& part : parts) names.push_back(part.first);
  const World& w = built.make(
      K,
      [&](const std::vector<int>& order) {
        std::vector<std::pair<Str, double>> listed;
        for (int i : order) listed.push_back(parts[i]);
        std::vector<std::pair<Str, double>> rev(listed.rbegin(), listed.rend());
        return general() + multigroup(G, nucs) + materials(material("m", aden, listed) + material("k", 1, rev)) + surfaces(planex("p", 1)) +
               cells(cell("c", "m", side("p", true)) + cell("d", "k", side("p", false)));
      },
      [](const World& x, std::vector<Str>& got) {
        for (auto& [n, f] : x.cells.at(0).material->afracs) got.push_back(n->name);
      },
      names);
  const size_t g = 1 + vf_choose("group", G);
  Particle p{Point{0, 0, 0}, Direction{0, 0, 1}, Group{g}, N, (RNG::result_type)(1 + vf_choose("seed", 2)), &w.cells.at(0)};
  auto tot = [&](int i) {
    double t = m[i].capture[g - 1];
    for (int o = 0; o < G && i == 0; o++) t += m[i].scatter[G * o + (g - 1)];
    return t;
  };
  double mix = 0;
  for (int i = 0; i < K; i++) mix += frac[i] * tot(i);
  if (what == 4) {
    const auto& mat = w.cells.at(0).material;
    if (vf_choose("asked", 2)) { // at another group
      p.SetEnergy(Group{g % G + 1});
      mat->GetMicroscopicTotal(p), mat->GetMicroscopicMajorant(p);
      p.SetEnergy(Group{g});
    }
    vf_check_eq(mat->number_density, aden, "the atom density is the one given");
    vf_check_eq(mat->GetMicroscopicTotal(p) * fs, mix, "the material cross section is the atom-fraction weighted mean of its nuclides");
    vf_check_eq(mat->GetMicroscopicMajorant(p) * fs, mix, "the material majorant is the atom-fraction weighted mean of the majorants");
    vf_check_eq(w.cells.at(1).material->GetMicroscopicTotal(p) * fs, mix, "the order of the nuclides in a material does not matter");
    double one = 0;
    size_t count = 0;
    for (const auto& [n, a] : mat->afracs) {
      one += a;
      count++;
      for (int i = 0; i < K; i++)
        if (n->name == name_of("n", i)) vf_check_eq(a * fs, frac[i], "atom fractions are normalised in proportion");
    }
    vf_check_eq(one, 1, "atom fractions are normalised to one");
    vf_check(count == (size_t)K, "every nuclide of the material is present");
    vf_reach("mixture");
  } else { // nuclide choice
    vf_assume_lt(1e-3, mix);
    RNG copy = p.rng;
    const double u = U(copy);
    const Str got = p.SampleNuclide().name;
    double lo = 0;
    for (const auto& [n, a] : w.cells.at(0).material->afracs) {
      const int i = n->name.back() - '0';
      const double hi = lo + frac[i] * tot(i);
      if (n->name == got) {
        vf_check_le(lo, u * mix, "the nuclide hit is chosen with probability proportional to its share of the cross section");
        vf_check_le(u * mix, hi, "the nuclide hit is chosen with probability proportional to its share of the cross section");
        vf_reach("chosen");
      }
      lo = hi;
    }
    vf_check(p.rng == copy, "choosing a nuclide uses one random number");
  }
}
