// Building a problem: temperature, references, sources, malformed data, tracking.
#include "common.hpp"
#include "Driver.hpp"
#include "FixedSource.hpp"
#include "KEigenvalue.hpp"
#include "Scorable.hpp"

namespace {
const auto N = Particle::Type::neutron;
const Str one = multigroup(1, "<nuclide name=\"n\"><neutron><capture>1</capture></neutron></nuclide>");
const Str basic = one + materials(material("m", 1, {{"n", 1}})) + surfaces(planex("p", 0));
Str two_cells(const Str& a = "", const Str& b = "") { return cells(cell("c", "m", side("p", true), a) + cell("d", "m", side("p", false), b)); }
} // namespace

void vf_main() {
  const long what = vf_param("what", 0);
  if (what == 0) { // temperature
    const size_t k = vf_choose("global", 3), own = vf_choose("own", 3);
    double g[3] = {0, 0, 0}, b = constants::room_temperature, up = b, lo = b, c = 0;
    Str t;
    if (k == 1) {
      b = up = lo = vf_real("T", 0, 3000);
      t = "<temperature><constant c=\"" + text(b) + "\"/></temperature>";
    } else if (k == 2) {
      for (int i = 0; i < 3; i++) g[i] = vf::real(name_of("g", i), -50, 50);
      b = vf_real("b", 0, 3000);
      up = vf_real("up", 0, 6000);
      lo = vf_real("lo", 0, 6000);
      t = "<temperature><linear>" + point_tag("gradient", g[0], g[1], g[2]) + "<intercept b=\"" + text(b) + "\"/><bounds upper=\"" + text(up) + "\" lower=\"" + text(lo) + "\"/></linear></temperature>";
    }
    if (own) c = vf_real("c", 0, 3000);
    const Str attr = " temperature=\"" + text(c) + "\"";
    Doc doc(general() + basic + t + two_cells(own == 1 ? attr : "", own == 2 ? attr : ""));
    const World w{doc.root};
    const double x = vf_real("x", -9, 9), y = vf_real("y", -9, 9), z = vf_real("z", -9, 9);
    for (int i = 0; i < 2; i++) {
      const auto& f = *w.cells.at(i).temperature;
      const bool mine = own == size_t(i) + 1;
      vf_check_eq(f.at(Point{x, y, z}), mine ? c : g[0] * x + g[1] * y + g[2] * z + b, "a cell has its own temperature, or the global one at the point");
      vf_check_eq(f.upper_bound, mine ? c : up, "the upper bound of a temperature is the one stated");
      vf_check_eq(f.lower_bound, mine ? c : lo, "the lower bound of a temperature is the one stated");
    }
    vf_check(w.HasConstantTemperature() == (k != 2 || (g[0] == 0 && g[1] == 0 && g[2] == 0)), "a temperature is constant exactly when its gradient is zero");
    vf_reach(own ? "own" : "global");
    if (k == 2) vf_reach("linear");
  } else if (what == 1) { // the choice of tracking
    const size_t k = vf_choose("global", 3), c = vf_choose("tracking", 3);
    double g[3] = {0, 0, 0};
    Str t;
    if (k == 1) t = "<temperature><constant c=\"400\"/></temperature>";
    if (k == 2) {
      for (int i = 0; i < 3; i++) g[i] = vf_choose("component", 2) ? vf::real(name_of("g", i), -5, 5) : 0;
      t = "<temperature><linear>" + point_tag("gradient", g[0], g[1], g[2]) + "<intercept b=\"300\"/><bounds upper=\"600\" lower=\"200\"/></linear></temperature>";
    }
    const bool flat = g[0] == 0 && g[1] == 0 && g[2] == 0;
    Doc doc(general(c == 0 ? "" : c == 1 ? "surface" : "cell delta") + basic + t + two_cells(k == 2 && vf_choose("own", 2) ? " temperature=\"300\"" : ""));
    const World w{doc.root};
    const bool bad = throws_std([&] { TransportMethod::Create(doc.root, w); });
    vf_check(bad == (c < 2 && !flat), "surface tracking is refused exactly when the global temperature varies");
    if (bad) {
      vf_reach("refused");
      return;
    }
    const auto m = TransportMethod::Create(doc.root, w);
    vf_check((dynamic_cast<const CellDeltaTracking*>(m.get()) != nullptr) == (c == 2), "the tracking method is the one requested");
    vf_check((dynamic_cast<const SurfaceTracking*>(m.get()) != nullptr) == (c != 2), "without a choice surface tracking is used");
    vf_reach(c == 2 ? "delta" : "surface");
  } else if (what == 2) { // source particles
    const bool cont = vf_choose("continuous", 2);
    const size_t dk = vf_choose("direction", 3);
    const size_t g = 1 + vf_choose("group", 3);
    const double E = vf_real("E", 1e-9, 20);
    const double x = vf_real("x", -50, 50), y = vf_real("y", -50, 50), z = vf_real("z", -50, 50);
    double u[3];
    vf_unit("u", u);
    const double len = vf_real("length", 0.25, 4);
    const bool photon = vf_choose("type", 2);
    const Str axis = "x=\"" + text(u[0] * len) + "\" y=\"" + text(u[1] * len) + "\" z=\"" + text(u[2] * len) + "\"/>";
    const Str dir = dk == 0 ? "<constant " + axis : dk == 1 ? Str{"<isotropic/>"} : "<isotropic-flux " + axis;
    Doc doc((cont ? Str{"<nuclides><continuous/></nuclides>"} : multigroup(3, "")) +
            source(point_tag("constant", x, y, z), dir, cont ? text(E) : std::to_string(g), photon ? "photon" : "neutron"));
    const Source s{doc.root.child("problemtype").child("fixedsource")};
    const RNG::result_type seed = 1 + (RNG::result_type)vf_choose("seed", 3) * 1000003;
    const Particle p = s.Sample(seed), q = s.Sample(seed), o = s.Sample(seed + 1);
    vf_check_eq(X(p.GetPosition()), x, "a source particle starts at the given position");
    vf_check_eq(Y(p.GetPosition()), y, "a source particle starts at the given position");
    vf_check_eq(Z(p.GetPosition()), z, "a source particle starts at the given position");
    if (cont) vf_check(std::holds_alternative<ContinuousEnergy>(p.GetEnergy()), "a source particle has the given energy");
    else vf_check(std::holds_alternative<Group>(p.GetEnergy()), "a source particle has the given group");
    if (cont) vf_check_eq(std::get<ContinuousEnergy>(p.GetEnergy()), E, "a source particle has the given energy");
    else vf_check(std::get<Group>(p.GetEnergy()) == g, "a source particle has the given group");
    vf_check(p.GetType() == (photon ? Particle::Type::photon : N), "a source particle has the given type");
    vf_check(p.IsAlive() && p.event == Particle::Event::birth && !p.current_surface, "a source particle is alive and has done nothing");
    RNG r{seed};
    const Direction d = p.GetDirection();
    if (dk == 0) {
      vf_check_eq(X(d), u[0], "a source direction is the given one, normalised");
      vf_check_eq(Y(d), u[1], "a source direction is the given one, normalised");
      vf_check_eq(Z(d), u[2], "a source direction is the given one, normalised");
    } else if (dk == 1) {
      const double a = U(r), b = U(r);
      vf_check_eq(d.Dot(d), 1, "an isotropic direction is a unit vector");
      vf_check_eq(X(d) * X(d), (2 * a - 1) * (2 * a - 1), "an isotropic direction has a uniform cosine");
      vf_check_eq(Y(d) * Y(d), (1 - X(d) * X(d)) * std::cos(2 * constants::pi * b) * std::cos(2 * constants::pi * b), "an isotropic direction has a uniform azimuth");
    } else {
      const double a = U(r);
      U(r);
      const double mu = X(d) * u[0] + Y(d) * u[1] + Z(d) * u[2];
      if (vf_param("flux", 1)) {
        vf_check_eq(mu * mu, a, "an isotropic flux has a cosine distributed linearly");
        vf_check_le(0, mu, "an isotropic flux leaves through the given side");
      }
    }
    Particle pc = p, qc = q, oc = o;
    const RNG::result_type own = r();
    vf_check(pc.rng == RNG{own}, "a source particle has its own random stream, drawn after its properties");
    vf_check(pc.rng == qc.rng && p.GetPosition() == q.GetPosition(), "the same seed gives the same particle");
    vf_check_eq(X(d), X(q.GetDirection()), "the same seed gives the same particle");
    vf_check(!(pc.rng == oc.rng), "different seeds give different random streams");
    vf_reach(dk == 0 ? "constant" : dk == 1 ? "isotropic" : "flux");
    if (cont && dk == 1 && !photon) { // energies are read to the last digit
      static const double es[] = {1.1, 0.0253e-6, 2e-11, 14.07, 1. / 3};
      for (double e : es) {
        Doc other("<nuclides><continuous/></nuclides>" + source(point_tag("constant", x, y, z), dir, text(e)));
        vf_check(std::get<ContinuousEnergy>(Source{other.root.child("problemtype").child("fixedsource")}.Sample(seed).GetEnergy()) == e, "a source particle has the given energy");
      }
    }
    if (cont) vf_reach("continuous");
    if (photon) vf_reach("photon");
  } else if (what == 3) { // wrong numbers of entries, unknown reactions, missing particles
    const int more = (int)vf_param("more", 0); // this many groups, at most one list with a wrong number of entries
    const int G = more ? more : 1 + (int)vf_choose("groups", vf_param("G", 2));
    const size_t want[5] = {(size_t)G, size_t(G * G), (size_t)G, (size_t)G, size_t(G * G)};
    size_t cnt[5];
    if (more) {
      const size_t which = vf_choose("which", 6), how = which < 5 ? vf_choose("how", 5) : 0;
      for (size_t i = 0; i < 5; i++) {
        const size_t n = want[i];
        const size_t wrong_counts[] = {0, n - 1, n + 1, n == (size_t)G ? n * n : (size_t)G, 2 * n};
        cnt[i] = i == which ? wrong_counts[how] : n;
      }
    } else {
      cnt[0] = vf_choose("capture", 4);
      cnt[1] = vf_choose("scatter", 6);
      cnt[2] = vf_choose("xs", 4);
      cnt[3] = vf_choose("nubar", 4);
      cnt[4] = vf_choose("chi", 6);
    }
    const int absent = (int)vf_choose("absent", 4); // reactions left out: none, capture, scatter, fission
    bool wrong = false;
    int off = 0;
    for (int i = 0; i < 5; i++) {
      const bool out = (absent == 1 && i == 0) || (absent == 2 && i == 1) || (absent == 3 && i >= 2);
      if (out) {
        if (more ? cnt[i] != want[i] : cnt[i]) vf_stop();
        continue;
      }
      if (cnt[i] != want[i]) {
        wrong = true;
        off++;
      }
    }
    if (off > 1) vf_stop(); // one mistake at a time
    auto entries = [&](int i) {
      Str s;
      for (size_t k = 0; k < cnt[i]; k++) s += text(vf::real(name_of(name_of("v", i), (long)k), 0.125, 8)) + " ";
      return s;
    };
    Str r;
    if (absent != 1) r += "<capture>" + entries(0) + "</capture>";
    if (absent != 2) r += "<scatter>" + entries(1) + "</scatter>";
    if (absent != 3) r += "<fission><xs>" + entries(2) + "</xs><nubar>" + entries(3) + "</nubar><chi>" + entries(4) + "</chi></fission>";
    const size_t odd = vf_choose("unknown", 4); // an unknown reaction
    static const char* names[] = {"", "absorption", "n2n", "Capture"};
    if (odd) r += Str{"<"} + names[odd] + ">" + "1</" + names[odd] + ">";
    const size_t parts = vf_choose("particles", 4);
    static const char* lists[] = {"neutron", "neutron photon", "photon neutron", "photon"};
    const bool has_photon = vf_choose("photon_data", 2);
    Str pd = "<neutron>" + r + "</neutron>";
    if (has_photon) {
      pd += "<photon><capture>";
      for (int g = 0; g < G; g++) pd += "1 ";
      pd += "</capture></photon>";
    }
    Doc doc(general("", 1, 1, "", lists[parts]) + multigroup(G, "<nuclide name=\"n\">" + pd + "</nuclide>") + materials(material("m", 1, {{"n", 1}})) + surfaces(planex("p", 0)) + two_cells());
    const bool bad = throws_std([&] { World w{doc.root}; });
    const bool mistake = ((wrong || odd) && parts != 3) || (parts != 0 && !has_photon);
    vf_check(bad == mistake, mistake ? "malformed data is refused" : "well-formed data is accepted");
    vf_reach(mistake ? "refused" : "accepted");
  } else if (what == 4) { // references
    // material m uses n (and o), cells use surfaces p, q and materials m, k
    const size_t miss = vf_choose("missing", 6); // nothing, a surface, a material, a nuclide, the definition's other cell, nothing
    const int order = (int)vf_choose("order", 2);
    // names may begin with, end with or differ in case from one another
    static const Str schemes[][2] = {{"", ""}, {"x", "xy"}, {"xy", "x"}, {"yx", "x"}, {"x", "X"}};
    const size_t scheme = vf_choose("names", 5);
    auto called = [&](const char* plain, int second) { return scheme ? schemes[scheme][second] : Str{plain}; };
    const Str P = called("p", 0), Q = called("q", 1), M = called("m", 0), K = called("k", 1), NN = called("n", 0), O = called("o", 1);
    const double aden = vf_real("aden", 0.125, 4), aden2 = vf_real("aden2", 0.125, 4);
    const double x = vf_real("px", -5, 5);
    const double s0 = vf_real("s0", 0.125, 8), s1 = vf_real("s1", 0.125, 8);
    MG a, b;
    a.capture = {s0};
    b.capture = {s1};
    Str nuc = mgnuclide(NN, a), mat = material(M, aden, {{NN, 1}, {O, 3}}), sur = planex(P, x);
    if (miss != 3) nuc = order ? mgnuclide(O, b) + nuc : nuc + mgnuclide(O, b);
    if (miss != 2) mat = order ? material(K, aden2, {{O, 2}}) + mat : mat + material(K, aden2, {{O, 2}});
    if (miss != 1) sur = order ? cylinderx(Q, 3) + sur : sur + cylinderx(Q, 3);
    // an unused, broken definition must not matter
    mat += material("unused", 1, {{"nowhere", 1}});
    const Str body = general() + multigroup(1, nuc) + materials(mat) + surfaces(sur) +
                     cells(cell("a", M, side(P, true) + side(Q, true)) + voidcell(side(Q, false)) + cell("b", K, side(P, false) + side(Q, true)) + cell("e", M, side(Q, true)));
    Doc doc(body);
    const bool bad = throws_std([&] { World w{doc.root}; });
    const bool expect = miss == 1 || miss == 2 || miss == 3;
    vf_check(bad == expect, expect ? "a reference to something undefined is refused" : "a complete description is accepted");
    if (expect) {
      vf_reach("refused");
      return;
    }
    const World w{doc.root};
    vf_check(w.cells.size() == 4, "every cell described is there");
    static const char* names[] = {"a", "", "b", "e"};
    for (int i = 0; i < 4; i++) vf_check(w.cells[i].name == names[i], "cells keep their order");
    vf_check(!w.cells[1].material, "a void cell has no material");
    vf_check(w.cells[0].material && w.cells[0].material->name == M && w.cells[2].material->name == K, "a cell has the material it names");
    vf_check(w.cells[0].material == w.cells[3].material, "a material used twice is one material");
    vf_check_eq(w.cells[0].material->number_density, aden, "a material has its own density");
    vf_check_eq(w.cells[2].material->number_density, aden2, "a material has its own density");
    for (int i : {0, 2}) {
      double sum = 0;
      for (const auto& [n, f] : w.cells[i].material->afracs) {
        vf_check(n == w.FindNuclideByName(n->name), "a nuclide used twice is one nuclide");
        vf_check_eq(f, i == 2 ? 1 : n->name == NN ? 0.25 : 0.75, "a material consists of the nuclides it names");
        const Particle p{Point{0, 0, 0}, Direction{1, 0, 0}, Group{1}, N, 1, &w.cells[i]};
        vf_check_eq(n->GetTotal(p), n->name == NN ? s0 : s1, "a nuclide has its own data");
        sum += f;
      }
      vf_check_eq(sum, 1, "a material consists of the nuclides it names");
    }
    vf_check(throws_std([&] { w.FindSurfaceByName("zz"); }) && throws_std([&] { w.FindNuclideByName("zz"); }), "looking up an unknown name is an error");
    vf_check(w.FindSurfaceByName(P)->name == P && w.FindSurfaceByName(Q)->name == Q, "a surface is found by its name");
    const double qx = vf_real("x", -9, 9), qy = vf_real("y", -9, 9), qz = vf_real("z", -9, 9);
    vf_check(w.FindSurfaceByName(P)->Contains(Point{qx, qy, qz}) == (qx < x), "a surface has its own parameters");
    const bool in = qy * qy + qz * qz < 9;
    const Cell& c = w.FindCellContaining(Point{qx, qy, qz});
    if (!in) vf_assume(qy * qy + qz * qz > 9 + 1e-6);
    vf_check(&c == &w.cells[!in ? 1 : qx < x ? 0 : 2], "a cell is bounded by the surfaces it names, on the sides it names");
    vf_reach("accepted");
  } else if (what == 5) { // estimators, sensitivities and perturbations refer to what exists
    const size_t miss = vf_choose("missing", 5);
    const size_t count = vf_choose("others", 3); // further perturbations defined
    const bool twice = miss != 4 && vf_choose("twice", 2);
    const Str wanted = "<perturbation name=\"" + Str{miss == 2 ? "zz" : "A"} + "\"/>", first = twice ? "<perturbation name=\"" + Str{count ? "AA" : "A"} + "\"/>" : "";
    const Str est = "<estimators><current name=\"e\" surface=\"" + Str{miss == 1 ? "zz" : "p"} + "\">" +
                    (miss == 4 ? "" : "<sensitivities>" + first + wanted + "</sensitivities>") + "</current></estimators>";
    const bool lone = count == 1 && !twice && vf_choose("unnamed", 2);
    const Str other = count == 0 ? "" : "<total name=\"" + Str{lone ? "" : "AA"} + "\" nuclide=\"n\"/>" + (count == 2 ? "<total name=\"B\" nuclide=\"n\"/>" : "");
    const Str own = "<total name=\"A\" nuclide=\"" + Str{miss == 3 ? "zz" : "n"} + "\"/>";
    const Str per = "<perturbations>" + (count && vf_choose("order", 2) ? other + own : own + other) + "</perturbations>";
    Doc doc(general() + basic + two_cells() + per + est);
    const World w{doc.root};
    vf_expect_no_abort(miss != 3); // the constructor is noexcept: a missing nuclide ends the program
    if (miss == 3) {
      vf_check(throws_std([&] { PerturbationSet{doc.root.child("perturbations"), w}; }), "a perturbation of an undefined nuclide is refused");
      return;
    }
    const PerturbationSet ps{doc.root.child("perturbations"), w};
    vf_check(throws_std([&] { ps.FindPerturbationByName("zz"); }) && throws_std([&] { ps.FindPerturbationByName("a"); }), "looking up an unknown perturbation is an error");
    vf_check(ps.FindPerturbationByName("A").name == "A", "a perturbation is found by its name");
    vf_expect_no_abort(miss != 2); // the constructor is noexcept: a missing perturbation ends the program
    const bool bad = throws_std([&] { EstimatorSet es{doc.root.child("estimators"), w, ps, 1}; });
    vf_check(bad == (miss == 1 || miss == 2), "an estimator that refers to something undefined is refused");
    vf_reach(bad ? "refused" : "accepted");
  } else if (what == 6) { // run parameters
    const int h = 1 + (int)vf_choose("histories", 3) * 7, t = 1 + (int)vf_choose("threads", 2);
    const size_t s = vf_choose("seed", 3);
    static const char* seeds[] = {"", "1", "77"};
    Doc doc(general("", h, t, seeds[s]) + basic + two_cells() + "<estimators/>" + source(point_tag("constant", 1, 0, 0), "<isotropic/>", "1"));
    const FixedSource f{doc.root};
    vf_check((int)f.batchsize == h, "a run has the requested number of histories");
    vf_check(dynamic_cast<const SurfaceTracking*>(Particle::transport_method.get()) != nullptr, "the run's particles use its tracking method");
    vf_reach("driver");
  }
}
