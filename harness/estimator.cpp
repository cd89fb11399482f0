// Scoring: per-history accumulation, statistics, merging, current, sensitivities.
#include "common.hpp"
#include "Bins.hpp"
#include "Scorable.hpp"
#include "report.hpp"

namespace {
double next_score;
class Probe : public Estimator { // scores whatever it is told to
public:
  Probe(const pugi::xml_node& n, const PerturbationSet& s) : Estimator{n, s} {}
  Probe(const Probe& o) : Estimator(o) {}
  std::unique_ptr<Estimator> Clone() const noexcept override { return std::make_unique<Probe>(*this); }
  Real GetScore(const Particle&) const noexcept override { return next_score; }
};
class Scaled : public CurrentEstimator { // a current in units of its own
public:
  Scaled(const pugi::xml_node& n, const World& w, const PerturbationSet& s) : CurrentEstimator{n, w, s} {}
  Scaled(const Scaled& o) : CurrentEstimator(o), unit{o.unit} {}
  std::unique_ptr<Estimator> Clone() const noexcept override { return std::make_unique<Scaled>(*this); }
  Real GetScore(const Particle& p) const noexcept override { return unit * CurrentEstimator::GetScore(p); }
  double unit = 1;
};
const auto N = Particle::Type::neutron;
Str world_text(const Str& more = "") {
  MG m, k;
  m.capture = {1};
  k.capture = {2};
  return general() + multigroup(1, mgnuclide("n", m) + mgnuclide("o", k)) + materials(material("m", 1, {{"n", 1}}) + material("j", 1, {{"o", 1}})) +
         surfaces(planex("p", 1) + planex("q", -1)) +
         cells(cell("c", "m", side("p", true) + side("q", false)) + cell("d", "j", side("q", true)) + voidcell(side("p", false))) + more;
}
} // namespace

// two names: one the start of the other, or of equal length with a common part
static std::pair<Str, Str> some_names() {
  switch (vf_param("names", -1) < 0 ? (int)vf_choose("names", 4) : (int)vf_param("names", 0)) {
    case 0: return {"a", "ab"};
    case 1: return {"ab", "b"};
    case 2: return {"ab", "ac"};
    default: return {"xa", "ya"};
  }
}
void vf_main() {
  const long what = vf_param("what", 0);
  if (what == 0) { // histories of several events each, two cosine bins x two energy bins
    const int H = (int)vf_param("histories", 2), K = (int)vf_param("events", 2), used = (int)vf_param("bins", 4), idle = (int)vf_param("idle", 0);
    Doc doc(world_text("<estimators><e name=\"e\"><bins><cosine u=\"0\" v=\"0\" w=\"1\"><boundaries>0</boundaries></cosine><energy><boundaries>2</boundaries></energy></bins></e></estimators>"));
    const World w{doc.root};
    const PerturbationSet none{doc.root.child("perturbations"), w};
    Probe e{doc.root.child("estimators").first_child(), none};
    double sum[4] = {0, 0, 0, 0}, sq[4] = {0, 0, 0, 0};
    for (int h = 0; h < H; h++) {
      double mine[4] = {0, 0, 0, 0};
      EstimatorProxy proxy{e};
      for (int k = 0; k < K; k++) {
        const int bin = vf_param("spread", 0) ? (k + h) % 4 : used == 4 ? (int)vf_choose("bin", 4) : used == 2 ? 3 * (int)vf_choose("bin", 2) : 2;
        const double s = vf::real(name_of("s", h * 10 + k), -4, 4);
        next_score = s;
        const Particle p{Point{0, 0, 0}, bin & 2 ? Direction{0, 0, 1} : Direction{0, 0, -1}, Group{bin & 1 ? 3u : 1u}, N, 1, &w.cells.at(0)};
        proxy.Score(p);
        mine[bin] += s;
        for (int b = 0; b < 4; b++) vf_check_eq(e.Scorable::GetScore(b, 1), sum[b], "a history counts when it is complete, not before");
      }
      next_score = 7;
      proxy.CommitHistory();
      for (int b = 0; b < 4; b++) {
        sum[b] += mine[b];
        sq[b] += mine[b] * mine[b];
      }
    }
    for (int h = 0; h < idle; h++) EstimatorProxy{e}.CommitHistory(); // histories that never score
    const double total = (double)(H + idle);
    for (int b = 0; b < 4; b++) vf_check_eq(e.Scorable::GetScore(b, total), sum[b] / total, "the score of a bin is the sum over histories divided by the number of histories");
    const auto l = listings(e.to_string(total));
    if (l.size() != 2 || l[0].v.size() != 4 || l[1].v.size() != 4) vf_stop();
    for (int b = 0; b < 4; b++) {
      vf_check_eq(l[0].v[b], sum[b] / total, "the reported mean is the sum over histories divided by their number", 1e-5);
      const double var = sq[b] - sum[b] * sum[b] / total;
      // below that, rounding of the real code decides
      if (var > 1e-3) vf_check_eq(l[1].v[b] * l[1].v[b], var / (total * total), "the reported deviation treats each history as one sample", 1e-5);
    }
    vf_reach("report");
  } else if (what == 1) { // clone and merge of one estimator
    const int B = (int)vf_param("bins", 3); // energy bins; scores go to the first, a middle and the last one
    Str edges;
    for (int i = 1; i < B; i++) edges += std::to_string(2 * i) + " ";
    const Str bins = B > 1 ? "<energy><boundaries>" + edges + "</boundaries></energy>" : "";
    const int at[3] = {0, B / 2, B - 1};
    Doc doc(world_text("<estimators><e name=\"e\"><bins>" + bins + "</bins></e></estimators>"));
    const World w{doc.root};
    const PerturbationSet none{doc.root.child("perturbations"), w};
    Probe init{doc.root.child("estimators").first_child(), none};
    double sum[3][3] = {}, sq[3][3] = {};
    auto score = [&](Estimator& e, int which, int n) {
      for (int i = 0; i < n; i++) {
        const int bin = B > 1 ? (int)vf_choose("bin", 3) : 0;
        const double s = vf::real(name_of(name_of("s", which), i), -4, 4);
        EstimatorProxy proxy{e};
        next_score = s;
        proxy.Score(Particle{Point{0, 0, 0}, Direction{1, 0, 0}, Group{size_t(1 + 2 * at[bin])}, N, 1, &w.cells.at(0)});
        proxy.CommitHistory();
        sum[which][bin] += s;
        sq[which][bin] += s * s;
      }
    };
    score(init, 0, 1);
    auto a = init.Clone(), b = init.Clone();
    vf_check(a->name == "e", "a copy keeps the name");
    score(*a, 1, 1);
    score(*b, 2, 1);
    const int K = B > 2 ? 3 : B; // the bins told apart
    if (B == 2) vf_stop();
    for (int k = 0; k < K; k++) {
      vf_check_eq(static_cast<Scorable&>(init).GetScore(at[k], 1), sum[0][k], "scoring to a copy leaves the original alone");
      vf_check_eq(static_cast<Scorable&>(*a).GetScore(at[k], 1), sum[0][k] + sum[1][k], "a copy starts from the scores of the original");
    }
    *a += *b;
    const auto l = listings(a->to_string(4));
    vf_check(l.size() == 2 && (int)l[0].v.size() == B && (int)l[1].v.size() == B, "a report lists every bin");
    if (l.size() != 2 || (int)l[0].v.size() != B || (int)l[1].v.size() != B) vf_stop();
    for (int k = 0; k < B; k++)
      if (k != at[0] && k != at[1] && k != at[2]) vf_check(l[0].v[k] == 0 && l[1].v[k] == 0, "a bin without scores stays empty");
    for (int k = 0; k < K; k++) {
      const double S = 2 * sum[0][k] + sum[1][k] + sum[2][k], Q = 2 * sq[0][k] + sq[1][k] + sq[2][k];
      vf_check_eq(static_cast<Scorable&>(*a).GetScore(at[k], 1), S, "merging adds the scores bin by bin");
      vf_check_eq(static_cast<Scorable&>(*b).GetScore(at[k], 1), sum[0][k] + sum[2][k], "merging leaves the other operand alone");
      vf_check_eq(l[0].v[at[k]], S / 4, "merging adds the scores bin by bin", 1e-5);
      if (Q - S * S / 4 > 1e-3) vf_check_eq(l[1].v[at[k]] * l[1].v[at[k]], (Q - S * S / 4) / 16, "merging adds the squares as well", 1e-5);
    }
    vf_reach("merged");
  } else if (what == 2) { // which events a current estimator counts, and with what bins
    Doc doc(world_text("<estimators><current name=\"ep\" surface=\"p\"/><current name=\"eq\" surface=\"q\"/></estimators>"));
    const World w{doc.root};
    const PerturbationSet none{doc.root.child("perturbations"), w};
    EstimatorSet es{doc.root.child("estimators"), w, none, 2};
    using E = Particle::Event;
    static const E ev[] = {E::birth, E::scatter, E::capture, E::fission, E::surface_cross, E::leak, E::virtual_collision};
    const E x = ev[vf_choose("event", 7)];
    const int s = (int)vf_choose("surface", 3);
    Particle p{Point{vf_real("x", -3, 3), 0, 0}, Direction{1, 0, 0}, Group{1}, N, 1, &w.cells.at(0)};
    p.event = x;
    if (s) p.current_surface = w.FindSurfaceByName(s == 1 ? "p" : "q");
    const bool cross = x == E::surface_cross || x == E::leak;
    vf_check_eq(es.FindEstimatorByName("ep").GetScore(p), cross && s == 1 ? 1 : 0, "a current estimator counts crossings of its surface and nothing else");
    vf_check_eq(es.FindEstimatorByName("eq").GetScore(p), cross && s == 2 ? 1 : 0, "a current estimator counts crossings of its surface and nothing else");
    auto proxy = es.GetProxy();
    const int n = 1 + (int)vf_choose("repeat", 2);
    for (int i = 0; i < n; i++) proxy.Score(p);
    proxy.CommitHistory();
    vf_check_eq(es.FindEstimatorByName("ep").GetScore(0, 2), cross && s == 1 ? n / 2. : 0, "every crossing counts once");
    vf_check_eq(es.FindEstimatorByName("eq").GetScore(0, 2), cross && s == 2 ? n / 2. : 0, "every crossing counts once");
    vf_reach(cross && s ? "counted" : "not counted");
  } else if (what == 3) { // sets of estimators merge by name
    const bool swap = vf_choose("order", 2), lack = vf_choose("lack", 2);
    const auto [e1, e2] = some_names();
    const Str ep = "<current name=\"" + e1 + "\" surface=\"p\"/>", eq = "<current name=\"" + e2 + "\" surface=\"q\"/>";
    Doc da(world_text("<estimators>" + ep + eq + "</estimators>"));
    Doc db(world_text("<estimators>" + (lack ? ep : swap ? eq + ep : ep + eq) + "</estimators>"));
    const World w{da.root};
    const PerturbationSet none{da.root.child("perturbations"), w};
    EstimatorSet a{da.root.child("estimators"), w, none, 1}, b{db.root.child("estimators"), w, none, 1};
    auto cross = [&](EstimatorSet& s, const char* surface, int n) {
      auto proxy = s.GetProxy();
      Particle p{Point{0, 0, 0}, Direction{1, 0, 0}, Group{1}, N, 1, &w.cells.at(0)};
      p.event = Particle::Event::surface_cross;
      p.current_surface = w.FindSurfaceByName(surface);
      for (int i = 0; i < n; i++) proxy.Score(p);
      proxy.CommitHistory();
    };
    const int na = (int)vf_choose("na", 3), nb = (int)vf_choose("nb", 3), ma = (int)vf_choose("ma", 2), mb = (int)vf_choose("mb", 2);
    cross(a, "p", na);
    cross(a, "q", ma);
    cross(b, "p", nb);
    if (!lack) cross(b, "q", mb);
    EstimatorSet c = a;
    if (lack) {
      vf_check(throws_std([&] { a += b; }), "merging sets that lack an estimator is an error");
      vf_reach("rejected");
    } else {
      a += b;
      vf_check_eq(a.FindEstimatorByName(e1).GetScore(0, 1), na + nb, "sets are merged estimator by estimator, matched by name");
      vf_check_eq(a.FindEstimatorByName(e2).GetScore(0, 1), ma + mb, "sets are merged estimator by estimator, matched by name");
      vf_check_eq(b.FindEstimatorByName(e1).GetScore(0, 1), nb, "merging leaves the other set alone");
      const Str rep = "\n" + a.to_string();
      const size_t at1 = rep.find("\n" + e1 + "\n"), at2 = rep.find("\n" + e2 + "\n");
      vf_check(at1 != Str::npos && at2 != Str::npos, "a report lists every estimator under its name");
      const auto l = listings(rep);
      if (at1 != Str::npos && at2 != Str::npos && l.size() == 4) {
        vf_check_eq(l[at1 < at2 ? 0 : 2].v.at(0), na + nb, "a report lists every estimator under its name", 1e-5);
        vf_check_eq(l[at1 < at2 ? 2 : 0].v.at(0), ma + mb, "a report lists every estimator under its name", 1e-5);
      }
      vf_reach("merged");
    }
    vf_check_eq(c.FindEstimatorByName(e1).GetScore(0, 1), na, "a copied set is independent");
    vf_check_eq(c.FindEstimatorByName(e2).GetScore(0, 1), ma, "a copied set is independent");
    vf_check(throws_std([&] { a.FindEstimatorByName("nope"); }), "asking for an unknown estimator is an error");
  } else if (what == 4) { // sensitivities
    const bool rev = vf_choose("order", 2);
    const auto [nA, nB] = some_names();
    const Str s1 = "<perturbation name=\"" + nA + "\"/>", s2 = "<perturbation name=\"" + nB + "\"/>";
    Doc doc(world_text("<perturbations><total name=\"" + nA + "\" nuclide=\"n\"/><total name=\"" + nB + "\" nuclide=\"o\"/></perturbations>"
                       "<estimators><current name=\"ep\" surface=\"p\"><sensitivities>" +
                       (rev ? s2 + s1 : s1 + s2) + "</sensitivities></current></estimators>"));
    const World w{doc.root};
    Particle::transport_method = TransportMethod::Create(doc.root, w);
    const PerturbationSet ps{doc.root.child("perturbations"), w};
    EstimatorSet es{doc.root.child("estimators"), w, ps, 2};
    double SA = 0, SB = 0, QA = 0, QB = 0, n = 0;
    auto history = [&](EstimatorSet& s, int h) {
      auto proxy = s.GetProxy();
      Particle p{Point{0, 0, 0}, Direction{1, 0, 0}, Group{1}, N, 1, &w.cells.at(0)};
      p.SetPerturbations(ps);
      double hA = 0, hB = 0, eA = 0, eB = 0;
      const Perturbation &A = ps.FindPerturbationByName(nA), &B = ps.FindPerturbationByName(nB);
      for (int k = 0; k < (int)vf_param("steps", 2); k++) {
        p.SetCell(w.cells.at(vf_choose("cell", 2)));
        const double d = vf::real(name_of("d", h * 10 + k), 0, 4);
        eA += A.Stream(p, d);
        eB += B.Stream(p, d);
        p.Stream(d);
        p.event = vf_choose("event", 2) ? Particle::Event::surface_cross : Particle::Event::scatter;
        p.current_surface = w.FindSurfaceByName("p");
        proxy.Score(p);
        if (p.event == Particle::Event::surface_cross) {
          hA += eA;
          hB += eB;
          n += 1;
        }
      }
      proxy.CommitHistory();
      SA += hA;
      SB += hB;
      QA += hA * hA;
      QB += hB * hB;
    };
    EstimatorSet es2 = es;
    history(es, 0);
    history(es2, 1);
    es += es2;
    const auto l = listings(es.to_string());
    vf_check(l.size() == 6, "a report lists the estimator and each of its sensitivities");
    if (l.size() != 6) vf_stop();
    vf_check_eq(l[0].v.at(0), n / 2, "the estimator itself counts crossings", 1e-5);
    const int a = rev ? 4 : 2, b = rev ? 2 : 4;
    vf_check_eq(l[a].v.at(0), SA / 2, "a sensitivity is the score weighted with the indirect effect of its own perturbation", 1e-5);
    vf_check_eq(l[b].v.at(0), SB / 2, "a sensitivity is the score weighted with the indirect effect of its own perturbation", 1e-5);
    const double va = QA - SA * SA / 2;
    if (va > 1e-3) vf_check_eq(l[a + 1].v.at(0) * l[a + 1].v.at(0), va / 4, "sensitivities are merged like scores", 1e-5);
    const Str rep = es.to_string();
    vf_check((rep.find("ep::" + nA + "\n") < rep.find("ep::" + nB + "\n")) == !rev, "a sensitivity is named after estimator and perturbation");
    vf_reach("sensitivity");
  } else if (what == 5) { // the sensitivities of a copy belong to the copy
    Doc doc(world_text("<perturbations><total name=\"A\" nuclide=\"n\"/></perturbations>"
                       "<estimators><current name=\"ep\" surface=\"p\"><sensitivities><perturbation name=\"A\"/></sensitivities></current></estimators>"));
    const World w{doc.root};
    Particle::transport_method = TransportMethod::Create(doc.root, w);
    const PerturbationSet ps{doc.root.child("perturbations"), w};
    const int generations = 1 + (int)vf_choose("generations", 3);
    std::vector<std::unique_ptr<Scaled>> e;
    e.push_back(std::make_unique<Scaled>(doc.root.child("estimators").first_child(), w, ps));
    std::vector<double> mean(1, 0.), effect(1, 0.);
    auto cross = [&](int i, int k) {
      Particle p{Point{0, 0, 0}, Direction{1, 0, 0}, Group{1}, N, 1, &w.cells.at(0)};
      p.SetPerturbations(ps);
      const double d = vf::real(name_of("d", k), 0, 4);
      const double x = ps.FindPerturbationByName("A").Stream(p, d);
      p.Stream(d);
      p.event = Particle::Event::surface_cross;
      p.current_surface = w.FindSurfaceByName("p");
      EstimatorProxy proxy{*e[i]};
      proxy.Score(p);
      proxy.CommitHistory();
      mean[i] += e[i]->unit;
      effect[i] += e[i]->unit * x;
    };
    e[0]->unit = vf_real("u0", 0.5, 2);
    cross(0, 0);
    for (int g = 1; g <= generations; g++) {
      e.push_back(std::make_unique<Scaled>(*e[g - 1]));
      e[g]->unit = vf::real(name_of("u", g), 0.5, 2);
      mean.push_back(mean[g - 1]);
      effect.push_back(effect[g - 1]);
    }
    const int who = (int)vf_choose("who", generations + 1);
    cross(who, 1);
    for (int g = 0; g <= generations; g++) {
      const auto l = listings(e[g]->to_string(2));
      vf_check(l.size() == 4, "a copy keeps its sensitivities");
      if (l.size() != 4) vf_stop();
      vf_check_eq(l[0].v.at(0), mean[g] / 2, "a copy starts from the scores of the original and shares nothing afterwards", 1e-5);
      vf_check_eq(l[2].v.at(0), effect[g] / 2, "the sensitivities of a copy weigh the scores of the copy, not of the original", 1e-5);
    }
    vf_reach("owned");
  }
}
