// Binning of values and of particles.
#include "common.hpp"
#include "Bins.hpp"
#include <sstream>

namespace {
std::unique_ptr<const Bins> make(pugi::xml_document& d, const Str& s) {
  vf_assume(bool(d.load_string(("<b>" + s + "</b>").c_str())));
  return Bins::Create(d.child("b").first_child());
}
Str lin(const char* tag, int n, double lo, double hi, const Str& more = "") {
  return Str{"<"} + tag + " bins=\"" + std::to_string(n) + "\" min=\"" + text(lo) + "\" max=\"" + text(hi) + "\"" + more + "/>";
}
std::vector<double> numbers(const Str& s) {
  std::vector<double> v;
  std::istringstream in(s);
  Str tok;
  while (std::getline(in, tok, ','))
    if (tok.find_first_not_of(" \n") != Str::npos) v.push_back(std::strtod(tok.c_str(), nullptr));
  return v;
}
} // namespace

void vf_main() {
  const long what = vf_param("what", 0);
  pugi::xml_document d;
  if (what == 0) { // equal widths: boundaries lo + i*(hi-lo)/n
    const int n = 1 + (int)vf_choose("bins", vf_param("n", 3));
    const double lo = vf_real("lo", -10, 10), hi = vf_real("hi", -10, 10), v = vf_real("v", -30, 30);
    const bool bad = throws_std([&] { make(d, lin("linspace", n, lo, hi)); });
    if (lo >= hi) {
      vf_check(bad, "a range that does not increase is refused");
      vf_reach("refused");
      return;
    }
    if (hi - lo < 1e-3) vf_stop();
    vf_check(!bad, "an increasing range is accepted");
    const auto b = make(d, lin("linspace", n, lo, hi));
    vf_check(b->size() == (size_t)n + 2, "there is a bin below and a bin above the range");
    const size_t i = b->GetIndex(v);
    vf_check(i < b->size(), "a bin index is in range");
    if (i > 0) vf_check_le(lo * n + (hi - lo) * double(i - 1), v * n, "a value is not below the lower boundary of its bin");
    if (i < (size_t)n + 1) vf_check(v * n < lo * n + (hi - lo) * double(i), "a value is below the upper boundary of its bin");
    const auto t = numbers(b->to_string());
    vf_check(t.size() == (size_t)n + 1, "the report lists every boundary");
    for (size_t k = 0; k < t.size(); k++) vf_check_eq(t[k] * n, lo * n + (hi - lo) * double(k), "the report lists the boundaries", 1e-5);
    vf_reach(i == 0 ? "below" : i == (size_t)n + 1 ? "above" : "inside");
  } else if (what == 1) { // boundaries base^(lo + i*(hi-lo)/n)
    const int n = 1 + (int)vf_choose("bins", vf_param("n", 3));
    const bool has = vf_choose("base_given", 2);
    const double base = has ? vf_real("base", 1.25, 20) : 10;
    const double lo = vf_real("lo", -8, 8), hi = vf_real("hi", -8, 8), v = vf_real("v", -4, 1000);
    const Str body = lin("logspace", n, lo, hi, has ? " base=\"" + text(base) + "\"" : "");
    const bool bad = throws_std([&] { make(d, body); });
    if (lo >= hi) {
      vf_check(bad, "a range that does not increase is refused");
      vf_reach("refused");
      return;
    }
    if (hi - lo < 1e-2) vf_stop();
    vf_check(!bad, "an increasing range is accepted");
    const auto b = make(d, body);
    vf_check(b->size() == (size_t)n + 2, "there is a bin below and a bin above the range");
    const size_t i = b->GetIndex(v);
    vf_check(i < b->size(), "a bin index is in range");
    if (v <= 0) {
      vf_check(i == 0, "a value that is not positive is below the range");
      vf_reach("not positive");
      return;
    }
    const double lv = std::log(v), lb = std::log(base);
    if (i > 0) vf_check_le((lo * n + (hi - lo) * double(i - 1)) * lb, lv * n, "a value is not below the lower boundary of its bin");
    if (i < (size_t)n + 1) vf_check_le(lv * n, (lo * n + (hi - lo) * double(i)) * lb, "a value is below the upper boundary of its bin");
    vf_reach(i == 0 ? "below" : i == (size_t)n + 1 ? "above" : "inside");
  } else if (what == 2) { // any increasing list
    const int n = (int)vf_choose("boundaries", vf_param("n", 3) + 1);
    std::vector<double> x;
    bool inc = true;
    for (int i = 0; i < n; i++) {
      x.push_back(vf::real(name_of("x", i), -10, 10));
      if (i) inc = inc && x[i - 1] < x[i];
    }
    const double v = vf_real("v", -20, 20);
    const Str body = "<boundaries>" + (n ? list(x) : Str{" "}) + "</boundaries>";
    const bool bad = throws_std([&] { make(d, body); });
    vf_check(bad == !inc, "boundaries are accepted exactly when they increase");
    if (!inc) {
      vf_reach("refused");
      return;
    }
    const auto b = make(d, body);
    vf_check(b->size() == (size_t)n + 1, "there is a bin below and a bin above the range");
    const size_t i = b->GetIndex(v);
    vf_check(i < b->size(), "a bin index is in range");
    for (int k = 0; k < n; k++) vf_check((x[k] <= v) == (i > (size_t)k), "a value falls into the bin whose boundaries enclose it");
    const auto t = numbers(b->to_string());
    vf_check(t.size() == (size_t)n, "the report lists every boundary");
    for (size_t k = 0; k < t.size(); k++) vf_check_eq(t[k], x[k], "the report lists the boundaries", 1e-5);
    vf_reach(i == 0 ? "below" : i == (size_t)n ? "above" : "inside");
  } else if (what == 3) { // combinations of cosine and energy bins
    static const char* kinds[] = {"", "<boundaries>-0.5 0.25</boundaries>", "<linspace bins=\"2\" min=\"-1\" max=\"1\"/>", "<logspace bins=\"1\" min=\"-1\" max=\"0\"/>"};
    static const char* ekinds[] = {"", "<boundaries>1.5 2.5 4</boundaries>", "<linspace bins=\"3\" min=\"1\" max=\"4\"/>", "<logspace base=\"2\" bins=\"2\" min=\"0\" max=\"2\"/>"};
    const size_t kc = vf_choose("cosine", 4), ke = vf_choose("energy", 4);
    double r[3], u[3];
    const bool any = vf_param("any", 0);
    const double scale = vf_real("length", 0.25, 4);
    if (any) vf_unit("r", r);
    else {
      static const double rs[3][3] = {{0, 0, 1}, {0.6, -0.8, 0}, {-1, 0, 0}};
      std::copy_n(rs[vf_choose("reference", 3)], 3, r);
    }
    vf_unit("u", u);
    const bool cont = vf_choose("continuous", 2);
    const size_t g = 1 + vf_choose("group", 4);
    const double e = cont ? vf_real("E", 0.0625, 6) : (double)g;
    const Str cb = kc ? "<cosine u=\"" + text(r[0] * scale) + "\" v=\"" + text(r[1] * scale) + "\" w=\"" + text(r[2] * scale) + "\">" + kinds[kc] + "</cosine>" : "";
    const Str eb = ke ? Str{"<energy>"} + ekinds[ke] + "</energy>" : "";
    vf_assume(bool(d.load_string(("<bins>" + cb + eb + "</bins>").c_str())));
    const ParticleBins b{d.child("bins")};
    pugi::xml_document dc, de;
    const auto bc = make(dc, kinds[kc]), be = make(de, ekinds[ke]);
    vf_check(b.size() == bc->size() * be->size(), "there is one score bin per combination");
    const Particle p{Point{1, 2, 3}, Direction{u[0], u[1], u[2]}, cont ? Energy{e} : Energy{Group{g}}, Particle::Type::neutron, 1};
    const size_t i = b.GetIndex(p);
    vf_check(i < b.size(), "a score bin index is in range");
    const double mu = u[0] * r[0] + u[1] * r[1] + u[2] * r[2];
    vf_assume(mu > -1 + 1e-6 && mu < 1 - 1e-6);
    if (kc == 1) vf_assume((mu < -0.5 - 1e-9 || mu > -0.5 + 1e-9) && (mu < 0.25 - 1e-9 || mu > 0.25 + 1e-9));
    if (kc == 2) vf_assume(mu < -1e-9 || mu > 1e-9);
    const size_t ic = kc == 0 ? 0 : kc == 1 ? (mu >= -0.5) + (mu >= 0.25) : kc == 2 ? 1 + (mu >= 0) : (mu > 0 && std::log(mu) / std::log(10.) >= -1);
    if (kc == 3) vf_assume(mu < 0.1 - 1e-6 || mu > 0.1 + 1e-6);
    if (kc == 3) vf_assume(mu < -1e-6 || mu > 1e-6);
    if (cont && ke == 3) vf_assume((e < 1 - 1e-6 || e > 1 + 1e-6) && (e < 2 - 1e-6 || e > 2 + 1e-6) && (e < 4 - 1e-6 || e > 4 + 1e-6));
    const double l2 = ke == 3 ? std::log(e) / std::log(2.) : 0;
    const size_t ie = ke == 0 ? 0 : ke == 1 ? (e >= 1.5) + (e >= 2.5) + (e >= 4) : ke == 2 ? (e >= 1) + (e >= 2) + (e >= 3) + (e >= 4) : (l2 >= 0) + (l2 >= 1) + (l2 >= 2);
    vf_check(i == ic * be->size() + ie, "score bins are numbered by cosine, energy fastest");
    vf_reach("combined");
  }
}
