// Shared by the harnesses: in-memory input documents and accessors.
#pragma once
#include "vf.hpp"
#include "BasicTypes.hpp"
#include "Bank.hpp"
#include "CSGSurface.hpp"
#include "Cell.hpp"
#include "Constants.hpp"
#include "Estimator.hpp"
#include "Material.hpp"
#include "Nuclide.hpp"
#include "Particle.hpp"
#include "Perturbation.hpp"
#include "Point.hpp"
#include "ScalarField.hpp"
#include "Sensitivity.hpp"
#include "Source.hpp"
#include "TransportMethod.hpp"
#include "World.hpp"
#include "pugixml.hpp"
#include <algorithm>
#include <cmath>
#include <exception>
#include <limits>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>
using vf::text;
using Str = std::string;

struct Doc {
  pugi::xml_document d;
  pugi::xml_node root;
  explicit Doc(const Str& body) {
    auto r = d.load_string(("<minimc>" + body + "</minimc>").c_str());
    vf_assume(bool(r));
    root = d.child("minimc");
  }
};
inline double X(const Point& p) { return p.Dot(Point{1, 0, 0}); }
inline double Y(const Point& p) { return p.Dot(Point{0, 1, 0}); }
inline double Z(const Point& p) { return p.Dot(Point{0, 0, 1}); }
// the number the code's next draw from this engine yields
inline double U(RNG& r) { return std::generate_canonical<double, 53>(r); }
inline bool throws(void (*f)(void*), void* c) {
  try {
    f(c);
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
template <class F> bool throws_std(F&& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
inline Str planex(const Str& n, double x) { return "<planex name=\"" + n + "\" x=\"" + text(x) + "\"/>"; }
inline Str sphere(const Str& n, double x, double y, double z, double r) {
  return "<sphere name=\"" + n + "\"><center x=\"" + text(x) + "\" y=\"" + text(y) + "\" z=\"" + text(z) + "\"/><radius r=\"" + text(r) + "\"/></sphere>";
}
inline Str cylinderx(const Str& n, double r) { return "<cylinderx name=\"" + n + "\" r=\"" + text(r) + "\"/>"; }
inline Str side(const Str& n, bool inside) { return "<surface name=\"" + n + "\" sense=\"" + (inside ? "-1" : "+1") + "\"/>"; }
inline Str cell(const Str& name, const Str& material, const Str& sides, const Str& extra = "") {
  return "<cell name=\"" + name + "\" material=\"" + material + "\"" + extra + ">" + sides + "</cell>";
}
inline Str voidcell(const Str& sides) { return "<void>" + sides + "</void>"; }
inline Str general(const Str& tracking = "", int histories = 1, int threads = 1, const Str& seed = "", const Str& particles = "neutron") {
  return "<general><particles>" + particles + "</particles><histories>" + std::to_string(histories) + "</histories><threads>" + std::to_string(threads) +
         "</threads><chunksize>1</chunksize>" + (seed.empty() ? "" : "<seed>" + seed + "</seed>") + (tracking.empty() ? "" : "<tracking>" + tracking + "</tracking>") + "</general>";
}
inline Str point_tag(const Str& tag, double x, double y, double z) {
  return "<" + tag + " x=\"" + text(x) + "\" y=\"" + text(y) + "\" z=\"" + text(z) + "\"/>";
}
inline Str source(const Str& pos, const Str& dir, const Str& energy, const Str& type = "neutron") {
  return "<problemtype><fixedsource><position>" + pos + "</position><direction>" + dir + "</direction><energy><constant energy=\"" + energy +
         "\"/></energy><particletype><constant type=\"" + type + "\"/></particletype></fixedsource></problemtype>";
}
// one multigroup nuclide; every argument a list of numbers
inline Str list(const std::vector<double>& v) {
  Str s;
  for (double x : v) s += text(x) + " ";
  return s;
}
struct MG {
  std::vector<double> capture, scatter /* row-major, row = outgoing */, fission, nubar, chi;
};
inline Str mgnuclide(const Str& name, const MG& m, const Str& type = "neutron") {
  Str s = "<nuclide name=\"" + name + "\"><" + type + ">";
  if (!m.capture.empty()) s += "<capture>" + list(m.capture) + "</capture>";
  if (!m.scatter.empty()) s += "<scatter>" + list(m.scatter) + "</scatter>";
  if (!m.fission.empty()) s += "<fission><xs>" + list(m.fission) + "</xs><nubar>" + list(m.nubar) + "</nubar><chi>" + list(m.chi) + "</chi></fission>";
  return s + "</" + type + "></nuclide>";
}
inline Str multigroup(int G, const Str& nuclides) { return "<nuclides><multigroup groups=\"" + std::to_string(G) + "\">" + nuclides + "</multigroup></nuclides>"; }
inline Str material(const Str& name, double aden, const std::vector<std::pair<Str, double>>& parts) {
  Str s = "<material name=\"" + name + "\" aden=\"" + text(aden) + "\">";
  for (auto& [n, f] : parts) s += "<nuclide name=\"" + n + "\" afrac=\"" + text(f) + "\"/>";
  return s + "</material>";
}
inline Str materials(const Str& m) { return "<materials>" + m + "</materials>"; }
inline Str surfaces(const Str& s) { return "<surfaces>" + s + "</surfaces>"; }
inline Str cells(const Str& s) { return "<cells>" + s + "</cells>"; }
inline Str name_of(const Str& p, int i) { return p + std::to_string(i); }
// Containers ordered by address make the order of objects a matter of chance;
// so that a counterexample means the same in every build, the objects are
// made in varying orders until they come in the wanted one.
struct Built {
  std::vector<std::unique_ptr<Doc>> docs;
  std::vector<std::unique_ptr<World>> worlds;
  template <class Text, class Names> const World& make(int n, Text text, Names names, const std::vector<Str>& wanted) {
    for (int t = 0;; t++) {
      std::vector<int> order; // as wanted, reversed, rotated
      for (int i = 0; i < n; i++) order.push_back(t == 1 ? n - 1 - i : (i + (t > 2 ? t - 2 : 0)) % n);
      docs.push_back(std::make_unique<Doc>(text(order)));
      worlds.push_back(std::make_unique<World>(docs.back()->root));
      std::vector<Str> got;
      names(*worlds.back(), got);
      if (t == 7 || got == wanted) return *worlds.back();
    }
  }
};
