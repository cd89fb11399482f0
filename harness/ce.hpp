// Continuous-energy nuclides from data files.
#pragma once
#include "hdf5.hpp"

struct Table {
  std::vector<double> x, y;
  double at(double e) const { return lookup(x, y, e); }
};
inline Table any_table(const Str& n, const std::vector<double>& x, double lo = 0, double hi = 50) {
  Table t{x, {}};
  for (size_t i = 0; i < x.size(); i++) t.y.push_back(vf::real(name_of(n, (int)i), lo, hi));
  return t;
}
inline Str evaluation(const Str& tag, const Str& file, const Table& t, double T) {
  return "<" + tag + " file=\"" + table(file, t.x, t.y) + "\" temperature=\"" + text(T) + "\"/>";
}
inline Str cenuclide(const Str& name, double awr, const Str& body, const Str& type = "neutron") {
  return "<nuclide name=\"" + name + "\" awr=\"" + text(awr) + "\"><" + type + ">" + body + "</" + type + "></nuclide>";
}
inline Str continuous(const Str& n) { return "<nuclides><continuous>" + n + "</continuous></nuclides>"; }
inline double energy_of(const Particle& p) { return std::get<ContinuousEnergy>(p.GetEnergy()); }
// thermal motion's factor on a constant elastic cross section
inline double free_gas(double awr, double E, double T) {
  if (T == 0) return 1;
  const double a = awr * E / (constants::boltzmann * T), s = std::sqrt(a);
  return (1 + 1 / (2 * a)) * std::erf(s) + std::exp(-a) / std::sqrt(constants::pi * a);
}
