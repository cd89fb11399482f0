// Polynomials with exact rational coefficients over the SMT variables, kept in
// a normal form modulo the equalities known on the current path.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace poly {
using Q = boost::multiprecision::cpp_rational;
using Mono = std::vector<std::pair<unsigned, unsigned>>; // (var, exponent), var ascending
// 0: definition (abstraction) variable, 1: input, 2: auxiliary (sqrt, 1/x, libm)
extern std::vector<unsigned char>* kind;

// product order: auxiliary variables newest first, then graded lex of inputs
// before definitions
struct Greater {
  bool operator()(const Mono& a, const Mono& b) const {
    const auto& K = *kind;
    // auxiliary part, from the highest index down
    long i = long(a.size()) - 1, j = long(b.size()) - 1;
    while (true) {
      while (i >= 0 && K[a[i].first] != 2) i--;
      while (j >= 0 && K[b[j].first] != 2) j--;
      if (i < 0 && j < 0) break;
      if (i < 0) return false;
      if (j < 0) return true;
      if (a[i].first != b[j].first) return a[i].first > b[j].first;
      if (a[i].second != b[j].second) return a[i].second > b[j].second;
      i--; j--;
    }
    unsigned da = 0, db = 0;
    for (auto& x : a) if (K[x.first] != 2) da += x.second;
    for (auto& x : b) if (K[x.first] != 2) db += x.second;
    if (da != db) return da > db;
    for (int k = 1; k >= 0; k--) {
      size_t p = 0, q = 0;
      while (true) {
        while (p < a.size() && K[a[p].first] != k) p++;
        while (q < b.size() && K[b[q].first] != k) q++;
        if (p == a.size() && q == b.size()) break;
        if (p == a.size()) return false;
        if (q == b.size()) return true;
        if (a[p].first != b[q].first) return a[p].first < b[q].first;
        if (a[p].second != b[q].second) return a[p].second > b[q].second;
        p++; q++;
      }
    }
    return false;
  }
};
using Poly = std::map<Mono, Q, Greater>;

inline void addto(Poly& p, const Mono& m, const Q& c) {
  if (c == 0) return;
  auto it = p.find(m);
  if (it == p.end()) p.emplace(m, c);
  else {
    it->second += c;
    if (it->second == 0) p.erase(it);
  }
}
inline Mono mul(const Mono& a, const Mono& b) {
  Mono r;
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { r.emplace_back(a[i].first, a[i].second + b[j].second); i++; j++; }
  }
  return r;
}
// m / d when d divides m
inline bool divides(const Mono& d, const Mono& m, Mono& q) {
  q.clear();
  size_t j = 0;
  for (size_t i = 0; i < m.size(); i++) {
    if (j < d.size() && d[j].first == m[i].first) {
      if (d[j].second > m[i].second) return false;
      if (m[i].second > d[j].second) q.emplace_back(m[i].first, m[i].second - d[j].second);
      j++;
    } else
      q.push_back(m[i]);
  }
  return j == d.size();
}
inline Poly constant(const Q& c) { Poly p; addto(p, {}, c); return p; }
inline Poly var(unsigned v) { Poly p; p.emplace(Mono{{v, 1}}, Q(1)); return p; }
inline Poly add(const Poly& a, const Poly& b, const Q& f = 1) {
  Poly r = a;
  for (auto& [m, c] : b) addto(r, m, f * c);
  return r;
}
inline Poly scale(const Poly& a, const Q& f) {
  Poly r;
  if (f == 0) return r;
  for (auto& [m, c] : a) r.emplace_hint(r.end(), m, c * f);
  return r;
}
inline bool is_const(const Poly& p) { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
inline Q const_of(const Poly& p) { return p.empty() ? Q(0) : p.begin()->second; }

struct Rule { Mono lm; Poly p; }; // p monic with leading monomial lm, p == 0
struct Rules {
  std::vector<Rule> r;
  size_t cap_terms = 400, cap_steps = 4000;
  Poly reduce(const Poly& in) const {
    if (r.empty()) return in;
    Poly p = in, out;
    size_t steps = 0;
    Mono q;
    while (!p.empty()) {
      auto it = p.begin();
      const Rule* hit = nullptr;
      for (auto& x : r) if (divides(x.lm, it->first, q)) { hit = &x; break; }
      if (!hit) {
        out.emplace(it->first, it->second);
        p.erase(it);
        continue;
      }
      if (++steps > cap_steps || p.size() > 4 * cap_terms) return in;
      Q c = it->second;
      for (auto& [m, d] : hit->p) addto(p, mul(q, m), -c * d);
    }
    return out;
  }
  void learn(const Poly& eq0) { // eq0 == 0
    Poly eq = reduce(eq0);
    if (is_const(eq) || eq.size() > 60) return;
    Q lc = eq.begin()->second;
    Rule n{eq.begin()->first, scale(eq, 1 / lc)};
    r.insert(r.begin(), n);
  }
};
inline bool mulp(const Poly& a, const Poly& b, Poly& r, size_t cap) {
  r.clear();
  if (a.size() * b.size() > cap * 8) return false;
  for (auto& [m, c] : a)
    for (auto& [n, d] : b) addto(r, mul(m, n), c * d);
  return r.size() <= cap;
}
inline Q of_double(double d) {
  if (d == 0) return Q(0);
  int e;
  double m = std::frexp(d, &e);
  long long im = (long long)(std::ldexp(m, 53));
  e -= 53;
  boost::multiprecision::cpp_int n = im;
  if (e >= 0) return Q(n << e);
  return Q(n, boost::multiprecision::cpp_int(1) << -e);
}
// exact double, if there is one
inline bool to_double(const Q& q, double& d) {
  d = q.convert_to<double>();
  return std::isfinite(d) && of_double(d) == q;
}
} // namespace poly
