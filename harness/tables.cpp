// Data files and tabulated functions.
#include "hdf5.hpp"
#include "ContinuousMap.hpp"
#include "HDF5DataSet.hpp"

namespace {
std::vector<double> axis(const Str& n, int k, double gap = 1e-3) {
  std::vector<double> x;
  for (int i = 0; i < k; i++) {
    x.push_back(vf::real(name_of(n, i), -10, 10));
    if (i) vf_assume_lt(x[i - 1] + gap, x[i]);
  }
  return x;
}
std::vector<double> values(const Str& n, int k) {
  std::vector<double> v;
  for (int i = 0; i < k; i++) v.push_back(vf::real(name_of(n, i), -10, 10));
  return v;
}
} // namespace

void vf_main() {
  const long what = vf_param("what", 0);
  if (what == 0) { // one level
    const int n = 1 + (int)vf_choose("entries", vf_param("n", 4));
    const auto x = axis("x", n);
    const auto y = values("y", n);
    const double at = vf_real("at", -20, 20);
    ContinuousMap<Real, Real> m;
    if (vf_choose("file", 2)) m = HDF5DataSet<1>{table("t", x, y)}.ToContinuousMap();
    else
      for (int i : {2, 0, 3, 1})
        if (i < n) m[x[i]] = y[i];
    if (vf_choose("asked", 2)) { // elsewhere in the table
      const int k = (int)vf_choose("where", n + 1);
      m.at(k == n ? x[n - 1] + 1 : x[k] - 0.0009765625);
    }
    vf_check_eq(m.at(at), lookup(x, y, at), "a table is interpolated linearly between its entries and clamped at its ends");
    const int k = (int)vf_choose("entry", n);
    vf_check_eq(m.at(x[k]), y[k], "a table gives its entries back");
    vf_reach(at < x[0] ? "below" : at < x[n - 1] ? "inside" : "above");
  } else if (what == 1) { // two and three levels, level by level
    const bool three = vf_param("three", 0);
    const int a = 1 + (int)vf_choose("a", 2), b = 1 + (int)vf_choose("b", three ? 2 : 4), c = three ? 1 + (int)vf_choose("c", 4) : 1;
    const std::vector<std::vector<double>> ax = {axis("x", a), axis("y", b), axis("z", c)};
    const auto v = values("v", a * b * c);
    const double q = vf_real("q", -20, 20);
    auto part = [&](int i, int j) { return std::vector<double>(v.begin() + (i * b + j) * c, v.begin() + (i * b + j + 1) * c); };
    const int i = (int)vf_choose("i", a), j = (int)vf_choose("j", b);
    if (three) {
      auto m = HDF5DataSet<3>{write_hdf5("t", ax, v)}.ToContinuousMap();
      vf_check_eq(m[ax[0][i]][ax[1][j]].at(q), lookup(ax[2], part(i, j), q), "each part of a nested table is the stored one");
    } else {
      auto m = HDF5DataSet<2>{write_hdf5("t", {ax[0], ax[1]}, v)}.ToContinuousMap();
      const std::vector<double> row(v.begin() + i * b, v.begin() + (i + 1) * b);
      vf_check_eq(m[ax[0][i]].at(q), lookup(ax[1], row, q), "each part of a nested table is the stored one");
    }
    vf_reach("nested");
  } else if (what == 2) { // element access
    const int D = 1 + (int)vf_choose("levels", 3);
    size_t s[3] = {1, 1, 1}, i[3] = {0, 0, 0};
    for (int k = 0; k < D; k++) {
      s[k] = 1 + vf_choose("size", vf_param("size", 3));
      i[k] = vf_choose("index", vf_param("size", 3) + 1);
    }
    std::vector<std::vector<double>> ax;
    for (int k = 0; k < D; k++) ax.push_back(axis(name_of("x", k), (int)s[k]));
    std::vector<double> v;
    for (size_t k = 0; k < s[0] * s[1] * s[2]; k++) v.push_back(vf::real(name_of("v", (int)k), -10, 10));
    const Str path = write_hdf5("t", ax, v);
    const bool in = i[0] < s[0] && i[1] < s[1] && i[2] < s[2];
    double got = 0;
    bool bad = false;
    std::vector<std::vector<double>> back;
    auto run = [&](auto d) {
      bad = throws_std([&] {
        if constexpr (decltype(d)::value == 1) got = HDF5DataSet<1>{path}.at(i[0]);
        if constexpr (decltype(d)::value == 2) got = HDF5DataSet<2>{path}.at(i[0], i[1]);
        if constexpr (decltype(d)::value == 3) got = HDF5DataSet<3>{path}.at(i[0], i[1], i[2]);
      });
      HDF5DataSet<decltype(d)::value> h{path};
      for (int k = 0; k < D; k++) back.push_back(h.GetAxis(k));
    };
    if (D == 1) run(std::integral_constant<size_t, 1>{});
    if (D == 2) run(std::integral_constant<size_t, 2>{});
    if (D == 3) run(std::integral_constant<size_t, 3>{});
    vf_check(bad == !in, "an index beyond its level is an error, and no other");
    if (in) vf_check_eq(got, v[(i[0] * s[1] + i[1]) * s[2] + i[2]], "an index combination gives the value stored for it");
    for (int k = 0; k < D; k++) {
      vf_check(back[k].size() == ax[k].size(), "a level gives its coordinates back");
      for (size_t j = 0; j < back[k].size() && j < ax[k].size(); j++) vf_check_eq(back[k][j], ax[k][j], "a level gives its coordinates back");
    }
    vf_reach(in ? "value" : "out of range");
  } else if (what == 3) { // files that do not fit
    const int have = 1 + (int)vf_choose("have", 3), want = 1 + (int)vf_choose("want", 3);
    const bool missing = vf_choose("missing", 2), bare = vf_choose("bare", 2);
    std::vector<std::vector<double>> ax(have, {1, 2});
    Str path = write_hdf5("t", ax, std::vector<double>(size_t(1) << have, 3.));
    if (missing) std::remove(path.c_str());
    if (bare) { // not laid out as expected
      if (missing) vf_stop();
      std::remove(path.c_str());
      H5::H5File f(path, H5F_ACC_TRUNC);
    }
    bool ok = false, other = false;
    try {
      if (want == 1) HDF5DataSet<1>{path};
      if (want == 2) HDF5DataSet<2>{path};
      if (want == 3) HDF5DataSet<3>{path};
      ok = true;
    } catch (const std::exception&) {
      other = true;
    } catch (const H5::Exception&) { // the library's own errors
    }
    vf_check(ok == (have == want && !missing && !bare), "a file that is missing or has another number of levels is an error");
    vf_check(bare || ok || other, "a file that is missing or has another number of levels is a described error");
    vf_reach(ok ? "read" : "refused");
  }
}
