// Writes the data files the code reads: one pandas column over a product of
// axes, last axis fastest.
#pragma once
#include "common.hpp"
#include "H5Cpp.h"
#include <cstdio>
#include <unistd.h>

inline Str write_hdf5(const Str& name, const std::vector<std::vector<double>>& axes, const std::vector<double>& values, unsigned long long levels = 0) {
  const Str path = Str{vf_scratch()} + "/" + name + "_" + std::to_string(getpid()) + ".hdf5"; // paths run side by side
  H5::H5File f(path, H5F_ACC_TRUNC);
  H5::Group g = f.createGroup("/pandas");
  const unsigned long long n = levels ? levels : axes.size();
  g.createAttribute("axis1_nlevels", H5::PredType::NATIVE_ULLONG, H5::DataSpace(H5S_SCALAR)).write(H5::PredType::NATIVE_ULLONG, &n);
  auto put = [&](const Str& k, const std::vector<double>& v) {
    const hsize_t d[1] = {v.size()};
    g.createDataSet(k, H5::PredType::NATIVE_DOUBLE, H5::DataSpace(1, d)).write(v.data(), H5::PredType::NATIVE_DOUBLE);
  };
  for (size_t i = 0; i < axes.size(); i++) put("axis1_level" + std::to_string(i), axes[i]);
  put("block0_values", values);
  return path;
}
inline Str table(const Str& name, const std::vector<double>& x, const std::vector<double>& y) { return write_hdf5(name, {x}, y); }
// the definition of a linearly interpolated table, clamped at its ends
inline double lookup(const std::vector<double>& x, const std::vector<double>& y, double at) {
  if (at < x.front()) return y.front();
  for (size_t i = 0; i + 1 < x.size(); i++)
    if (at < x[i + 1]) return y[i] + (at - x[i]) * ((y[i + 1] - y[i]) / (x[i + 1] - x[i]));
  return y.back();
}
