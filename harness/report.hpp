// Numbers of an estimator report: every list that follows a heading "mean" or
// "std dev", in order.
#pragma once
#include <cstdlib>
#include <sstream>
#include <string>
#include <vector>
struct Listing { bool mean; std::vector<double> v; };
inline std::vector<Listing> listings(const std::string& report) {
  std::vector<Listing> out;
  size_t at = 0;
  while (true) {
    const size_t a = report.find("mean\n", at), b = report.find("std dev\n", at), k = std::min(a, b);
    if (k == std::string::npos) return out;
    at = report.find('\n', report.find('\n', k) + 1) + 1;
    const size_t end = report.find('\n', at);
    std::istringstream line(report.substr(at, end - at));
    Listing l{k == a, {}};
    std::string tok;
    while (std::getline(line, tok, ','))
      if (tok.find_first_not_of(" ") != std::string::npos) l.v.push_back(std::strtod(tok.c_str(), nullptr));
    out.push_back(l);
  }
}
