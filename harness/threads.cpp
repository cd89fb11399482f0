// Whole fixed-source runs under every schedule of the worker threads.
#include "common.hpp"
#include "FixedSource.hpp"
#include <iostream>
#include "report.hpp"

void vf_main() {
  const int threads = (int)vf_param("threads", 2), histories = (int)vf_param("histories", 3);
  const bool sched = vf_param("explore", 1);
  const double sig = vf_real("sig", 0.125, 4), x = vf_real("x", 0, 2);
  MG m;
  m.capture = {sig};
  auto input = [&](int h, int t, int seed) {
    return general("surface", h, t, std::to_string(seed)) + multigroup(1, mgnuclide("n", m)) + materials(material("m", 1, {{"n", 1}})) + surfaces(planex("p", x + 1) + planex("q", -1)) +
           cells(cell("c", "m", side("p", true) + side("q", false)) + voidcell(side("p", false)) + voidcell(side("q", true))) +
           "<estimators><current name=\"e\" surface=\"p\"><bins><cosine u=\"1\" v=\"0\" w=\"0\"><boundaries>0.5</boundaries></cosine></bins></current></estimators>" +
           source("<constant x=\"0\" y=\"0\" z=\"0\"/>", "<constant x=\"1\" y=\"0\" z=\"0\"/>", "1");
  };
  std::cout.setstate(std::ios::failbit);
  std::vector<double> want(2, 0);
  // the histories one at a time
  for (int i = 0; i < histories; i++) {
    Doc doc(input(1, 1, 7 + i));
    FixedSource f{doc.root};
    const EstimatorSet s = f.Solve();
    for (int b = 0; b < 2; b++) want[b] += s.FindEstimatorByName("e").GetScore(b, 1);
  }
  Doc doc(input(histories, threads, 7));
  FixedSource f{doc.root};
  if (sched) vf_sched_begin();
  const EstimatorSet s = f.Solve();
  if (sched) vf_sched_end();
  for (int b = 0; b < 2; b++)
    vf_check_eq(s.FindEstimatorByName("e").GetScore(b, 1), want[b], "the result of a run is the sum over its histories, whatever the threads do");
  const auto l = listings(s.to_string());
  if (l.size() == 2 && l[0].v.size() == 2 && l[1].v.size() == 2) {
    const double n = histories;
    for (int b = 0; b < 2; b++) {
      vf_check_eq(l[0].v[b], want[b] / n, "the reported mean is per history", 1e-5);
      vf_check_eq(l[1].v[b], std::sqrt(want[b] - want[b] * want[b] / n) / n, "the reported deviation is that of the histories of all threads together", 1e-5);
    }
    vf_reach("report");
  }
  vf_reach("merged");
}
