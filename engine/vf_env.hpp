// Force-included in every translation unit of /repo and every harness, in both
// builds: the environment stub for randomness.  std::generate_canonical for
// the engine the code uses returns an arbitrary number in [0, 1) that is a
// function of the engine's state, and advances the engine as libstdc++ does.
#pragma once
#include <cstdint>
#include <cstring>
#include <random>
extern "C" double vf_uniform(uint64_t engine_state);
namespace std {
template <>
inline double generate_canonical<double, 53, minstd_rand>(minstd_rand& g) {
  static_assert(sizeof(minstd_rand) == sizeof(uint64_t));
  uint64_t state;
  std::memcpy(&state, &g, sizeof state);
  g.discard(2);
  return vf_uniform(state);
}
} // namespace std
