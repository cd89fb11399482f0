// Replay runtime: the ordinary build of harness + /repo, inputs read from a
// replay file.
#include "vf.hpp"
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ctime>
#include <unistd.h>
#include <random>

static std::vector<std::pair<std::string, double>> reals;
static std::vector<std::pair<std::string, size_t>> choices;
static std::map<uint64_t, double> us;
static size_t ri, ci;
static int tier;
static std::map<std::string, long> params;
static std::string scratch = "/tmp";
static bool failed = false, diverged = false;
static int expect_no_abort = 1;

// Search mode: the solver found the obligation to fail, but its model does not
// fail as ordinary doubles (the model lies on a degenerate point of a function
// the solver knows only by laws).  Values next to and away from the model, on
// the same branch choices, are tried on the real code.
static bool searching = false;
static std::string wanted, found;
static std::minstd_rand sg;
static double keep_share = 0;
struct Shared { unsigned char held[4096]; };
static Shared* shr = nullptr;
static std::vector<std::pair<size_t, double>> tried; // input, value
static size_t inputs_seen = 0;
static std::vector<std::string> lines; // the inputs as used
static double frac() { return (sg() % 1000003) / 1000003.; }
static bool keep(size_t id) { return (id < 4096 && shr->held[id]) || frac() < keep_share; }
static std::string num(double v) { char b[40]; std::snprintf(b, sizeof b, "%.17g", v); return b; }
static void finish() {
  if (searching) _exit(1);
  std::fflush(stdout);
  if (diverged) { std::printf("VF-DIVERGED\n"); }
  std::fflush(stdout);
  _exit(failed ? 3 : 0);
}
extern "C" {
double vf_real(const char* name, double lo, double hi) {
  double v = 0.5 * (lo + hi);
  if (ri < reals.size()) {
    if (reals[ri].first != name) diverged = true;
    v = reals[ri].second;
  } else
    diverged = true;
  ri++;
  if (searching) {
    const size_t id = inputs_seen++;
    if (!keep(id)) {
      double a = std::max(lo, -1e6), b = std::min(hi, 1e6);
      switch (sg() % 4) {
      case 0: v += (frac() - 0.5) * 0.25 * (std::fabs(v) + (b - a) * 1e-3); break;
      case 1: v += (frac() - 0.5) * 2e-3 * (std::fabs(v) + (b - a) * 1e-3); break;
      default: v = a + (b - a) * frac();
      }
      v = std::min(std::max(v, lo), hi);
      tried.emplace_back(id, v);
    }
    lines.push_back(std::string("R ") + name + " " + num(v));
  }
  return v;
}
void vf_unit(const char* name, double* xyz) {
  std::string n = name;
  if (searching) {
    searching = false;
    for (int i = 0; i < 3; i++) xyz[i] = vf_real((n + "xyz"[i]).c_str(), -1, 1);
    searching = true;
    const size_t id = inputs_seen++;
    if (!keep(id)) {
      const double w = sg() % 2 ? 1 : 0.01;
      for (int i = 0; i < 3; i++) xyz[i] = (w == 1 ? 0 : xyz[i]) + w * (2 * frac() - 1);
    }
    double r = std::sqrt(xyz[0] * xyz[0] + xyz[1] * xyz[1] + xyz[2] * xyz[2]);
    for (int i = 0; i < 3; i++) {
      xyz[i] /= r;
      lines.push_back("R " + n + "xyz"[i] + " " + num(xyz[i]));
    }
    return;
  }
  for (int i = 0; i < 3; i++) xyz[i] = vf_real((n + "xyz"[i]).c_str(), -1, 1);
  double r = std::sqrt(xyz[0] * xyz[0] + xyz[1] * xyz[1] + xyz[2] * xyz[2]);
  if (std::fabs(r - 1) < 1e-6) for (int i = 0; i < 3; i++) xyz[i] /= r;
}
double vf_define(const char*, double v) { return v; }
size_t vf_choose(const char* name, size_t n) {
  size_t v = 0;
  if (std::getenv("VF_TRACE")) std::fprintf(stderr, "choose %s %zu\n", name, n);
  if (ci < choices.size()) {
    if (choices[ci].first != name) diverged = true;
    v = choices[ci].second;
  } else
    diverged = true;
  ci++;
  v = v < n ? v : 0;
  if (searching) lines.push_back(std::string("C ") + name + " " + std::to_string(v));
  return v;
}
double vf_uniform(uint64_t s) {
  auto it = us.find(s);
  if (std::getenv("VF_TRACE")) std::fprintf(stderr, "draw %lu %d\n", (unsigned long)s, it != us.end());
  if (searching && it != us.end()) {
    static std::map<uint64_t, double> now;
    auto k = now.find(s);
    if (k != now.end()) return k->second;
    double v = it->second;
    const size_t id = inputs_seen++;
    if (!keep(id)) {
      v = sg() % 3 ? frac() : v + (frac() - 0.5) * 0.02;
      v = std::min(std::max(v, 0.), 1 - 1e-9);
      tried.emplace_back(id, v);
    }
    lines.push_back("U " + std::to_string(s) + " " + num(v));
    return now[s] = v;
  }
  if (it != us.end()) return it->second;
  // a state the symbolic path never drew from: fall back to the real
  // generator's value
  diverged = true;
  std::minstd_rand g;
  std::memcpy(&g, &s, sizeof s);
  double a = double(g() - 1), b = double(g() - 1), r = 2147483646.;
  double u = (a + b * r) / (r * r);
  return u < 1 ? u : std::nextafter(1., 0.);
}
void vf_assume(bool c) { if (!c) { if (searching) _exit(1); std::printf("VF-ASSUME-FALSE\n"); finish(); } }
// assumptions are re-checked loosely: the model was rounded to doubles
static bool sl(double a, double b) { return a <= b + 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
void vf_assume_le(double a, double b) { if (searching) vf_assume(a <= b); vf_assume(sl(a, b)); }
void vf_assume_lt(double a, double b) { if (searching) vf_assume(a < b); vf_assume(sl(a, b)); }
void vf_assume_eq(double a, double b) {
  if (searching && !(sl(a, b) && sl(b, a))) { // an input the model has to give
    bool one = false;
    for (auto& [id, v] : tried)
      if ((v == a || v == b) && id < 4096) shr->held[id] = 1, one = true;
    if (!one)
      for (auto& [id, v] : tried) if (id < 4096 && sg() % 4 == 0) shr->held[id] = 1;
  }
  vf_assume(sl(a, b) && sl(b, a)); }
void vf_assume_ne(double a, double b) { vf_assume(a != b); }
void vf_check(bool c, const char* msg) {
  if (!c && searching) {
    if (diverged || wanted != msg) _exit(1);
    std::ofstream o(found);
    o << "M " << msg << "\n";
    for (auto& [k, v] : params) o << "P " << k << "=" << v << "\n";
    o << "T " << tier << "\n";
    for (auto& l : lines) o << l << "\n";
    o.close();
    _exit(3);
  }
  if (!c) { std::printf("VF-FAIL %s\n", msg); failed = true; finish(); }
}
void vf_check_eq(double a, double b, const char* msg, double tol) {
  bool ok = a == b || (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= (searching ? 1e3 : 1) * tol * (1 + std::fabs(a) + std::fabs(b)));
  if (!ok) std::printf("VF-VALUES %.17g %.17g\n", a, b);
  vf_check(ok, msg);
}
void vf_check_le(double a, double b, const char* msg, double tol) {
  bool ok = a <= b || (std::isfinite(a) && std::isfinite(b) && a <= b + (searching ? 1e3 : 1) * tol * (1 + std::fabs(a) + std::fabs(b)));
  if (!ok) std::printf("VF-VALUES %.17g %.17g\n", a, b);
  vf_check(ok, msg);
}
void vf_reach(const char*) {}
void vf_observe(const char* name, double v) { std::printf("VF-OBS %s %.17g\n", name, v); }
void vf_stop() { finish(); std::abort(); }
void vf_bound(const char*) { finish(); std::abort(); }
int vf_symbolic() { return 0; }
void vf_expect_no_abort(int on) { expect_no_abort = on; }
int vf_tier() { return tier; }
long vf_param(const char* name, long def) {
  auto it = params.find(name);
  return it == params.end() ? def : it->second;
}
const char* vf_scratch() { return scratch.c_str(); }
}
static void on_signal(int s) {
  if (!expect_no_abort) _exit(0);
  if (searching) _exit(1);
  const char* n = s == SIGABRT ? "abort" : s == SIGSEGV ? "segv" : s == SIGFPE ? "fpe" : s == SIGALRM ? "hang" : "signal";
  std::fflush(stdout);
  char b[64];
  int k = std::snprintf(b, sizeof b, "VF-FAIL %s\n", n);
  if (write(1, b, k)) {}
  _exit(3);
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--thorough") tier = 1;
    else if (a == "--search") found = argv[++i];
    else if (a == "--scratch") scratch = argv[++i];
    else if (a == "--param") {
      std::string p = argv[++i];
      auto e = p.find('=');
      params[p.substr(0, e)] = std::atol(p.c_str() + e + 1);
    } else {
      std::ifstream f(a);
      std::string line;
      while (std::getline(f, line)) {
        std::istringstream s(line);
        std::string k, name, val;
        s >> k;
        if (k == "M") wanted = line.substr(2);
        else if (k == "R") { s >> name >> val; reals.emplace_back(name, std::strtod(val.c_str(), nullptr)); }
        else if (k == "C") { size_t v; s >> name >> v; choices.emplace_back(name, v); }
        else if (k == "U") { uint64_t st; s >> st >> val; us[st] = std::strtod(val.c_str(), nullptr); }
        else if (k == "P") { std::string p; s >> p; auto e = p.find('='); params[p.substr(0, e)] = std::atol(p.c_str() + e + 1); }
        else if (k == "T") { s >> tier; }
      }
    }
  }
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) std::signal(s, on_signal);
  if (!found.empty()) {
    shr = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (std::freopen("/dev/null", "w", stdout)) {}
    if (std::freopen("/dev/null", "w", stderr)) {}
    const time_t end = time(nullptr) + 12;
    int hits = 0;
    for (unsigned n = 1; n <= 4000 && hits < 3 && time(nullptr) < end; n++) {
      static const double shares[] = {0, 0.5, 0.8, 0.9};
      const pid_t c = fork();
      if (c == 0) {
        alarm(5);
        searching = true;
        sg.seed(n * 7919);
        keep_share = shares[n % 4];
        if (hits) found += ".more"; // one place can be an accident of rounding
        try { vf_main(); } catch (...) {}
        _exit(1);
      }
      int st = 0;
      waitpid(c, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 3) hits++;
    }
    _exit(hits >= 3 ? 3 : 0);
  }
  alarm(60);
  vf_main();
  finish();
}
