// Symbolic runtime.  Linked with harness and /repo objects built through the
// IR pass.
//
// A symbolic double is an ordinary double whose bit pattern lies in a reserved
// range of huge finite values; the low bits index a table of SMT terms.  It
// moves through memory, containers, text (%.17g / strtod) and HDF5 files like
// any other double.  Operations on it build terms; comparisons ask the solver
// which outcomes the path condition allows and fork the process when both are
// possible.  Violated obligations are written out as concrete inputs.
#include "vf.hpp"
#include "vf_poly.hpp"
#include <z3++.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <ostream>
#include <map>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using z3::expr;
using Clock = std::chrono::steady_clock;

// ---------------------------------------------------------------- shared ----
struct Row { char name[120]; std::atomic<long> n, bad; };
struct Shared {
  std::atomic<int> lock;
  std::atomic<long> paths, infeasible, bounded, stopped, forks, decisions, queries,
      unknown, solver_us, ext_us, truncated, inconclusive, unsupported, concretized, violations, samples,
      proved, ext_queries, schedpoints, aborts_expected;
  std::atomic<int> tokens;
  std::atomic<int> stop;
  Row reach[128];
  Row checks[256];
  Row notes[64];
  std::atomic<int> nreach, nchecks, nnotes;
};
static Shared* sh;
static void spin_lock() { int z = 0; while (!sh->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(50); } }
static void spin_unlock() { sh->lock = 0; }
static Row* row(Row* t, std::atomic<int>& n, int cap, const char* name) {
  for (int i = 0; i < n; i++) if (!std::strncmp(t[i].name, name, 119)) return &t[i];
  spin_lock();
  Row* r = nullptr;
  for (int i = 0; i < n; i++) if (!std::strncmp(t[i].name, name, 119)) r = &t[i];
  if (!r && n < cap) { r = &t[n]; std::strncpy(r->name, name, 119); n++; }
  spin_unlock();
  return r ? r : &t[cap - 1];
}
static Row* reach_row(const char* s) { return row(sh->reach, sh->nreach, 128, s); }
static Row* check_row(const char* s) { return row(sh->checks, sh->nchecks, 256, s); }
static Row* note_row(const char* s) { return row(sh->notes, sh->nnotes, 64, s); }

// ---------------------------------------------------------------- options ---
static std::string outdir = ".", scratchdir = "/tmp";
static double budget = 600;
static int jobs = 8, tier = 0, max_viol_per_msg = 6, sample_cap = 6;
static bool fpmode = false;
static bool roundmode = false; // constants that are no doubles are rounded to one
static unsigned rlimit_branch = 4000000, rlimit_check = 60000000;
static unsigned tmo_branch = 4000, tmo_check = 20000;
static int max_enum = 40;
static long max_draws = 80;
static Clock::time_point t0;
static std::map<std::string, long> params;
static bool verbose = false;
static double elapsed() { return std::chrono::duration<double>(Clock::now() - t0).count(); }

// ---------------------------------------------------------------- state -----
static z3::context* C;
struct Constraint { expr e; std::vector<unsigned> vars; };
static std::vector<expr>* nodes;
static std::vector<poly::Poly>* polys; // real encoding only
static poly::Rules* rules;
std::vector<unsigned char>* poly::kind;
using poly::Poly;
using poly::Q;
static std::unordered_map<unsigned, unsigned>* node_of_ast;
static std::vector<Constraint>* path;
struct Var { std::string name; expr e; std::vector<Constraint> side; std::vector<Constraint> def; double lo = 0, hi = 0; int unit = -1; };
static std::vector<Var>* vars;                       // index = var id
static std::unordered_map<unsigned, unsigned>* var_of_ast;
struct Input { char kind; std::string name; uint64_t state; unsigned var; size_t choice; };
static std::vector<Input>* inputs;
static std::map<uint64_t, unsigned>* us; // engine state -> node id
static std::vector<std::pair<std::string, double>>* observed;
static std::vector<pid_t>* kids;
static int expect_no_abort = 1;
static bool in_rt = false;
static std::vector<std::string>* path_labels;

static const uint64_t TAG = 0x7FE5EE0000000000ull, TAGMASK = 0xFFFFFF0000000000ull;
static uint64_t bits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }
static double dbl(uint64_t u) { double d; std::memcpy(&d, &u, 8); return d; }
static inline bool sym(double d) { return (bits(d) & TAGMASK) == TAG; }
static unsigned id(double d) { return unsigned(bits(d) & ~TAGMASK); }
static expr& node(double d) { return (*nodes)[id(d)]; }

// exact decimal text of 2^k, k>=0
static std::string pow2(int k) {
  static std::map<int, std::string> memo;
  auto it = memo.find(k);
  if (it != memo.end()) return it->second;
  std::string s = "1";
  for (int i = 0; i < k; i++) {
    int c = 0;
    for (int j = int(s.size()) - 1; j >= 0; j--) {
      int v = (s[j] - '0') * 2 + c;
      s[j] = char('0' + v % 10);
      c = v / 10;
    }
    if (c) s.insert(s.begin(), char('0' + c));
  }
  return memo[k] = s;
}
static expr real_const(double d) {
  if (d == 0) return C->real_val(0);
  int e;
  double m = std::frexp(d, &e);
  int64_t im = int64_t(std::ldexp(m, 53));
  e -= 53;
  while (im % 2 == 0) { im /= 2; e++; }
  if (e >= 0) {
    expr p = C->real_val(pow2(e).c_str());
    return (C->real_val(int64_t(im)) * p).simplify();
  }
  return C->real_val((std::to_string(im) + "/" + pow2(-e)).c_str());
}
static Poly polyof(double d);
static expr poly_expr(const Poly& p);
static expr to_expr(double d) {
  if (fpmode) return sym(d) ? node(d) : C->fpa_val(d);
  return sym(d) ? poly_expr(polyof(d)) : real_const(d);
}
static double wrap(const expr& e, const Poly* p = nullptr) {
  unsigned h = Z3_get_ast_id(*C, e);
  auto it = node_of_ast->find(h);
  unsigned i;
  if (it != node_of_ast->end())
    i = it->second;
  else {
    i = unsigned(nodes->size());
    nodes->push_back(e);
    polys->push_back(p ? *p : Poly{});
    (*node_of_ast)[h] = i;
  }
  return dbl(TAG | i);
}
static expr q_expr(const Q& q) {
  std::string t = q.str();
  return C->real_val(t.c_str());
}
static expr poly_expr(const Poly& p);
static double wrapP(const Poly& p) {
  if (poly::is_const(p)) {
    double d;
    if (poly::to_double(poly::const_of(p), d)) return d;
    if (roundmode && std::isfinite(d)) return d;
  }
  return wrap(poly_expr(p), &p);
}
// the polynomial of a value, in normal form under the current equalities
static Poly polyof(double d) {
  if (!sym(d)) return poly::constant(poly::of_double(d));
  static std::map<unsigned, std::pair<size_t, Poly>>* memo = new std::map<unsigned, std::pair<size_t, Poly>>;
  auto it = memo->find(id(d));
  if (it != memo->end() && it->second.first == rules->r.size()) return it->second.second;
  Poly r = rules->reduce((*polys)[id(d)]);
  (*memo)[id(d)] = {rules->r.size(), r};
  return r;
}
// a value the current equalities make a constant
static double num(double d) {
  if (!sym(d) || fpmode) return d;
  const Poly p = polyof(d);
  return poly::is_const(p) ? wrapP(p) : d;
}
// variables occurring in an expression
static std::unordered_map<unsigned, std::vector<unsigned>>* varmemo;
static const std::vector<unsigned>& vars_in(const expr& e) {
  unsigned h = Z3_get_ast_id(*C, e);
  auto it = varmemo->find(h);
  if (it != varmemo->end()) return it->second;
  std::set<unsigned> r;
  if (e.is_app()) {
    auto v = var_of_ast->find(h);
    if (v != var_of_ast->end()) r.insert(v->second);
    for (unsigned i = 0; i < e.num_args(); i++) {
      const auto& s = vars_in(e.arg(i));
      r.insert(s.begin(), s.end());
    }
  }
  // keep the ast alive so that its id is not reused
  static std::vector<expr>* keep = new std::vector<expr>;
  keep->push_back(e);
  return (*varmemo)[h] = std::vector<unsigned>(r.begin(), r.end());
}
static Constraint mk(const expr& e) { return Constraint{e, vars_in(e)}; }
static unsigned new_var(const std::string& name, int kind = 2) {
  unsigned i = unsigned(vars->size());
  poly::kind->push_back((unsigned char)kind);
  std::string n = "v" + std::to_string(i) + "_" + name;
  expr e = fpmode ? C->constant(n.c_str(), C->fpa_sort<64>()) : C->real_const(n.c_str());
  vars->push_back(Var{name, e, {}, {}});
  (*var_of_ast)[Z3_get_ast_id(*C, e)] = i;
  return i;
}
static expr poly_expr(const Poly& p) {
  if (p.empty()) return C->real_val(0);
  z3::expr_vector sum(*C);
  for (auto& [m, c] : p) {
    z3::expr_vector f(*C);
    if (c != 1 || m.empty()) f.push_back(q_expr(c));
    for (auto& [v, e] : m)
      for (unsigned k = 0; k < e; k++) f.push_back((*vars)[v].e);
    if (f.size() == 1) sum.push_back(f[0]);
    else {
      std::vector<Z3_ast> a;
      for (unsigned k = 0; k < f.size(); k++) a.push_back(f[int(k)]);
      sum.push_back(expr(*C, Z3_mk_mul(*C, unsigned(a.size()), a.data())));
    }
  }
  if (sum.size() == 1) return sum[0];
  std::vector<Z3_ast> a;
  for (unsigned k = 0; k < sum.size(); k++) a.push_back(sum[int(k)]);
  return expr(*C, Z3_mk_add(*C, unsigned(a.size()), a.data()));
}
static expr vexpr(unsigned v) { return (*vars)[v].e; }
static double wrapvar(unsigned v) {
  if (fpmode) return wrap((*vars)[v].e);
  return wrapP(rules->reduce(poly::var(v)));
}
static void side(unsigned v, const expr& e) { (*vars)[v].side.push_back(mk(e)); }

// ---------------------------------------------------------------- solving ---
enum Res { UNSAT, SAT, UNKNOWN };
static void cone(const std::vector<Constraint>& q, std::vector<expr>& out, bool whole, bool defs = true, bool* had_defs = nullptr) {
  std::set<unsigned> vs;
  std::vector<const Constraint*> pool;
  std::vector<bool> used(path->size(), false);
  std::vector<unsigned> todo;
  auto addv = [&](const std::vector<unsigned>& l) {
    for (unsigned v : l) if (vs.insert(v).second) todo.push_back(v);
  };
  for (auto& c : q) { out.push_back(c.e); addv(c.vars); }
  if (whole) {
    for (auto& c : *path) { out.push_back(c.e); addv(c.vars); }
    for (auto& in : *inputs) if (in.kind != 'C') addv({in.var});
    std::fill(used.begin(), used.end(), true);
  }
  bool again = true;
  while (again) {
    again = false;
    while (!todo.empty()) {
      unsigned v = todo.back();
      todo.pop_back();
      for (size_t i = 0; i < (*vars)[v].side.size(); i++) {
        out.push_back((*vars)[v].side[i].e);
        addv((*vars)[v].side[i].vars);
      }
      if (!(*vars)[v].def.empty() && had_defs) *had_defs = true;
      if (defs)
        for (size_t i = 0; i < (*vars)[v].def.size(); i++) {
          out.push_back((*vars)[v].def[i].e);
          addv((*vars)[v].def[i].vars);
        }
    }
    for (size_t i = 0; i < path->size(); i++) {
      if (used[i]) continue;
      for (unsigned v : (*path)[i].vars)
        if (vs.count(v)) {
          used[i] = true;
          out.push_back((*path)[i].e);
          addv((*path)[i].vars);
          again = true;
          break;
        }
    }
    if (!todo.empty()) again = true;
  }
}
static bool nonlinear(const expr& e) {
  static std::unordered_map<unsigned, bool>* memo = new std::unordered_map<unsigned, bool>;
  unsigned h = Z3_get_ast_id(*C, e);
  auto it = memo->find(h);
  if (it != memo->end()) return it->second;
  bool r = false;
  if (e.is_app()) {
    auto k = e.decl().decl_kind();
    if (k == Z3_OP_MUL) {
      int nv = 0;
      for (unsigned i = 0; i < e.num_args(); i++) if (!vars_in(e.arg(i)).empty()) nv++;
      r = nv > 1;
    }
    if (k == Z3_OP_DIV && !vars_in(e.arg(1)).empty()) r = true;
    if (k == Z3_OP_POWER) r = true;
    for (unsigned i = 0; !r && i < e.num_args(); i++) r = nonlinear(e.arg(i));
  }
  vars_in(e);
  return (*memo)[h] = r;
}
struct Fun { std::string name; expr arg; unsigned var; };
static std::vector<Fun>* funs;
static std::vector<std::pair<Poly, unsigned>>* roots; // square roots on this path and what they are of
struct Answer { Res r; std::vector<std::pair<unsigned, expr>> model; };
static Answer run_z3(const std::vector<expr>& cs, unsigned rl, bool want_model, const char* tac, unsigned tmo) {
  Answer a{UNKNOWN, {}};
  auto s0 = Clock::now();
  sh->queries++;
  try {
    z3::solver s = tac ? z3::tactic(*C, tac).mk_solver() : z3::solver(*C);
    z3::params p(*C);
    p.set("rlimit", rl);
    p.set("timeout", tmo);
    s.set(p);
    for (auto& c : cs) s.add(c);
    z3::check_result r = s.check();
    a.r = r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNKNOWN;
    if (a.r == SAT && want_model) {
      z3::model m = s.get_model();
      for (auto& in : *inputs)
        if (in.kind != 'C') a.model.emplace_back(in.var, m.eval((*vars)[in.var].e, true));
      for (auto& f : *funs) a.model.emplace_back(f.var, m.eval((*vars)[f.var].e, true));
    }
  } catch (z3::exception& e) {
    if (verbose) std::fprintf(stderr, "z3: %s\n", e.msg());
    a.r = UNKNOWN;
  }
  double el = std::chrono::duration<double>(Clock::now() - s0).count();
  sh->solver_us += long(el * 1e6);
  if (verbose && el > 1)
    std::fprintf(stderr, "[%d] slow query %.1fs %s n=%zu -> %d\n", getpid(), el, tac ? tac : "default", cs.size(), a.r);
  return a;
}
// external solvers on the same query, for what z3's library leaves open
static Res run_external(const std::vector<expr>& cs, int secs, bool cvc_only) {
  if (cs.empty()) return SAT;
  z3::solver s(*C);
  for (auto& c : cs) s.add(c);
  std::string txt = s.to_smt2();
  static int cnt = 0;
  std::string f = outdir + "/q" + std::to_string(getpid()) + "_" + std::to_string(cnt++) + ".smt2";
  FILE* o = std::fopen(f.c_str(), "w");
  if (!o) return UNKNOWN;
  std::fprintf(o, "(set-logic ALL)\n%s", txt.c_str());
  std::fclose(o);
  auto s0 = Clock::now();
  sh->ext_queries++;
  Res r = UNKNOWN;
  std::string cmds[2] = {"timeout -k 2 " + std::to_string(secs) + " cvc5 --lang smt2 " + f + " 2>/dev/null",
                         "timeout -k 2 " + std::to_string(secs) + " z3 " + f + " 2>/dev/null"};
  for (auto& c : cmds) {
    if (cvc_only && &c != &cmds[0]) break;
    if (r != UNKNOWN) break;
    if (FILE* p = popen(c.c_str(), "r")) {
      char b[256];
      while (std::fgets(b, sizeof b, p)) {
        if (!std::strncmp(b, "(error", 6)) { r = UNKNOWN; break; }
        if (!std::strncmp(b, "unsat", 5)) r = UNSAT;
        else if (!std::strncmp(b, "sat", 3)) r = SAT;
      }
      pclose(p);
    }
  }
  sh->ext_us += long(std::chrono::duration<double>(Clock::now() - s0).count() * 1e6);
  if (!std::getenv("VF_KEEP")) unlink(f.c_str());
  return r;
}
static std::map<std::vector<unsigned>, Res>* qcache;
static Answer solve1(const std::vector<expr>& cs, bool strong, bool want_model) {
  for (auto& c : cs)
    if (c.is_false()) return {UNSAT, {}};
  std::vector<unsigned> key;
  for (auto& c : cs) key.push_back(Z3_get_ast_id(*C, c));
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  if (!want_model) {
    auto it = qcache->find(key);
    if (it != qcache->end() && (it->second != UNKNOWN || !strong)) return {it->second, {}};
  }
  bool nl = false;
  for (auto& c : cs) nl = nl || nonlinear(c);
  unsigned rl = strong ? rlimit_check : rlimit_branch, tm = strong ? tmo_check : tmo_branch;
  Answer a{UNKNOWN, {}};
  if (fpmode)
    a = run_z3(cs, rl, want_model, "qffp", tm * 4);
  else if (!nl)
    a = run_z3(cs, rl, want_model, nullptr, tm);
  else {
    a = run_z3(cs, rl / 4, want_model, "qfnra-nlsat", 1000);
    if (a.r == UNKNOWN) a = run_z3(cs, rl / 4, want_model, nullptr, 1000);
    if (a.r == UNKNOWN && !want_model) a.r = run_external(cs, strong ? 4 : 2, true);
    if (a.r == UNKNOWN && strong) a = run_z3(cs, rl, want_model, "qfnra-nlsat", tm);
  }
  if (a.r == UNKNOWN && strong && !want_model) a.r = run_external(cs, tier ? 60 : 15, false);
  (*qcache)[key] = a.r;
  // keep asts alive for the cache key
  static std::vector<expr>* keep = new std::vector<expr>;
  for (auto& c : cs) keep->push_back(c);
  return a;
}
static Answer solve(const std::vector<Constraint>& q, bool strong, bool want_model, bool whole) {
  in_rt = true;
  Answer a{UNKNOWN, {}};
  bool had_defs = false;
  std::vector<expr> cs;
  // without the definitions of abstraction variables: unsat is final, and a
  // branch it leaves open is explored
  if (!want_model && !whole) {
    cone(q, cs, false, false, &had_defs);
    a = solve1(cs, strong, false);
    if (a.r == UNSAT || !had_defs || !strong) {
      if (a.r == UNKNOWN) sh->unknown++;
      in_rt = false;
      return a;
    }
    cs.clear();
  }
  cone(q, cs, whole);
  a = solve1(cs, strong, want_model);
  if (a.r == UNKNOWN) sh->unknown++;
  in_rt = false;
  return a;
}
static void add_path(const expr& e) {
  if (!e.is_true()) path->push_back(mk(e));
}

// ---------------------------------------------------------------- exploring -
static bool own_token = true;
static void wait_kids() {
  for (pid_t k : *kids) { int st; waitpid(k, &st, 0); }
  kids->clear();
}
static void save_path(const char* file, const char* msg);
[[noreturn]] static void leave(std::atomic<long>& counter) {
  counter++;
  std::fflush(stdout);
  if (own_token) sh->tokens++;
  wait_kids();
  if (own_token) {}
  _exit(0);
}
static bool over_budget() { return elapsed() > budget || sh->stop.load(); }
static void check_budget() {
  if (over_budget()) leave(sh->truncated);
}
// forks; returns true in the child
static bool split() {
  sh->forks++;
  std::fflush(stdout);
  int t = sh->tokens.load();
  bool extra = false;
  while (t > 0 && !extra) extra = sh->tokens.compare_exchange_weak(t, t - 1);
  pid_t p = fork();
  if (p < 0) { // cannot fork: explore one side only and say so
    if (extra) sh->tokens++;
    sh->truncated++;
    note_row("fork failed")->n++;
    return true;
  }
  if (p == 0) {
    kids->clear();
    own_token = extra;
    return true;
  }
  if (extra) {
    kids->push_back(p);
    // collect finished children so that they do not pile up
    for (size_t i = 0; i < kids->size();) {
      int st;
      if (waitpid((*kids)[i], &st, WNOHANG) == (*kids)[i]) kids->erase(kids->begin() + long(i));
      else i++;
    }
  } else {
    int st;
    waitpid(p, &st, 0);
    check_budget();
  }
  return false;
}
// decides a symbolic condition
static bool decide(const expr& cond0) {
  expr cond = cond0.simplify();
  if (cond.is_true()) return true;
  if (cond.is_false()) return false;
  check_budget();
  sh->decisions++;
  expr ncond = !cond;
  Constraint ct = mk(cond), cf = mk(ncond);
  Res t = solve({ct}, false, false, false).r;
  if (t == UNSAT) { return false; } // implied: no need to add
  Res f = solve({cf}, false, false, false).r;
  if (f == UNSAT) { return true; }
  bool side_ = split();
  path->push_back(side_ ? ct : cf);
  return side_;
}

// decide for a value known only through a model: used by fptoui
static double decimal(const expr& e) {
  if (fpmode) {
    expr s = e.simplify();
    if (Z3_fpa_is_numeral_nan(*C, s)) return std::nan("");
    if (Z3_fpa_is_numeral_inf(*C, s)) return Z3_fpa_is_numeral_negative(*C, s) ? -INFINITY : INFINITY;
    expr b = C->bv_val(0, 64);
    expr bv = s.mk_to_ieee_bv().simplify();
    uint64_t u = 0;
    if (bv.is_numeral_u64(u)) return dbl(u);
    return 0;
  }
  std::string s;
  if (e.is_algebraic() && !e.is_numeral())
    s = e.get_decimal_string(40);
  else if (e.is_numeral())
    s = e.get_decimal_string(40);
  else
    s = "0";
  if (!s.empty() && s.back() == '?') s.pop_back();
  // get_decimal_string truncates; for exact dyadic rationals this can lose the
  // last digits, so use the fraction when it is one
  if (e.is_numeral()) {
    std::string num = e.numerator().get_decimal_string(0), den = e.denominator().get_decimal_string(0);
    if (num.size() < 4000 && den.size() < 4000) {
      long double n = std::strtold(num.c_str(), nullptr), d = std::strtold(den.c_str(), nullptr);
      if (std::isfinite((double)d) && d != 0 && std::isfinite((double)n)) return double(n / d);
    }
  }
  return std::strtod(s.c_str(), nullptr);
}

static std::string fmt(double v) { char b[40]; std::snprintf(b, sizeof b, "%.17g", v); return b; }

// a full model of path and q.  Queries the solver leaves open are retried with
// some inputs fixed to simple values: any model found this way is a model.
static Answer find_model(const std::vector<Constraint>& q, double secs) {
  std::vector<expr> cs;
  cone(q, cs, true);
  for (auto& c : cs) if (c.is_false()) return {UNSAT, {}};
  bool nl = false;
  for (auto& c : cs) nl = nl || nonlinear(c);
  if (fpmode) return run_z3(cs, rlimit_check, true, "qffp", tmo_check * 4);
  if (!nl) return run_z3(cs, rlimit_check, true, nullptr, tmo_check);
  unsigned first = unsigned(std::min(3000., secs * 100));
  Answer a = run_z3(cs, rlimit_check, true, "qfnra-nlsat", first);
  if (a.r == UNKNOWN) a = run_z3(cs, rlimit_check, true, nullptr, first);
  if (a.r != UNKNOWN) return a;
  static const int tri[][4] = {{1, 0, 0, 1}, {3, 4, 0, 5}, {1, 2, 2, 3}, {2, 3, 6, 7}, {5, 12, 0, 13}, {1, 4, 8, 9}, {2, 6, 9, 11}, {4, 4, 7, 9}};
  std::minstd_rand g(12345);
  auto s0 = Clock::now();
  std::map<int, std::vector<unsigned>> un;
  for (auto& in : *inputs)
    if (in.kind == 'R' && (*vars)[in.var].unit >= 0) un[(*vars)[in.var].unit].push_back(in.var);
  for (int t = 0; t < 400; t++) {
    if (std::chrono::duration<double>(Clock::now() - s0).count() > secs) break;
    std::vector<expr> c2 = cs;
    // the later tries pin more
    double keep = t < 40 ? 0.5 : t < 150 ? 0.75 : 0.9;
    for (auto& [u, vs] : un) {
      if (g() % 8 == 0) continue;
      const int* k = tri[g() % 8];
      int perm = int(g() % 6), ord[3] = {perm % 3, (perm % 3 + 1 + perm / 3) % 3, 0};
      ord[2] = 3 - ord[0] - ord[1];
      for (int i = 0; i < 3; i++) {
        int sg = g() % 2 ? 1 : -1;
        c2.push_back((*vars)[vs[size_t(i)]].e == C->real_val(sg * k[ord[i]], k[3]));
      }
    }
    for (auto& in : *inputs) {
      if (in.kind == 'C' || (*vars)[in.var].unit >= 0) continue;
      if (double(g() % 1000) / 1000 > keep) continue;
      Var& v = (*vars)[in.var];
      double x;
      double lo = std::max(v.lo, -1e6), hi = std::min(v.hi, 1e6);
      switch (g() % 5) {
      case 0: x = lo; break;
      case 1: x = std::min(std::max(0., lo), hi); break;
      case 2: x = std::min(std::max(double(int(g() % 9) - 4), lo), hi); break;
      default: x = lo + (hi - lo) * double(g() % 17) / 16;
      }
      x = std::nearbyint(x * 1024) / 1024;
      if (x < v.lo || x > v.hi) x = v.lo;
      c2.push_back(v.e == real_const(x));
    }
    a = run_z3(c2, rlimit_branch, true, "qfnra-nlsat", 700);
    if (a.r == UNKNOWN) a = run_z3(c2, rlimit_branch, true, nullptr, 300);
    if (a.r == SAT) return a;
  }
  return {UNKNOWN, {}};
}

// The axioms of log, exp, ... leave room the real functions do not have.
// Moves a model of the path onto points where every such function has its real
// value: pins argument and value of each to a consistent pair of numbers.
static double real_fun(const std::string& n, double x) {
  if (n == "log") return std::log(x);
  if (n == "exp") return std::exp(x);
  if (n == "erf") return std::erf(x);
  if (n == "asin") return std::asin(x);
  if (n == "acos") return std::acos(x);
  if (n == "atan") return std::atan(x);
  if (n == "sinh") return std::sinh(x);
  if (n == "cosh") return std::cosh(x);
  if (n == "tanh") return std::tanh(x);
  if (n == "sin") return std::sin(x);
  if (n == "cos") return std::cos(x);
  return NAN;
}
static double inverse_fun(const std::string& n, double y) {
  if (n == "log") return std::exp(y);
  if (n == "exp") return std::log(y);
  if (n == "tanh") return std::atanh(y);
  if (n == "atan") return std::tan(y);
  if (n == "asin") return std::sin(y);
  if (n == "erf") {
    double lo = -6, hi = 6;
    for (int i = 0; i < 200; i++) { double m = (lo + hi) / 2; (std::erf(m) < y ? lo : hi) = m; }
    return lo;
  }
  return NAN;
}
template <class L> static void realise(std::vector<Constraint>& extra, std::map<unsigned, double>& val, L load, double secs) {
  auto s0 = Clock::now();
  auto late = [&] { return std::chrono::duration<double>(Clock::now() - s0).count() > secs; };
  auto value = [&](const expr& e) {
    z3::expr_vector from(*C), to(*C);
    for (auto& [v, d] : val)
      if (std::isfinite(d)) { from.push_back((*vars)[v].e); to.push_back(real_const(d)); }
    expr r = expr(e).substitute(from, to).simplify();
    return r.is_numeral() ? decimal(r) : NAN;
  };
  auto attempt = [&](std::vector<expr> es) {
    std::vector<Constraint> q2 = extra;
    for (auto& e : es) q2.push_back(mk(e));
    std::vector<expr> cs;
    cone(q2, cs, true);
    Answer b = run_z3(cs, rlimit_branch / 2, true, "qfnra-nlsat", 700);
    if (b.r == UNKNOWN) b = run_z3(cs, rlimit_branch / 2, true, nullptr, 700);
    if (b.r != SAT) return false;
    extra = q2;
    load(b);
    return true;
  };
  std::set<unsigned> done;
  for (int round = 0; round < 6; round++) {
    bool missed = false;
    std::vector<expr> cuts;
    for (size_t k = 0; k < funs->size() && !late(); k++) {
      Fun f = (*funs)[k];
      if (done.count(f.var) || !val.count(f.var) || f.name == "sqrt" || f.name == "cbrt") continue;
      double y = val[f.var], x = value(f.arg);
      if (!std::isfinite(y)) continue;
      expr ye = (*vars)[f.var].e;
      bool ok = false;
      if (f.name == "sin" || f.name == "cos") {
        // both at a rational point of the unit circle next to the real one
        unsigned other = 0;
        bool have = false;
        for (auto& g : *funs)
          if (g.var != f.var && (g.name == "sin" || g.name == "cos") && Z3_get_ast_id(*C, g.arg) == Z3_get_ast_id(*C, f.arg)) { other = g.var; have = true; }
        if (!have || !val.count(other)) continue;
        unsigned sv = f.name == "sin" ? f.var : other, cv = f.name == "cos" ? f.var : other;
        double s1 = val[sv], c1 = val[cv];
        if (std::isfinite(x)) { // an argument held already
          expr t = real_const(std::tan(x / 2)), one = C->real_val(1), e = real_const(1e-13 * (1 + std::fabs(x)));
          if (std::fabs(std::cos(x / 2)) > 1e-6)
            ok = attempt({f.arg <= real_const(x) + e, f.arg >= real_const(x) - e, (*vars)[sv].e == (2 * t / (one + t * t)).simplify(), (*vars)[cv].e == ((one - t * t) / (one + t * t)).simplify()});
        }
        for (int w = 0; w < 2 && !ok; w++) {
          double ang = x;
          if (w == 0) { // the angle of the model's point, in the turn of the model's argument
            ang = std::atan2(s1, c1);
            if (std::isfinite(x)) ang += 2 * M_PI * std::nearbyint((x - ang) / (2 * M_PI));
            else if (ang < 0) ang += 2 * M_PI;
          }
          if (!std::isfinite(ang)) continue;
          ang = std::nearbyint(ang * 1048576) / 1048576;
          if (std::fabs(std::cos(ang / 2)) < 1e-6) ang += 1. / 65536;
          expr t = real_const(std::tan(ang / 2)), one = C->real_val(1);
          ok = attempt({f.arg == real_const(ang), (*vars)[sv].e == (2 * t / (one + t * t)).simplify(), (*vars)[cv].e == ((one - t * t) / (one + t * t)).simplify()});
        }
        if (ok) { done.insert(sv); done.insert(cv); }
        else missed = true;
        continue;
      }
      double yr = std::nearbyint(y * 1048576) / 1048576;
      for (double yy : {yr, y}) {
        double xx = inverse_fun(f.name, yy);
        if (!ok && std::isfinite(xx) && std::isfinite(yy) && std::fabs(xx) < 1e12) ok = attempt({f.arg == real_const(xx), ye == real_const(real_fun(f.name, xx))});
      }
      if (!ok && std::isfinite(x)) {
        double xr = std::nearbyint(x * 1048576) / 1048576;
        for (double xx : {xr, x}) {
          double yy = real_fun(f.name, xx);
          if (!ok && std::isfinite(yy)) ok = attempt({f.arg == real_const(xx), ye == real_const(yy)});
        }
        double yy = real_fun(f.name, x);
        expr e = real_const(1e-13 * (1 + std::fabs(x)));
        if (!ok && std::isfinite(yy)) ok = attempt({f.arg <= real_const(x) + e, f.arg >= real_const(x) - e, ye == real_const(yy)});
      }
      if (ok) { done.insert(f.var); continue; }
      missed = true;
      double fy = real_fun(f.name, x);
      if (std::isfinite(x) && std::isfinite(fy) && f.name != "acos" && f.name != "cosh") { // all increasing
        double e = 1e-9 * (1 + std::fabs(fy));
        cuts.push_back(implies(f.arg <= real_const(x), ye <= real_const(fy + e)));
        cuts.push_back(implies(f.arg >= real_const(x), ye >= real_const(fy - e)));
      }
    }
    if (!missed || cuts.empty() || late()) break;
    if (!attempt(cuts)) break;
  }
}

// writes the current path's inputs, as doubles, to a replay file.  q: extra
// constraints.  Returns false when no model was obtained.
static Res last_model = UNKNOWN;
static bool dump_inputs(const std::vector<Constraint>& q, const std::string& file,
                        const std::string& msg, bool pin, double pin_secs) {
  Answer a = find_model(q, pin ? (tier ? 90 : 30) : 5);
  if (a.r != SAT) { last_model = a.r; return false; }
  std::vector<Constraint> extra = q;
  std::map<unsigned, double> val;
  std::set<unsigned> pinned;
  const bool find_ok = true;
  auto load = [&](const Answer& x) {
    for (auto& [v, e] : x.model) if (!val.count(v) || true) val[v] = decimal(e);
  };
  load(a);
  if (!fpmode && !funs->empty()) realise(extra, val, load, pin ? 20 : 4);
  if (pin && !fpmode) {
    auto s0 = Clock::now();
    unsigned save = rlimit_check;
    rlimit_check = rlimit_branch;
    for (auto& in : *inputs) {
      if (in.kind == 'C') continue;
      if (std::chrono::duration<double>(Clock::now() - s0).count() > pin_secs) break;
      double v = val[in.var];
      std::vector<double> cand;
      if (std::isfinite(v)) {
        double r3 = std::nearbyint(v * 8) / 8, r10 = std::nearbyint(v * 4096) / 4096;
        cand = {r3, r10, v};
      }
      for (double c : cand) {
        std::vector<Constraint> q2 = extra;
        q2.push_back(mk((*vars)[in.var].e == real_const(c)));
        std::vector<expr> cs;
        cone(q2, cs, true);
        Answer b = run_z3(cs, rlimit_branch / 2, true, "qfnra-nlsat", 1000);
        if (b.r == UNKNOWN) b = run_z3(cs, rlimit_branch / 2, true, nullptr, 1000);
        if (b.r == SAT) {
          extra = q2;
          load(b);
          val[in.var] = c;
          pinned.insert(in.var);
          break;
        }
      }
    }
    rlimit_check = save;
  }
  FILE* f = std::fopen(file.c_str(), "w");
  if (!f) return false;
  std::fprintf(f, "M %s\n", msg.c_str());
  for (auto& [k, v] : params) std::fprintf(f, "P %s=%ld\n", k.c_str(), v);
  std::fprintf(f, "T %d\n", tier);
  for (auto& in : *inputs) {
    if (in.kind == 'C') std::fprintf(f, "C %s %zu\n", in.name.c_str(), in.choice);
    else if (in.kind == 'R') std::fprintf(f, "R %s %s\n", in.name.c_str(), fmt(val[in.var]).c_str());
    else {
      double u = val[in.var];
      if (u >= 1) u = std::nextafter(1., 0.);
      std::fprintf(f, "U %llu %s\n", (unsigned long long)in.state, fmt(u).c_str());
    }
  }
  // expected values of the observed terms under the model
  if (!observed->empty() && !fpmode) {
    std::vector<expr> cs;
    std::vector<Constraint> q2 = extra;
    cone(q2, cs, true);
    try {
      z3::solver s(*C);
      z3::solver s2 = z3::tactic(*C, "qfnra-nlsat").mk_solver();
      z3::params p(*C);
      p.set("rlimit", rlimit_branch);
      p.set("timeout", 3000u);
      s2.set(p);
      for (auto& [v, x] : val) if (pinned.count(v)) s2.add((*vars)[v].e == real_const(x));
      if (pinned.empty() && find_ok && extra.size() == q.size()) for (auto& [v, e] : a.model) s2.add((*vars)[v].e == e);
      for (auto& c : cs) s2.add(c);
      for (auto& in : *inputs)
        if (in.kind != 'C' && pin) {}
      if (s2.check() == z3::sat) {
        // the inputs written above come from the last model; re-derive both
        // from this one so that they belong together
        z3::model m = s2.get_model();
        std::rewind(f);
        if (ftruncate(fileno(f), 0)) {}
        std::fprintf(f, "M %s\n", msg.c_str());
        for (auto& [k, v] : params) std::fprintf(f, "P %s=%ld\n", k.c_str(), v);
        std::fprintf(f, "T %d\n", tier);
        for (auto& in : *inputs) {
          if (in.kind == 'C') std::fprintf(f, "C %s %zu\n", in.name.c_str(), in.choice);
          else {
            double v = decimal(m.eval((*vars)[in.var].e, true));
            if (in.kind == 'R') std::fprintf(f, "R %s %s\n", in.name.c_str(), fmt(v).c_str());
            else {
              if (v >= 1) v = std::nextafter(1., 0.);
              std::fprintf(f, "U %llu %s\n", (unsigned long long)in.state, fmt(v).c_str());
            }
          }
        }
        for (auto& [n, d] : *observed) {
          if (!sym(d)) std::fprintf(f, "O %s %s\n", n.c_str(), fmt(d).c_str());
          else {
            expr ev = m.eval(to_expr(d), true).simplify();
            if (ev.is_numeral() || ev.is_algebraic())
              std::fprintf(f, "O %s %s\n", n.c_str(), fmt(decimal(ev)).c_str());
            else
              std::fprintf(f, "O %s ?\n", n.c_str());
          }
        }
      }
    } catch (z3::exception&) {
    }
  }
  std::fclose(f);
  return true;
}

static std::string sanitize(const std::string& s) {
  std::string r;
  for (char c : s) r += std::isalnum((unsigned char)c) ? c : '_';
  return r.substr(0, 60);
}
// an obligation failed on this path (with extra condition q)
static void violation(const char* msg, const std::vector<Constraint>& q, const std::vector<Constraint>& preferred) {
  Row* r = check_row(msg);
  long k = r->bad++;
  if (k >= max_viol_per_msg) return;
  long n = sh->violations++;
  std::string f = outdir + "/viol-" + std::to_string(n) + "-" + sanitize(msg) + ".replay";
  bool ok = false;
  if (!preferred.empty()) ok = dump_inputs(preferred, f, msg, true, 15);
  if (!ok) ok = dump_inputs(q, f, msg, true, 15);
  if (!ok && last_model == UNSAT) { // the path itself is infeasible
    r->bad--;
    sh->infeasible++;
    return;
  }
  if (!ok) {
    sh->inconclusive++;
    note_row((std::string("no model for failing obligation: ") + msg).c_str())->n++;
    r->bad--;
    return;
  }
}

[[noreturn]] static void end_path() {
  // sampled paths are replayed against the real code by the driver
  if (sample_cap > 0 && sh->samples < sample_cap) {
    long n = sh->samples++;
    if (n < sample_cap) dump_inputs({}, outdir + "/sample-" + std::to_string(n) + ".replay", "sample", false, 0);
  }
  for (auto& l : *path_labels) reach_row(l.c_str())->n++;
  leave(sh->paths);
}

// ---------------------------------------------------------------- arithmetic
static double native_nan() { return std::nan(""); }
static expr rne() { return expr(*C, Z3_mk_fpa_rne(*C)); }
static bool isz(double a) { return !sym(a) && a == 0; }

// p mask 0, as a formula over the normal form
static expr cmp0(unsigned mask, const Poly& p0) {
  if (poly::is_const(p0)) {
    Q c = poly::const_of(p0);
    return C->bool_val(c == 0 ? (mask & 1) != 0 : c > 0 ? (mask & 2) != 0 : (mask & 4) != 0);
  }
  Q lc = p0.begin()->second;
  if (lc < 0) {
    lc = -lc;
  }
  Poly p = poly::scale(p0, 1 / lc);
  bool flip = p.begin()->second < 0;
  if (flip) {
    p = poly::scale(p, -1);
    mask = (mask & 1) | ((mask & 2) << 1) | ((mask & 4) >> 1);
  }
  // constant term to the right
  Q k = 0;
  if (auto it = p.find({}); it != p.end()) { k = -it->second; p.erase(it); }
  expr x = poly_expr(p), y = q_expr(k);
  switch (mask & 7) {
  case 0: return C->bool_val(false);
  case 1: return x == y;
  case 2: return x > y;
  case 3: return x >= y;
  case 4: return x < y;
  case 5: return x <= y;
  case 6: return x != y;
  default: return C->bool_val(true);
  }
}
static void learn(const Poly& p) { rules->learn(p); }
static bool dec0(unsigned mask, const Poly& p) {
  bool r = decide(cmp0(mask, p));
  if ((mask & 7) == 1 && r) learn(p);
  if ((mask & 7) == 6 && !r) learn(p);
  return r;
}
static Poly diff(double a, double b) { return rules->reduce(poly::add(polyof(a), polyof(b), -1)); }
static bool dec(unsigned mask, double a, double b) { return dec0(mask, diff(a, b)); }
static bool sgn_positive(double a) { return dec(2, a, 0); }
static bool is_zero(double a) { return sym(a) ? dec(1, a, 0) : a == 0; }
static void side_poly(unsigned v, const Poly& eq) { // eq == 0 by construction of v
  side(v, poly_expr(eq) == 0);
  learn(eq);
}
static Poly mulP(const Poly& a, const Poly& b) {
  Poly r;
  if (poly::mulp(a, b, r, 300)) return rules->reduce(r);
  // too large to expand: name the factors' product
  unsigned v = new_var("big");
  side(v, vexpr(v) == poly_expr(a) * poly_expr(b));
  return poly::var(v);
}
static Poly inverse(const Poly& b) { // b nonzero on this path
  if (poly::is_const(b)) return poly::constant(1 / poly::const_of(b));
  Q lc = b.begin()->second;
  Poly m = poly::scale(b, 1 / lc);
  static std::map<unsigned, unsigned>* memo = new std::map<unsigned, unsigned>; // ast of m -> var
  static std::map<unsigned, Poly>* inv = new std::map<unsigned, Poly>;          // inverse var -> m
  static std::vector<expr>* keep = new std::vector<expr>;
  if (m.size() == 1) { // product: inverse factor by factor
    Poly r = poly::constant(1 / lc);
    for (auto& [v, e] : m.begin()->first) {
      Poly f;
      auto it = inv->find(v);
      const Poly* under = nullptr; // 1/sqrt(P) = sqrt(P)/P
      for (auto& x : *roots) if (x.second == v) under = &x.first;
      if (it != inv->end()) f = it->second;
      else if (under) f = mulP(poly::var(v), inverse(rules->reduce(*under)));
      else {
        expr key = (*vars)[v].e;
        auto k = memo->find(Z3_get_ast_id(*C, key));
        unsigned iv;
        if (k != memo->end()) iv = k->second;
        else {
          iv = new_var("inv");
          (*memo)[Z3_get_ast_id(*C, key)] = iv;
          (*inv)[iv] = poly::var(v);
          side_poly(iv, poly::add(poly::Poly{{poly::mul({{v, 1}}, {{iv, 1}}), Q(1)}}, poly::constant(1), -1));
        }
        f = poly::var(iv);
      }
      for (unsigned i = 0; i < e; i++) r = mulP(r, f);
    }
    return r;
  }
  expr key = poly_expr(m);
  keep->push_back(key);
  auto k = memo->find(Z3_get_ast_id(*C, key));
  if (k != memo->end()) return poly::scale(poly::var(k->second), 1 / lc);
  unsigned iv = new_var("inv");
  (*memo)[Z3_get_ast_id(*C, key)] = iv;
  (*inv)[iv] = m;
  Poly eq;
  for (auto& [mo, c] : m) poly::addto(eq, poly::mul(mo, {{iv, 1}}), c);
  poly::addto(eq, {}, Q(-1));
  side_poly(iv, eq);
  return poly::scale(rules->reduce(poly::var(iv)), 1 / lc);
}

static double inf_or_zero_mul(double s, double inf) {
  if (std::isnan(inf)) return inf;
  if (is_zero(s)) return native_nan();
  return sgn_positive(s) ? inf : -inf;
}
// Choosing the sign of a zero the real-number encoding cannot see
static size_t raw_choose(const char* name, size_t n, bool input);

extern "C" {
void vf_rt_unsupported(const char* what) {
  note_row((std::string("unsupported: ") + what).c_str())->n++;
  sh->unsupported++;
}
double vf_rt_fadd(double a, double b) {
  if (roundmode) { a = num(a); b = num(b); }
  if (!sym(a) && !sym(b)) return a + b;
  if (fpmode) return wrap(expr(*C, Z3_mk_fpa_add(*C, rne(), to_expr(a), to_expr(b))));
  if (!sym(a) && !std::isfinite(a)) return a;
  if (!sym(b) && !std::isfinite(b)) return b;
  if (isz(a)) return b;
  if (isz(b)) return a;
  return wrapP(rules->reduce(poly::add(polyof(a), polyof(b))));
}
double vf_rt_fsub(double a, double b) {
  if (roundmode) { a = num(a); b = num(b); }
  if (!sym(a) && !sym(b)) return a - b;
  if (fpmode) return wrap(expr(*C, Z3_mk_fpa_sub(*C, rne(), to_expr(a), to_expr(b))));
  if (!sym(a) && !std::isfinite(a)) return a;
  if (!sym(b) && !std::isfinite(b)) return -b;
  if (isz(b)) return a;
  return wrapP(diff(a, b));
}
double vf_rt_fneg(double a) {
  if (!sym(a)) return -a;
  if (fpmode) return wrap(expr(*C, Z3_mk_fpa_neg(*C, node(a))));
  return wrapP(poly::scale(polyof(a), -1));
}
double vf_rt_fmul(double a, double b) {
  if (roundmode) { a = num(a); b = num(b); }
  if (!sym(a) && !sym(b)) return a * b;
  if (fpmode) return wrap(expr(*C, Z3_mk_fpa_mul(*C, rne(), to_expr(a), to_expr(b))));
  if (!sym(a) && !std::isfinite(a)) return inf_or_zero_mul(b, a);
  if (!sym(b) && !std::isfinite(b)) return inf_or_zero_mul(a, b);
  if (isz(a) || isz(b)) return 0;
  if (!sym(a) && a == 1) return b;
  if (!sym(b) && b == 1) return a;
  return wrapP(mulP(polyof(a), polyof(b)));
}
double vf_rt_fdiv(double a, double b) {
  if (roundmode) { a = num(a); b = num(b); }
  if (!sym(a) && !sym(b)) return a / b;
  if (fpmode) return wrap(expr(*C, Z3_mk_fpa_div(*C, rne(), to_expr(a), to_expr(b))));
  if (!sym(b)) {
    if (std::isnan(b)) return b;
    if (std::isinf(b)) return 0;
    if (b == 1) return a;
    if (b == 0) {
      if (is_zero(a)) return native_nan();
      bool pos = sgn_positive(a);
      return (pos == !std::signbit(b)) ? INFINITY : -INFINITY;
    }
    return wrapP(poly::scale(polyof(a), 1 / poly::of_double(b)));
  }
  // symbolic divisor
  if (!sym(a) && std::isnan(a)) return a;
  if (is_zero(b)) {
    if (is_zero(a)) return native_nan();
    bool pos = sym(a) ? sgn_positive(a) : a > 0;
    // the real-number encoding does not see the zero's sign: both are explored
    size_t neg = raw_choose("sign_of_zero", 2, false);
    return pos != bool(neg) ? INFINITY : -INFINITY;
  }
  if (!sym(a) && std::isinf(a)) return sgn_positive(b) ? a : -a;
  if (isz(a)) return 0;
  return wrapP(mulP(polyof(a), inverse(polyof(b))));
}
double vf_rt_fma(double a, double b, double c) { return vf_rt_fadd(vf_rt_fmul(a, b), c); }

static expr cmp_expr(unsigned mask, double a, double b) {
  if (!fpmode) return cmp0(mask, diff(a, b));
  expr x = to_expr(a), y = to_expr(b);
  expr r = C->bool_val(false);
  if (mask & 1) r = r || expr(*C, Z3_mk_fpa_eq(*C, x, y));
  if (mask & 2) r = r || expr(*C, Z3_mk_fpa_gt(*C, x, y));
  if (mask & 4) r = r || expr(*C, Z3_mk_fpa_lt(*C, x, y));
  if (mask & 8) r = r || expr(*C, Z3_mk_fpa_is_nan(*C, x)) || expr(*C, Z3_mk_fpa_is_nan(*C, y));
  return r;
}
static unsigned char native_cmp(unsigned mask, double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return (mask & 8) != 0;
  if (a == b) return (mask & 1) != 0;
  if (a > b) return (mask & 2) != 0;
  return (mask & 4) != 0;
}
unsigned char vf_rt_fcmp(int mask, double a, double b) {
  if (roundmode) { a = num(a); b = num(b); }
  if (!sym(a) && !sym(b)) return native_cmp(unsigned(mask), a, b);
  if (!fpmode) {
    if ((!sym(a) && std::isnan(a)) || (!sym(b) && std::isnan(b))) return (mask & 8) != 0;
    if (!sym(a) && std::isinf(a)) return a > 0 ? (mask & 2) != 0 : (mask & 4) != 0;
    if (!sym(b) && std::isinf(b)) return b > 0 ? (mask & 4) != 0 : (mask & 2) != 0;
    return dec(unsigned(mask), a, b);
  }
  return decide(cmp_expr(unsigned(mask), a, b));
}
unsigned char vf_rt_isfpclass(double a, int m) {
  if (!sym(a)) {
    int c = std::fpclassify(a);
    bool s = std::signbit(a);
    int bit = c == FP_NAN ? 3 : c == FP_INFINITE ? (s ? 4 : 512) : c == FP_NORMAL ? (s ? 8 : 256)
              : c == FP_SUBNORMAL ? (s ? 16 : 128) : (s ? 32 : 64);
    return (m & bit) != 0;
  }
  if (fpmode) {
    expr x = node(a), r = C->bool_val(false);
    expr neg(*C, Z3_mk_fpa_is_negative(*C, x)), pos(*C, Z3_mk_fpa_is_positive(*C, x));
    if (m & 3) r = r || expr(*C, Z3_mk_fpa_is_nan(*C, x));
    expr inf(*C, Z3_mk_fpa_is_infinite(*C, x)), nor(*C, Z3_mk_fpa_is_normal(*C, x)),
        sub(*C, Z3_mk_fpa_is_subnormal(*C, x)), zer(*C, Z3_mk_fpa_is_zero(*C, x));
    if (m & 4) r = r || (inf && neg);
    if (m & 512) r = r || (inf && pos);
    if (m & 8) r = r || (nor && neg);
    if (m & 256) r = r || (nor && pos);
    if (m & 16) r = r || (sub && neg);
    if (m & 128) r = r || (sub && pos);
    if (m & 32) r = r || (zer && neg);
    if (m & 64) r = r || (zer && pos);
    return decide(r);
  }
  // finite real
  expr x = to_expr(a), r = C->bool_val(false);
  if (m & (8 | 16)) r = r || x < 0;
  if (m & (256 | 128)) r = r || x > 0;
  if (m & (32 | 64)) r = r || x == 0;
  return decide(r);
}
static double must_concretize(double a, const char* why) {
  note_row((std::string("concretized: ") + why).c_str())->n++;
  sh->concretized++;
  Answer ans = solve({}, true, true, true);
  if (ans.r != SAT) leave(sh->inconclusive);
  std::vector<expr> cs;
  cone({}, cs, true);
  z3::solver s(*C);
  for (auto& c : cs) s.add(c);
  if (s.check() != z3::sat) leave(sh->inconclusive);
  expr v = s.get_model().eval(to_expr(a), true);
  add_path(to_expr(a) == v);
  return decimal(v);
}
double vf_rt_concretize(double a) { return sym(a) ? must_concretize(a, "float/long double conversion") : a; }
uint64_t vf_rt_signbits(double a) {
  if (!sym(a)) return bits(a);
  if (fpmode) return decide(expr(*C, Z3_mk_fpa_is_negative(*C, node(a)))) ? (1ull << 63) : 0;
  return dec(4, a, 0) ? (1ull << 63) : 0;
}
uint64_t vf_rt_bits(double a) { return bits(sym(a) ? must_concretize(a, "bit pattern of a double") : a); }

static uint64_t to_int(double a, int w, bool uns) {
  double lo = uns ? -1 : -std::ldexp(1., w - 1), hi = std::ldexp(1., uns ? w : w - 1);
  if (!sym(a)) {
    bool bad = std::isnan(a) || (uns ? a <= -1 : a < lo) || a >= hi;
    if (bad) {
      const char* msg = "undefined double to integer conversion";
      check_row(msg)->n++;
      violation(msg, {}, {});
      leave(sh->paths);
    }
    return uns ? uint64_t(a) : uint64_t(int64_t(a));
  }
  expr x = to_expr(a);
  // out of range for the destination: undefined behaviour
  expr bad = fpmode ? !(expr(*C, Z3_mk_fpa_lt(*C, x, C->fpa_val(hi))) &&
                        (uns ? expr(*C, Z3_mk_fpa_gt(*C, x, C->fpa_val(-1.)))
                             : expr(*C, Z3_mk_fpa_geq(*C, x, C->fpa_val(lo)))))
                    : (x >= real_const(hi) || (uns ? x <= -1 : x < real_const(lo)));
  if (decide(bad)) {
    const char* msg = "undefined double to integer conversion";
    check_row(msg)->n++;
    violation(msg, {}, {});
    leave(sh->paths);
  }
  for (int k = 0; k < max_enum; k++) {
    // find a feasible truncated value
    std::vector<expr> cs;
    cone({mk(fpmode ? !bad : x > -real_const(hi) && x < real_const(hi))}, cs, true);
    bool nl = false;
    for (auto& c : cs) nl = nl || nonlinear(c);
    sh->queries++;
    auto s0 = Clock::now();
    double v = 0;
    bool got = false;
    for (int attempt = 0; attempt < 2 && !got; attempt++) {
      try {
        z3::solver s = fpmode ? z3::tactic(*C, "qffp").mk_solver()
                       : (nl == (attempt == 0)) ? z3::tactic(*C, "qfnra-nlsat").mk_solver() : z3::solver(*C);
        z3::params p(*C);
        p.set("rlimit", rlimit_branch);
        s.set(p);
        for (auto& c : cs) s.add(c);
        auto r = s.check();
        if (r == z3::sat) {
          expr mv = s.get_model().eval(x, true);
          v = decimal(fpmode ? mv : mv.simplify());
          got = true;
        } else if (r == z3::unsat)
          leave(sh->infeasible);
      } catch (z3::exception&) {
      }
    }
    sh->solver_us += long(std::chrono::duration<double>(Clock::now() - s0).count() * 1e6);
    if (!got) { note_row("integer conversion: solver gave no candidate")->n++; leave(sh->inconclusive); }
    double t = std::trunc(v);
    // the rounding of an algebraic model value can land on the next integer:
    // the constraint below is exact, so an infeasible candidate just falls through
    expr in = C->bool_val(true);
    if (fpmode) {
      if (t > 0) in = expr(*C, Z3_mk_fpa_geq(*C, x, C->fpa_val(t))) && expr(*C, Z3_mk_fpa_lt(*C, x, C->fpa_val(t + 1)));
      else if (t < 0) in = expr(*C, Z3_mk_fpa_gt(*C, x, C->fpa_val(t - 1))) && expr(*C, Z3_mk_fpa_leq(*C, x, C->fpa_val(t)));
      else in = expr(*C, Z3_mk_fpa_gt(*C, x, C->fpa_val(-1.))) && expr(*C, Z3_mk_fpa_lt(*C, x, C->fpa_val(1.)));
    } else {
      if (t > 0) in = x >= real_const(t) && x < real_const(t + 1);
      else if (t < 0) in = x > real_const(t - 1) && x <= real_const(t);
      else in = x > -1 && x < 1;
    }
    if (decide(in)) return uns ? uint64_t(t) : uint64_t(int64_t(t));
  }
  note_row("integer conversion: more values than the enumeration bound")->n++;
  leave(sh->bounded);
}
uint64_t vf_rt_fptoui(double a, int w) { return to_int(a, w, true); }
uint64_t vf_rt_fptosi(double a, int w) { return to_int(a, w, false); }
} // extern "C"

// ---------------------------------------------------------------- libm ------
static unsigned fun_var(const std::string& name, const expr& arg, bool& fresh) {
  unsigned h = Z3_get_ast_id(*C, arg);
  for (auto& f : *funs)
    if (f.name == name && Z3_get_ast_id(*C, f.arg) == h) { fresh = false; return f.var; }
  fresh = true;
  unsigned v = new_var(name);
  funs->push_back(Fun{name, arg, v});
  return v;
}
static bool fun_known(const std::string& name, const expr& arg, unsigned& v) {
  unsigned h = Z3_get_ast_id(*C, arg);
  for (auto& f : *funs)
    if (f.name == name && Z3_get_ast_id(*C, f.arg) == h) { v = f.var; return true; }
  return false;
}
// functional consistency (and monotonicity: +1 increasing, -1 decreasing, 0 neither)
static void pairwise(const std::string& name, const expr& arg, unsigned v, int mono) {
  expr y = (*vars)[v].e;
  for (auto& f : *funs) {
    if (f.name != name || f.var == v) continue;
    expr z = (*vars)[f.var].e;
    if (mono > 0) {
      side(v, implies(arg < f.arg, y < z));
      side(v, implies(arg > f.arg, y > z));
    }
    side(v, implies(arg == f.arg, y == z));
  }
}
static bool rational_root(const Q& q, Q& root) {
  using boost::multiprecision::cpp_int;
  if (q <= 0) return false;
  cpp_int n = boost::multiprecision::numerator(q), d = boost::multiprecision::denominator(q);
  cpp_int sn = boost::multiprecision::sqrt(n), sd = boost::multiprecision::sqrt(d);
  if (sn * sn != n || sd * sd != d) return false;
  root = Q(sn, sd);
  return true;
}
extern "C" {
double vf_rt_m_fabs(double a) {
  if (!sym(a)) return std::fabs(a);
  if (fpmode) return wrap(expr(*C, Z3_mk_fpa_abs(*C, node(a))));
  return dec(3, a, 0) ? a : vf_rt_fneg(a);
}
double vf_rt_m_sqrt(double a) { a = num(a);
  if (!sym(a)) return std::sqrt(a);
  if (fpmode) return wrap(expr(*C, Z3_mk_fpa_sqrt(*C, rne(), node(a))));
  Poly px = polyof(a);
  // perfect-square rational content
  Q lc = px.begin()->second;
  if (lc < 0) lc = -lc;
  if (Q r; rational_root(lc, r) && lc != 1)
    return wrapP(poly::scale(polyof(vf_rt_m_sqrt(wrapP(poly::scale(px, 1 / lc)))), r));
  expr x = poly_expr(px);
  bool fresh;
  unsigned v0;
  if (fun_known("sqrt", x, v0)) return wrapvar(v0);
  // the root of a product of things whose roots are known is the product of the roots
  for (size_t i = 0; i < roots->size(); i++)
    for (size_t j = i; j < roots->size(); j++) {
      Poly p = mulP(rules->reduce((*roots)[i].first), rules->reduce((*roots)[j].first));
      if (p.empty() || p.size() != px.size()) continue;
      Q k = px.begin()->second / p.begin()->second;
      Q r;
      if (!rational_root(k, r) || poly::add(px, p, -k).size()) continue;
      Poly q = i == j ? (*roots)[i].first : mulP(poly::var((*roots)[i].second), poly::var((*roots)[j].second));
      return wrapP(poly::scale(q, r));
    }
  // the norm of something the path knows to be a unit vector is 1
  if (solve({mk(cmp0(6, poly::add(px, poly::constant(1), -1)))}, false, false, false).r == UNSAT) return 1;
  if (dec0(4, px)) return native_nan();
  unsigned v = fun_var("sqrt", x, fresh);
  expr y = vexpr(v);
  side(v, y >= 0);
  Poly eq = px;
  eq = poly::scale(eq, -1);
  poly::addto(eq, {{v, 2}}, Q(1));
  side_poly(v, eq);
  roots->emplace_back(px, v);
  return wrapvar(v);
}
static double trig(double a, bool want_sin) {
  expr x = to_expr(a);
  bool f1, f2;
  unsigned c = fun_var("cos", x, f2), s = fun_var("sin", x, f1);
  if (f1) {
    expr se = vexpr(s), ce = vexpr(c);
    side(s, se >= -1 && se <= 1);
    side(c, se * se + ce * ce == 1);
    side(c, ce >= -1 && ce <= 1);
    Poly eq = poly::constant(-1);
    poly::addto(eq, {{s, 2}}, Q(1));
    poly::addto(eq, {{c, 2}}, Q(1));
    side_poly(s, eq);
  }
  return wrapvar(want_sin ? s : c);
}
double vf_rt_m_sin(double a) { a = num(a); if (!sym(a)) return std::sin(a); if (fpmode) return wrap((*vars)[new_var("sin")].e); return trig(a, true); }
double vf_rt_m_cos(double a) { a = num(a); if (!sym(a)) return std::cos(a); if (fpmode) return wrap((*vars)[new_var("cos")].e); return trig(a, false); }
double vf_rt_m_log(double a) { a = num(a);
  if (!sym(a)) return std::log(a);
  if (fpmode) { vf_rt_unsupported("log of a symbolic value in the FP encoding"); return wrap((*vars)[new_var("log")].e); }
  expr x = to_expr(a);
  if (dec(5, a, 0)) return dec(1, a, 0) ? -INFINITY : native_nan();
  bool fresh;
  unsigned v = fun_var("log", x, fresh);
  expr y = (*vars)[v].e;
  if (fresh) {
    side(v, implies(x < 1, y < 0));
    side(v, implies(x > 1, y > 0));
    side(v, implies(x == 1, y == 0));
    side(v, y <= x - 1);
    pairwise("log", x, v, 1);
  }
  return wrapvar(v);
}
double vf_rt_m_exp(double a) { a = num(a);
  if (!sym(a)) return std::exp(a);
  if (fpmode) { vf_rt_unsupported("exp of a symbolic value in the FP encoding"); return wrap((*vars)[new_var("exp")].e); }
  expr x = to_expr(a);
  bool fresh;
  unsigned v = fun_var("exp", x, fresh);
  expr y = (*vars)[v].e;
  if (fresh) {
    side(v, y > 0);
    side(v, y >= 1 + x);
    side(v, implies(x < 0, y < 1));
    side(v, implies(x == 0, y == 1));
    pairwise("exp", x, v, 1);
  }
  return wrapvar(v);
}
double vf_rt_m_erf(double a) { a = num(a);
  if (!sym(a)) return std::erf(a);
  expr x = to_expr(a);
  if (fpmode) { vf_rt_unsupported("erf of a symbolic value in the FP encoding"); return wrap((*vars)[new_var("erf")].e); }
  bool fresh;
  unsigned v = fun_var("erf", x, fresh);
  expr y = (*vars)[v].e;
  if (fresh) {
    side(v, y > -1 && y < 1);
    side(v, implies(x > 0, y > 0));
    side(v, implies(x < 0, y < 0));
    side(v, implies(x == 0, y == 0));
    pairwise("erf", x, v, 1);
  }
  return wrapvar(v);
}
static double generic1(const char* name, double a, double (*f)(double), int mono) {
  if (!sym(a)) return f(a);
  if (fpmode) { vf_rt_unsupported(name); return wrap((*vars)[new_var(name)].e); }
  bool fresh;
  unsigned v = fun_var(name, to_expr(a), fresh);
  if (fresh) pairwise(name, to_expr(a), v, mono);
  return wrapvar(v);
}
double vf_rt_m_log2(double a) { if (!sym(a)) return std::log2(a); return vf_rt_fdiv(vf_rt_m_log(a), std::log(2.)); }
double vf_rt_m_log10(double a) { if (!sym(a)) return std::log10(a); return vf_rt_fdiv(vf_rt_m_log(a), std::log(10.)); }
double vf_rt_m_log1p(double a) { if (!sym(a)) return std::log1p(a); return vf_rt_m_log(vf_rt_fadd(1, a)); }
double vf_rt_m_expm1(double a) { if (!sym(a)) return std::expm1(a); return vf_rt_fsub(vf_rt_m_exp(a), 1); }
double vf_rt_m_exp2(double a) { if (!sym(a)) return std::exp2(a); return vf_rt_m_exp(vf_rt_fmul(a, std::log(2.))); }
double vf_rt_m_erfc(double a) { if (!sym(a)) return std::erfc(a); return vf_rt_fsub(1, vf_rt_m_erf(a)); }
double vf_rt_m_tan(double a) { if (!sym(a)) return std::tan(a); return vf_rt_fdiv(vf_rt_m_sin(a), vf_rt_m_cos(a)); }
double vf_rt_m_asin(double a) { return generic1("asin", a, std::asin, 1); }
double vf_rt_m_acos(double a) { return generic1("acos", a, std::acos, 0); }
double vf_rt_m_atan(double a) { return generic1("atan", a, std::atan, 1); }
double vf_rt_m_sinh(double a) { return generic1("sinh", a, std::sinh, 1); }
double vf_rt_m_cosh(double a) { return generic1("cosh", a, std::cosh, 0); }
double vf_rt_m_tanh(double a) { return generic1("tanh", a, std::tanh, 1); }
double vf_rt_m_cbrt(double a) {
  if (!sym(a) || fpmode) return generic1("cbrt", a, std::cbrt, 1);
  bool fresh;
  unsigned v = fun_var("cbrt", to_expr(a), fresh);
  expr y = (*vars)[v].e;
  if (fresh) side(v, y * y * y == to_expr(a));
  return wrapvar(v);
}
static double integral(double a, double (*f)(double), int kind) {
  if (!sym(a)) return f(a);
  // kind: 0 floor 1 ceil 2 trunc 3 round/rint
  if (fpmode) {
    Z3_ast rm = kind == 0 ? Z3_mk_fpa_rtn(*C) : kind == 1 ? Z3_mk_fpa_rtp(*C) : kind == 2 ? Z3_mk_fpa_rtz(*C) : Z3_mk_fpa_rne(*C);
    return wrap(expr(*C, Z3_mk_fpa_round_to_integral(*C, rm, node(a))));
  }
  if (kind == 3) return integral(vf_rt_fadd(a, 0.5), std::floor, 0);
  double t = double(int64_t(to_int(a, 64, false))); // truncation, forks over values
  if (kind == 2) return t;
  if (kind == 0) return dec(4, a, t) ? t - 1 : t;
  return dec(2, a, t) ? t + 1 : t;
}
double vf_rt_m_floor(double a) { return integral(a, std::floor, 0); }
double vf_rt_m_ceil(double a) { return integral(a, std::ceil, 1); }
double vf_rt_m_trunc(double a) { return integral(a, std::trunc, 2); }
double vf_rt_m_round(double a) { return integral(a, std::round, 3); }
double vf_rt_m_rint(double a) { return integral(a, std::rint, 3); }
double vf_rt_m_nearbyint(double a) { return integral(a, std::nearbyint, 3); }
double vf_rt_m_pow(double a, double b) {
  if (!sym(a) && !sym(b)) return std::pow(a, b);
  if (!sym(b)) {
    if (b == 0) return 1;
    if (b == 1) return a;
    if (b == 0.5) return vf_rt_m_sqrt(a);
    if (b == std::trunc(b) && std::fabs(b) <= 8) {
      double r = a;
      for (int i = 1; i < int(std::fabs(b)); i++) r = vf_rt_fmul(r, a);
      return b > 0 ? r : vf_rt_fdiv(1, r);
    }
  }
  if (fpmode) { vf_rt_unsupported("pow"); return wrap((*vars)[new_var("pow")].e); }
  // a^b = exp(b log a) for a > 0
  if (sym(a) ? dec(5, a, 0) : a <= 0) { vf_rt_unsupported("pow of a non-positive base"); leave(sh->inconclusive); }
  return vf_rt_m_exp(vf_rt_fmul(b, vf_rt_m_log(a)));
}
double vf_rt_m_atan2(double a, double b) {
  if (!sym(a) && !sym(b)) return std::atan2(a, b);
  vf_rt_unsupported("atan2");
  return std::atan2(vf_rt_concretize(a), vf_rt_concretize(b));
}
double vf_rt_m_fmod(double a, double b) {
  if (!sym(a) && !sym(b)) return std::fmod(a, b);
  double q = vf_rt_m_trunc(vf_rt_fdiv(a, b));
  return vf_rt_fsub(a, vf_rt_fmul(q, b));
}
double vf_rt_m_remainder(double a, double b) {
  if (!sym(a) && !sym(b)) return std::remainder(a, b);
  vf_rt_unsupported("remainder");
  return std::remainder(vf_rt_concretize(a), vf_rt_concretize(b));
}
double vf_rt_m_nextafter(double a, double b) {
  if (!sym(a) && !sym(b)) return std::nextafter(a, b);
  vf_rt_unsupported("nextafter");
  return a;
}
double vf_rt_m_hypot(double a, double b) {
  if (!sym(a) && !sym(b)) return std::hypot(a, b);
  return vf_rt_m_sqrt(vf_rt_fadd(vf_rt_fmul(a, a), vf_rt_fmul(b, b)));
}
double vf_rt_m_hypot3(double a, double b, double c) {
  if (!sym(a) && !sym(b) && !sym(c)) return std::hypot(a, b, c);
  return vf_rt_m_sqrt(vf_rt_fadd(vf_rt_fadd(vf_rt_fmul(a, a), vf_rt_fmul(b, b)), vf_rt_fmul(c, c)));
}
double vf_rt_m_fmin(double a, double b) {
  if (!sym(a) && std::isnan(a)) return b;
  if (!sym(b) && std::isnan(b)) return a;
  return vf_rt_fcmp(4, b, a) ? b : a;
}
double vf_rt_m_fmax(double a, double b) {
  if (!sym(a) && std::isnan(a)) return b;
  if (!sym(b) && std::isnan(b)) return a;
  return vf_rt_fcmp(2, b, a) ? b : a;
}
double vf_rt_m_fdim(double a, double b) { return vf_rt_fcmp(2, a, b) ? vf_rt_fsub(a, b) : 0; }
double vf_rt_m_copysign(double a, double b) {
  if (!sym(a) && !sym(b)) return std::copysign(a, b);
  double m = vf_rt_m_fabs(a);
  return (vf_rt_signbits(b) >> 63) ? vf_rt_fneg(m) : m;
}

// ---------------------------------------------------------------- interface -
double vf_real(const char* name, double lo, double hi) {
  unsigned v = new_var(name, 1);
  expr e = (*vars)[v].e;
  (*vars)[v].lo = lo;
  (*vars)[v].hi = hi;
  if (fpmode) {
    side(v, expr(*C, Z3_mk_fpa_leq(*C, C->fpa_val(lo), e)) && expr(*C, Z3_mk_fpa_leq(*C, e, C->fpa_val(hi))));
  } else {
    side(v, e >= real_const(lo));
    side(v, e <= real_const(hi));
  }
  inputs->push_back(Input{'R', name, 0, v, 0});
  return wrapvar(v);
}
static int units = 0;
void vf_unit(const char* name, double* xyz) {
  std::string n = name;
  unsigned first = unsigned(vars->size());
  for (int i = 0; i < 3; i++) xyz[i] = vf_real((n + "xyz"[i]).c_str(), -1, 1);
  if (fpmode) { vf_rt_unsupported("unit vector in the FP encoding"); return; }
  for (unsigned i = 0; i < 3; i++) (*vars)[first + i].unit = units;
  units++;
  Poly eq = poly::constant(-1);
  for (unsigned i = 0; i < 3; i++) poly::addto(eq, {{first + i, 2}}, Q(1));
  expr e = poly_expr(eq) == 0;
  for (unsigned i = 0; i < 3; i++) side(first + i, e);
  learn(eq);
}
double vf_define(const char* name, double value) {
  if (!sym(value) || fpmode) return value;
  Poly p = polyof(value);
  if (poly::is_const(p) || (p.size() == 1 && p.begin()->first.size() == 1 && p.begin()->first[0].second == 1)) return value;
  unsigned v = new_var(name, 0);
  poly::Poly eq = poly::add(p, poly::var(v), -1);
  (*vars)[v].def.push_back(mk(poly_expr(eq) == 0));
  learn(eq);
  return wrapvar(v);
}
double vf_uniform(uint64_t state) {
  auto it = us->find(state);
  if (it != us->end()) return dbl(TAG | it->second);
  if (long(us->size()) >= max_draws) vf_bound("random draws on one path");
  unsigned v = new_var("U", 1);
  expr e = (*vars)[v].e;
  if (fpmode) {
    side(v, expr(*C, Z3_mk_fpa_leq(*C, C->fpa_val(0.), e)) && expr(*C, Z3_mk_fpa_lt(*C, e, C->fpa_val(1.))));
  } else {
    side(v, e >= 0);
    side(v, e < 1);
  }
  inputs->push_back(Input{'U', "U", state, v, 0});
  (*vars)[v].lo = 0;
  (*vars)[v].hi = 0.9999;
  double w = wrapvar(v);
  (*us)[state] = id(w);
  return w;
}
size_t vf_choose(const char* name, size_t n) { return raw_choose(name, n, true); }
static void assume_expr(const expr& e0) {
  expr e = e0.simplify();
  if (e.is_true()) return;
  Constraint c = mk(e);
  if (e.is_false() || solve({c}, false, false, false).r == UNSAT) leave(sh->infeasible);
  path->push_back(c);
}
void vf_assume(bool c) { if (!c) leave(sh->infeasible); }
static void assume_cmp(unsigned mask, double a, double b) {
  if (!sym(a) && !sym(b)) { vf_assume(native_cmp(mask, a, b)); return; }
  if (!fpmode && ((!sym(a) && !std::isfinite(a)) || (!sym(b) && !std::isfinite(b)))) { vf_assume(vf_rt_fcmp(int(mask), a, b)); return; }
  expr e = cmp_expr(mask, a, b);
  if (!fpmode && mask == 1) {
    Poly d = diff(a, b);
    assume_expr(e);
    learn(d);
    return;
  }
  assume_expr(e);
}
void vf_assume_le(double a, double b) { assume_cmp(5, a, b); }
void vf_assume_lt(double a, double b) { assume_cmp(4, a, b); }
void vf_assume_eq(double a, double b) { assume_cmp(1, a, b); }
void vf_assume_ne(double a, double b) { assume_cmp(6, a, b); }
void vf_check(bool c, const char* msg) {
  check_row(msg)->n++;
  if (c) { sh->proved++; return; }
  // the path reached a failing obligation: is the path really feasible?
  violation(msg, {}, {});
  leave(sh->paths);
}
static void obligation(const expr& good, const expr& bad_margin, const char* msg) {
  check_row(msg)->n++;
  expr bad = (!good).simplify();
  if (bad.is_false()) { sh->proved++; return; }
  check_budget();
  Constraint cb = mk(bad), cm = mk(bad_margin.simplify());
  Res r = solve({cb}, true, false, false).r;
  if (r == UNSAT) { sh->proved++; return; }
  // sat or unknown: look for a counterexample beyond the rounding margin
  Res m = solve({cm}, true, false, false).r;
  if (m == UNSAT) { sh->proved++; note_row((std::string("holds within tolerance: ") + msg).c_str())->n++; return; }
  if (m == SAT) {
    violation(msg, {cm}, {cm});
    return;
  }
  if (!fpmode) { // open: search for a counterexample with pinned inputs
    long before = sh->inconclusive, bad = check_row(msg)->bad;
    violation(msg, {cm}, {cm});
    if (check_row(msg)->bad > bad || last_model == UNSAT) return;
    sh->inconclusive = before;
  }
  // undecided: pin random-ish inputs and try to find a counterexample, but
  // never report an undecided obligation as proved
  sh->inconclusive++;
  note_row((std::string("solver gave up: ") + msg).c_str())->n++;
}
void vf_check_eq(double a, double b, const char* msg, double tol) {
  if (!sym(a) && !sym(b)) {
    vf_check(a == b || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)) , msg);
    return;
  }
  if (!fpmode && ((!sym(a) && !std::isfinite(a)) || (!sym(b) && !std::isfinite(b)))) { vf_check(false, msg); return; }
  if (fpmode) {
    expr good(*C, Z3_mk_fpa_eq(*C, to_expr(a), to_expr(b)));
    obligation(good, !good, msg);
    return;
  }
  expr x = to_expr(a), y = to_expr(b), m = real_const(10 * tol);
  expr scale = m * (1 + ite(x >= 0, x, -x) + ite(y >= 0, y, -y));
  if (verbose) {
    Poly d = diff(a, b);
    if (d.size()) std::fprintf(stderr, "[%d] difference (%zu terms) %s: %s\n", getpid(), d.size(), msg, d.size() < 40 ? poly_expr(d).to_string().c_str() : "");
  }
  obligation(cmp0(1, diff(a, b)), x - y > scale || y - x > scale, msg);
}
void vf_check_le(double a, double b, const char* msg, double tol) {
  if (!sym(a) && !sym(b)) {
    vf_check(a <= b || a <= b + tol * (1 + std::fabs(a) + std::fabs(b)), msg);
    return;
  }
  if (!fpmode && ((!sym(a) && !std::isfinite(a)) || (!sym(b) && !std::isfinite(b)))) { vf_check(vf_rt_fcmp(5, a, b), msg); return; }
  if (fpmode) {
    expr good(*C, Z3_mk_fpa_leq(*C, to_expr(a), to_expr(b)));
    obligation(good, !good, msg);
    return;
  }
  expr x = to_expr(a), y = to_expr(b), m = real_const(10 * tol);
  expr scale = m * (1 + ite(x >= 0, x, -x) + ite(y >= 0, y, -y));
  obligation(cmp0(5, diff(a, b)), x - y > scale, msg);
}
void vf_reach(const char* label) { path_labels->push_back(label); }
void vf_observe(const char* name, double v) { observed->emplace_back(name, v); }
void vf_stop() { leave(sh->stopped); }
void vf_bound(const char* what) { note_row((std::string("bound: ") + what).c_str())->n++; leave(sh->bounded); }
int vf_symbolic() { return 1; }
void vf_expect_no_abort(int on) { expect_no_abort = on; }
int vf_tier() { return tier; }
long vf_param(const char* name, long def) {
  auto it = params.find(name);
  return it == params.end() ? def : it->second;
}
const char* vf_scratch() { return scratchdir.c_str(); }
} // extern "C"

// a symbolic double printed to a stream keeps enough digits to be recovered
std::ostream& vf_stream_insert(std::ostream* o, double v) asm("_ZNSo9_M_insertIdEERSoT_");
std::ostream& vf_stream_insert(std::ostream* o, double v) {
  char b[400];
  const auto fl = o->flags() & std::ios_base::floatfield;
  if (sym(v)) std::snprintf(b, sizeof b, "%.17g", v);
  else std::snprintf(b, sizeof b, fl == std::ios_base::scientific ? "%.*e" : fl == std::ios_base::fixed ? "%.*f" : "%.*g", int(o->precision()), v);
  return *o << static_cast<const char*>(b);
}
static size_t raw_choose(const char* name, size_t n, bool input) {
  size_t v = 0;
  for (; v + 1 < n; v++) {
    check_budget();
    sh->decisions++;
    if (split()) break;
  }
  if (input) inputs->push_back(Input{'C', name, 0, 0, v});
  return v;
}

static void on_signal(int s) {
  static volatile int depth = 0;
  if (depth++) _exit(0);
  const char* n = s == SIGABRT ? "abort" : s == SIGSEGV ? "segv" : s == SIGFPE ? "fpe" : s == SIGALRM ? "hang" : "signal";
  if (in_rt && s == SIGSEGV) {
    note_row("crash inside the solver")->n++;
    leave(sh->inconclusive);
  }
  if (!expect_no_abort) leave(sh->aborts_expected);
  check_row(n)->n++;
  violation(n, {}, {});
  leave(sh->paths);
}

static std::string jstr(const char* s) {
  std::string r = "\"";
  for (; *s; s++) { if (*s == '"' || *s == '\\') r += '\\'; r += (*s == '\n') ? ' ' : *s; }
  return r + "\"";
}

static volatile sig_atomic_t stop_requested = 0;
int main(int argc, char** argv) {
  t0 = Clock::now();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--out") outdir = next();
    else if (a == "--scratch") scratchdir = next();
    else if (a == "--budget") budget = std::atof(next().c_str());
    else if (a == "--jobs") jobs = std::atoi(next().c_str());
    else if (a == "--fp") fpmode = true;
    else if (a == "--thorough") tier = 1;
    else if (a == "--samples") sample_cap = std::atoi(next().c_str());
    else if (a == "--draws") max_draws = std::atol(next().c_str());
    else if (a == "--enum") max_enum = std::atoi(next().c_str());
    else if (a == "--rlimit") { rlimit_branch = unsigned(std::atol(next().c_str())); rlimit_check = rlimit_branch * 15; }
    else if (a == "--tmb") tmo_branch = unsigned(std::atoi(next().c_str()));
    else if (a == "--tmc") tmo_check = unsigned(std::atoi(next().c_str()));
    else if (a == "--verbose") verbose = true;
    else if (a == "--round") roundmode = std::atoi(next().c_str());
    else if (a == "--param") {
      std::string p = next();
      auto e = p.find('=');
      params[p.substr(0, e)] = std::atol(p.c_str() + e + 1);
    }
  }
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::memset((void*)sh, 0, sizeof(Shared));
  sh->tokens = jobs - 1;
  C = new z3::context;
  nodes = new std::vector<expr>;
  polys = new std::vector<Poly>;
  poly::kind = new std::vector<unsigned char>;
  rules = new poly::Rules;
  node_of_ast = new std::unordered_map<unsigned, unsigned>;
  path = new std::vector<Constraint>;
  vars = new std::vector<Var>;
  var_of_ast = new std::unordered_map<unsigned, unsigned>;
  inputs = new std::vector<Input>;
  us = new std::map<uint64_t, unsigned>;
  observed = new std::vector<std::pair<std::string, double>>;
  kids = new std::vector<pid_t>;
  varmemo = new std::unordered_map<unsigned, std::vector<unsigned>>;
  qcache = new std::map<std::vector<unsigned>, Res>;
  funs = new std::vector<Fun>;
  roots = new std::vector<std::pair<Poly, unsigned>>;
  path_labels = new std::vector<std::string>;
  std::signal(SIGTERM, [](int) { stop_requested = 1; });
  pid_t root = fork();
  if (root == 0) {
    std::signal(SIGTERM, SIG_DFL);
    setpgid(0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    static char alt[1 << 18];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    (void)ss;
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_NODEFER;
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    vf_main();
    end_path();
  }
  int st = 0;
  // hard stop well after the budget
  while (true) {
    pid_t r = waitpid(root, &st, WNOHANG);
    if (r == root) break;
    if (elapsed() > budget + 45 || stop_requested) {
      sh->stop = 1;
      sh->truncated++;
      kill(-root, SIGKILL);
      kill(root, SIGKILL);
      break;
    }
    usleep(3000);
  }
  kill(-root, SIGKILL);
  FILE* f = std::fopen((outdir + "/stats.json").c_str(), "w");
  if (!f) return 2;
  std::fprintf(f, "{\"paths\":%ld,\"infeasible\":%ld,\"bounded\":%ld,\"stopped\":%ld,\"forks\":%ld,\"decisions\":%ld,"
                  "\"queries\":%ld,\"unknown\":%ld,\"solver_s\":%.3f,\"ext_queries\":%ld,\"ext_s\":%.3f,\"truncated\":%ld,"
                  "\"inconclusive\":%ld,\"unsupported\":%ld,\"concretized\":%ld,\"violations\":%ld,\"proved\":%ld,"
                  "\"schedpoints\":%ld,\"aborts_expected\":%ld,\"root_status\":%d,\"wall_s\":%.3f,\n",
               sh->paths.load(), sh->infeasible.load(), sh->bounded.load(), sh->stopped.load(), sh->forks.load(),
               sh->decisions.load(), sh->queries.load(), sh->unknown.load(), sh->solver_us.load() / 1e6,
               sh->ext_queries.load(), sh->ext_us.load() / 1e6, sh->truncated.load(), sh->inconclusive.load(),
               sh->unsupported.load(), sh->concretized.load(), sh->violations.load(), sh->proved.load(),
               sh->schedpoints.load(), sh->aborts_expected.load(), st, elapsed());
  auto dump = [&](const char* nm, Row* t, int n) {
    std::fprintf(f, "\"%s\":{", nm);
    for (int i = 0; i < n; i++)
      std::fprintf(f, "%s%s:[%ld,%ld]", i ? "," : "", jstr(t[i].name).c_str(), t[i].n.load(), t[i].bad.load());
    std::fprintf(f, "}");
  };
  dump("reach", sh->reach, sh->nreach);
  std::fprintf(f, ",\n");
  dump("checks", sh->checks, sh->nchecks);
  std::fprintf(f, ",\n");
  dump("notes", sh->notes, sh->nnotes);
  std::fprintf(f, "}\n");
  std::fclose(f);
  return 0;
}
