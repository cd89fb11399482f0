// Cooperative threads: std::thread / std::async / mutexes in the instrumented
// code run as coroutines of one process.  At every atomic operation, mutex
// operation, thread start and thread end the next thread is chosen by vf_choose
// (inside vf_sched_begin/end), so that schedules are explored like any other
// branch and replayed from the recorded choices.  Plain memory accesses
// (VF_MEM builds) are checked for data races with vector clocks.
#include "vf.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <ucontext.h>

namespace {
const int MAXT = 8;
// std::thread::_State
struct State {
  virtual ~State() {}
  virtual void _M_run() = 0;
};
struct VC { uint32_t c[MAXT]; };
struct Th {
  ucontext_t ctx;
  State* state = nullptr;
  bool done = false, joined = false;
  int wait_join = -1;
  const void* wait_mutex = nullptr;
  const unsigned* wait_futex = nullptr;
  unsigned futex_val = 0;
  const void* wait_cond = nullptr;
  VC vc{};
  int quiet = 0;
};
Th* th;       // [MAXT]
int nth = 1, cur = 0, live = 1;
bool exploring = false, inside = false;
std::map<const void*, VC>* locks;
std::map<const void*, int>* owner; // mutex -> thread
long preemptions = 0;
struct Guard { Guard() { inside = true; } ~Guard() { inside = false; } };

void init() {
  if (th) return;
  __libc_single_threaded = 0;
  th = new Th[MAXT];
  locks = new std::map<const void*, VC>;
  owner = new std::map<const void*, int>;
  th[0].vc.c[0] = 1;
}
void join_vc(VC& a, const VC& b) {
  for (int i = 0; i < MAXT; i++)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
bool runnable(int t) {
  Th& x = th[t];
  if (x.done) return false;
  if (x.wait_join >= 0) return th[x.wait_join].done;
  if (x.wait_mutex) return !owner->count(x.wait_mutex);
  if (x.wait_futex) return *x.wait_futex != x.futex_val;
  if (x.wait_cond) return false;
  return true;
}
void go(int t) {
  if (t == cur) return;
  int from = cur;
  cur = t;
  swapcontext(&th[from].ctx, &th[t].ctx);
}
// picks the next thread; may == the current one keeps running when possible
void reschedule(bool optional) {
  int cand[MAXT], n = 0;
  if (runnable(cur)) cand[n++] = cur;
  const bool self = n;
  for (int t = 0; t < nth; t++)
    if (t != cur && runnable(t)) cand[n++] = t;
  if (!n) {
    vf_check(false, "deadlock: every thread waits for another");
    vf_stop();
  }
  int k = 0;
  if (exploring && n > 1 && !(optional && self && preemptions <= 0)) k = (int)vf_choose("schedule", (size_t)n);
  if (self && k) preemptions--;
  go(cand[k]);
}
// shadow memory: per byte the clock of each thread's last read and write
const int MT = MAXT; // threads tracked for races
struct Small { uintptr_t g; uint32_t w[MT][8], r[MT][8]; };
Small* table;
size_t cap = 0, used = 0;
Small* find(uintptr_t g, bool add) {
  if (!table || used * 2 > cap) {
    if (!add && !table) return nullptr;
    size_t nc = cap ? cap * 2 : 1 << 14;
    auto* nt = (Small*)mmap(nullptr, nc * sizeof(Small), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t i = 0; i < cap; i++)
      if (table[i].g) {
        size_t h = (table[i].g * 0x9E3779B97F4A7C15ull >> 20) & (nc - 1);
        while (nt[h].g) h = (h + 1) & (nc - 1);
        nt[h] = table[i];
      }
    if (table) munmap(table, cap * sizeof(Small));
    table = nt;
    cap = nc;
  }
  size_t h = (g * 0x9E3779B97F4A7C15ull >> 20) & (cap - 1);
  while (table[h].g && table[h].g != g) h = (h + 1) & (cap - 1);
  if (table[h].g) return &table[h];
  if (!add) return nullptr;
  table[h].g = g;
  used++;
  return &table[h];
}
void forget(void* p, size_t n) {
  if (!table) return;
  uintptr_t a = (uintptr_t)p;
  for (uintptr_t g = a & ~7ull; g < a + n; g += 8) {
    Small* s = find(g | 1, false);
    if (!s) continue;
    for (int t = 0; t < MT; t++)
      for (int b = 0; b < 8; b++)
        if (g + b >= a && g + b < a + n) s->w[t][b] = s->r[t][b] = 0;
  }
}
void entry() {
  Th& me = th[cur];
  inside = false;
  me.state->_M_run();
  delete me.state;
  me.state = nullptr;
  me.done = true;
  live--;
  inside = true;
  reschedule(false);
  std::abort();
}
void boundary(bool optional) {
  if (!th || nth < 2) return;
  Guard g;
  reschedule(optional);
}
} // namespace

// every allocation starts with a clean history
void* operator new(size_t n) {
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  forget(p, n);
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }

extern "C" {
void vf_sched_begin() {
  init();
  exploring = true;
  preemptions = vf_param("preemptions", 1000);
}
void vf_sched_end() { exploring = false; }
void vf_rt_atomic(void* p, uint64_t amount, int kind) {
  if (!th || nth < 2 || inside) return;
  if (kind & 32) { // reference count: dropping releases, dropping the last acquires
    Guard g;
    if (int64_t(amount) >= 0) return;
    VC& l = (*locks)[p];
    join_vc(l, th[cur].vc);
    th[cur].vc.c[cur]++;
    if (*(int*)p <= 1) join_vc(th[cur].vc, l);
    return;
  }
  if (live > 1 && !(kind & 16) && !th[cur].quiet) boundary(true);
  Guard g;
  VC& l = (*locks)[p];
  if (kind & 4) join_vc(th[cur].vc, l);
  if (kind & 8) {
    if (kind & 1) join_vc(l, th[cur].vc);
    else l = th[cur].vc;
    th[cur].vc.c[cur]++;
  }
}
void vf_rt_quiet(int d) {
  init();
  th[cur].quiet += d;
}
void vf_rt_mem(void* p, uint64_t n, int write) {
  if (!th || live < 2 || inside || cur >= MT) return;
  Guard gd;
  uintptr_t a = (uintptr_t)p;
  const VC& me = th[cur].vc;
  for (uintptr_t g = a & ~7ull; g < a + n; g += 8) {
    Small* s = find(g | 1, true);
    for (int b = 0; b < 8; b++) {
      if (g + b < a || g + b >= a + n) continue;
      for (int t = 0; t < MT; t++) {
        if (t == cur) continue;
        if (s->w[t][b] > me.c[t] || (write && s->r[t][b] > me.c[t])) {
          if (std::getenv("VF_RACE")) {
            std::fprintf(stderr, "race pc %p addr %p size %lu %s thread %d vs %d\n", __builtin_return_address(0), p, (unsigned long)n, write ? "write" : "read", cur, t);
            std::abort();
          }
          vf_check(false, "data race: two threads access the same memory without synchronisation, one of them writing");
          vf_stop();
        }
      }
      (write ? s->w : s->r)[cur][b] = me.c[cur];
    }
  }
}
void vf_thread_start(std::thread* self, State** state, void (*)()) {
  init();
  if (nth == MAXT) vf_bound("threads");
  {
    Guard g;
    int t = nth++;
    live++;
    Th& x = th[t];
    x.state = *state;
    *state = nullptr;
    x.vc = th[cur].vc;
    x.vc.c[t] = 1;
    th[cur].vc.c[cur]++;
    const size_t size = 64u << 20;
    getcontext(&x.ctx);
    x.ctx.uc_stack.ss_sp = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    x.ctx.uc_stack.ss_size = size;
    x.ctx.uc_link = nullptr;
    makecontext(&x.ctx, entry, 0);
    unsigned long id = (unsigned long)t; // std::thread::id
    std::memcpy((void*)self, &id, sizeof id);
  }
  boundary(true);
}
void vf_thread_join(std::thread* self) {
  unsigned long id;
  std::memcpy(&id, (void*)self, sizeof id);
  int t = (int)id;
  Guard g;
  if (!th[t].done) {
    th[cur].wait_join = t;
    reschedule(false);
    th[cur].wait_join = -1;
  }
  th[t].joined = true;
  join_vc(th[cur].vc, th[t].vc);
  id = 0;
  std::memcpy((void*)self, &id, sizeof id);
}
void vf_thread_detach(std::thread* self) {
  unsigned long id = 0;
  std::memcpy((void*)self, &id, sizeof id);
}
int vf_mutex_lock(void* m) {
  init();
  boundary(true);
  Guard g;
  if (owner->count(m)) {
    th[cur].wait_mutex = m;
    reschedule(false);
    th[cur].wait_mutex = nullptr;
  }
  (*owner)[m] = cur;
  join_vc(th[cur].vc, (*locks)[m]);
  return 0;
}
int vf_mutex_trylock(void* m) {
  init();
  boundary(true);
  Guard g;
  if (owner->count(m)) return 16;
  (*owner)[m] = cur;
  join_vc(th[cur].vc, (*locks)[m]);
  return 0;
}
int vf_mutex_unlock(void* m) {
  init();
  {
    Guard g;
    owner->erase(m);
    (*locks)[m] = th[cur].vc;
    th[cur].vc.c[cur]++;
  }
  return 0;
}
int vf_yield() {
  boundary(true);
  return 0;
}
bool vf_futex_wait(void*, unsigned* addr, unsigned val, bool, long, long) {
  init();
  Guard g;
  if (*addr == val) {
    th[cur].wait_futex = addr;
    th[cur].futex_val = val;
    reschedule(false);
    th[cur].wait_futex = nullptr;
  }
  return true;
}
void vf_futex_notify(unsigned*) {}
void vf_cond_wait(void* c, std::unique_lock<std::mutex>* l) {
  init();
  Guard g;
  void* m = l->mutex()->native_handle();
  owner->erase(m);
  (*locks)[m] = th[cur].vc;
  th[cur].vc.c[cur]++;
  th[cur].wait_cond = c;
  reschedule(false);
  if (owner->count(m)) {
    th[cur].wait_mutex = m;
    reschedule(false);
    th[cur].wait_mutex = nullptr;
  }
  (*owner)[m] = cur;
  join_vc(th[cur].vc, (*locks)[m]);
}
void vf_cond_notify(void* c) {
  init();
  for (int t = 0; t < nth; t++)
    if (th[t].wait_cond == c) th[t].wait_cond = nullptr;
}
}
