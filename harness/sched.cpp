// Never instrumented. Interposes the pthread primitives and provides the __tsan_* entry points.
#include <sched.hpp>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <errno.h>

namespace sched {
enum { MAXT = 40 };
enum Op { RUN, LOCK, UNLOCK, WAIT_BEGIN, BLOCKED, REACQ, SIGNAL, BCAST, CREATE, JOIN, START, YIELD, EXITED };
static const char* opname[] = {"run","lock","unlock","wait","blocked","reacquire","signal","broadcast","create","join","start","yield","exited"};

struct Thr { int op = RUN; void* obj = nullptr; void* mtx = nullptr; int target = -1; bool alive = false; bool timed = false, timedout=false; pthread_t h; sem_t sem; uint32_t vc[MAXT]; void* (*fn)(void*); void* arg; };
struct Mtx { int owner = -1; uint32_t vc[MAXT]; bool recursive=false; int depth=0; Mtx() { memset(vc, 0, sizeof vc); } };
struct Choice { int pick, n; };

static Thr T[MAXT];
static int nthreads = 0;
static __thread int me = -1;
static bool active = false;
static Config cfg;
static Stats st;
static std::vector<Choice> trail;
static size_t depth;
static int cur, npre, nspu;
static std::string sched_str;
static Fault fault_cb;
static const char* lo; static const char* hi;
static std::map<void*, Mtx>* mtx;
static std::map<void*, int>* conds; // known condition objects (waiters counted)

#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
template <class F> static F real_fn(F& c, const char* n) { if (!c) c = (F)dlsym(RTLD_NEXT, n); return c; }

static void fault(const char* kind, const std::string& d) { active = false; fault_cb(kind, d, sched_str); _Exit(98); }
static bool watched(const void* p) { return p >= lo && p < hi; }

static bool enabled(int t) {
  Thr& x = T[t];
  if (!x.alive) return false;
  switch (x.op) {
    case LOCK: case REACQ: { Mtx& m = (*mtx)[x.op == LOCK ? x.obj : x.mtx]; return m.owner == -1; }
    case BLOCKED: return false;
    case JOIN: return T[x.target].op == EXITED;
    case EXITED: return false;
    default: return true;
  }
}
static int decide(int n) { // n >= 1 options
  if (n == 1) return 0;
  if (depth < trail.size()) { int p = trail[depth].pick; trail[depth].n = n; depth++; return p; }
  trail.push_back({0, n}); depth++; st.nodes++;
  return 0;
}
static std::string dump() {
  std::ostringstream o;
  for (int i = 0; i < nthreads; i++) o << " t" << i << "=" << opname[T[i].op] << (T[i].op==JOIN? "(t"+std::to_string(T[i].target)+")":"");
  return o.str();
}
// choose who runs next. me has set its pending op (or EXITED). choice=false: stay if possible.
static void switch_to(int t) {
  int self = me;
  cur = t;
  if (t == self) return;
  sem_post(&T[t].sem);
  if (self >= 0 && T[self].op != EXITED) { while (sem_wait(&T[self].sem) != 0) {} }
}
static void pick(bool choice) {
  st.steps++;
  int opt[MAXT * 2]; int n = 0; bool spu[MAXT * 2];
  bool self_en = enabled(me);
  if (self_en) { opt[n] = me; spu[n++] = false; }
  if (!self_en || (choice && npre < cfg.preemptions))
    for (int t = 0; t < nthreads; t++) if (t != me && enabled(t)) { opt[n] = t; spu[n++] = false; }
  // time outs of timed waits always possible; spurious wake-ups within their budget
  for (int t = 0; t < nthreads; t++)
    if (T[t].alive && T[t].op == BLOCKED && (T[t].timed || (watched(T[t].obj) && nspu < cfg.spurious)))
      if (!self_en || (choice && npre < cfg.preemptions)) if ((*mtx)[T[t].mtx].owner == -1) { opt[n] = t; spu[n++] = true; }
  // the spurious wake-ups alone do not count as progress
  bool any = false; for (int i = 0; i < n; i++) if (!spu[i] || T[opt[i]].timed) any = true;
  if (!any) {
    bool main_done = T[0].op == EXITED;
    if (main_done) return;
    fault("deadlock", "no thread can proceed:" + dump());
  }
  int k = decide(n); int t = opt[k];
  if (n > 1) { char b[16]; snprintf(b, sizeof b, "%s%d%s", sched_str.empty() ? "" : ".", t, spu[k] ? "s" : ""); sched_str += b; }
  if (self_en && t != me) npre++;
  if (spu[k]) { if (!T[t].timed) nspu++; else T[t].timedout = true; T[t].op = REACQ; }
  if (depth > (size_t)st.max_depth) st.max_depth = depth;
  if (st.steps % 1000000 == 0 && depth > 100000) fault("livelock", "unbounded schedule");
  switch_to(t);
}
static void join_vc(uint32_t* a, const uint32_t* b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }

static void m_lock(pthread_mutex_t* m) {
  Mtx& x = (*mtx)[m];
  if (x.owner == me) { if (x.recursive) { x.depth++; return; } if (watched(m)) fault("lock misuse", "a thread locks a mutex it already holds"); }
  T[me].op = LOCK; T[me].obj = m;
  pick(watched(m));
  Mtx& y = (*mtx)[m];
  y.owner = me; join_vc(T[me].vc, y.vc);
  T[me].op = RUN;
}
static void m_unlock(pthread_mutex_t* m, bool choice = true) {
  Mtx& x = (*mtx)[m];
  if (x.owner != me) { if (watched(m)) fault("lock misuse", "a thread unlocks a mutex it does not hold"); return; }
  if (x.depth) { x.depth--; return; }
  T[me].op = UNLOCK; T[me].obj = m;
  if (choice) pick(watched(m));
  Mtx& y = (*mtx)[m];
  memcpy(y.vc, T[me].vc, sizeof y.vc); T[me].vc[me]++;
  y.owner = -1; T[me].op = RUN;
}
static int m_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  if ((*mtx)[m].owner != me) { if (watched(c)) fault("lock misuse", "condition wait without holding the mutex"); }
  T[me].op = WAIT_BEGIN; T[me].obj = c; T[me].mtx = m;
  pick(watched(c));
  { Mtx& y = (*mtx)[m]; memcpy(y.vc, T[me].vc, sizeof y.vc); T[me].vc[me]++; y.owner = -1; }
  T[me].op = BLOCKED; T[me].timed = timed; T[me].timedout = false;
  (*conds)[c]++;
  pick(watched(c));
  (*conds)[c]--;
  // resumed with op==REACQ and the mutex free
  Mtx& z = (*mtx)[m]; z.owner = me; join_vc(T[me].vc, z.vc);
  T[me].op = RUN;
  return T[me].timedout ? ETIMEDOUT : 0;
}
static void m_wake(pthread_cond_t* c, bool all) {
  T[me].op = all ? BCAST : SIGNAL; T[me].obj = c;
  pick(watched(c));
  int w[MAXT], n = 0;
  for (int t = 0; t < nthreads; t++) if (T[t].alive && T[t].op == BLOCKED && T[t].obj == c) w[n++] = t;
  if (all) for (int i = 0; i < n; i++) T[w[i]].op = REACQ;
  else if (n) T[w[decide(n)]].op = REACQ;
  T[me].op = RUN;
}
static void* tramp(void* a) {
  int id = (int)(intptr_t)a;
  me = id;
  while (sem_wait(&T[id].sem) != 0) {}
  T[id].op = RUN;
  void* r = T[id].fn(T[id].arg);
  T[id].op = EXITED; T[id].alive = false;
  me = id;
  pick(true);
  me = -1;
  return r;
}

// ------------------------------------------------------------ race detector
struct Shadow { uint32_t gen; uint32_t w; int wt; uint32_t r[MAXT]; };
static Shadow* shadow; static size_t nshadow; static uint32_t gen = 0;
void watch(const void* p, size_t n) {
  lo = (const char*)p; hi = lo + n;
  if (n > nshadow) { free(shadow); shadow = (Shadow*)calloc(n, sizeof(Shadow)); nshadow = n; }
  gen++;
}
static inline void access(const char* p, size_t n, bool wr) {
  if (!active || me < 0) return;
  if (p + n <= lo || p >= hi) return;
  st.accesses++;
  for (size_t i = 0; i < n; i++) {
    const char* q = p + i; if (q < lo || q >= hi) continue;
    Shadow& s = shadow[q - lo];
    if (s.gen != gen) { memset(&s, 0, sizeof s); s.gen = gen; s.wt = -1; }
    uint32_t* vc = T[me].vc;
    if (s.wt >= 0 && s.wt != me && s.w > vc[s.wt]) { fault("data race", std::string(wr ? "write" : "read") + " unordered with a write of another thread at object offset " + std::to_string(q - lo)); }
    if (wr) {
      for (int t = 0; t < nthreads; t++) if (t != me && s.r[t] > vc[t]) fault("data race", "write unordered with a read of another thread at object offset " + std::to_string(q - lo));
      s.w = vc[me]; s.wt = me;
    } else s.r[me] = vc[me];
  }
}

static bool next_trail() {
  while (!trail.empty()) {
    if (++trail.back().pick < trail.back().n) return true;
    trail.pop_back();
  }
  return false;
}
std::string schedule() { return sched_str; }
int threads_alive() { int n = 0; for (int i = 1; i < nthreads; i++) n += T[i].alive; return n; }

Stats explore(const Config& c, Body body, void* arg, Fault f) {
  cfg = c; st = Stats(); fault_cb = f; trail.clear();
  static std::map<void*, Mtx> mm; static std::map<void*, int> cc; mtx = &mm; conds = &cc;
  do {
    mm.clear(); cc.clear(); nthreads = 1; depth = 0; npre = nspu = 0; sched_str.clear(); lo = hi = nullptr;
    for (auto& t : T) { memset(t.vc, 0, sizeof t.vc); t.alive = false; }
    T[0].op = RUN; T[0].alive = true; T[0].vc[0] = 1; sem_init(&T[0].sem, 0, 0);
    me = 0; cur = 0; active = true;
    body(arg);
    active = false; me = -1;
    st.runs++; if (npre) st.preempted_runs++; if (nspu) st.spurious_runs++;
    if (c.max_runs && st.runs >= c.max_runs) { st.capped = true; break; }
  } while (next_trail());
  return st;
}
}
using namespace sched;
#define ON (sched::active && sched::me >= 0)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { static int (*r)(pthread_mutex_t*); if (!ON) return real_fn(r, "pthread_mutex_lock")(m); m_lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static int (*r)(pthread_mutex_t*); if (!ON) return real_fn(r, "pthread_mutex_trylock")(m);
  T[me].op = YIELD; pick(watched(m)); T[me].op = RUN;
  Mtx& x = (*mtx)[m]; if (x.owner != -1) return EBUSY; x.owner = me; join_vc(T[me].vc, x.vc); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { static int (*r)(pthread_mutex_t*); if (!ON) return real_fn(r, "pthread_mutex_unlock")(m); m_unlock(m); return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  static int (*r)(pthread_mutex_t*, const pthread_mutexattr_t*);
  if (ON) { mtx->erase(m); if (a) { int ty = 0; pthread_mutexattr_gettype(a, &ty); if (ty == PTHREAD_MUTEX_RECURSIVE) (*mtx)[m].recursive = true; } }
  return real_fn(r, "pthread_mutex_init")(m, a); }
int pthread_mutex_destroy(pthread_mutex_t* m) {
  static int (*r)(pthread_mutex_t*);
  if (ON) { auto it = mtx->find(m); if (it != mtx->end()) { if (it->second.owner != -1 && watched(m)) fault("lock misuse", "a locked mutex is destroyed"); mtx->erase(it); } }
  return real_fn(r, "pthread_mutex_destroy")(m); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { static int (*r)(pthread_cond_t*, pthread_mutex_t*); if (!ON) return real_fn(r, "pthread_cond_wait")(c, m); return m_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { static int (*r)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*); if (!ON) return real_fn(r, "pthread_cond_timedwait")(c, m, ts); return m_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { static int (*r)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); if (!ON) return real_fn(r, "pthread_cond_clockwait")(c, m, k, ts); return m_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) { static int (*r)(pthread_cond_t*); if (!ON) return real_fn(r, "pthread_cond_signal")(c); m_wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { static int (*r)(pthread_cond_t*); if (!ON) return real_fn(r, "pthread_cond_broadcast")(c); m_wake(c, true); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
  static int (*r)(pthread_cond_t*);
  if (ON) { auto it = conds->find(c); if (it != conds->end() && it->second > 0 && watched(c)) fault("lock misuse", "a condition with waiters is destroyed"); return 0; }
  return real_fn(r, "pthread_cond_destroy")(c); }
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  static int (*r)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); real_fn(r, "pthread_create");
  if (!ON) return r(h, a, fn, arg);
  T[me].op = CREATE; pick(true); T[me].op = RUN;
  if (nthreads >= MAXT) fault("resource", "too many threads");
  int id = nthreads++; Thr& t = T[id]; t.op = START; t.alive = true; t.fn = fn; t.arg = arg; sem_init(&t.sem, 0, 0);
  memcpy(t.vc, T[me].vc, sizeof t.vc); t.vc[id]++; T[me].vc[me]++;
  int rc = r(&t.h, a, tramp, (void*)(intptr_t)id); *h = t.h; return rc; }
int pthread_join(pthread_t h, void** ret) {
  static int (*r)(pthread_t, void**); real_fn(r, "pthread_join");
  if (!ON) return r(h, ret);
  for (int i = 1; i < nthreads; i++) if (pthread_equal(T[i].h, h) && T[i].target != -2) {
    T[me].op = JOIN; T[me].target = i; pick(true); T[me].op = RUN; join_vc(T[me].vc, T[i].vc); T[i].target = -2; T[me].target = -1; }
  return r(h, ret); }
int sched_yield(void) { if (ON) { T[me].op = YIELD; pick(true); T[me].op = RUN; } return 0; }

// ---- compiler inserted calls of -fsanitize=thread
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n) void __tsan_read##n(void* p) { access((const char*)p, n, false); } void __tsan_write##n(void* p) { access((const char*)p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access((const char*)p, n, false); } void __tsan_unaligned_write##n(void* p) { access((const char*)p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access((const char*)p, n, false); } void __tsan_volatile_write##n(void* p) { access((const char*)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((const char*)p, n, false); }
void __tsan_write_range(void* p, size_t n) { access((const char*)p, n, true); }
}
// atomics: executed natively; within the watched range they are scheduling points and act as acquire+release
static std::map<const void*, std::vector<uint32_t>>* avc_;
static void at(const volatile void* p) {
  if (!ON || !watched((const void*)p)) return;
  T[me].op = YIELD; pick(true); T[me].op = RUN;
  static std::map<const void*, Mtx> m; Mtx& x = (*mtx)[(void*)((const char*)p)];
  join_vc(T[me].vc, x.vc); join_vc(x.vc, T[me].vc); T[me].vc[me]++;
}
#define ATOM(B, TY) extern "C" { \
 TY __tsan_atomic##B##_load(const volatile TY* p, int) { at(p); return __atomic_load_n(p, 5); } \
 void __tsan_atomic##B##_store(volatile TY* p, TY v, int) { at(p); __atomic_store_n(p, v, 5); } \
 TY __tsan_atomic##B##_exchange(volatile TY* p, TY v, int) { at(p); return __atomic_exchange_n(p, v, 5); } \
 TY __tsan_atomic##B##_fetch_add(volatile TY* p, TY v, int) { at(p); return __atomic_fetch_add(p, v, 5); } \
 TY __tsan_atomic##B##_fetch_sub(volatile TY* p, TY v, int) { at(p); return __atomic_fetch_sub(p, v, 5); } \
 TY __tsan_atomic##B##_fetch_and(volatile TY* p, TY v, int) { at(p); return __atomic_fetch_and(p, v, 5); } \
 TY __tsan_atomic##B##_fetch_or(volatile TY* p, TY v, int) { at(p); return __atomic_fetch_or(p, v, 5); } \
 TY __tsan_atomic##B##_fetch_xor(volatile TY* p, TY v, int) { at(p); return __atomic_fetch_xor(p, v, 5); } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int, int) { at(p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int, int) { at(p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
 TY __tsan_atomic##B##_compare_exchange_val(volatile TY* p, TY e, TY v, int, int) { at(p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; } }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
extern "C" { void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); } void __tsan_atomic_signal_fence(int) {} }
