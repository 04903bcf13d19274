// Stateless explicit-state model checker for sequential C++ code.
//
// A harness is a set of MC_SCOPE bodies: nondeterministic programs that resolve
// every environment decision through mc::choose(n). The explorer executes every
// resolution (depth-first, prefix replay, several forked workers sharing the
// tree by work donation). Each execution drives the real library; the body
// compares it with a reference model and calls mc::fail on disagreement.
//
// Only sanitizer-clean, terminating, agreeing executions pass: a crash, a hang,
// an unexpected exit(), an escaped exception, a heap imbalance (in leak-checked
// scopes) or mc::fail is a violation, attributed to the exact choice sequence,
// re-executed from it in a fresh process, and written to a replay file.
#ifndef VERIF_MC_H
#define VERIF_MC_H

#include <fcntl.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <atomic>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t),
    void (*free_hook)(const volatile void*));

namespace mc {

// ---------------------------------------------------------------- settings
enum { MAXD = 8192, MAXPFX = 768, QCAP = 2048, MAXW = 64, MAXOUT = 96, OUTLEN = 56 };

struct Scope {
  const char* name;
  void (*fn)();
  bool leakcheck;
};
inline std::vector<Scope>& scopes() {
  static std::vector<Scope> v;
  return v;
}
struct Reg {
  Reg(const char* n, void (*f)(), bool lk) { scopes().push_back(Scope{n, f, lk}); }
};
#define MC_SCOPE_(name, lk)                                  \
  static void name();                                        \
  static ::mc::Reg mc_reg_##name(#name, &name, lk);          \
  static void name()
#define MC_SCOPE(name) MC_SCOPE_(name, false)
#define MC_SCOPE_LEAK(name) MC_SCOPE_(name, true)

// ---------------------------------------------------------------- shared data
struct Item {
  uint32_t len, lo, hi;  // choices[0..len) fixed; position len ranges lo..hi-1 (hi=0: all)
  uint32_t cnt[MAXPFX];  // arity at the fixed positions
  uint32_t ch[MAXPFX];
};

struct Slot {
  volatile uint64_t execs, trans, heartbeat;
  volatile uint32_t depth;  // choices made so far in the current execution
  volatile uint32_t plen;   // forced prefix of the current execution
  volatile int running;
  volatile int violated;
  volatile uint32_t maxdepth;
  Item item;
  uint32_t path[MAXD];
  uint32_t cnt[MAXD];
  char vkey[160];
  char vmsg[6000];
};

struct Shared {
  pthread_mutex_t mu;
  volatile uint32_t qn;
  volatile uint32_t pending;
  std::atomic<int> idle;
  std::atomic<int> stop;
  std::atomic<uint64_t> states;
  std::atomic<int> statesCapped;
  std::atomic<uint64_t> knownHits;
  struct {
    char name[OUTLEN];
    std::atomic<uint64_t> n;
  } out[MAXOUT];
  std::atomic<int> nout;
  struct {
    char key[160];
    char msg[400];
    std::atomic<uint64_t> n;
  } known[32];
  std::atomic<int> nknown;
  Item q[QCAP];
  Slot slot[MAXW];
};

struct G {
  Shared* sh = nullptr;
  Slot* me = nullptr;
  std::atomic<uint64_t>* table = nullptr;
  uint64_t tableMask = 0;
  const Scope* scope = nullptr;
  bool thorough = false;
  bool trace = false;
  bool single = false;  // replaying one path
  bool randomFree = false;  // sample mode: free choices drawn from the seed
  uint64_t rnd = 1;
  uint32_t lim[MAXD];
  jmp_buf execJmp;   // abandon this execution
  jmp_buf guardJmp;  // exit() inside guard
  volatile bool inGuard = false;
  volatile int guardStatus = 0;
  volatile long live = 0;
  volatile bool noLeak = false;
  volatile int hooksOff = 0;
  int errfd = 2;
  FILE* traceOut = nullptr;
  std::vector<std::string> knownKeys;
  int nworkers = 8;
  double timeCap = 1e9;
  bool leakRerun = false;
};
inline G& g() {
  static G x;
  return x;
}

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

inline bool thorough() { return g().thorough; }
inline int bound(int quick, int thorough_) { return g().thorough ? thorough_ : quick; }
inline bool tracing() { return g().trace; }

struct HookOff {
  HookOff() { g().hooksOff++; }
  ~HookOff() { g().hooksOff--; }
};

__attribute__((format(printf, 1, 2))) inline void tr(const char* fmt, ...) {
  if (!g().trace) return;
  HookOff off;
  va_list ap;
  va_start(ap, fmt);
  vfprintf(g().traceOut, fmt, ap);
  va_end(ap);
  fputc('\n', g().traceOut);
  fflush(g().traceOut);
}

// ---------------------------------------------------------------- violations
[[noreturn]] inline void violation(const char* key, const char* msg) {
  G& x = g();
  Slot* s = x.me;
  snprintf(s->vkey, sizeof s->vkey, "%s", key);
  snprintf(s->vmsg, sizeof s->vmsg, "%s", msg);
  s->violated = 1;
  tr("FAIL [%s] %s", key, msg);
  _exit(41);
}

__attribute__((format(printf, 2, 3))) [[noreturn]] inline void fail(const char* key,
                                                                     const char* fmt, ...) {
  char buf[5000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  G& x = g();
  for (auto& k : x.knownKeys)
    if (k == key) {
      int i, n = x.sh->nknown;
      for (i = 0; i < n; i++)
        if (!strcmp(x.sh->known[i].key, key)) break;
      if (i == n && n < 32) {
        snprintf(x.sh->known[i].key, 160, "%s", key);
        snprintf(x.sh->known[i].msg, 400, "%s", buf);
        x.sh->nknown = n + 1;
      }
      x.sh->known[i].n++;
      x.noLeak = true;
      tr("KNOWN [%s] %s", key, buf);
      longjmp(x.execJmp, 2);
    }
  violation(key, buf);
}
#define MC_CHECK(cond, key, ...)           \
  do {                                     \
    if (!(cond)) ::mc::fail(key, __VA_ARGS__); \
  } while (0)

// ---------------------------------------------------------------- choices
inline int choose(int n, const char* label = nullptr) {
  G& x = g();
  Slot* s = x.me;
  uint32_t d = s->depth;
  if (n <= 0) violation("harness:choose", "choose(0)");
  if (d >= MAXD) violation("harness:depth", "too many choices");
  uint32_t c;
  if (d < s->plen) {
    c = s->path[d];
    if (s->cnt[d] != 0 && s->cnt[d] != (uint32_t)n && !x.single)
      violation("harness:nondeterminism", "choice arity changed on replay");
    if (c >= (uint32_t)n) violation("harness:nondeterminism", "choice out of range on replay");
    if (s->cnt[d] == 0) {
      s->cnt[d] = n;
      if (x.lim[d] == 0 || x.lim[d] > (uint32_t)n) x.lim[d] = n;
    }
  } else {
    if (x.randomFree) {
      x.rnd = x.rnd * 6364136223846793005ULL + 1442695040888963407ULL;
      c = (uint32_t)((x.rnd >> 33) % (uint64_t)n);
    } else {
      c = 0;
    }
    s->path[d] = c;
    s->cnt[d] = n;
    x.lim[d] = n;
    s->plen = d + 1;
  }
  s->depth = d + 1;
  if (x.trace && label) tr("  choose %s: %u of %d", label, c, n);
  return (int)c;
}
inline bool flip(const char* label = nullptr) { return choose(2, label) != 0; }
inline int range(int lo, int hi, const char* label = nullptr) {  // inclusive
  return lo + choose(hi - lo + 1, label);
}
template <class T, size_t N>
inline const T& pick(const T (&a)[N], const char* label = nullptr) {
  return a[choose((int)N, label)];
}
template <class T>
inline const T& pick(const std::vector<T>& a, const char* label = nullptr) {
  return a[choose((int)a.size(), label)];
}

// A size: every one in lo..dense, then the listed larger ones.
inline int size(int lo, int dense, std::initializer_list<int> more = {}, const char* label = nullptr) {
  int k = choose(dense - lo + 1 + (int)more.size(), label);
  return k <= dense - lo ? lo + k : *(more.begin() + (k - (dense - lo + 1)));
}

// One transition of the model / implementation pair.
#define MC_OP(...)                                     \
  do {                                                 \
    ::mc::g().me->trans = ::mc::g().me->trans + 1;     \
    if (::mc::g().trace) ::mc::tr(__VA_ARGS__);        \
  } while (0)

// Explicitly counted extra transitions (bulk comparisons).
inline void ops(uint64_t n) { g().me->trans = g().me->trans + n; }
inline void beat() { g().me->heartbeat = g().me->heartbeat + 1; }

// ---------------------------------------------------------------- states
inline uint64_t mix(uint64_t h) {
  h ^= h >> 33;
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ULL;
  h ^= h >> 33;
  return h;
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t seed = 0x9e3779b97f4a7c15ULL) {
  const unsigned char* b = (const unsigned char*)p;
  uint64_t h = seed ^ (n * 0x100000001b3ULL);
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL;
  return mix(h);
}
struct Hash {
  uint64_t h = 0x1234567;
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type>
  Hash& add(T x) {
    if (std::is_floating_point<T>::value) {
      double d = (double)x;
      return word(hashBytes(&d, sizeof d));
    }
    return word((uint64_t)x);
  }
  Hash& word(uint64_t v) {
    h = mix(h ^ (v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2)));
    return *this;
  }
  Hash& add(const std::string& s) { return word(hashBytes(s.data(), s.size())); }
  template <class It>
  Hash& range(It b, It e) {
    uint64_t n = 0;
    for (; b != e; ++b, ++n) add((uint64_t)*b);
    return add(n);
  }
};
inline void state(uint64_t h) {
  G& x = g();
  if (!x.table) return;
  h = mix(h ^ hashBytes(x.scope->name, strlen(x.scope->name)));
  if (h == 0) h = 1;
  uint64_t i = h & x.tableMask;
  for (int k = 0; k < 64; k++, i = (i + 1) & x.tableMask) {
    uint64_t v = x.table[i].load(std::memory_order_relaxed);
    if (v == h) return;
    if (v == 0) {
      uint64_t z = 0;
      if (x.table[i].compare_exchange_strong(z, h)) {
        x.sh->states++;
        return;
      }
      if (z == h) return;
    }
  }
  x.sh->statesCapped = 1;
}
inline void state(const Hash& h) { state(h.h); }

inline void outcome(const char* name) {
  Shared* sh = g().sh;
  int n = sh->nout;
  for (int i = 0; i < n; i++)
    if (!strncmp(sh->out[i].name, name, OUTLEN - 1)) {
      sh->out[i].n++;
      return;
    }
  pthread_mutex_lock(&sh->mu);
  n = sh->nout;
  int i;
  for (i = 0; i < n; i++)
    if (!strncmp(sh->out[i].name, name, OUTLEN - 1)) break;
  if (i == n && n < MAXOUT) {
    snprintf(sh->out[i].name, OUTLEN, "%s", name);
    sh->out[i].n = 0;
    sh->nout = n + 1;
  }
  if (i < MAXOUT) sh->out[i].n++;
  pthread_mutex_unlock(&sh->mu);
}

// ---------------------------------------------------------------- exit seam
extern "C" {
void __real_exit(int) __attribute__((noreturn));
}
struct Exit {
  bool exited = false;   // exit() was called
  int status = 0;
  bool threw = false;
  size_t errBytes = 0;   // bytes written to standard error meanwhile
};
inline void errReset() {
  lseek(g().errfd, 0, SEEK_SET);
  if (ftruncate(g().errfd, 0)) {
  }
}
inline size_t errSize() {
  struct stat st;
  if (fstat(g().errfd, &st)) return 0;
  return (size_t)st.st_size;
}
inline std::string errText() {
  size_t n = errSize();
  if (n > 3000) n = 3000;
  std::string s(n, 0);
  ssize_t k = pread(g().errfd, &s[0], n, 0);
  s.resize(k < 0 ? 0 : k);
  return s;
}

// Runs f; an exit() inside it comes back as a result.
template <class F>
__attribute__((noinline)) Exit guard(F&& f) {
  G& x = g();
  Exit r;
  errReset();
  x.inGuard = true;
  if (setjmp(x.guardJmp) == 0) {
    try {
      f();
    } catch (...) {
      r.threw = true;
    }
    x.inGuard = false;
    return r;
  }
  x.inGuard = false;
  x.noLeak = true;
  Exit q;
  q.exited = true;
  q.status = x.guardStatus;
  q.errBytes = errSize();
  return q;
}

// f must end the program with a failure status and a diagnostic.
template <class F>
void mustDie(const char* key, const std::string& what, F&& f) {
  Exit e = guard(f);
  if (e.threw) fail(key, "%s: exception instead of a diagnosed exit", what.c_str());
  if (!e.exited) fail(key, "%s: not diagnosed, execution continued", what.c_str());
  if (e.status == 0) fail(key, "%s: exited with success status", what.c_str());
  if (e.errBytes == 0) fail(key, "%s: exited without a diagnostic", what.c_str());
}
// f must return normally.
template <class F>
void mustLive(const char* key, const std::string& what, F&& f) {
  Exit e = guard(f);
  if (e.threw) fail(key, "%s: threw", what.c_str());
  if (e.exited) fail(key, "%s: ended the program: %s", what.c_str(), errText().c_str());
}

// ---------------------------------------------------------------- heap balance
inline void mallocHook(const volatile void*, size_t) {
  G& x = g();
  if (!x.hooksOff) x.live = x.live + 1;
}
inline void freeHook(const volatile void* p) {
  G& x = g();
  if (p && !x.hooksOff) x.live = x.live - 1;
}
inline long live() { return g().live; }

// ---------------------------------------------------------------- execution
inline void execOnce(bool again = false) {
  G& x = g();
  Slot* s = x.me;
  s->depth = 0;
  x.noLeak = false;
  x.inGuard = false;
  x.hooksOff = 0;
  volatile long before = x.live;
  int j = setjmp(x.execJmp);
  if (j == 0) {
    try {
      x.scope->fn();
    } catch (std::exception& e) {
      violation("exception", (std::string("escaped exception: ") + e.what()).c_str());
    } catch (...) {
      violation("exception", "escaped exception");
    }
  }
  if (j == 0 && x.scope->leakcheck && !x.noLeak && x.live != before) {
    if (!again) {
      // first use may legitimately allocate statics: only a repeated imbalance counts
      uint64_t t = s->trans;
      long d1 = x.live - before;
      (void)d1;
      execOnce(true);
      s->trans = t;
    } else {
      char b[100];
      snprintf(b, sizeof b, "heap imbalance: %ld blocks left after all objects were destroyed",
               x.live - before);
      violation("leak", b);
    }
  }
  if (!again) {
    s->execs = s->execs + 1;
    if (s->depth > s->maxdepth) s->maxdepth = s->depth;
  }
}

inline bool qpop(Item* it) {
  Shared* sh = g().sh;
  bool ok = false;
  pthread_mutex_lock(&sh->mu);
  if (sh->qn > 0) {
    *it = sh->q[--sh->qn];
    ok = true;
  }
  pthread_mutex_unlock(&sh->mu);
  return ok;
}
inline bool qpush(const Item& it) {
  Shared* sh = g().sh;
  bool ok = false;
  pthread_mutex_lock(&sh->mu);
  if (sh->qn < QCAP) {
    sh->q[sh->qn++] = it;
    sh->pending++;
    ok = true;
  }
  pthread_mutex_unlock(&sh->mu);
  return ok;
}
inline void qdone() {
  Shared* sh = g().sh;
  pthread_mutex_lock(&sh->mu);
  sh->pending--;
  pthread_mutex_unlock(&sh->mu);
}

inline long rssMB() {
  FILE* f = fopen("/proc/self/statm", "r");
  if (!f) return 0;
  long a = 0, b = 0;
  if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
  fclose(f);
  return b * 4 / 1024;
}

inline void loadItem(const Item& it) {
  G& x = g();
  Slot* s = x.me;
  for (uint32_t i = 0; i < it.len; i++) {
    s->path[i] = it.ch[i];
    s->cnt[i] = it.cnt[i];
    x.lim[i] = 0;
  }
  if (it.hi) {
    s->path[it.len] = it.lo;
    s->cnt[it.len] = 0;  // learnt on first execution
    x.lim[it.len] = it.hi;
    s->plen = it.len + 1;
  } else {
    s->plen = it.len;
  }
}

inline void runItem(const Item& it) {
  G& x = g();
  Slot* s = x.me;
  Shared* sh = x.sh;
  s->item = it;
  loadItem(it);
  s->running = 1;
  while (true) {
    execOnce();
    if (sh->stop) break;
    uint32_t D = s->depth;
    if (sh->idle > 0 && sh->qn < 64) {
      // donate the shallowest untried range, in one piece per idle worker
      for (uint32_t i = it.len; i < D && i < MAXPFX; i++) {
        uint32_t lo = s->path[i] + 1, hi = x.lim[i];
        if (lo < hi) {
          HookOff off;
          static Item d;
          d.len = i;
          for (uint32_t k = 0; k < i; k++) {
            d.ch[k] = s->path[k];
            d.cnt[k] = s->cnt[k];
          }
          uint32_t n = hi - lo;
          int w = sh->idle;
          uint32_t parts = w < 1 ? 1 : (uint32_t)w;
          if (parts > 16) parts = 16;
          // the rest of the range stays here, unless it is one value
          uint32_t each = n / (parts + 1);
          if (each < 1) each = 1;
          for (uint32_t k = 0; k < parts && lo < hi; k++) {
            d.lo = hi - lo > each ? hi - each : lo;
            d.hi = hi;
            if (!qpush(d)) break;
            hi = d.lo;
            x.lim[i] = hi;
          }
          break;
        }
      }
    }
    if ((s->execs & 4095) == 0 && rssMB() > 2000) {
      // hand the rest of this item over and continue in a fresh process
      HookOff off;
      static Item d;
      bool all = true;
      for (uint32_t i = it.len; i < D && i < MAXPFX; i++) {
        if (s->path[i] + 1 >= x.lim[i]) continue;
        d.len = i;
        d.lo = s->path[i] + 1;
        d.hi = x.lim[i];
        for (uint32_t k = 0; k < i; k++) {
          d.ch[k] = s->path[k];
          d.cnt[k] = s->cnt[k];
        }
        if (qpush(d))
          x.lim[i] = s->path[i] + 1;
        else
          all = false;
      }
      if (all && D < MAXPFX) break;
    }
    // backtrack
    int i = (int)D - 1;
    while (i >= (int)it.len && s->path[i] + 1 >= x.lim[i]) i--;
    if (i < (int)it.len) break;
    s->path[i]++;
    s->plen = i + 1;
  }
  s->running = 0;
}

inline void redirectStderr(int fd) {
  fflush(stderr);
  dup2(fd, 2);
  setvbuf(stderr, nullptr, _IONBF, 0);
}

inline void worker(int id, int errfd) {
  G& x = g();
  x.me = &x.sh->slot[id];
  x.errfd = errfd;
  redirectStderr(errfd);
  Shared* sh = x.sh;
  static Item it;
  bool wasIdle = false;
  int spin = 0;
  while (!sh->stop) {
    if (qpop(&it)) {
      if (wasIdle) sh->idle--, wasIdle = false;
      spin = 0;
      runItem(it);
      qdone();
      if (rssMB() > 1200) _exit(42);  // fresh process, less leaked memory
    } else {
      if (!wasIdle) sh->idle++, wasIdle = true;
      if (sh->pending == 0) break;
      if (++spin > 50)
        usleep(200);
      else
        sched_yield();
    }
  }
  if (wasIdle) sh->idle--;
  _exit(0);
}

struct Found {
  bool any = false;
  std::string scope, key, msg, err;
  std::vector<uint32_t> path;
  Item item;
  bool itemMode = false;
};

inline std::string readFd(int fd, size_t cap = 6000) {
  struct stat st;
  if (fstat(fd, &st)) return "";
  size_t n = (size_t)st.st_size;
  if (n > cap) n = cap;
  std::string s(n, 0);
  ssize_t k = pread(fd, &s[0], n, 0);
  s.resize(k < 0 ? 0 : k);
  return s;
}
inline int newMemfd() { return memfd_create("mcerr", 0); }

inline double cpuOf(pid_t p) {
  clockid_t c;
  if (clock_getcpuclockid(p, &c)) return -1;
  timespec t;
  if (clock_gettime(c, &t)) return -1;
  return t.tv_sec + t.tv_nsec * 1e-9;
}

inline std::string firstLines(const std::string& s, int n) {
  size_t p = 0;
  for (int i = 0; i < n; i++) {
    size_t q = s.find('\n', p);
    if (q == std::string::npos) return s;
    p = q + 1;
  }
  return s.substr(0, p);
}

// classify an abnormal death of a process executing a path
inline void describeDeath(int st, const std::string& err, std::string* key, std::string* msg) {
  size_t p;
  std::string line;
  if ((p = err.find("ERROR: AddressSanitizer")) != std::string::npos)
    line = err.substr(p, err.find('\n', p) - p);
  else if ((p = err.find("runtime error:")) != std::string::npos)
    line = err.substr(p, err.find('\n', p) - p);
  else if ((p = err.find("Assertion")) != std::string::npos)
    line = err.substr(p, err.find('\n', p) - p);
  if (!line.empty())
    *key = "crash:sanitizer";
  else
    *key = "crash";
  char b[200];
  if (WIFSIGNALED(st))
    snprintf(b, sizeof b, "process died by signal %d; ", WTERMSIG(st));
  else
    snprintf(b, sizeof b, "process ended with status %d; ", WEXITSTATUS(st));
  *msg = b + line;
}

// Runs one path (or one item from its start) in a fresh process.
// Returns true if it violates.
inline bool runIsolated(const Scope& sc, Found* f, bool itemMode, double cpuLimit,
                        const char* traceFile, bool randomFree, uint64_t rnd) {
  G& x = g();
  Slot* s = &x.sh->slot[MAXW - 1];
  memset((void*)s, 0, sizeof *s);
  int errfd = newMemfd();
  fflush(nullptr);
  int savedStop = x.sh->stop;
  x.sh->stop = 0;
  pid_t p = fork();
  if (p == 0) {
    x.scope = &sc;
    x.me = s;
    x.errfd = errfd;
    x.table = nullptr;
    redirectStderr(errfd);
    if (traceFile) {
      x.trace = true;
      x.traceOut = fopen(traceFile, "w");
      if (!x.traceOut) x.trace = false;
    }
    if (itemMode) {
      x.sh->idle = 0;
      Item it = f->item;
      // run the item up to (and including) the violating path
      std::vector<uint32_t> stopAt = f->path;
      s->item = it;
      loadItem(it);
      while (true) {
        execOnce();
        uint32_t D = s->depth;
        int i = (int)D - 1;
        while (i >= (int)it.len && s->path[i] + 1 >= x.lim[i]) i--;
        if (i < (int)it.len) break;
        s->path[i]++;
        s->plen = i + 1;
        // stop once past the violating path (lexicographic order)
        bool past = false;
        for (size_t k = 0; k < stopAt.size() && k < s->plen; k++) {
          if (s->path[k] > stopAt[k]) { past = true; break; }
          if (s->path[k] < stopAt[k]) break;
        }
        if (past) break;
      }
    } else {
      x.single = true;
      x.randomFree = randomFree;
      x.rnd = rnd * 2654435761u + 12345;
      for (size_t i = 0; i < f->path.size(); i++) {
        s->path[i] = f->path[i];
        s->cnt[i] = 0;
        x.lim[i] = 0;
      }
      s->plen = f->path.size();
      execOnce();
    }
    if (x.traceOut) fclose(x.traceOut);
    _exit(0);
  }
  bool bad = false;
  int st = 0;
  double t0 = now();
  while (true) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    double c = cpuOf(p);
    if (c > cpuLimit || now() - t0 > cpuLimit * 8 + 60) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      f->key = "hang";
      f->msg = "execution does not terminate";
      bad = true;
      break;
    }
    usleep(2000);
  }
  f->err = readFd(errfd);
  close(errfd);
  x.sh->stop = savedStop;
  if (!bad) {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      bad = false;
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 41) {
      f->key = s->vkey;
      f->msg = s->vmsg;
      bad = true;
    } else {
      describeDeath(st, f->err, &f->key, &f->msg);
      bad = true;
    }
  }
  if (f->path.empty() || randomFree) {
    f->path.assign(s->path, s->path + s->depth);
  }
  return bad;
}

struct ScopeResult {
  std::string name;
  uint64_t execs = 0, trans = 0, states = 0;
  uint32_t maxdepth = 0;
  bool complete = true, statesCapped = false;
  double wall = 0;
  std::vector<std::pair<std::string, uint64_t>> outcomes;
  std::vector<std::string> samples;
};

inline bool exploreScope(const Scope& sc, ScopeResult* res, Found* found, double deadline) {
  G& x = g();
  Shared* sh = x.sh;
  double t0 = now();
  x.scope = &sc;
  sh->qn = 0;
  sh->pending = 0;
  sh->idle = 0;
  sh->stop = 0;
  sh->states = 0;
  sh->nout = 0;
  memset((void*)sh->slot, 0, sizeof sh->slot);
  static Item root;
  root.len = 0;
  root.lo = 0;
  root.hi = 0;
  qpush(root);
  int W = x.nworkers;
  std::vector<pid_t> pid(W, -1);
  std::vector<int> efd(W);
  std::vector<double> lastCpu(W, 0);
  std::vector<uint64_t> lastBeat(W, 0);
  uint64_t baseExec = 0, baseTrans = 0;
  (void)baseExec;
  (void)baseTrans;
  for (int i = 0; i < W; i++) efd[i] = newMemfd();
  auto spawn = [&](int i) {
    fflush(nullptr);
    sh->slot[i].violated = 0;
    sh->slot[i].running = 0;
    pid_t p = fork();
    if (p == 0) {
      worker(i, efd[i]);
      _exit(0);
    }
    pid[i] = p;
    lastCpu[i] = 0;
    lastBeat[i] = ~0ULL;
  };
  for (int i = 0; i < W; i++) spawn(i);
  bool violated = false;
  int alive = W;
  int oomRetries = 0;
  double nextPoll = 0;
  while (alive > 0) {
    int st;
    bool any = false;
    for (int i = 0; i < W; i++) {
      if (pid[i] < 0) continue;
      pid_t r = waitpid(pid[i], &st, WNOHANG);
      if (r != pid[i]) continue;
      any = true;
      pid[i] = -1;
      Slot* s = &sh->slot[i];
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        alive--;
        continue;
      }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 42) {
        spawn(i);
        continue;
      }
      if (violated || sh->stop == 2) {
        alive--;
        continue;
      }
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && oomRetries < 3) {
        // killed from outside (memory): put the item back and go on with fewer workers
        oomRetries++;
        s->running = 0;
        if (alive > 1) {
          qpush(s->item);
          qdone();
          alive--;
        } else {
          qpush(s->item);
          qdone();
          spawn(i);
        }
        continue;
      }
      // violation
      alive--;
      violated = true;
      sh->stop = 1;
      found->any = true;
      found->scope = sc.name;
      found->path.assign(s->path, s->path + s->depth);
      found->item = s->item;
      found->err = readFd(efd[i]);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 41) {
        found->key = s->vkey;
        found->msg = s->vmsg;
      } else {
        describeDeath(st, found->err, &found->key, &found->msg);
      }
    }
    double t = now();
    if (t > nextPoll) {
      nextPoll = t + 0.25;
      if (t > deadline && !sh->stop) {
        sh->stop = 2;  // capped
        res->complete = false;
      }
      for (int i = 0; i < W; i++) {
        if (pid[i] < 0) continue;
        Slot* s = &sh->slot[i];
        uint64_t b = s->execs + s->heartbeat;
        double c = cpuOf(pid[i]);
        if (b != lastBeat[i] || !s->running) {
          lastBeat[i] = b;
          lastCpu[i] = c;
        } else if (c - lastCpu[i] > 20) {
          // suspected hang: confirmed later in isolation with a longer limit
          kill(pid[i], SIGKILL);
          waitpid(pid[i], &st, 0);
          pid[i] = -1;
          alive--;
          if (!violated) {
            violated = true;
            sh->stop = 1;
            found->any = true;
            found->scope = sc.name;
            found->path.assign(s->path, s->path + s->depth);
            found->item = s->item;
            found->key = "hang";
            found->msg = "execution made no progress for 20 s of CPU time";
          }
        } else if (sh->stop && t > deadline + 30) {
          kill(pid[i], SIGKILL);
        }
      }
    }
    if (!any) usleep(1000);
  }
  for (int i = 0; i < W; i++) close(efd[i]);
  res->name = sc.name;
  for (int i = 0; i < W; i++) {
    res->execs += sh->slot[i].execs;
    res->trans += sh->slot[i].trans;
    if (sh->slot[i].maxdepth > res->maxdepth) res->maxdepth = sh->slot[i].maxdepth;
  }
  res->states = sh->states;
  res->statesCapped = sh->statesCapped;
  for (int i = 0; i < sh->nout; i++)
    res->outcomes.push_back({sh->out[i].name, sh->out[i].n.load()});
  res->wall = now() - t0;
  if (!violated && sh->stop == 2) res->complete = false;
  return violated;
}

inline std::string jsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}

inline std::string slurp(const std::string& fn, size_t cap) {
  std::string s;
  FILE* f = fopen(fn.c_str(), "r");
  if (!f) return s;
  char b[4096];
  size_t n;
  while (s.size() < cap && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  if (s.size() > cap) s.resize(cap), s += "...";
  return s;
}

inline int mcMain(int argc, char** argv) {
  G& x = g();
  std::string out = "result.json", replayDir = ".", only, prop = "X";
  std::string replay;
  x.timeCap = 600;
  uint64_t seed = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") x.thorough = next() == "thorough";
    else if (a == "--out") out = next();
    else if (a == "--replaydir") replayDir = next();
    else if (a == "--property") prop = next();
    else if (a == "--scope") only = next();
    else if (a == "--cap") x.timeCap = atof(next().c_str());
    else if (a == "--workers") x.nworkers = atoi(next().c_str());
    else if (a == "--known") x.knownKeys.push_back(next());
    else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--replay") replay = next();
  }
  if (x.nworkers > MAXW - 2) x.nworkers = MAXW - 2;
  x.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pthread_mutexattr_t ma;
  pthread_mutexattr_init(&ma);
  pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED);
  pthread_mutex_init(&x.sh->mu, &ma);
  __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);

  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) {
      fprintf(stdout, "cannot read %s\n", replay.c_str());
      return 2;
    }
    std::string scopeName;
    Found fd;
    bool itemMode = false;
    char* line = nullptr;
    size_t cap = 0;
    auto parse = [](const std::string& s) {
      std::vector<uint32_t> v;
      std::stringstream ss(s);
      std::string t;
      while (std::getline(ss, t, ',')) v.push_back((uint32_t)strtoul(t.c_str(), nullptr, 10));
      return v;
    };
    memset(&fd.item, 0, sizeof fd.item);
    while (getline(&line, &cap, f) > 0) {
      std::string l = line;
      while (!l.empty() && l.back() == '\n') l.pop_back();
      size_t e = l.find('=');
      if (e == std::string::npos) continue;
      std::string k = l.substr(0, e), v = l.substr(e + 1);
      if (k == "scope") scopeName = v;
      else if (k == "tier") x.thorough = v == "thorough";
      else if (k == "choices") fd.path = parse(v);
      else if (k == "mode") itemMode = v == "item";
      else if (k == "item") {
        auto w = parse(v);
        fd.item.len = w[0], fd.item.lo = w[1], fd.item.hi = w[2];
        for (size_t i = 3; i < w.size(); i++) fd.item.ch[i - 3] = w[i];
      } else if (k == "trace") break;
    }
    fclose(f);
    for (auto& sc : scopes())
      if (scopeName == sc.name) {
        bool bad = runIsolated(sc, &fd, itemMode, 120, "/dev/stdout", false, 0);
        fprintf(stdout, "%s\n", bad ? ("REPRODUCED [" + fd.key + "] " + fd.msg).c_str()
                                    : "not reproduced");
        if (!fd.err.empty()) fprintf(stdout, "--- stderr\n%s\n", fd.err.c_str());
        return bad ? 1 : 0;
      }
    fprintf(stdout, "no scope %s\n", scopeName.c_str());
    return 2;
  }

  uint64_t tsize = x.thorough ? (1ULL << 26) : (1ULL << 24);
  x.table = (std::atomic<uint64_t>*)mmap(nullptr, tsize * 8, PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  x.tableMask = tsize - 1;

  double t0 = now();
  std::vector<ScopeResult> results;
  Found found;
  bool violated = false;
  int unconfirmed = 0;
  std::string replayPath;
  for (auto& sc : scopes()) {
    if (!only.empty() && only != sc.name) continue;
    ScopeResult r;
    Found f;
  retry:
    r = ScopeResult();
    f = Found();
    if (exploreScope(sc, &r, &f, t0 + x.timeCap)) {
      // confirm in a fresh process
      Found c = f;
      std::string tf = replayDir + "/" + prop + "-trace.txt";
      bool ok = runIsolated(sc, &c, false, 90, tf.c_str(), false, 0);
      if (!ok) {
        c = f;
        ok = runIsolated(sc, &c, true, 600, tf.c_str(), false, 0);
        c.itemMode = ok;
      }
      if (!ok) {
        fprintf(stdout, "note: scope %s: [%s] %s did not reproduce in isolation (attempt %d)\n",
                sc.name, f.key.c_str(), f.msg.c_str(), unconfirmed + 1);
        fflush(stdout);
        if (++unconfirmed < 2) goto retry;
        c = f;
      }
      found = c;
      found.scope = sc.name;
      violated = true;
      replayPath = replayDir + "/" + prop + "-" + sc.name + ".replay";
      std::string trace = slurp(tf, 200000);
      FILE* o = fopen(replayPath.c_str(), "w");
      if (o) {
        fprintf(o, "property=%s\nscope=%s\ntier=%s\nmode=%s\nchoices=", prop.c_str(), sc.name,
                x.thorough ? "thorough" : "quick", c.itemMode ? "item" : "path");
        for (size_t i = 0; i < f.path.size(); i++) fprintf(o, "%s%u", i ? "," : "", f.path[i]);
        if (c.itemMode) {
          fprintf(o, "\nitem=%u,%u,%u", f.item.len, f.item.lo, f.item.hi);
          for (uint32_t i = 0; i < f.item.len; i++) fprintf(o, ",%u", f.item.ch[i]);
        }
        fprintf(o, "\nkey=%s\nmessage=%s\ntrace=\n%s\nstderr=\n%s\n", c.key.c_str(),
                c.msg.c_str(), trace.c_str(), c.err.c_str());
        fclose(o);
      }
      unlink(tf.c_str());
      results.push_back(r);
      break;
    }
    // sample traces, for the record
    for (int k = 0; k < 2; k++) {
      Found s;
      std::string tf = replayDir + "/" + prop + "-sample.txt";
      runIsolated(sc, &s, false, 60, tf.c_str(), k > 0, seed + k);
      r.samples.push_back(slurp(tf, 900));
      unlink(tf.c_str());
    }
    results.push_back(r);
    fprintf(stdout, "scope %-28s %s executions=%llu transitions=%llu states=%llu%s depth=%u %.1fs",
            r.name.c_str(), r.complete ? "exhausted" : "CAPPED", (unsigned long long)r.execs,
            (unsigned long long)r.trans, (unsigned long long)r.states, r.statesCapped ? "+" : "",
            r.maxdepth, r.wall);
    for (auto& p : r.outcomes)
      fprintf(stdout, " %s=%llu", p.first.c_str(), (unsigned long long)p.second);
    fprintf(stdout, "\n");
    fflush(stdout);
  }
  FILE* o = fopen(out.c_str(), "w");
  if (!o) {
    perror("out");
    return 2;
  }
  fprintf(o, "{\"violated\":%s,\"wall\":%.3f,", violated ? "true" : "false", now() - t0);
  if (violated)
    fprintf(o, "\"scope\":\"%s\",\"key\":\"%s\",\"message\":\"%s\",\"replay\":\"%s\",",
            found.scope.c_str(), jsonEsc(found.key).c_str(), jsonEsc(found.msg).c_str(),
            jsonEsc(replayPath).c_str());
  fprintf(o, "\"known\":[");
  for (int i = 0; i < x.sh->nknown; i++)
    fprintf(o, "%s{\"key\":\"%s\",\"message\":\"%s\",\"count\":%llu}", i ? "," : "",
            jsonEsc(x.sh->known[i].key).c_str(), jsonEsc(x.sh->known[i].msg).c_str(),
            (unsigned long long)x.sh->known[i].n.load());
  fprintf(o, "],\"scopes\":[");
  for (size_t i = 0; i < results.size(); i++) {
    auto& r = results[i];
    fprintf(o,
            "%s{\"name\":\"%s\",\"exhausted\":%s,\"executions\":%llu,\"transitions\":%llu,"
            "\"states\":%llu,\"states_capped\":%s,\"max_choices\":%u,\"wall_s\":%.2f,\"outcomes\":{",
            i ? "," : "", r.name.c_str(), r.complete ? "true" : "false",
            (unsigned long long)r.execs, (unsigned long long)r.trans,
            (unsigned long long)r.states, r.statesCapped ? "true" : "false", r.maxdepth, r.wall);
    for (size_t k = 0; k < r.outcomes.size(); k++)
      fprintf(o, "%s\"%s\":%llu", k ? "," : "", jsonEsc(r.outcomes[k].first).c_str(),
              (unsigned long long)r.outcomes[k].second);
    fprintf(o, "},\"samples\":[");
    for (size_t k = 0; k < r.samples.size(); k++)
      fprintf(o, "%s\"%s\"", k ? "," : "", jsonEsc(r.samples[k]).c_str());
    fprintf(o, "]}");
  }
  fprintf(o, "]}\n");
  fclose(o);
  if (violated)
    fprintf(stdout, "violation in scope %s: [%s] %s\n", found.scope.c_str(), found.key.c_str(),
            found.msg.c_str());
  return violated ? 1 : 0;
}

}  // namespace mc

extern "C" void __wrap_exit(int status) __attribute__((noreturn));
extern "C" void __wrap_exit(int status) {
  mc::G& x = mc::g();
  if (x.me == nullptr) mc::__real_exit(status);
  x.guardStatus = status;
  if (x.inGuard) longjmp(x.guardJmp, 1);
  char b[3300];
  snprintf(b, sizeof b, "unexpected exit(%d): %s", status, mc::errText().c_str());
  mc::violation("exit", b);
}

extern "C" void __wrap__Exit(int status) __attribute__((noreturn));
extern "C" void __wrap__Exit(int status) { __wrap_exit(status); }
extern "C" void __wrap_quick_exit(int status) __attribute__((noreturn));
extern "C" void __wrap_quick_exit(int status) { __wrap_exit(status); }

int main(int argc, char** argv) {
  int r = mc::mcMain(argc, argv);
  fflush(nullptr);
  _exit(r);
}

#endif
