// Stateless exhaustive explorer.
//
// A scenario is a function that calls vf::choose(n) wherever the environment
// has n possibilities.  The explorer runs it once for every choice vector
// (depth first), in parallel worker processes that donate untaken siblings to
// each other; a crash or hang of a worker is confirmed by replaying its choice
// vector in a fresh process and exploration goes on behind it.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#define VF_ALLOC_NO_MACROS
#include "vf_alloc.h"

namespace vf {

struct Violation {
  std::string sig, msg;
};
struct Prune {};

static const int kMaxDepth = 3000;
static const int kQueueCap = 4096;
static const int kMaxUnit = 256;
static const int kSamples = 5;

struct WorkerShm {
  std::atomic<uint64_t> execs, transitions, pruned, heartbeat;
  std::atomic<int> in_exec;
  std::atomic<int> depth;    // choices made in the running execution
  std::atomic<int> pathlen;  // retained stack
  std::atomic<int> base;     // forced prefix length of the unit
  std::atomic<int> active;   // is processing a unit
  uint16_t choice[kMaxDepth];
  uint16_t n[kMaxDepth];
  uint64_t rss_fail;
};

struct Unit {
  int len;
  uint16_t c[kMaxUnit];
};

struct Sample {
  std::atomic<int> set;
  int len;
  uint16_t c[kMaxDepth];
};

struct Shared {
  pthread_mutex_t mu;
  std::atomic<int> qsize;
  std::atomic<int> active;
  std::atomic<int> stop;      // deadline reached or too many violations
  std::atomic<int> capped;    // state set overflow
  std::atomic<uint64_t> nviol;
  std::atomic<uint64_t> nondet;
  Unit q[kQueueCap];
  Sample samples[kSamples];
  WorkerShm w[64];
};

struct G {
  Shared* sh = nullptr;
  WorkerShm* me = nullptr;
  bool replay = false;
  bool trace = false;
  bool thorough = false;
  int pos = 0;
  std::vector<uint16_t> rpath;
  std::vector<std::string> notes;
  std::string dsig, dmsg;  // deferred failure
  std::unordered_set<uint64_t> states;
  uint64_t transitions = 0;
  bool nondet = false;
  uint64_t seed = 1;
};
inline G& g() {
  static G x;
  return x;
}

inline bool thorough() { return g().thorough; }
inline bool tracing() { return g().trace; }

inline std::string vfmt(const char* fmt, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof(buf), fmt, ap);
  return buf;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string s = vfmt(f, ap);
  va_end(ap);
  return s;
}

inline void note(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* f, ...) {
  if (!g().trace) return;
  va_list ap;
  va_start(ap, f);
  g().notes.push_back(vfmt(f, ap));
  va_end(ap);
}

// Number of library operations / model steps executed.
// (not += because the threads of C16 also count)
inline void op(uint64_t k = 1) {
  __atomic_store_n(&g().transitions, __atomic_load_n(&g().transitions, __ATOMIC_RELAXED) + k, __ATOMIC_RELAXED);
}

inline int choose(int n) {
  G& s = g();
  if (n <= 1) return 0;
  if (s.replay) {
    int c = s.pos < (int)s.rpath.size() ? s.rpath[s.pos] : 0;
    s.pos++;
    if (c >= n) {
      s.nondet = true;
      c = n - 1;
    }
    return c;
  }
  WorkerShm* w = s.me;
  int pos = s.pos++;
  if (pos >= kMaxDepth) {
    fprintf(stderr, "explorer: choice depth exceeded\n");
    _exit(88);
  }
  if (pos < w->pathlen.load(std::memory_order_relaxed)) {
    if (w->n[pos] != 0 && w->n[pos] != n) s.nondet = true;
    if (w->n[pos] == 0) w->n[pos] = (uint16_t)n;
    if (w->choice[pos] >= n) {
      s.nondet = true;
      w->choice[pos] = (uint16_t)(n - 1);
    }
  } else {
    w->choice[pos] = 0;
    w->n[pos] = (uint16_t)n;
    w->pathlen.store(pos + 1, std::memory_order_relaxed);
  }
  w->depth.store(pos + 1, std::memory_order_relaxed);
  return w->choice[pos];
}
inline bool flip() { return choose(2) == 1; }
template <class T>
inline const T& pick(const std::vector<T>& v) {
  return v[choose((int)v.size())];
}
inline void assume(bool b) {
  if (!b) throw Prune();
}

// Failure: throws.  Never call from inside a C callback, use defer() there.
[[noreturn]] inline void fail(const std::string& sig, const std::string& msg) {
  throw Violation{sig, msg};
}
inline void defer(const std::string& sig, const std::string& msg) {
  if (g().dsig.empty()) {
    g().dsig = sig;
    g().dmsg = msg;
  }
}
inline void raise_deferred() {
  if (!g().dsig.empty()) {
    Violation v{g().dsig, g().dmsg};
    g().dsig.clear();
    throw v;
  }
}

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL;
  return mix(h, n);
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  return hash_bytes(s.data(), s.size(), h);
}
inline void state(uint64_t h) {
  if (g().states.size() < 3000000) g().states.insert(h);
  else if (g().sh) g().sh->capped = 1;
}

struct Scenario {
  std::string name;
  void (*fn)();
  bool leakcheck = true;
  std::string bound;  // human readable bounds
  int patience = 20;  // seconds after which an execution is taken to hang
};

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o;
}

// Runs one execution; returns true and fills v on a violation.
inline int run_one(const Scenario& sc, Violation& v) {
  G& s = g();
  s.pos = 0;
  s.dsig.clear();
  s.nondet = false;
  s.transitions = 0;
  vf_alloc_reset();
  long live0 = vf_live();
  int res = 0;
  try {
    sc.fn();
    raise_deferred();
  } catch (Violation& x) {
    v = x;
    res = 1;
  } catch (Prune&) {
    res = 2;
  } catch (std::exception& e) {
    v.sig = "exception";
    v.msg = std::string("unexpected C++ exception: ") + e.what();
    res = 1;
  }
  vf_alloc_reset();
  if (res != 1 && sc.leakcheck && vf_live() != live0) {
    v.sig = "leak";
    v.msg = fmt("%ld allocation(s) outstanding at the end of the execution", vf_live() - live0);
    res = 1;
  }
  return res;
}

inline double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

inline std::string path_str(const uint16_t* c, int n) {
  std::string o = "[";
  for (int i = 0; i < n; i++) o += (i ? "," : "") + std::to_string(c[i]);
  return o + "]";
}

struct Found {
  std::string scenario, sig, msg, kind;
  std::vector<uint16_t> path;
  bool reproduced = false;
  std::vector<std::string> notes;
};

struct Stats {
  std::string name, bound;
  uint64_t execs = 0, transitions = 0, pruned = 0, states = 0;
  bool exhaustive = true;
  bool states_capped = false;
  double wall = 0;
  std::vector<std::vector<std::string>> samples;
};

inline void worker_loop(const Scenario& sc, int id, int nworkers, double deadline, const std::string& dir,
                        bool resume) {
  G& s = g();
  Shared* sh = s.sh;
  WorkerShm* w = &sh->w[id];
  s.me = w;
  s.states.clear();
  std::map<std::string, int> seen;
  FILE* vf = fopen((dir + "/viol." + std::to_string(id)).c_str(), "a");
  uint64_t sample_at[kSamples] = {1, 20, 300, 4000, 50000};
  bool have = resume;
  for (;;) {
    if (!have) {
      // take a unit
      pthread_mutex_lock(&sh->mu);
      int q = sh->qsize.load();
      if (q > 0) {
        Unit& u = sh->q[q - 1];
        memcpy(w->choice, u.c, u.len * sizeof(uint16_t));
        memset(w->n, 0, u.len * sizeof(uint16_t));
        w->base = u.len;
        w->pathlen = u.len;
        sh->qsize = q - 1;
        sh->active++;
        w->active = 1;
        have = true;
      }
      int act = sh->active.load();
      pthread_mutex_unlock(&sh->mu);
      if (!have) {
        if (act == 0 || sh->stop) break;
        w->heartbeat++;
        usleep(300);
        continue;
      }
    }
    // explore the unit
    for (;;) {
      if (sh->stop) break;
      if ((w->execs & 15) == 0 && now() > deadline) {
        sh->stop = 1;
        break;
      }
      Violation v;
      w->depth = 0;
      w->in_exec = 1;
      int r = run_one(sc, v);
      w->in_exec = 0;
      w->heartbeat++;
      w->execs++;
      w->transitions += s.transitions;
      if (r == 2) w->pruned++;
      if (s.nondet) sh->nondet++;
      w->pathlen = s.pos;  // in case the path got shorter
      if (r == 1) {
        sh->nviol++;
        if (seen[v.sig]++ < 2) {
          fprintf(vf, "%s\t%s\t", jesc(v.sig).c_str(), jesc(v.msg).c_str());
          for (int i = 0; i < s.pos; i++) fprintf(vf, "%d ", w->choice[i]);
          fprintf(vf, "\n");
          fflush(vf);
        }
        if (sh->nviol > 20000) sh->stop = 2;
      }
      if (id == 0) {
        for (int k = 0; k < kSamples; k++)
          if (w->execs == sample_at[k] && !sh->samples[k].set) {
            sh->samples[k].len = s.pos;
            memcpy(sh->samples[k].c, w->choice, s.pos * sizeof(uint16_t));
            sh->samples[k].set = 1;
          }
      }
      // advance
      int base = w->base, len = w->pathlen;
      while (len > base && w->choice[len - 1] + 1 >= w->n[len - 1]) len--;
      if (len <= base) {
        w->pathlen = base;
        break;
      }
      w->choice[len - 1]++;
      w->pathlen = len;
      // donate
      if (sh->qsize.load(std::memory_order_relaxed) < nworkers) {
        int lev = -1;
        for (int i = base; i < len && i < kMaxUnit - 1; i++)
          if (w->choice[i] + 1 < w->n[i]) {
            lev = i;
            break;
          }
        if (lev >= 0 && lev < len) {
          pthread_mutex_lock(&sh->mu);
          int q = sh->qsize;
          while (q < kQueueCap && w->n[lev] > w->choice[lev] + 1) {
            Unit& u = sh->q[q++];
            u.len = lev + 1;
            memcpy(u.c, w->choice, lev * sizeof(uint16_t));
            u.c[lev] = w->n[lev] - 1;
            w->n[lev]--;
          }
          sh->qsize = q;
          pthread_mutex_unlock(&sh->mu);
          // n[lev] shrank: mark it as fixed so that the determinism check accepts it
          if (w->n[lev] == w->choice[lev] + 1) {
            // everything above lev is exhausted too: it becomes part of the prefix
            w->base = lev + 1;
            for (int i = 0; i <= lev; i++) w->n[i] = 0;
          }
        }
      }
    }
    pthread_mutex_lock(&sh->mu);
    sh->active--;
    w->active = 0;
    pthread_mutex_unlock(&sh->mu);
    have = false;
    if (sh->stop) break;
  }
  fclose(vf);
  FILE* sf = fopen((dir + "/states." + std::to_string(id)).c_str(), "ab");
  for (uint64_t h : s.states) fwrite(&h, 8, 1, sf);
  fclose(sf);
  _exit(0);
}

// Run a path in a fresh child; result: 0 ok, 1 violation, 2 prune, 3 crash, 4 hang
inline int replay_child(const Scenario& sc, const std::vector<uint16_t>& path, const std::string& dir,
                        std::string& sig, std::string& msg, std::vector<std::string>& notes, int cpu_s = 60) {
  std::string of = dir + "/replay.out", ef = dir + "/replay.err";
  unlink(of.c_str());
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    struct rlimit rl = {(rlim_t)cpu_s, (rlim_t)cpu_s};
    setrlimit(RLIMIT_CPU, &rl);
    G& s = g();
    s.replay = true;
    s.trace = true;
    s.rpath = path;
    s.notes.clear();
    Violation v;
    // notes are flushed even on a crash
    FILE* f = fopen(of.c_str(), "w");
    int r = run_one(sc, v);
    fprintf(f, "%d\n%s\n%s\n", r, jesc(v.sig).c_str(), jesc(v.msg).c_str());
    for (auto& n : s.notes) fprintf(f, "%s\n", jesc(n).c_str());
    fclose(f);
    _exit(0);
  }
  int st = 0;
  double t0 = now();
  bool killed = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > cpu_s * 2) {
      kill(pid, SIGKILL);
      killed = true;
      waitpid(pid, &st, 0);
      break;
    }
    usleep(500);
  }
  if (!killed && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    FILE* f = fopen(of.c_str(), "r");
    char* line = nullptr;
    size_t cap = 0;
    std::vector<std::string> ls;
    ssize_t k;
    while ((k = getline(&line, &cap, f)) >= 0) {
      if (k && line[k - 1] == '\n') line[k - 1] = 0;
      ls.push_back(line);
    }
    free(line);
    fclose(f);
    if (ls.size() < 3) return 3;
    sig = ls[1];
    msg = ls[2];
    notes.assign(ls.begin() + 3, ls.end());
    return atoi(ls[0].c_str());
  }
  if (killed || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) {
    sig = "hang";
    msg = "does not terminate within the time limit";
    return 4;
  }
  // crash: look at the sanitizer report
  std::string rep;
  FILE* f = fopen(ef.c_str(), "r");
  if (f) {
    char b[65536];
    size_t k = fread(b, 1, sizeof b - 1, f);
    b[k] = 0;
    rep = b;
    fclose(f);
  }
  std::string kind = WIFSIGNALED(st) ? fmt("signal %d", WTERMSIG(st)) : fmt("exit %d", WEXITSTATUS(st));
  std::string where;
  size_t p = rep.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) {
    size_t e = rep.find_first_of(" \n", p + 25);
    kind = rep.substr(p + 25, e - p - 25);
  } else if ((p = rep.find("runtime error: ")) != std::string::npos) {
    size_t e = rep.find('\n', p);
    kind = "ub";
    where = rep.substr(p + 15, e - p - 15);
  }
  if ((p = rep.find("WARNING: ThreadSanitizer: ")) != std::string::npos) {
    size_t e = rep.find_first_of("(\n", p + 26);
    kind = rep.substr(p + 26, e - p - 26);
    while (!kind.empty() && kind.back() == ' ') kind.pop_back();
    for (size_t x = rep.find("    #", p); x != std::string::npos; x = rep.find("    #", x + 1)) {
      size_t el = rep.find('\n', x), n = rep.find(' ', x + 5);
      std::string l = rep.substr(x, el - x);
      if (n < el && (l.find("/src/geoarrow/") != std::string::npos || l.find("/src/vendor/") != std::string::npos)) {
        where = rep.substr(n + 1, rep.find(' ', n + 1) - n - 1);
        break;
      }
    }
  }
  // first frame inside the library
  size_t q = 0;
  while ((q = rep.find(" in ", q)) != std::string::npos) {
    size_t e = rep.find('\n', q);
    std::string l = rep.substr(q + 4, e - q - 4);
    if (l.find("/src/geoarrow/") != std::string::npos || l.find("/src/vendor/") != std::string::npos) {
      where = l.substr(0, l.find(' ')) + (where.empty() ? "" : ": " + where);
      break;
    }
    q = e == std::string::npos ? rep.size() : e;
  }
  sig = "crash:" + kind + ":" + where.substr(0, 60);
  msg = "process died (" + kind + ") in " + (where.empty() ? "?" : where);
  notes.clear();
  size_t a = 0;
  for (int i = 0; i < 25 && a < rep.size(); i++) {
    size_t e = rep.find('\n', a);
    if (e == std::string::npos) e = rep.size();
    notes.push_back(jesc(rep.substr(a, e - a)));
    a = e + 1;
  }
  return 3;
}

inline void explore(const Scenario& sc, int nworkers, double deadline, const std::string& dir, Stats& st,
                    std::vector<Found>& found) {
  double t0 = now();
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pthread_mutexattr_t a;
  pthread_mutexattr_init(&a);
  pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
  pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST);
  pthread_mutex_init(&sh->mu, &a);
  g().sh = sh;
  sh->q[0].len = 0;
  sh->qsize = 1;
  for (int i = 0; i < nworkers; i++) {
    unlink((dir + "/viol." + std::to_string(i)).c_str());
    unlink((dir + "/states." + std::to_string(i)).c_str());
  }
  std::vector<pid_t> pids(nworkers);
  auto spawn = [&](int id, bool resume) {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      int fd = open((dir + "/worker.err").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
      dup2(fd, 2);
      worker_loop(sc, id, nworkers, deadline, dir, resume);
    }
    pids[id] = p;
  };
  for (int i = 0; i < nworkers; i++) spawn(i, false);
  std::vector<uint64_t> hb(nworkers, 0);
  std::vector<double> hbt(nworkers, now());
  int alive = nworkers;
  int crashes = 0;
  std::map<std::string, int> crash_seen;
  while (alive > 0) {
    int status;
    pid_t p = waitpid(-1, &status, WNOHANG);
    if (p <= 0) {
      double t = now();
      for (int i = 0; i < nworkers; i++) {
        if (pids[i] <= 0) continue;
        uint64_t h = sh->w[i].heartbeat;
        if (h != hb[i]) {
          hb[i] = h;
          hbt[i] = t;
        } else if (sh->w[i].in_exec && t - hbt[i] > sc.patience) {
          kill(pids[i], SIGKILL);
          hbt[i] = t;
        }
      }
      if (t > deadline + 30) {
        sh->stop = 1;
      }
      usleep(1000);
      continue;
    }
    int id = -1;
    for (int i = 0; i < nworkers; i++)
      if (pids[i] == p) id = i;
    if (id < 0) continue;
    pids[id] = 0;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
      alive--;
      continue;
    }
    // crashed
    WorkerShm* w = &sh->w[id];
    Found f;
    f.scenario = sc.name;
    int d = w->depth;
    f.path.assign(w->choice, w->choice + d);
    bool was_in = w->in_exec;
    crashes++;
    if (was_in) {
      std::string sig, msg;
      std::vector<std::string> notes;
      int r = replay_child(sc, f.path, dir, sig, msg, notes, sc.patience);
      f.sig = sig;
      f.msg = msg;
      f.notes = notes;
      f.kind = r == 4 ? "hang" : "crash";
      f.reproduced = (r == 3 || r == 4 || r == 1);
      if (!f.reproduced) {
        f.sig = "crash:unreproduced";
        f.msg = fmt("worker died (status %x) but the choice vector replays cleanly in a fresh process", status);
      }
      if (crash_seen[f.sig]++ < 2) found.push_back(f);
    } else {
      f.sig = "crash:outside";
      f.msg = fmt("worker died outside an execution (status %x)", status);
      if (crash_seen[f.sig]++ < 1) found.push_back(f);
    }
    w->in_exec = 0;
    w->execs++;
    if (crashes > 60 || (sh->stop)) {
      sh->stop = 2;
      if (w->active) {
        pthread_mutex_lock(&sh->mu);
        sh->active--;
        pthread_mutex_unlock(&sh->mu);
        w->active = 0;
      }
      alive--;
      continue;
    }
    // resume behind the crash
    int len = d, base = w->base;
    if (len < base) len = base;
    while (len > base && w->choice[len - 1] + 1 >= w->n[len - 1]) len--;
    bool more = len > base;
    if (more) {
      w->choice[len - 1]++;
      w->pathlen = len;
      spawn(id, true);
    } else {
      pthread_mutex_lock(&sh->mu);
      if (w->active) sh->active--;
      w->active = 0;
      pthread_mutex_unlock(&sh->mu);
      spawn(id, false);
    }
    hbt[id] = now();
  }
  st.name = sc.name;
  st.bound = sc.bound;
  for (int i = 0; i < nworkers; i++) {
    st.execs += sh->w[i].execs;
    st.transitions += sh->w[i].transitions;
    st.pruned += sh->w[i].pruned;
  }
  st.exhaustive = sh->stop == 0;
  st.states_capped = sh->capped;
  if (sh->nondet > 0) {
    fprintf(stderr, "explorer: %s: %lu executions were not deterministic\n", sc.name.c_str(),
            (unsigned long)sh->nondet.load());
  }
  std::unordered_set<uint64_t> all;
  for (int i = 0; i < nworkers; i++) {
    FILE* sf = fopen((dir + "/states." + std::to_string(i)).c_str(), "rb");
    if (!sf) continue;
    std::vector<uint64_t> buf(65536);
    size_t k;
    while ((k = fread(buf.data(), 8, buf.size(), sf)) > 0) all.insert(buf.begin(), buf.begin() + k);
    fclose(sf);
    unlink((dir + "/states." + std::to_string(i)).c_str());
  }
  st.states = all.size();
  // violations
  std::map<std::string, int> seen;
  for (int i = 0; i < nworkers; i++) {
    FILE* vf = fopen((dir + "/viol." + std::to_string(i)).c_str(), "r");
    if (!vf) continue;
    char* line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, vf) >= 0) {
      char* t1 = strchr(line, '\t');
      char* t2 = t1 ? strchr(t1 + 1, '\t') : nullptr;
      if (!t2) continue;
      Found f;
      f.scenario = sc.name;
      f.kind = "oracle";
      f.sig = std::string(line, t1 - line);
      f.msg = std::string(t1 + 1, t2 - t1 - 1);
      char* c = t2 + 1;
      for (;;) {
        char* e;
        long x = strtol(c, &e, 10);
        if (e == c) break;
        f.path.push_back((uint16_t)x);
        c = e;
      }
      if (seen[f.sig]++ >= 2) continue;
      std::string sig, msg;
      std::vector<std::string> notes;
      int r = replay_child(sc, f.path, dir, sig, msg, notes);
      f.reproduced = (r == 1 || r == 3 || r == 4);
      f.notes = notes;
      found.push_back(f);
    }
    free(line);
    fclose(vf);
  }
  // samples
  for (int k = 0; k < kSamples; k++) {
    if (!sh->samples[k].set) continue;
    if (st.samples.size() >= 3) break;
    std::vector<uint16_t> p(sh->samples[k].c, sh->samples[k].c + sh->samples[k].len);
    std::string sig, msg;
    std::vector<std::string> notes;
    int r = replay_child(sc, p, dir, sig, msg, notes);
    notes.insert(notes.begin(), "choices " + path_str(p.data(), (int)p.size()));
    notes.push_back(r == 0 ? "-> held" : r == 2 ? "-> pruned" : "-> " + sig);
    st.samples.push_back(notes);
  }
  st.wall = now() - t0;
  munmap(sh, sizeof(Shared));
  g().sh = nullptr;
}

inline int main_(int argc, char** argv, std::vector<Scenario> scs) {
  std::string out, dir = "/tmp", only, replay;
  int jobs = 8;
  double budget = 300;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") out = nx();
    else if (a == "--dir") dir = nx();
    else if (a == "--tier") g().thorough = nx() == "thorough";
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--only") only = nx();
    else if (a == "--replay") replay = nx();  // scenario:1,2,3
    else if (a == "--list") {
      for (auto& s : scs) printf("%s: %s\n", s.name.c_str(), s.bound.c_str());
      return 0;
    }
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (!replay.empty()) {
    size_t c = replay.find(':');
    std::string name = replay.substr(0, c);
    std::vector<uint16_t> p;
    const char* q = replay.c_str() + c + 1;
    while (c != std::string::npos && *q) {
      char* e;
      long x = strtol(q, &e, 10);
      if (e == q) break;
      p.push_back((uint16_t)x);
      q = e;
      while (*q == ',' || *q == ' ') q++;
    }
    for (auto& s : scs)
      if (s.name == name) {
        std::string sig, msg;
        std::vector<std::string> notes;
        int r = replay_child(s, p, dir, sig, msg, notes);
        for (auto& n : notes) printf("  %s\n", n.c_str());
        printf("replay %s: result=%d sig=%s msg=%s\n", name.c_str(), r, sig.c_str(), msg.c_str());
        return (r == 0 || r == 2) ? 0 : 1;
      }
    fprintf(stderr, "no such scenario %s\n", name.c_str());
    return 2;
  }
  double t0 = now();
  double deadline = t0 + budget;
  std::vector<Stats> stats;
  std::vector<Found> found;
  for (auto& s : scs) {
    if (!only.empty() && ("," + only + ",").find("," + s.name + ",") == std::string::npos) continue;
    Stats st;
    // scenarios that come later get at least a slice even if an earlier one overran
    double dl = std::max(deadline, now() + 2);
    explore(s, jobs, dl, dir, st, found);
    fprintf(stderr, "%-34s execs=%lu trans=%lu states=%lu pruned=%lu exhaustive=%d wall=%.1f\n", s.name.c_str(),
            (unsigned long)st.execs, (unsigned long)st.transitions, (unsigned long)st.states,
            (unsigned long)st.pruned, (int)st.exhaustive, st.wall);
    stats.push_back(st);
  }
  FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\"scenarios\":[");
  for (size_t i = 0; i < stats.size(); i++) {
    auto& s = stats[i];
    fprintf(f, "%s{\"name\":\"%s\",\"bound\":\"%s\",\"executions\":%lu,\"transitions\":%lu,\"states\":%lu,\"pruned\":%lu,"
               "\"exhaustive\":%s,\"states_capped\":%s,\"wall_s\":%.2f,\"samples\":[",
            i ? ",\n" : "", jesc(s.name).c_str(), jesc(s.bound).c_str(), (unsigned long)s.execs,
            (unsigned long)s.transitions, (unsigned long)s.states, (unsigned long)s.pruned,
            s.exhaustive ? "true" : "false", s.states_capped ? "true" : "false", s.wall);
    for (size_t k = 0; k < s.samples.size(); k++) {
      fprintf(f, "%s[", k ? "," : "");
      for (size_t m = 0; m < s.samples[k].size(); m++)
        fprintf(f, "%s\"%s\"", m ? "," : "", s.samples[k][m].find("\\u") != std::string::npos || m > 0
                                                 ? s.samples[k][m].c_str()
                                                 : jesc(s.samples[k][m]).c_str());
      fprintf(f, "]");
    }
    fprintf(f, "]}");
  }
  fprintf(f, "],\n\"violations\":[");
  for (size_t i = 0; i < found.size(); i++) {
    auto& v = found[i];
    fprintf(f, "%s{\"scenario\":\"%s\",\"kind\":\"%s\",\"sig\":\"%s\",\"msg\":\"%s\",\"reproduced\":%s,\"path\":%s,\"notes\":[",
            i ? ",\n" : "", jesc(v.scenario).c_str(), v.kind.c_str(), v.sig.c_str(), v.msg.c_str(),
            v.reproduced ? "true" : "false", path_str(v.path.data(), (int)v.path.size()).c_str());
    for (size_t m = 0; m < v.notes.size(); m++) fprintf(f, "%s\"%s\"", m ? "," : "", v.notes[m].c_str());
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
  return found.empty() ? 0 : 1;
}

}  // namespace vf
