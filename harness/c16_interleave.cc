// C16: interleavings of operations on distinct objects, on one thread (event
// granularity) and as threads would (at every access to static memory, cov variant).
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sys/mman.h>
#include "actors.h"
using namespace actors;

// ---------------------------------------------------------------- fibers
static const size_t kStack = 512 << 10;
// Saves the callee-saved registers and changes the stack (swapcontext costs two system
// calls and a sanitizer sweep each time).
extern "C" void vf_switch(void** from, void* to);
asm(R"(
.text
.globl vf_switch
.type vf_switch,@function
vf_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
struct Fiber {
  void* sp = nullptr;
  char* stack = nullptr;
  Actor* actor = nullptr;
  bool done = true;
  void* fake = nullptr;
};
static const int kMaxFibers = 3;
static Fiber g_fib[kMaxFibers];
static int g_cur = -1;  // the running fiber
static void* g_main;
static const void* g_main_stack;
static size_t g_main_size;
static long g_switches;

static void to_main() {
  Fiber& f = g_fib[g_cur];
  __sanitizer_start_switch_fiber(&f.fake, g_main_stack, g_main_size);
  vf_switch(&f.sp, g_main);
  __sanitizer_finish_switch_fiber(f.fake, &g_main_stack, &g_main_size);
}
static void entry() {
  __sanitizer_finish_switch_fiber(nullptr, &g_main_stack, &g_main_size);
  for (;;) {
    Fiber& f = g_fib[g_cur];
    f.actor->run();
    f.done = true;
    to_main();
  }
}
static void resume(int i) {
  Fiber& f = g_fib[i];
  if (!f.stack) {
    f.stack = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    void** top = (void**)(f.stack + kStack - 64);
    *--top = nullptr;  // entry's return address, never used
    *--top = (void*)entry;
    for (int k = 0; k < 6; k++) *--top = nullptr;
    f.sp = top;
  }
  g_cur = i;
  g_switches++;
  void* fake;
  __sanitizer_start_switch_fiber(&fake, f.stack, kStack);
  vf_switch(&g_main, f.sp);
  __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
  g_cur = -1;
}

// ------------------------------------------------- accesses to static memory
enum Mode { EVENTS, ACCESSES };
static Mode g_mode;
static bool g_record, g_sched;
static int g_accesses;
static std::set<uintptr_t>* g_written;  // granules of static memory that the library wrote
extern "C" char __data_start, _end;
static inline bool is_static(uintptr_t a) { return a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end; }
static void access_(uintptr_t a, size_t n, bool store) {
  if (!is_static(a)) return;
  if (g_record) {
    if (store)
      for (uintptr_t x = a / 8; x <= (a + n - 1) / 8; x++) g_written->insert(x);
    return;
  }
  if (!g_sched || g_cur < 0 || g_written->empty()) return;
  for (uintptr_t x = a / 8; x <= (a + n - 1) / 8; x++)
    if (g_written->count(x)) {
      if (++g_accesses <= 200) to_main();
      return;
    }
}
extern "C" {
#define VF_HOOK(k)                                                                   \
  void __sanitizer_cov_load##k(void* a) { access_((uintptr_t)a, k, false); } \
  void __sanitizer_cov_store##k(void* a) { access_((uintptr_t)a, k, true); }
VF_HOOK(1)
VF_HOOK(2)
VF_HOOK(4)
VF_HOOK(8)
VF_HOOK(16)
void* vf_memcpy(void* d, const void* s, size_t n) {
  if (n) access_((uintptr_t)s, n, false), access_((uintptr_t)d, n, true);
  return memcpy(d, s, n);
}
void* vf_memmove(void* d, const void* s, size_t n) {
  if (n) access_((uintptr_t)s, n, false), access_((uintptr_t)d, n, true);
  return memmove(d, s, n);
}
void* vf_memset(void* d, int c, size_t n) {
  if (n) access_((uintptr_t)d, n, true);
  return memset(d, c, n);
}
int vf_vsnprintf(char* d, size_t n, const char* f, va_list a) {
  if (n) access_((uintptr_t)d, n, true);
  return vsnprintf(d, n, f, a);
}
int vf_snprintf(char* d, size_t n, const char* f, ...) {
  va_list a;
  va_start(a, f);
  int r = vf_vsnprintf(d, n, f, a);
  va_end(a);
  return r;
}
}

// ------------------------------------------------------------- solo results
static Shared* g_shared;
static std::vector<std::string> g_solo[NKIND][kMaxFibers];
static int g_yields[NKIND][kMaxFibers];

static std::string join(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += x + "\n";
  return s;
}
static void prepare() {
  static bool ready = false;
  if (!g_shared) g_shared = new Shared();
  if (ready) return;
  g_written = new std::set<uintptr_t>();
  g_record = true;
  for (int k = 0; k < NKIND; k++)
    for (int i = 0; i < kMaxFibers; i++) {
      Actor a(k, i, g_shared);
      int n = 0;
      a.on_yield = [&] { n++; };
      a.run();
      if (!a.problem.empty()) fail("alone", std::string(kKind[k]) + " alone: " + a.problem);
      g_solo[k][i] = a.out;
      g_yields[k][i] = n;
    }
  g_record = false;
  // once more, backwards: what ran before does not matter
  for (int k = NKIND - 1; k >= 0; k--)
    for (int i = kMaxFibers - 1; i >= 0; i--) {
      Actor a(k, i, g_shared);
      a.run();
      if (a.out != g_solo[k][i] || !a.problem.empty())
        fail("history", std::string(kKind[k]) + " gives another result the second time: " + a.problem + "\n" + join(a.out) + "instead of\n" + join(g_solo[k][i]));
    }
  ready = true;
}

// ----------------------------------------------------------------- scheduler
// Runs the actors; at each yield of a running actor at most `bound` times in total
// another actor is chosen.
static void schedule(std::vector<std::unique_ptr<Actor>>& as, int bound) {
  int n = (int)as.size();
  for (int i = 0; i < n; i++) {
    g_fib[i].actor = as[i].get();
    g_fib[i].done = false;
    if (g_mode == EVENTS) as[i]->on_yield = [] { to_main(); };
  }
  g_sched = g_mode == ACCESSES;
  g_accesses = 0;
  int cur = choose(n), left = bound;
  std::string trace;
  for (;;) {
    trace += (char)('0' + cur);
    resume(cur);
    op();
    std::vector<int> en;
    if (!g_fib[cur].done) en.push_back(cur);
    if (g_fib[cur].done || left > 0)
      for (int i = 0; i < n; i++)
        if (i != cur && !g_fib[i].done) en.push_back(i);
    if (en.empty()) break;
    int nx = en[choose((int)en.size())];
    if (nx != cur && !g_fib[cur].done) left--;
    cur = nx;
  }
  g_sched = false;
  note("schedule %s", trace.c_str());
  for (int i = 0; i < n; i++) {
    Actor& a = *as[i];
    std::string who = std::string(kKind[a.kind]) + fmt(" (%d)", a.id), others;
    for (int j = 0; j < n; j++)
      if (j != i) others += std::string(" ") + kKind[as[j]->kind];
    if (!a.problem.empty()) fail("influence", who + " next to" + others + ": " + a.problem);
    if (a.out != g_solo[a.kind][i]) {
      size_t d = 0;
      while (d < a.out.size() && d < g_solo[a.kind][i].size() && a.out[d] == g_solo[a.kind][i][d]) d++;
      fail("influence", who + " next to" + others + " gives " + (d < a.out.size() ? a.out[d] : "nothing") + " instead of " +
                            (d < g_solo[a.kind][i].size() ? g_solo[a.kind][i][d] : "nothing"));
    }
    vf::state(vf::mix(vf::hash_str(who + others), vf::hash_str(trace)));
  }
}

static void make(std::vector<std::unique_ptr<Actor>>& as, std::initializer_list<int> kinds) {
  for (int k : kinds) {
    as.emplace_back(new Actor(k, (int)as.size(), g_shared));
    note("actor %zu: %s", as.size() - 1, kKind[k]);
  }
}

static void pairs() {
  g_mode = EVENTS;
  int a = choose(NKIND), b = choose(NKIND);
  prepare();
  std::vector<std::unique_ptr<Actor>> as;
  make(as, {a, b});
  schedule(as, vf::thorough() ? 3 : 2);
}
// two objects of one kind, and deeper
static void twins() {
  g_mode = EVENTS;
  int a = choose(NKIND);
  prepare();
  std::vector<std::unique_ptr<Actor>> as;
  make(as, {a, a});
  schedule(as, vf::thorough() ? 4 : 3);
}
static void triples() {
  g_mode = EVENTS;
  static const int kFew[] = {WKB_VISIT, WKT_WRITE, NAT_SEPARATED, COPY, READ_NATIVE, K_CAST, METADATA, NUMBERS, ERRORS};
  int a = choose(vf::thorough() ? NKIND : 9), b = choose(vf::thorough() ? NKIND : 9), c = choose(vf::thorough() ? NKIND : 9);
  vf::assume(a <= b && b <= c);
  prepare();
  std::vector<std::unique_ptr<Actor>> as;
  if (vf::thorough()) make(as, {a, b, c});
  else make(as, {kFew[a], kFew[b], kFew[c]});
  schedule(as, vf::thorough() ? 2 : 1);
}
// as threads: preemption in front of every access to static memory that is written
static void accesses() {
  g_mode = ACCESSES;
  int a = choose(NKIND), b = choose(NKIND);
  prepare();
  note("%zu granules of static memory are written", g_written->size());
  std::vector<std::unique_ptr<Actor>> as;
  make(as, {a, b});
  schedule(as, vf::thorough() ? 3 : 2);
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv,
                   {{"pairs", pairs, false, "all ordered pairs of 27 activities, all interleavings at event granularity up to 2 (3) preemptions"},
                    {"twins", twins, false, "two objects of the same kind, up to 3 (4) preemptions"},
                    {"triples", triples, false, "three activities (9 kinds; thorough: all), up to 1 (2) preemptions"},
                    {"accesses", accesses, false, "all ordered pairs, preempted in front of any (of the first 200) access to written static memory, up to 2 (3) preemptions"}});
}
