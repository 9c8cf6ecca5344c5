// C16: pairs of activities on two threads under the race detector.
#include <pthread.h>
#include <atomic>
#include "actors.h"
using namespace actors;

static Shared* g_shared;
static std::vector<std::string> g_solo[NKIND][3];
static void prepare() {
  static bool ready = false;
  if (ready) return;
  g_shared = new Shared();
  for (int k = 0; k < NKIND; k++)
    for (int i = 0; i < 3; i++) {
      Actor a(k, i, g_shared);
      a.run();
      if (!a.problem.empty()) fail("alone", std::string(kKind[k]) + " alone: " + a.problem);
      g_solo[k][i] = a.out;
    }
  ready = true;
}
struct Job {
  Actor* a;
  std::atomic<int>* turn;
  int first;  // waits for this value (relaxed: orders execution, not memory)
};
static void* body(void* p) {
  Job* j = (Job*)p;
  while (j->turn->load(std::memory_order_relaxed) < j->first) sched_yield();
  j->a->run();
  j->turn->fetch_add(1, std::memory_order_relaxed);
  return nullptr;
}
static void threads(std::initializer_list<int> kinds) {
  prepare();
  int n = (int)kinds.size();
  std::vector<std::unique_ptr<Actor>> as;
  for (int k : kinds) as.emplace_back(new Actor(k, (int)as.size(), g_shared));
  // order: one after the other (either way) without any synchronisation, or at once
  int order = choose(n == 2 ? 3 : 2);
  std::atomic<int> turn{0};
  std::vector<Job> jobs(n);
  std::vector<pthread_t> th(n);
  for (int i = 0; i < n; i++) jobs[i] = {as[i].get(), &turn, n == 2 && order == 1 ? n - 1 - i : order == (n == 2 ? 2 : 1) ? 0 : i};
  for (int i = 0; i < n; i++)
    if (pthread_create(&th[i], nullptr, body, &jobs[i])) fail("thread", "no thread");
  for (int i = 0; i < n; i++) pthread_join(th[i], nullptr);
  for (int i = 0; i < n; i++) {
    Actor& a = *as[i];
    std::string who = std::string(kKind[a.kind]) + " on a thread next to others";
    if (!a.problem.empty()) fail("influence", who + ": " + a.problem);
    if (a.out != g_solo[a.kind][i]) fail("influence", who + " gives another result");
    vf::state(vf::hash_str(who, order));
  }
}
static void pairs() {
  int a = choose(NKIND), b = choose(NKIND);
  note("%s and %s", kKind[a], kKind[b]);
  threads({a, b});
}
static void triples() {
  int a = choose(NKIND), b = choose(NKIND), c = choose(NKIND);
  vf::assume(a <= b && b <= c);
  threads({a, b, c});
}

int main(int argc, char** argv) {
  return vf::main_(argc, argv, {{"thread_pairs", pairs, false, "all ordered pairs of 27 activities on two threads, in both orders and at once, under happens-before race detection"},
                                {"thread_triples", triples, false, "all triples of activities on three threads"}});
}
