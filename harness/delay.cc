// Schedule perturbation: the calls below are linked with -Wl,--wrap, so that every lock, unlock,
// wait and notification made by the code under test may be preceded or followed by a random pause.
// Waits on condition variables may also end without a notification, as the standard allows.
// A pause only lengthens what the scheduler could do by itself, so it adds no impossible schedule.
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <mutex>
#include "vh.h"

namespace {
std::atomic<uint64_t> g_seed(0), g_points(0), g_thread(0), g_epoch(0);
std::atomic<unsigned> g_one_in(0), g_max_us(0);
thread_local uint64_t t_state = 0, t_epoch = ~0ULL;
void Pause() {
  unsigned one_in = g_one_in.load(std::memory_order_relaxed);
  if (!one_in) return;
  uint64_t e = g_epoch.load(std::memory_order_relaxed);
  if (t_epoch != e) {
    t_epoch = e;
    t_state = vh::Mix(g_seed.load(std::memory_order_relaxed) + 7919 * g_thread.fetch_add(1, std::memory_order_relaxed));
  }
  t_state = vh::Mix(t_state);
  if (t_state % one_in) return;
  g_points.fetch_add(1, std::memory_order_relaxed);
  uint64_t r = vh::Mix(t_state ^ 0x5bd1e995);
  if (r & 1) sched_yield();
  else usleep(static_cast<useconds_t>((r >> 8) % (g_max_us.load(std::memory_order_relaxed) + 1)));
}
bool Spurious() {
  if (!g_one_in.load(std::memory_order_relaxed)) return false;
  t_state = vh::Mix(t_state);
  return t_state % 8 == 0;
}
}  // namespace

namespace vh {
void SetDelays(uint64_t seed, unsigned one_in, unsigned max_us) {
  g_seed = seed;
  g_max_us = max_us;
  g_thread = 0;
  ++g_epoch;
  g_one_in = one_in;
}
uint64_t DelayPoints() { return g_points; }
}  // namespace vh

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  Pause();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  Pause();
  return r;
}
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable*);
void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable*);
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable*, std::unique_lock<std::mutex>*);
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable* c) {
  Pause();
  __real__ZNSt18condition_variable10notify_oneEv(c);
}
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable* c) {
  Pause();
  __real__ZNSt18condition_variable10notify_allEv(c);
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* c, std::unique_lock<std::mutex>* l) {
  Pause();
  if (Spurious()) {  // the standard lets any wait end without a notification
    l->unlock();
    Pause();
    l->lock();
    return;
  }
  __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
}
}
