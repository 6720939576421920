// Shared by the harnesses: assertion hook, call log, small helpers.
#pragma once
#include "sx.h"
#include <boost/signals2.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/weak_ptr.hpp>
#include <boost/make_shared.hpp>
#include <boost/optional.hpp>
namespace boost {
void assertion_failed(char const *e, char const *, char const *, long) { sx_fail(e); }
void assertion_failed_msg(char const *e, char const *, char const *, char const *, long) { sx_fail(e); }
}
namespace bs2 = boost::signals2;
struct CallLog { int n; int id[96]; long arg[96]; void clear() { n = 0; } void add(int i, long a) { if (n < 96) { id[n] = i; arg[n] = a; } n++; } };
static CallLog g_log;
static int g_live[128];                       // live Fn copies per id
static void (*g_hook)(int id, int x);         // what slots do besides recording the call
// the standard recording slot
struct Fn {
  int id;
#ifdef SX_LIVE_FN                              // count copies, and check the locks whenever one is destroyed
  explicit Fn(int i) : id(i) { g_live[id]++; }
  Fn(const Fn &o) : id(o.id) { g_live[id]++; }
  ~Fn() { g_live[id]--; fnDestroyed(id); id = -1; }
  static void fnDestroyed(int id);
#else
  explicit Fn(int i) : id(i) {}
#endif
  void operator()(int x) const { int i = id; g_log.add(i, x); if (g_hook) { g_hook(i, x); CHECK(id == i, "a slot function was destroyed while running"); } }
  bool operator==(const Fn &o) const { return id == o.id; }
};
inline int pick(const char *n, int k) { return (int)sx_concrete(sx_int(n, 0, k - 1)); }   // symbolic choice among k
