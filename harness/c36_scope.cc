#include "maidsafe/common/make_unique.h"
#include "maidsafe/common/on_scope_exit.h"
#include <memory>
#include "vh.h"
using maidsafe::on_scope_exit;
namespace {
struct Boom { int id; };
// An action whose n-th copy throws, and which counts its runs and its living instances.
struct Shared { int runs = 0, copies = 0, alive = 0, throw_at = -1; std::vector<int> log; };
struct Action {
  std::shared_ptr<Shared> s; int tag;
  char pad[64];  // too big for any in-place storage
  Action(std::shared_ptr<Shared> s_in, int t) : s(std::move(s_in)), tag(t) { ++s->alive; }
  Action(const Action& o) : s(o.s), tag(o.tag) { if (s->copies++ == s->throw_at) throw Boom{7}; ++s->alive; }
  Action(Action&& o) : s(o.s), tag(o.tag) { if (s->copies++ == s->throw_at) throw Boom{7}; ++s->alive; }
  ~Action() { --s->alive; }
  void operator()() const { ++s->runs; s->log.push_back(tag); }
};
void FreeFn();
int g_free = 0;
void FreeFn() { ++g_free; }
}  // namespace

// random nests of guards against a model: which actions run, in which order, how often
VH_GROUP(nests, 3000, 100000) {
  auto& r = c.rng;
  auto s = std::make_shared<Shared>();
  std::vector<int> want;
  std::string trace;
  int next = 1;
  // returns actions that must run when this level is left, innermost first
  std::function<void(int)> level = [&](int depth) {
    int first = next++;
    int kind = r.Below(5);
    std::vector<int> mine;
    trace += "(" + std::to_string(kind);
    auto body = [&](on_scope_exit& g, int current) {
      int steps = r.Below(5);
      for (int i = 0; i < steps; ++i) {
        switch (r.Below(5)) {
          case 0: current = next++; g.SetAction(Action(s, current)); trace += "s"; break;
          case 1: g.Release(); current = 0; trace += "r"; break;
          case 2: if (depth < 4) level(depth + 1); break;
          case 3: g.SetAction(on_scope_exit::ExitAction()); current = 0; trace += "0"; break;
          case 4: g.SetAction(); current = 0; trace += "d"; break;
        }
      }
      bool thrown = r.OneIn(4);
      VH_CHECK(s->log == want, "action-before-scope-end", trace);
      if (current) want.push_back(current);
      if (thrown) { trace += "!"; throw Boom{1}; }
    };
    try {
      if (kind == 0) { on_scope_exit g(Action(s, first)); body(g, first); }
      else if (kind == 1) { on_scope_exit g{on_scope_exit::ExitAction(Action(s, first))}; body(g, first); }
      else if (kind == 2) { on_scope_exit g{on_scope_exit::ExitAction()}; body(g, 0); }
      else if (kind == 3) { on_scope_exit g([s, first] { ++s->runs; s->log.push_back(first); }); body(g, first); }
      else { on_scope_exit::ExitAction f = Action(s, first); on_scope_exit g(f); f = nullptr; body(g, first); }
    } catch (const Boom&) {}
    trace += ")";
    VH_CHECK(s->log == want, "actions-run", trace << " ran " << s->log.size() << " want " << want.size());
  };
  level(0);
  VH_CHECK(s->alive == 0, "action-object-leaked", s->alive << " " << trace);
  vh::Observed(vh::HashStr(trace)); vh::Add("actions_run", s->runs);
  vh::Sample(trace);
}
// setting up the guard fails at the n-th copy of the action: the clean-up runs exactly once
VH_GROUP(failing_setup, 60, 600) {
  int at = c.index % 10;
  auto s = std::make_shared<Shared>();
  s->throw_at = at;
  bool threw = false, entered = false;
  {
    Action a(s, 3);
    try { on_scope_exit g(a); entered = true; }
    catch (const Boom& b) { threw = b.id == 7; }
  }
  // a copy made to pass the argument itself belongs to the caller, before the guard exists
  if (entered) VH_CHECK(s->runs == 1 && !threw, "runs-after-setup", s->runs << " copy " << at);
  else VH_CHECK(threw && (s->runs == 1 || (at == 0 && s->runs == 0)), "runs-after-failed-setup", s->runs << " copy " << at);
  VH_CHECK(s->alive == 0, "action-object-leaked", s->alive);
  if (!entered && s->runs == 1) vh::Add("failed_setups");
  vh::Observed(vh::Mix(at * 4 + entered * 2 + s->runs));
  // a plain function and a bound member
  g_free = 0;
  { on_scope_exit g(&FreeFn); }
  VH_CHECK(g_free == 1, "free-function", g_free);
  { on_scope_exit g(&FreeFn); g.Release(); }
  VH_CHECK(g_free == 1, "released-free-function", g_free);
}
VH_GROUP(revert, 800, 30000) {
  auto& r = c.rng;
  std::string s0 = r.Bytes(r.Size(100)), s = s0; int64_t i0 = r.Next(), i = i0; std::vector<int> v0(r.Below(9), (int)r.Next()), v = v0;
  bool released = r.OneIn(4), thrown = r.OneIn(3);
  try {
    on_scope_exit gs(on_scope_exit::RevertValue(s)), gi(on_scope_exit::RevertValue(i)), gv(on_scope_exit::RevertValue(v));
    s = r.Bytes(r.Size(100)); i = r.Next(); v.push_back(1);
    s0 = released ? s : s0;
    if (released) gs.Release();
    if (thrown) throw Boom{2};
  } catch (const Boom&) {}
  VH_CHECK(s == s0 && i == i0 && v == v0, "value-not-reverted", released << thrown);
  // the value restored is the one at the time the action was made, not when the guard was
  int x = 1; { auto act = on_scope_exit::RevertValue(x); x = 2; on_scope_exit g(act); x = 3; } VH_CHECK(x == 1, "value-not-reverted", x);
  x = 5; { on_scope_exit g{on_scope_exit::ExitAction()}; g.SetAction(on_scope_exit::RevertValue(x)); x = 6; } VH_CHECK(x == 5, "value-not-reverted", x);
  on_scope_exit::SetValue(x, 9); VH_CHECK(x == 9, "set-value", x);
  vh::Observed(r.Next());
}
// ---------------------------------------------------------------- make_unique
namespace {
int g_live = 0, g_made = 0, g_throw_at = -1;
struct Tracked {
  std::string how; int v;
  Tracked() : how("default"), v(0) { Count(); }
  Tracked(int& x) : how("lvalue"), v(x) { x = -1; Count(); }
  Tracked(const int& x) : how("const"), v(x) { Count(); }
  Tracked(int&& x) : how("rvalue"), v(x) { Count(); }
  Tracked(std::unique_ptr<int> p, std::string&& s, const std::string& t) : how(s + t), v(*p) { Count(); }
  Tracked(std::initializer_list<int> l) : how("list"), v(l.size()) { Count(); }
  Tracked(int a, int b) : how("two"), v(a * 1000 + b) { Count(); }
  void Count() { if (g_made++ == g_throw_at) throw Boom{9}; ++g_live; }
  ~Tracked() { --g_live; }
};
struct Pod { int a; char b; double d; void* p; };
template <typename T> bool AllZero(const T* p, size_t n) { const char* b = reinterpret_cast<const char*>(p); for (size_t i = 0; i < n * sizeof(T); ++i) if (b[i]) return false; return true; }
template <typename T> void Dirty(size_t n) { std::vector<void*> v; for (int i = 0; i < 4; ++i) { void* p = operator new(n * sizeof(T) + 1); memset(p, 0xa5, n * sizeof(T) + 1); v.push_back(p); } for (void* p : v) operator delete(p); }
template <typename T> auto CanMakeBounded(int) -> decltype(maidsafe::make_unique<T>(), true) { return true; }
template <typename T> bool CanMakeBounded(...) { return false; }
}  // namespace
VH_GROUP(make_unique, 500, 20000) {
  auto& r = c.rng;
  g_live = g_made = 0; g_throw_at = -1;
  int x = (int)r.Below(1000), keep = x; const int y = (int)r.Below(1000);
  { auto p = maidsafe::make_unique<Tracked>(x); VH_CHECK(p->how == "lvalue" && p->v == keep && x == -1, "forward-lvalue", p->how);
    auto q = maidsafe::make_unique<Tracked>(y); VH_CHECK(q->how == "const" && q->v == y, "forward-const", q->how);
    auto s = maidsafe::make_unique<Tracked>(int(y)); VH_CHECK(s->how == "rvalue" && s->v == y, "forward-rvalue", s->how);
    auto t = maidsafe::make_unique<Tracked>(std::unique_ptr<int>(new int(4)), std::string("a"), std::string("b")); VH_CHECK(t->how == "ab" && t->v == 4, "forward-mixed", t->how);
    auto u = maidsafe::make_unique<Tracked>(3, 4); VH_CHECK(u->how == "two" && u->v == 3004, "forward-order", u->how << u->v);
    auto d = maidsafe::make_unique<Tracked>(); VH_CHECK(d->how == "default", "forward-none", d->how);
    VH_CHECK(g_live == 6, "instances", g_live); }
  VH_CHECK(g_live == 0, "instances-left", g_live);
  std::unique_ptr<int> moved(new int(5)); auto mp = maidsafe::make_unique<std::unique_ptr<int>>(std::move(moved)); VH_CHECK(!moved && **mp == 5, "forward-move-only", "");
  // scalars and arrays are value-initialised even in memory used before
  size_t n = r.Size(300);
  Dirty<int>(1); VH_CHECK(*maidsafe::make_unique<int>() == 0, "scalar-not-zeroed", "");
  Dirty<Pod>(1); { auto p = maidsafe::make_unique<Pod>(); VH_CHECK(p->a == 0 && p->b == 0 && p->d == 0 && p->p == nullptr, "pod-not-zeroed", ""); }
  Dirty<int>(n); { auto a = maidsafe::make_unique<int[]>(n); VH_CHECK(AllZero(a.get(), n), "array-not-zeroed", n); for (size_t i = 0; i < n; ++i) a[i] = (int)i; }
  Dirty<char>(n); { auto a = maidsafe::make_unique<char[]>(n); VH_CHECK(AllZero(a.get(), n), "array-not-zeroed", n); if (n) a[n - 1] = 1; }
  Dirty<Pod>(n); { auto a = maidsafe::make_unique<Pod[]>(n); bool z = true; for (size_t i = 0; i < n; ++i) z = z && !a[i].a && !a[i].b && a[i].d == 0 && !a[i].p; VH_CHECK(z, "array-not-zeroed", n); }
  { g_made = 0; auto a = maidsafe::make_unique<Tracked[]>(n); VH_CHECK(g_live == (int)n && g_made == (int)n, "array-elements", g_made << " want " << n); for (size_t i = 0; i < n; ++i) VH_CHECK(a[i].how == "default", "array-element-constructor", a[i].how); }
  VH_CHECK(g_live == 0, "instances-left", g_live);
  // a constructor that throws leaves nothing behind
  g_made = 0; g_throw_at = 0; bool thrown = false;
  try { maidsafe::make_unique<Tracked>(1, 2); } catch (const Boom& b) { thrown = b.id == 9; }
  VH_CHECK(thrown && g_live == 0, "throwing-constructor", g_live);
  if (n) { g_made = 0; g_throw_at = (int)r.Below(n); thrown = false; try { maidsafe::make_unique<Tracked[]>(n); } catch (const Boom&) { thrown = true; } VH_CHECK(thrown && g_live == 0, "throwing-array-constructor", g_live << " of " << n); }
  g_throw_at = -1;
  vh::Observed(vh::Mix(n)); vh::Add("made", g_made);
}
