// C28: the database wrapper.
#include <dlfcn.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <fstream>
#include <map>
#include <thread>
extern "C" {
#include <sqlite3.h>
}
#include "boost/filesystem.hpp"
#include "maidsafe/common/sqlite3_wrapper.h"
#include "vh.h"
#include "vh_ms.h"
using namespace maidsafe;          // NOLINT
using namespace maidsafe::sqlite;  // NOLINT
namespace fs = boost::filesystem;
namespace {
using Map = std::map<std::string, std::string>;
thread_local bool t_no_waiting = false;  // sleeps of this thread end at once
std::atomic<long> g_sleeps{0};
std::atomic<long> g_die_after{-1};  // the process dies at that file system call
void Tick() {
  if (g_die_after >= 0 && g_die_after.fetch_sub(1) == 0) kill(getpid(), SIGKILL);
}
fs::path NewDir() {
  static int n = 0;
  fs::path p = fs::path(vh::Scratch()) / ("db" + std::to_string(getpid()) + "_" + std::to_string(n++));
  fs::create_directories(p);
  return p;
}
// An independent view: the plain C interface.
struct Viewer {
  sqlite3* db = nullptr;
  explicit Viewer(const fs::path& p) {
    if (sqlite3_open_v2(p.c_str(), &db, SQLITE_OPEN_READWRITE, nullptr) != SQLITE_OK) vh::HarnessError("viewer cannot open");
    sqlite3_busy_timeout(db, 20000);
  }
  ~Viewer() { sqlite3_close(db); }
  Map Table(const char* sql = "SELECT k, v FROM t") {
    Map m;
    sqlite3_stmt* s = nullptr;
    if (sqlite3_prepare_v2(db, sql, -1, &s, nullptr) != SQLITE_OK) return Map{{"error", sqlite3_errmsg(db)}};
    int rc;
    while ((rc = sqlite3_step(s)) == SQLITE_ROW) {
      auto col = [&](int i) { auto p = static_cast<const char*>(sqlite3_column_blob(s, i)); return std::string(p ? p : "", static_cast<size_t>(sqlite3_column_bytes(s, i))); };
      m[col(0)] = col(1);
    }
    if (rc != SQLITE_DONE) m["error"] = sqlite3_errmsg(db);
    sqlite3_finalize(s);
    return m;
  }
};
void Run(Database& db, const std::string& sql) {
  Statement s(db, sql);
  VH_CHECK(s.Step() == StepResult::kSqliteDone, "step-result", sql);
}
std::string Text(vh::Rng& r) {
  switch (r.Below(6)) {
    case 0: return "";
    case 1: { auto s = r.Bytes(1 + r.Below(40)); for (auto& ch : s) ch = static_cast<char>('a' + (static_cast<unsigned char>(ch) % 26)); return s; }
    case 2: return "it's \"quoted\"; DROP TABLE t; --";
    case 3: return std::string("a\0b", 3) + r.Bytes(r.Below(5));
    case 4: { std::string s; for (size_t n = r.Below(20); n--;) s += "\xc3\xa9\xe2\x82\xac"; return s; }
    default: {
      std::string s(r.OneIn(10) ? 1 + r.Below(300000) : 1 + r.Below(5000), static_cast<char>('A' + r.Below(26)));
      // long text may hold any bytes as well
      if (r.Coin()) for (size_t n = 1 + r.Below(4); n--;) s[r.Below(s.size())] = static_cast<char>(r.Coin() ? 0 : r.Below(256));
      return s;
    }
  }
}
SerialisedData Blob(vh::Rng& r) {
  if (r.OneIn(6)) return {};
  if (r.OneIn(20)) return r.ByteVec(1 + r.Below(400000));
  return r.ByteVec(1 + r.Below(2000));
}
std::string Str(const SerialisedData& d) { return std::string(d.begin(), d.end()); }
}  // namespace
#define DIE_AT(ret, name, params, args)                                              \
  extern "C" ret name params {                                                       \
    static auto real = reinterpret_cast<ret(*) params>(dlsym(RTLD_NEXT, #name));     \
    Tick();                                                                          \
    return real args;                                                                \
  }
#define SLEEP(ret, name, params, args)                                             \
  extern "C" ret name params {                                                     \
    static auto real = reinterpret_cast<ret(*) params>(dlsym(RTLD_NEXT, #name));   \
    if (t_no_waiting) { ++g_sleeps; return 0; }                                    \
    return real args;                                                              \
  }
SLEEP(int, nanosleep, (const struct timespec* a, struct timespec* b), (a, b))
SLEEP(int, clock_nanosleep, (clockid_t c, int f, const struct timespec* a, struct timespec* b), (c, f, a, b))
SLEEP(int, usleep, (useconds_t u), (u))
DIE_AT(ssize_t, pwrite64, (int f, const void* b, size_t n, off64_t o), (f, b, n, o))
DIE_AT(int, ftruncate64, (int f, off64_t o) noexcept, (f, o))
DIE_AT(int, unlink, (const char* p) noexcept, (p))
DIE_AT(int, fdatasync, (int f), (f))
DIE_AT(int, fsync, (int f), (f))

// What is bound comes back, however the statements are reused.
VH_GROUP(values, 150, 4000) {
  auto& r = c.rng;
  fs::path file = NewDir() / "v.db";
  std::map<std::string, std::pair<std::string, std::string>> model;
  {
    Database db(file, Mode::kReadWriteCreate);
    Run(db, "CREATE TABLE t (k TEXT PRIMARY KEY NOT NULL, v BLOB NOT NULL, w TEXT NOT NULL)");
    Statement put(db, "INSERT OR REPLACE INTO t (k, v, w) VALUES (?, ?, ?)");
    Statement get(db, "SELECT v, w, k FROM t WHERE k = ?");
    Statement del(db, "DELETE FROM t WHERE k = ?");
    std::vector<std::string> keys;
    for (int i = 0; i < 4; ++i) keys.push_back(Text(r));
    for (int n = 4 + static_cast<int>(r.Below(20)); n--;) {
      std::string k = r.Pick(keys);
      switch (r.Below(4)) {
        case 0: case 1: {
          auto b = Blob(r);
          auto t = Text(r);
          put.BindText(1, k);
          {
            auto copy = b;  // the bound value belongs to the statement
            auto text = t;
            put.BindBlob(2, copy);
            put.BindText(3, text);
            for (auto& x : copy) x = static_cast<unsigned char>(~x);
            for (auto& x : text) x = '!';
          }
          auto o = vh::Outcome([&] { VH_CHECK(put.Step() == StepResult::kSqliteDone, "step-result", "insert"); });
          VH_CHECK(o.empty(), "insert-refused", "blob of " << b.size() << ", text of " << t.size() << ": " << o);
          put.Reset();
          model[k] = {Str(b), t};
          if (b.empty()) vh::Add("empty_blobs");
          vh::Add("written");
          break;
        }
        case 2:
          del.BindText(1, k);
          VH_CHECK(del.Step() == StepResult::kSqliteDone, "step-result", "delete");
          del.Reset();
          model.erase(k);
          break;
        default: {
          get.BindText(1, k);
          auto s = get.Step();
          VH_CHECK((s == StepResult::kSqliteRow) == (model.count(k) > 0), "row-presence", vh::Hex(k));
          if (s == StepResult::kSqliteRow && model.count(k)) {
            VH_CHECK(Str(get.ColumnBlob(0)) == model[k].first, "blob-altered", get.ColumnBlob(0).size() << " for " << model[k].first.size());
            VH_CHECK(get.ColumnText(1) == model[k].second, "text-altered", get.ColumnText(1).size() << " for " << model[k].second.size());
            VH_CHECK(get.ColumnText(2) == k, "text-altered", vh::Hex(k));
            if (r.Coin()) VH_CHECK(get.Step() == StepResult::kSqliteDone, "extra-row", "");
            vh::Add("read");
          }
          get.Reset();
        }
      }
    }
    vh::Evals(1);
    if (r.Coin()) db.CheckPoint();
  }
  Viewer v(file);
  Map want, want2;
  for (auto& m : model) { want[m.first] = m.second.first; want2[m.first] = m.second.second; }
  VH_CHECK(v.Table() == want, "stored-blob", "");
  VH_CHECK(v.Table("SELECT k, w FROM t") == want2, "stored-text", "");
  // and through a connection that may only read
  Database ro(file, Mode::kReadOnly);
  Statement all(ro, "SELECT k, v, w FROM t");
  Map a, b;
  while (all.Step() == StepResult::kSqliteRow) { auto k = all.ColumnText(0); a[k] = Str(all.ColumnBlob(1)); b[k] = all.ColumnText(2); }
  VH_CHECK(a == want && b == want2, "read-only-contents", a.size() << " of " << want.size());
  uint64_t h = 3;
  for (auto& m : want) h = vh::Mix(h ^ vh::HashStr(m.first) ^ vh::HashStr(m.second));
  vh::Observed(h);
}

VH_GROUP(refused, 200, 3000) {
  auto& r = c.rng;
  fs::path dir = NewDir(), file = dir / "e.db";
  auto refuse = [&](const char* what, const std::function<void()>& f) {
    auto o = vh::Outcome(f);
    VH_CHECK(o == "lib", "not-refused", what << ": " << o);
    vh::Add("refused");
  };
  auto o = vh::OutcomeCode([&] { Database x(dir / "missing.db", r.Coin() ? Mode::kReadWrite : Mode::kReadOnly); });
  VH_CHECK(o == vh::Code(CommonErrors::db_not_present), "missing-opened", o);
  VH_CHECK(!fs::exists(dir / "missing.db"), "missing-created", "");
  o = vh::OutcomeCode([&] { Database x(dir / "no such" / "m.db", Mode::kReadWriteCreate); });
  VH_CHECK(o == vh::Code(CommonErrors::db_not_present), "missing-opened", o);
  {
    // something else than a database
    std::ofstream f((dir / "junk.db").c_str(), std::ios::binary);
    f << "not a database " << r.Bytes(1024 + r.Below(8000));
  }
  refuse("junk", [&] { Database x(dir / "junk.db", Mode::kReadWrite); Statement s(x, "SELECT * FROM t"); s.Step(); });
  o = vh::OutcomeCode([&] { Database x(dir / "junk.db", Mode::kReadWrite); Transaction t(x); });
  VH_CHECK(o == vh::Code(CommonErrors::db_not_present), "junk-transaction", o);
  Database db(file, Mode::kReadWriteCreate);
  Run(db, "CREATE TABLE t (k TEXT PRIMARY KEY NOT NULL, v BLOB NOT NULL)");
  static const char* bad[] = {"SELEC", "SELECT * FROM nowhere", "INSERT INTO t VALUES (1)", "CREATE TABLE t (x)", "SELECT k FROM t WHERE", "INSERT INTO t (q) VALUES (1)"};
  for (auto q : bad) refuse(q, [&] { Statement s(db, q); });
  Statement put(db, "INSERT INTO t (k, v) VALUES (?, ?)");
  int wrong = r.Coin() ? 0 : r.Coin() ? 3 + static_cast<int>(r.Below(1000)) : -1;
  refuse("bind index", [&] { put.BindText(wrong, "x"); });
  refuse("bind index", [&] { put.BindBlob(wrong, SerialisedData(3, 1)); });
  put.BindText(1, "a");
  refuse("null value", [&] { put.Step(); });
  vh::Outcome([&] { put.Reset(); });
  put.BindBlob(2, SerialisedData(3, 1));
  put.Step();
  refuse("bind while running", [&] { Statement g(db, "SELECT k FROM t WHERE k = ?"); g.BindText(1, "a"); VH_CHECK(g.Step() == StepResult::kSqliteRow, "step-result", ""); g.BindText(1, "b"); });
  put.Reset();
  refuse("duplicate key", [&] { put.Step(); });
  {
    Viewer v(file);
    VH_CHECK(v.Table() == (Map{{"a", "\1\1\1"}}), "refused-but-stored", "");
  }
  Database ro(file, Mode::kReadOnly);
  refuse("read only", [&] { Statement s(ro, "INSERT INTO t (k, v) VALUES ('z', 'z')"); s.Step(); });
  refuse("read only", [&] { Statement s(ro, "DELETE FROM t"); s.Step(); });
  // as many variables as promised
  int limit = db.InsertLimit();
  VH_CHECK(limit > 0, "insert-limit", limit);
  if (c.index % 20 == 0) {
    auto many = [&](int n) { std::string q = "SELECT k FROM t WHERE k IN (?"; for (int i = 1; i < n; ++i) q += ",?"; Statement s(db, q + ")"); s.BindText(n, "a"); return s.Step() == StepResult::kSqliteRow; };
    VH_CHECK(many(limit), "insert-limit", limit);
    refuse("beyond the limit", [&] { many(limit + 1); });
    vh::Add("limits");
  }
  // an abandoned transaction whose statement failed
  o = vh::Outcome([&] { Transaction t(db); Statement s(db, "INSERT INTO t (k, v) VALUES ('b', 'b')"); s.Step(); Statement f(db, "INSERT INTO t (k, v) VALUES ('b', 'b')"); f.Step(); t.Commit(); });
  VH_CHECK(o == "lib", "not-refused", "duplicate in transaction");
  Viewer v(file);
  VH_CHECK(v.Table() == (Map{{"a", "\1\1\1"}}), "failed-transaction-visible", v.Table().size());
  vh::Observed(vh::Mix(static_cast<uint64_t>(wrong + 5)) ^ c.index);
}

// One writer at a time, several connections, an independent one looking on after every step.
VH_GROUP(transactions, 150, 4000) {
  auto& r = c.rng;
  fs::path file = NewDir() / "t.db";
  std::unique_ptr<Database> db[2];
  db[0].reset(new Database(file, Mode::kReadWriteCreate));
  Run(*db[0], "CREATE TABLE t (k TEXT PRIMARY KEY NOT NULL, v BLOB NOT NULL)");
  db[1].reset(new Database(file, Mode::kReadWrite));
  Viewer v(file);
  Map committed;
  uint64_t h = 1;
  auto dirt = [](int level) { volatile unsigned char junk[4096]; for (auto& x : junk) x = static_cast<unsigned char>(level * 85 + 1); };
  for (int n = 2 + static_cast<int>(r.Below(8)); n--;) {
    int w = static_cast<int>(r.Below(2));
    Map now = committed;
    int how = static_cast<int>(r.Below(3));
    dirt(static_cast<int>(r.Below(4)));
    {
      auto change = [&] {
        std::string k(1, static_cast<char>('a' + r.Below(6)));
        if (r.OneIn(3)) { Statement s(*db[w], "DELETE FROM t WHERE k = ?"); s.BindText(1, k); s.Step(); now.erase(k); }
        else {
          std::string b = Str(r.ByteVec(1 + r.Below(r.OneIn(5) ? 20000 : 50)));
          Statement s(*db[w], "INSERT OR REPLACE INTO t (k, v) VALUES (?, ?)");
          s.BindText(1, k);
          s.BindBlob(2, SerialisedData(b.begin(), b.end()));
          s.Step();
          now[k] = b;
        }
      };
      auto look = [&](const char* when) {
        VH_CHECK(v.Table() == committed, "uncommitted-visible", when);
        Map m;
        Statement s(*db[1 - w], "SELECT k, v FROM t");
        while (s.Step() == StepResult::kSqliteRow) m[s.ColumnText(0)] = Str(s.ColumnBlob(1));
        VH_CHECK(m == committed, "uncommitted-visible", when << " to the other connection");
        Map own;
        Statement s2(*db[w], "SELECT k, v FROM t");
        while (s2.Step() == StepResult::kSqliteRow) own[s2.ColumnText(0)] = Str(s2.ColumnBlob(1));
        VH_CHECK(own == now, "own-changes", when);
        vh::Add("looks");
      };
      // on the heap with bytes left from before, or on a stack with such
      std::unique_ptr<unsigned char[]> mem(new unsigned char[sizeof(Transaction) + 64]);
      memset(mem.get(), static_cast<int>(r.Below(256)), sizeof(Transaction) + 64);
      std::unique_ptr<Transaction> heap;
      Transaction* placed = nullptr;
      if (r.Coin()) heap.reset(new Transaction(*db[w]));
      else placed = new (mem.get()) Transaction(*db[w]);
      Transaction& t = placed ? *placed : *heap;
      for (size_t k = r.Below(6); k--;) { change(); if (r.OneIn(3)) look("during"); }
      if (how == 0) { look("before commit"); t.Commit(); committed = now; look("after commit"); vh::Add("commits"); }
      else if (how == 1) vh::Add("abandoned");
      else { auto o = vh::Outcome([&] { throw maidsafe::MakeError(CommonErrors::unknown); }); vh::Add("abandoned"); }
      if (placed) placed->~Transaction();
    }
    VH_CHECK(v.Table() == committed, how ? "abandoned-visible" : "commit-lost", n);
    if (r.OneIn(5)) db[w]->CheckPoint();
    if (r.OneIn(6)) { db[w].reset(); db[w].reset(new Database(file, r.Coin() ? Mode::kReadWrite : Mode::kReadWriteCreate)); }
    VH_CHECK(v.Table() == committed, "check-point-changes", n);
    // another writer can begin at once
    if (r.OneIn(4)) { Transaction t(*db[1 - w]); }
    h = vh::Mix(h ^ committed.size() ^ static_cast<uint64_t>(how * 16 + w * 64));
  }
  vh::Observed(h);
}

// A process dies at a file system call, or between two steps.
VH_GROUP(deaths, 260, 8000) {
  auto& r = c.rng;
  fs::path file = NewDir() / "d.db";
  {
    Database db(file, Mode::kReadWriteCreate);
    Run(db, "CREATE TABLE t (k TEXT PRIMARY KEY NOT NULL, v BLOB NOT NULL)");
  }
  int p[2];
  if (pipe(p)) vh::HarnessError("pipe");
  // what transaction i does: all values become i, some keys come and go
  auto state = [&](int i) {
    Map m;
    if (i == 0) return m;
    for (int k = 0; k < 4 + i % 5; ++k) m["k" + std::to_string(k)] = std::string(static_cast<size_t>(1 + (i * 37 + k * 1000) % 9000), static_cast<char>('a' + i % 26));
    m["n"] = std::to_string(i);
    return m;
  };
  int total = 1 + static_cast<int>(r.Below(8)), check_every = static_cast<int>(r.Below(4));
  int abandon = r.OneIn(3) ? static_cast<int>(r.Below(8)) : -1;
  long die = r.OneIn(8) ? -1 : static_cast<long>(r.Below(r.Coin() ? 12 : 90));
  bool at_step = r.OneIn(4);
  long step_die = static_cast<long>(r.Below(60));
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    auto tell = [&](char ch, int i) { char b[2] = {ch, static_cast<char>(i)}; if (write(p[1], b, 2) != 2) _exit(3); };
    long steps = 0;
    auto step = [&] { if (at_step && steps++ == step_die) kill(getpid(), SIGKILL); };
    try {
      if (!at_step) g_die_after = die;
      Database db(file, Mode::kReadWrite);
      for (int i = 1; i <= total; ++i) {
        auto fill = [&](const Map& m) {
          step();
          { Statement d(db, "DELETE FROM t"); d.Step(); }
          step();
          Statement s(db, "INSERT INTO t (k, v) VALUES (?, ?)");
          for (auto& e : m) { s.BindText(1, e.first); s.BindBlob(2, SerialisedData(e.second.begin(), e.second.end())); s.Step(); s.Reset(); step(); }
        };
        if (abandon == i) { Transaction t(db); fill(Map{{"never", "seen"}}); }
        Transaction t(db);
        fill(state(i));
        tell('b', i);
        t.Commit();
        step();
        tell('c', i);
        if (check_every && i % check_every == 0) db.CheckPoint();
        step();
      }
      if (at_step || r.Coin()) kill(getpid(), SIGKILL);
    } catch (...) { _exit(4); }
    _exit(0);
  }
  close(p[1]);
  int begun = 0, done = 0, status = 0;
  unsigned char b[2];
  while (read(p[0], b, 2) == 2) (b[0] == 'b' ? begun : done) = b[1];
  close(p[0]);
  waitpid(pid, &status, 0);
  VH_CHECK(!(WIFEXITED(status) && WEXITSTATUS(status)), "survivor-failed", status);
  if (WIFSIGNALED(status)) vh::Add("died");
  if (begun > done) vh::Add("died_in_commit");
  Map got;
  bool own = r.Coin();
  if (own) {
    Database db(file, Mode::kReadWrite);
    Statement s(db, "SELECT k, v FROM t");
    while (s.Step() == StepResult::kSqliteRow) got[s.ColumnText(0)] = Str(s.ColumnBlob(1));
  } else {
    got = Viewer(file).Table();
  }
  VH_CHECK(got == state(done) || (begun > done && got == state(begun)), got.count("never") ? "abandoned-visible" : "torn-state",
           "committed " << done << " begun " << begun << " of " << total << ", found " << got.size() << " rows, n = " << (got.count("n") ? got["n"] : "none"));
  // and it can be used again
  auto o = vh::Outcome([&] { Database db(file, Mode::kReadWrite); Transaction t(db); Run(db, "INSERT OR REPLACE INTO t (k, v) VALUES ('z', 'z')"); t.Commit(); });
  VH_CHECK(o.empty(), "unusable-after-death", o);
  got["z"] = "z";
  VH_CHECK(Viewer(file).Table() == got, "changed-after-death", "");
  vh::Observed(vh::Mix(static_cast<uint64_t>(begun * 10 + done) + static_cast<uint64_t>(die + 1) * 1000 + static_cast<uint64_t>(step_die) * 1000000 * at_step) ^ static_cast<uint64_t>(total));
}

// Several writers and readers at once: transfers keep the sum, and none is lost or half seen.
VH_GROUP(concurrent, 6, 60) {
  auto& r = c.rng;
  fs::path file = NewDir() / "c.db";
  const int kAccounts = 5;
  {
    Database db(file, Mode::kReadWriteCreate);
    Run(db, "CREATE TABLE t (k INTEGER PRIMARY KEY, v INTEGER NOT NULL)");
    Transaction t(db);
    for (int i = 0; i < kAccounts; ++i) Run(db, "INSERT INTO t VALUES (" + std::to_string(i) + ", 100)");
    Run(db, "INSERT INTO t VALUES (99, 0)");
    t.Commit();
  }
  std::atomic<bool> stop{false};
  std::atomic<int> transfers{0};
  auto check = [&](Database& db) {
    Statement s(db, "SELECT sum(v) FROM t WHERE k < 99");
    if (s.Step() == StepResult::kSqliteRow) VH_CHECK(s.ColumnText(0) == "500", "sum-seen", s.ColumnText(0));
  };
  std::vector<std::thread> writers, readers;
  int n = 2 + static_cast<int>(r.Below(3));
  for (int w = 0; w < n; ++w) writers.emplace_back([&, seed = r.Next()] {
    vh::Rng lr(seed);
    Database db(file, Mode::kReadWrite);
    for (int i = 0; i < 12; ++i) {
      auto o = vh::Outcome([&] {
        Transaction t(db);
        int a = static_cast<int>(lr.Below(kAccounts)), b = static_cast<int>(lr.Below(kAccounts)), x = static_cast<int>(lr.Below(50));
        bool keep = !lr.OneIn(4);
        Run(db, "UPDATE t SET v = v - " + std::to_string(x) + " WHERE k = " + std::to_string(a));
        if (lr.OneIn(3)) std::this_thread::sleep_for(std::chrono::microseconds(lr.Below(3000)));
        Run(db, "UPDATE t SET v = v + " + std::to_string(x) + " WHERE k = " + std::to_string(b));
        Run(db, "UPDATE t SET v = v + 1 WHERE k = 99");
        if (keep) { t.Commit(); ++transfers; }
      });
      VH_CHECK(o.empty(), "transaction-fails", o);
      vh::Beat();
      if (lr.OneIn(6)) db.CheckPoint();
    }
  });
  for (int w = 0; w < 2; ++w) readers.emplace_back([&] {
    Database db(file, Mode::kReadOnly);
    while (!stop) { auto o = vh::Outcome([&] { check(db); }); VH_CHECK(o.empty(), "reader-fails", o); vh::Add("sums"); std::this_thread::sleep_for(std::chrono::microseconds(300)); }
  });
  for (auto& t : writers) t.join();
  stop = true;
  for (auto& t : readers) t.join();
  Viewer v(file);
  Map m = v.Table("SELECT 'n', v FROM t WHERE k = 99");
  VH_CHECK(m["n"] == std::to_string(transfers.load()), "transaction-lost", m["n"] << " of " << transfers.load());
  VH_CHECK(v.Table("SELECT 's', sum(v) FROM t WHERE k < 99")["s"] == "500", "sum-seen", "");
  vh::Add("transfers", static_cast<uint64_t>(transfers.load()));
  vh::Observed(vh::Mix(static_cast<uint64_t>(transfers.load())) ^ c.index);
}

// Others hold the locks that beginning, committing or abandoning needs; or the transaction is
// already gone when it is to be ended.
VH_GROUP(contended, 48, 900) {
  auto& r = c.rng;
  struct Skip { Skip() { t_no_waiting = true; } ~Skip() { t_no_waiting = false; } };
  fs::path file = NewDir() / "b.db";
  auto put = [](Database& d, const std::string& k, const std::string& v) { Statement s(d, "INSERT OR REPLACE INTO t (k, v) VALUES (?, ?)"); s.BindText(1, k); s.BindText(2, v); VH_CHECK(s.Step() == StepResult::kSqliteDone, "step-result", k); };
  auto sql = [](Viewer& v, const char* q) { char* e = nullptr; if (sqlite3_exec(v.db, q, nullptr, nullptr, &e) != SQLITE_OK) vh::HarnessError(std::string(q) + ": " + (e ? e : "")); };
  int how = static_cast<int>(c.index % 6);
  uint64_t ms = 30 + r.Below(r.OneIn(3) ? 2500 : 600);
  Map want{{"a", "1"}};
  if (how != 2 && how != 3) {
    Database db(file, Mode::kReadWriteCreate);
    Run(db, "CREATE TABLE t (k TEXT PRIMARY KEY NOT NULL, v BLOB NOT NULL)");
    put(db, "a", "1");
  }
  switch (how) {
    case 0: {  // another writer has begun: wait for it, then see what it committed
      Database db(file, Mode::kReadWrite);
      Viewer other(file);
      sql(other, "BEGIN IMMEDIATE");
      bool keep = r.Coin();
      std::atomic<bool> ended{false};
      std::thread t([&] {
        std::this_thread::sleep_for(std::chrono::milliseconds(ms));
        sql(other, "INSERT INTO t VALUES ('o', 'other')");
        ended = true;
        sql(other, keep ? "COMMIT" : "ROLLBACK");
      });
      auto o = vh::Outcome([&] {
        Transaction tr(db);
        VH_CHECK(ended.load(), "two-writers", "begun while another writer was at work");
        Statement s(db, "SELECT v FROM t WHERE k = 'o'");
        VH_CHECK((s.Step() == StepResult::kSqliteRow) == keep, "stale-view", keep);
        s.Reset();
        put(db, "b", "2");
        tr.Commit();
      });
      t.join();
      VH_CHECK(o.empty(), "transaction-fails", "after " << ms << " ms: " << o);
      want["b"] = "2";
      if (keep) want["o"] = "other";
      vh::Add("waited_to_begin");
      break;
    }
    case 1: {  // a writer that never ends: refused, and everything works afterwards
      Database db(file, Mode::kReadWrite);
      Viewer other(file);
      sql(other, "BEGIN IMMEDIATE");
      std::string o;
      { Skip skip; long n = g_sleeps; o = vh::Outcome([&] { Transaction tr(db); }); vh::Add("waits", static_cast<uint64_t>(g_sleeps - n)); }
      VH_CHECK(o == "lib", "not-refused", "begun while another writer was at work: " << o);
      sql(other, "ROLLBACK");
      o = vh::Outcome([&] { Transaction tr(db); put(db, "b", "2"); tr.Commit(); });
      VH_CHECK(o.empty(), "unusable-after-refusal", o);
      want["b"] = "2";
      vh::Add("refused_to_begin");
      break;
    }
    case 2: case 3: {  // a reader holds up the commit, where the file could not be switched to the other journal
      {
        sqlite3* raw = nullptr;
        if (sqlite3_open(file.c_str(), &raw) != SQLITE_OK) vh::HarnessError("cannot create");
        sqlite3_exec(raw, "CREATE TABLE t (k TEXT PRIMARY KEY NOT NULL, v BLOB NOT NULL); INSERT INTO t VALUES ('a', '1')", nullptr, nullptr, nullptr);
        sqlite3_close(raw);
      }
      Viewer reader(file);
      sql(reader, "BEGIN");
      VH_CHECK(reader.Table() == want, "stored-blob", "");
      Database db(file, Mode::kReadWrite);
      std::string o;
      if (how == 2) {
        bool abandon = r.OneIn(3);
        std::atomic<bool> ended{false};
        std::thread t;
        o = vh::Outcome([&] {
          Transaction tr(db);
          put(db, "b", "2");
          t = std::thread([&] { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); VH_CHECK(reader.Table() == want, "uncommitted-visible", ""); ended = true; sql(reader, "COMMIT"); });
          if (abandon) return;
          tr.Commit();
          VH_CHECK(ended.load() || fs::exists(file.string() + "-wal"), "committed-under-reader", "");
        });
        if (t.joinable()) t.join();
        VH_CHECK(o.empty(), "commit-fails", "after " << ms << " ms: " << o);
        if (!abandon) want["b"] = "2";
        vh::Add("waited_to_commit");
      } else {
        bool wal = false;
        {
          Skip skip;
          o = vh::Outcome([&] { Transaction tr(db); put(db, "b", "2"); tr.Commit(); });
          wal = fs::exists(file.string() + "-wal");
        }
        if (wal) { VH_CHECK(o.empty(), "commit-fails", o); want["b"] = "2"; }
        else VH_CHECK(o == "lib", "not-refused", "committed under a reader: " << o);
        sql(reader, "COMMIT");
        VH_CHECK(reader.Table() == want, "abandoned-visible", reader.Table().size());
        o = vh::Outcome([&] { Transaction tr(db); put(db, "d", "4"); tr.Commit(); });
        VH_CHECK(o.empty(), "unusable-after-refusal", o);
        want["d"] = "4";
        vh::Add("refused_to_commit");
      }
      break;
    }
    default: {  // a failing statement has already ended the transaction
      Database db(file, Mode::kReadWrite);
      bool commit = how == 5;
      auto o = vh::Outcome([&] {
        Transaction tr(db);
        put(db, "b", "2");
        auto f = vh::Outcome([&] { if (r.Coin()) { Statement s(db, "ROLLBACK"); s.Step(); BOOST_THROW_EXCEPTION(MakeError(CommonErrors::unknown)); } Statement s(db, "INSERT OR ROLLBACK INTO t (k, v) VALUES ('a', 'x')"); s.Step(); });
        VH_CHECK(f == "lib", "not-refused", f);
        Skip skip;
        if (commit) tr.Commit();
      });
      VH_CHECK(o == (commit ? "lib" : ""), commit ? "commit-of-nothing" : "abandoning-fails", o);
      o = vh::Outcome([&] { Transaction tr(db); put(db, "d", "4"); tr.Commit(); });
      VH_CHECK(o.empty(), "unusable-after-refusal", o);
      want["d"] = "4";
      vh::Add("already_ended");
    }
  }
  VH_CHECK(Viewer(file).Table() == want, "stored-blob", "case " << how << ": " << Viewer(file).Table().size() << " rows for " << want.size());
  vh::Beat();
  vh::Evals(1);
  vh::Observed(vh::Mix(ms * 8 + static_cast<uint64_t>(how)));
}
