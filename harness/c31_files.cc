// C31: ReadFile, WriteFile, path options and chunk file names against the file system itself.
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <thread>
#include "boost/filesystem.hpp"
#include "boost/program_options.hpp"
#include "maidsafe/common/utils.h"
#include "maidsafe/common/data_types/data.h"
#include "vh.h"
#include "vh_ms.h"
using namespace maidsafe;  // NOLINT
namespace fs = boost::filesystem;
namespace po = boost::program_options;
using Bytes = std::vector<unsigned char>;

namespace {
std::atomic<int> g_n{0};
fs::path Fresh(const char* what = "f") { return fs::path(vh::Scratch()) / (what + std::to_string(++g_n)); }
// The file's bytes by plain system calls.
bool Slurp(const fs::path& p, Bytes* out) {
  int fd = open(p.c_str(), O_RDONLY);
  if (fd < 0) return false;
  out->clear();
  unsigned char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) out->insert(out->end(), b, b + n);
  close(fd);
  return n == 0;
}
bool Spill(const fs::path& p, const Bytes& v) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return false;
  size_t at = 0;
  while (at < v.size()) {
    ssize_t n = write(fd, v.data() + at, v.size() - at);
    if (n <= 0) break;
    at += static_cast<size_t>(n);
  }
  close(fd);
  return at == v.size();
}
Bytes Contents(vh::Rng& r, size_t n) {
  Bytes v = r.ByteVec(n);
  if (r.OneIn(3)) for (auto& b : v) if (b & 1) b = static_cast<unsigned char>("\n\r\0\x1a"[b % 4]);
  return v;
}
size_t AnySize(vh::Rng& r, size_t max) {
  switch (r.Below(6)) {
    case 0: return r.Below(4);
    case 1: return (size_t(1) << r.Below(17)) + r.Below(3) - 1;  // around stream buffers
    case 2: return 8191 + r.Below(3);
    default: return r.Below(r.Coin() ? 300 : max);
  }
}
enum class Io { kOk, kLibrary, kRaised };
Io Read(const fs::path& p, Bytes* out, std::string* why) {
  Io r = Io::kRaised;
  *why = vh::Outcome([&] {
    auto x = ReadFile(p);
    if (x) *out = *x;
    r = x ? Io::kOk : x.error().code() ? Io::kLibrary : Io::kRaised;
  });
  return r;
}
}  // namespace

VH_GROUP(contents, 2500, 60000) {
  auto& r = c.rng;
  auto p = Fresh();
  Bytes want, got;
  int n = 1 + static_cast<int>(r.Below(4));
  for (int i = 0; i < n; ++i) {
    want = Contents(r, AnySize(r, 200000));
    bool ok = false;
    auto o = vh::Outcome([&] { ok = WriteFile(p, want); });
    VH_CHECK(o.empty() && ok, "write-refused", want.size() << " bytes: " << o);
    VH_CHECK(Slurp(p, &got) && got == want, "file-content", want.size() << " bytes written, " << got.size() << " in the file");
    std::string why;
    VH_CHECK(Read(p, &got, &why) == Io::kOk && got == want, "read-back", want.size() << " bytes " << why);
    if (r.Coin()) {  // a file written by someone else
      want = Contents(r, AnySize(r, 200000));
      Spill(p, want);
      VH_CHECK(Read(p, &got, &why) == Io::kOk && got == want, "read-other", want.size() << " bytes " << why);
    }
    vh::Observed(vh::HashBytes(want.data(), want.size()) ^ want.size());
    vh::Add("files");
  }
  if (r.OneIn(3)) {  // through a link, and a relative path with dots
    auto l = Fresh("l");
    fs::create_symlink(p, l);
    VH_CHECK(WriteFile(l, Bytes(7, 'x')), "write-refused", "link");
    VH_CHECK(Slurp(p, &got) && got == Bytes(7, 'x') && fs::is_symlink(l), "file-content", "link");
    fs::remove(l);
  }
  auto left = std::distance(fs::directory_iterator(fs::path(vh::Scratch())), fs::directory_iterator());
  VH_CHECK(left <= 2, "extra-files", left);
  fs::remove(p);
}

// Everything that can make an operation fail.
VH_GROUP(failures, 1200, 20000) {
  auto& r = c.rng;
  Bytes v = Contents(r, 1 + AnySize(r, 100000)), got;
  std::string why;
  bool ok = true;
  auto refused = [&](const fs::path& p, const char* what) {
    auto o = vh::Outcome([&] { ok = WriteFile(p, v); });
    VH_CHECK(o.empty(), "write-raises", what << " " << o);
    VH_CHECK(!ok, "failed-write-reported-good", what << " " << v.size() << " bytes");
    vh::Add("writes_refused");
  };
  auto unread = [&](const fs::path& p, const char* what) {
    Io k = Read(p, &got, &why);
    VH_CHECK(k == Io::kLibrary, k == Io::kOk ? "failed-read-reported-good" : "read-raises", what << " " << why);
    vh::Add("reads_refused");
  };
  auto base = Fresh("d");
  fs::create_directory(base);
  switch (c.index % 10) {
    case 0: refused(base, "directory"); unread(base, "directory"); VH_CHECK(fs::is_directory(base) && fs::is_empty(base), "directory-altered", ""); break;
    case 1: refused(base / "no" / "such", "missing parent"); unread(base / "no" / "such", "missing"); VH_CHECK(!fs::exists(base / "no"), "parent-created", ""); break;
    case 2: Spill(base / "f", v); refused(base / "f" / "x", "parent is a file"); unread(base / "f" / "x", "parent is a file"); Slurp(base / "f", &got); VH_CHECK(got == v, "file-content", ""); break;
    case 3: refused(fs::path(), "empty path"); unread(fs::path(), "empty path"); unread(base / "missing", "missing"); VH_CHECK(!fs::exists(base / "missing"), "file-created", ""); break;
    case 4: refused(base / std::string(300 + r.Below(5000), 'n'), "long name"); unread(base / std::string(300, 'n'), "long name"); break;
    case 5: {  // a device with no room
      refused("/dev/full", "full device");
      for (size_t n : {1, 512, 1024, 2048, 4095, 4096, 4097, 8190, 8191, 8192, 16384, 65536}) { v = Contents(r, n); refused("/dev/full", "full device"); }
      fs::create_symlink("/dev/full", base / "full");
      refused(base / "full", "link to a full device");
      break;
    }
    case 6: {  // room for only part of it
      struct rlimit old, lim;
      getrlimit(RLIMIT_FSIZE, &old);
      lim = old;
      v = Contents(r, 2 + AnySize(r, 100000));
      lim.rlim_cur = r.Below(v.size());
      auto h = signal(SIGXFSZ, SIG_IGN);
      setrlimit(RLIMIT_FSIZE, &lim);
      auto o = vh::Outcome([&] { ok = WriteFile(base / "part", v); });
      setrlimit(RLIMIT_FSIZE, &old);
      signal(SIGXFSZ, h);
      VH_CHECK(o.empty(), "write-raises", o);
      VH_CHECK(!ok, "failed-write-reported-good", "room for " << lim.rlim_cur << " of " << v.size());
      vh::Add("partial_writes");
      break;
    }
    case 7: {  // no permission
      Spill(base / "f", v);
      fs::create_directory(base / "closed");
      chmod((base / "f").c_str(), 0);
      chmod((base / "closed").c_str(), 0555);
      if (seteuid(65534) == 0) {
        refused(base / "f", "no permission");
        refused(base / "closed" / "x", "read-only directory");
        unread(base / "f", "no permission");
        if (seteuid(0) != 0) vh::HarnessError("seteuid");
        Slurp(base / "f", &got);
        VH_CHECK(got == v, "file-content", "no permission");
        vh::Add("no_permission");
      }
      break;
    }
    case 8: {  // dangling and circular links
      fs::create_symlink(base / "a" / "nowhere", base / "l");
      refused(base / "l", "dangling link");
      unread(base / "l", "dangling link");
      fs::create_symlink(base / "o", base / "o");
      refused(base / "o", "circular link");
      unread(base / "o", "circular link");
      break;
    }
    default: {  // no descriptor left
      Spill(base / "f", v);
      struct rlimit old, lim;
      getrlimit(RLIMIT_NOFILE, &old);
      lim = old;
      lim.rlim_cur = 0;
      setrlimit(RLIMIT_NOFILE, &lim);
      bool wrote = false;
      auto o = vh::Outcome([&] { wrote = WriteFile(base / "g", v); });
      Io k = Read(base / "f", &got, &why);
      setrlimit(RLIMIT_NOFILE, &old);
      VH_CHECK(o.empty() && !wrote, "failed-write-reported-good", "no descriptor " << o);
      VH_CHECK(k == Io::kLibrary, k == Io::kOk ? "failed-read-reported-good" : "read-raises", "no descriptor: " << got.size() << " bytes of " << v.size());
      vh::Add("no_descriptor");
    }
  }
  chmod((base / "closed").c_str(), 0755);
  fs::remove_all(base);
  vh::Observed(vh::Mix(c.index) ^ v.size());
}

// A file being cut short or replaced while it is read gives an error or bytes of one size, never garbage.
VH_GROUP(changing, 60, 2000) {
  auto& r = c.rng;
  auto p = Fresh();
  size_t big = 20000 + r.Below(300000), small = r.Below(big);
  Bytes a(big, 'A');
  Spill(p, a);
  std::atomic<bool> stop{false};
  std::thread t([&] {
    while (!stop) {
      if (truncate(p.c_str(), static_cast<off_t>(small)) != 0) break;
      if (truncate(p.c_str(), static_cast<off_t>(big)) != 0) break;  // the tail is zeros now
    }
  });
  for (int i = 0; i < 30; ++i) {
    Bytes got;
    std::string why;
    Io k = Read(p, &got, &why);
    VH_CHECK(k != Io::kRaised, "read-raises", why);
    if (k == Io::kOk) {
      VH_CHECK(got.size() == big || got.size() == small, "size-of-no-moment", got.size());
      for (size_t j = 0; j < std::min(small, got.size()); ++j) if (got[j] != 'A') { VH_CHECK(false, "bytes-of-no-moment", j); break; }
    } else {
      vh::Add("cut_short");
    }
  }
  stop = true;
  t.join();
  fs::remove(p);
  vh::Observed(vh::Mix(big * 1000003 + small));
  vh::Add("changing");
}

VH_GROUP(path_options, 800, 8000) {
  auto& r = c.rng;
  auto base = Fresh("o");
  fs::create_directory(base);
  Spill(base / "file", Bytes(3, 'f'));
  fs::create_directory(base / "dir");
  fs::create_symlink(base / "dir", base / "to_dir");
  fs::create_symlink(base / "file", base / "to_file");
  static const char* const kinds[] = {"file", "dir", "new", "deep/new", "to_dir", "to_file", "file/x", "", "dir/."};
  std::string k = kinds[r.Below(9)];
  bool is_dir = r.Coin(), create = r.Coin(), given = !r.OneIn(6);
  fs::path p = k.empty() ? fs::path() : base / k;
  po::variables_map vm;
  if (given) vm.insert({"where", po::variable_value(boost::any(p.string()), false)});
  if (r.Coin()) vm.insert({"other", po::variable_value(boost::any(std::string("/")), false)});
  fs::path got("unset");
  auto o = vh::Outcome([&] { got = GetPathFromProgramOptions("where", vm, is_dir, create); });
  bool good = false;
  if (given && !k.empty()) {
    if (k == "file" || k == "to_file") good = !is_dir;
    else if (k == "dir" || k == "to_dir" || k == "dir/.") good = is_dir;
    else if (k == "new") good = create;
    else if (k == "deep/new") good = create && is_dir;
  }
  VH_CHECK(o.empty(), "option-raises", k << " " << o);
  VH_CHECK(got == (good ? p : fs::path()), "option-path", k << " dir " << is_dir << " create " << create << " given " << given << " -> " << got.string());
  if (good) VH_CHECK(is_dir ? fs::is_directory(p) : fs::is_regular_file(p), "option-kind", k);
  if (!good && !(create && given)) VH_CHECK(!fs::exists(base / "new") && !fs::exists(base / "deep"), "option-created", k);
  Bytes b;
  VH_CHECK(Slurp(base / "file", &b) && b == Bytes(3, 'f'), "option-altered-file", k);
  fs::remove_all(base);
  vh::Observed(vh::HashStr(k) ^ (is_dir * 1 + create * 2 + given * 4));
  vh::Add("options");
}

VH_GROUP(chunk_names, 1500, 40000) {
  auto& r = c.rng;
  Bytes n = r.ByteVec(64);
  if (r.OneIn(3)) n[0] = 0;
  uint32_t t = r.OneIn(3) ? (r.Coin() ? 0 : 0xffffffffu) : static_cast<uint32_t>(r.Next());
  Data::NameAndTypeId id{Identity(n), DataTypeId(t)};
  fs::path f = detail::GetFileName(id);
  static const char* d = "0123456789abcdef";
  std::string want;
  for (auto x : n) { want += d[x >> 4]; want += d[x & 15]; }
  want += "_" + std::to_string(t);
  VH_CHECK(f.string() == want, "chunk-file-name", f.string());
  auto back = detail::GetDataNameAndTypeId(f);
  VH_CHECK(back.name.string() == n && back.type_id.data == t, "chunk-file-name-back", f.string());
  vh::Observed(vh::HashBytes(n.data(), n.size()) ^ t);
  vh::Add("chunk_names");
}
