// C32: random strings, versions, byte counts, time stamps, XOR and small utilities.
#include <cmath>
#include <thread>
#include "maidsafe/common/utils.h"
#include "vh.h"
#include "vh_ms.h"
#ifdef VH_MODE_ASAN
#include "bounded_new.h"
#endif
using namespace maidsafe;  // NOLINT
using Bytes = std::vector<unsigned char>;

namespace {
template <typename S> bool Alnum(const S& s) {
  for (auto ch : s) if (!std::isalnum(static_cast<unsigned char>(ch)) || static_cast<unsigned char>(ch) > 127) return false;
  return true;
}
void Touch(uint64_t seed) { detail::set_random_number_generator_seed(static_cast<uint32_t>(seed)); }
}  // namespace

VH_GROUP(random_sizes, 3000, 60000) {
  auto& r = c.rng;
  size_t n = r.OneIn(20) ? r.Below(100000) : r.Below(70);
  auto a = RandomString(n), b = RandomAlphaNumericString(n);
  auto x = RandomBytes(n), y = RandomAlphaNumericBytes(n);
  VH_CHECK(a.size() == n && b.size() == n && x.size() == n && y.size() == n, "random-size", n);
  VH_CHECK(Alnum(b) && Alnum(y), "random-alphanumeric", n);
  auto g = GetRandomString<std::string>(n);
  VH_CHECK(g.size() == n, "random-size", n);
  if (n >= 16) VH_CHECK(a != g && a != RandomString(n) && b != RandomAlphaNumericString(n) && x != RandomBytes(n), "random-repeats", n);
  uint32_t lo = static_cast<uint32_t>(r.Below(40)), hi = lo + static_cast<uint32_t>(r.Below(6));
  int draws = 200;
  // wider ranges: the bounds, like every other size, are missed with probability below 1e-11 each
  if (r.OneIn(60)) hi = lo + static_cast<uint32_t>(r.Below(300)), draws = 200 + 26 * static_cast<int>(hi - lo);
  std::set<size_t> seen[4];
  for (int i = 0; i < draws; ++i) {
    size_t s[4] = {RandomString(lo, hi).size(), RandomBytes(lo, hi).size(), 0, 0};
    auto p = RandomAlphaNumericString(lo, hi);
    auto q = RandomAlphaNumericBytes(lo, hi);
    VH_CHECK(Alnum(p) && Alnum(q), "random-alphanumeric", "");
    s[2] = p.size();
    s[3] = q.size();
    for (int k = 0; k < 4; ++k) {
      VH_CHECK(s[k] >= lo && s[k] <= hi, "random-range", s[k] << " not in " << lo << ".." << hi);
      seen[k].insert(s[k]);
    }
  }
  // 200 draws from at most six values: missing one has probability below 1e-15
  for (auto& s : seen) VH_CHECK(s.size() == hi - lo + 1, "random-range-not-reached", s.size() << " of " << hi - lo + 1);
  vh::Observed(vh::Mix(n * 7919 + lo * 13 + hi));
  vh::Add("random_strings", 804);
}

// All bytes, all characters and both signs occur; equal seeds repeat.
VH_GROUP(random_contents, 120, 3000) {
  auto& r = c.rng;
  uint32_t seed = static_cast<uint32_t>(r.Next());
  auto draw = [&] {
    std::string s = RandomString(size_t(6000));
    s += RandomAlphaNumericString(size_t(1500));
    s += std::to_string(RandomInt32()) + std::to_string(RandomUint32());
    auto b = RandomBytes(3, 90);
    s.append(b.begin(), b.end());
    return s;
  };
  Touch(seed);
  auto a = draw();
  Touch(seed);
  auto b = draw();
  Touch(seed + 1);
  auto d = draw();
  VH_CHECK(a == b, "equal-seeds-differ", seed);
  VH_CHECK(a != d, "seeds-ignored", seed);
  VH_CHECK(detail::random_number_generator_seed() == seed + 1, "seed-not-kept", seed);
  std::set<unsigned char> all(a.begin(), a.begin() + 6000), an(a.begin() + 6000, a.begin() + 7500);
  VH_CHECK(all.size() == 256, "bytes-never-drawn", all.size());  // 256*(255/256)^6000 < 2e-8
  VH_CHECK(an.size() == 62, "characters-never-drawn", an.size());  // 62*(61/62)^1500 < 2e-9
  uint32_t ones = 0, zeros = 0, sones = 0, szeros = 0;
  for (int i = 0; i < 80; ++i) {
    uint32_t u = RandomUint32(), s = static_cast<uint32_t>(RandomInt32());
    ones |= u; zeros |= ~u; sones |= s; szeros |= ~s;
  }
  VH_CHECK(!~(ones & zeros & sones & szeros), "bits-never-drawn", std::hex << ones << " " << zeros << " " << sones << " " << szeros);
  vh::Observed(seed);
  vh::Add("seeds");
}

VH_GROUP(small_generator, 1000, 30000) {
  auto& r = c.rng;
  uint32_t seed = r.OneIn(10) ? static_cast<uint32_t>(r.Below(3)) : static_cast<uint32_t>(r.Next());
  small_prng::RandomContext x;
  small_prng::Initialise(&x, seed);
  uint32_t a = 0xf1ea5eed, b = seed, cc = seed, d = seed;
  auto rot = [](uint32_t v, int k) { return v << k | v >> (32 - k); };
  auto next = [&] {
    uint32_t e = a - rot(b, 27);
    a = b ^ rot(cc, 17); b = cc + d; cc = d + e; d = e + a;
    return d;
  };
  for (int i = 0; i < 20; ++i) next();
  for (int i = 0; i < 200; ++i) {
    uint32_t want = next(), got = small_prng::RandomValue(&x);
    VH_CHECK(want == got, "small-generator", seed << " value " << i);
  }
  vh::Observed(seed);
}

VH_GROUP(concurrent, 60, 2000) {
  auto& r = c.rng;
  vh::SetDelays(r.Next(), r.OneIn(3) ? 0 : 1 + static_cast<unsigned>(r.Below(20)), 40);
  const int n = 2 + static_cast<int>(r.Below(5));
  std::vector<std::vector<std::string>> out(static_cast<size_t>(n));
  detail::Spinlock spin;
  uint64_t shared = 0;
  std::vector<std::thread> t;
  for (int i = 0; i < n; ++i) t.emplace_back([&, i] {
    for (int k = 0; k < 40; ++k) {
      out[static_cast<size_t>(i)].push_back(RandomString(size_t(24)));
      out[static_cast<size_t>(i)].push_back(RandomAlphaNumericString(size_t(24)));
      out[static_cast<size_t>(i)].push_back(std::to_string(RandomUint32()) + "-" + std::to_string(RandomInt32()) + "-" + std::to_string(RandomUint32()));
      std::lock_guard<detail::Spinlock> l(spin);
      ++shared;
    }
  });
  for (auto& x : t) x.join();
  VH_CHECK(shared == static_cast<uint64_t>(n) * 40, "spinlock", shared);
  std::set<std::string> all;
  for (auto& v : out) for (auto& s : v) VH_CHECK(all.insert(s).second, "random-repeats", "between threads");
  VH_CHECK(Concurrency() >= 2 && Concurrency() >= std::thread::hardware_concurrency(), "concurrency", Concurrency());
  vh::Observed(vh::HashStr(*all.begin()));
  vh::Add("concurrent_strings", all.size());
}

#ifdef VH_MODE_ASAN
// The widest range there is.  (Sizes above the bound are refused by operator new.)
VH_GROUP(random_widest, 40, 200) {
  for (auto& f : {std::function<void()>([] { RandomString(0, 0xffffffffu); }), std::function<void()>([] { RandomBytes(0, 0xffffffffu); }),
                  std::function<void()>([] { RandomAlphaNumericString(0, 0xffffffffu); }), std::function<void()>([] { RandomAlphaNumericBytes(0, 0xffffffffu); })}) {
    vh::g_new_limit = 1 << 20;
    auto o = vh::Outcome(f);
    vh::g_new_limit = size_t(64) << 20;
    VH_CHECK(o.empty() || o.substr(0, 4) == "std:", "random-widest", o);
  }
  vh::Observed(c.index);
}
#endif

VH_GROUP(versions, 12000, 400000) {
  auto& r = c.rng;
  std::string s;
  auto digits = [&](size_t n) { std::string d; while (n--) d += static_cast<char>('0' + r.Below(10)); return d; };
  if (r.Coin()) {
    s = (r.OneIn(4) ? std::to_string(r.Below(300000)) : digits(1 + r.Below(r.OneIn(8) ? 12 : 3))) + "." + digits(r.OneIn(10) ? r.Below(3) : 1) + "." + digits(r.OneIn(10) ? r.Below(5) : 3);
  } else {
    size_t n = r.Below(12);
    static const char alphabet[] = "0123456789....-+ axX\t\n\0e";
    while (n--) s += alphabet[r.Below(sizeof alphabet - 1)];
  }
  if (r.OneIn(4) && !s.empty()) {
    static const char alphabet[] = ".-+ ax0\0\n";
    size_t at = r.Below(s.size() + 1);
    char ch = alphabet[r.Below(sizeof alphabet - 1)];
    if (r.Coin()) s.insert(s.begin() + static_cast<ptrdiff_t>(at), ch);
    else s[at % s.size()] = ch;
  }
  // major.m.ppp
  int want = -1;
  size_t n = s.size();
  auto dig = [&](size_t i) { return s[i] >= '0' && s[i] <= '9'; };
  if (n >= 7 && s[n - 4] == '.' && s[n - 6] == '.' && dig(n - 1) && dig(n - 2) && dig(n - 3) && dig(n - 5)) {
    bool good = true;
    unsigned long long major = 0;
    for (size_t i = 0; i < n - 6; ++i) {
      if (!dig(i)) good = false;
      else if (major < 1000000000ull) major = major * 10 + static_cast<unsigned>(s[i] - '0');
    }
    unsigned long long v = major * 10000 + static_cast<unsigned>(s[n - 5] - '0') * 1000u + static_cast<unsigned>(s[n - 3] - '0') * 100u + static_cast<unsigned>(s[n - 2] - '0') * 10u + static_cast<unsigned>(s[n - 1] - '0');
    // majors near the limit of int may be refused
    if (good && v > 2147480000ull && v <= 2147483647ull) return;
    if (good && v <= 2147480000ull) want = static_cast<int>(v);
  }
  int got = -2;
  auto o = vh::Outcome([&] { got = VersionToInt(s); });
  VH_CHECK(o.empty(), "version-raises", vh::Hex(s) << " " << o);
  VH_CHECK(got == want, "version", "'" << s << "' gave " << got << " not " << want);
  VH_CHECK(kInvalidVersion == -1, "invalid-version", kInvalidVersion);
  vh::Add(want >= 0 ? "versions_good" : "versions_bad");
  vh::Observed(vh::HashStr(s));
}

VH_GROUP(byte_counts, 12000, 400000) {
  auto& r = c.rng;
  uint64_t v;
  switch (r.Below(5)) {
    case 0: v = (uint64_t(1) << r.Below(64)) + r.Below(5) - 2; break;
    case 1: { v = 1; for (auto k = r.Below(20); k--;) v *= 10; v += r.Below(5) - 2; break; }
    case 2: { uint64_t k = r.Coin() ? 1000 : 1024, u = 1; for (auto n = 1 + r.Below(5); n--;) u *= k; v = u * k - u / 2 + r.Below(5) - 2; break; }
    case 3: v = ~0ull - r.Below(3); break;
    default: v = r.Next() >> r.Below(64);
  }
  if (c.index == 0) v = 0;
  for (int bin = 0; bin < 2; ++bin) {
    const uint64_t k = bin ? 1024 : 1000;
    static const char* const names[2][7] = {{" B", " kB", " MB", " GB", " TB", " PB", " EB"}, {" B", " KiB", " MiB", " GiB", " TiB", " PiB", " EiB"}};
    auto s = bin ? BytesToBinarySiUnits(v) : BytesToDecimalSiUnits(v);
    if (v < k) {
      VH_CHECK(s == std::to_string(v) + " B", "byte-count", v << " gave " << s);
      continue;
    }
    int unit = 1;
    __int128 u = k;
    while (unit < 6 && static_cast<__int128>(v) >= u * k - u / 2) { u *= k; ++unit; }
    std::string name = names[bin][unit];
    bool named = s.size() > name.size() && s.substr(s.size() - name.size()) == name;
    std::string num = named ? s.substr(0, s.size() - name.size()) : "";
    bool shape = num.size() >= 4 && num[num.size() - 3] == '.' && num.find_first_not_of("0123456789.") == std::string::npos && std::count(num.begin(), num.end(), '.') == 1;
    VH_CHECK(named && shape, "byte-count", v << " gave " << s << ", unit" << name << " expected");
    if (!named || !shape) continue;
    num.erase(num.size() - 3, 1);
    __int128 hundredths = std::stoull(num);
    __int128 exact = static_cast<__int128>(v) * 100, diff = hundredths * u - exact;
    if (diff < 0) diff = -diff;
    // within half of the last digit, allowing for the rounding of the quotient to a double
    VH_CHECK(diff * 2 <= u + u / 1000, "byte-count", v << " gave " << s);
  }
  vh::Add("byte_counts");
  vh::Observed(vh::Mix(v));
}

VH_GROUP(time_stamps, 2000, 40000) {
  auto& r = c.rng;
  namespace pt = boost::posix_time;
  const pt::ptime epoch(boost::gregorian::date(2000, 1, 1));
  VH_CHECK(kMaidSafeEpoch == epoch, "epoch", "");
  auto a = pt::microsec_clock::universal_time();
  uint64_t t = GetTimeStamp();
  auto b = pt::microsec_clock::universal_time();
  if (b >= a) {
    int64_t ma = (a - epoch).total_milliseconds(), mb = (b - epoch).total_milliseconds();
    VH_CHECK(static_cast<int64_t>(t) >= ma && static_cast<int64_t>(t) <= mb, "time-stamp", t << " not in " << ma << ".." << mb);
    auto back = TimeStampToPtime(t);
    VH_CHECK(back <= b && back > a - pt::milliseconds(1), "time-stamp-back", t);
  }
  uint64_t s = r.Below(2) ? r.Below(uint64_t(200) * 365 * 86400 * 1000) : r.Below(5000);
  VH_CHECK(TimeStampToPtime(s) - epoch == pt::milliseconds(static_cast<int64_t>(s)), "time-stamp-value", s);
  vh::Observed(s);
  vh::Add("time_stamps");
}

VH_GROUP(exclusive_or, 2000, 60000) {
  auto& r = c.rng;
  size_t n = r.OneIn(10) ? r.Below(20000) : r.Below(40);
  Bytes a = r.ByteVec(n), b = r.OneIn(8) ? Bytes(n, 0xff) : r.ByteVec(n);
  Bytes x = a ^ b, want(n);
  for (size_t i = 0; i < n; ++i) want[i] = static_cast<unsigned char>(a[i] ^ b[i]);
  VH_CHECK(x == want, "xor", n);
  VH_CHECK((x ^ b) == a && (x ^ a) == b, "xor-inverse", n);
  std::string sa(a.begin(), a.end()), sb(b.begin(), b.end());
  VH_CHECK((maidsafe::operator^(sa, sb)) == std::string(want.begin(), want.end()), "xor-strings", n);
  Bytes longer = r.ByteVec(n + 1 + r.Below(3));
  VH_CHECK(vh::OutcomeCode([&] { a ^ longer; }) == vh::Code(CommonErrors::invalid_argument) && vh::OutcomeCode([&] { longer ^ a; }) == vh::Code(CommonErrors::invalid_argument), "xor-sizes", n);
  vh::Observed(vh::HashBytes(x.data(), x.size()) ^ n);
  vh::Add("xors");
}

VH_GROUP(local_ip, 3, 20) {
  auto o = vh::Outcome([&] {
    auto ip = GetLocalIp(asio::ip::udp::endpoint(asio::ip::make_address_v4("127.0.0.1"), 80));
    VH_CHECK(ip.is_unspecified(), "local-ip-loopback", ip.to_string());
    auto other = GetLocalIp();
    VH_CHECK(other.is_unspecified() || !other.is_loopback(), "local-ip", other.to_string());
  });
  VH_CHECK(o.empty(), "local-ip-raises", o);
  vh::Observed(c.index);
}
