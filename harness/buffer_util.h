#ifndef VERIF_BUFFER_UTIL_H_
#define VERIF_BUFFER_UTIL_H_
#include <condition_variable>
#include <future>
#include <map>
#include <mutex>
#include <set>
#include "boost/filesystem.hpp"
#include "maidsafe/common/data_buffer.h"
#include "maidsafe/common/utils.h"
#include "vh.h"
#include "vh_ms.h"
namespace bu {
namespace fs = boost::filesystem;
using maidsafe::DataBuffer;
using maidsafe::DiskUsage;
using maidsafe::MemoryUsage;
using maidsafe::NonEmptyString;
using Key = DataBuffer::KeyType;
using Bytes = std::vector<unsigned char>;

// Key k of a small universe: names differ early or late, and some keys share a name and differ by type.
inline Key MakeKey(int k) {
  Bytes n(64, 0x11);
  n[k % 2 ? 0 : 63] = static_cast<unsigned char>(k / 3 + 1);
  return Key(maidsafe::Identity(n), maidsafe::DataTypeId(static_cast<uint32_t>(k % 3 == 2 ? 4000000000u + k : k % 3)));
}
// The name of the file a key is kept in, as documented by GetFileName.
inline std::string FileOf(const Key& k) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : k.name.string()) { r += d[c >> 4]; r += d[c & 15]; }
  return r + "_" + std::to_string(k.type_id.data);
}
// A value that says which key, and which store of it, it belongs to.
inline Bytes MakeValue(int key, uint32_t serial, size_t size) {
  Bytes v(size);
  uint64_t s = vh::Mix(static_cast<uint64_t>(key) << 32 | serial);
  for (size_t i = 0; i < size; ++i) {
    if (i % 8 == 0) s = vh::Mix(s + i);
    v[i] = static_cast<unsigned char>(s >> (8 * (i % 8)));
  }
  return v;
}
inline uint64_t DirSize(const fs::path& dir, std::map<std::string, uint64_t>* files = nullptr) {
  uint64_t n = 0;
  boost::system::error_code e;
  for (fs::directory_iterator it(dir, e), end; it != end; it.increment(e)) {
    auto s = fs::file_size(it->path(), e);
    if (e) continue;
    n += s;
    if (files) (*files)[it->path().filename().string()] = s;
  }
  return n;
}
inline bool Eventually(const std::function<bool()>& f, int ms = 8000) {
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  for (int i = 0;; ++i) {
    if (f()) return true;
    if (std::chrono::steady_clock::now() > end) return false;
    if (i > 20) std::this_thread::sleep_for(std::chrono::microseconds(i > 200 ? 2000 : 200));
    else std::this_thread::yield();
  }
}
struct Popped {
  Key key;
  Bytes value;
  uint64_t left;  // bytes in the directory when it was handed over
  bool file_there;
};
}  // namespace bu
#endif
