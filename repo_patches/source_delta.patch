From b3ef73178916b5954a16d4f4869da9e2e19ce2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 01/64] fix: hex decoding rejects characters which are not hex
 digits

They were looked up beyond the end of the table, or decoded silently to zero.
---
 src/maidsafe/common/encode.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/encode.cc b/src/maidsafe/common/encode.cc
index 9667dc5..e9f2378 100644
--- a/src/maidsafe/common/encode.cc
+++ b/src/maidsafe/common/encode.cc
@@ -39,6 +39,14 @@ namespace hex {
 
 namespace {
 
+// Throws if 'digit' isn't a member of 'detail::alphabet'.
+unsigned char DigitValue(char digit) {
+  auto index(static_cast<unsigned char>(digit));
+  if (index >= sizeof(detail::lookup) || (detail::lookup[index] == 0 && digit != '0'))
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
+  return detail::lookup[index];
+}
+
 template <typename T>
 T Decode(const std::string& hex_input) {
   auto size(hex_input.size());
@@ -47,8 +55,8 @@ T Decode(const std::string& hex_input) {
 
   T non_hex_output(size / 2, 0);
   for (size_t i(0), j(0); i != size / 2; ++i) {
-    non_hex_output[i] = (detail::lookup[static_cast<int>(hex_input[j++])] << 4);
-    non_hex_output[i] |= detail::lookup[static_cast<int>(hex_input[j++])];
+    non_hex_output[i] = (DigitValue(hex_input[j++]) << 4);
+    non_hex_output[i] |= DigitValue(hex_input[j++]);
   }
   return non_hex_output;
 }
-- 
2.43.0


From 3c6c60973a96824e6b2377a892cebd54799985b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 02/64] fix: MakeIdentity throws for binary strings of the
 wrong length

Surplus digits were ignored and a short last byte was accepted.
---
 src/maidsafe/common/identity.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/identity.cc b/src/maidsafe/common/identity.cc
index 5c3d81c..290b7ac 100644
--- a/src/maidsafe/common/identity.cc
+++ b/src/maidsafe/common/identity.cc
@@ -96,6 +96,8 @@ std::string Encode(const Identity& id) { return Encode(id.string()); }
 
 Identity MakeIdentity(const binary::String& id) {
   try {
+    if (id->size() != identity_size * 8)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_identity));
     std::vector<byte> raw_id(identity_size, 0);
     for (size_t i = 0; i < identity_size; ++i) {
       std::bitset<8> temp(id->substr(i * 8, 8));
-- 
2.43.0


From 6a6a545e6eb1eeeaaa9679b9debb13e4bc8ce28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:49 +0000
Subject: [PATCH 03/64] fix: IoService::Stop from a handler no longer deadlocks
 with a concurrent Stop

---
 include/maidsafe/common/asio_service.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/maidsafe/common/asio_service.h b/include/maidsafe/common/asio_service.h
index e99028d..aee61c7 100644
--- a/include/maidsafe/common/asio_service.h
+++ b/include/maidsafe/common/asio_service.h
@@ -24,6 +24,7 @@
 #include <cstdint>
 #include <memory>
 #include <mutex>
+#include <set>
 #include <thread>
 #include <vector>
 
@@ -50,7 +51,8 @@ class IoService {
   IoServiceType service_;
   std::unique_ptr<typename IoServiceType::work> work_;
   std::vector<std::thread> threads_;
-  mutable std::mutex mutex_;
+  std::set<std::thread::id> running_ids_;
+  mutable std::mutex mutex_, ids_mutex_;
 };
 
 using AsioService = IoService<asio::io_service>;
@@ -64,11 +66,17 @@ IoService<IoServiceType>::IoService(size_t thread_count)
       service_(),
       work_(make_unique<typename IoServiceType::work>(service_)),
       threads_(),
-      mutex_() {
+      running_ids_(),
+      mutex_(),
+      ids_mutex_() {
   if (thread_count == 0)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
   for (size_t i(0); i != thread_count; ++i)
     threads_.emplace_back([&] {
+      {
+        std::lock_guard<std::mutex> lock{ids_mutex_};
+        running_ids_.insert(std::this_thread::get_id());
+      }
       try {
         service_.run();
       } catch (...) {
@@ -78,19 +86,25 @@ IoService<IoServiceType>::IoService(size_t thread_count)
         assert(0);
         throw;
       }
+      std::lock_guard<std::mutex> lock{ids_mutex_};
+      running_ids_.erase(std::this_thread::get_id());
     });
 }
 
 template <typename IoServiceType>
 void IoService<IoServiceType>::Stop() {
   thread_count_ = 0U;
+  {
+    // Checked without holding 'mutex_', since another caller of 'Stop' holds that while it joins the
+    // asio threads, one of which may be running this call.
+    std::lock_guard<std::mutex> lock{ids_mutex_};
+    if (running_ids_.count(std::this_thread::get_id()) != 0)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
+  }
+
   std::lock_guard<std::mutex> lock{mutex_};
   if (!work_)
     return;
-  for (const auto& asio_thread : threads_) {
-    if (std::this_thread::get_id() == asio_thread.get_id())
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
-  }
 
   work_.reset();
 
-- 
2.43.0


From efb2f5ffa3c0f6e4d06216b7fa23503c24231e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:00 +0000
Subject: [PATCH 04/64] fix: a failing readlink no longer writes outside the
 executable path buffer

---
 src/maidsafe/common/config.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/config.cc b/src/maidsafe/common/config.cc
index 640d45b..f1e14ee 100644
--- a/src/maidsafe/common/config.cc
+++ b/src/maidsafe/common/config.cc
@@ -72,8 +72,8 @@ void SetThisExecutablePath(const char* const argv[]) {
 #endif
 #ifdef __linux__
     char buffer[PATH_MAX];
-    size_t len = 0;
-    if ((len = readlink("/proc/self/exe", buffer, sizeof(buffer))) > 0) {
+    ssize_t len = 0;
+    if ((len = readlink("/proc/self/exe", buffer, sizeof(buffer) - 1)) > 0) {
       buffer[len] = 0;
       path = buffer;
     }
-- 
2.43.0


From 4d31282d33ece9bc6687287bd9caf4c5f259dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:00 +0000
Subject: [PATCH 05/64] fix: profiler formats durations of any length without
 overrunning its buffer

---
 src/maidsafe/common/profiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/profiler.cc b/src/maidsafe/common/profiler.cc
index 1487146..dc358e2 100644
--- a/src/maidsafe/common/profiler.cc
+++ b/src/maidsafe/common/profiler.cc
@@ -46,7 +46,7 @@ std::string LocationToString(const ProfileEntry::Location& location) {
 std::string DurationToString(const std::chrono::high_resolution_clock::duration& duration) {
   long long nanos(  // NOLINT
       std::chrono::duration_cast<std::chrono::nanoseconds>(duration).count());
-  std::vector<char> buffer(21, 0);
+  std::vector<char> buffer(32, 0);
   std::sprintf(&buffer[0], "%8lli.%09lli s", nanos / 1000000000, nanos % 1000000000);  // NOLINT
   return std::string(&buffer[0]);
 }
-- 
2.43.0


From 5784e922109944e160ff4f150367003bc0a38291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:53 +0000
Subject: [PATCH 06/64] fix: a menu without any items no longer dereferences a
 null parent

---
 src/maidsafe/common/menu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index c531e8e..d4c37a3 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -46,7 +46,7 @@ int Menu::Run() {
       if (clear_cli) {
         cli_.Clear();
         clear_cli = false;
-        if (current_item_->HasNoChildren())
+        if (current_item_->HasNoChildren() && current_item_->kParent_)
           current_item_ = current_item_->kParent_;
         ShowOptions();
       }
-- 
2.43.0


From 3d1be9be83562efc61a906df9e668bf8cd6d086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:53 +0000
Subject: [PATCH 07/64] fix: the menu ends with an error at the end of its
 input instead of looping for ever

---
 src/maidsafe/common/menu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index d4c37a3..2ce10a3 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -60,6 +60,8 @@ int Menu::Run() {
           current_item_ = current_item_->Child(result - 1);
         }
       } catch (const std::exception&) {
+        if (!std::cin)
+          throw;
         TLOG(kYellow) << "Invalid choice\n";
         continue;
       }
-- 
2.43.0


From a98e28a354b3a824b8e9bd6a1346ecd0d9f1ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 08/64] fix: the most negative menu choice no longer overflows

---
 src/maidsafe/common/menu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index 2ce10a3..33a24ec 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -56,6 +56,8 @@ int Menu::Run() {
           break;
         } else if (result == 99 && current_item_->kParent_) {
           current_item_ = current_item_->kParent_;
+        } else if (result < 0) {
+          BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
         } else {
           current_item_ = current_item_->Child(result - 1);
         }
-- 
2.43.0


From 58b4a028247bda3bddd1c8884c1764d4c25eb0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:20 +0000
Subject: [PATCH 09/64] fix: SipHash counts the trailing bytes of a message
 once, as the reference does

---
 src/maidsafe/common/hash/algorithms/siphash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/hash/algorithms/siphash.cc b/src/maidsafe/common/hash/algorithms/siphash.cc
index 9bba844..e139092 100644
--- a/src/maidsafe/common/hash/algorithms/siphash.cc
+++ b/src/maidsafe/common/hash/algorithms/siphash.cc
@@ -104,7 +104,7 @@ std::uint64_t FinalizeInternal(std::uint64_t v0, std::uint64_t v1, std::uint64_t
   //
   // Compress remainder bytes
   //
-  std::uint64_t b = (static_cast<std::uint64_t>(b_in + inlen)) << 56;
+  std::uint64_t b = (static_cast<std::uint64_t>(b_in)) << 56;
 
   switch (inlen & 7) {
     case 7:
-- 
2.43.0


From bc9e1c37114e85f27e96ff2e0ce127ba84cba626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:03 +0000
Subject: [PATCH 10/64] fix: hashing a const value uses the version declared
 for its type

---
 include/maidsafe/common/hash/hash_use_serialize.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/maidsafe/common/hash/hash_use_serialize.h b/include/maidsafe/common/hash/hash_use_serialize.h
index 0376c6a..94c6d8c 100644
--- a/include/maidsafe/common/hash/hash_use_serialize.h
+++ b/include/maidsafe/common/hash/hash_use_serialize.h
@@ -55,6 +55,10 @@ struct UseSerializeForHashing<Type, typename std::enable_if<Type::use_serialize_
 template <typename, typename Enable = void>
 struct HashVersion : std::integral_constant<std::uint32_t, 0> {};
 
+// A const value has the same version as the type it is an instance of.
+template <typename Type>
+struct HashVersion<const Type, void> : HashVersion<Type> {};
+
 }  // namespace maidsafe
 
 #endif  // MAIDSAFE_COMMON_HASH_HASH_USE_SERIALIZE_H_
-- 
2.43.0


From cde208c1482b893b9a41c16cc0fb03a9cc2fd26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:03 +0000
Subject: [PATCH 11/64] fix: equal long doubles hash equally whatever their
 padding bytes hold

---
 include/maidsafe/common/hash/hash_numeric.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/maidsafe/common/hash/hash_numeric.h b/include/maidsafe/common/hash/hash_numeric.h
index 882c69c..c577dba 100644
--- a/include/maidsafe/common/hash/hash_numeric.h
+++ b/include/maidsafe/common/hash/hash_numeric.h
@@ -19,6 +19,8 @@
 #ifndef MAIDSAFE_COMMON_HASH_HASH_NUMERIC_H_
 #define MAIDSAFE_COMMON_HASH_HASH_NUMERIC_H_
 
+#include <cstddef>
+#include <limits>
 #include <type_traits>
 
 #include "maidsafe/common/hash/hash_contiguous.h"
@@ -48,7 +50,9 @@ typename std::enable_if<std::is_floating_point<FloatType>::value>::type HashAppe
 #pragma GCC diagnostic pop
 #endif
 
-  hash.Update(reinterpret_cast<const byte*>(&value), sizeof(value));
+  // The trailing bytes of an x87 extended precision value are padding.
+  const std::size_t size = std::numeric_limits<FloatType>::digits == 64 ? 10 : sizeof(value);
+  hash.Update(reinterpret_cast<const byte*>(&value), size);
 }
 
 }  // namespace maidsafe
-- 
2.43.0


From d4cd50134c568983994ff74d99ce2fcd6e2f9f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:26 +0000
Subject: [PATCH 12/64] fix: converting the most negative integer to an error
 no longer overflows

---
 src/maidsafe/common/error.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/error.cc b/src/maidsafe/common/error.cc
index 1435af8..efc964f 100644
--- a/src/maidsafe/common/error.cc
+++ b/src/maidsafe/common/error.cc
@@ -70,9 +70,9 @@ int ErrorToInt(maidsafe_error error) {
 }
 
 maidsafe_error IntToError(int value) {
-  value = 0 - value;
-  ErrorCategories category_value{static_cast<ErrorCategories>(value - (value % kMultiple))};
-  int error_value{value % kMultiple};
+  const int remainder{value % kMultiple};
+  ErrorCategories category_value{static_cast<ErrorCategories>(remainder - value)};
+  int error_value{-remainder};
   switch (category_value) {
     case ErrorCategories::kCommon:
       return maidsafe_error{error_value, GetCommonCategory()};
-- 
2.43.0


From e01bc6786f55f67ec02f6a6f6767844146994873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:32 +0000
Subject: [PATCH 13/64] fix: a data chunk keeps its name and content together
 when parsing into it fails

---
 include/maidsafe/common/data_types/immutable_data.h | 8 ++++++--
 include/maidsafe/common/data_types/mutable_data.h   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/maidsafe/common/data_types/immutable_data.h b/include/maidsafe/common/data_types/immutable_data.h
index aff9eaa..0ae2537 100644
--- a/include/maidsafe/common/data_types/immutable_data.h
+++ b/include/maidsafe/common/data_types/immutable_data.h
@@ -19,6 +19,8 @@
 #ifndef MAIDSAFE_COMMON_DATA_TYPES_IMMUTABLE_DATA_H_
 #define MAIDSAFE_COMMON_DATA_TYPES_IMMUTABLE_DATA_H_
 
+#include <utility>
+
 #include "cereal/types/base_class.hpp"
 #include "cereal/types/polymorphic.hpp"
 
@@ -54,9 +56,11 @@ class ImmutableData : public Data {
   template <typename Archive>
   Archive& load(Archive& archive) {
     try {
-      archive(cereal::base_class<Data>(this), value_);
-      if (name_ != crypto::Hash<crypto::SHA512>(value_))
+      ImmutableData parsed;
+      archive(cereal::base_class<Data>(&parsed), parsed.value_);
+      if (parsed.name_ != crypto::Hash<crypto::SHA512>(parsed.value_))
         BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
+      *this = std::move(parsed);
     } catch (const std::exception& e) {
       LOG(kWarning) << "Error parsing ImmutableData: " << boost::diagnostic_information(e);
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
diff --git a/include/maidsafe/common/data_types/mutable_data.h b/include/maidsafe/common/data_types/mutable_data.h
index ba1a1dc..fb43948 100644
--- a/include/maidsafe/common/data_types/mutable_data.h
+++ b/include/maidsafe/common/data_types/mutable_data.h
@@ -19,6 +19,8 @@
 #ifndef MAIDSAFE_COMMON_DATA_TYPES_MUTABLE_DATA_H_
 #define MAIDSAFE_COMMON_DATA_TYPES_MUTABLE_DATA_H_
 
+#include <utility>
+
 #include "cereal/types/base_class.hpp"
 #include "cereal/types/polymorphic.hpp"
 
@@ -53,9 +55,11 @@ class MutableData : public Data {
   template <typename Archive>
   Archive& load(Archive& archive) {
     try {
-      archive(cereal::base_class<Data>(this), value_);
-      if (!value_.IsInitialised())
+      MutableData parsed;
+      archive(cereal::base_class<Data>(&parsed), parsed.value_);
+      if (!parsed.value_.IsInitialised())
         BOOST_THROW_EXCEPTION(MakeError(CommonErrors::uninitialised));
+      *this = std::move(parsed);
     } catch (const std::exception& e) {
       LOG(kWarning) << "Error parsing MutableData: " << boost::diagnostic_information(e);
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
-- 
2.43.0


From 8dbb47e2c4e9ffe9eaba69f86b5e56aaf6b99da1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 14/64] fix: no version can become its own ancestor in a
 version history

---
 .../common/data_types/structured_data_versions.cc         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 4b3c0a2..83a3b91 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -314,6 +314,10 @@ boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Put
   if (NewVersionPreExists(old_version, new_version))
     return boost::none;
 
+  // A version can't be its own parent.
+  if (new_version == old_version)
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+
   // Check we've not been asked to store two roots.
   bool is_root(!old_version.id.IsInitialised() || versions_.empty() || new_version.index == 0);
   if (is_root && root_.second != std::end(versions_) && !RootParentName().id.IsInitialised())
@@ -427,11 +431,11 @@ std::future<void> StructuredDataVersions::CheckVersionNotInBranch(
   return std::async([this, itr, &version]() {
     VersionsItr versions_itr(itr);
     while (versions_itr != std::end(versions_)) {
+      if (versions_itr->first == version)
+        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
       auto child_itr(std::begin(versions_itr->second->children));
       if (child_itr == std::end(versions_itr->second->children))
         return;
-      if ((*child_itr)->first == version)
-        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
       std::vector<std::future<void>> check_futures;
       while (++child_itr != std::end(versions_itr->second->children))
         check_futures.emplace_back(CheckVersionNotInBranch(*child_itr, version));
-- 
2.43.0


From da16c989d8e5a372eb8e64e9c7872bf463bd6104 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 15/64] fix: a version history checks its branch limit for new
 roots and for versions which adopt the root

---
 .../common/data_types/structured_data_versions.h       |  2 +-
 .../common/data_types/structured_data_versions.cc      | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/maidsafe/common/data_types/structured_data_versions.h b/include/maidsafe/common/data_types/structured_data_versions.h
index 6458091..4ee77e7 100644
--- a/include/maidsafe/common/data_types/structured_data_versions.h
+++ b/include/maidsafe/common/data_types/structured_data_versions.h
@@ -244,7 +244,7 @@ class StructuredDataVersions {
   void CheckForUnorphaning(Version& version, bool& unorphans_existing_root,
                            size_t& unorphan_count) const;
   std::future<void> CheckVersionNotInBranch(VersionsItr itr, const VersionName& version) const;
-  void CheckBranchCount(const Version& version, bool is_orphan, size_t unorphaned_count,
+  void CheckBranchCount(const Version& version, bool is_root, bool is_orphan,
                         bool& erase_existing_root) const;
   boost::optional<VersionName> Insert(const Version& version, bool is_root, bool is_orphan,
                                       const VersionName& old_version, bool unorphans_existing_root,
diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 83a3b91..c5dfe5b 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -350,7 +350,7 @@ boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Put
   }
 
   // Handle case where we're about to exceed 'max_branches_'.
-  CheckBranchCount(version, is_orphan, unorphan_count, erase_existing_root);
+  CheckBranchCount(version, is_root, is_orphan, erase_existing_root);
 
   // Finally, safe to now add details
   return Insert(version, is_root, is_orphan, old_version, unorphans_existing_root, unorphan_count,
@@ -446,10 +446,12 @@ std::future<void> StructuredDataVersions::CheckVersionNotInBranch(
   });
 }
 
-void StructuredDataVersions::CheckBranchCount(const Version& version, bool is_orphan,
-                                              size_t unorphaned_count,
+void StructuredDataVersions::CheckBranchCount(const Version& version, bool is_root, bool is_orphan,
                                               bool& erase_existing_root) const {
-  if (AtBranchesLimit() && unorphaned_count == 0) {
+  // A version which has children (i.e. which unorphans others) doesn't add a branch.
+  if (AtBranchesLimit() && version.second->children.empty()) {
+    if (is_root)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
     if (is_orphan || !version.second->parent->second->children.empty()) {
       // We're going to exceed limit - see if deleting 'root_' helps
       bool root_is_tip_of_tree(root_.second != std::end(versions_) &&
-- 
2.43.0


From 98339c95027c9bcaca92ad94bf862c0a7301b0ae Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 16/64] fix: the lowest orphan replaces the root of a version
 history, as documented

---
 .../common/data_types/structured_data_versions.cc        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index c5dfe5b..98515b3 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -564,8 +564,13 @@ void StructuredDataVersions::ReplaceRoot() {
 
 void StructuredDataVersions::ReplaceRootFromOrphans() {
   assert(!orphans_.empty());
-  OrphanItr orphan_itr(
-      std::make_pair(std::begin(orphans_), std::begin(std::begin(orphans_)->second)));
+  // Orphans are grouped by absent parent, so look through all groups for the lowest VersionName.
+  auto lowest(std::min_element(
+      std::begin(orphans_), std::end(orphans_),
+      [](const Orphans::value_type& lhs, const Orphans::value_type& rhs) {
+        return (*std::begin(lhs.second))->first < (*std::begin(rhs.second))->first;
+      }));
+  OrphanItr orphan_itr(std::make_pair(lowest, std::begin(lowest->second)));
   versions_.erase(root_.second);
   root_.first = orphan_itr.first->first;
   root_.second = *orphan_itr.second;
-- 
2.43.0


From 3b83164c7f38b8eabb2843f2987040ab44329df0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 17/64] fix: swapping version histories resets the parents of
 their orphans

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 98515b3..5c5de2d 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -768,11 +768,11 @@ void swap(StructuredDataVersions& lhs, StructuredDataVersions& rhs) MAIDSAFE_NOE
   swap(lhs.orphans_, rhs.orphans_);
   for (const auto& lhs_orphans : lhs.orphans_) {
     for (auto lhs_orphan : lhs_orphans.second)
-      lhs_orphan->second->parent == std::end(lhs.versions_);
+      lhs_orphan->second->parent = std::end(lhs.versions_);
   }
   for (const auto& rhs_orphans : rhs.orphans_) {
     for (auto rhs_orphan : rhs_orphans.second)
-      rhs_orphan->second->parent == std::end(rhs.versions_);
+      rhs_orphan->second->parent = std::end(rhs.versions_);
   }
 }
 
-- 
2.43.0


From 875bf0c9c92e4da3bf69737aa2de5205fab11bab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 18/64] fix: merging into an empty version history no longer
 dereferences its missing root

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 5c5de2d..e89942f 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -281,7 +281,8 @@ void StructuredDataVersions::BranchToCereal(
 
 void StructuredDataVersions::ApplySerialised(const serialised_type& serialised_data_versions) {
   StructuredDataVersions new_info(serialised_data_versions);
-  ApplyBranch(root_.first, root_.second, new_info);
+  if (root_.second != std::end(versions_))
+    ApplyBranch(root_.first, root_.second, new_info);
   for (const auto& orphan_set : orphans_) {
     for (const auto& orphan : orphan_set.second)
       ApplyBranch(orphan_set.first, orphan, new_info);
-- 
2.43.0


From f35337be21f663fac3c33dedda87d2769f2698eb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 19/64] fix: a serialised version history with an empty branch
 is refused

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index e89942f..cfaf7e7 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -180,6 +180,8 @@ void StructuredDataVersions::BranchFromCereal(
 
   // Handle first version in branch
   auto& serialised_branch(serialised_versions.branches[serialised_branch_index]);
+  if (serialised_branch.names.empty())
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
   auto forking_child_count(serialised_branch.names.front().forking_child_count);
   auto itr(HandleFirstVersionInBranchFromCereal(parent_itr, serialised_branch));
 
-- 
2.43.0


From c5597cdf324c6d246b313eb0be2eccea7fff669d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:09:51 +0000
Subject: [PATCH 20/64] fix: adding to an LRU cache of capacity zero no longer
 removes from an empty list

---
 include/maidsafe/common/containers/lru_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maidsafe/common/containers/lru_cache.h b/include/maidsafe/common/containers/lru_cache.h
index 92fed95..8d166d7 100644
--- a/include/maidsafe/common/containers/lru_cache.h
+++ b/include/maidsafe/common/containers/lru_cache.h
@@ -98,7 +98,7 @@ class LruCacheBase {
   using Storage = typename StorageType<KeyType, T>::type;
 
   typename KeyOrder<KeyType>::iterator PrepareToAdd(const KeyType& key) {
-    if (storage_.find(key) != storage_.end())
+    if (capacity_ == 0 || storage_.find(key) != storage_.end())
       return std::end(key_order_);
     // Check if we should evict any entries because of size
     if (storage_.size() == capacity_)
-- 
2.43.0


From d6fdbe3e7b92b14ae660b9cbeefb85b7e0f19fe7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:09:51 +0000
Subject: [PATCH 21/64] fix: a very long time to live no longer overflows in
 the LRU cache

---
 include/maidsafe/common/containers/lru_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maidsafe/common/containers/lru_cache.h b/include/maidsafe/common/containers/lru_cache.h
index 8d166d7..d8ec6e9 100644
--- a/include/maidsafe/common/containers/lru_cache.h
+++ b/include/maidsafe/common/containers/lru_cache.h
@@ -126,7 +126,7 @@ class LruCacheBase {
       return false;
     auto key = storage_.find(key_order_.front());
     assert(key != std::end(storage_) && "cannot find element");
-    return (std::get<1>(key->second) + time_to_live_) < std::chrono::steady_clock::now();
+    return std::chrono::steady_clock::now() - std::get<1>(key->second) > time_to_live_;
   }
 
   const size_t capacity_;
-- 
2.43.0


From 23f694521379f8b05cf5dcf4ef9071cd2471ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:36 +0000
Subject: [PATCH 22/64] fix: a byte which is neither 0 nor 1 is no longer
 parsed into a bool

---
 include/maidsafe/common/serialisation/binary_archive.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/maidsafe/common/serialisation/binary_archive.h b/include/maidsafe/common/serialisation/binary_archive.h
index b64ae40..3010f34 100644
--- a/include/maidsafe/common/serialisation/binary_archive.h
+++ b/include/maidsafe/common/serialisation/binary_archive.h
@@ -87,6 +87,16 @@ inline typename std::enable_if<std::is_arithmetic<T>::value, void>::type CEREAL_
   ar.loadBinary(std::addressof(t), sizeof(t));
 }
 
+// Loading bool from binary.  Only the two values written for a bool are valid representations of one.
+inline void CEREAL_LOAD_FUNCTION_NAME(BinaryInputArchive& ar, bool& t) {
+  static_assert(sizeof(bool) == 1U, "bool is saved as a single byte.");
+  unsigned char value(0);
+  ar.loadBinary(std::addressof(value), sizeof(value));
+  if (value > 1U)
+    throw cereal::Exception("Failed to read a bool from input stream!");
+  t = (value == 1U);
+}
+
 // Serializing NVP types to binary
 template <class Archive, class T>
 inline CEREAL_ARCHIVE_RESTRICT(BinaryInputArchive, BinaryOutputArchive)
-- 
2.43.0


From 71bba27288587b5a211ec7fc4b8a61df92b5c6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:27 +0000
Subject: [PATCH 23/64] fix: a serialised flyweight's reference to nothing or
 to another type of flyweight is refused

---
 .../serialisation/types/boost_flyweight.h     | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/maidsafe/common/serialisation/types/boost_flyweight.h b/include/maidsafe/common/serialisation/types/boost_flyweight.h
index d611b71..4526359 100644
--- a/include/maidsafe/common/serialisation/types/boost_flyweight.h
+++ b/include/maidsafe/common/serialisation/types/boost_flyweight.h
@@ -19,8 +19,10 @@
 #ifndef MAIDSAFE_COMMON_SERIALISATION_TYPES_BOOST_FLYWEIGHT_H_
 #define MAIDSAFE_COMMON_SERIALISATION_TYPES_BOOST_FLYWEIGHT_H_
 
-#include <cassert>
 #include <memory>
+#include <string>
+#include <typeinfo>
+#include <utility>
 
 #ifdef _MSC_VER
 #pragma warning(push)
@@ -35,6 +37,15 @@
 
 namespace cereal {
 
+namespace detail {
+
+struct FlyweightHelperBase {
+  explicit FlyweightHelperBase(const std::type_info& type_in) : type(type_in) {}
+  const std::type_info& type;
+};
+
+}  // namespace detail
+
 template <typename Archive, typename Type, typename... Params>
 void CEREAL_SAVE_FUNCTION_NAME(Archive& archive,
                                const boost::flyweight<Type, Params...>& flyweight) {
@@ -48,11 +59,12 @@ void CEREAL_SAVE_FUNCTION_NAME(Archive& archive,
 
 template <typename Archive, typename Type, typename... Params>
 void CEREAL_LOAD_FUNCTION_NAME(Archive& archive, boost::flyweight<Type, Params...>& flyweight) {
-  struct Helper {
-    explicit Helper(boost::flyweight<Type, Params...> value_in)
-      : value(std::move(value_in)) {
-    }
-    boost::flyweight<Type, Params...> value;
+  using Flyweight = boost::flyweight<Type, Params...>;
+
+  struct Helper : detail::FlyweightHelperBase {
+    explicit Helper(Flyweight value_in)
+        : detail::FlyweightHelperBase(typeid(Flyweight)), value(std::move(value_in)) {}
+    Flyweight value;
   };
 
   std::shared_ptr<Helper> ptr{};
@@ -63,13 +75,17 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& archive, boost::flyweight<Type, Params..
   if (id & detail::msb_32bit) {
     Type object{};
     archive(make_nvp("data", object));
-    ptr = std::make_shared<Helper>(boost::flyweight<Type, Params...>{object});
-    archive.registerSharedPointer(id, ptr);
+    ptr = std::make_shared<Helper>(Flyweight{object});
+    archive.registerSharedPointer(id, std::shared_ptr<detail::FlyweightHelperBase>(ptr));
   } else {
-    ptr = std::static_pointer_cast<Helper>(archive.getSharedPointer(id));
+    // The ID is untrusted, so may refer to nothing or to a flyweight of a different type.
+    auto base(std::static_pointer_cast<detail::FlyweightHelperBase>(archive.getSharedPointer(id)));
+    if (!base || base->type != typeid(Flyweight))
+      throw Exception("Error while trying to deserialize a flyweight. Invalid id " +
+                      std::to_string(id));
+    ptr = std::static_pointer_cast<Helper>(base);
   }
 
-  assert(ptr != nullptr);
   flyweight = ptr->value;
 }
 
-- 
2.43.0


From ae1aeca00c4612a202700cd0aface6fe13a350bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 24/64] fix: reading, writing and merging version histories no
 longer recurse once per fork

---
 .../data_types/structured_data_versions.h     |  6 +-
 .../data_types/structured_data_versions.cc    | 85 +++++++++----------
 2 files changed, 42 insertions(+), 49 deletions(-)

diff --git a/include/maidsafe/common/data_types/structured_data_versions.h b/include/maidsafe/common/data_types/structured_data_versions.h
index 4ee77e7..a647edd 100644
--- a/include/maidsafe/common/data_types/structured_data_versions.h
+++ b/include/maidsafe/common/data_types/structured_data_versions.h
@@ -225,16 +225,14 @@ class StructuredDataVersions {
   void ValidateLimits() const;
 
   void BranchFromCereal(VersionsItr parent_itr,
-                        detail::StructuredDataVersionsCereal& serialised_versions,
-                        std::size_t& serialised_branch_index);
+                        detail::StructuredDataVersionsBranchCereal& serialised_branch,
+                        std::vector<std::pair<VersionsItr, std::uint32_t>>& open_forks);
   VersionsItr HandleFirstVersionInBranchFromCereal(
       VersionsItr parent_itr, detail::StructuredDataVersionsBranchCereal& serialised_branch);
 
   VersionsItr CheckedInsert(VersionName&& version);
   void BranchToCereal(VersionsItr itr, detail::StructuredDataVersionsCereal& serialised_versions,
                       const VersionName& absent_parent) const;
-  void BranchToCereal(VersionsItr itr, detail::StructuredDataVersionsCereal& serialised_versions,
-                      detail::StructuredDataVersionsBranchCereal* serialised_branch) const;
 
   void ApplyBranch(VersionName parent, VersionsItr itr, StructuredDataVersions& new_versions) const;
   VersionName ParentName(VersionsItr itr) const;
diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index cfaf7e7..fa0044d 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -145,9 +145,19 @@ StructuredDataVersions::StructuredDataVersions(const serialised_type& serialised
   max_branches_ = serialised_versions.max_branches;
   ValidateLimits();
 
-  std::size_t serialised_branch_index(0);
-  while (serialised_branch_index < serialised_versions.branches.size())
-    BranchFromCereal(std::end(versions_), serialised_versions, serialised_branch_index);
+  // Each branch which ends with a fork is followed by the branches continuing from that fork.
+  std::vector<std::pair<VersionsItr, std::uint32_t>> open_forks;
+  for (auto& serialised_branch : serialised_versions.branches) {
+    auto parent_itr(std::end(versions_));
+    if (!open_forks.empty()) {
+      parent_itr = open_forks.back().first;
+      if (--open_forks.back().second == 0U)
+        open_forks.pop_back();
+    }
+    BranchFromCereal(parent_itr, serialised_branch, open_forks);
+  }
+  if (!open_forks.empty())
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
 
   if (versions_.size() > max_versions_ || tips_of_trees_.size() > max_branches_)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
@@ -173,13 +183,9 @@ void StructuredDataVersions::ValidateLimits() const {
 }
 
 void StructuredDataVersions::BranchFromCereal(
-    VersionsItr parent_itr, detail::StructuredDataVersionsCereal& serialised_versions,
-    std::size_t& serialised_branch_index) {
-  if (serialised_branch_index >= serialised_versions.branches.size())
-    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
-
+    VersionsItr parent_itr, detail::StructuredDataVersionsBranchCereal& serialised_branch,
+    std::vector<std::pair<VersionsItr, std::uint32_t>>& open_forks) {
   // Handle first version in branch
-  auto& serialised_branch(serialised_versions.branches[serialised_branch_index]);
   if (serialised_branch.names.empty())
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
   auto forking_child_count(serialised_branch.names.front().forking_child_count);
@@ -194,14 +200,12 @@ void StructuredDataVersions::BranchFromCereal(
     CheckedInsert(previous_itr->second->children, itr);
     itr->second->parent = previous_itr;
   }
-  ++serialised_branch_index;
 
   // Handle continuation forks or mark as tip of tree.
   if (forking_child_count) {
     if (*forking_child_count < 2U)
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
-    for (uint32_t i(0); i != *forking_child_count; ++i)
-      BranchFromCereal(itr, serialised_versions, serialised_branch_index);
+    open_forks.emplace_back(itr, *forking_child_count);
   } else {
     CheckedInsert(tips_of_trees_, itr);
   }
@@ -253,31 +257,26 @@ void StructuredDataVersions::BranchToCereal(
   if (absent_parent.id.IsInitialised())
     serialised_branch->absent_parent = absent_parent;
 
-  BranchToCereal(itr, serialised_versions, serialised_branch);
-}
-
-void StructuredDataVersions::BranchToCereal(
-    VersionsItr itr, detail::StructuredDataVersionsCereal& serialised_versions,
-    detail::StructuredDataVersionsBranchCereal* serialised_branch) const {
+  // The branches continuing from forks are pending until all the previous ones have been handled.
+  std::vector<VersionsItr> pending;
   for (;;) {
-    if (itr == std::end(versions_))
-      return;
     serialised_branch->names.emplace_back(itr->first.index, itr->first.id);
-    if (itr->second->children.empty())
-      return;
-
-
-    if (itr->second->children.size() == 1U) {
-      itr = *std::begin(itr->second->children);
-    } else {
-      auto added_version(&serialised_branch->names.back());
-      added_version->forking_child_count = static_cast<uint32_t>(itr->second->children.size());
-      for (auto child : itr->second->children) {
-        serialised_versions.branches.emplace_back();
-        BranchToCereal(child, serialised_versions, &serialised_versions.branches.back());
-      }
-      return;
+    const auto& children(itr->second->children);
+    if (children.size() == 1U) {
+      itr = *std::begin(children);
+      continue;
+    }
+    if (!children.empty()) {
+      serialised_branch->names.back().forking_child_count =
+          static_cast<uint32_t>(children.size());
+      pending.insert(std::end(pending), children.rbegin(), children.rend());
     }
+    if (pending.empty())
+      return;
+    itr = pending.back();
+    pending.pop_back();
+    serialised_versions.branches.emplace_back();
+    serialised_branch = &serialised_versions.branches.back();
   }
 }
 
@@ -294,18 +293,14 @@ void StructuredDataVersions::ApplySerialised(const serialised_type& serialised_d
 
 void StructuredDataVersions::ApplyBranch(VersionName parent, VersionsItr itr,
                                          StructuredDataVersions& new_versions) const {
-  for (;;) {
+  std::vector<std::pair<VersionName, VersionsItr>> pending(1U, std::make_pair(parent, itr));
+  while (!pending.empty()) {
+    std::tie(parent, itr) = pending.back();
+    pending.pop_back();
     new_versions.Put(parent, itr->first);
-    if (itr->second->children.empty())
-      return;
-    parent = itr->first;
-    if (itr->second->children.size() == 1U) {
-      itr = *std::begin(itr->second->children);
-    } else {
-      for (auto child : itr->second->children)
-        ApplyBranch(parent, child, new_versions);
-      return;
-    }
+    const auto& children(itr->second->children);
+    for (auto child(children.rbegin()); child != children.rend(); ++child)
+      pending.emplace_back(itr->first, *child);
   }
 }
 
-- 
2.43.0


From e041522993131c3a3e38a0ac32b80f28659b0ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:52 +0000
Subject: [PATCH 25/64] fix: a serialised version history whose orphans' parent
 is present is refused

---
 .../common/data_types/structured_data_versions.cc        | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index fa0044d..12aeaad 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -159,6 +159,15 @@ StructuredDataVersions::StructuredDataVersions(const serialised_type& serialised
   if (!open_forks.empty())
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
 
+  // A version whose parent is in the tree can't be the root or an orphan.
+  if (versions_.count(root_.first) != 0U ||
+      std::any_of(std::begin(orphans_), std::end(orphans_),
+                  [this](const Orphans::value_type& orphan_set) {
+                    return versions_.count(orphan_set.first) != 0U;
+                  })) {
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
+  }
+
   if (versions_.size() > max_versions_ || tips_of_trees_.size() > max_branches_)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
 }
-- 
2.43.0


From cf59ba83b4dcbd914838486fffe2d4249c7481af Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 26/64] fix: DataBuffer's limits are changed and compared under
 both stores' locks

SetMaxMemoryUsage and SetMaxDiskUsage each read the other store's limit
while holding only their own store's mutex.
---
 src/maidsafe/common/data_buffer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 5d1ccd1..350b035 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -419,7 +419,9 @@ fs::path DataBuffer::GetFilename(const KeyType& key) const {
 
 void DataBuffer::SetMaxMemoryUsage(MemoryUsage max_memory_usage) {
   {
-    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
     if (max_memory_usage > disk_store_.max) {
       LOG(kError) << "Max memory usage must be <= max disk usage.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
@@ -432,7 +434,9 @@ void DataBuffer::SetMaxMemoryUsage(MemoryUsage max_memory_usage) {
 void DataBuffer::SetMaxDiskUsage(DiskUsage max_disk_usage) {
   bool increased(false);
   {
-    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
     if (memory_store_.max > max_disk_usage) {
       LOG(kError) << "Max memory usage must be <= max disk usage.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
-- 
2.43.0


From 354a15e28ac05d1824046ae0e25908f6e4cc4ec8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:45:25 +0000
Subject: [PATCH 27/64] fix: DataBuffer keeps apart the old and new values of a
 key waiting to be stored on disk

A value waiting for space on disk was identified only by its key and its
cancellation was only seen while there was still no space, so deleting or
replacing a waiting value could deadlock, leave its file behind, or have the
old value returned for the new one.
---
 include/maidsafe/common/data_buffer.h |  19 ++--
 src/maidsafe/common/data_buffer.cc    | 119 ++++++++++----------------
 2 files changed, 55 insertions(+), 83 deletions(-)

diff --git a/include/maidsafe/common/data_buffer.h b/include/maidsafe/common/data_buffer.h
index bcac0bc..1e4174d 100644
--- a/include/maidsafe/common/data_buffer.h
+++ b/include/maidsafe/common/data_buffer.h
@@ -25,7 +25,7 @@
 #include <deque>
 #include <functional>
 #include <future>
-#include <map>
+#include <list>
 #include <mutex>
 #include <string>
 
@@ -118,11 +118,15 @@ class DataBuffer {
   using MemoryIndex = std::deque<MemoryElement>;
 
   struct DiskElement {
-    explicit DiskElement(KeyType key_in) : key(std::move(key_in)), state(StoringState::kStarted) {}
+    DiskElement(KeyType key_in, const NonEmptyString* value_in)
+        : key(std::move(key_in)), value(value_in), state(StoringState::kStarted) {}
     KeyType key;
+    // The value being stored; only valid while state is kStarted
+    const NonEmptyString* value;
     StoringState state;
   };
-  using DiskIndex = std::deque<DiskElement>;
+  // A list, since the thread storing an element keeps hold of its position in the index
+  using DiskIndex = std::list<DiskElement>;
 
   void Init();
 
@@ -131,8 +135,8 @@ class DataBuffer {
                             std::unique_lock<std::mutex>& memory_store_lock);
   void StoreOnDisk(const KeyType& key, const NonEmptyString& value,
                    std::unique_lock<std::mutex>&& disk_store_lock);
-  void WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* const value,
-                          std::unique_lock<std::mutex>& disk_store_lock, bool& cancelled);
+  void WaitForSpaceOnDisk(DiskIndex::iterator entry, uint64_t required_space,
+                          std::unique_lock<std::mutex>& disk_store_lock);
   void DeleteFromMemory(const KeyType& key, StoringState& also_on_disk);
   void DeleteFromDisk(const KeyType& key);
   void RemoveFile(const KeyType& key, NonEmptyString* value);
@@ -152,10 +156,8 @@ class DataBuffer {
   MemoryIndex::iterator FindMemoryRemovalCandidate(
       uint64_t required_space, std::unique_lock<std::mutex>& memory_store_lock);
 
-  DiskIndex::iterator FindStartedToStoreOnDisk(const KeyType& key);
   DiskIndex::iterator FindOldestOnDisk();
-
-  DiskIndex::iterator FindAndThrowIfCancelled(const KeyType& key);
+  DiskIndex::iterator FindNotCancelledOnDisk(const KeyType& key);
 
   std::string DebugKeyName(const KeyType& key);
 
@@ -164,7 +166,6 @@ class DataBuffer {
   const PopFunctor kPopFunctor_;
   const boost::filesystem::path kDiskBuffer_;
   const bool kShouldRemoveRoot_;
-  std::map<KeyType, const NonEmptyString*> elements_being_moved_to_disk_{};
   std::atomic<bool> running_{true};
   std::mutex worker_mutex_{};
   std::future<void> worker_{};
diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 350b035..dccb302 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -174,64 +174,44 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
     StopRunning();
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
   }
-  disk_store_.index.emplace_back(key);
-
-  bool cancelled(false);
-  WaitForSpaceOnDisk(key, &value, disk_store_lock, cancelled);
-  if (!running_)
-    return;
-
-  if (!cancelled) {
-    if (!WriteFile(GetFilename(key), value.string())) {
-      LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
-      StopRunning();
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
+  auto entry(disk_store_.index.emplace(disk_store_.index.end(), key, &value));
+  try {
+    WaitForSpaceOnDisk(entry, value.string().size(), disk_store_lock);
+    if (running_ && entry->state == StoringState::kStarted) {
+      if (!WriteFile(GetFilename(key), value.string())) {
+        LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
+        StopRunning();
+        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
+      }
+      entry->state = StoringState::kCompleted;
+      entry->value = nullptr;
+      disk_store_.current.data += value.string().size();
+    } else {
+      disk_store_.index.erase(entry);
     }
-    auto itr(FindStartedToStoreOnDisk(key));
-    if (itr != disk_store_.index.end())
-      (*itr).state = StoringState::kCompleted;
-
-    disk_store_.current.data += value.string().size();
+  } catch (...) {
+    disk_store_.index.erase(entry);
+    throw;
   }
   disk_store_lock.unlock();
   disk_store_.cond_var.notify_all();
 }
 
-void DataBuffer::WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* const value,
-                                    std::unique_lock<std::mutex>& disk_store_lock,
-                                    bool& cancelled) {
-  while (!HasSpace(disk_store_, value->string().size()) && running_) {
-    auto itr(Find(disk_store_, key));
-    if (itr == disk_store_.index.end()) {
-      cancelled = true;
-      return;
-    }
-
-    if ((*itr).state == StoringState::kCancelled) {
+void DataBuffer::WaitForSpaceOnDisk(DiskIndex::iterator entry, uint64_t required_space,
+                                    std::unique_lock<std::mutex>& disk_store_lock) {
+  while (running_ && entry->state == StoringState::kStarted &&
+         !HasSpace(disk_store_, required_space)) {
+    auto itr(kPopFunctor_ ? FindOldestOnDisk() : disk_store_.index.end());
+    if (itr != disk_store_.index.end()) {
+      KeyType oldest_key(itr->key);
+      NonEmptyString oldest_value;
+      RemoveFile(oldest_key, &oldest_value);
       disk_store_.index.erase(itr);
-      cancelled = true;
-      return;
-    }
-
-    if (kPopFunctor_) {
-      itr = FindOldestOnDisk();
-      assert((*itr).state != StoringState::kStarted);
-      if ((*itr).state == StoringState::kCompleted) {
-        KeyType oldest_key(itr->key);
-        NonEmptyString oldest_value;
-        RemoveFile(oldest_key, &oldest_value);
-        disk_store_.index.erase(itr);
-        kPopFunctor_(oldest_key, oldest_value);
-      }
+      kPopFunctor_(oldest_key, oldest_value);
     } else {
-      // Rely on client of this class to call Delete until enough space becomes available.  Make the
-      // current value available for 'Get' (avoid 'Get' permanent blocking) by adding to
-      // 'elements_being_moved_to_disk_'.
-      if (running_) {
-        elements_being_moved_to_disk_[key] = value;
-        disk_store_.cond_var.wait(disk_store_lock);
-        elements_being_moved_to_disk_.erase(key);
-      }
+      // Rely on client of this class to call Delete until enough space becomes available.  The
+      // current value is available for 'Get' via 'entry'.
+      disk_store_.cond_var.wait(disk_store_lock);
     }
   }
 }
@@ -245,17 +225,13 @@ NonEmptyString DataBuffer::Get(const KeyType& key) {
       return (*itr).value;
   }
   std::unique_lock<std::mutex> disk_store_lock(disk_store_.mutex);
-  auto itr(FindAndThrowIfCancelled(key));
-  if ((*itr).state == StoringState::kStarted) {
-    auto temp_itr(elements_being_moved_to_disk_.find(key));
-    if (temp_itr != std::end(elements_being_moved_to_disk_))
-      return *temp_itr->second;
-    disk_store_.cond_var.wait(disk_store_lock, [this, &key]() -> bool {
-      auto itr(Find(disk_store_, key));
-      return (itr == disk_store_.index.end() || (*itr).state != StoringState::kStarted);
-    });
-    itr = FindAndThrowIfCancelled(key);
+  auto itr(FindNotCancelledOnDisk(key));
+  if (itr == disk_store_.index.end()) {
+    LOG(kWarning) << DebugKeyName(key) << " is not in the disk index or is cancelled.";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
   }
+  if (itr->state == StoringState::kStarted)
+    return *itr->value;
   auto result(ReadFile(GetFilename(key)));
   if (result)
     return NonEmptyString(*result);
@@ -324,7 +300,7 @@ void DataBuffer::DeleteFromMemory(const KeyType& key, StoringState& also_on_disk
 void DataBuffer::DeleteFromDisk(const KeyType& key) {
   {
     std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
-    auto itr(Find(disk_store_, key));
+    auto itr(FindNotCancelledOnDisk(key));
     if (itr == disk_store_.index.end()) {
       LOG(kWarning) << DebugKeyName(key) << " is not in the disk index.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
@@ -481,24 +457,19 @@ DataBuffer::MemoryIndex::iterator DataBuffer::FindMemoryRemovalCandidate(
   return itr;
 }
 
-DataBuffer::DiskIndex::iterator DataBuffer::FindStartedToStoreOnDisk(const KeyType& key) {
+DataBuffer::DiskIndex::iterator DataBuffer::FindOldestOnDisk() {
+  return std::find_if(
+      disk_store_.index.begin(), disk_store_.index.end(),
+      [](const DiskElement& entry) { return entry.state == StoringState::kCompleted; });
+}
+
+DataBuffer::DiskIndex::iterator DataBuffer::FindNotCancelledOnDisk(const KeyType& key) {
   return std::find_if(disk_store_.index.begin(), disk_store_.index.end(),
                       [&key](const DiskElement& entry) {
-    return entry.state == StoringState::kStarted && entry.key == key;
+    return entry.state != StoringState::kCancelled && entry.key == key;
   });
 }
 
-DataBuffer::DiskIndex::iterator DataBuffer::FindOldestOnDisk() { return disk_store_.index.begin(); }
-
-DataBuffer::DiskIndex::iterator DataBuffer::FindAndThrowIfCancelled(const KeyType& key) {
-  auto itr(Find(disk_store_, key));
-  if (itr == disk_store_.index.end() || (*itr).state == StoringState::kCancelled) {
-    LOG(kWarning) << DebugKeyName(key) << " is not in the disk index or is cancelled.";
-    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
-  }
-  return itr;
-}
-
 std::string DataBuffer::DebugKeyName(const KeyType& key) { return hex::Encode(key.name); }
 
 }  // namespace maidsafe
-- 
2.43.0


From 10fbd84b9bf3665b3db97729812cc7fc8f9a0231 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:45:25 +0000
Subject: [PATCH 28/64] fix: DataBuffer's Delete by predicate removes the files
 and frees the disk space

It dropped the entries of the disk index but left their files and their share
of the disk usage, and dropped the entries of values still being stored.
---
 src/maidsafe/common/data_buffer.cc | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index dccb302..138cd8f 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -252,8 +252,9 @@ void DataBuffer::Delete(const KeyType& key) {
 void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
   CheckWorkerIsStillRunning();
   {
-    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
-    auto before_size(memory_store_.index.size());
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
     memory_store_.index.erase(std::remove_if(std::begin(memory_store_.index),
                                              std::end(memory_store_.index),
                                              [&](const MemoryElement& item) {
@@ -265,17 +266,20 @@ void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
                                 }
                               }),
                               std::end(memory_store_.index));
-    if (memory_store_.index.size() != before_size)
-      memory_store_.cond_var.notify_all();
+    for (auto itr(disk_store_.index.begin()); itr != disk_store_.index.end();) {
+      if (itr->state == StoringState::kCancelled || !predicate(itr->key)) {
+        ++itr;
+      } else if (itr->state == StoringState::kStarted) {
+        itr->state = StoringState::kCancelled;
+        ++itr;
+      } else {
+        RemoveFile(itr->key, nullptr);
+        itr = disk_store_.index.erase(itr);
+      }
+    }
   }
-  std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
-  auto before_size(disk_store_.index.size());
-  disk_store_.index.erase(
-      std::remove_if(std::begin(disk_store_.index), std::end(disk_store_.index),
-                     [&](const DiskElement& item) { return predicate(item.key); }),
-      std::end(disk_store_.index));
-  if (disk_store_.index.size() != before_size)
-    disk_store_.cond_var.notify_all();
+  memory_store_.cond_var.notify_all();
+  disk_store_.cond_var.notify_all();
 }
 
 void DataBuffer::DeleteFromMemory(const KeyType& key, StoringState& also_on_disk) {
-- 
2.43.0


From 135516426c2d788420196accc3ce791ab7a69895 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:45:25 +0000
Subject: [PATCH 29/64] fix: DataBuffer doesn't take a replaced value in memory
 for one already on disk

---
 src/maidsafe/common/data_buffer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 138cd8f..2f9dc05 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -367,7 +367,8 @@ void DataBuffer::CopyQueueToDisk() {
       StoreOnDisk(key, value, std::move(disk_store_lock));
       memory_store_lock.lock();
       itr = Find(memory_store_, key);
-      if (itr != memory_store_.index.end())
+      // The value stored on disk may have been deleted and replaced by one which isn't on disk yet
+      if (itr != memory_store_.index.end() && (*itr).also_on_disk == StoringState::kStarted)
         (*itr).also_on_disk = StoringState::kCompleted;
     }
     memory_store_.cond_var.notify_all();
-- 
2.43.0


From c6bfcd224b1ab74bc6ce8bd0e4626bcc216a711d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:45:25 +0000
Subject: [PATCH 30/64] fix: lowering DataBuffer's limits below a waiting
 value's size is noticed

HasSpace's subtraction wrapped round, so the value was stored beyond the limit.
---
 src/maidsafe/common/data_buffer.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 2f9dc05..c5cf01f 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -134,6 +134,9 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
       return std::move(std::unique_lock<std::mutex>(disk_store_.mutex));
 
     WaitForSpaceInMemory(required_space, memory_store_lock);
+    // The limit may have been lowered while waiting
+    if (running_ && required_space > memory_store_.max)
+      return std::move(std::unique_lock<std::mutex>(disk_store_.mutex));
 
     if (!running_) {
       {
@@ -153,7 +156,7 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
 
 void DataBuffer::WaitForSpaceInMemory(uint64_t required_space,
                                       std::unique_lock<std::mutex>& memory_store_lock) {
-  while (!HasSpace(memory_store_, required_space)) {
+  while (required_space <= memory_store_.max && !HasSpace(memory_store_, required_space)) {
     auto itr(FindMemoryRemovalCandidate(required_space, memory_store_lock));
     if (!running_)
       return;
@@ -201,6 +204,9 @@ void DataBuffer::WaitForSpaceOnDisk(DiskIndex::iterator entry, uint64_t required
                                     std::unique_lock<std::mutex>& disk_store_lock) {
   while (running_ && entry->state == StoringState::kStarted &&
          !HasSpace(disk_store_, required_space)) {
+    // The limit may have been lowered while waiting
+    if (required_space > disk_store_.max)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
     auto itr(kPopFunctor_ ? FindOldestOnDisk() : disk_store_.index.end());
     if (itr != disk_store_.index.end()) {
       KeyType oldest_key(itr->key);
@@ -413,7 +419,6 @@ void DataBuffer::SetMaxMemoryUsage(MemoryUsage max_memory_usage) {
 }
 
 void DataBuffer::SetMaxDiskUsage(DiskUsage max_disk_usage) {
-  bool increased(false);
   {
     std::lock(memory_store_.mutex, disk_store_.mutex);
     std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
@@ -422,17 +427,14 @@ void DataBuffer::SetMaxDiskUsage(DiskUsage max_disk_usage) {
       LOG(kError) << "Max memory usage must be <= max disk usage.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
     }
-    increased = (max_disk_usage > disk_store_.max);
     disk_store_.max = max_disk_usage;
   }
-  if (increased)
-    disk_store_.cond_var.notify_all();
+  disk_store_.cond_var.notify_all();
 }
 
 template <typename T>
 bool DataBuffer::HasSpace(const T& store, uint64_t required_space) const {
-  assert(store.max >= required_space);
-  return store.current <= store.max - required_space;
+  return required_space <= store.max && store.current <= store.max - required_space;
 }
 
 template <typename T>
@@ -457,7 +459,8 @@ DataBuffer::MemoryIndex::iterator DataBuffer::FindMemoryRemovalCandidate(
                        [](const MemoryElement& key_value) {
       return key_value.also_on_disk == StoringState::kCompleted;
     });
-    return itr != memory_store_.index.end() || HasSpace(memory_store_, required_space) || !running_;
+    return itr != memory_store_.index.end() || required_space > memory_store_.max ||
+           HasSpace(memory_store_, required_space) || !running_;
   });
   return itr;
 }
-- 
2.43.0


From 93fecb66bb34270f7d66596c43a45910f3087b1c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:46:25 +0000
Subject: [PATCH 31/64] fix: only a failure of DataBuffer's worker stops the
 buffer, and Store then throws

Storing one oversized value stopped the buffer for every other value, a failed
worker could leave threads waiting for space asleep, and a Store interrupted by
the failure returned as if the value had been stored.
---
 include/maidsafe/common/data_buffer.h |  1 +
 src/maidsafe/common/data_buffer.cc    | 30 +++++++++++++++++----------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/maidsafe/common/data_buffer.h b/include/maidsafe/common/data_buffer.h
index 1e4174d..3fed3ef 100644
--- a/include/maidsafe/common/data_buffer.h
+++ b/include/maidsafe/common/data_buffer.h
@@ -141,6 +141,7 @@ class DataBuffer {
   void DeleteFromDisk(const KeyType& key);
   void RemoveFile(const KeyType& key, NonEmptyString* value);
 
+  void RunWorker();
   void CopyQueueToDisk();
   void CheckWorkerIsStillRunning();
   void StopRunning();
diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index c5cf01f..ad69037 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -73,7 +73,7 @@ void DataBuffer::Init() {
     return;
   }
   fs::remove(test_file);
-  worker_ = std::async(std::launch::async, &DataBuffer::CopyQueueToDisk, this);
+  worker_ = std::async(std::launch::async, &DataBuffer::RunWorker, this);
 }
 
 DataBuffer::~DataBuffer() {
@@ -123,6 +123,8 @@ void DataBuffer::Store(const KeyType& key, const NonEmptyString& value) {
   auto disk_store_lock(StoreInMemory(key, value));
   if (disk_store_lock)
     StoreOnDisk(key, value, std::move(disk_store_lock));
+  // The worker may have stopped while waiting for space
+  CheckWorkerIsStillRunning();
 }
 
 std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
@@ -138,14 +140,8 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
     if (running_ && required_space > memory_store_.max)
       return std::move(std::unique_lock<std::mutex>(disk_store_.mutex));
 
-    if (!running_) {
-      {
-        std::lock_guard<std::mutex> worker_lock(worker_mutex_);
-        if (worker_.valid())
-          worker_.get();
-      }
+    if (!running_)
       return std::move(std::unique_lock<std::mutex>());
-    }
 
     memory_store_.current.data += required_space;
     memory_store_.index.emplace_back(key, value);
@@ -174,7 +170,6 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
   if (value.string().size() > disk_store_.max) {
     LOG(kError) << "Cannot store " << DebugKeyName(key) << " since its " << value.string().size()
                 << " bytes exceeds max of " << disk_store_.max << " bytes.";
-    StopRunning();
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
   }
   auto entry(disk_store_.index.emplace(disk_store_.index.end(), key, &value));
@@ -183,7 +178,6 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
     if (running_ && entry->state == StoringState::kStarted) {
       if (!WriteFile(GetFilename(key), value.string())) {
         LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
-        StopRunning();
         BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
       }
       entry->state = StoringState::kCompleted;
@@ -348,6 +342,15 @@ void DataBuffer::RemoveFile(const KeyType& key, NonEmptyString* value) {
   disk_store_.current.data -= size;
 }
 
+void DataBuffer::RunWorker() {
+  try {
+    CopyQueueToDisk();
+  } catch (...) {
+    StopRunning();
+    throw;
+  }
+}
+
 void DataBuffer::CopyQueueToDisk() {
   KeyType key;
   NonEmptyString value;
@@ -395,7 +398,12 @@ void DataBuffer::CheckWorkerIsStillRunning() {
 }
 
 void DataBuffer::StopRunning() {
-  running_ = false;
+  {
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
+    running_ = false;
+  }
   memory_store_.cond_var.notify_all();
   disk_store_.cond_var.notify_all();
 }
-- 
2.43.0


From 6bed2fb837fa2486237c7d4cf73edecc37119ec9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:54:03 +0000
Subject: [PATCH 32/64] fix: ReadFile and WriteFile report a failure to read or
 write the contents

The stream's state was only checked after opening it for writing, so a write
to a full disk returned true, and an unreadable file was read as zeros.
---
 src/maidsafe/common/utils.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index dd98c7d..66928bf 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -315,8 +315,9 @@ boost::expected<std::vector<byte>, common_error> ReadFile(const fs::path& file_p
 
     std::ifstream file_in(file_path.c_str(), std::ios::in | std::ios::binary);
     file_in.read(reinterpret_cast<char*>(&file_content[0]), file_size);
-    file_in.close();
-    return file_content;
+    if (file_in.good())
+      return file_content;
+    LOG(kError) << "Failed to read " << file_size << " bytes of file " << file_path;
   }
   catch (const std::exception& e) {
     LOG(kError) << "Failed to read file " << file_path << ": " << e.what();
@@ -338,6 +339,10 @@ bool WriteFile(const boost::filesystem::path& file_path, const std::vector<byte>
     }
     file_out.write(reinterpret_cast<const char*>(content.data()), content.size());
     file_out.close();
+    if (!file_out.good()) {
+      LOG(kError) << "Failed to write all of file " << file_path;
+      return false;
+    }
   } catch (const std::exception& e) {
     LOG(kError) << "Failed to write file " << file_path << ": " << boost::diagnostic_information(e);
     return false;
-- 
2.43.0


From 793476ca00df2f2421e0d5c31cf236f6b1836ce5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:58:43 +0000
Subject: [PATCH 33/64] fix: DataBuffer deletes and replaces a key in both
 stores in one step

Delete and Store handled memory and disk one after the other, so a concurrent
Store of the same key could lose its value's file or leave two values behind.
---
 include/maidsafe/common/data_buffer.h |  2 +
 src/maidsafe/common/data_buffer.cc    | 82 ++++++++++++++-------------
 2 files changed, 45 insertions(+), 39 deletions(-)

diff --git a/include/maidsafe/common/data_buffer.h b/include/maidsafe/common/data_buffer.h
index 3fed3ef..8d00189 100644
--- a/include/maidsafe/common/data_buffer.h
+++ b/include/maidsafe/common/data_buffer.h
@@ -137,6 +137,8 @@ class DataBuffer {
                    std::unique_lock<std::mutex>&& disk_store_lock);
   void WaitForSpaceOnDisk(DiskIndex::iterator entry, uint64_t required_space,
                           std::unique_lock<std::mutex>& disk_store_lock);
+  // The following three functions must be called with both stores' mutexes locked
+  void DeleteFromBoth(const KeyType& key);
   void DeleteFromMemory(const KeyType& key, StoringState& also_on_disk);
   void DeleteFromDisk(const KeyType& key);
   void RemoveFile(const KeyType& key, NonEmptyString* value);
diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index ad69037..bdf1170 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -132,17 +132,23 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
   {
     uint64_t required_space(value.string().size());
     std::unique_lock<std::mutex> memory_store_lock(memory_store_.mutex);
-    if (required_space > memory_store_.max)
-      return std::move(std::unique_lock<std::mutex>(disk_store_.mutex));
-
-    WaitForSpaceInMemory(required_space, memory_store_lock);
-    // The limit may have been lowered while waiting
-    if (running_ && required_space > memory_store_.max)
-      return std::move(std::unique_lock<std::mutex>(disk_store_.mutex));
+    if (required_space <= memory_store_.max)
+      WaitForSpaceInMemory(required_space, memory_store_lock);
 
     if (!running_)
       return std::move(std::unique_lock<std::mutex>());
 
+    std::unique_lock<std::mutex> disk_store_lock(disk_store_.mutex);
+    try {
+      // Another thread may have stored the same key meanwhile
+      DeleteFromBoth(key);
+    } catch (const std::exception&) {
+      LOG(kVerbose) << "No other value is stored for " << DebugKeyName(key);
+    }
+    // The limit may have been lowered while waiting
+    if (required_space > memory_store_.max)
+      return std::move(disk_store_lock);
+
     memory_store_.current.data += required_space;
     memory_store_.index.emplace_back(key, value);
   }
@@ -243,10 +249,10 @@ NonEmptyString DataBuffer::Get(const KeyType& key) {
 
 void DataBuffer::Delete(const KeyType& key) {
   CheckWorkerIsStillRunning();
-  StoringState also_on_disk(StoringState::kNotStarted);
-  DeleteFromMemory(key, also_on_disk);
-  if (also_on_disk != StoringState::kNotStarted)
-    DeleteFromDisk(key);
+  std::lock(memory_store_.mutex, disk_store_.mutex);
+  std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+  std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
+  DeleteFromBoth(key);
 }
 
 void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
@@ -282,40 +288,38 @@ void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
   disk_store_.cond_var.notify_all();
 }
 
+void DataBuffer::DeleteFromBoth(const KeyType& key) {
+  StoringState also_on_disk(StoringState::kNotStarted);
+  DeleteFromMemory(key, also_on_disk);
+  if (also_on_disk != StoringState::kNotStarted)
+    DeleteFromDisk(key);
+}
+
 void DataBuffer::DeleteFromMemory(const KeyType& key, StoringState& also_on_disk) {
-  bool changed(false);
-  {
-    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
-    auto itr(Find(memory_store_, key));
-    if (itr != memory_store_.index.end()) {
-      also_on_disk = (*itr).also_on_disk;
-      memory_store_.current.data -= (*itr).value.string().size();
-      memory_store_.index.erase(itr);
-      changed = true;
-    } else {
-      // Assume it's on disk so as to invoke a DeleteFromDisk
-      also_on_disk = StoringState::kCompleted;
-    }
-  }
-  if (changed)
+  auto itr(Find(memory_store_, key));
+  if (itr != memory_store_.index.end()) {
+    also_on_disk = (*itr).also_on_disk;
+    memory_store_.current.data -= (*itr).value.string().size();
+    memory_store_.index.erase(itr);
     memory_store_.cond_var.notify_all();
+  } else {
+    // Assume it's on disk so as to invoke a DeleteFromDisk
+    also_on_disk = StoringState::kCompleted;
+  }
 }
 
 void DataBuffer::DeleteFromDisk(const KeyType& key) {
-  {
-    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
-    auto itr(FindNotCancelledOnDisk(key));
-    if (itr == disk_store_.index.end()) {
-      LOG(kWarning) << DebugKeyName(key) << " is not in the disk index.";
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
-    }
+  auto itr(FindNotCancelledOnDisk(key));
+  if (itr == disk_store_.index.end()) {
+    LOG(kWarning) << DebugKeyName(key) << " is not in the disk index.";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
+  }
 
-    if ((*itr).state == StoringState::kStarted) {
-      (*itr).state = StoringState::kCancelled;
-    } else if ((*itr).state == StoringState::kCompleted) {
-      RemoveFile(itr->key, nullptr);
-      disk_store_.index.erase(itr);
-    }
+  if ((*itr).state == StoringState::kStarted) {
+    (*itr).state = StoringState::kCancelled;
+  } else if ((*itr).state == StoringState::kCompleted) {
+    RemoveFile(itr->key, nullptr);
+    disk_store_.index.erase(itr);
   }
   disk_store_.cond_var.notify_all();
 }
-- 
2.43.0


From e1261a0e3d4c062003ed9e98ff28b7a36b4eeb2c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:05:37 +0000
Subject: [PATCH 34/64] fix: VersionToInt refuses signs, spaces, trailing
 characters and oversized majors

The major version was truncated to 16 bits, so 65537.0.000 was taken for
1.0.000, and each part was accepted with anything std::stoi ignores.
---
 src/maidsafe/common/utils.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 66928bf..b1ad2d0 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -212,23 +212,27 @@ asio::ip::address GetLocalIp(asio::ip::udp::endpoint peer_endpoint) {
 }
 
 int VersionToInt(const std::string& version) {
-  boost::tokenizer<boost::char_separator<char>> tokens(version, boost::char_separator<char>("."));
-  if (std::distance(tokens.begin(), tokens.end()) != 3)
+  boost::tokenizer<boost::char_separator<char>> tokens(
+      version, boost::char_separator<char>(".", "", boost::keep_empty_tokens));
+  if (version.find_first_not_of(".0123456789") != std::string::npos ||
+      std::distance(tokens.begin(), tokens.end()) != 3) {
+    LOG(kWarning) << "Invalid version " << version;
     return kInvalidVersion;
+  }
 
   auto itr(tokens.begin());
 
-  int16_t major_version(0), minor_version(0), patch_level(0);
+  int major_version(0), minor_version(0), patch_level(0);
   try {
-    major_version = static_cast<int16_t>(std::stoi(*(itr++)));
+    major_version = std::stoi(*(itr++));
 
-    minor_version = static_cast<int16_t>(std::stoi(*itr));
+    minor_version = std::stoi(*itr);
     if ((*itr++).size() != 1U) {
       LOG(kWarning) << "Invalid minor version " << version;
       return kInvalidVersion;
     }
 
-    patch_level = static_cast<int16_t>(std::stoi(*itr));
+    patch_level = std::stoi(*itr);
     if ((*itr++).size() != 3U) {
       LOG(kWarning) << "Invalid patch level " << version;
       return kInvalidVersion;
@@ -238,7 +242,7 @@ int VersionToInt(const std::string& version) {
     return kInvalidVersion;
   }
 
-  if (major_version < 0 || minor_version < 0 || patch_level < 0) {
+  if (major_version > (std::numeric_limits<int>::max() - 9999) / 10000) {
     LOG(kWarning) << "Invalid version " << version;
     return kInvalidVersion;
   }
-- 
2.43.0


From 29b8687fe07e0d5c6e64ea7f46d8fc42926a79fe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:05:37 +0000
Subject: [PATCH 35/64] fix: random strings of any size up to 2^32-1 no longer
 divide by zero

max - min + 1 wrapped round to 0 for the whole range of uint32_t.
---
 src/maidsafe/common/utils.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index b1ad2d0..f247d0e 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -151,6 +151,11 @@ IntType RandomInt() {
   return distribution(detail::random_number_generator());
 }
 
+// The number of sizes between 'min' and 'max' inclusive may be 2^32
+size_t RandomSize(uint32_t min, uint32_t max) {
+  return static_cast<size_t>(RandomUint32() % (static_cast<uint64_t>(max) - min + 1)) + min;
+}
+
 }  // unnamed namespace
 
 namespace detail {
@@ -261,13 +266,13 @@ uint32_t RandomUint32() { return RandomInt<uint32_t>(); }
 std::string RandomString(size_t size) { return GetRandomString<std::string>(size); }
 
 std::string RandomString(uint32_t min, uint32_t max) {
-  return GetRandomString<std::string>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomString<std::string>(RandomSize(min, max));
 }
 
 std::vector<byte> RandomBytes(size_t size) { return GetRandomString<std::vector<byte>>(size); }
 
 std::vector<byte> RandomBytes(uint32_t min, uint32_t max) {
-  return GetRandomString<std::vector<byte>>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomString<std::vector<byte>>(RandomSize(min, max));
 }
 
 std::string RandomAlphaNumericString(size_t size) {
@@ -275,7 +280,7 @@ std::string RandomAlphaNumericString(size_t size) {
 }
 
 std::string RandomAlphaNumericString(uint32_t min, uint32_t max) {
-  return GetRandomAlphaNumericString<std::string>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomAlphaNumericString<std::string>(RandomSize(min, max));
 }
 
 std::vector<byte> RandomAlphaNumericBytes(size_t size) {
@@ -283,7 +288,7 @@ std::vector<byte> RandomAlphaNumericBytes(size_t size) {
 }
 
 std::vector<byte> RandomAlphaNumericBytes(uint32_t min, uint32_t max) {
-  return GetRandomAlphaNumericString<std::vector<byte>>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomAlphaNumericString<std::vector<byte>>(RandomSize(min, max));
 }
 
 std::string WstringToString(const std::wstring& input) {
-- 
2.43.0


From 95af16a806e48024e52dab09d07d8fb4e036db2b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:26:10 +0000
Subject: [PATCH 36/64] fix: Uncompress refuses bytes following the compressed
 text

---
 src/maidsafe/common/crypto.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/crypto.cc b/src/maidsafe/common/crypto.cc
index 62475c2..ebd82ce 100644
--- a/src/maidsafe/common/crypto.cc
+++ b/src/maidsafe/common/crypto.cc
@@ -53,6 +53,21 @@ void ValidateDispersalArgs(int32_t threshold, int32_t number_of_shares) {
   }
 }
 
+// CryptoPP::Gunzip passes anything following the compressed text on to its sink unchecked.
+class StrictGunzip : public CryptoPP::Gunzip {
+ public:
+  explicit StrictGunzip(CryptoPP::BufferedTransformation* attachment)
+      : CryptoPP::Gunzip(attachment) {}
+
+ private:
+  void ProcessPoststreamTail() override {
+    CryptoPP::Gunzip::ProcessPoststreamTail();
+    if (m_inQueue.AnyRetrievable())
+      throw Err(CryptoPP::Exception::INVALID_DATA_FORMAT,
+                "Gunzip: unexpected bytes after the compressed text");
+  }
+};
+
 }  // unnamed namespace
 
 CryptoPP::RandomNumberGenerator& random_number_generator() {
@@ -132,7 +147,7 @@ UncompressedText Uncompress(const CompressedText& input) {
   std::string result;
   try {
     CryptoPP::ArraySource(input->data(), input->size(), true,
-                          new CryptoPP::Gunzip(new CryptoPP::StringSink(result)));
+                          new StrictGunzip(new CryptoPP::StringSink(result)));
   } catch (const CryptoPP::Exception& e) {
     LOG(kError) << "Failed uncompressing: " << e.what();
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::uncompression_error));
-- 
2.43.0


From 072d09b72db803801f2452572ab28d14535a0f7c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:26:10 +0000
Subject: [PATCH 37/64] fix: recovering from no parts, or from parts too short
 to be one, is refused

---
 src/maidsafe/common/crypto.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/maidsafe/common/crypto.cc b/src/maidsafe/common/crypto.cc
index ebd82ce..afdbe26 100644
--- a/src/maidsafe/common/crypto.cc
+++ b/src/maidsafe/common/crypto.cc
@@ -68,6 +68,20 @@ class StrictGunzip : public CryptoPP::Gunzip {
   }
 };
 
+void ValidateParts(const DataParts& parts) {
+  if (parts.empty()) {
+    LOG(kError) << "At least one part is needed.";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  }
+  for (const auto& part : parts) {
+    // Each piece is prefixed with a 4-byte piece number
+    if (part.size() < 4) {
+      LOG(kError) << "A part of " << part.size() << " bytes holds no piece number.";
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+    }
+  }
+}
+
 }  // unnamed namespace
 
 CryptoPP::RandomNumberGenerator& random_number_generator() {
@@ -207,6 +221,7 @@ DataParts SecretShareData(int32_t threshold, int32_t number_of_shares, const Pla
 }
 
 PlainText SecretRecoverData(const DataParts& parts) {
+  ValidateParts(parts);
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * parts.front().size());
@@ -263,6 +278,7 @@ DataParts InfoDisperse(int32_t threshold, int32_t number_of_shares, const PlainT
 }
 
 PlainText InfoRetrieve(const DataParts& parts) {
+  ValidateParts(parts);
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * (parts.front().size() - 4));
-- 
2.43.0


From 56dfa6b1f430d4c6e9e6660ede09028ceea7a1b0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:22:55 +0000
Subject: [PATCH 38/64] fix: CheckFileSignature refuses a signature whose size
 isn't that of the key

---
 src/maidsafe/common/rsa.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maidsafe/common/rsa.cc b/src/maidsafe/common/rsa.cc
index a414648..bddec15 100644
--- a/src/maidsafe/common/rsa.cc
+++ b/src/maidsafe/common/rsa.cc
@@ -198,6 +198,10 @@ bool CheckFileSignature(const boost::filesystem::path& filename, const Signature
   }
 
   CryptoPP::RSASS<CryptoPP::PSS, CryptoPP::SHA512>::Verifier verifier(public_key);
+  if (signature.size() != verifier.SignatureLength()) {
+    LOG(kError) << "CheckFileSignature signature has the wrong size for this key";
+    return false;
+  }
   try {
     auto verifier_filter = new CryptoPP::VerifierFilter(verifier);
     verifier_filter->Put(signature.data(), verifier.SignatureLength());
-- 
2.43.0


From 8812b988cd2c58c9ebd6048d098ae52b5259dc3c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:30:09 +0000
Subject: [PATCH 39/64] fix: data recovered from shares no longer keeps its
 padding after some contents

---
 src/maidsafe/common/crypto.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/crypto.cc b/src/maidsafe/common/crypto.cc
index afdbe26..2dafa42 100644
--- a/src/maidsafe/common/crypto.cc
+++ b/src/maidsafe/common/crypto.cc
@@ -53,6 +53,14 @@ void ValidateDispersalArgs(int32_t threshold, int32_t number_of_shares) {
   }
 }
 
+// Takes off the padding added when sharing: a single one, then zeros.  CryptoPP's own remover works on
+// blocks of 256 bytes, and loses the padding if the data has a one and zeros at the end of a block.
+void RemovePadding(std::vector<byte>& data) {
+  auto last(std::find_if(data.rbegin(), data.rend(), [](byte value) { return value != 0; }));
+  if (last != data.rend() && *last == 1)
+    data.resize(data.rend() - last - 1);
+}
+
 // CryptoPP::Gunzip passes anything following the compressed text on to its sink unchecked.
 class StrictGunzip : public CryptoPP::Gunzip {
  public:
@@ -228,7 +236,7 @@ PlainText SecretRecoverData(const DataParts& parts) {
   std::vector<byte> data(data_size);
 
   auto array_sink = new CryptoPP::ArraySink(data.data(), data_size);
-  CryptoPP::SecretRecovery recovery(static_cast<int>(num_to_check), array_sink);
+  CryptoPP::SecretRecovery recovery(static_cast<int>(num_to_check), array_sink, false);
   CryptoPP::vector_member_ptrs<CryptoPP::ArraySource> array_sources(num_to_check);
   CryptoPP::vector_member_ptrs<CryptoPP::StringSource> string_sources(num_to_check);
   CryptoPP::SecByteBlock channel(4);
@@ -245,6 +253,7 @@ PlainText SecretRecoverData(const DataParts& parts) {
     array_sources[i]->PumpAll();
 
   data.resize(array_sink->TotalPutLength());
+  RemovePadding(data);
   return PlainText(std::move(data));
 }
 
@@ -285,7 +294,7 @@ PlainText InfoRetrieve(const DataParts& parts) {
   std::vector<byte> data(data_size);
 
   auto array_sink = new CryptoPP::ArraySink(data.data(), data_size);
-  CryptoPP::InformationRecovery recovery(static_cast<int>(num_to_check), array_sink);
+  CryptoPP::InformationRecovery recovery(static_cast<int>(num_to_check), array_sink, false);
   CryptoPP::vector_member_ptrs<CryptoPP::ArraySource> array_sources(num_to_check);
   CryptoPP::SecByteBlock channel(4);
 
@@ -301,6 +310,7 @@ PlainText InfoRetrieve(const DataParts& parts) {
     array_sources[i]->PumpAll();
 
   data.resize(array_sink->TotalPutLength());
+  RemovePadding(data);
   return PlainText(std::move(data));
 }
 
-- 
2.43.0


From fd7ef3ece77276bc7eb4414ed6a5fbcd4030b1a5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:37:27 +0000
Subject: [PATCH 40/64] fix: removing too many characters of a
 SecureInputString leaves it unchanged

---
 .../common/authentication/detail/secure_string.h   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/maidsafe/common/authentication/detail/secure_string.h b/include/maidsafe/common/authentication/detail/secure_string.h
index 0283e19..701ac35 100644
--- a/include/maidsafe/common/authentication/detail/secure_string.h
+++ b/include/maidsafe/common/authentication/detail/secure_string.h
@@ -181,16 +181,18 @@ void SecureInputString<Predicate, Size, Tag>::Insert(size_type position,
 
 template <typename Predicate, SecureString::size_type Size, typename Tag>
 void SecureInputString<Predicate, Size, Tag>::Remove(size_type position, size_type length) {
-  if (IsFinalised())
+  // A removal which goes out of range must leave the string as it was.
+  if (IsFinalised()) {
+    const size_type size(string().size());
+    if (length == 0 || position >= size || length > size - position)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
     Reset();
+  }
   auto it(encrypted_chars_.find(position));
-  if (it == encrypted_chars_.end() || length == 0)
+  if (length == 0 || length > static_cast<size_type>(std::distance(it, encrypted_chars_.end())))
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
-  while (length != 0) {
+  for (; length != 0; --length)
     it = encrypted_chars_.erase(it);
-    if ((length -= 1 != 0) && it == encrypted_chars_.end())
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
-  }
   while (it != encrypted_chars_.end()) {
     auto encrypted_char = it->second;
     it = encrypted_chars_.erase(it);
-- 
2.43.0


From aef3bbab5846c513d43dee0663da8110ca2a64d0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:01:42 +0000
Subject: [PATCH 41/64] fix: the handler reading a TCP message's size runs in
 the connection's strand

---
 src/maidsafe/common/tcp/connection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index 34f195e..b863dcd 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -110,7 +110,7 @@ void Connection::DoClose() {
 void Connection::ReadSize() {
   ConnectionPtr this_ptr{shared_from_this()};
   asio::async_read(socket_, asio::buffer(receiving_message_.size_buffer),
-                   [this_ptr](const std::error_code& ec, size_t bytes_transferred) {
+                   strand_.wrap([this_ptr](const std::error_code& ec, size_t bytes_transferred) {
     if (ec) {
       LOG(kInfo) << ec.message();
       return this_ptr->DoClose();
@@ -134,7 +134,7 @@ void Connection::ReadSize() {
 
     this_ptr->receiving_message_.data_buffer.resize(data_size);
     this_ptr->ReadData();
-  });
+  }));
 }
 
 void Connection::ReadData() {
-- 
2.43.0


From 81f29456c32e57791d78bd6229c9e32c4b2f31c9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:01:42 +0000
Subject: [PATCH 42/64] fix: StopListening runs in the listener's strand and
 keeps the listener alive

---
 src/maidsafe/common/tcp/listener.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index 4468c5f..dbdbae5 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -131,7 +131,8 @@ void Listener::HandleAccept(ConnectionPtr accepted_connection, const std::error_
 }
 
 void Listener::StopListening() {
-  asio::post(strand_.context().get_executor(), [this] { DoStopListening(); });
+  ListenerPtr this_ptr{shared_from_this()};
+  asio::post(strand_, [this_ptr] { this_ptr->DoStopListening(); });
 }
 
 void Listener::DoStopListening() {
-- 
2.43.0


From f26bf2239002708d404b91c694e34ab3317703e5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:01:42 +0000
Subject: [PATCH 43/64] fix: TCP falls back to IPv4 where IPv6 isn't supported

---
 src/maidsafe/common/tcp/connection.cc | 3 +--
 src/maidsafe/common/tcp/listener.cc   | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index b863dcd..2edc426 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -61,8 +61,7 @@ Connection::Connection(asio::io_service::strand& strand, Port remote_port)
   std::error_code connect_error;
   // Try IPv6 first.
   socket_.connect(ip::tcp::endpoint{ip::address_v6::loopback(), remote_port}, connect_error);
-  if (connect_error &&
-      connect_error == std::make_error_code(std::errc::address_family_not_supported)) {
+  if (connect_error == asio::error::address_family_not_supported) {
     // Try IPv4 now.
     socket_.connect(ip::tcp::endpoint{ip::address_v4::loopback(), remote_port}, connect_error);
   }
diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index dbdbae5..ab5f0a7 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -21,6 +21,7 @@
 #include <condition_variable>
 #include <limits>
 
+#include "asio/error.hpp"
 #include "asio/post.hpp"
 #include "asio/wrap.hpp"
 
@@ -78,7 +79,7 @@ void Listener::DoStartListening(Port port) {
   try {
     acceptor_.open(endpoint.protocol());
   } catch (const std::system_error& error) {
-    if (error.code() == std::make_error_code(std::errc::address_family_not_supported)) {
+    if (error.code() == asio::error::address_family_not_supported) {
       // Try IPv4 now.
       endpoint = asio::ip::tcp::endpoint{asio::ip::address_v4::loopback(), port};
       acceptor_.open(endpoint.protocol());
-- 
2.43.0


From 31669538da03c272f16bbb1ca3db26408e3d2f73 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:12:36 +0000
Subject: [PATCH 44/64] fix: no TCP message is delivered after the connection
 was reported as closed

---
 src/maidsafe/common/tcp/connection.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index 2edc426..4ed0fd9 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -150,8 +150,11 @@ void Connection::ReadData() {
                      // Dispatch the message outside the strand.
                      Message data{std::begin(this_ptr->receiving_message_.data_buffer),
                                       std::end(this_ptr->receiving_message_.data_buffer)};
-                     asio::post(this_ptr->strand_,
-                                [=] { this_ptr->on_message_received_(std::move(data)); });
+                     asio::post(this_ptr->strand_, [=] {
+                       // No message is delivered once the connection has been reported as closed.
+                       if (this_ptr->socket_.is_open())
+                         this_ptr->on_message_received_(std::move(data));
+                     });
                      asio::dispatch(this_ptr->strand_, [this_ptr] { this_ptr->ReadSize(); });
                    }));
 }
-- 
2.43.0


From 61d6388576e1296737537249edc84a45a609ae1a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:29:58 +0000
Subject: [PATCH 45/64] fix: a Transaction starts uncommitted, so that
 abandoning it always rolls it back

---
 src/maidsafe/common/sqlite3_wrapper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 1e34bfd..9df0583 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -61,7 +61,7 @@ void Database::CheckPoint() {
 }
 
 
-Transaction::Transaction(Database& database_in) : kAttempts(200), database(database_in) {
+Transaction::Transaction(Database& database_in) : kAttempts(200), committed(false), database(database_in) {
   std::string query("BEGIN IMMEDIATE TRANSACTION");  // immediate or exclusive transaction
   for (int i(0); i != kAttempts; ++i) {
     try {
-- 
2.43.0


From 0a36711e24713db6125f325b5298215ad40d045e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:29:58 +0000
Subject: [PATCH 46/64] fix: the handle of a database which can't be opened is
 released

---
 src/maidsafe/common/sqlite3_wrapper.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 9df0583..c0352cd 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -37,6 +37,7 @@ Database::Database(const boost::filesystem::path& filename, Mode mode)
   auto flags = static_cast<int>(mode);
   if (sqlite3_open_v2(filename.string().c_str(), &database, flags, NULL) != SQLITE_OK) {
     LOG(kError) << "Could not open DB at: " << filename << ".  Error: " << sqlite3_errmsg(database);
+    sqlite3_close(database);
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
   }
   assert(sqlite3_threadsafe());
-- 
2.43.0


From 5f645a83c74e86eb12af28fbfc9de253dfaac5a2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:30:31 +0000
Subject: [PATCH 47/64] fix: binding an empty blob to an SQLite statement
 stores an empty blob

---
 src/maidsafe/common/sqlite3_wrapper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index c0352cd..e41dd28 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -169,7 +169,8 @@ void Statement::BindText(int row_index, const std::string& text) {
 
 void Statement::BindBlob(int row_index, const SerialisedData& blob) {
   assert(blob.size() < std::numeric_limits<int>::max());
-  auto return_value = sqlite3_bind_blob(statement, row_index, &blob[0],
+  // A null pointer would bind NULL rather than an empty blob.
+  auto return_value = sqlite3_bind_blob(statement, row_index, blob.empty() ? "" : static_cast<const void*>(blob.data()),
                                         static_cast<int>(blob.size()),
                                         reinterpret_cast<sqlite3_destructor_type>(-1));
                                         // SQLITE_TRANSIENT macro replaced with C++ cast
-- 
2.43.0


From 1db0c3d872e40a2e072248375e9a4584148a35af Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:31:06 +0000
Subject: [PATCH 48/64] fix: SQLite's error messages are released

---
 src/maidsafe/common/sqlite3_wrapper.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index e41dd28..c419e7b 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -41,10 +41,9 @@ Database::Database(const boost::filesystem::path& filename, Mode mode)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
   }
   assert(sqlite3_threadsafe());
-  char* error_message = 0;
-  sqlite3_exec(database, "PRAGMA synchronous = OFF", NULL, 0, &error_message);
-  sqlite3_exec(database, "PRAGMA journal_mode = WAL", NULL, 0, &error_message);
-  sqlite3_exec(database, "PRAGMA wal_autocheckpoint = 0", NULL, 0, &error_message);
+  sqlite3_exec(database, "PRAGMA synchronous = OFF", NULL, 0, NULL);
+  sqlite3_exec(database, "PRAGMA journal_mode = WAL", NULL, 0, NULL);
+  sqlite3_exec(database, "PRAGMA wal_autocheckpoint = 0", NULL, 0, NULL);
   sqlite3_busy_timeout(database, 250);
   insertlimit = sqlite3_limit(database, SQLITE_LIMIT_VARIABLE_NUMBER, -1);
 }
@@ -121,6 +120,7 @@ void Transaction::Execute(const std::string& query) {
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_busy));
     } else if (result == SQLITE_NOTADB) {
       LOG(kError) << "DB not present";
+      sqlite3_free(error_message);
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
     } else {
       LOG(kError) << "SQL error: " << error_message << ".  Return value: " << result
-- 
2.43.0


From 61313cca4bfdcd4e6900635535141a67349c72a3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:34:43 +0000
Subject: [PATCH 49/64] fix: reading more strings from shared memory than it
 holds fails rather than crashes

---
 src/maidsafe/common/ipc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maidsafe/common/ipc.cc b/src/maidsafe/common/ipc.cc
index 98a2922..f257ece 100644
--- a/src/maidsafe/common/ipc.cc
+++ b/src/maidsafe/common/ipc.cc
@@ -19,6 +19,7 @@
 #include "maidsafe/common/ipc.h"
 
 #include "maidsafe/common/encode.h"
+#include "maidsafe/common/error.h"
 #include "maidsafe/common/utils.h"
 
 namespace maidsafe {
@@ -53,6 +54,8 @@ std::vector<std::string> ReadSharedMemory(std::string name_in, int number) {
   std::vector<std::string> ret_vec;
   for (int i(0); i < number; ++i) {
     auto res = segment.find<bi_string>(std::to_string(i).c_str());
+    if (!res.first)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
     ret_vec.push_back(hex::DecodeToString(std::string(res.first->c_str(), res.first->size())));
   }
   return ret_vec;
-- 
2.43.0


From eca77789fde14d33af11493aa2ce7f157c8a4980 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:34:43 +0000
Subject: [PATCH 50/64] fix: a program name which is already quoted is kept in
 the command line

---
 src/maidsafe/common/process.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/process.cc b/src/maidsafe/common/process.cc
index 5f234f4..30233d2 100644
--- a/src/maidsafe/common/process.cc
+++ b/src/maidsafe/common/process.cc
@@ -42,6 +42,8 @@ std::string ConcatenateArgs(const std::vector<std::string>& args) {
     // contains spaces.
     if (args[0].front() != '"')
       result = '"' + args[0] + "\" ";
+    else
+      result = args[0] + ' ';
 
     result += std::accumulate(std::begin(args) + 1, std::end(args), std::string(""),
                               [](const std::string& lhs, const std::string& rhs) {
-- 
2.43.0


From 4d0c3922b7c37c17ec8e8a1aa2e8906386577cf0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:34:43 +0000
Subject: [PATCH 51/64] fix: both parts of a partly coloured log line are
 printed together

---
 src/maidsafe/common/log.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 4567ba9..9b48d24 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -97,7 +97,7 @@ WORD GetColourAttribute(Colour colour) {
   }
 }
 
-void ColouredPrint(Colour colour, const std::string& text) {
+void ColouredPrint(Colour colour, const std::string& text, const std::string& plain_text = "") {
   CONSOLE_SCREEN_BUFFER_INFO console_info_before;
   const HANDLE kConsoleHandle(GetStdHandle(STD_OUTPUT_HANDLE));
   std::lock_guard<maidsafe::detail::Spinlock> lock(g_console_mutex());
@@ -112,6 +112,7 @@ void ColouredPrint(Colour colour, const std::string& text) {
   } else {
     printf("%s", text.c_str());
   }
+  printf("%s", plain_text.c_str());
   fflush(stdout);
 }
 
@@ -132,7 +133,7 @@ const char* GetAnsiColourCode(Colour colour) {
   }
 }
 
-void ColouredPrint(Colour colour, const std::string& text) {
+void ColouredPrint(Colour colour, const std::string& text, const std::string& plain_text = "") {
   // On non-Windows platforms, we rely on the TERM variable.
   std::lock_guard<maidsafe::detail::Spinlock> lock(g_console_mutex());
   auto env_ptr = std::getenv("TERM");
@@ -147,6 +148,7 @@ void ColouredPrint(Colour colour, const std::string& text) {
   printf("%s", text.c_str());
   if (kUseColour)
     printf("\033[m");
+  printf("%s", plain_text.c_str());
   fflush(stdout);
 }
 
@@ -265,8 +267,7 @@ void SendToConsole(ColourMode colour_mode, Colour colour, int level,
   if (colour_mode == ColourMode::kFullLine) {
     ColouredPrint(colour, coloured_log_entry + plain_log_entry);
   } else if (colour_mode == ColourMode::kPartialLine) {
-    ColouredPrint(colour, coloured_log_entry);
-    printf("%s", plain_log_entry.c_str());
+    ColouredPrint(colour, coloured_log_entry, plain_log_entry);
   } else {
     printf("%s%s", coloured_log_entry.c_str(), plain_log_entry.c_str());
   }
-- 
2.43.0


From 48ac599be74787aa3a5b542e0c32ef1c8c56e66a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:34:43 +0000
Subject: [PATCH 52/64] fix: visualiser logging is marked as initialised once
 it is

---
 src/maidsafe/common/log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 9b48d24..495c91e 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -598,7 +598,6 @@ void Logging::InitialiseVlog(const std::string& prefix, const std::string& sessi
   if (visualiser_.initialised)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::already_initialised));
   std::call_once(visualiser_.initialised_once_flag, [&] {
-    visualiser_.initialised = true;
     visualiser_.prefix = prefix;
     visualiser_.session_id = session_id;
     if (visualiser_.session_id.empty())
@@ -613,6 +612,7 @@ void Logging::InitialiseVlog(const std::string& prefix, const std::string& sessi
       LOG(kError) << "Failed to connect to VLOG server: "
                   << visualiser_.server_stream.error().message();
     }
+    visualiser_.initialised = true;
   });
 }
 
-- 
2.43.0


From 577c5e75d4f62937eb4977a7731dea323bc04624 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:53:20 +0000
Subject: [PATCH 53/64] fix: a log line without colours isn't printed into a
 coloured one

---
 src/maidsafe/common/log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 495c91e..62cf9a4 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -269,7 +269,7 @@ void SendToConsole(ColourMode colour_mode, Colour colour, int level,
   } else if (colour_mode == ColourMode::kPartialLine) {
     ColouredPrint(colour, coloured_log_entry, plain_log_entry);
   } else {
-    printf("%s%s", coloured_log_entry.c_str(), plain_log_entry.c_str());
+    ColouredPrint(Colour::kDefaultColour, coloured_log_entry, plain_log_entry);
   }
   static_cast<void>(level);
 #endif
-- 
2.43.0


From 1383c247a83008eef64637b998ed4bea4ae82265 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:09:53 +0000
Subject: [PATCH 54/64] fix: without a logging folder no visualiser log file is
 written

---
 src/maidsafe/common/log.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 62cf9a4..7824651 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -602,7 +602,8 @@ void Logging::InitialiseVlog(const std::string& prefix, const std::string& sessi
     visualiser_.session_id = session_id;
     if (visualiser_.session_id.empty())
       LOG(kWarning) << "VLOG messages disabled since Vlog Session ID is empty.";
-    visualiser_.logfile.stream.open(GetLogfileName("visualiser").c_str(), std::ios_base::trunc);
+    if (!log_folder_.empty())
+      visualiser_.logfile.stream.open(GetLogfileName("visualiser").c_str(), std::ios_base::trunc);
     visualiser_.server_name = server_name;
     visualiser_.server_port = server_port;
     visualiser_.server_dir = server_dir;
-- 
2.43.0


From 551d4e809e5d6be94d1cc8d05415aa56a75dfc16 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:13:31 +0000
Subject: [PATCH 55/64] fix: the time in a log file's name is formatted under
 the lock like all others

---
 src/maidsafe/common/log.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 7824651..09be418 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -648,7 +648,11 @@ void Logging::HandleFilterOptions() {
 
 fs::path Logging::GetLogfileName(const std::string& project) const {
   char mbstr[100];
-  std::strftime(mbstr, 100, "%Y-%m-%d_%H-%M-%S_", std::gmtime(&start_time_));  // NOLINT (Fraser)
+  {
+    // 'gmtime' isn't thread-safe.
+    std::lock_guard<maidsafe::detail::Spinlock> lock(g_console_mutex());
+    std::strftime(mbstr, 100, "%Y-%m-%d_%H-%M-%S_", std::gmtime(&start_time_));  // NOLINT (Fraser)
+  }
   fs::path name(log_folder_ / mbstr);
   name += project + ".log";
   return name;
-- 
2.43.0


From f019133a35df3323138e4280f07c83c65c7d08b2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:55:02 +0000
Subject: [PATCH 56/64] fix: an empty program name is quoted rather than read
 beyond its end

---
 src/maidsafe/common/process.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/process.cc b/src/maidsafe/common/process.cc
index 30233d2..e46af3f 100644
--- a/src/maidsafe/common/process.cc
+++ b/src/maidsafe/common/process.cc
@@ -40,7 +40,7 @@ std::string ConcatenateArgs(const std::vector<std::string>& args) {
   if (!args.empty()) {
     // Wrap the first arg (which is the path to the exe) in quotes if it isn't already, in case it
     // contains spaces.
-    if (args[0].front() != '"')
+    if (args[0].empty() || args[0].front() != '"')
       result = '"' + args[0] + "\" ";
     else
       result = args[0] + ' ';
-- 
2.43.0


From db286dae1c03ec222eadee25ee0159633ffd2cbb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:49:36 +0000
Subject: [PATCH 57/64] fix: bootstrap file tool repeats its questions for ever
 once its input has ended

---
 .../common/tools/bootstrap_file_tool.cc       | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/maidsafe/common/tools/bootstrap_file_tool.cc b/src/maidsafe/common/tools/bootstrap_file_tool.cc
index ba9fa47..02783f3 100644
--- a/src/maidsafe/common/tools/bootstrap_file_tool.cc
+++ b/src/maidsafe/common/tools/bootstrap_file_tool.cc
@@ -29,6 +29,7 @@
 #include "boost/filesystem/operations.hpp"
 #include "boost/filesystem/path.hpp"
 
+#include "maidsafe/common/error.h"
 #include "maidsafe/common/log.h"
 #include "maidsafe/common/utils.h"
 
@@ -40,13 +41,19 @@ namespace fs = boost::filesystem;
 bool g_running(true), g_out_of_date(false);
 std::vector<boost::asio::ip::udp::endpoint> g_bootstrap_endpoints;
 
+// Throws if there's no more input.
+void GetLine(std::string& input) {
+  if (!std::getline(std::cin, input))
+    BOOST_THROW_EXCEPTION(maidsafe::MakeError(maidsafe::CommonErrors::unknown));
+}
+
 bool ConfirmChoice(bool exiting) {
   TLOG(kYellow) << "\nThe loaded bootstrap endpoints have changed since last saved.\n"
                 << "Do you really wish to " << (exiting ? "exit" : "overwrite these from file")
                 << "? (enter \"y\" to confirm) >>";
   TLOG(kDefaultColour) << " ";
   std::string input;
-  std::getline(std::cin, input);
+  GetLine(input);
   return input == "y" || input == "Y";
 }
 
@@ -177,7 +184,7 @@ class InputPolicyGetPath {
   bool GetInput(InputType& bootstrap_path, std::string& error_info) const {
     error_info.clear();
     std::string entered_path;
-    std::getline(std::cin, entered_path);
+    GetLine(entered_path);
     boost::system::error_code error_code;
     bootstrap_path = fs::path(entered_path);
     if (!fs::exists(bootstrap_path.parent_path(), error_code)) {
@@ -212,7 +219,7 @@ class InputPolicyGetEndpoint {
   bool GetInput(InputType& endpoint, std::string& error_info) const {
     error_info.clear();
     std::string entered_endpoint;
-    std::getline(std::cin, entered_endpoint);
+    GetLine(entered_endpoint);
 
     auto fail([&error_info, entered_endpoint](const std::string& error_finish) -> bool {
       error_info = "\"" + entered_endpoint + "\" is not a valid endpoint (" + error_finish;
@@ -434,7 +441,7 @@ int GetChoice() {
   int choice(-1);
   for (;;) {
     TLOG(kDefaultColour) << ">> ";
-    std::getline(std::cin, input);
+    GetLine(input);
     try {
       choice = std::stoi(input);
     } catch (const std::exception&) {
@@ -483,9 +490,14 @@ void HandleChoice(int choice) {
 
 int main(int argc, char* argv[]) {
   maidsafe::log::Logging::Instance().Initialise(argc, argv);
-  while (g_running) {
-    PrintCommands();
-    HandleChoice(GetChoice());
+  try {
+    while (g_running) {
+      PrintCommands();
+      HandleChoice(GetChoice());
+    }
+  } catch (const std::exception&) {
+    TLOG(kRed) << "\nEnd of input.\n";
+    return -1;
   }
   return 0;
 }
-- 
2.43.0


From 9ce3982a0e35d16dc5e4d51cf6ef4fd60abedd62 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:49:36 +0000
Subject: [PATCH 58/64] fix: bootstrap file tool says it loaded a file it could
 not, losing the endpoints it had

---
 src/maidsafe/common/tools/bootstrap_file_tool.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/tools/bootstrap_file_tool.cc b/src/maidsafe/common/tools/bootstrap_file_tool.cc
index 02783f3..cdbf784 100644
--- a/src/maidsafe/common/tools/bootstrap_file_tool.cc
+++ b/src/maidsafe/common/tools/bootstrap_file_tool.cc
@@ -308,15 +308,20 @@ class HandlePolicyLoadBootstrapFile {
         TLOG(kRed) << '\n' << bootstrap_file << " doesn't contain any endpoints.\n\n";
         return;
       }
-      g_bootstrap_endpoints.clear();
+      std::vector<boost::asio::ip::udp::endpoint> endpoints;
       for (std::size_t i(0); i != parsed_endpoints.bootstrap_contacts_.size(); ++i) {
-        g_bootstrap_endpoints.push_back(boost::asio::ip::udp::endpoint(
+        auto port(parsed_endpoints.bootstrap_contacts_[i].port_);
+        if (port < 0 || port > std::numeric_limits<uint16_t>::max())
+          BOOST_THROW_EXCEPTION(maidsafe::MakeError(maidsafe::CommonErrors::invalid_argument));
+        endpoints.push_back(boost::asio::ip::udp::endpoint(
             boost::asio::ip::address_v4::from_string(parsed_endpoints.bootstrap_contacts_[i].ip_),
-            static_cast<uint16_t>(parsed_endpoints.bootstrap_contacts_[i].port_)));
+            static_cast<uint16_t>(port)));
       }
+      g_bootstrap_endpoints.swap(endpoints);
       g_out_of_date = false;
     } catch (const std::exception& e) {
       TLOG(kRed) << "\nException while loading " << bootstrap_file << ": " << e.what() << "\n\n";
+      return;
     }
     TLOG(kGreen) << "\nLoaded " << bootstrap_file << "\n\n";
   }
-- 
2.43.0


From 3c0274b51d1730e03aabc78a8a17a02d0ce9e027 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:49:36 +0000
Subject: [PATCH 59/64] fix: bootstrap file tool refuses files in the current
 directory

---
 src/maidsafe/common/tools/bootstrap_file_tool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tools/bootstrap_file_tool.cc b/src/maidsafe/common/tools/bootstrap_file_tool.cc
index cdbf784..1cba469 100644
--- a/src/maidsafe/common/tools/bootstrap_file_tool.cc
+++ b/src/maidsafe/common/tools/bootstrap_file_tool.cc
@@ -187,7 +187,7 @@ class InputPolicyGetPath {
     GetLine(entered_path);
     boost::system::error_code error_code;
     bootstrap_path = fs::path(entered_path);
-    if (!fs::exists(bootstrap_path.parent_path(), error_code)) {
+    if (!fs::exists(fs::absolute(bootstrap_path).parent_path(), error_code)) {
       error_info = "Parent path of " + bootstrap_path.string() + " doesn't exist.";
       return false;
     }
-- 
2.43.0


From b77a879536b4b35f6c0133f3cd9b814ccc2c9d98 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:49:36 +0000
Subject: [PATCH 60/64] fix: bootstrap file tool ignores what follows the
 digits of a port

---
 src/maidsafe/common/tools/bootstrap_file_tool.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tools/bootstrap_file_tool.cc b/src/maidsafe/common/tools/bootstrap_file_tool.cc
index 1cba469..10e6657 100644
--- a/src/maidsafe/common/tools/bootstrap_file_tool.cc
+++ b/src/maidsafe/common/tools/bootstrap_file_tool.cc
@@ -262,8 +262,9 @@ class InputPolicyGetEndpoint {
   bool GetPort(const std::string& entered_port,
                std::function<bool(const std::string&)> fail_functor, uint16_t& port) const {
     try {
-      int port_as_int = std::stoi(entered_port);
-      if (port_as_int < 1025 || port_as_int > std::numeric_limits<uint16_t>::max())
+      size_t length(0);
+      int port_as_int = std::stoi(entered_port, &length);
+      if (length != entered_port.size() || port_as_int < 1025 || port_as_int > std::numeric_limits<uint16_t>::max())
         return fail_functor("invalid port " + entered_port + ").");
       port = static_cast<uint16_t>(port_as_int);
     } catch (const std::exception&) {
-- 
2.43.0


From 23caec422228e8644e1637cd98d800170af5bd06 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:50:05 +0000
Subject: [PATCH 61/64] fix: signing tool does not know it has a key it loaded

---
 src/maidsafe/common/tools/signing_tool.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index c70d5e7..8b4729c 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -142,7 +142,8 @@ void LoadPrivateKey() {
   }
   Keys.private_key = maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(*priv_key));
 
-  if (maidsafe::asymm::ValidateKey(Keys.private_key))
+  have_private_key = maidsafe::asymm::ValidateKey(Keys.private_key);
+  if (have_private_key)
     std::cout << "private key loaded and valid \n";
   else
     std::cout << "private key invalid !! \n";
@@ -159,7 +160,8 @@ void LoadPublicKey() {
   std::cout << maidsafe::hex::Encode(*pub_key) << "\n";
   Keys.public_key = maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPublicKey(*pub_key));
 
-  if (maidsafe::asymm::ValidateKey(Keys.public_key))
+  have_public_key = maidsafe::asymm::ValidateKey(Keys.public_key);
+  if (have_public_key)
     std::cout << "public key loaded and valid \n";
   else
     std::cout << "public key invalid !! \n";
-- 
2.43.0


From d08c0656fdd02e28f3eaac3d7c00a0fd7399b08b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:50:05 +0000
Subject: [PATCH 62/64] fix: signing tool goes on with a key it has just called
 invalid

---
 src/maidsafe/common/tools/signing_tool.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index 8b4729c..1658375 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -172,6 +172,7 @@ void SignFile() {
   fs::path file(filename);
   if (!maidsafe::asymm::ValidateKey(Keys.private_key)) {
     std::cout << "private key invalid, aborting!!\n";
+    return;
   }
 
   maidsafe::asymm::Signature signature(maidsafe::asymm::SignFile(file, Keys.private_key));
@@ -196,6 +197,7 @@ void ValidateSignature() {
   }
   if (!maidsafe::asymm::ValidateKey(Keys.public_key)) {
     std::cout << "public key invalid, aborting!!\n";
+    return;
   }
 
   if (maidsafe::asymm::CheckFileSignature(file, maidsafe::asymm::Signature(*signature),
-- 
2.43.0


From 81c2dcc56cf25dfe450f9e214672231fdc639ecf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:50:05 +0000
Subject: [PATCH 63/64] fix: signing tool runs on with an undefined choice once
 its input has ended

---
 src/maidsafe/common/tools/signing_tool.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index 1658375..bdbaaec 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -51,6 +51,8 @@ using Bytes = std::vector<unsigned char>;
 template <class T>
 T Get(std::string display_message, bool echo_input = true);
 
+void Exit();
+
 void Echo(bool enable = true) {
 #ifdef WIN32
   HANDLE hStdin = GetStdHandle(STD_INPUT_HANDLE);
@@ -435,6 +437,9 @@ T Get(std::string display_message, bool echo_input) {
       std::cout << prompt << std::flush;
     }
   }
+  // There's no more input, so there is nothing to return.
+  Echo(true);
+  Exit();
   return command;
 }
 #if defined MAIDSAFE_WIN32
-- 
2.43.0


From 9502633e1fc123b48008586013360c8e5f804c05 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:50:05 +0000
Subject: [PATCH 64/64] fix: signing tool ends abruptly on a wrong password or
 a file that is no key

---
 src/maidsafe/common/tools/signing_tool.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index bdbaaec..ecd871d 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -451,7 +451,12 @@ int main() {
     Echo(true);
     std::cout << "_________________________________________________________________\n";
     Help();
-    Process(Get<int>("", true));
+    int command(Get<int>("", true));
+    try {
+      Process(command);
+    } catch (const std::exception& e) {
+      std::cout << "failed: " << e.what() << "\n";
+    }
     std::cout << "_________________________________________________________________\n";
   }
 }
-- 
2.43.0

