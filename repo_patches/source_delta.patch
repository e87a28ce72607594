From a1a7f2090f8152c46cf844410bec5ca7a49e92a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 01/58] fix: HVALS on a key of another type reports the wrong
 type instead of an empty list

---
 src/Dispatcher.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index c3b73d3..b014b61 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -576,6 +576,7 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       if(request.size() != 2) return errArgs(request);
       std::vector<std::string> values;
       rocksdb::Status st = store.hvals(stagingArea, request[1], values);
+      if(!st.ok()) return Formatter::fromStatus(st);
       return Formatter::vector(values);
     }
     case RedisCommand::HSCAN: {
-- 
2.43.0


From f6b08f2e6ef4eeda4c9540a10cff175ce5825fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 02/58] fix: SMOVE with equal source and destination corrupts
 the size of the set

---
 src/StateMachine.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 491d64d..b5ecc69 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -922,6 +922,16 @@ rocksdb::Status StateMachine::srem(StagingArea &stagingArea, std::string_view ke
 }
 
 rocksdb::Status StateMachine::smove(StagingArea &stagingArea, std::string_view source, std::string_view destination, std::string_view element, int64_t &outcome) {
+  if(source == destination) {
+    // Nothing to move: two operations on the same key would overwrite each
+    // other's descriptor.
+    WriteOperation operation(stagingArea, source, KeyType::kSet);
+    if(!operation.valid()) return wrong_type();
+
+    outcome = operation.fieldExists(element);
+    return operation.finalize(operation.keySize());
+  }
+
   WriteOperation operation1(stagingArea, source, KeyType::kSet);
   if(!operation1.valid()) return wrong_type();
 
-- 
2.43.0


From 5e8aa7da1142c27dd748ee92d32fc88ae680e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 03/58] fix: LEASE_GET on a key of another type brings the node
 down instead of being refused

---
 src/Dispatcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index b014b61..17e6ded 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -420,7 +420,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
         return Formatter::null();
       }
 
-      qdb_assert(st.ok());
+      if(!st.ok()) return Formatter::fromStatus(st);
 
       std::vector<std::string> reply;
       reply.emplace_back(SSTR("HOLDER: " << leaseInfo.getValue()));
-- 
2.43.0


From 42fab1caccda555471af9490db124487e0e5026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 04/58] fix: LHSET_AND_DEL_FALLBACK drops the fallback field
 even if the LHSET was refused

---
 src/Dispatcher.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 17e6ded..4d9ee6f 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -343,6 +343,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
     case RedisCommand::LHSET_AND_DEL_FALLBACK: {
       if(request.size() != 6) return errArgs(request);
       RedisEncodedResponse resp = dispatchLHSET(stagingArea, request[1], request[2], request[3], request[4]);
+      if(StringUtils::startsWith(resp.val, "-")) return resp; // refused: keep the fallback
       dispatchHDEL(stagingArea, request[5], request.begin()+2, request.begin()+3);
       return resp;
     }
-- 
2.43.0


From a104054917005ebcc555ded99c29b493953dc8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 05/58] fix: LHGET_WITH_FALLBACK reads past its arguments when
 given too few

---
 src/Dispatcher.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 4d9ee6f..70ca55a 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -712,6 +712,9 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       else if(request.size() == 5) {
         resp = dispatchLHGET(stagingArea, request[1], request[2], request[3]);
       }
+      else {
+        return errArgs(request);
+      }
 
       // Did we succeed?
       if(resp.val != Formatter::null().val) return resp;
-- 
2.43.0


From 679ede240aa69b45e400b01b363173ddc385e5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 06/58] fix: VHDEL of fields which do not exist creates empty
 hashes and publishes revisions without changes

---
 src/StateMachine.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index b5ecc69..36dfcf9 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1414,10 +1414,20 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
   WriteOperation operation(stagingArea, key, KeyType::kVersionedHash);
   if(!operation.valid()) return wrong_type();
 
-  VersionedHashRevision &revision = stagingArea.getRevisionTracker().forKey(key);
-
   for(ReqIterator it = start; it != end; it++) {
     removed += operation.deleteField(*it);
+  }
+
+  if(removed == 0) {
+    // Nothing was there to delete: contents and version stay as they are, and
+    // there is nothing to publish.
+    version = operation.descriptor().getStartIndex();
+    operation.cancel();
+    return rocksdb::Status::OK();
+  }
+
+  VersionedHashRevision &revision = stagingArea.getRevisionTracker().forKey(key);
+  for(ReqIterator it = start; it != end; it++) {
     revision.addUpdate(*it, "");
   }
 
@@ -1430,7 +1440,7 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
   KeyDescriptor &descriptor = operation.descriptor();
   version = descriptor.getStartIndex();
 
-  if(removed != 0 && !operation.descriptorModifiedAlreadyInWriteBatch()) {
+  if(!operation.descriptorModifiedAlreadyInWriteBatch()) {
     version++;
     descriptor.setStartIndex(version);
   }
-- 
2.43.0


From 926ea14667259da41482d20f4950f51c686a405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:03 +0000
Subject: [PATCH 07/58] fix: versioned hash revisions refer to freed request
 memory when published asynchronously

---
 src/storage/VersionedHashRevisionTracker.cc | 3 ++-
 src/storage/VersionedHashRevisionTracker.hh | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/storage/VersionedHashRevisionTracker.cc b/src/storage/VersionedHashRevisionTracker.cc
index 8edbf9f..623e1c6 100644
--- a/src/storage/VersionedHashRevisionTracker.cc
+++ b/src/storage/VersionedHashRevisionTracker.cc
@@ -51,7 +51,8 @@ void VersionedHashRevision::addUpdate(std::string_view field, std::string_view v
 // Serialize contents
 //------------------------------------------------------------------------------
 std::string VersionedHashRevision::serialize() const {
-  return Formatter::vhashRevision(currentRevision, updateBatch).val;
+  std::vector<std::pair<std::string_view, std::string_view>> batch(updateBatch.begin(), updateBatch.end());
+  return Formatter::vhashRevision(currentRevision, batch).val;
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/storage/VersionedHashRevisionTracker.hh b/src/storage/VersionedHashRevisionTracker.hh
index 605b62c..5edcaa3 100644
--- a/src/storage/VersionedHashRevisionTracker.hh
+++ b/src/storage/VersionedHashRevisionTracker.hh
@@ -25,6 +25,7 @@
 #define QUARKDB_VERSIONED_HASH_REVISION_TRACKER_HH
 
 #include <vector>
+#include <string>
 #include <string_view>
 #include <map>
 
@@ -53,7 +54,9 @@ public:
 
 private:
   uint64_t currentRevision = 0;
-  std::vector<std::pair<std::string_view, std::string_view>> updateBatch;
+  // We own the contents: revisions are published asynchronously, long after the
+  // request they originate from is gone.
+  std::vector<std::pair<std::string, std::string>> updateBatch;
 };
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From f050df6ebd7602bc5af49dd7ee52c917c3796802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 08/58] fix: deleting and re-creating a versioned hash in one
 transaction brings the node down

---
 src/StateMachine.cc                         |  5 +++++
 src/storage/VersionedHashRevisionTracker.cc | 11 +++++++++++
 src/storage/VersionedHashRevisionTracker.hh |  7 +++++++
 3 files changed, 23 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 36dfcf9..646f092 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1800,6 +1800,10 @@ rocksdb::Status StateMachine::del(StagingArea &stagingArea, const ReqIterator &s
       qdb_throw("DEL called on unknown keytype - should never happen");
     }
 
+    if(keyInfo.getKeyType() == KeyType::kVersionedHash) {
+      stagingArea.getRevisionTracker().erase(*it);
+    }
+
     removed++;
     stagingArea.del(dlocator.toView());
   }
@@ -1893,6 +1897,7 @@ rocksdb::Status StateMachine::flushall(StagingArea &stagingArea) {
 
   int64_t tmp;
   remove_all_with_prefix("", tmp, stagingArea);
+  stagingArea.getRevisionTracker().clear();
   mExpirationCache.clear();
   return rocksdb::Status::OK();
 }
diff --git a/src/storage/VersionedHashRevisionTracker.cc b/src/storage/VersionedHashRevisionTracker.cc
index 623e1c6..167c848 100644
--- a/src/storage/VersionedHashRevisionTracker.cc
+++ b/src/storage/VersionedHashRevisionTracker.cc
@@ -62,6 +62,17 @@ VersionedHashRevision& VersionedHashRevisionTracker::forKey(std::string_view key
   return contents[std::string(key)];
 }
 
+//------------------------------------------------------------------------------
+// The given key, or all keys, were deleted: forget any updates so far.
+//------------------------------------------------------------------------------
+void VersionedHashRevisionTracker::erase(std::string_view key) {
+  contents.erase(std::string(key));
+}
+
+void VersionedHashRevisionTracker::clear() {
+  contents.clear();
+}
+
 //------------------------------------------------------------------------------
 // Iterate through contents
 //------------------------------------------------------------------------------
diff --git a/src/storage/VersionedHashRevisionTracker.hh b/src/storage/VersionedHashRevisionTracker.hh
index 5edcaa3..7a999c5 100644
--- a/src/storage/VersionedHashRevisionTracker.hh
+++ b/src/storage/VersionedHashRevisionTracker.hh
@@ -70,6 +70,13 @@ public:
   //----------------------------------------------------------------------------
   VersionedHashRevision& forKey(std::string_view key);
 
+  //----------------------------------------------------------------------------
+  // The given key, or all keys, were deleted: forget any updates so far. If
+  // re-created within the same transaction, versioning starts from scratch.
+  //----------------------------------------------------------------------------
+  void erase(std::string_view key);
+  void clear();
+
   //----------------------------------------------------------------------------
   // Is it empty?
   //----------------------------------------------------------------------------
-- 
2.43.0


From dd42a1020184417c318e6e2937e48f1783515d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:51 +0000
Subject: [PATCH 09/58] fix: integer parsing accepts empty strings and leading
 whitespace, refuses INT64_MAX and INT64_MIN, reads past the end

---
 src/utils/ParseUtils.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utils/ParseUtils.hh b/src/utils/ParseUtils.hh
index 3d9e036..d9aca2e 100644
--- a/src/utils/ParseUtils.hh
+++ b/src/utils/ParseUtils.hh
@@ -26,7 +26,9 @@
 
 #include "Utils.hh"
 
+#include <charconv>
 #include <climits>
+#include <system_error>
 
 namespace quarkdb { namespace ParseUtils {
 
@@ -44,12 +46,10 @@ inline std::vector<std::string> split(std::string data, const std::string &token
 }
 
 inline bool parseInt64(std::string_view str, int64_t &ret) {
-  char *endptr = NULL;
-  ret = strtoll(str.data(), &endptr, 10);
-  if(endptr != str.data() + str.size() || ret == LLONG_MIN || ret == LONG_LONG_MAX) {
-    return false;
-  }
-  return true;
+  // A string_view is not null-terminated: Never look beyond its end.
+  ret = 0;
+  std::from_chars_result res = std::from_chars(str.data(), str.data() + str.size(), ret, 10);
+  return res.ec == std::errc() && res.ptr == str.data() + str.size();
 }
 
 inline bool parseIntegerList(const std::string &buffer, const std::string &separator, std::vector<int64_t> &results) {
-- 
2.43.0


From 2e4da9da093a74ea203410bf9f2e24c319ac287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 10/58] fix: HINCRBY and HINCRBYFLOAT beyond the representable
 range overflow instead of being refused

---
 src/StateMachine.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 646f092..ccf5400 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -43,6 +43,7 @@
 #include <rocksdb/utilities/checkpoint.h>
 #include <rocksdb/filter_policy.h>
 #include <rocksdb/table.h>
+#include <cmath>
 #include <thread>
 #include <sys/vfs.h>
 
@@ -562,7 +563,10 @@ rocksdb::Status StateMachine::hincrby(StagingArea &stagingArea, std::string_view
     return malformed("hash value is not an integer");
   }
 
-  result += incrbyInt64;
+  if(__builtin_add_overflow(result, incrbyInt64, &result)) {
+    operation.finalize(operation.keySize());
+    return malformed("increment or decrement would overflow");
+  }
 
   operation.writeField(field, std::to_string(result));
   return operation.finalize(operation.keySize() + !exists);
@@ -587,6 +591,10 @@ rocksdb::Status StateMachine::hincrbyfloat(StagingArea &stagingArea, std::string
   }
 
   result += incrByDouble;
+  if(!std::isfinite(result)) {
+    operation.finalize(operation.keySize());
+    return malformed("increment would produce NaN or Infinity");
+  }
 
   operation.writeField(field, std::to_string(result));
   return operation.finalize(operation.keySize() + !exists);
-- 
2.43.0


From bb6b675003f4ed6f130660ba988ef640c94c34c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 11/58] fix: float parsing accepts empty strings, NaN and
 leading whitespace, reads past the end

---
 src/Utils.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Utils.cc b/src/Utils.cc
index 7d5f400..df8f334 100644
--- a/src/Utils.cc
+++ b/src/Utils.cc
@@ -27,7 +27,7 @@
 
 #include <climits>
 #include <memory.h>
-#include <math.h>
+#include <cmath>
 #include <sys/stat.h>
 
 namespace quarkdb {
@@ -62,9 +62,13 @@ bool caseInsensitiveEquals(std::string_view str1, std::string_view str2) {
 }
 
 bool my_strtod(std::string_view str, double &ret) {
+  // A string_view is not null-terminated: Never look beyond its end.
+  std::string tmp(str);
+  if(tmp.empty() || isspace((unsigned char) tmp[0])) return false;
+
   char *endptr = NULL;
-  ret = strtod(str.data(), &endptr);
-  if(endptr != str.data() + str.size() || ret == HUGE_VAL || ret == -HUGE_VAL) {
+  ret = strtod(tmp.c_str(), &endptr);
+  if(endptr != tmp.c_str() + tmp.size() || !std::isfinite(ret)) {
     return false;
   }
   return true;
-- 
2.43.0


From efac7a1d55ee107590305c24ac95c55394fdcf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 12/58] fix: server addresses with a port which does not fit
 are silently truncated

---
 src/Utils.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Utils.cc b/src/Utils.cc
index df8f334..1047d3a 100644
--- a/src/Utils.cc
+++ b/src/Utils.cc
@@ -103,6 +103,7 @@ bool parseServer(std::string_view str, RaftServer &srv) {
 
   int64_t port;
   if(!ParseUtils::parseInt64(parts[1], port)) return false;
+  if(port < INT_MIN || port > INT_MAX) return false;
 
   srv = RaftServer{ parts[0], (int) port };
   return true;
-- 
2.43.0


From 958dfad90e4047fce96a800ed19a46e04495f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:12 +0000
Subject: [PATCH 13/58] fix: resetting a state machine forgets about its leases
 only on disk

---
 src/StateMachine.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index ccf5400..ca323c8 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -215,6 +215,12 @@ void StateMachine::reset() {
     db->Delete(rocksdb::WriteOptions(), iter->key().ToString());
   }
 
+  {
+    // No lease survives a reset.
+    std::scoped_lock lock(mExpirationCacheMutex);
+    mExpirationCache.clear();
+  }
+
   ensureCompatibleFormat(true);
   ensureBulkloadSanity(true);
   ensureClockSanity(true);
-- 
2.43.0


From 1197298c881b52b8729c2bb9febf3bb82e1af23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:45 +0000
Subject: [PATCH 14/58] fix: LHSCAN with MATCHLOC misses hints after the first
 page, and those containing hashes

---
 src/StateMachine.cc | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index ca323c8..5a22a70 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -736,6 +736,18 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
   // Any rocksdb keys we touch must have this prefix.
   size_t keyPrefixSize = locator.toView().size();
   std::string requiredPrefix(locator.toView());
+
+  if(!patternPrefix.empty()) {
+    // All matching hints start with patternPrefix, hashes being escaped.
+    locator.resetHint(patternPrefix);
+    requiredPrefix = locator.toView();
+
+    if(patternPrefix.size() != matchloc.size()) {
+      // Not an exact match, drop the terminating "##".
+      requiredPrefix.resize(requiredPrefix.size() - 2);
+    }
+  }
+
   std::string_view scanStart = requiredPrefix;
 
   if(!cursor.empty()) {
@@ -750,23 +762,9 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
 
     // We start from the given hint + field.
     locator.resetHint(cursorHint);
-
-    if(!patternPrefix.empty()) {
-      requiredPrefix = locator.toView();
-    }
-
     locator.resetField(cursorField);
     scanStart = locator.toView();
   }
-  else if(!patternPrefix.empty()) {
-    locator.resetHint(patternPrefix);
-    requiredPrefix += patternPrefix;
-    scanStart = locator.toView();
-
-    if(patternPrefix.size() != matchloc.size()) {
-      scanStart.remove_suffix(2);
-    }
-  }
 
   newCursor = "";
   IteratorPtr iter(stagingArea.getIterator());
-- 
2.43.0


From 4033ef81b9a1f466c96c4473d5a4f0b6df6d8c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:57 +0000
Subject: [PATCH 15/58] fix: scans never terminate when COUNT is a zero in
 disguise or larger than the deque indexes

---
 src/StateMachine.cc         | 8 +++++---
 src/utils/CommandParsing.hh | 5 +++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 5a22a70..cb960da 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -852,13 +852,15 @@ rocksdb::Status StateMachine::dequeScanBack(StagingArea &stagingArea, std::strin
     return malformed("invalid cursor");
   }
 
-  uint64_t startingMarker = cursorMarker - count;
+  uint64_t firstMarker = keyinfo.getStartIndex() + 1;
+  uint64_t startingMarker;
 
-  if(startingMarker <= keyinfo.getStartIndex() + 1) {
+  if(cursorMarker <= firstMarker || cursorMarker - firstMarker <= count) {
     newCursor = "";
-    startingMarker = keyinfo.getStartIndex() + 1;
+    startingMarker = firstMarker;
   }
   else {
+    startingMarker = cursorMarker - count;
     newCursor = unsignedIntToBinaryString(startingMarker);
   }
 
diff --git a/src/utils/CommandParsing.hh b/src/utils/CommandParsing.hh
index 284f805..f4855da 100644
--- a/src/utils/CommandParsing.hh
+++ b/src/utils/CommandParsing.hh
@@ -79,6 +79,11 @@ inline ScanCommandArguments parseScanCommand(const RedisRequest::const_iterator
         args.error = "value is not an integer or out of range";
         return args;
       }
+
+      if(args.count <= 0) {
+        args.error = "syntax error";
+        return args;
+      }
     }
     else if(caseInsensitiveEquals(*pos, "match") && supportMatch) {
       args.match = *(pos+1);
-- 
2.43.0


From 3e21f1a796e12bff169a0f86cbc41cc6d60ce240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:11 +0000
Subject: [PATCH 16/58] fix: SISMEMBER inside a writing transaction brings the
 node down

---
 src/StateMachine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index cb960da..2f5e06b 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -919,7 +919,7 @@ rocksdb::Status StateMachine::sismember(StagingArea &stagingArea, std::string_vi
   FieldLocator locator(KeyType::kSet, key, element);
 
   std::string tmp;
-  return db->Get(stagingArea.snapshot->opts(), locator.toView(), &tmp);
+  return stagingArea.get(locator.toView(), tmp);
 }
 
 rocksdb::Status StateMachine::srem(StagingArea &stagingArea, std::string_view key, const ReqIterator &start, const ReqIterator &end, int64_t &removed) {
-- 
2.43.0


From 52b163c999eda6091295d5ca1ce66243a5aa4569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 17/58] fix: EXEC right after a batch of writes is answered
 with an internal error

---
 src/Connection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 5cef8d0..70cc1de 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -304,7 +304,8 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
     }
 
     // EXEC without MULTI?
-    if(currentRequest.getCommand() == RedisCommand::EXEC && !multiHandler.active()) {
+    if(currentRequest.getCommand() == RedisCommand::EXEC && (!multiHandler.active() || multiHandler.isPhantom())) {
+      multiHandler.finalizePhantomTransaction(dispatcher, this);
       this->err("EXEC without MULTI");
       continue;
     }
-- 
2.43.0


From 9b20eea980e7687a77f68a360dda3ac06fa7243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:00 +0000
Subject: [PATCH 18/58] fix: LHSCAN with a malformed cursor brings the node
 down

---
 src/StateMachine.cc           | 2 +-
 src/storage/ReverseLocator.hh | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 2f5e06b..090b713 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -753,7 +753,7 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
   if(!cursor.empty()) {
     // Decompose cursor into hint + field.
     EscapedPrefixExtractor extractor;
-    if(!extractor.parse(cursor)) {
+    if(!extractor.parse(cursor) || extractor.getOriginalPrefix().empty()) {
       return malformed("invalid cursor");
     }
 
diff --git a/src/storage/ReverseLocator.hh b/src/storage/ReverseLocator.hh
index d5e6d4b..297c0d4 100644
--- a/src/storage/ReverseLocator.hh
+++ b/src/storage/ReverseLocator.hh
@@ -36,6 +36,9 @@ inline size_t extractPrefix(std::string_view dkey, std::string &key) {
   for(size_t i = 0; i < dkey.size(); i++) {
     // Hash?
     if(dkey[i] == '#') {
+      // A hash is either escaped, or followed by another one.
+      if(i == 0 || i+1 == dkey.size()) return 0;
+
       // Is this the boundary?
       if(dkey[i+1] == '#' && dkey[i-1] != '|') {
         // Yes, our work here is done.
@@ -51,7 +54,9 @@ inline size_t extractPrefix(std::string_view dkey, std::string &key) {
         return i+3;
       }
 
-      qdb_assert(dkey[i-1] == '|');
+      // Lone hash, without being escaped?
+      if(dkey[i-1] != '|') return 0;
+
       // Replace previous character with '#'
       key[key.size() - 1] = '#';
     }
-- 
2.43.0


From c2faa46ca6fbb1632196b41053b7b3c646aa3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 19/58] fix: finalising a bulkload can lose key descriptors in
 a crash

The key descriptors are written without write-ahead log, the mark that the
bulkload is over with it: a crash in between flushes left a store which opens
normally but knows none of its keys.
---
 src/StateMachine.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 090b713..4082882 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -2044,6 +2044,10 @@ void StateMachine::finalizeBulkload() {
   THROW_ON_ERROR(manualCompaction());
   qdb_event("Manual compaction was successful. Building key descriptors...");
   KeyDescriptorBuilder builder(*this);
+
+  // The key descriptors above bypassed the write-ahead log: Make sure they're on
+  // disk before the bulkload is marked as completed.
+  THROW_ON_ERROR(db->Flush(rocksdb::FlushOptions()));
   THROW_ON_ERROR(db->Put(rocksdb::WriteOptions(), KeyConstants::kStateMachine_InBulkload, boolToString(false)));
   qdb_event("All done, bulkload is over. Restart quarkdb in standalone mode.");
 }
-- 
2.43.0


From e5ae88f698eaa7ebd1463431974f5883f8e882df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:09 +0000
Subject: [PATCH 20/58] fix: fetching the last journal entries makes up empty
 ones for those trimmed

---
 src/raft/RaftJournal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index c695972..2d1f10e 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -589,7 +589,7 @@ rocksdb::Status RaftJournal::fetch(LogIndex index, RaftSerializedEntry &data) {
 void RaftJournal::fetch_last(int last, std::vector<RaftEntry> &entries) {
   LogIndex endIndex = logSize;
   LogIndex startIndex = endIndex - last;
-  if(startIndex < 0) startIndex = 0;
+  if(startIndex < logStart) startIndex = logStart;
 
   for(LogIndex index = startIndex; index < endIndex; index++) {
     RaftEntry entry;
-- 
2.43.0


From b7f30ad63376a7d3570c98a80148a97207f1e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:56 +0000
Subject: [PATCH 21/58] fix: core-local array accepts a core index one past its
 end

---
 src/utils/CoreLocalArray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/CoreLocalArray.hh b/src/utils/CoreLocalArray.hh
index a8e49f1..83d7949 100644
--- a/src/utils/CoreLocalArray.hh
+++ b/src/utils/CoreLocalArray.hh
@@ -111,7 +111,7 @@ public:
   //----------------------------------------------------------------------------
   int getCoreIndex() const {
     int cpuno = sched_getcpu();
-    if(cpuno < 0 || cpuno > (int) cpus) {
+    if(cpuno < 0 || cpuno >= (int) cpus) {
       cpuno = 0;
     }
 
-- 
2.43.0


From 4431c7e66274aa781a91d5f57a134be621682509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:11 +0000
Subject: [PATCH 22/58] fix: Synchronized ignores its initial value

---
 src/utils/Synchronized.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Synchronized.hh b/src/utils/Synchronized.hh
index c090fbf..0ff2f35 100644
--- a/src/utils/Synchronized.hh
+++ b/src/utils/Synchronized.hh
@@ -31,7 +31,7 @@ namespace quarkdb {
 template<typename T>
 class Synchronized {
 public:
-  Synchronized(const T& t) {}
+  Synchronized(const T& t) : contents(t) {}
 
   Synchronized() {}
 
-- 
2.43.0


From 7f729b73c8c9d55496359cf02b83a63d546e63e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:25 +0000
Subject: [PATCH 23/58] fix: expanding a heap buffer to exactly its own size
 frees it

---
 src/utils/SmartBuffer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/SmartBuffer.hh b/src/utils/SmartBuffer.hh
index f5bc06d..1d777b7 100644
--- a/src/utils/SmartBuffer.hh
+++ b/src/utils/SmartBuffer.hh
@@ -63,7 +63,7 @@ public:
   void expand(size_t size) {
     qdb_assert(realSize <= size);
 
-    if(size < containerSize()) {
+    if(size <= containerSize()) {
       // Easy path, no copying necessary
       realSize = size;
       return;
-- 
2.43.0


From b5ee18495d248f924f028d88dade20901ddbc068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:44 +0000
Subject: [PATCH 24/58] fix: stop() of an assisted thread races with the thread
 that joins it

---
 src/utils/AssistedThread.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/AssistedThread.hh b/src/utils/AssistedThread.hh
index 8ed8d8d..8b8f478 100644
--- a/src/utils/AssistedThread.hh
+++ b/src/utils/AssistedThread.hh
@@ -186,7 +186,7 @@ public:
   // Moving is allowed.
   AssistedThread(AssistedThread&& other) {
     assistant = std::move(other.assistant);
-    joined = other.joined;
+    joined = other.joined.load();
     th = std::move(other.th);
     other.joined = true;
   }
@@ -242,7 +242,7 @@ public:
 
 private:
   std::unique_ptr<ThreadAssistant> assistant;
-  bool joined;
+  std::atomic<bool> joined;
   std::thread th;
 };
 
-- 
2.43.0


From 4dfa8bc56286465952eacc2e75153c034fbb1303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:10 +0000
Subject: [PATCH 25/58] fix: with TLS every reply is sent in the clear as well

---
 src/Link.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Link.cc b/src/Link.cc
index 2503104..42bcc59 100644
--- a/src/Link.cc
+++ b/src/Link.cc
@@ -135,7 +135,7 @@ LinkStatus Link::Send(const char *buff, int blen) {
 
   LinkStatus ret;
   if(tlsconfig.active) ret = tlsfilter.send(buff, blen);
-  ret = rawSend(buff, blen);
+  else ret = rawSend(buff, blen);
 
   if(ret != blen) {
     dead = true;
-- 
2.43.0


From 83bce2e3b1e0817634888f0f5cd60e5a78118885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:21 +0000
Subject: [PATCH 26/58] fix: CLIENT without arguments reads past the request

---
 src/QuarkDBNode.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index 2b0d07a..487250b 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -105,6 +105,8 @@ LinkStatus QuarkDBNode::dispatch(Connection *conn, RedisRequest &req) {
       return conn->raw(handlePing(req));
     }
     case RedisCommand::CLIENT: {
+      if(req.size() < 2) return conn->errArgs(req[0]);
+
       if(caseInsensitiveEquals(req[1], "setname")) {
         if(req.size() != 3) return conn->errArgs(req[0]);
 
-- 
2.43.0


From 940885a9c029a5ff86e49a4dd0e90aa9f9409090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:35 +0000
Subject: [PATCH 27/58] fix: iterating over subscriptions spins forever when a
 key disappears

---
 src/pubsub/ThreadSafeMultiMap.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pubsub/ThreadSafeMultiMap.hh b/src/pubsub/ThreadSafeMultiMap.hh
index 21b095d..0fea7d4 100644
--- a/src/pubsub/ThreadSafeMultiMap.hh
+++ b/src/pubsub/ThreadSafeMultiMap.hh
@@ -361,6 +361,9 @@ public:
           // Found valid position
           return;
         }
+
+        // Key has been erased in the meantime, try the next one
+        keyIter.next();
       }
 
       isValid = false;
-- 
2.43.0


From 6dfb9cfe49d86095baf7f9c8d25c5641fe3a943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:22 +0000
Subject: [PATCH 28/58] fix: a malformed serialized transaction is read out of
 bounds, or brings the node down

---
 src/Formatter.cc         |  7 +++---
 src/RedisRequest.cc      |  5 ++--
 src/redis/Transaction.cc | 49 +++++++++++++++++++++++-----------------
 3 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/Formatter.cc b/src/Formatter.cc
index ee493f3..25ba47e 100644
--- a/src/Formatter.cc
+++ b/src/Formatter.cc
@@ -142,9 +142,10 @@ RedisEncodedResponse Formatter::simpleRedisRequest(const RedisRequest &req) {
 }
 
 RedisEncodedResponse Formatter::redisRequest(const RedisRequest &req) {
-  if(req.getCommand() == RedisCommand::TX_READWRITE || req.getCommand() == RedisCommand::TX_READONLY) {
-    Transaction transaction;
-    transaction.deserialize(req[1]);
+  Transaction transaction;
+
+  if( (req.getCommand() == RedisCommand::TX_READWRITE || req.getCommand() == RedisCommand::TX_READONLY) &&
+      req.size() > 1 && transaction.deserialize(req[1])) {
 
     ArrayResponseBuilder builder(transaction.size() + 1);
     builder.push_back(Formatter::string(req[0]));
diff --git a/src/RedisRequest.cc b/src/RedisRequest.cc
index 7b2eacc..07d7e2e 100644
--- a/src/RedisRequest.cc
+++ b/src/RedisRequest.cc
@@ -47,8 +47,9 @@ void RedisRequest::parseCommand() {
 std::string RedisRequest::toPrintableString() const {
   if(this->getCommand() == RedisCommand::TX_READONLY || this->getCommand() == RedisCommand::TX_READWRITE) {
     Transaction transaction;
-    transaction.fromRedisRequest(*this);
-    return transaction.toPrintableString();
+    if(transaction.deserialize(*this)) {
+      return transaction.toPrintableString();
+    }
   }
 
   std::stringstream ss;
diff --git a/src/redis/Transaction.cc b/src/redis/Transaction.cc
index 8bc55c3..4c19dbc 100644
--- a/src/redis/Transaction.cc
+++ b/src/redis/Transaction.cc
@@ -92,46 +92,53 @@ bool Transaction::deserialize(const RedisRequest &req) {
 
   if(!this->deserialize(req[1])) return false;
 
-  if(req.getCommand() == RedisCommand::TX_READONLY) {
-    qdb_assert(!this->containsWrites());
-  }
-  else {
-    qdb_assert(this->containsWrites());
+  if(this->containsWrites() != (req.getCommand() == RedisCommand::TX_READWRITE)) {
+    return false;
   }
 
   this->setPhantom(phantom);
   return true;
 }
 
+static bool extractInteger(const PinnedBuffer &src, size_t &pos, int64_t &value) {
+  if(src.size() - pos < sizeof(int64_t)) return false;
+
+  value = binaryStringToInt(src.data() + pos);
+  pos += sizeof(int64_t);
+  return true;
+}
+
 bool Transaction::deserialize(const PinnedBuffer &src) {
   qdb_assert(requests.empty());
   if(src.empty()) return false;
 
-  const char *pos = src.data();
-  int64_t totalRequests = binaryStringToInt(pos);
-  pos += sizeof(int64_t);
-  size_t bytesConsumed = sizeof(int64_t);
-
-  requests.resize(totalRequests);
+  size_t pos = 0;
+  int64_t totalRequests;
+  if(!extractInteger(src, pos, totalRequests) || totalRequests < 0) return false;
 
   for(int64_t i = 0; i < totalRequests; i++) {
-    int64_t totalParts = binaryStringToInt(pos);
-    pos += sizeof(int64_t);
-    bytesConsumed += sizeof(int64_t);
+    int64_t totalParts;
+    if(!extractInteger(src, pos, totalParts)) return false;
 
+    requests.emplace_back();
     for(int64_t part = 0; part < totalParts; part++) {
-      int64_t length = binaryStringToInt(pos);
-      pos += sizeof(int64_t);
-      bytesConsumed += sizeof(int64_t);
+      int64_t length;
+      if(!extractInteger(src, pos, length)) return false;
+      if(length < 0 || (size_t) length > src.size() - pos) return false;
 
-      requests[i].push_back(src.substr(bytesConsumed, length));
-      pos += (length * sizeof(char));
-      bytesConsumed += (length * sizeof(char));
+      requests[i].push_back(src.substr(pos, length));
+      pos += length;
     }
+
+    // Only reads and writes are allowed
+    if(requests[i].getCommandType() != CommandType::READ && requests[i].getCommandType() != CommandType::WRITE) {
+      return false;
+    }
+
     checkNthCommandForWrites(i);
   }
 
-  return true;
+  return pos == src.size();
 }
 
 void Transaction::clear() {
-- 
2.43.0


From a3c63b7f57e9153ffd152dbe108a003fce5c3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:50 +0000
Subject: [PATCH 29/58] fix: clients can forge lease timestamps inside
 pre-packed transactions

---
 src/Connection.cc           | 13 +++++++++++--
 src/redis/InternalFilter.cc | 20 ++++++++++++++++++++
 src/redis/InternalFilter.hh |  7 +++++++
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 70cc1de..31e5b8d 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -310,9 +310,18 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       continue;
     }
 
-    if(currentRequest.getCommand() == RedisCommand::TX_READWRITE) {
+    // Pre-packed transaction: Unpack, and treat the same way as the equivalent
+    // MULTI / EXEC block.
+    if(currentRequest.getCommand() == RedisCommand::TX_READWRITE || currentRequest.getCommand() == RedisCommand::TX_READONLY) {
       multiHandler.finalizePhantomTransaction(dispatcher, this);
-      dispatcher->dispatch(this, currentRequest);
+
+      Transaction tx;
+      if(!tx.deserialize(currentRequest) || tx.isPhantom() || !InternalFilter::allowed(tx)) {
+        this->err("malformed transaction");
+        continue;
+      }
+
+      dispatcher->dispatch(this, tx);
       continue;
     }
 
diff --git a/src/redis/InternalFilter.cc b/src/redis/InternalFilter.cc
index 4465025..1f93983 100644
--- a/src/redis/InternalFilter.cc
+++ b/src/redis/InternalFilter.cc
@@ -22,6 +22,7 @@
  ************************************************************************/
 
 #include "redis/InternalFilter.hh"
+#include "redis/Transaction.hh"
 #include "RedisRequest.hh"
 using namespace quarkdb;
 
@@ -39,3 +40,22 @@ void InternalFilter::process(RedisRequest &req) {
     }
   }
 }
+
+bool InternalFilter::allowed(const Transaction &tx) {
+  for(size_t i = 0; i < tx.size(); i++) {
+    switch(tx[i].getCommand()) {
+      case RedisCommand::TIMESTAMPED_LEASE_RELEASE:
+      case RedisCommand::TIMESTAMPED_LEASE_ACQUIRE:
+      case RedisCommand::TIMESTAMPED_LEASE_GET:
+      case RedisCommand::TX_READONLY:
+      case RedisCommand::TX_READWRITE: {
+        return false;
+      }
+      default: {
+        break;
+      }
+    }
+  }
+
+  return true;
+}
diff --git a/src/redis/InternalFilter.hh b/src/redis/InternalFilter.hh
index d3cb16b..c0ab1ff 100644
--- a/src/redis/InternalFilter.hh
+++ b/src/redis/InternalFilter.hh
@@ -27,6 +27,7 @@
 namespace quarkdb {
 
 class RedisRequest;
+class Transaction;
 
 class InternalFilter {
 public:
@@ -37,6 +38,12 @@ public:
   // generated internally.
   //----------------------------------------------------------------------------
   static void process(RedisRequest &req);
+
+  //----------------------------------------------------------------------------
+  // Does this transaction consist only of commands an end-user is allowed to
+  // pack into a transaction?
+  //----------------------------------------------------------------------------
+  static bool allowed(const Transaction &tx);
 };
 
 }
-- 
2.43.0


From 4a5a7406419c097f706378a7a752d20fcc055190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:01 +0000
Subject: [PATCH 30/58] fix: pipelined writes of an unauthenticated client get
 a single reply

---
 src/QuarkDBNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index 487250b..e593200 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -82,7 +82,7 @@ bool QuarkDBNode::isAuthenticated(Connection *conn) const {
 LinkStatus QuarkDBNode::dispatch(Connection *conn, Transaction &transaction) {
   // We need to be authenticated past this point. Are we?
   if(!isAuthenticated(conn)) {
-    return conn->noauth("Authentication required.");
+    return conn->raw(Formatter::multiply(Formatter::noauth("Authentication required."), transaction.expectedResponses()));
   }
 
   return shard->dispatch(conn, transaction);
-- 
2.43.0


From 20a311f9329842bf5d5f23cb982a63231ebdf7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:32 +0000
Subject: [PATCH 31/58] fix: negative, zero and oversized sizes in the redis
 protocol crash the server

---
 src/RedisParser.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/RedisParser.cc b/src/RedisParser.cc
index 8883b21..8053922 100644
--- a/src/RedisParser.cc
+++ b/src/RedisParser.cc
@@ -23,6 +23,7 @@
 
 #include "RedisParser.hh"
 #include "utils/Macros.hh"
+#include <cctype>
 #include <climits>
 
 using namespace quarkdb;
@@ -54,6 +55,11 @@ int RedisParser::fetch(RedisRequest &req, bool authenticated) {
     int retcode = readInteger('*', request_size);
     if(retcode <= 0) return retcode;
 
+    if(request_size == 0) {
+      qdb_warn("Redis protocol error, received a request without any elements");
+      return -1;
+    }
+
     element_size = -1;
     current_element = 0;
 
@@ -61,11 +67,11 @@ int RedisParser::fetch(RedisRequest &req, bool authenticated) {
       qdb_warn("Unauthenticated client attempted to send request with " << request_size << " elements - shutting the connection down");
       return -2;
     }
-
-    req.resize(request_size);
   }
 
   for( ; current_element < request_size; current_element++) {
+    if(req.size() <= (size_t) current_element) req.resize(current_element+1);
+
     int rc = readElement(req.getPinnedBuffer(current_element), authenticated);
     if(rc <= 0) return rc;
     element_size = -1;
@@ -90,6 +96,11 @@ int RedisParser::readInteger(char prefix, int &retval) {
     if(rlen <= 0) return rlen;
 
     current_integer.append(prev);
+
+    if(current_integer.size() > 32) {
+      qdb_warn("Redis protocol error, received an overly long integer");
+      return -1;
+    }
   }
 
   if(current_integer[0] != prefix) {
@@ -106,7 +117,7 @@ int RedisParser::readInteger(char prefix, int &retval) {
 
   char *endptr;
   long num = strtol(current_integer.c_str()+1, &endptr, 10);
-  if(*endptr != '\0' || num == LONG_MIN || num == LONG_MAX) {
+  if(!isdigit((unsigned char) current_integer[1]) || endptr != current_integer.c_str() + current_integer.size() || num > INT_MAX-2) {
     qdb_warn("Redis protocol error, received an invalid integer");
     return -1;
   }
-- 
2.43.0


From be1d689bab0bdf5b705ab7aa7deb1d666bf7d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:34 +0000
Subject: [PATCH 32/58] fix: a follower commits inconsistent entries past those
 in the append-entries request

---
 src/raft/RaftDispatcher.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index efc2d76..a9d5e73 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -565,7 +565,9 @@ RaftAppendEntriesResponse RaftDispatcher::appendEntries(RaftAppendEntriesRequest
     }
   }
 
-  journal.setCommitIndex(std::min(journal.getLogSize()-1, req.commitIndex));
+  // Only entries known to be identical to those of the leader may be committed:
+  // anything past the ones contained in this request may still be inconsistent.
+  journal.setCommitIndex(std::min(req.prevIndex + LogIndex(req.entries.size()), req.commitIndex));
   warnIfLagging(req.commitIndex);
   return {snapshot->term, journal.getLogSize(), true, ""};
 }
-- 
2.43.0


From 5928a64d406bf666257d3d9f10acf3361f79fcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:12 +0000
Subject: [PATCH 33/58] fix: a deposed leader can append client writes behind
 entries of the new leader

---
 src/raft/RaftDispatcher.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index a9d5e73..b8ae8f8 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -436,7 +436,14 @@ LinkStatus RaftDispatcher::service(Connection *conn, Transaction &tx) {
   LeaseFilter::transform(tx, txTimestamp);
 
   // send request to the write tracker
-  std::scoped_lock lock(raftCommand);
+  std::unique_lock lock(raftCommand);
+
+  if(!state.isSnapshotCurrent(snapshot.get())) {
+    // We're no longer leader, and could already have accepted entries from a
+    // new one - start from scratch.
+    lock.unlock();
+    return this->service(conn, tx);
+  }
 
   LogIndex index = journal.getLogSize();
 
@@ -446,6 +453,7 @@ LinkStatus RaftDispatcher::service(Connection *conn, Transaction &tx) {
     // - The raft term was changed in the meantime, we lost leadership.
     // - The journal rejected the entry due to term mismatch.
     // Let's simply retry.
+    lock.unlock();
     return this->service(conn, tx);
   }
 
-- 
2.43.0


From b69bf6dbd6da963db7a529c1cc16ed71b6d3d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:33 +0000
Subject: [PATCH 34/58] fix: malformed log entries in append-entries are read
 out of bounds

---
 src/raft/RaftCommon.hh  | 10 +++++++++-
 src/raft/RaftJournal.cc |  5 ++++-
 src/raft/RaftUtils.cc   |  3 ++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/raft/RaftCommon.hh b/src/raft/RaftCommon.hh
index 138ad10..c98326f 100644
--- a/src/raft/RaftCommon.hh
+++ b/src/raft/RaftCommon.hh
@@ -79,20 +79,28 @@ struct RaftEntry {
     return ss.str();
   }
 
-  static void deserialize(RaftEntry &entry, std::string_view data) {
+  // Returns false if data is malformed
+  static bool deserialize(RaftEntry &entry, std::string_view data) {
     entry.request.clear();
+    if(data.size() < sizeof(term)) return false;
+
     entry.term = fetch_int_from_string(data.data());
 
     const char *pos = data.data() + sizeof(term);
     const char *end = data.data() + data.size();
 
     while(pos < end) {
+      if(size_t(end - pos) < sizeof(int64_t)) return false;
+
       int64_t len = fetch_int_from_string(pos);
       pos += sizeof(len);
 
+      if(len < 0 || len > end - pos) return false;
       entry.request.emplace_back(pos, len);
       pos += len;
     }
+
+    return true;
   }
 
   static int64_t fetchTerm(std::string_view data) {
diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index 2d1f10e..0114657 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -571,7 +571,10 @@ rocksdb::Status RaftJournal::fetch(LogIndex index, RaftEntry &entry) {
   rocksdb::Status st = db->Get(rocksdb::ReadOptions(), encodeEntryKey(index), &data);
   if(!st.ok()) return st;
 
-  RaftEntry::deserialize(entry, data);
+  if(!RaftEntry::deserialize(entry, data)) {
+    return rocksdb::Status::Corruption("malformed journal entry");
+  }
+
   return st;
 }
 
diff --git a/src/raft/RaftUtils.cc b/src/raft/RaftUtils.cc
index b19a0a1..7f483a3 100644
--- a/src/raft/RaftUtils.cc
+++ b/src/raft/RaftUtils.cc
@@ -155,7 +155,8 @@ bool RaftParser::appendEntries(RedisRequest &&source, RaftAppendEntriesRequest &
 
   int64_t index = 3;
   for(int64_t i = 0; i < nreqs; i++) {
-    RaftEntry::deserialize(dest.entries[i], source[index]);
+    if(!RaftEntry::deserialize(dest.entries[i], source[index])) return false;
+    if(dest.entries[i].request.size() == 0) return false;
     index++;
   }
 
-- 
2.43.0


From 5f3c51d97033fe383181fb1c0460d559e9207d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 35/58] fix: glob matching reads past the end of the pattern
 and of the subject

---
 deps/StringMatchLen.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/deps/StringMatchLen.h b/deps/StringMatchLen.h
index 47f2c5f..c2c72cc 100644
--- a/deps/StringMatchLen.h
+++ b/deps/StringMatchLen.h
@@ -47,7 +47,7 @@ inline int stringmatchlen(const char *pattern, int patternLen,
     while(patternLen) {
         switch(pattern[0]) {
         case '*':
-            while (pattern[1] == '*') {
+            while (patternLen >= 2 && pattern[1] == '*') {
                 pattern++;
                 patternLen--;
             }
@@ -72,27 +72,30 @@ inline int stringmatchlen(const char *pattern, int patternLen,
         {
             int negation, match;
 
+            if (stringLen == 0)
+                return 0; /* no match */
+
             pattern++;
             patternLen--;
-            negation = pattern[0] == '^';
+            negation = patternLen && pattern[0] == '^';
             if (negation) {
                 pattern++;
                 patternLen--;
             }
             match = 0;
             while(1) {
-                if (pattern[0] == '\\') {
+                if (patternLen == 0) {
+                    pattern--;
+                    patternLen++;
+                    break;
+                } else if (patternLen >= 2 && pattern[0] == '\\') {
                     pattern++;
                     patternLen--;
                     if (pattern[0] == string[0])
                         match = 1;
                 } else if (pattern[0] == ']') {
                     break;
-                } else if (patternLen == 0) {
-                    pattern--;
-                    patternLen++;
-                    break;
-                } else if (pattern[1] == '-' && patternLen >= 3) {
+                } else if (patternLen >= 3 && pattern[1] == '-') {
                     int start = pattern[0];
                     int end = pattern[2];
                     int c = string[0];
@@ -137,6 +140,8 @@ inline int stringmatchlen(const char *pattern, int patternLen,
             }
             /* fall through */
         default:
+            if (stringLen == 0)
+                return 0; /* no match */
             if (!nocase) {
                 if (pattern[0] != string[0])
                     return 0; /* no match */
@@ -151,7 +156,7 @@ inline int stringmatchlen(const char *pattern, int patternLen,
         pattern++;
         patternLen--;
         if (stringLen == 0) {
-            while(*pattern == '*') {
+            while(patternLen && *pattern == '*') {
                 pattern++;
                 patternLen--;
             }
-- 
2.43.0


From d10609804551173aac49a88c041b229a09a61e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:30 +0000
Subject: [PATCH 36/58] fix: server addresses which cannot be stored as part of
 a membership are accepted

---
 src/Utils.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Utils.cc b/src/Utils.cc
index 1047d3a..778d406 100644
--- a/src/Utils.cc
+++ b/src/Utils.cc
@@ -101,6 +101,9 @@ bool parseServer(std::string_view str, RaftServer &srv) {
 
   if(parts.size() != 2) return false;
 
+  // Such a hostname would not survive being part of a list of servers
+  if(parts[0].empty() || parts[0].find_first_of(",|") != std::string::npos) return false;
+
   int64_t port;
   if(!ParseUtils::parseInt64(parts[1], port)) return false;
   if(port < INT_MIN || port > INT_MAX) return false;
-- 
2.43.0


From d5e7c3e73a4e1596ce8e4d7e633e3a2606dc7610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:22 +0000
Subject: [PATCH 37/58] fix: an empty pre-packed transaction brings the node
 down

---
 src/Connection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 31e5b8d..250302e 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -316,7 +316,7 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       multiHandler.finalizePhantomTransaction(dispatcher, this);
 
       Transaction tx;
-      if(!tx.deserialize(currentRequest) || tx.isPhantom() || !InternalFilter::allowed(tx)) {
+      if(!tx.deserialize(currentRequest) || tx.empty() || tx.isPhantom() || !InternalFilter::allowed(tx)) {
         this->err("malformed transaction");
         continue;
       }
-- 
2.43.0


From c4762846d99be955a0f39b633693f230f4e9e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:16 +0000
Subject: [PATCH 38/58] fix: line breaks in error and status replies
 desynchronise the client

---
 src/Formatter.cc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/Formatter.cc b/src/Formatter.cc
index 25ba47e..8120dca 100644
--- a/src/Formatter.cc
+++ b/src/Formatter.cc
@@ -30,17 +30,29 @@
 #include "utils/Statistics.hh"
 using namespace quarkdb;
 
+//------------------------------------------------------------------------------
+// Status and error replies end at the first newline: Any line breaks inside the
+// text would make the client misinterpret the remainder as separate replies.
+//------------------------------------------------------------------------------
+static std::string singleLine(std::string_view str) {
+  std::string ret(str);
+  for(size_t i = 0; i < ret.size(); i++) {
+    if(ret[i] == '\r' || ret[i] == '\n') ret[i] = ' ';
+  }
+  return ret;
+}
+
 RedisEncodedResponse Formatter::moved(int64_t shardId, const RaftServer &location) {
-  return RedisEncodedResponse(SSTR("-MOVED " << shardId << " " << location.toString() << "\r\n"));
+  return RedisEncodedResponse(SSTR("-MOVED " << shardId << " " << singleLine(location.toString()) << "\r\n"));
 }
 
 RedisEncodedResponse Formatter::err(std::string_view err) {
-  return RedisEncodedResponse(SSTR("-ERR " << err << "\r\n"));
+  return RedisEncodedResponse(SSTR("-ERR " << singleLine(err) << "\r\n"));
 }
 
 RedisEncodedResponse Formatter::errArgs(std::string_view cmd) {
   qdb_warn("Received malformed " << quotes(cmd) << " command - wrong number of arguments");
-  return RedisEncodedResponse(SSTR("-ERR wrong number of arguments for '" << cmd << "' command\r\n"));
+  return RedisEncodedResponse(SSTR("-ERR wrong number of arguments for '" << singleLine(cmd) << "' command\r\n"));
 }
 
 RedisEncodedResponse Formatter::pong() {
@@ -58,7 +70,7 @@ RedisEncodedResponse Formatter::string(std::string_view str) {
 }
 
 void Formatter::status(std::ostringstream &ss, std::string_view str) {
-  ss << "+" << str << "\r\n";
+  ss << "+" << singleLine(str) << "\r\n";
 }
 
 RedisEncodedResponse Formatter::status(std::string_view str) {
@@ -107,7 +119,7 @@ RedisEncodedResponse Formatter::vector(const std::vector<std::string> &vec) {
 void Formatter::statusVector(std::ostringstream &ss, const std::vector<std::string> &vec) {
   ss << "*" << vec.size() << "\r\n";
   for(std::vector<std::string>::const_iterator it = vec.begin(); it != vec.end(); it++) {
-    ss << "+" << *it << "\r\n";
+    ss << "+" << singleLine(*it) << "\r\n";
   }
 }
 
@@ -219,7 +231,7 @@ RedisEncodedResponse Formatter::journalScan(LogIndex cursor, const std::vector<R
 }
 
 RedisEncodedResponse Formatter::noauth(std::string_view str) {
-  return RedisEncodedResponse(SSTR("-NOAUTH " << str << "\r\n"));
+  return RedisEncodedResponse(SSTR("-NOAUTH " << singleLine(str) << "\r\n"));
 }
 
 RedisEncodedResponse Formatter::versionedVector(uint64_t num, const std::vector<std::string> &vec) {
@@ -285,11 +297,11 @@ RedisEncodedResponse Formatter::vectorsWithHeaders(const std::vector<std::string
 
   for(size_t i = 0; i < headers.size(); i++) {
     ss << "*2\r\n";
-    ss << "+" << headers[i] << "\r\n";
+    ss << "+" << singleLine(headers[i]) << "\r\n";
 
     ss << "*" << data[i].size() << "\r\n";
     for(size_t j = 0; j < data[i].size(); j++) {
-      ss << "+" << data[i][j] << "\r\n";
+      ss << "+" << singleLine(data[i][j]) << "\r\n";
     }
   }
 
-- 
2.43.0


From 61cffe1504cdca18a79d44e9d9cd181e29cc6916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 39/58] fix: redis.certificate_key is taken for
 redis.certificate, and misspelt options are accepted

---
 src/Configuration.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index e8cbb92..552b549 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -135,34 +135,34 @@ bool Configuration::fromReader(ConfigurationReader &reader, Configuration &out)
     bool success = false;
     std::string buffer;
 
-    if(StringUtils::startsWith("mode", current)) {
+    if(current == "mode") {
       success = fetchSingle(reader, buffer) && parseMode(buffer, out.mode);
     }
-    else if(StringUtils::startsWith(current, "database")) {
+    else if(current == "database") {
       success = fetchSingle(reader, out.database);
     }
-    else if(StringUtils::startsWith(current, "myself")) {
+    else if(current == "myself") {
       success = fetchSingle(reader, buffer) && parseServer(buffer, out.myself);
     }
-    else if(StringUtils::startsWith(current, "trace")) {
+    else if(current == "trace") {
       success = fetchSingle(reader, buffer) && parseTraceLevel(buffer, out.trace);
     }
-    else if(StringUtils::startsWith(current, "certificate")) {
+    else if(current == "certificate") {
       success = fetchSingle(reader, out.certificatePath);
     }
-    else if(StringUtils::startsWith(current, "certificate_key")) {
+    else if(current == "certificate_key") {
       success = fetchSingle(reader, out.certificateKeyPath);
     }
-    else if(StringUtils::startsWith(current, "write_ahead_log")) {
+    else if(current == "write_ahead_log") {
       success = fetchSingle(reader, buffer) && parseBool(buffer, out.writeAheadLog);
     }
-    else if(StringUtils::startsWith(current, "password_file")) {
+    else if(current == "password_file") {
       success = fetchSingle(reader, out.passwordFilePath);
     }
-    else if(StringUtils::startsWith(current, "password")) {
+    else if(current == "password") {
       success = fetchSingle(reader, out.password);
     }
-    else if(StringUtils::startsWith(current, "require_password_for_localhost")) {
+    else if(current == "require_password_for_localhost") {
       success = fetchSingle(reader, buffer) && parseBool(buffer, out.requirePasswordForLocalhost);
     }
     else {
-- 
2.43.0


From 4b3514107463e72ee4afe210d804bc11e8288534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 40/58] fix: a configuration without redis.mode is accepted
 with an undefined mode

---
 src/Configuration.cc | 6 ++++++
 src/Configuration.hh | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index 552b549..8c1d151 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -137,6 +137,7 @@ bool Configuration::fromReader(ConfigurationReader &reader, Configuration &out)
 
     if(current == "mode") {
       success = fetchSingle(reader, buffer) && parseMode(buffer, out.mode);
+      out.modeSpecified = success;
     }
     else if(current == "database") {
       success = fetchSingle(reader, out.database);
@@ -187,6 +188,11 @@ bool Configuration::fromString(const std::string &str, Configuration &out) {
 }
 
 bool Configuration::isValid() {
+  if(!modeSpecified) {
+    qdb_log("redis.mode must be specified.");
+    return false;
+  }
+
   if(database.empty()) {
     qdb_log("redis.database must be specified.");
     return false;
diff --git a/src/Configuration.hh b/src/Configuration.hh
index 6bf5391..110bc6f 100644
--- a/src/Configuration.hh
+++ b/src/Configuration.hh
@@ -75,7 +75,8 @@ public:
 
   std::string extractPasswordOrDie() const;
 private:
-  Mode mode;
+  Mode mode = Mode::standalone;
+  bool modeSpecified = false;
   std::string database;
   TraceLevel trace = TraceLevel::info;
   std::string certificatePath;
-- 
2.43.0


From 01bccea07809981ad3a434b558fe6ac15b425f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:38 +0000
Subject: [PATCH 41/58] fix: an option without a value takes the name of the
 next option as its value

---
 src/Configuration.cc              |  4 +---
 src/config/ConfigurationReader.cc | 19 +++++++++++++++++++
 src/config/ConfigurationReader.hh |  6 ++++++
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index 8c1d151..f38e3cd 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -48,9 +48,7 @@ bool Configuration::fromFile(const std::string &filename, Configuration &out) {
 }
 
 static bool fetchSingle(ConfigurationReader &reader, std::string &dest) {
-  reader.advanceWord();
-
-  if(reader.eof()) {
+  if(!reader.advanceWordInLine()) {
     return false;
   }
 
diff --git a/src/config/ConfigurationReader.cc b/src/config/ConfigurationReader.cc
index 1151a44..00a87bc 100644
--- a/src/config/ConfigurationReader.cc
+++ b/src/config/ConfigurationReader.cc
@@ -77,6 +77,25 @@ void ConfigurationReader::advanceWord() {
 //------------------------------------------------------------------------------
 // Advance to next line
 //------------------------------------------------------------------------------
+bool ConfigurationReader::advanceWordInLine() {
+  size_t pos = findNextWhitespace();
+
+  while(pos < mContents.size() && isspace(mContents[pos])) {
+    if(mContents[pos] == '\n') {
+      return false;
+    }
+
+    pos++;
+  }
+
+  if(pos >= mContents.size()) {
+    return false;
+  }
+
+  mPosition = pos;
+  return true;
+}
+
 void ConfigurationReader::advanceLine() {
   while(mPosition < mContents.size()) {
     mPosition++;
diff --git a/src/config/ConfigurationReader.hh b/src/config/ConfigurationReader.hh
index 10368b5..900b924 100644
--- a/src/config/ConfigurationReader.hh
+++ b/src/config/ConfigurationReader.hh
@@ -48,6 +48,12 @@ public:
   //----------------------------------------------------------------------------
   void advanceWord();
 
+  //----------------------------------------------------------------------------
+  // Advance to next word, but only if there's one on the current line.
+  // Returns false without moving otherwise.
+  //----------------------------------------------------------------------------
+  bool advanceWordInLine();
+
   //----------------------------------------------------------------------------
   // Advance to next line
   //----------------------------------------------------------------------------
-- 
2.43.0


From 4868aec1914909bfd9f0346655a1e0ccddf17aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:53 +0000
Subject: [PATCH 42/58] fix: an empty password file disables authentication

---
 src/Configuration.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index f38e3cd..3815804 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -242,5 +242,9 @@ std::string Configuration::extractPasswordOrDie() const {
     qdb_throw("Could not read password file: " << passwordFilePath);
   }
 
+  if(contents.empty()) {
+    qdb_throw("Password file is empty: " << passwordFilePath);
+  }
+
   return contents;
 }
-- 
2.43.0


From 8248fcc98e8609e17221e2ccebb90adcd2b69bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:08 +0000
Subject: [PATCH 43/58] fix: empty files cannot be written, and partial writes
 are taken for success

---
 src/utils/FileUtils.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utils/FileUtils.cc b/src/utils/FileUtils.cc
index ff1631c..890fd6e 100644
--- a/src/utils/FileUtils.cc
+++ b/src/utils/FileUtils.cc
@@ -192,8 +192,16 @@ bool write_file(std::string_view path, std::string_view contents, std::string &e
     return false;
   }
 
-  retvalue = fwrite(contents.data(), sizeof(char), contents.size(), out);
-  fclose(out);
+  retvalue = (fwrite(contents.data(), sizeof(char), contents.size(), out) == contents.size());
+
+  if(fclose(out) != 0) {
+    retvalue = false;
+  }
+
+  if(!retvalue) {
+    err = SSTR("Unable to write " << contents.size() << " bytes into " << path << ", errno: " << errno);
+  }
+
   return retvalue;
 }
 
-- 
2.43.0


From 8b3f10cc64d289b45b44ff65115777eabfa9dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:04 +0000
Subject: [PATCH 44/58] fix: removing the front of an empty expiration index
 reads out of bounds

---
 src/storage/ExpirationEventCache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/ExpirationEventCache.cc b/src/storage/ExpirationEventCache.cc
index 3e268d6..689e85c 100644
--- a/src/storage/ExpirationEventCache.cc
+++ b/src/storage/ExpirationEventCache.cc
@@ -71,8 +71,8 @@ std::string ExpirationEventCache::getFrontLease() {
 //------------------------------------------------------------------------------
 void ExpirationEventCache::pop_front() {
   std::scoped_lock lock(mMutex);
-  qdb_assert(mStoredLeases.erase(mContents.begin()->second) == 1u);
   qdb_assert(!mContents.empty());
+  qdb_assert(mStoredLeases.erase(mContents.begin()->second) == 1u);
   mContents.erase(mContents.begin());
 }
 
-- 
2.43.0


From a8970045de5997381ff08cdeb02c0dd246638337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:22 +0000
Subject: [PATCH 45/58] fix: a membership removal brings a just-elected leader
 with observers down

---
 src/raft/RaftDispatcher.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index b8ae8f8..988ff38 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -82,13 +82,25 @@ bool RaftDispatcher::checkIfNodeRemovalAcceptable(const RaftServer &srv) {
   // Build a replication status object with how the full members would
   // look like after the node removal
 
-  ReplicationStatus replicationStatus = replicator.getStatus();
-  replicationStatus.removeReplicas(journal.getMembership().observers);
+  // A full member which is unknown to the replicator counts as offline - this
+  // could happen if I just became leader.
 
+  ReplicationStatus current = replicator.getStatus();
+  ReplicationStatus replicationStatus;
   ReplicaStatus leaderStatus = { state.getMyself(), true, journal.getLogSize() };
-  replicationStatus.addReplica(leaderStatus);
-  if(replicationStatus.contains(srv)) {
-    replicationStatus.removeReplica(srv);
+
+  for(const RaftServer &node : journal.getMembership().nodes) {
+    if(node == srv) continue;
+
+    if(node == state.getMyself()) {
+      replicationStatus.addReplica(leaderStatus);
+    }
+    else if(current.contains(node)) {
+      replicationStatus.addReplica(current.getReplicaStatus(node));
+    }
+    else {
+      replicationStatus.addReplica(ReplicaStatus(node, false, -1));
+    }
   }
 
   return replicationStatus.quorumUpToDate(leaderStatus.logSize);
-- 
2.43.0


From 7a4784dd16bceedafe8754ae4aa66317c2f98f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:36 +0000
Subject: [PATCH 46/58] fix: promoting an unknown server brings the leader down

---
 src/raft/RaftDispatcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 988ff38..3e7c677 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -299,7 +299,7 @@ LinkStatus RaftDispatcher::dispatch(Connection *conn, RedisRequest &req) {
       }
       else if(req.getCommand() == RedisCommand::RAFT_PROMOTE_OBSERVER) {
         ReplicationStatus replicationStatus = replicator.getStatus();
-        if(!replicationStatus.getReplicaStatus(srv).upToDate(journal.getLogSize())) {
+        if(!replicationStatus.contains(srv) || !replicationStatus.getReplicaStatus(srv).upToDate(journal.getLogSize())) {
           return conn->err("membership update blocked, observer is not up-to-date");
         }
 
-- 
2.43.0


From 00a750d2b378454ae7bdb8a03015207e32255318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:20 +0000
Subject: [PATCH 47/58] fix: subscription counts are too high after
 subscriptions were dropped on loss of leadership

---
 src/Connection.hh       |  2 +-
 src/pubsub/Publisher.cc | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Connection.hh b/src/Connection.hh
index 5a1bfb6..3630549 100644
--- a/src/Connection.hh
+++ b/src/Connection.hh
@@ -68,7 +68,7 @@ public:
   LogIndex dispatchPending(RedisDispatcher *dispatcher, LogIndex commitIndex);
   bool appendIfAttached(RedisEncodedResponse &&raw);
   bool appendIfAttachedNoLock(RedisEncodedResponse &&raw);
-  size_t subscriptions = 0u;
+  std::atomic<size_t> subscriptions {0u};
 
   void subscribe(const std::string &item);
   void psubscribe(const std::string &item);
diff --git a/src/pubsub/Publisher.cc b/src/pubsub/Publisher.cc
index b9737b8..0918220 100644
--- a/src/pubsub/Publisher.cc
+++ b/src/pubsub/Publisher.cc
@@ -58,13 +58,15 @@ Publisher::~Publisher() {
 
 void Publisher::purgeListeners(RedisEncodedResponse resp) {
   for(auto it = channelSubscriptions.getFullIterator(); it.valid(); it.next()) {
-    it.getValue()->appendIfAttached(RedisEncodedResponse(resp));
-    it.erase();
+    std::shared_ptr<PendingQueue> queue = it.getValue();
+    queue->appendIfAttached(RedisEncodedResponse(resp));
+    if(it.erase()) queue->subscriptions--;
   }
 
   for(auto it = patternMatcher.getFullIterator(); it.valid(); it.next()) {
-    it.getValue()->appendIfAttached(RedisEncodedResponse(resp));
-    it.erase();
+    std::shared_ptr<PendingQueue> queue = it.getValue();
+    queue->appendIfAttached(RedisEncodedResponse(resp));
+    if(it.erase()) queue->subscriptions--;
   }
 }
 
-- 
2.43.0


From fc7e7b1347c058424466fafe0cb34cfd32dfaab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:10 +0000
Subject: [PATCH 48/58] fix: reading a node's vote races with changing it

---
 src/raft/RaftJournal.cc | 2 +-
 src/raft/RaftJournal.hh | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index 0114657..556edfd 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -454,7 +454,7 @@ void RaftJournal::trimUntil(LogIndex newLogStart) {
 }
 
 RaftServer RaftJournal::getVotedFor() {
-  std::scoped_lock lock(votedForMutex);
+  std::scoped_lock lock(currentTermMutex);
   return votedFor;
 }
 
diff --git a/src/raft/RaftJournal.hh b/src/raft/RaftJournal.hh
index 430ab3a..a3c8312 100644
--- a/src/raft/RaftJournal.hh
+++ b/src/raft/RaftJournal.hh
@@ -147,7 +147,6 @@ private:
   std::mutex commitIndexMutex;
   std::mutex contentMutex;
   std::mutex membersMutex;
-  std::mutex votedForMutex;
   std::mutex fsyncPolicyMutex;
 
   std::condition_variable commitNotifier;
-- 
2.43.0


From 7900c5aa3566d8d8b665e4ac13101a9d1f126898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:07 +0000
Subject: [PATCH 49/58] fix: changing the fsync policy during a write brings
 the node down

---
 src/raft/RaftJournal.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index 556edfd..11b855a 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -93,15 +93,18 @@ void RaftJournal::ensureFsyncPolicyInitialized() {
 // Should we sync this write?
 //------------------------------------------------------------------------------
 bool RaftJournal::shouldSync(bool important) {
-  if(fsyncPolicy == FsyncPolicy::kAlways) {
+  // The policy may be changed at any moment, decide based on a single value.
+  FsyncPolicy policy = fsyncPolicy;
+
+  if(policy == FsyncPolicy::kAlways) {
     return true;
   }
 
-  if(fsyncPolicy == FsyncPolicy::kAsync) {
+  if(policy == FsyncPolicy::kAsync) {
     return false;
   }
 
-  qdb_assert(fsyncPolicy == FsyncPolicy::kSyncImportantUpdates);
+  qdb_assert(policy == FsyncPolicy::kSyncImportantUpdates);
   return important;
 }
 
-- 
2.43.0


From 8afddbf734cecb504285ac77e8ff4927a0a6362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:23 +0000
Subject: [PATCH 50/58] fix: a node that receives a majority of votes and a
 veto hangs with the log lock held

---
 src/utils/Macros.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/Macros.hh b/src/utils/Macros.hh
index bea8e97..6d3d6f5 100644
--- a/src/utils/Macros.hh
+++ b/src/utils/Macros.hh
@@ -55,8 +55,11 @@ std::string errorStacktrace(bool crash);
 
 extern std::mutex logMutex;
 #define TIME_NOW std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count()
-#define ___log(message) { std::scoped_lock logLock(quarkdb::logMutex); \
-  std::cerr << "[" << TIME_NOW << "] " << message << std::endl; }
+// The message is evaluated before taking the lock: building it might result in
+// something else being logged.
+#define ___log(message) { std::ostringstream logStream; logStream << message; \
+  std::scoped_lock logLock(quarkdb::logMutex); \
+  std::cerr << "[" << TIME_NOW << "] " << logStream.str() << std::endl; }
 
 #define DBG(message) ___log(__FILE__ << ":" << __LINE__ << " -- " << #message << " = " << message)
 
-- 
2.43.0


From 4cd99632ef22320135b2af7ff3bcd04d970dea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:13 +0000
Subject: [PATCH 51/58] fix: a trimming block does not hold off a trimming
 round already under way

---
 src/raft/RaftTrimmer.cc | 36 +++++++++++++++++-------------------
 src/raft/RaftTrimmer.hh |  6 ++++--
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/raft/RaftTrimmer.cc b/src/raft/RaftTrimmer.cc
index eff6f1b..013a3f8 100644
--- a/src/raft/RaftTrimmer.cc
+++ b/src/raft/RaftTrimmer.cc
@@ -42,16 +42,11 @@ LogIndex RaftTrimmingBlock::getPreservationIndex() const {
 }
 
 void RaftTrimmingBlock::enforce(LogIndex limit) {
+  // Even if already registered, the limit has to change under the trimmer lock:
+  // Once we return, no trimming decided based on the old limit is in progress.
+  std::scoped_lock lock(trimmer.mtx);
   preserveIndex = limit;
-
-  if(registered && limit == std::numeric_limits<LogIndex>::max()) {
-    trimmer.registerChange(this);
-    registered = false;
-  }
-  else if(!registered && limit != std::numeric_limits<LogIndex>::max()) {
-    trimmer.registerChange(this);
-    registered = true;
-  }
+  trimmer.registerChange(this);
 }
 
 void RaftTrimmingBlock::lift() {
@@ -64,8 +59,6 @@ RaftTrimmer::RaftTrimmer(RaftJournal &jr, RaftConfig &conf, StateMachine &sm)
 }
 
 void RaftTrimmer::registerChange(RaftTrimmingBlock* block) {
-  std::scoped_lock guard(mtx);
-
   // De-register?
   if(block->getPreservationIndex() == std::numeric_limits<LogIndex>::max()) {
     blocks.erase(block);
@@ -78,7 +71,10 @@ void RaftTrimmer::registerChange(RaftTrimmingBlock* block) {
 
 bool RaftTrimmer::canTrimUntil(LogIndex threshold) {
   std::scoped_lock lock(mtx);
+  return canTrimUntilNoLock(threshold);
+}
 
+bool RaftTrimmer::canTrimUntilNoLock(LogIndex threshold) {
   for(auto it = blocks.begin(); it != blocks.end(); it++) {
     if((*it)->getPreservationIndex() <= threshold) {
       return false;
@@ -106,20 +102,22 @@ void RaftTrimmer::main(ThreadAssistant &assistant) {
 
     threshold = start + trimConfig.step;
 
-    // Check if any trimming block is preserving these entries.
-    if(!canTrimUntil(threshold)) {
-      goto wait;
-    }
-
     // A last, paranoid check: Have the entries we're about to remove been
     // both committed and applied?
     if(journal.getCommitIndex() <= threshold || stateMachine.getLastApplied() <= threshold) {
       goto wait;
     }
 
-    // All clear, go.
-    journal.trimUntil(threshold);
-    continue; // no wait
+    {
+      // Check if any trimming block is preserving these entries. Keep the lock
+      // while trimming, so that no block can change in-between.
+      std::scoped_lock lock(mtx);
+      if(canTrimUntilNoLock(threshold)) {
+        // All clear, go.
+        journal.trimUntil(threshold);
+        continue; // no wait
+      }
+    }
 
 wait:
       assistant.wait_for(std::chrono::seconds(1));
diff --git a/src/raft/RaftTrimmer.hh b/src/raft/RaftTrimmer.hh
index 33ace85..055c523 100644
--- a/src/raft/RaftTrimmer.hh
+++ b/src/raft/RaftTrimmer.hh
@@ -61,16 +61,18 @@ private:
   // max: block is inactive
   // 0: preserve ALL entries
   std::atomic<LogIndex> preserveIndex;
-  bool registered {false};
 };
 
 class RaftJournal; class RaftConfig; class StateMachine;
 class RaftTrimmer {
 public:
   RaftTrimmer(RaftJournal &journal, RaftConfig &raftConfig, StateMachine &sm);
-  void registerChange(RaftTrimmingBlock* block);
   bool canTrimUntil(LogIndex threshold);
 private:
+  // These require mtx to be held
+  void registerChange(RaftTrimmingBlock* block);
+  bool canTrimUntilNoLock(LogIndex threshold);
+
   std::mutex mtx;
   std::set<RaftTrimmingBlock*> blocks;
 
-- 
2.43.0


From 49dfee9e2b2e7f23a89f796e05ef8e5cc73d0046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:12 +0000
Subject: [PATCH 52/58] fix: an invalid trimming configuration makes the
 trimmer use uninitialised limits or spin

---
 src/raft/RaftConfig.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftConfig.cc b/src/raft/RaftConfig.cc
index 92f573b..641f9c5 100644
--- a/src/raft/RaftConfig.cc
+++ b/src/raft/RaftConfig.cc
@@ -42,6 +42,11 @@ bool TrimmingConfig::parse(const std::string &str) {
     return false;
   }
 
+  // Negative limits, or trimming in steps of zero entries make no sense
+  if(parts[0] < 0 || parts[1] <= 0) {
+    return false;
+  }
+
   keepAtLeast = parts[0];
   step = parts[1];
   return true;
@@ -84,12 +89,13 @@ EncodedConfigChange RaftConfig::setResilveringEnabled(bool value) {
 }
 
 TrimmingConfig RaftConfig::getTrimmingConfig() {
+  const TrimmingConfig defaults { 50000000, 200000 };
+
   std::string trimConfig;
   rocksdb::Status st = stateMachine.configGet(kTrimConfigKey, trimConfig);
 
   if(st.IsNotFound()) {
-    // Return default values
-    return { 50000000, 200000 };
+    return defaults;
   }
   else if(!st.ok()) {
     qdb_throw("Error when retrieving journal trim limit: " << st.ToString());
@@ -98,6 +104,7 @@ TrimmingConfig RaftConfig::getTrimmingConfig() {
   TrimmingConfig ret;
   if(!ret.parse(trimConfig)) {
     qdb_misconfig("Unable to parse trimming configuration key: " << kTrimConfigKey << " => " << trimConfig);
+    return defaults;
   }
 
   return ret;
-- 
2.43.0


From c41ceb91ee97ada3421d3e2b8bf3360b4df0a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:26 +0000
Subject: [PATCH 53/58] fix: a leader survives a malformed reply from a replica

---
 src/raft/RaftReplicator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 416a630..6997c94 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -141,7 +141,7 @@ static AppendEntriesReception retrieve_response(
   if(rep == nullptr) return AppendEntriesReception::kError;
 
   if(!RaftParser::appendEntriesResponse(rep, resp)) {
-    if(strncmp(rep->str, "ERR unavailable", strlen("ERR unavailable")) != 0) {
+    if(rep->type != REDIS_REPLY_ERROR || strncmp(rep->str, "ERR unavailable", strlen("ERR unavailable")) != 0) {
       // unexpected response
       qdb_critical("cannot parse response from append entries");
     }
@@ -161,7 +161,7 @@ static bool retrieve_heartbeat_reply(std::future<redisReplyPtr> &fut, RaftHeartb
   if(rep == nullptr) return false;
 
   if(!RaftParser::heartbeatResponse(rep, resp)) {
-    if(strncmp(rep->str, "ERR unavailable", strlen("ERR unavailable")) != 0) {
+    if(rep->type != REDIS_REPLY_ERROR || strncmp(rep->str, "ERR unavailable", strlen("ERR unavailable")) != 0) {
       // unexpected response
       qdb_critical("cannot parse response from heartbeat");
     }
-- 
2.43.0


From 57309455dbccdf01e6299f57755769e0a6094c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:57 +0000
Subject: [PATCH 54/58] fix: a replica that stops answering while updates are
 streamed is noticed

---
 src/raft/RaftReplicator.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 6997c94..4192d61 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -224,15 +224,15 @@ void RaftReplicaTracker::monitorAckReception(ThreadAssistant &assistant) {
 
     RaftAppendEntriesResponse response;
 
-    size_t attempts = 0;
-    while(attempts < 10) {
+    AppendEntriesReception reception = AppendEntriesReception::kNotArrivedYet;
+    for(size_t attempts = 0; attempts < 10; attempts++) {
 
       if(assistant.terminationRequested()) {
         streamingUpdates = false;
         return;
       }
 
-      AppendEntriesReception reception = retrieve_response(
+      reception = retrieve_response(
         item.fut,
         response,
         std::chrono::milliseconds(500)
@@ -250,6 +250,13 @@ void RaftReplicaTracker::monitorAckReception(ThreadAssistant &assistant) {
       }
     }
 
+    if(reception != AppendEntriesReception::kOk) {
+      // No reply for too long, stop streaming and find out if the target is
+      // still there
+      streamingUpdates = false;
+      return;
+    }
+
     // If we're here, an acknowledgement to AppendEntries has been received.
     // Verify it makes sense.
 
-- 
2.43.0


From 09c7b78f145e02836cc7dd2341fca452ee7e8723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:33 +0000
Subject: [PATCH 55/58] fix: resetting a shard to a non-zero index without a
 seed state machine no longer crashes

---
 src/ShardDirectory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 1016959..26ec390 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -171,6 +171,7 @@ void ShardDirectory::initializeStateMachine(std::unique_ptr<StateMachine> sm, Lo
     //--------------------------------------------------------------------------
     wipeoutStateMachineContents();
     getStateMachine()->forceResetLastApplied(initialLastApplied);
+    return;
   }
 
   //----------------------------------------------------------------------------
-- 
2.43.0


From 16a6b0e15e5ff969eb6b06cb25a68f33d280e03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:48 +0000
Subject: [PATCH 56/58] fix: a standalone shard created from a seed state
 machine can be opened

---
 src/ShardDirectory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 26ec390..fa8b2ee 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -251,7 +251,7 @@ ShardDirectory* ShardDirectory::create(const std::string &path, RaftClusterID cl
 
   // Standalone shard, we start from LogIndex 0
   shardDirectory->initializeStateMachine(std::move(sm), 0);
-  return new ShardDirectory(path);
+  return shardDirectory;
 }
 
 ShardDirectory* ShardDirectory::create(const std::string &path, RaftClusterID clusterID, ShardID shardID, const std::vector<RaftServer> &nodes, LogIndex startIndex, FsyncPolicy fsyncPolicy, std::unique_ptr<StateMachine> sm, Status &st) {
-- 
2.43.0


From 56af09845797bc0df93c868bded32c7808ecb105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:04 +0000
Subject: [PATCH 57/58] fix: the resilvering history is not lost if the node
 dies while it is being updated

---
 src/ShardDirectory.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index fa8b2ee..e5d037a 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -27,6 +27,8 @@
 #include "raft/RaftJournal.hh"
 
 #include <sys/stat.h>
+#include <stdio.h>
+#include <string.h>
 
 using namespace quarkdb;
 
@@ -57,7 +59,15 @@ void ShardDirectory::parseResilveringHistory() {
 }
 
 void ShardDirectory::storeResilveringHistory() {
-  write_file_or_die(resilveringHistoryPath(), resilveringHistory.serialize());
+  // Never overwrite the existing history in-place: A crash in the middle would
+  // lose it.
+  std::string historyPath = resilveringHistoryPath();
+  std::string tmpPath = historyPath + ".tmp";
+
+  write_file_or_die(tmpPath, resilveringHistory.serialize());
+  if(rename(tmpPath.c_str(), historyPath.c_str()) != 0) {
+    qdb_throw("Unable to rename '" << tmpPath << "' to '" << historyPath << "': " << strerror(errno));
+  }
 }
 
 ShardDirectory::ShardDirectory(const std::string &initpath, Configuration config)
-- 
2.43.0


From a78e770f0c48651c5c4e4bb4345ee8dd22dd4dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:59 +0000
Subject: [PATCH 58/58] fix: no membership updates before the leader has
 committed an entry of its own term

---
 src/raft/RaftDispatcher.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index 3e7c677..fd60202 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -284,6 +284,14 @@ LinkStatus RaftDispatcher::dispatch(Connection *conn, RedisRequest &req) {
       if(snapshot->status != RaftStatus::LEADER) return conn->err("not a leader");
       if(srv == state.getMyself()) return conn->err("cannot perform membership changes on current leader");
 
+      // A new leader must not start a membership update before an entry of its
+      // own term has been committed: there could be an uncommitted update from
+      // an earlier leader still around, and the quorums of two updates which are
+      // based on the same membership do not necessarily overlap.
+      if(journal.getCommitIndex() < snapshot->leadershipMarker) {
+        return conn->err("membership update blocked, leadership marker has not been committed yet");
+      }
+
       std::string err;
       bool rc;
 
-- 
2.43.0

