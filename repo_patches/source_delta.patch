From 50f881c3cb5aa3b0126551c4abcea741eac6d2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 01/16] fix: carry bits across halves for every in-range shift
 in BlkShifted

magma shifted a 32-bit half by 64 - n, which is undefined for every n, and
kuznyechik by 64 for n = 0.
---
 goost/kuznyechik/BlkShifted.cpp | 2 +-
 goost/magma/BlkShifted.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/goost/kuznyechik/BlkShifted.cpp b/goost/kuznyechik/BlkShifted.cpp
index cda6197..888b409 100644
--- a/goost/kuznyechik/BlkShifted.cpp
+++ b/goost/kuznyechik/BlkShifted.cpp
@@ -16,5 +16,5 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint64_t, uint64_t> BlkShifted::value() const
 {
 	const auto value = block->value();
-	return {value.first << n, value.second << n | value.first >> (64 - n)};
+	return {value.first << n, value.second << n | value.first >> 1 >> (63 - n)};
 }
diff --git a/goost/magma/BlkShifted.cpp b/goost/magma/BlkShifted.cpp
index 020d1d5..a99269e 100644
--- a/goost/magma/BlkShifted.cpp
+++ b/goost/magma/BlkShifted.cpp
@@ -16,5 +16,5 @@ BlkShifted::BlkShifted(const shared_ptr<const Block> &block, int n)
 pair<uint32_t, uint32_t> BlkShifted::value() const
 {
 	const auto value = block->value();
-	return {value.first << n, value.second << n | value.first >> (64 - n)};
+	return {value.first << n, value.second << n | value.first >> 1 >> (31 - n)};
 }
-- 
2.43.0


From e96bef5ff2bfbdca57d182e7e64c008e23969f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 02/16] fix: encrypt the incomplete last CFB block in bounds
 and with the right halves

finalize() wrote eight bytes into the shorter tail and swapped the halves of
the keystream, so the tail could not be decrypted.
---
 goost/gost89/CFBSink.cpp | 5 ++---
 goost/magma/CFBSink.cpp  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 1ffb168..0308a15 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -70,9 +70,8 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		for (size_t i = 0; i < c.size(); i++) {
+			c[i] ^= static_cast<byte>((i < 4 ? e.first : e.second) >> (i % 4 * 8));
 		}
 		s = s->write(c);
 	}
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 14642af..8ddc1ee 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -71,9 +71,8 @@ shared_ptr<const Sink> CFBSink::finalize() const
 			dynamic_pointer_cast<const LazyKey>(key)
 		).value();
 		auto c = plain;
-		for (int i = 0; i < 4; i++) {
-			c[0 + i] ^= static_cast<byte>(e.second >> (i * 8));
-			c[4 + i] ^= static_cast<byte>(e.first >> (i * 8));
+		for (size_t i = 0; i < c.size(); i++) {
+			c[i] ^= static_cast<byte>((i < 4 ? e.first : e.second) >> (i % 4 * 8));
 		}
 		s = s->write(c);
 	}
-- 
2.43.0


From 16cc2f59e2c888c6af0af90658675e00914c1d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 03/16] fix: keep within the incomplete last block in CFBSource

---
 goost/gost89/CFBSource.cpp | 6 +++---
 goost/magma/CFBSource.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index d021f15..53ab654 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -58,13 +58,13 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 			break;
 		}
 
-		memcpy(&r, &p[0], max(sizeof(r), p.size()));
+		memcpy(&r, &p[0], min(sizeof(r), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index deb8099..336e7fa 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -61,13 +61,13 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 		}
 
 		rl = rr;
-		memcpy(&rr, &p[0], max(sizeof(rr), p.size()));
+		memcpy(&rr, &p[0], min(sizeof(rr), p.size()));
 
 		for (size_t i = 0; i < 4; i++) {
-			if (p.size() >= 0 + i) {
+			if (p.size() > 0 + i) {
 				p[0 + i] ^= static_cast<byte>(e.first >> (i * 8));
 			}
-			if (p.size() >= 4 + i) {
+			if (p.size() > 4 + i) {
 				p[4 + i] ^= static_cast<byte>(e.second >> (i * 8));
 			}
 		}
-- 
2.43.0


From 08b5b92f7a1ce6223098431def16cd6db9a4ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 04/16] fix: refuse an incomplete ECB block instead of reading
 and writing past it

---
 goost/magma/ECBSource.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 71ca1aa..18d1551 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -45,6 +45,9 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 		// Decryption is done
 		return {p, s};
 	}
+	if (p.size() != Block::size) {
+		throw runtime_error("Unaligned ECB decryption");
+	}
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-- 
2.43.0


From 47c9ac526898d39da2632ec2b074d786e64e6a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 05/16] fix: StMemory with an odd number of words or none at
 all

The last block of an odd stream was read past the end of the vector, and an
empty stream had a null iterator, which Imit dereferences.
---
 goost/kuznyechik/StMemory.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index 90393ab..b8c8d12 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -18,6 +18,7 @@ public:
 	ItMemory(
 		const weak_ptr<const StMemory> &stream,
 		size_t offset,
+		size_t bytes,
 		const shared_ptr<const Block> &data
 	);
 
@@ -28,6 +29,7 @@ public:
 private:
 	const weak_ptr<const StMemory> stream;
 	const size_t offset;
+	const size_t bytes;
 	const shared_ptr<const Block> data;
 };
 
@@ -37,8 +39,9 @@ private:
 ItMemory::ItMemory(
 	const weak_ptr<const StMemory> &stream,
 	size_t offset,
+	size_t bytes,
 	const shared_ptr<const Block> &data
-) : stream(stream), offset(offset), data(data)
+) : stream(stream), offset(offset), bytes(bytes), data(data)
 {
 }
 
@@ -54,7 +57,7 @@ bool ItMemory::last() const
 
 size_t ItMemory::size() const
 {
-	return Block::size;
+	return bytes;
 }
 
 shared_ptr<const Iterator> ItMemory::next() const
@@ -70,17 +73,23 @@ StMemory::StMemory(const vector<uint64_t> &data)
 
 shared_ptr<const Iterator> StMemory::iter() const
 {
+	if (data.empty()) {
+		return make_shared<const ItMemory>(shared_from_this(), 0, 0, make_shared<BlkRaw>());
+	}
 	return next_iter(0);
 }
 
 shared_ptr<const Iterator> StMemory::next_iter(size_t offset) const
 {
-	if (data.size() <= offset / sizeof(uint64_t)) {
+	const auto index = offset / sizeof(uint64_t);
+	if (data.size() <= index) {
 		return {};
 	}
+	const bool complete = data.size() - index > 1;
 	return make_shared<const ItMemory>(
 		shared_from_this(),
 		offset,
-		make_shared<BlkRaw>(&data[offset / sizeof(uint64_t)])
+		complete ? Block::size : sizeof(uint64_t),
+		make_shared<BlkRaw>(data[index], complete ? data[index + 1] : 0)
 	);
 }
-- 
2.43.0


From de9775112974727e002bacdd3193a9cfc6c2457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:00 +0000
Subject: [PATCH 06/16] fix: StMemory iterators keep their stream alive

Advancing an iterator after the last handle of the stream was gone
dereferenced an expired weak pointer.
---
 goost/kuznyechik/StMemory.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/goost/kuznyechik/StMemory.cpp b/goost/kuznyechik/StMemory.cpp
index b8c8d12..f127c9d 100644
--- a/goost/kuznyechik/StMemory.cpp
+++ b/goost/kuznyechik/StMemory.cpp
@@ -16,7 +16,7 @@ namespace kuznyechik {
 class ItMemory final : public Iterator {
 public:
 	ItMemory(
-		const weak_ptr<const StMemory> &stream,
+		const shared_ptr<const StMemory> &stream,
 		size_t offset,
 		size_t bytes,
 		const shared_ptr<const Block> &data
@@ -27,7 +27,7 @@ public:
 	size_t size() const override;
 	shared_ptr<const Iterator> next() const override;
 private:
-	const weak_ptr<const StMemory> stream;
+	const shared_ptr<const StMemory> stream;
 	const size_t offset;
 	const size_t bytes;
 	const shared_ptr<const Block> data;
@@ -37,7 +37,7 @@ private:
 }  // namespace goost
 
 ItMemory::ItMemory(
-	const weak_ptr<const StMemory> &stream,
+	const shared_ptr<const StMemory> &stream,
 	size_t offset,
 	size_t bytes,
 	const shared_ptr<const Block> &data
@@ -62,8 +62,7 @@ size_t ItMemory::size() const
 
 shared_ptr<const Iterator> ItMemory::next() const
 {
-	const auto stream_ptr = stream.lock();
-	return stream_ptr->next_iter(offset + Block::size);
+	return stream->next_iter(offset + Block::size);
 }
 
 StMemory::StMemory(const vector<uint64_t> &data)
-- 
2.43.0


From f92f8a3df1ed482e0cabbfb1e8dc66e97273cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:01 +0000
Subject: [PATCH 07/16] fix: bound the call depth of MAC and CTR over long
 messages

The chaining value was wrapped once more per block and only evaluated at the
end, so a 16 kB Kuznyechik MAC overflowed the stack.
---
 goost/kuznyechik/Imit.cpp           | 8 +++++---
 goost/kuznyechik/StCTREncrypted.cpp | 6 +++++-
 goost/magma/Imit.cpp                | 2 +-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/goost/kuznyechik/Imit.cpp b/goost/kuznyechik/Imit.cpp
index bfae3ca..18a3d3c 100644
--- a/goost/kuznyechik/Imit.cpp
+++ b/goost/kuznyechik/Imit.cpp
@@ -54,9 +54,11 @@ std::pair<uint64_t, uint64_t> Imit::value() const
 	shared_ptr<const Block> block = make_shared<const BlkRaw>();
 
 	while (!iter->last()) {
-		block = make_shared<const BlkEncrypted>(
-			make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
-			key
+		block = make_shared<const BlkRaw>(
+			make_shared<const BlkEncrypted>(
+				make_unique<BlkXored>(block, make_unique<BlkRaw>(iter->value())),
+				key
+			)
 		);
 		iter = iter->next();
 	}
diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 09b757c..7cb25cc 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -57,7 +57,11 @@ size_t ItCTREncrypted::size() const
 
 shared_ptr<const Iterator> ItCTREncrypted::next() const
 {
-	return make_shared<ItCTREncrypted>(iter->next(), key, make_shared<BlkIncremented>(ctr));
+	return make_shared<ItCTREncrypted>(
+		iter->next(),
+		key,
+		make_shared<BlkRaw>(make_shared<BlkIncremented>(ctr))
+	);
 }
 
 StCTREncrypted::StCTREncrypted(
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index db0588a..2dd8f71 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -96,7 +96,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 		if (b.empty()) {
 			break;
 		}
-		block = make_shared<BlkEncrypted>(block, key);
+		block = make_shared<BlkRaw>(make_shared<BlkEncrypted>(block, key));
 	}
 
 	return BlkEncrypted(make_shared<BlkXored>(block, k), key).value();
-- 
2.43.0


From dd559a0799a2d11fae2cef221c4df71c6d047fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:02 +0000
Subject: [PATCH 08/16] fix: do not index an empty vector in the MAC of an
 empty message

---
 goost/magma/Imit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index 2dd8f71..06864c4 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -87,7 +87,7 @@ pair<uint32_t, uint32_t> Imit::value() const
 	while (true) {
 		k = make_shared<BlkImitFinalKey>(key, b.size());
 		uint64_t v = 0;
-		memcpy(&v, &b[0], b.size());
+		memcpy(&v, b.data(), b.size());
 		block = make_shared<BlkXored>(block, make_shared<BlkRaw>(v));
 		if (b.size() < Block::size) {
 			break;
-- 
2.43.0


From a2e9d19e92b353bc4be3aa4422ded536293ac3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:03 +0000
Subject: [PATCH 09/16] fix: guard the lazily filled caches, they are shared by
 threads

Key and LazyKey are const objects with a hidden cache; two threads using the
same key for the first time raced on it.
---
 goost/kuznyechik/BlkCached.cpp | 5 ++++-
 goost/magma/KeyCachedData.cpp  | 1 +
 goost/magma/KeyCachedData.h    | 6 ++++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/goost/kuznyechik/BlkCached.cpp b/goost/kuznyechik/BlkCached.cpp
index 3b5552e..d74ee3c 100644
--- a/goost/kuznyechik/BlkCached.cpp
+++ b/goost/kuznyechik/BlkCached.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkCached.h"
+#include <mutex>
 
 using namespace std;
 using namespace goost::kuznyechik;
@@ -11,12 +12,13 @@ using namespace goost::kuznyechik;
 class BlkCached::BlockCache final {
 public:
 	explicit BlockCache(const shared_ptr<const Block> &block)
-		: loaded(false), state(), block(block)
+		: lock(), loaded(false), state(), block(block)
 	{
 	}
 
 	pair<uint64_t, uint64_t> value()
 	{
+		const lock_guard<mutex> guard(lock);
 		if (!loaded) {
 			state = block->value();
 			loaded = true;
@@ -24,6 +26,7 @@ public:
 		return state;
 	}
 private:
+	mutex lock;
 	bool loaded;
 	pair<uint64_t, uint64_t> state;
 	const shared_ptr<const Block> block;
diff --git a/goost/magma/KeyCachedData.cpp b/goost/magma/KeyCachedData.cpp
index 6041a00..f509658 100644
--- a/goost/magma/KeyCachedData.cpp
+++ b/goost/magma/KeyCachedData.cpp
@@ -15,6 +15,7 @@ KeyCachedData::KeyCachedData(unique_ptr<const KeyData> keydata)
 
 uint32_t KeyCachedData::key(int index) const
 {
+	const lock_guard<mutex> guard(cache->lock);
 	if (!cache->cached) {
 		for (size_t i = 0; i < cache->key.size(); i++) {
 			cache->key[i] = keydata->key(i);
diff --git a/goost/magma/KeyCachedData.h b/goost/magma/KeyCachedData.h
index fde79be..fccb2fe 100644
--- a/goost/magma/KeyCachedData.h
+++ b/goost/magma/KeyCachedData.h
@@ -6,6 +6,7 @@
 #pragma once
 #include "KeyData.h"
 #include <memory>
+#include <mutex>
 
 namespace goost {
 namespace magma {
@@ -16,8 +17,9 @@ public:
 	uint32_t key(int index) const override;
 private:
 	struct CachedData {
-		bool cached;
-		std::array<uint32_t, 8> key;
+		std::mutex lock = {};
+		bool cached = false;
+		std::array<uint32_t, 8> key = {};
 	};
 	const std::unique_ptr<CachedData> cache;
 	const std::unique_ptr<const KeyData> keydata;
-- 
2.43.0


From 70fa30ce268975f426837a0ec991e5603af1962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:04 +0000
Subject: [PATCH 10/16] fix: reject malformed key strings

A non-hex digit silently zeroed a magma key word or cut a kuznyechik half,
and a kuznyechik key of the wrong length was padded or cut.
---
 goost/kuznyechik/KeyDataString.cpp | 16 ++++++++++++++--
 goost/kuznyechik/KeyDataString.h   |  1 +
 goost/magma/KeyDataString.cpp      |  3 +++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/goost/kuznyechik/KeyDataString.cpp b/goost/kuznyechik/KeyDataString.cpp
index a2d0092..29f4cb4 100644
--- a/goost/kuznyechik/KeyDataString.cpp
+++ b/goost/kuznyechik/KeyDataString.cpp
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "KeyDataString.h"
+#include <stdexcept>
 #include <string>
 #include "BlkString.h"
 
@@ -17,10 +18,21 @@ KeyDataString::KeyDataString(const string &key_data)
 
 shared_ptr<const Block> KeyDataString::low() const
 {
-	return make_shared<BlkString>(string(key_data, 32, 32));
+	return make_shared<BlkString>(string(digits(), 32, 32));
 }
 
 shared_ptr<const Block> KeyDataString::high() const
 {
-	return make_shared<BlkString>(string(key_data, 0, 32));
+	return make_shared<BlkString>(string(digits(), 0, 32));
+}
+
+const string &KeyDataString::digits() const
+{
+	if (key_data.size() != 64) {
+		throw runtime_error("Wrong key size");
+	}
+	if (key_data.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong key digit");
+	}
+	return key_data;
 }
diff --git a/goost/kuznyechik/KeyDataString.h b/goost/kuznyechik/KeyDataString.h
index 1744e0f..7608ac3 100644
--- a/goost/kuznyechik/KeyDataString.h
+++ b/goost/kuznyechik/KeyDataString.h
@@ -17,6 +17,7 @@ public:
 	std::shared_ptr<const Block> high() const override;
 private:
 	const std::string key_data;
+	const std::string &digits() const;
 };
 
 }  // namespace kuznyechik
diff --git a/goost/magma/KeyDataString.cpp b/goost/magma/KeyDataString.cpp
index 5bf3b80..b6e1603 100644
--- a/goost/magma/KeyDataString.cpp
+++ b/goost/magma/KeyDataString.cpp
@@ -20,6 +20,9 @@ uint32_t KeyDataString::key(int index) const
 	if (key_data.size() != 64) {
 		throw runtime_error("Wrong key size");
 	}
+	if (key_data.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+		throw runtime_error("Wrong key digit");
+	}
 	if (index < 0 || index > 7) {
 		throw runtime_error("Wrong key index");
 	}
-- 
2.43.0


From c1120ab0de05933cf5ae25d443d3f8b3096c1898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:05 +0000
Subject: [PATCH 11/16] fix: check the word index of cached and native keys

KeyDataString refuses a bad index, but its cache and KeyDataNative read out
of bounds, also for a native key with fewer than eight words.
---
 goost/magma/KeyCachedData.cpp | 2 +-
 goost/magma/KeyDataNative.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/goost/magma/KeyCachedData.cpp b/goost/magma/KeyCachedData.cpp
index f509658..f96e4cd 100644
--- a/goost/magma/KeyCachedData.cpp
+++ b/goost/magma/KeyCachedData.cpp
@@ -22,5 +22,5 @@ uint32_t KeyCachedData::key(int index) const
 		}
 		cache->cached = true;
 	}
-	return cache->key[index];
+	return cache->key.at(index);
 }
diff --git a/goost/magma/KeyDataNative.cpp b/goost/magma/KeyDataNative.cpp
index 1e4ec71..f96d768 100644
--- a/goost/magma/KeyDataNative.cpp
+++ b/goost/magma/KeyDataNative.cpp
@@ -15,5 +15,5 @@ KeyDataNative::KeyDataNative(const vector<uint32_t> &key_data)
 
 uint32_t KeyDataNative::key(int index) const
 {
-	return key_data[index];
+	return key_data.at(index);
 }
-- 
2.43.0


From 474a793967ed95358c7ff29a89be2b73e450727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:06 +0000
Subject: [PATCH 12/16] fix: blocks may be loaded from unaligned memory

BlkR loads its result from offset 1 of a byte array.
---
 goost/kuznyechik/BlkRaw.cpp | 17 +++++++++++++----
 goost/magma/BlkRaw.cpp      | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/goost/kuznyechik/BlkRaw.cpp b/goost/kuznyechik/BlkRaw.cpp
index 4370b5e..b237e6a 100644
--- a/goost/kuznyechik/BlkRaw.cpp
+++ b/goost/kuznyechik/BlkRaw.cpp
@@ -4,10 +4,22 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkRaw.h"
+#include <cstring>
 
 using namespace std;
 using namespace goost::kuznyechik;
 
+namespace {
+
+uint64_t word(const void *ptr, size_t index)
+{
+	uint64_t value;
+	memcpy(&value, static_cast<const char *>(ptr) + index * sizeof(value), sizeof(value));
+	return value;
+}
+
+}  // namespace
+
 BlkRaw::BlkRaw(uint64_t low, uint64_t high)
 	: low(low), high(high)
 {
@@ -24,10 +36,7 @@ BlkRaw::BlkRaw(const shared_ptr<const Block> &block)
 }
 
 BlkRaw::BlkRaw(const void * const ptr)
-	: BlkRaw(
-		reinterpret_cast<const uint64_t *>(ptr)[0],
-		reinterpret_cast<const uint64_t *>(ptr)[1]
-	)
+	: BlkRaw(word(ptr, 0), word(ptr, 1))
 {
 }
 
diff --git a/goost/magma/BlkRaw.cpp b/goost/magma/BlkRaw.cpp
index a5d62c9..e4cbdf2 100644
--- a/goost/magma/BlkRaw.cpp
+++ b/goost/magma/BlkRaw.cpp
@@ -4,11 +4,23 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkRaw.h"
+#include <cstring>
 #include <iomanip>
 
 using namespace std;
 using namespace goost::magma;
 
+namespace {
+
+uint32_t word(const void *ptr, size_t index)
+{
+	uint32_t value;
+	memcpy(&value, static_cast<const char *>(ptr) + index * sizeof(value), sizeof(value));
+	return value;
+}
+
+}  // namespace
+
 BlkRaw::BlkRaw(uint32_t low, uint32_t high)
 	: low(low), high(high)
 {
@@ -38,10 +50,7 @@ BlkRaw::BlkRaw(const vector<uint8_t> &block)
 }
 
 BlkRaw::BlkRaw(const void *ptr)
-	: BlkRaw(
-		reinterpret_cast<const uint32_t *>(ptr)[0],
-		reinterpret_cast<const uint32_t *>(ptr)[1]
-	  )
+	: BlkRaw(word(ptr, 0), word(ptr, 1))
 {
 }
 
-- 
2.43.0


From 78a2327a6deb20e301b01aad3c23526340df4d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:08 +0000
Subject: [PATCH 13/16] fix: CFB and ECBSource work with any Key, not only
 LazyKey

They accept a Key, cast it to LazyKey and dereference the null pointer when
it is something else. The block transformations only need the Key interface.
---
 goost/gost89/CFBSink.cpp      | 4 ++--
 goost/gost89/CFBSource.cpp    | 2 +-
 goost/magma/BlkBackwarded.cpp | 4 ++--
 goost/magma/BlkBackwarded.h   | 6 +++---
 goost/magma/BlkDecrypted.cpp  | 2 +-
 goost/magma/BlkDecrypted.h    | 4 ++--
 goost/magma/BlkEncrypted.cpp  | 2 +-
 goost/magma/BlkEncrypted.h    | 4 ++--
 goost/magma/BlkForwarded.cpp  | 4 ++--
 goost/magma/BlkForwarded.h    | 6 +++---
 goost/magma/CFBSink.cpp       | 4 ++--
 goost/magma/CFBSource.cpp     | 2 +-
 goost/magma/ECBSource.cpp     | 2 +-
 goost/magma/Imit.cpp          | 1 +
 goost/magma/Key.h             | 1 +
 15 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/goost/gost89/CFBSink.cpp b/goost/gost89/CFBSink.cpp
index 0308a15..299c445 100644
--- a/goost/gost89/CFBSink.cpp
+++ b/goost/gost89/CFBSink.cpp
@@ -44,7 +44,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(l),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -67,7 +67,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(iv),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		for (size_t i = 0; i < c.size(); i++) {
diff --git a/goost/gost89/CFBSource.cpp b/goost/gost89/CFBSource.cpp
index 53ab654..469866e 100644
--- a/goost/gost89/CFBSource.cpp
+++ b/goost/gost89/CFBSource.cpp
@@ -50,7 +50,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(r),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(8);
diff --git a/goost/magma/BlkBackwarded.cpp b/goost/magma/BlkBackwarded.cpp
index e58e8a7..6d6e77d 100644
--- a/goost/magma/BlkBackwarded.cpp
+++ b/goost/magma/BlkBackwarded.cpp
@@ -4,12 +4,12 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #include "BlkBackwarded.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkBackwarded::BlkBackwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkBackwarded.h b/goost/magma/BlkBackwarded.h
index 4431d6a..5c88742 100644
--- a/goost/magma/BlkBackwarded.h
+++ b/goost/magma/BlkBackwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, trancformed over key in backward direction
 class BlkBackwarded final : public Block {
 public:
 	BlkBackwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/BlkDecrypted.cpp b/goost/magma/BlkDecrypted.cpp
index 6dfe193..b5dab90 100644
--- a/goost/magma/BlkDecrypted.cpp
+++ b/goost/magma/BlkDecrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkDecrypted::BlkDecrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkDecrypted.h b/goost/magma/BlkDecrypted.h
index bd27a07..e5c8793 100644
--- a/goost/magma/BlkDecrypted.h
+++ b/goost/magma/BlkDecrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkDecrypted final : public Block {
 public:
 	BlkDecrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkEncrypted.cpp b/goost/magma/BlkEncrypted.cpp
index 578805c..59fc078 100644
--- a/goost/magma/BlkEncrypted.cpp
+++ b/goost/magma/BlkEncrypted.cpp
@@ -11,7 +11,7 @@
 using namespace std;
 using namespace goost::magma;
 
-BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkEncrypted::BlkEncrypted(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(
 		make_shared<BlkSwapped>(
 			make_shared<BlkBackwarded>(
diff --git a/goost/magma/BlkEncrypted.h b/goost/magma/BlkEncrypted.h
index b0260db..aa42044 100644
--- a/goost/magma/BlkEncrypted.h
+++ b/goost/magma/BlkEncrypted.h
@@ -10,13 +10,13 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 class BlkEncrypted final : public Block {
 public:
 	BlkEncrypted(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
diff --git a/goost/magma/BlkForwarded.cpp b/goost/magma/BlkForwarded.cpp
index 0b358c8..09826e8 100644
--- a/goost/magma/BlkForwarded.cpp
+++ b/goost/magma/BlkForwarded.cpp
@@ -5,12 +5,12 @@
 
 #include "BlkForwarded.h"
 #include "BlkRaw.h"
-#include "LazyKey.h"
+#include "Key.h"
 
 using namespace std;
 using namespace goost::magma;
 
-BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const LazyKey> &key)
+BlkForwarded::BlkForwarded(const shared_ptr<const Block> &block, const shared_ptr<const Key> &key)
 	: block(block), key(key)
 {
 }
diff --git a/goost/magma/BlkForwarded.h b/goost/magma/BlkForwarded.h
index b202cf5..b3eeb47 100644
--- a/goost/magma/BlkForwarded.h
+++ b/goost/magma/BlkForwarded.h
@@ -10,19 +10,19 @@
 namespace goost {
 namespace magma {
 
-class LazyKey;
+class Key;
 
 /// This is a block, transformed over key in forward direction
 class BlkForwarded final : public Block {
 public:
 	BlkForwarded(
 		const std::shared_ptr<const Block> &block,
-		const std::shared_ptr<const LazyKey> &key
+		const std::shared_ptr<const Key> &key
 	);
 	std::pair<uint32_t, uint32_t> value() const override;
 private:
 	const std::shared_ptr<const Block> block;
-	const std::shared_ptr<const LazyKey> key;
+	const std::shared_ptr<const Key> key;
 };
 
 }  // namespace magma
diff --git a/goost/magma/CFBSink.cpp b/goost/magma/CFBSink.cpp
index 8ddc1ee..9781e3e 100644
--- a/goost/magma/CFBSink.cpp
+++ b/goost/magma/CFBSink.cpp
@@ -44,7 +44,7 @@ shared_ptr<const Sink> CFBSink::write(const vector<byte> &data) const
 		if (p.size() == Block::size) {
 			const auto e = BlkEncrypted(
 				make_shared<BlkRaw>(rl),
-				dynamic_pointer_cast<const LazyKey>(key)
+				key
 			).value();
 
 			auto c = p;
@@ -68,7 +68,7 @@ shared_ptr<const Sink> CFBSink::finalize() const
 	if (!plain.empty()) {
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(ivl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 		auto c = plain;
 		for (size_t i = 0; i < c.size(); i++) {
diff --git a/goost/magma/CFBSource.cpp b/goost/magma/CFBSource.cpp
index 336e7fa..99bf0a7 100644
--- a/goost/magma/CFBSource.cpp
+++ b/goost/magma/CFBSource.cpp
@@ -52,7 +52,7 @@ pair<vector<byte>, shared_ptr<const Source>> CFBSource::read(size_t size) const
 
 		const auto e = BlkEncrypted(
 			make_shared<BlkRaw>(rl),
-			dynamic_pointer_cast<const LazyKey>(key)
+			key
 		).value();
 
 		tie(p, s) = s->read(8);
diff --git a/goost/magma/ECBSource.cpp b/goost/magma/ECBSource.cpp
index 18d1551..acacfc6 100644
--- a/goost/magma/ECBSource.cpp
+++ b/goost/magma/ECBSource.cpp
@@ -51,7 +51,7 @@ pair<vector<byte>, shared_ptr<const Source>> ECBSource::read(size_t size) const
 
 	const auto e = BlkDecrypted(
 		make_shared<BlkRaw>(&p[0]),
-		dynamic_pointer_cast<const LazyKey>(key)
+		key
 	).value();
 
 	memcpy(&p[0], &e.first, Block::size);
diff --git a/goost/magma/Imit.cpp b/goost/magma/Imit.cpp
index 06864c4..b0a7b61 100644
--- a/goost/magma/Imit.cpp
+++ b/goost/magma/Imit.cpp
@@ -11,6 +11,7 @@
 #include "BlkShifted.h"
 #include "BlkXored.h"
 #include "Iterator.h"
+#include "LazyKey.h"
 
 using namespace std;
 using namespace goost::magma;
diff --git a/goost/magma/Key.h b/goost/magma/Key.h
index 590fba1..ba36df7 100644
--- a/goost/magma/Key.h
+++ b/goost/magma/Key.h
@@ -4,6 +4,7 @@
 // of the MIT license.  See the LICENSE file for details.
 
 #pragma once
+#include <cstdint>
 
 namespace goost {
 namespace magma {
-- 
2.43.0


From 0edd378e8fd616264b382fe83b5b824e4240715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:36 +0000
Subject: [PATCH 14/16] fix: a CTR stream ends where the underlying stream ends

---
 goost/kuznyechik/StCTREncrypted.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/goost/kuznyechik/StCTREncrypted.cpp b/goost/kuznyechik/StCTREncrypted.cpp
index 7cb25cc..97c7ed3 100644
--- a/goost/kuznyechik/StCTREncrypted.cpp
+++ b/goost/kuznyechik/StCTREncrypted.cpp
@@ -57,8 +57,12 @@ size_t ItCTREncrypted::size() const
 
 shared_ptr<const Iterator> ItCTREncrypted::next() const
 {
+	const auto next_iter = iter->next();
+	if (!next_iter) {
+		return {};
+	}
 	return make_shared<ItCTREncrypted>(
-		iter->next(),
+		next_iter,
 		key,
 		make_shared<BlkRaw>(make_shared<BlkIncremented>(ctr))
 	);
-- 
2.43.0


From 333e79d5b977ecfc0b79e33e6efddc0200778875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:25 +0000
Subject: [PATCH 15/16] fix: Iterator.h and KeyCachedData.h include what they
 use

---
 goost/kuznyechik/Iterator.h | 2 ++
 goost/magma/Iterator.h      | 2 ++
 goost/magma/KeyCachedData.h | 1 +
 3 files changed, 5 insertions(+)

diff --git a/goost/kuznyechik/Iterator.h b/goost/kuznyechik/Iterator.h
index d9372c2..bafcce4 100644
--- a/goost/kuznyechik/Iterator.h
+++ b/goost/kuznyechik/Iterator.h
@@ -5,6 +5,8 @@
 
 #pragma once
 #include "Block.h"
+#include <cstddef>
+#include <memory>
 
 namespace goost {
 namespace kuznyechik {
diff --git a/goost/magma/Iterator.h b/goost/magma/Iterator.h
index 3179888..398bfdf 100644
--- a/goost/magma/Iterator.h
+++ b/goost/magma/Iterator.h
@@ -5,6 +5,8 @@
 
 #pragma once
 #include "Block.h"
+#include <cstddef>
+#include <memory>
 
 namespace goost {
 namespace magma {
diff --git a/goost/magma/KeyCachedData.h b/goost/magma/KeyCachedData.h
index fccb2fe..829cc74 100644
--- a/goost/magma/KeyCachedData.h
+++ b/goost/magma/KeyCachedData.h
@@ -5,6 +5,7 @@
 
 #pragma once
 #include "KeyData.h"
+#include <array>
 #include <memory>
 #include <mutex>
 
-- 
2.43.0


From cece811150d7686fe6103972c0de821eae03d22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:09 +0000
Subject: [PATCH 16/16] fix: DataImit.h and SboxByte64Tab.h may be included
 twice

---
 goost/gost89/DataImit.h     | 1 +
 goost/magma/SboxByte64Tab.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/goost/gost89/DataImit.h b/goost/gost89/DataImit.h
index ac6188b..051f88f 100644
--- a/goost/gost89/DataImit.h
+++ b/goost/gost89/DataImit.h
@@ -3,6 +3,7 @@
 // This software may be modified and distributed under the terms
 // of the MIT license.  See the LICENSE file for details.
 
+#pragma once
 #include <memory>
 #include <vector>
 #include <goost/magma/LazyKey.h>
diff --git a/goost/magma/SboxByte64Tab.h b/goost/magma/SboxByte64Tab.h
index e10532f..462f0e8 100644
--- a/goost/magma/SboxByte64Tab.h
+++ b/goost/magma/SboxByte64Tab.h
@@ -3,6 +3,7 @@
 // This software may be modified and distributed under the terms
 // of the MIT license.  See the LICENSE file for details.
 
+#pragma once
 #include "SboxByte.h"
 
 namespace goost {
-- 
2.43.0

