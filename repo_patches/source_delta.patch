From 644e87a8a1b8e4b079e0cd8c274c4cca5a4b7f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 01/12] fix: Tiger::toArray() of the 128/160-bit variants
 writes past the array

The loop stored all 24 state bytes into a 16 or 20 byte array.
---
 src/tiger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tiger.h b/src/tiger.h
index 34cbb61..ff8c75a 100644
--- a/src/tiger.h
+++ b/src/tiger.h
@@ -514,12 +514,16 @@ namespace Tiger_NS
 		const Span<const uint64_t> state(m_h);
 		const int dataSize = sizeof(typename decltype(state)::value_type);
 
+		// the shorter variants are truncations of the 192-bit result
 		ResultArrayType ret {};
 		auto retPtr = ret.data();
+		auto remaining = static_cast<int>(ret.size());
 		for (const auto i : state)
 		{
-			for (int j = 0, jMax = dataSize; j < jMax; ++j)
+			const int jMax = std::min(dataSize, remaining);
+			for (int j = 0; j < jMax; ++j)
 				*(retPtr++) = ror<Byte>(i, (j * 8));
+			remaining -= jMax;
 		}
 		return ret;
 	}
-- 
2.43.0


From 36d9d88ad1c25134196af6e6b83cc5f4b4a03850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 02/12] fix: Keccak::toString() of a zero-length output calls
 front() on an empty string

---
 src/sha3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha3.h b/src/sha3.h
index ada4988..0d7119c 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -366,7 +366,7 @@ namespace SHA3_NS
 		std::string ret;
 		ret.resize(2 * v.size());
 
-		auto *retPtr = &ret.front();
+		auto *retPtr = &ret[0];  // `front()` is not allowed on an empty string (zero-length output)
 		for (const auto c : v)
 		{
 			const Byte upper = ror<Byte>(c, 4);
-- 
2.43.0


From 2eb0eb0b2078bb1bc5c49add7b9489906df82bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 03/12] fix: Keccak objects with different output lengths
 compared equal

operator== only compared the sponge state, which does not depend on the requested length
as long as the number of squeezed blocks is the same.
---
 src/sha3.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sha3.h b/src/sha3.h
index 0d7119c..32c7be2 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -233,6 +233,9 @@ namespace SHA3_NS
 
 			friend constexpr bool operator==(const Keccak &left, const Keccak &right)
 			{
+				if (left.m_digestLength != right.m_digestLength)
+					return false;
+
 				for (int y = 0; y < 5; ++y)
 				{
 					for (int x = 0; x < 5; ++x)
-- 
2.43.0


From 01d677e5e785cd009785bd30bc5a26461219718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 04/12] fix: TupleHash::finalize() overflows int for output
 lengths of 2^28 bytes and more

---
 src/tuple_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple_hash.h b/src/tuple_hash.h
index f5390c8..a5d403c 100644
--- a/src/tuple_hash.h
+++ b/src/tuple_hash.h
@@ -151,7 +151,7 @@ namespace TupleHash_NS
 	template <typename Alg>
 	constexpr TupleHash<Alg>& TupleHash<Alg>::finalize()
 	{
-		const auto encoded = rightEncode(m_digestLength * 8);
+		const auto encoded = rightEncode(static_cast<uint64_t>(m_digestLength) * 8);
 		addDataImpl({encoded.data(), encoded.size()});
 		m_cshake.finalize();
 		return (*this);
-- 
2.43.0


From bef630845ff698b4fbe277c72c6a1f00eed0239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 05/12] fix: CShake copy assignment dereferences a null pointer

Assigning between a customized and a plain (SHAKE) object used the hash object that does not exist
on one of the two sides.
---
 src/cshake.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index a20afe3..6abdc79 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -210,11 +210,9 @@ namespace CShake_NS
 	{
 		if (this != &other)
 		{
-			m_customized = other.m_customized;
-			if (!m_customized)
-				*m_shake = *other.m_shake;
-			else
-				*m_keccak = *other.m_keccak;
+			// the other object may use a different underlying hash than this one
+			CShake tmp {other};
+			*this = std::move(tmp);
 		}
 		return *this;
 	}
-- 
2.43.0


From 9314540a373a9de249c823b20daede4e8cecc5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 06/12] fix: CShake::reset() drops the function name and
 customization string

After reset() a customized cSHAKE (and every TupleHash) object absorbed the message without the
bytepad(encode_string(N) || encode_string(S), w) prefix. Keep the prefix and absorb it again.
---
 src/cshake.h | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index 6abdc79..58010e0 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -123,6 +123,7 @@ namespace CShake_NS
 			constexpr void addDataImpl(Span<const Byte> data);
 
 			bool m_customized = false;
+			std::vector<Byte> m_prefix;  // bytepad(encode_string(N) || encode_string(S), P), is absorbed ahead of the message
 
 			std::unique_ptr<S> m_shake;
 			std::unique_ptr<K> m_keccak;
@@ -158,36 +159,33 @@ namespace CShake_NS
 
 		m_keccak = std::make_unique<K>(digestLength);
 
-		const auto processString = [this](const std::string &str, size_t &length) -> void
+		const auto appendLength = [this](const uint64_t value) -> void
 		{
-			const auto encodedStr = leftEncode(str.size() * 8);
-			addData({encodedStr.data(), encodedStr.size()});
-			length += encodedStr.size();
-			addData(str.data(), str.size());
-			length += str.size();
+			const auto encoded = leftEncode(value);
+			m_prefix.insert(m_prefix.end(), encoded.data(), (encoded.data() + encoded.size()));
+		};
+		const auto appendString = [this, appendLength](const std::string &str) -> void
+		{
+			appendLength(str.size() * 8);
+			m_prefix.insert(m_prefix.end(), str.begin(), str.end());
 		};
 		const auto bytepadCount = [](const size_t length, const size_t target) -> size_t
 		{
 			return ((target - (length % target)) % target);
 		};
 
-		size_t length = 0;
-
-		const auto encodedW = leftEncode(P);
-		addData({encodedW.data(), encodedW.size()});
-		length += encodedW.size();
+		appendLength(P);
+		appendString(name);
+		appendString(customize);
+		m_prefix.resize(m_prefix.size() + bytepadCount(m_prefix.size(), P), 0);
 
-		processString(name, length);
-		processString(customize, length);
-
-		const Buffer<Byte, 1> zero {0};
-		for (int i = 0; i < static_cast<int>(bytepadCount(length, P)); ++i)
-			addData({zero.data(), zero.size()});
+		reset();
 	}
 
 	template <typename S, typename K, int P>
 	constexpr CShake<S, K, P>::CShake(const CShake<S, K, P> &other)
 		: m_customized(other.m_customized)
+		, m_prefix(other.m_prefix)
 	{
 		if (!m_customized)
 			m_shake = std::make_unique<S>(*other.m_shake);
@@ -199,6 +197,7 @@ namespace CShake_NS
 	constexpr CShake<S, K, P>::CShake(CShake<S, K, P> &&other) noexcept
 	{
 		std::swap(m_customized, other.m_customized);
+		std::swap(m_prefix, other.m_prefix);
 		if (!m_customized)
 			std::swap(m_shake, other.m_shake);
 		else
@@ -223,6 +222,7 @@ namespace CShake_NS
 		if (this != &other)
 		{
 			std::swap(m_customized, other.m_customized);
+			std::swap(m_prefix, other.m_prefix);
 			if (!m_customized)
 				std::swap(m_shake, other.m_shake);
 			else
@@ -235,9 +235,13 @@ namespace CShake_NS
 	constexpr void CShake<S, K, P>::reset()
 	{
 		if (!m_customized)
+		{
 			m_shake->reset();
-		else
-			m_keccak->reset();
+			return;
+		}
+
+		m_keccak->reset();
+		m_keccak->addData(m_prefix.data(), m_prefix.size());
 	}
 
 	template <typename S, typename K, int P>
-- 
2.43.0


From 4439cd6797847d1009bf7d472222950635eb0436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 07/12] fix: -cshake-128/-cshake-256 used the customization
 string as the function name

The second constructor argument of CSHAKE is the function name N, the usage text documents the
argument as customization string S.
---
 src/program/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 519f261..9e8c74c 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -290,7 +290,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 			}
 
-			readNPrint(Chocobo1::CSHAKE_128(digestLength, argv[3]), argv[4]);
+			readNPrint(Chocobo1::CSHAKE_128(digestLength, {}, argv[3]), argv[4]);
 			return true;
 		}
 
@@ -309,7 +309,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 			}
 
-			readNPrint(Chocobo1::CSHAKE_256(digestLength, argv[3]), argv[4]);
+			readNPrint(Chocobo1::CSHAKE_256(digestLength, {}, argv[3]), argv[4]);
 			return true;
 		}
 
-- 
2.43.0


From 8891504ccf69064723fff053066c216e50adb7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 08/12] fix: out of range digest lengths on the command line
 terminate the program

std::out_of_range was not caught and a negative length threw std::length_error. Print the usage text.
---
 src/program/main.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 9e8c74c..a61697e 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -45,6 +45,7 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -285,10 +286,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::CSHAKE_128(digestLength, {}, argv[3]), argv[4]);
 			return true;
@@ -304,10 +307,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::CSHAKE_256(digestLength, {}, argv[3]), argv[4]);
 			return true;
@@ -523,10 +528,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::SHAKE_128(digestLength), argv[3]);
 			return true;
@@ -542,10 +549,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::SHAKE_256(digestLength), argv[3]);
 			return true;
@@ -624,10 +633,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readAllNPrint(Chocobo1::TupleHash_128(digestLength, argv[3]), argv[4]);
 			return true;
@@ -643,10 +654,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // not a number or out of range
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readAllNPrint(Chocobo1::TupleHash_256(digestLength, argv[3]), argv[4]);
 			return true;
-- 
2.43.0


From 93527d87a079f3f6eaf3ff7ffaac5f7154e8611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 09/12] fix: a file that cannot be opened was reported with the
 digest of the empty input

---
 src/program/main.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index a61697e..4bd0041 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -177,6 +177,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 		else
 			inStream = {new std::ifstream(filename, (std::ios_base::in | std::ios_base::binary)), [](std::istream *p) {delete p;}};
 
+		if (!inStream->good())
+		{
+			fprintf(stderr, "Cannot open file: %s\n", filename.c_str());
+			exit(1);
+		}
+
 		const int bufSize = 1024 * 1024;
 		auto buf = std::make_unique<char[]>(bufSize);
 		while (inStream->good())
@@ -196,6 +202,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 		else
 			inStream = {new std::ifstream(filename), [](std::istream *p) {delete p;}};
 
+		if (!inStream->good())
+		{
+			fprintf(stderr, "Cannot open file: %s\n", filename.c_str());
+			exit(1);
+		}
+
 		const int tmpSize = 1024 * 1024;
 		auto tmp = std::make_unique<char[]>(tmpSize);
 
-- 
2.43.0


From ea6acd299ea9f89a9987910748ecdaf61ed94350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 10/12] fix: BLAKE counter of the last message block when the
 padding spills over

When the padding does not fit the last message block the length counter of
that block was dropped (and m_sizeCounter wrapped), giving wrong digests for
messages of 56..63 (112..127) bytes modulo the block size.
---
 src/blake1_224.h | 12 +++++++++++-
 src/blake1_256.h | 12 +++++++++++-
 src/blake1_384.h | 12 +++++++++++-
 src/blake1_512.h | 12 +++++++++++-
 4 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/blake1_224.h b/src/blake1_224.h
index 697524b..e863a44 100644
--- a/src/blake1_224.h
+++ b/src/blake1_224.h
@@ -328,7 +328,17 @@ namespace Blake1_224_NS
 			m_buffer[m_buffer.size() - 4 + i] = ror<Byte>(sizeCounterBitsL, (8 * (3 - i)));
 		}
 
-		addDataImpl({m_buffer.data(), m_buffer.size()}, (len + 9));
+		const int paddingLen = (len + 9);
+		if (paddingLen > BLOCK_SIZE)
+		{
+			// the first block still carries message bits, the second one is padding only
+			addDataImpl({m_buffer.data(), BLOCK_SIZE}, (paddingLen - BLOCK_SIZE));
+			addDataImpl({(m_buffer.data() + BLOCK_SIZE), BLOCK_SIZE}, BLOCK_SIZE);
+		}
+		else
+		{
+			addDataImpl({m_buffer.data(), m_buffer.size()}, paddingLen);
+		}
 		m_buffer.clear();
 
 		return (*this);
diff --git a/src/blake1_256.h b/src/blake1_256.h
index 31e21d8..08621b2 100644
--- a/src/blake1_256.h
+++ b/src/blake1_256.h
@@ -330,7 +330,17 @@ namespace Blake1_256_NS
 			m_buffer[m_buffer.size() - 4 + i] = ror<Byte>(sizeCounterBitsL, (8 * (3 - i)));
 		}
 
-		addDataImpl({m_buffer.data(), m_buffer.size()}, (len + 9));
+		const int paddingLen = (len + 9);
+		if (paddingLen > BLOCK_SIZE)
+		{
+			// the first block still carries message bits, the second one is padding only
+			addDataImpl({m_buffer.data(), BLOCK_SIZE}, (paddingLen - BLOCK_SIZE));
+			addDataImpl({(m_buffer.data() + BLOCK_SIZE), BLOCK_SIZE}, BLOCK_SIZE);
+		}
+		else
+		{
+			addDataImpl({m_buffer.data(), m_buffer.size()}, paddingLen);
+		}
 		m_buffer.clear();
 
 		return (*this);
diff --git a/src/blake1_384.h b/src/blake1_384.h
index 066d426..1fc3b73 100644
--- a/src/blake1_384.h
+++ b/src/blake1_384.h
@@ -395,7 +395,17 @@ namespace Blake1_384_NS
 			m_buffer[m_buffer.size() -  8 + i] = ror<Byte>(sizeCounterBitsL, (8 * (7 - i)));
 		}
 
-		addDataImpl({m_buffer.data(), m_buffer.size()}, (len + 17));
+		const int paddingLen = (len + 17);
+		if (paddingLen > BLOCK_SIZE)
+		{
+			// the first block still carries message bits, the second one is padding only
+			addDataImpl({m_buffer.data(), BLOCK_SIZE}, (paddingLen - BLOCK_SIZE));
+			addDataImpl({(m_buffer.data() + BLOCK_SIZE), BLOCK_SIZE}, BLOCK_SIZE);
+		}
+		else
+		{
+			addDataImpl({m_buffer.data(), m_buffer.size()}, paddingLen);
+		}
 		m_buffer.clear();
 
 		return (*this);
diff --git a/src/blake1_512.h b/src/blake1_512.h
index e2ffe38..6b6cd9b 100644
--- a/src/blake1_512.h
+++ b/src/blake1_512.h
@@ -397,7 +397,17 @@ namespace Blake1_512_NS
 			m_buffer[m_buffer.size() -  8 + i] = ror<Byte>(sizeCounterBitsL, (8 * (7 - i)));
 		}
 
-		addDataImpl({m_buffer.data(), m_buffer.size()}, (len + 17));
+		const int paddingLen = (len + 17);
+		if (paddingLen > BLOCK_SIZE)
+		{
+			// the first block still carries message bits, the second one is padding only
+			addDataImpl({m_buffer.data(), BLOCK_SIZE}, (paddingLen - BLOCK_SIZE));
+			addDataImpl({(m_buffer.data() + BLOCK_SIZE), BLOCK_SIZE}, BLOCK_SIZE);
+		}
+		else
+		{
+			addDataImpl({m_buffer.data(), m_buffer.size()}, paddingLen);
+		}
 		m_buffer.clear();
 
 		return (*this);
-- 
2.43.0


From 22d4ed2272df90e630011b793e5808f9e8444291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:53 +0000
Subject: [PATCH 11/12] fix: FNV-0 reset() restores the zero offset basis

---
 src/fnv.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnv.h b/src/fnv.h
index 7b42bae..88cb604 100644
--- a/src/fnv.h
+++ b/src/fnv.h
@@ -146,6 +146,8 @@ namespace FNVHASH_NS
 	template <typename DigestType, int Variant>
 	constexpr void FNVHash<DigestType, Variant>::reset()
 	{
+		m_hash = 0;  // FNV-0 offset basis
+
 		if (Variant >= 1)
 		{
 			switch (sizeof(DigestType))
-- 
2.43.0


From 3297c195f191deac6a11fee1cba6d7e1af631c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:13 +0000
Subject: [PATCH 12/12] fix: encode the bit length of long strings and tuple
 elements in 64 bits on 32-bit targets

---
 src/cshake.h     | 2 +-
 src/tuple_hash.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index 58010e0..702fb60 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -166,7 +166,7 @@ namespace CShake_NS
 		};
 		const auto appendString = [this, appendLength](const std::string &str) -> void
 		{
-			appendLength(str.size() * 8);
+			appendLength(static_cast<uint64_t>(str.size()) * 8);
 			m_prefix.insert(m_prefix.end(), str.begin(), str.end());
 		};
 		const auto bytepadCount = [](const size_t length, const size_t target) -> size_t
diff --git a/src/tuple_hash.h b/src/tuple_hash.h
index a5d403c..1701558 100644
--- a/src/tuple_hash.h
+++ b/src/tuple_hash.h
@@ -188,7 +188,7 @@ namespace TupleHash_NS
 	template <typename Alg>
 	constexpr TupleHash<Alg>& TupleHash<Alg>::nextData(const Span<const Byte> inData)
 	{
-		const auto encoded = Chocobo1::Hash::CShake_NS::leftEncode(inData.size() * 8);
+		const auto encoded = Chocobo1::Hash::CShake_NS::leftEncode(static_cast<uint64_t>(inData.size()) * 8);
 		addDataImpl({encoded.data(), encoded.size()});
 		addDataImpl(inData);
 
-- 
2.43.0

