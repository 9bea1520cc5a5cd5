From 2fb2af6bff020f34994653e98236ddbe42a02ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 01/12] fix: BLAKE: use the right message bit counter when
 padding occupies two blocks

When the padding does not fit in the last message block, the two final blocks
shared one padding length, so the counter of the first one went negative.
Messages of 64n+56..64n+63 bytes (BLAKE-224/256) and 128n+112..128n+127
bytes (BLAKE-384/512) got wrong digests.
---
 src/blake1_224.h | 7 ++++++-
 src/blake1_256.h | 7 ++++++-
 src/blake1_384.h | 7 ++++++-
 src/blake1_512.h | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/blake1_224.h b/src/blake1_224.h
index 697524b..a204890 100644
--- a/src/blake1_224.h
+++ b/src/blake1_224.h
@@ -452,6 +452,8 @@ namespace Blake1_224_NS
 	{
 		assert((data.size() % BLOCK_SIZE) == 0);
 
+		const size_t messageLen = static_cast<size_t>(data.size()) - paddingLen;  // the padding might occupy more than one block
+
 		for (size_t iter = 0, iend = static_cast<size_t>(data.size() / BLOCK_SIZE); iter < iend; ++iter)
 		{
 			const Loader<uint32_t> m(static_cast<const Byte *>(data.data() + (iter * BLOCK_SIZE)));
@@ -464,7 +466,10 @@ namespace Blake1_224_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const uint32_t nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			const size_t processedLen = iter * BLOCK_SIZE;
+			const size_t nonPaddingBits = (processedLen < messageLen)
+				? (std::min<size_t>((messageLen - processedLen), BLOCK_SIZE) * 8)
+				: 0;
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_256.h b/src/blake1_256.h
index 31e21d8..1ea83da 100644
--- a/src/blake1_256.h
+++ b/src/blake1_256.h
@@ -454,6 +454,8 @@ namespace Blake1_256_NS
 	{
 		assert((data.size() % BLOCK_SIZE) == 0);
 
+		const size_t messageLen = static_cast<size_t>(data.size()) - paddingLen;  // the padding might occupy more than one block
+
 		for (size_t iter = 0, iend = static_cast<size_t>(data.size() / BLOCK_SIZE); iter < iend; ++iter)
 		{
 			const Loader<uint32_t> m(static_cast<const Byte *>(data.data() + (iter * BLOCK_SIZE)));
@@ -466,7 +468,10 @@ namespace Blake1_256_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			const size_t processedLen = iter * BLOCK_SIZE;
+			const size_t nonPaddingBits = (processedLen < messageLen)
+				? (std::min<size_t>((messageLen - processedLen), BLOCK_SIZE) * 8)
+				: 0;
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_384.h b/src/blake1_384.h
index 066d426..d452d45 100644
--- a/src/blake1_384.h
+++ b/src/blake1_384.h
@@ -519,6 +519,8 @@ namespace Blake1_384_NS
 	{
 		assert((data.size() % BLOCK_SIZE) == 0);
 
+		const size_t messageLen = static_cast<size_t>(data.size()) - paddingLen;  // the padding might occupy more than one block
+
 		for (size_t iter = 0, iend = static_cast<size_t>(data.size() / BLOCK_SIZE); iter < iend; ++iter)
 		{
 			const Loader<uint64_t> m(static_cast<const Byte *>(data.data() + (iter * BLOCK_SIZE)));
@@ -531,7 +533,10 @@ namespace Blake1_384_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			const size_t processedLen = iter * BLOCK_SIZE;
+			const size_t nonPaddingBits = (processedLen < messageLen)
+				? (std::min<size_t>((messageLen - processedLen), BLOCK_SIZE) * 8)
+				: 0;
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_512.h b/src/blake1_512.h
index e2ffe38..bc15de5 100644
--- a/src/blake1_512.h
+++ b/src/blake1_512.h
@@ -521,6 +521,8 @@ namespace Blake1_512_NS
 	{
 		assert((data.size() % BLOCK_SIZE) == 0);
 
+		const size_t messageLen = static_cast<size_t>(data.size()) - paddingLen;  // the padding might occupy more than one block
+
 		for (size_t iter = 0, iend = static_cast<size_t>(data.size() / BLOCK_SIZE); iter < iend; ++iter)
 		{
 			const Loader<uint64_t> m(static_cast<const Byte *>(data.data() + (iter * BLOCK_SIZE)));
@@ -533,7 +535,10 @@ namespace Blake1_512_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			const size_t processedLen = iter * BLOCK_SIZE;
+			const size_t nonPaddingBits = (processedLen < messageLen)
+				? (std::min<size_t>((messageLen - processedLen), BLOCK_SIZE) * 8)
+				: 0;
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
-- 
2.43.0


From 16bed51677ee5d148a32027cea6cfc8740cb6ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 02/12] fix: Tiger: do not write past the 128- and 160-bit
 digest arrays

---
 src/tiger.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/tiger.h b/src/tiger.h
index 34cbb61..696a931 100644
--- a/src/tiger.h
+++ b/src/tiger.h
@@ -515,12 +515,8 @@ namespace Tiger_NS
 		const int dataSize = sizeof(typename decltype(state)::value_type);
 
 		ResultArrayType ret {};
-		auto retPtr = ret.data();
-		for (const auto i : state)
-		{
-			for (int j = 0, jMax = dataSize; j < jMax; ++j)
-				*(retPtr++) = ror<Byte>(i, (j * 8));
-		}
+		for (size_t i = 0; i < ret.size(); ++i)
+			ret[i] = ror<Byte>(state[i / dataSize], ((i % dataSize) * 8));
 		return ret;
 	}
 
-- 
2.43.0


From 388959c3b79527550ce82a0173498248bc578ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 03/12] fix: FNV: reset the hash value of FNV-0

---
 src/fnv.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnv.h b/src/fnv.h
index 7b42bae..2dc9f5f 100644
--- a/src/fnv.h
+++ b/src/fnv.h
@@ -146,6 +146,8 @@ namespace FNVHASH_NS
 	template <typename DigestType, int Variant>
 	constexpr void FNVHash<DigestType, Variant>::reset()
 	{
+		m_hash = 0;
+
 		if (Variant >= 1)
 		{
 			switch (sizeof(DigestType))
-- 
2.43.0


From ed4ab855088b53c16a89d516b9edd355f1e2602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 04/12] fix: SHA3: hashers with different digest lengths are
 not equal

---
 src/sha3.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sha3.h b/src/sha3.h
index ada4988..2f090df 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -233,6 +233,9 @@ namespace SHA3_NS
 
 			friend constexpr bool operator==(const Keccak &left, const Keccak &right)
 			{
+				if (left.m_digestLength != right.m_digestLength)
+					return false;
+
 				for (int y = 0; y < 5; ++y)
 				{
 					for (int x = 0; x < 5; ++x)
-- 
2.43.0


From 5f2837cec7a70e27587f9cb72469a8d88fe6968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 05/12] fix: SHA3: toString() of an empty digest

---
 src/sha3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha3.h b/src/sha3.h
index 2f090df..9929c97 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -369,7 +369,7 @@ namespace SHA3_NS
 		std::string ret;
 		ret.resize(2 * v.size());
 
-		auto *retPtr = &ret.front();
+		auto *retPtr = &ret[0];
 		for (const auto c : v)
 		{
 			const Byte upper = ror<Byte>(c, 4);
-- 
2.43.0


From 4d8e7bb64e99c2397135d3b5ce6e76e4602d8ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 06/12] fix: TupleHash: avoid overflow of the digest length in
 bits

---
 src/tuple_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple_hash.h b/src/tuple_hash.h
index f5390c8..a5d403c 100644
--- a/src/tuple_hash.h
+++ b/src/tuple_hash.h
@@ -151,7 +151,7 @@ namespace TupleHash_NS
 	template <typename Alg>
 	constexpr TupleHash<Alg>& TupleHash<Alg>::finalize()
 	{
-		const auto encoded = rightEncode(m_digestLength * 8);
+		const auto encoded = rightEncode(static_cast<uint64_t>(m_digestLength) * 8);
 		addDataImpl({encoded.data(), encoded.size()});
 		m_cshake.finalize();
 		return (*this);
-- 
2.43.0


From 3dc3599530e88c3d71c56caea6bff5fc73704f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 07/12] fix: cSHAKE: assignment between hashers that differ in
 being customized

---
 src/cshake.h | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index a20afe3..00ad4e7 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -188,34 +188,24 @@ namespace CShake_NS
 	template <typename S, typename K, int P>
 	constexpr CShake<S, K, P>::CShake(const CShake<S, K, P> &other)
 		: m_customized(other.m_customized)
+		, m_shake(other.m_shake ? std::make_unique<S>(*other.m_shake) : nullptr)
+		, m_keccak(other.m_keccak ? std::make_unique<K>(*other.m_keccak) : nullptr)
 	{
-		if (!m_customized)
-			m_shake = std::make_unique<S>(*other.m_shake);
-		else
-			m_keccak = std::make_unique<K>(*other.m_keccak);
 	}
 
 	template <typename S, typename K, int P>
 	constexpr CShake<S, K, P>::CShake(CShake<S, K, P> &&other) noexcept
+		: m_customized(other.m_customized)
+		, m_shake(std::move(other.m_shake))
+		, m_keccak(std::move(other.m_keccak))
 	{
-		std::swap(m_customized, other.m_customized);
-		if (!m_customized)
-			std::swap(m_shake, other.m_shake);
-		else
-			std::swap(m_keccak, other.m_keccak);
 	}
 
 	template <typename S, typename K, int P>
 	constexpr CShake<S, K, P>& CShake<S, K, P>::operator=(const CShake<S, K, P> &other)
 	{
 		if (this != &other)
-		{
-			m_customized = other.m_customized;
-			if (!m_customized)
-				*m_shake = *other.m_shake;
-			else
-				*m_keccak = *other.m_keccak;
-		}
+			*this = CShake(other);
 		return *this;
 	}
 
@@ -224,11 +214,9 @@ namespace CShake_NS
 	{
 		if (this != &other)
 		{
-			std::swap(m_customized, other.m_customized);
-			if (!m_customized)
-				std::swap(m_shake, other.m_shake);
-			else
-				std::swap(m_keccak, other.m_keccak);
+			m_customized = other.m_customized;
+			m_shake = std::move(other.m_shake);
+			m_keccak = std::move(other.m_keccak);
 		}
 		return *this;
 	}
-- 
2.43.0


From 903da02adfdf9c04609f3b13fd5a7f63763c0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 08/12] fix: cSHAKE: keep function name and customization
 string on reset()

---
 src/cshake.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cshake.h b/src/cshake.h
index 00ad4e7..8afbaee 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -126,6 +126,7 @@ namespace CShake_NS
 
 			std::unique_ptr<S> m_shake;
 			std::unique_ptr<K> m_keccak;
+			std::unique_ptr<K> m_keccakInit;  // `m_keccak` after absorbing the prefix
 	};
 
 
@@ -183,6 +184,8 @@ namespace CShake_NS
 		const Buffer<Byte, 1> zero {0};
 		for (int i = 0; i < static_cast<int>(bytepadCount(length, P)); ++i)
 			addData({zero.data(), zero.size()});
+
+		m_keccakInit = std::make_unique<K>(*m_keccak);
 	}
 
 	template <typename S, typename K, int P>
@@ -190,6 +193,7 @@ namespace CShake_NS
 		: m_customized(other.m_customized)
 		, m_shake(other.m_shake ? std::make_unique<S>(*other.m_shake) : nullptr)
 		, m_keccak(other.m_keccak ? std::make_unique<K>(*other.m_keccak) : nullptr)
+		, m_keccakInit(other.m_keccakInit ? std::make_unique<K>(*other.m_keccakInit) : nullptr)
 	{
 	}
 
@@ -198,6 +202,7 @@ namespace CShake_NS
 		: m_customized(other.m_customized)
 		, m_shake(std::move(other.m_shake))
 		, m_keccak(std::move(other.m_keccak))
+		, m_keccakInit(std::move(other.m_keccakInit))
 	{
 	}
 
@@ -217,6 +222,7 @@ namespace CShake_NS
 			m_customized = other.m_customized;
 			m_shake = std::move(other.m_shake);
 			m_keccak = std::move(other.m_keccak);
+			m_keccakInit = std::move(other.m_keccakInit);
 		}
 		return *this;
 	}
@@ -227,7 +233,7 @@ namespace CShake_NS
 		if (!m_customized)
 			m_shake->reset();
 		else
-			m_keccak->reset();
+			*m_keccak = *m_keccakInit;
 	}
 
 	template <typename S, typename K, int P>
-- 
2.43.0


From e05b9fe35eee25bf9801878f23a22ac6011b0623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 09/12] fix: program: report files that cannot be read instead
 of printing a digest

---
 src/program/main.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 519f261..a216031 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -184,6 +184,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			hash.addData(buf.get(), inStream->gcount());
 		}
 
+		if (!inStream->eof())
+		{
+			fprintf(stderr, "Cannot read file: %s\n", filename.c_str());
+			exit(EXIT_FAILURE);
+		}
+
 		printf("%s  %s\n", hash.finalize().toString().c_str(), filename.c_str());
 	};
 
@@ -193,7 +199,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 		if (filename == "-")
 			inStream = {&std::cin, [](auto) {}};
 		else
-			inStream = {new std::ifstream(filename), [](std::istream *p) {delete p;}};
+			inStream = {new std::ifstream(filename, (std::ios_base::in | std::ios_base::binary)), [](std::istream *p) {delete p;}};
 
 		const int tmpSize = 1024 * 1024;
 		auto tmp = std::make_unique<char[]>(tmpSize);
@@ -206,6 +212,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			buf.insert(buf.end(), tmp.get(), (tmp.get() + inStream->gcount()));
 		}
 
+		if (!inStream->eof())
+		{
+			fprintf(stderr, "Cannot read file: %s\n", filename.c_str());
+			exit(EXIT_FAILURE);
+		}
+
 		printf("%s  %s\n", hash.nextData(buf.data(), buf.size()).finalize().toString().c_str(), filename.c_str());
 	};
 
-- 
2.43.0


From a84b169ec0011621a484fb34a5efa8717f73f59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 10/12] fix: program: reject digest lengths that are negative,
 too large or not a number

---
 src/program/main.cpp | 66 +++++++++++++++-----------------------------
 1 file changed, 23 insertions(+), 43 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index a216031..277ee8a 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -45,6 +45,7 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -79,6 +80,7 @@ enum class Hash : int
 
 static void printUsage(const std::string &name);
 static Hash getHash(const std::string &hash);
+static bool getDigestLength(const std::string &str, int &length);
 static bool runHash(const Hash hash, const int argc, const char *argv[]);
 
 
@@ -166,6 +168,20 @@ Hash getHash(const std::string &hash)
 	return Hash::Invalid;
 }
 
+bool getDigestLength(const std::string &str, int &length)
+{
+	try
+	{
+		size_t pos = 0;
+		length = std::stoi(str, &pos);
+		return ((pos == str.size()) && (length >= 0));
+	}
+	catch (const std::logic_error &)  // `std::invalid_argument`, `std::out_of_range`
+	{
+		return false;
+	}
+}
+
 bool runHash(const Hash hash, const int argc, const char *argv[])
 {
 	const auto readNPrint = [](auto hash, const std::string &filename) -> void
@@ -293,14 +309,8 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 
 			int digestLength = 0;
-			try
-			{
-				digestLength = std::stoi(argv[2]);
-			}
-			catch (const std::invalid_argument &e)
-			{
+			if (!getDigestLength(argv[2], digestLength))
 				return false;
-			}
 
 			readNPrint(Chocobo1::CSHAKE_128(digestLength, argv[3]), argv[4]);
 			return true;
@@ -312,14 +322,8 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 
 			int digestLength = 0;
-			try
-			{
-				digestLength = std::stoi(argv[2]);
-			}
-			catch (const std::invalid_argument &e)
-			{
+			if (!getDigestLength(argv[2], digestLength))
 				return false;
-			}
 
 			readNPrint(Chocobo1::CSHAKE_256(digestLength, argv[3]), argv[4]);
 			return true;
@@ -531,14 +535,8 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 
 			int digestLength = 0;
-			try
-			{
-				digestLength = std::stoi(argv[2]);
-			}
-			catch (const std::invalid_argument &e)
-			{
+			if (!getDigestLength(argv[2], digestLength))
 				return false;
-			}
 
 			readNPrint(Chocobo1::SHAKE_128(digestLength), argv[3]);
 			return true;
@@ -550,14 +548,8 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 
 			int digestLength = 0;
-			try
-			{
-				digestLength = std::stoi(argv[2]);
-			}
-			catch (const std::invalid_argument &e)
-			{
+			if (!getDigestLength(argv[2], digestLength))
 				return false;
-			}
 
 			readNPrint(Chocobo1::SHAKE_256(digestLength), argv[3]);
 			return true;
@@ -632,14 +624,8 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 
 			int digestLength = 0;
-			try
-			{
-				digestLength = std::stoi(argv[2]);
-			}
-			catch (const std::invalid_argument &e)
-			{
+			if (!getDigestLength(argv[2], digestLength))
 				return false;
-			}
 
 			readAllNPrint(Chocobo1::TupleHash_128(digestLength, argv[3]), argv[4]);
 			return true;
@@ -651,14 +637,8 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 
 			int digestLength = 0;
-			try
-			{
-				digestLength = std::stoi(argv[2]);
-			}
-			catch (const std::invalid_argument &e)
-			{
-				return false;
-			}
+			if (!getDigestLength(argv[2], digestLength))
+				return false;
 
 			readAllNPrint(Chocobo1::TupleHash_256(digestLength, argv[3]), argv[4]);
 			return true;
-- 
2.43.0


From 7b36a15cbd8cd316a85dcdfeb862908c2cdce59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 11/12] fix: program: fail on invalid arguments

---
 src/program/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 277ee8a..8ca45ff 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -91,7 +91,7 @@ int main(const int argc, const char *argv[])
 		if (failPred)
 		{
 			printUsage(argv[0]);
-			exit(0);
+			exit(EXIT_FAILURE);
 		}
 	};
 
-- 
2.43.0


From ee8ae9e42445dd1913d984e83803571553b55942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 12/12] fix: program: pass the customization string of cSHAKE
 as such

---
 src/program/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 8ca45ff..3407ca4 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -312,7 +312,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			if (!getDigestLength(argv[2], digestLength))
 				return false;
 
-			readNPrint(Chocobo1::CSHAKE_128(digestLength, argv[3]), argv[4]);
+			readNPrint(Chocobo1::CSHAKE_128(digestLength, {}, argv[3]), argv[4]);
 			return true;
 		}
 
@@ -325,7 +325,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			if (!getDigestLength(argv[2], digestLength))
 				return false;
 
-			readNPrint(Chocobo1::CSHAKE_256(digestLength, argv[3]), argv[4]);
+			readNPrint(Chocobo1::CSHAKE_256(digestLength, {}, argv[3]), argv[4]);
 			return true;
 		}
 
-- 
2.43.0

