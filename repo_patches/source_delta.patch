From ed28d3fa4e08475ca6719a472e116f4aa1252a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 01/54] fix: BVH build partition underflow when no primitive is
 left of the split

The inclusive end index wrapped around when every primitive of a range that
starts at zero was on the right side of the split plane (all centroids equal
or one ulp apart with a large root box), so the loop read and swapped
primitives far outside of the array.
---
 source/bvh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 9b8a83c..44788a8 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -326,13 +326,13 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = i + primitiveCount;
+		while (i < j)
 		{
 			if (centroidData[primitives[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitives[i], primitives[j--]);
+				std::swap(primitives[i], primitives[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
@@ -459,13 +459,13 @@ void Bvh::recreate(const Aabb* aabbs, const Aabb& rootAabb, uint32 aabbCount, co
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = i + primitiveCount;
+		while (i < j)
 		{
 			if (centroidData[primitiveData[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitiveData[i], primitiveData[j--]);
+				std::swap(primitiveData[i], primitiveData[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
-- 
2.43.0


From f346d191063f70cb8ee35e547261bcfee2eea820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 02/54] fix: BVH build bin index out of range for extreme
 centroid extents

With a denormal or an overflowing centroid extent the bin position is infinite
or NaN, and converting it to an integer before clamping gave INT_MIN.
---
 source/bvh.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 44788a8..e2d3e04 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -114,8 +114,8 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 			auto v1 = f32x4(*(const float3*)(vertices + i1 * vertexSize));
 			auto v2 = f32x4(*(const float3*)(vertices + i2 * vertexSize));
 
-			auto binIndex = std::min((int32)(BIN_COUNT - 1), (int32)((
-				centroids[index][a] - boundsMin) * scale));
+			auto binIndex = (int32)std::min((float)(BIN_COUNT - 1), (
+				centroids[index][a] - boundsMin) * scale);
 			auto& bin = bins[binIndex];
 			bin.min = min(min(min(bin.min, v0), v1), v2);
 			bin.max = max(max(max(bin.max, v0), v1), v2);
@@ -188,8 +188,8 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 		{
 			auto index = primitives[i];
 			auto aabb = aabbs[index];
-			auto binIndex = std::min((int32)(BIN_COUNT - 1), (int32)((
-				centroids[index][a] - boundsMin) * scale));
+			auto binIndex = (int32)std::min((float)(BIN_COUNT - 1), (
+				centroids[index][a] - boundsMin) * scale);
 			auto& bin = bins[binIndex];
 			bin.min = min(bin.min, aabb.getMin());
 			bin.max = max(bin.max, aabb.getMax());
-- 
2.43.0


From 1970b365791727c89140b6824111f4052a319d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 03/54] fix: BVH query or traversal interrupted by an exception
 leaves its node stack filled

The next query, traversal or rebuild then continued with the stale nodes of the
interrupted one.
---
 include/math/bvh.hpp | 10 ++++++++++
 source/bvh.cpp       |  1 +
 2 files changed, 11 insertions(+)

diff --git a/include/math/bvh.hpp b/include/math/bvh.hpp
index 48a2994..e054c3e 100644
--- a/include/math/bvh.hpp
+++ b/include/math/bvh.hpp
@@ -104,6 +104,15 @@ protected:
 	vector<uint32> primitives;
 	vector<f32x4> centroids;
 	stack<Node*> nodeStack;
+
+	/**
+	 * @brief Empties the node stack even if an exception is thrown.
+	 */
+	struct NodeStackGuard final
+	{
+		stack<Node*>& nodeStack;
+		~NodeStackGuard() { while (!nodeStack.empty()) nodeStack.pop(); }
+	};
 public:
 	/*******************************************************************************************************************
 	 * @brief Creates a new BVH from the triangle array.
@@ -199,6 +208,7 @@ public:
 		if (nodes.empty())
 			return;
 
+		NodeStackGuard nodeStackGuard = { nodeStack };
 		auto nodeData = nodes.data();
 		auto node = &nodeData[0];
 
diff --git a/source/bvh.cpp b/source/bvh.cpp
index e2d3e04..6777454 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -541,6 +541,7 @@ uint32 Bvh::collectInFrustum(const Plane* planes, uint8 planeCount, uint32* prim
 	auto nodeStack = _nodeStack ? _nodeStack : &this->nodeStack;
 	assert(nodeStack->empty());
 
+	NodeStackGuard nodeStackGuard = { *nodeStack };
 	auto nodeData = nodes.data();
 	auto thisPrimitiveData = this->primitives.data();
 	auto node = &nodeData[0];
-- 
2.43.0


From 64628df054d98f77bbc1ccefdc04075f1c28e18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 04/54] fix: BVH left half built when its recreation is
 interrupted by an exception

---
 source/bvh.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 6777454..53c7b58 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -236,6 +236,35 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 	cost = bestCost;
 }
 
+//**********************************************************************************************************************
+namespace
+{
+	/**
+	 * @brief Leaves BVH empty if an exception interrupts its recreation.
+	 */
+	struct RecreateGuard final
+	{
+		vector<Bvh::Node>& nodes;
+		vector<uint32>& primitives;
+		vector<f32x4>& centroids;
+		stack<Bvh::Node*>& nodeStack;
+		bool isDone;
+
+		~RecreateGuard()
+		{
+			if (isDone)
+				return;
+
+			nodes.clear();
+			primitives.clear();
+			centroids.clear();
+
+			while (!nodeStack.empty())
+				nodeStack.pop();
+		}
+	};
+}
+
 //**********************************************************************************************************************
 Bvh::Bvh(const uint8* vertices, const uint8* indices, const Aabb& rootAabb,
 	uint32 indexCount, uint32 vertexSize, uint32 indexSize, const f32x4* _centroids)
@@ -257,6 +286,7 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 	assert(indexSize > 0);
 	assert(nodeStack.empty());
 
+	RecreateGuard recreateGuard = { nodes, primitives, centroids, nodeStack, false };
 	auto primitiveCount = indexCount / Triangle::pointCount;
 	nodes.resize(primitiveCount * 2 - 1);
 	primitives.resize(primitiveCount);
@@ -396,6 +426,7 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 	}
 
 	nodes.resize(nodeCount);
+	recreateGuard.isDone = true;
 }
 
 //**********************************************************************************************************************
@@ -405,6 +436,7 @@ void Bvh::recreate(const Aabb* aabbs, const Aabb& rootAabb, uint32 aabbCount, co
 	assert(aabbCount > 0);
 	assert(nodeStack.empty());
 
+	RecreateGuard recreateGuard = { nodes, primitives, centroids, nodeStack, false };
 	nodes.resize(aabbCount * 2 - 1);
 	primitives.resize(aabbCount);
 
@@ -527,6 +559,7 @@ void Bvh::recreate(const Aabb* aabbs, const Aabb& rootAabb, uint32 aabbCount, co
 	}
 
 	nodes.resize(nodeCount);
+	recreateGuard.isDone = true;
 }
 
 //**********************************************************************************************************************
-- 
2.43.0


From 54069fb9eddf284cb6274bb070c236b59f395d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 05/54] fix: BVH copy assignment interrupted by an exception
 leaves a half copied BVH

---
 include/math/bvh.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/math/bvh.hpp b/include/math/bvh.hpp
index e054c3e..57713fb 100644
--- a/include/math/bvh.hpp
+++ b/include/math/bvh.hpp
@@ -140,6 +140,16 @@ public:
 	 * @brief Creates a new empty BVH.
 	 */
 	Bvh() = default;
+
+	Bvh(const Bvh& bvh) = default;
+	Bvh(Bvh&& bvh) = default;
+	Bvh& operator=(Bvh&& bvh) = default;
+
+	/**
+	 * @brief Copies other BVH. (Unchanged if an exception is thrown)
+	 * @param[in] bvh other BVH to copy from
+	 */
+	Bvh& operator=(const Bvh& bvh) { return *this = Bvh(bvh); }
 	
 	/**
 	 * @brief Returns BVH node array.
-- 
2.43.0


From f04b26f449d0b7f337a3b2c53959a3c096cb8c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 06/54] fix: f32x4x4 conversion from float4x4 assumes an
 alignment float4x4 does not have

---
 include/math/simd/matrix/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index c93990a..eb77f86 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -77,7 +77,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * @param[in] m target 4x4 matrix value
 	 */
-	explicit f32x4x4(const float4x4& m) noexcept { *this = *((const f32x4x4*)&m); }
+	explicit f32x4x4(const float4x4& m) noexcept : c0(m.c0), c1(m.c1), c2(m.c2), c3(m.c3) { }
 	/**
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * 
-- 
2.43.0


From 09bb2f1d61efdee74c6f791c4046946a7b1ccc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 07/54] fix: extractScale returns the squared scale

---
 include/math/matrix/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index 6f51f71..ed00aa7 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -110,7 +110,7 @@ static f32x4x4 scale(f32x4 s, const f32x4x4& m) noexcept
  */
 static f32x4 extractScale(const f32x4x4& m) noexcept
 {
-	return f32x4(lengthSq3(m.c0), lengthSq3(m.c1), lengthSq3(m.c2));
+	return f32x4(length3(m.c0), length3(m.c1), length3(m.c2));
 }
 /**
  * @brief Extracts total SIMD matrix 2D scale transformation of an object in 3D space.
@@ -118,7 +118,7 @@ static f32x4 extractScale(const f32x4x4& m) noexcept
  */
 static float2 extractScale2(const f32x4x4& m) noexcept
 {
-	return float2(lengthSq3(m.c0), length3(m.c1));
+	return float2(length3(m.c0), length3(m.c1));
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From 84b528929a7b81800845223cc29ef9176e59bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 08/54] fix: inverseTransRot leaves the translation in the
 bottom row

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index ed00aa7..a2f4877 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -319,7 +319,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
  */
 static f32x4x4 inverseTransRot(const f32x4x4& m)
 {
-	auto t = transpose4x4(m);
+	auto t = transpose3x3(m);
 	setTranslation(t, -multiply3x3(t, getTranslation(m)));
 	return t;
 }
-- 
2.43.0


From 66aa14bb8b2e6fa93d3d6d99e0ea270db4b5191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 09/54] fix: PackedVector::set does not compile when used

---
 include/math/packed-vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 335ecd5..bcdd25b 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -19,6 +19,8 @@
 
 #pragma once
 #include "math/types.hpp"
+#include <cassert>
+#include <cstdlib>
 #include <vector>
 
 namespace math
@@ -85,7 +87,7 @@ public:
 			byte = (byte & ~((uint8)0x0F << shift)) | ((value & (uint8)0x0F) << shift);
 		}
 	}
-	uint8 set(psize i, uint8 value) noexcept
+	void set(psize i, uint8 value) noexcept
 	{
 		if constexpr (Bits == 1)
 			assert(i / 8 < size());
@@ -93,7 +95,7 @@ public:
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
 			assert(i / 8 < size());
-		return unsafeSet(i, value);
+		unsafeSet(i, value);
 	}
 
 	void resize(psize elementCount)
-- 
2.43.0


From 4d98b56aac570ef91e32f9868f8711033e83e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 10/54] fix: PackedVector keeps a stale data pointer after
 copy, move, swap or reallocation

---
 include/math/packed-vector.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index bcdd25b..0b2d20b 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -29,8 +29,6 @@ namespace math
 template<int Bits = 1>
 class PackedVector final : public std::vector<uint8>
 {
-private:
-	uint8* ptr = nullptr;
 public:
 	PackedVector()
 	{
@@ -44,6 +42,7 @@ public:
 
 	uint8 unsafeGet(psize i) const noexcept
 	{
+		auto ptr = data();
 		if constexpr (Bits == 1)
 		{
 			return (ptr[i / 8] >> (uint8)(i % 8)) & (uint8)0x01;
@@ -71,6 +70,7 @@ public:
 
 	void unsafeSet(psize i, uint8 value) noexcept
 	{
+		auto ptr = data();
 		if constexpr (Bits == 1)
 		{
 			auto& byte = ptr[i / 8]; auto shift = (uint8)(i % 8);
@@ -106,7 +106,6 @@ public:
 			std::vector<uint8>::resize(elementCount / 4 + (elementCount % 4 != 0 ? 1 : 0));
 		else if constexpr (Bits == 4)
 			std::vector<uint8>::resize(elementCount / 2 + (elementCount % 2 != 0 ? 1 : 0));
-		ptr = data();
 	}
 };
 
-- 
2.43.0


From ebb666dda9bbe413a8418d2e1615e9db4aca0fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 11/54] fix: toHex shifts by more than the value's width when
 asked for more digits

---
 include/math/hex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/hex.hpp b/include/math/hex.hpp
index 807e764..d623791 100644
--- a/include/math/hex.hpp
+++ b/include/math/hex.hpp
@@ -34,7 +34,7 @@ static string toHex(T value, psize length = sizeof(T) << 1) noexcept
 	constexpr const char* digits = "0123456789ABCDEF";
 	string hex(length, '0');
 	for (psize i = 0, j = (length - 1) * 4; i < length; i++, j -= 4)
-		hex[i] = digits[(value >> j) & 0x0f];
+		hex[i] = j < sizeof(T) * 8 ? digits[(value >> j) & 0x0f] : '0';
 	return hex;
 }
 
-- 
2.43.0


From 8993fd5b1121fe08036a0f63e682f46764518a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 12/54] fix: toHex, toInt32 and toInt64 terminate the process
 instead of reporting failure

---
 include/math/hex.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/hex.hpp b/include/math/hex.hpp
index d623791..f690af3 100644
--- a/include/math/hex.hpp
+++ b/include/math/hex.hpp
@@ -29,7 +29,7 @@ using namespace std;
  * @param length hexadecimal string length
  */
 template <typename T>
-static string toHex(T value, psize length = sizeof(T) << 1) noexcept
+static string toHex(T value, psize length = sizeof(T) << 1)
 {
 	constexpr const char* digits = "0123456789ABCDEF";
 	string hex(length, '0');
@@ -42,11 +42,11 @@ static string toHex(T value, psize length = sizeof(T) << 1) noexcept
  * @brief Converts hexadecimal string to the 32bit integer value.
  * @param[in] hex target hexadecimal string
  */
-static uint32 toInt32(const string& hex) noexcept { return std::stoul(hex, nullptr, 16); }
+static uint32 toInt32(const string& hex) { return std::stoul(hex, nullptr, 16); }
 /**
  * @brief Converts hexadecimal string to the 64bit integer value.
  * @param[in] hex target hexadecimal string
  */
-static uint64 toInt64(const string& hex) noexcept { return std::stoull(hex, nullptr, 16); }
+static uint64 toInt64(const string& hex) { return std::stoull(hex, nullptr, 16); }
 
 } // namespace math
\ No newline at end of file
-- 
2.43.0


From c68fdf7c682c545ef7c93bdb4eebab7623791010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 13/54] fix: toInt32 silently truncates numbers that do not fit

---
 include/math/hex.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/math/hex.hpp b/include/math/hex.hpp
index f690af3..12aff4f 100644
--- a/include/math/hex.hpp
+++ b/include/math/hex.hpp
@@ -15,6 +15,7 @@
 #pragma once
 #include "math/types.hpp"
 #include <string>
+#include <stdexcept>
 
 namespace math
 {
@@ -42,7 +43,13 @@ static string toHex(T value, psize length = sizeof(T) << 1)
  * @brief Converts hexadecimal string to the 32bit integer value.
  * @param[in] hex target hexadecimal string
  */
-static uint32 toInt32(const string& hex) { return std::stoul(hex, nullptr, 16); }
+static uint32 toInt32(const string& hex)
+{
+	auto value = std::stoul(hex, nullptr, 16);
+	if (value > UINT32_MAX)
+		throw std::out_of_range("toInt32");
+	return (uint32)value;
+}
 /**
  * @brief Converts hexadecimal string to the 64bit integer value.
  * @param[in] hex target hexadecimal string
-- 
2.43.0


From 569c4e0387eec8fabd226a0a288544b762e8c094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 14/54] fix: lookAtQuat builds its rotation from a zero up axis

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index a2f4877..78ca001 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -307,7 +307,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
 {
 	auto right = cross3(up, direction);
 	auto c0 = right * (1.0f / std::sqrt(std::max(0.00001f, dot3(right, right))));
-	auto c1 = cross3(right, c0);
+	auto c1 = cross3(direction, c0);
 	auto m = f32x4x4(c0, c1, direction);
 	return extractQuat(m);
 }
-- 
2.43.0


From 95dbd80336df3c3ec552bcbdeb1169821d58886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 15/54] fix: extractPitch takes ordinary rotations for the
 singular case

---
 include/math/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/quaternion.hpp b/include/math/quaternion.hpp
index e881444..d8cc435 100644
--- a/include/math/quaternion.hpp
+++ b/include/math/quaternion.hpp
@@ -112,7 +112,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 		auto xx = w * w - x * x - y * y + z * z;
 
 		// Avoid atan2(0, 0) - handle singularity - Matiis
-		if (std::abs(xx) <= FLT_EPSILON || std::abs(yy) <= FLT_EPSILON)
+		if (std::abs(xx) <= FLT_EPSILON && std::abs(yy) <= FLT_EPSILON)
 			return 2.0f * std::atan2(x, w);
 		return std::atan2(yy, xx);
 	}
-- 
2.43.0


From f5891308721cf74ca3aa7b3d4d5bac02272ec1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 16/54] fix: Aabb::full covers only positive coordinates

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 11b56a4..a107415 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -265,7 +265,7 @@ inline const Aabb Aabb::zero = Aabb(f32x4::zero, f32x4::zero);
 inline const Aabb Aabb::one = Aabb(f32x4(-0.5f), f32x4(0.5f));
 inline const Aabb Aabb::two = Aabb(f32x4::minusOne, f32x4::one);
 inline const Aabb Aabb::half = Aabb(f32x4(-0.25f), f32x4(0.25f));
-inline const Aabb Aabb::full = Aabb(f32x4::min, f32x4::max);
+inline const Aabb Aabb::full = Aabb(f32x4::minusMax, f32x4::max);
 inline const Aabb Aabb::inf = Aabb(f32x4::minusInf, f32x4::inf);
 
 /**
-- 
2.43.0


From 7109beec9916ad067170ea973370964e1cc2ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 17/54] fix: Plane of a triangle lies on the wrong side of the
 origin

---
 include/math/plane.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/plane.hpp b/include/math/plane.hpp
index 174b988..0204986 100644
--- a/include/math/plane.hpp
+++ b/include/math/plane.hpp
@@ -64,7 +64,7 @@ public:
 		auto normal = cross3(triangle.p1 - triangle.p0, triangle.p2 - triangle.p0);
 		if (length3(normal) > 0.0f)
 			normal = normalize3(normal);
-		auto distance = dot3(normal, triangle.p0);
+		auto distance = -dot3(normal, triangle.p0);
 		normDist = f32x4(normal, distance);
 	}
 
-- 
2.43.0


From aec4370c395452f1266281c29c3d6db75809f9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 18/54] fix: isIntersected of two AABBs is false for AABBs that
 intersect

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index a107415..2e5a263 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -424,7 +424,7 @@ static bool raycastI(const Aabb& aabb, const Ray& ray) noexcept
  */
 static bool isIntersected(const Aabb& a, const Aabb& b) noexcept
 {
-	return areAllTrue(a.getMin() <= b.getMax() & a.getMin() >= b.getMax());
+	return areAllTrue(a.getMin() <= b.getMax() & a.getMax() >= b.getMin());
 }
 
 /**
-- 
2.43.0


From 476a0fd6ffc95f933d4b04c2c67a5de5ee823e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 19/54] fix: AABB tests in 3D space depend on the W components,
 where BVH nodes keep their links

---
 include/math/aabb.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 2e5a263..80b72c8 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -284,7 +284,7 @@ static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(
  */
 static bool isInside(const Aabb& aabb, f32x4 point) noexcept
 {
-	return areAllTrue(aabb.getMin() <= point & aabb.getMax() >= point);
+	return areAllTrue(u32x4(aabb.getMin() <= point & aabb.getMax() >= point, UINT32_MAX));
 }
 /**
  * @brief Returns true if other AABB is inside this AABB in 3D space.
@@ -294,7 +294,7 @@ static bool isInside(const Aabb& aabb, f32x4 point) noexcept
  */
 static bool isInside(const Aabb& aabb, const Aabb& other) noexcept
 {
-	return areAllTrue(aabb.getMin() <= other.getMin() & aabb.getMax() >= other.getMax());
+	return areAllTrue(u32x4(aabb.getMin() <= other.getMin() & aabb.getMax() >= other.getMax(), UINT32_MAX));
 }
 
 /**
@@ -424,7 +424,7 @@ static bool raycastI(const Aabb& aabb, const Ray& ray) noexcept
  */
 static bool isIntersected(const Aabb& a, const Aabb& b) noexcept
 {
-	return areAllTrue(a.getMin() <= b.getMax() & a.getMax() >= b.getMin());
+	return areAllTrue(u32x4(a.getMin() <= b.getMax() & a.getMax() >= b.getMin(), UINT32_MAX));
 }
 
 /**
-- 
2.43.0


From 3103ae3fb7d1dc78c05ccdee0471bc927820e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 20/54] fix: raycast1 and raycast2 report wrong distances,
 rescaling the inverted direction

---
 include/math/aabb.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 80b72c8..79c2fa7 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -344,7 +344,7 @@ static float2 raycast2I(Aabb aabb, Ray ray) noexcept
  */
 static float2 raycast2(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.setDirection(f32x4::one / ray.getDirection(), false);
 	return raycast2I(aabb, ray);
 }
 
@@ -381,7 +381,7 @@ static float raycast1I(const Aabb& aabb, const Ray& ray) noexcept
  */
 static float raycast1(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.setDirection(f32x4::one / ray.getDirection(), false);
 	return raycast1I(aabb, ray);
 }
 
-- 
2.43.0


From 82fec5e32eb8cf4033994b5ef1ee8423161cf005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 21/54] fix: Aabb::trySet accepts inverted corners

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 79c2fa7..55417a4 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -107,7 +107,7 @@ public:
 	 */
 	bool trySet(f32x4 min, f32x4 max) noexcept
 	{
-		if (areAllTrue(f32x4(min, 0.0f) > f32x4(max, 1.0f)))
+		if (areAnyTrue(f32x4(min, 0.0f) > f32x4(max, 1.0f)))
 			return false;
 		this->min = min; this->max = max;
 		return true;
-- 
2.43.0


From 960f04484e9274bd9d92eefc5d6c000a50451537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 22/54] fix: isInside takes points on the extension of a
 triangle edge for inside

---
 include/math/triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/triangle.hpp b/include/math/triangle.hpp
index cb81804..d5e1fc6 100644
--- a/include/math/triangle.hpp
+++ b/include/math/triangle.hpp
@@ -74,7 +74,7 @@ static bool isInside(const Triangle& triangle, f32x4 point) noexcept
 {
 	auto p0 = triangle.p0 - point, p1 = triangle.p1 - point, p2 = triangle.p2 - point;
 	auto u = cross3(p1, p2), v = cross3(p2, p0), w = cross3(p0, p1);
-	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f)
+	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f || dot3(v, w) < 0.0f)
 		return false;
 	return true;
 }
-- 
2.43.0


From 567065f0ada216d0f65c7baf784da17bdb277ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 23/54] fix: rgbToXyz and xyzToRgb multiply by the transposed
 matrices

---
 include/math/color-space.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/math/color-space.hpp b/include/math/color-space.hpp
index 3086789..b8e57f7 100644
--- a/include/math/color-space.hpp
+++ b/include/math/color-space.hpp
@@ -58,9 +58,9 @@ static f32x4 rgbToXyz(f32x4 rgb) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		0.4124564f, 0.2126729f, 0.0193339f, 0.0f,
-		0.3575761f, 0.7151522f, 0.1191920f, 0.0f,
-		0.1804375f, 0.0721750f, 0.9503041f, 0.0f,
+		0.4124564f, 0.3575761f, 0.1804375f, 0.0f,
+		0.2126729f, 0.7151522f, 0.0721750f, 0.0f,
+		0.0193339f, 0.1191920f, 0.9503041f, 0.0f,
 		0.0f      , 0.0f      , 0.0f      , 0.0f
 	);
 	return multiply3x3(m, rgb);
@@ -73,9 +73,9 @@ static f32x4 xyzToRgb(f32x4 xyz) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		 3.2404542f, -0.9692660f,  0.0556434f, 0.0f,
-		-1.5371385f,  1.8760108f, -0.2040259f, 0.0f,
-		-0.4985314f,  0.0415560f,  1.0572252f, 0.0f,
+		 3.2404542f, -1.5371385f, -0.4985314f, 0.0f,
+		-0.9692660f,  1.8760108f,  0.0415560f, 0.0f,
+		 0.0556434f, -0.2040259f,  1.0572252f, 0.0f,
 		 0.0f      ,  0.0f      ,  0.0f      , 0.0f
 	);
 	return multiply3x3(m, xyz);
-- 
2.43.0


From dd2a672de539617b2ed56e6e8e71625e30c45db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 24/54] fix: black turns into NaN when converted to or from Yxy

---
 include/math/color-space.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/color-space.hpp b/include/math/color-space.hpp
index b8e57f7..efae02d 100644
--- a/include/math/color-space.hpp
+++ b/include/math/color-space.hpp
@@ -88,7 +88,8 @@ static f32x4 xyzToRgb(f32x4 xyz) noexcept
 static f32x4 xyzToYxy(f32x4 xyz) noexcept
 {
 	auto y = xyz.getY();
-	auto inv = 1.0f / dot3(xyz, f32x4::one);
+	auto sum = dot3(xyz, f32x4::one);
+	auto inv = sum != 0.0f ? 1.0f / sum : 0.0f; // Black has no chromaticity.
 	return f32x4(y, xyz.getX() * inv, y * inv);
 }
 /**
@@ -98,7 +99,8 @@ static f32x4 xyzToYxy(f32x4 xyz) noexcept
 static f32x4 yxyToXyz(f32x4 yxy) noexcept
 {
 	auto x = yxy.getX(), y = yxy.getY(), z = yxy.getZ();
-	return f32x4(x * y / z, x, x * (1.0f - y - z) / z);
+	auto inv = z != 0.0f ? 1.0f / z : 0.0f; // Black has no chromaticity.
+	return f32x4(x * y * inv, x, x * (1.0f - y - z) * inv);
 }
 
 /**
-- 
2.43.0


From 85e97e80deb701e793cd97ef347cb9369e38b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 25/54] fix: Color setters lose a level that the constructors
 round to

---
 include/math/color.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/color.hpp b/include/math/color.hpp
index 1ce9c58..842c8c5 100644
--- a/include/math/color.hpp
+++ b/include/math/color.hpp
@@ -147,19 +147,19 @@ struct [[nodiscard]] Color
 	/**
 	 * @brief Sets sRGB color normalizer R channel. (Red)
 	 */
-	constexpr void setNormR(float r) noexcept { this->r = std::clamp(r, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormR(float r) noexcept { this->r = std::clamp(r, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer G channel. (Green)
 	 */
-	constexpr void setNormG(float g) noexcept { this->g = std::clamp(g, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormG(float g) noexcept { this->g = std::clamp(g, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer B channel. (Blue)
 	 */
-	constexpr void setNormB(float b) noexcept { this->b = std::clamp(b, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormB(float b) noexcept { this->b = std::clamp(b, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer A channel. (Alpha)
 	 */
-	constexpr void setNormA(float a) noexcept { this->a = std::clamp(a, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormA(float a) noexcept { this->a = std::clamp(a, 0.0f, 1.0f) * 255.0f + 0.5f; }
 
 	/*******************************************************************************************************************
 	 * @brief Converts sRGB color to the string. (Space separated)
-- 
2.43.0


From 3c170eeb91567ff71333d55ec7a72c2dbc372d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 26/54] fix: rotateSphericalHarmonicBand1 multiplies by
 transposed matrices, so lighting does not rotate

---
 include/math/sh.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 1e5a41b..0187355 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -140,9 +140,11 @@ static void multiply(const float m[25], const float v[5], float r[5]) noexcept
 //**********************************************************************************************************************
 static float3 rotateSphericalHarmonicBand1(float3 band1, const float3x3& m) noexcept
 {
-	constexpr auto invA1TimesK = float3x3(0.0f, -1.0f, 0.0f, 0.0f, 0.0f, 1.0f, -1.0f, 0.0f, 0.0f);
+	constexpr auto invA1TimesK = float3x3(
+		float3(0.0f, -1.0f, 0.0f), float3(0.0f, 0.0f, 1.0f), float3(-1.0f, 0.0f, 0.0f));
     auto mn0 = m[0], mn1 = m[1], mn2 = m[2];
-	auto r1OverK = float3x3(-mn0.y, mn0.z, -mn0.x, -mn1.y, mn1.z, -mn1.x, -mn2.y, mn2.z, -mn2.x);
+	auto r1OverK = float3x3(float3(-mn0.y, mn0.z, -mn0.x),
+		float3(-mn1.y, mn1.z, -mn1.x), float3(-mn2.y, mn2.z, -mn2.x));
 	return r1OverK * (invA1TimesK * band1);
 }
 static void rotateSphericalHarmonicBand2(const float band2[5], const float3x3& m, float r[5]) noexcept
-- 
2.43.0


From ff360b5e6b97f13020f06c3e29e29353572b4153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 27/54] fix: deringingSH windows already windowed coefficients
 and can leave negative light in a channel

---
 include/math/sh.hpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 0187355..40dabce 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -275,25 +275,28 @@ static void deringingSH(f32x4 sh[shCoeffCount]) noexcept
 	auto cutoff = (float)(shBandCount * 4 + 1);
 	float shw[shCoeffCount];
 
-	for (uint32 channel = 0; channel < 3; channel++)
-	{
-		for (uint32 i = 0; i < shCoeffCount; i++)
-			shw[i] = sh[i][channel];
+	float l = shBandCount;
+	float r = cutoff;
 
-		float l = shBandCount;
-		float r = cutoff;
+	for (uint32 i = 0; i < 16 && l + 0.1f < r; i++)
+	{
+		float m = 0.5f * (l + r);
+		auto isNegative = false;
 
-		for (uint32 i = 0; i < 16 && l + 0.1f < r; i++)
+		for (uint32 channel = 0; channel < 3 && !isNegative; channel++)
 		{
-			float m = 0.5f * (l + r);
+			for (uint32 j = 0; j < shCoeffCount; j++)
+				shw[j] = sh[j][channel];
 			windowing(shw, m);
-			if (shmin(shw) < 0.0f)
-				r = m;
-			else
-				l = m;
-			cutoff = std::min(cutoff, l);
+			isNegative = shmin(shw) < 0.0f;
 		}
+
+		if (isNegative)
+			r = m;
+		else
+			l = m;
 	}
+	cutoff = l;
 
 	for (int32 l = 0; l < shBandCount; l++)
 	{
-- 
2.43.0


From 786202b8a95c3f6e56c8322e40967d24da633ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 28/54] fix: importanceSamplingNdfDggx gives NaN for very
 smooth surfaces

---
 include/math/brdf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/brdf.hpp b/include/math/brdf.hpp
index 4559f92..9a80445 100644
--- a/include/math/brdf.hpp
+++ b/include/math/brdf.hpp
@@ -82,7 +82,7 @@ static constexpr float2 hammersley(uint32 index, float invSampleCount) noexcept
 static f32x4 importanceSamplingNdfDggx(float2 u, float a) noexcept
 {
     auto phi = 2.0f * (float)M_PI * u.x;
-    auto cosTheta2 = (1.0f - u.y) / (1.0f + (a + 1.0f) * ((a - 1.0f) * u.y));
+    auto cosTheta2 = std::min((1.0f - u.y) / (1.0f + (a + 1.0f) * ((a - 1.0f) * u.y)), 1.0f);
     auto cosTheta = std::sqrt(cosTheta2);
     auto sinTheta = std::sqrt(1.0f - cosTheta2);
     return f32x4(sinTheta * std::cos(phi), sinTheta * std::sin(phi), cosTheta);
-- 
2.43.0


From dc124719cbc16bffbf3c0cc1738fd2eff4eb85a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 29/54] fix: shmin takes light for positive when its search
 does not converge

---
 include/math/sh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 40dabce..486063d 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -263,7 +263,7 @@ static float shmin(float shw[shCoeffCount]) noexcept
 		} while (std::abs(z) <= 1.0 && std::abs(dz) > 1e-5f);
 
 		if (std::abs(z) > 1.0f)
-			minimum = std::min(a + b + c, a - b + c);
+			minimum = m0min - 0.5f * d; // Not converged, using lower bound.
 	}
 
 	return minimum;
-- 
2.43.0


From 42471af5d2f249d7fd9048286ad8bd342df720cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 30/54] fix: shmin gives NaN for light along the Y axis or
 without a direction

---
 include/math/sh.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 486063d..42e164c 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -230,9 +230,11 @@ static float shmin(float shw[shCoeffCount]) noexcept
 		(float)( M_SQRT15 / (4.0 * M_SQRT_PI))
 	};
 
-	auto dir = normalize(float3(-shw[3], -shw[1], shw[2]));
-	auto zAxis = -dir;
-	auto xAxis = normalize(cross(zAxis, float3(0.0f, 1.0f, 0.0f)));
+	auto dir = float3(-shw[3], -shw[1], shw[2]);
+	auto dirLength = length(dir);
+	auto zAxis = dirLength > 0.0f ? -dir / dirLength : float3(0.0f, 0.0f, 1.0f);
+	auto up = std::abs(zAxis.y) < 0.999f ? float3(0.0f, 1.0f, 0.0f) : float3(1.0f, 0.0f, 0.0f);
+	auto xAxis = normalize(cross(zAxis, up));
 	auto yAxis = cross(xAxis, zAxis);
 	auto m = transpose(float3x3(xAxis, yAxis, -zAxis));
 	rotateSh3Bands(shw, m, shw);
-- 
2.43.0


From fe8cf29a538ab26a799382b6a16ce0035871c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 31/54] fix: equal and notEqual of two float2 vectors take a
 float4

---
 include/math/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/vector/float.hpp b/include/math/vector/float.hpp
index 413ca3d..cdec884 100644
--- a/include/math/vector/float.hpp
+++ b/include/math/vector/float.hpp
@@ -562,7 +562,7 @@ static string toString(float2 v) { return to_string(v.x) + " " + to_string(v.y);
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 equal(float2 a, float4 b) noexcept
+static uint2 equal(float2 a, float2 b) noexcept
 {
 	return uint2(a.x == b.x ? UINT32_MAX : 0, a.y == b.y ? UINT32_MAX : 0);
 }
@@ -572,7 +572,7 @@ static uint2 equal(float2 a, float4 b) noexcept
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 notEqual(float2 a, float4 b) noexcept
+static uint2 notEqual(float2 a, float2 b) noexcept
 {
 	return uint2(a.x != b.x ? UINT32_MAX : 0, a.y != b.y ? UINT32_MAX : 0);
 }
-- 
2.43.0


From 65851d9ac0f33cae620b710c0550ad61772b491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 32/54] fix: int3 built from an int2 and a z drops the z

---
 include/math/vector/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/vector/int.hpp b/include/math/vector/int.hpp
index 5f60ace..415e5ce 100644
--- a/include/math/vector/int.hpp
+++ b/include/math/vector/int.hpp
@@ -193,7 +193,7 @@ struct [[nodiscard]] int3
 	 * @param xy first and second vector components value
 	 * @param z third vector component value
 	 */
-	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(x) { }
+	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(z) { }
 	/**
 	 * @brief Creates a new signed integer 3 component vector structure.
 	 *
-- 
2.43.0


From ff60a43c655a15882ba554d31ae3013a3ca52d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 33/54] fix: u32x4 comparisons, min and max order large values
 as negative numbers

---
 include/math/simd/vector/uint.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 9468203..8116a4e 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -555,7 +555,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmplt_epi32(data, v.data);
+		auto bias = _mm_set1_epi32(INT32_MIN); // SSE compares signed integers
+		return _mm_cmplt_epi32(_mm_xor_si128(data, bias), _mm_xor_si128(v.data, bias));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcltq_u32(data, v.data);
 		#else
@@ -565,7 +566,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmpgt_epi32(data, v.data);
+		auto bias = _mm_set1_epi32(INT32_MIN); // SSE compares signed integers
+		return _mm_cmpgt_epi32(_mm_xor_si128(data, bias), _mm_xor_si128(v.data, bias));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgtq_u32(data, v.data);
 		#else
@@ -575,7 +577,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmplt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		auto bias = _mm_set1_epi32(INT32_MIN); // SSE compares signed integers
+		return _mm_or_si128(_mm_cmplt_epi32(_mm_xor_si128(data, bias), _mm_xor_si128(v.data, bias)), _mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcleq_u32(data, v.data);
 		#else
@@ -585,7 +588,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmpgt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		auto bias = _mm_set1_epi32(INT32_MIN); // SSE compares signed integers
+		return _mm_or_si128(_mm_cmpgt_epi32(_mm_xor_si128(data, bias), _mm_xor_si128(v.data, bias)), _mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgeq_u32(data, v.data);
 		#else
@@ -795,7 +799,7 @@ static u32x4 select(u32x4 c, u32x4 t, u32x4 f) noexcept
 static u32x4 min(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_min_epi32(a.data, b.data);
+	return _mm_min_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminq_u32(a.data, b.data);
 	#else
@@ -811,7 +815,7 @@ static u32x4 min(u32x4 a, u32x4 b) noexcept
 static u32x4 max(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_max_epi32(a.data, b.data);
+	return _mm_max_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vmaxq_u32(a.data, b.data);
 	#else
-- 
2.43.0


From 9e5f8062ce7d1f0a0742059ef14700d9d33c526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 34/54] fix: f32x4 mod floors where the vector types truncate

---
 include/math/simd/vector/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index ec18d7f..7b0f1c1 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1179,7 +1179,7 @@ static bool isNormalized3(f32x4 v, float tolerance = 1.0e-6f) noexcept
  */
 static f32x4 mod(f32x4 n, f32x4 d) noexcept
 {
-    return n - floor(n / d) * d;
+    return n - trunc(n / d) * d;
 }
 
 /**
-- 
2.43.0


From 46359e774fe527a8a1f4833c4cbbe59ec8d2ebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 35/54] fix: f32x4 conversions from and to u32x4 treat large
 values as negative

---
 include/math/simd/vector/float.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 7b0f1c1..9f8df27 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -147,7 +147,9 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	explicit f32x4(u32x4 v)
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		data = _mm_cvtepi32_ps(v.data);
+		auto high = _mm_cvtepi32_ps(_mm_srli_epi32(v.data, 16)); // SSE converts signed integers
+		auto low = _mm_cvtepi32_ps(_mm_and_si128(v.data, _mm_set1_epi32(0xFFFF)));
+		data = _mm_add_ps(_mm_mul_ps(high, _mm_set1_ps(65536.0f)), low);
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_u32(v.data);
 		#else
@@ -393,7 +395,9 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	explicit operator u32x4() const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cvttps_epi32(data);
+		auto big = _mm_cmpge_ps(data, _mm_set1_ps(2147483648.0f)); // SSE converts to signed integers
+		auto small = _mm_sub_ps(data, _mm_and_ps(big, _mm_set1_ps(2147483648.0f)));
+		return _mm_xor_si128(_mm_cvttps_epi32(small), _mm_slli_epi32(_mm_castps_si128(big), 31));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcvtq_u32_f32(data);
 		#else
@@ -1208,7 +1212,7 @@ static f32x4 log(f32x4 v) noexcept
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
-		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)e);
+		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)uintAsInt(e));
 		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
 		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
-- 
2.43.0


From a1f59ddd013ea04332f2a2bfce28a5f4522224d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 36/54] fix: f32x4 log repeats a coefficient of its polynomial

---
 include/math/simd/vector/float.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 9f8df27..64ed176 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1208,7 +1208,6 @@ static f32x4 log(f32x4 v) noexcept
 		auto t = f32x4(0.2392828464508056640625f);
 		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.400005877017974853515625f));
-		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
-- 
2.43.0


From 74fd61aa76557743c71d17f7864fca2f971515a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 37/54] fix: f32x4 log of infinity and of NaN

---
 include/math/simd/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 64ed176..8d5bbd5 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1212,8 +1212,8 @@ static f32x4 log(f32x4 v) noexcept
 		t = fma(t, x2, f32x4(2.0f));
 
 		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)uintAsInt(e));
-		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
-		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
+		x = select(equal(v, f32x4::inf), f32x4::inf, x);
+		x = select((v < f32x4::zero) | notEqual(v, v), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
 		return x;
 	}
-- 
2.43.0


From b76db3f1c7dc2c27b7b05a3467c587a540aacf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 38/54] fix: vector times matrix multiplies every element of a
 row by the same component

---
 include/math/matrix/float.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 95a2233..dc4e2b1 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -575,8 +575,8 @@ static constexpr float2x2 operator/(float n, const float2x2& m) noexcept { retur
 static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 {
 	return float2(
-		m.c0.x * v.x + m.c1.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y);
+		m.c0.x * v.x + m.c0.y * v.y,
+		m.c1.x * v.x + m.c1.y * v.y);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -587,9 +587,9 @@ static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 {
 	return float3(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z);
+		m.c0.x * v.x + m.c0.y * v.y + m.c0.z * v.z,
+		m.c1.x * v.x + m.c1.y * v.y + m.c1.z * v.z,
+		m.c2.x * v.x + m.c2.y * v.y + m.c2.z * v.z);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -600,10 +600,10 @@ static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 static constexpr float4 operator*(float4 v, const float4x4& m) noexcept
 {
 	return float4(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x + m.c3.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y + m.c3.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z + m.c3.z * v.z,
-		m.c0.w * v.w + m.c1.w * v.w + m.c2.w * v.w + m.c3.w * v.w);
+		m.c0.x * v.x + m.c0.y * v.y + m.c0.z * v.z + m.c0.w * v.w,
+		m.c1.x * v.x + m.c1.y * v.y + m.c1.z * v.z + m.c1.w * v.w,
+		m.c2.x * v.x + m.c2.y * v.y + m.c2.z * v.z + m.c2.w * v.w,
+		m.c3.x * v.x + m.c3.y * v.y + m.c3.z * v.z + m.c3.w * v.w);
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From 5cf1167ba682a12d05c670c2b49f7398a5aafd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 39/54] fix: inverse of float2x2 and float3x3 is not the
 inverse

---
 include/math/matrix/float.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index dc4e2b1..8fad1c2 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -647,8 +647,8 @@ static constexpr float4x4 transpose(float4x4 m) noexcept
 static constexpr float2x2 inverse(float2x2 m) noexcept
 {
 	auto oneOverDeterminant = 1.0f / (m.c0.x * m.c1.y - m.c1.x * m.c0.y);
-	return float2x2(m.c1.y * oneOverDeterminant, -m.c0.y * oneOverDeterminant,
-		-m.c1.x * oneOverDeterminant, m.c0.x * oneOverDeterminant);
+	return float2x2(m.c1.y * oneOverDeterminant, -m.c1.x * oneOverDeterminant,
+		-m.c0.y * oneOverDeterminant, m.c0.x * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
@@ -662,14 +662,14 @@ static constexpr float3x3 inverse(float3x3 m) noexcept
 		m.c2.x * (m.c0.y * m.c1.z - m.c1.y * m.c0.z));
 	return float3x3(
 		(m.c1.y * m.c2.z - m.c2.y * m.c1.z) * oneOverDeterminant,
-		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
-		(m.c0.y * m.c2.z - m.c1.y * m.c0.z) * oneOverDeterminant,
 		-(m.c1.x * m.c2.z - m.c2.x * m.c1.z) * oneOverDeterminant,
-		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
-		-(m.c0.x * m.c2.z - m.c1.x * m.c0.z) * oneOverDeterminant,
 		(m.c1.x * m.c2.y - m.c2.x * m.c1.y) * oneOverDeterminant,
+		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
 		-(m.c0.x * m.c2.y - m.c2.x * m.c0.y) * oneOverDeterminant,
-		(m.c0.x * m.c2.y - m.c1.x * m.c0.y) * oneOverDeterminant);
+		(m.c0.y * m.c1.z - m.c1.y * m.c0.z) * oneOverDeterminant,
+		-(m.c0.x * m.c1.z - m.c1.x * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c1.y - m.c1.x * m.c0.y) * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
-- 
2.43.0


From e4877f9a14eefa3a38b439e29c4ac16d44fff698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 40/54] fix: float4x3 refuses its last column

---
 include/math/matrix/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 8fad1c2..143124a 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -306,7 +306,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3& operator[](psize i) noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 	/**
@@ -315,7 +315,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3 operator[](psize i) const noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 
-- 
2.43.0


From eda3654db988e73f72a3c17d8cf6e02766e7bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 41/54] fix: calcMipCount counts a mip too many just below
 large powers of two

---
 include/math/simd/vector/uint.hpp | 2 +-
 include/math/vector/uint.hpp      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 8116a4e..f901f5d 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -901,7 +901,7 @@ static u32x4 clamp(u32x4 v, u32x4 min, u32x4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount3(u32x4 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)max3(size)))) + 1u;
+	return (uint8)(std::floor(std::log2((double)max3(size)))) + 1u;
 }
 static u32x4 calcSizeAtMip3(u32x4 sizeAt0, uint8 mip) noexcept
 {
diff --git a/include/math/vector/uint.hpp b/include/math/vector/uint.hpp
index cba2dbf..a07773a 100644
--- a/include/math/vector/uint.hpp
+++ b/include/math/vector/uint.hpp
@@ -903,15 +903,15 @@ static constexpr uint4 clamp(uint4 v, uint4 min, uint4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount(uint32 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)size))) + 1u;
+	return (uint8)(std::floor(std::log2((double)size))) + 1u;
 }
 static uint8 calcMipCount(uint2 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(size.x, size.y)))) + 1u;
+	return (uint8)(std::floor(std::log2((double)std::max(size.x, size.y)))) + 1u;
 }
 static uint8 calcMipCount(uint3 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(std::max(size.x, size.y), size.z)))) + 1u;
+	return (uint8)(std::floor(std::log2((double)std::max(std::max(size.x, size.y), size.z)))) + 1u;
 }
 
 static uint32 calcSizeAtMip(uint32 sizeAt0, uint8 mip) noexcept
-- 
2.43.0


From 9c56fa371be153cb86a939aa6f0fc57695fcc466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 42/54] fix: Euler angles taken from a quaternion near a
 quarter turn of yaw describe another rotation

---
 include/math/quaternion.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/math/quaternion.hpp b/include/math/quaternion.hpp
index d8cc435..58ed35c 100644
--- a/include/math/quaternion.hpp
+++ b/include/math/quaternion.hpp
@@ -107,14 +107,10 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 	 */
 	float extractPitch() const noexcept
 	{
+		// Half sum and difference of pitch and roll stay consistent at the singularity (gimbal lock).
 		auto x = getX(), y = getY(), z = getZ(), w = getW();
-		auto yy = 2.0f * (y * z + w * x);
-		auto xx = w * w - x * x - y * y + z * z;
-
-		// Avoid atan2(0, 0) - handle singularity - Matiis
-		if (std::abs(xx) <= FLT_EPSILON && std::abs(yy) <= FLT_EPSILON)
-			return 2.0f * std::atan2(x, w);
-		return std::atan2(yy, xx);
+		auto angle = std::atan2(x + z, w - y) + std::atan2(x - z, w + y);
+		return std::abs(angle) > (float)M_PI ? angle - std::copysign((float)(M_PI * 2.0), angle) : angle;
 	}
 	/**
 	 * @brief Extracts SIMD quaternion around Y axis. (In radians)
@@ -128,8 +124,10 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 	 */
 	float extractRoll() const noexcept
 	{
+		// Half sum and difference of pitch and roll stay consistent at the singularity (gimbal lock).
 		auto x = getX(), y = getY(), z = getZ(), w = getW();
-		return std::atan2(2.0f * (x * y + w * z), w * w + x * x - y * y - z * z);
+		auto angle = std::atan2(x + z, w - y) - std::atan2(x - z, w + y);
+		return std::abs(angle) > (float)M_PI ? angle - std::copysign((float)(M_PI * 2.0), angle) : angle;
 	}
 	/**
 	 * @brief Calculates SIMD quaternion euler angles. (In radians)
-- 
2.43.0


From 8655eeec7abf86bab5196736a2a89c7d3493208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 43/54] fix: binary order of AABBs ignores the far end of the
 maximum corner

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 55417a4..5160da8 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -274,7 +274,7 @@ inline const Aabb Aabb::inf = Aabb(f32x4::minusInf, f32x4::inf);
  * @param[in] a first AABB to binary compare
  * @param[in] b second AABB to binary compare
  */
-static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(&a, &b, sizeof(float3) * 2) < 0; }
+static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(&a, &b, sizeof(Aabb)) < 0; }
 
 /***********************************************************************************************************************
  * @brief Returns true if point is inside the AABB in 3D space.
-- 
2.43.0


From 67c32a0da1bd3304535bbc4a0d8a866b6f9346d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:36 +0000
Subject: [PATCH 44/54] fix: ray in the plane of a box face misses the box or
 gets a NaN distance

---
 include/math/aabb.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 5160da8..82899c0 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -319,15 +319,16 @@ static float2 raycast2I(Aabb aabb, Ray ray) noexcept
 {
 	auto t1 = (aabb.getMin() - ray.origin) * ray.getDirection();
 	auto t2 = (aabb.getMax() - ray.origin) * ray.getDirection();
-	auto tMin = select(ray.getParallel(), f32x4::minusMax, min(t1, t2));
-	auto tMax = select(ray.getParallel(), f32x4::max, max(t1, t2));
+	auto isParallel = abs(ray.getDirection()) >= f32x4(1.0e20f); // Note: Ray direction is inversed.
+	auto tMin = select(isParallel, f32x4::minusMax, min(t1, t2));
+	auto tMax = select(isParallel, f32x4::max, max(t1, t2));
 	tMin = max(tMin, tMin.swizzle<SwY, SwZ, SwX>());
 	tMin = max(tMin, tMin.swizzle<SwZ, SwX, SwY>());
 	tMax = min(tMax, tMax.swizzle<SwY, SwZ, SwX>());
 	tMax = min(tMax, tMax.swizzle<SwZ, SwX, SwY>());
 
 	auto noParallelOverlap = (ray.origin < aabb.getMin()) | (ray.origin > aabb.getMax());
-	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (ray.getParallel() & noParallelOverlap);
+	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (isParallel & noParallelOverlap);
 	noIntersection |= noIntersection.splatY();
 	noIntersection |= noIntersection.splatZ();
 
@@ -359,15 +360,16 @@ static float raycast1I(const Aabb& aabb, const Ray& ray) noexcept
 {
 	auto t1 = (aabb.getMin() - ray.origin) * ray.getDirection();
 	auto t2 = (aabb.getMax() - ray.origin) * ray.getDirection();
-	auto tMin = select(ray.getParallel(), f32x4::minusMax, min(t1, t2));
-	auto tMax = select(ray.getParallel(), f32x4::max, max(t1, t2));
+	auto isParallel = abs(ray.getDirection()) >= f32x4(1.0e20f); // Note: Ray direction is inversed.
+	auto tMin = select(isParallel, f32x4::minusMax, min(t1, t2));
+	auto tMax = select(isParallel, f32x4::max, max(t1, t2));
 	tMin = max(tMin, tMin.swizzle<SwY, SwZ, SwX>());
 	tMin = max(tMin, tMin.swizzle<SwZ, SwX, SwY>());
 	tMax = min(tMax, tMax.swizzle<SwY, SwZ, SwX>());
 	tMax = min(tMax, tMax.swizzle<SwZ, SwX, SwY>());
 
 	auto noParallelOverlap = (ray.origin < aabb.getMin()) | (ray.origin > aabb.getMax());
-	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (ray.getParallel() & noParallelOverlap);
+	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (isParallel & noParallelOverlap);
 	noIntersection |= noIntersection.splatY();
 	noIntersection |= noIntersection.splatZ();
 	return select(noIntersection, f32x4::max, tMin).getX();
-- 
2.43.0


From 414d11ce3b0d2314bab68113acae85f4ec099abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:36 +0000
Subject: [PATCH 45/54] fix: ray does not know its parallel axes unless its
 direction is set again

---
 include/math/ray.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index ef832bc..8a9933d 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -47,7 +47,8 @@ public:
 	 * @param normalize is direction vector should be normalized
 	 */
 	Ray(f32x4 origin, f32x4 direction, bool normalize = true) noexcept : 
-		direction(normalize ? normalize3(direction) : direction), origin(origin) { }
+		direction(normalize ? normalize3(direction) : direction), 
+		isParallel(abs(direction) <= f32x4(1.0e-20f)), origin(origin) { }
 	/**
 	 * @brief Creates a new empty ray structure.
 	 */
-- 
2.43.0


From ba8a70ea6058a4f73f94804fc920205a8c083b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 46/54] fix: SIMD select does not compile where there are no
 vector instructions

---
 include/math/simd/vector/float.hpp | 2 +-
 include/math/simd/vector/int.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 8d5bbd5..1e95960 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -739,7 +739,7 @@ static f32x4 select(u32x4 c, f32x4 t, f32x4 f) noexcept
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vbslq_f32(vreinterpretq_u32_s32(vshrq_n_s32(vreinterpretq_s32_u32(c.data), 31)), t.data, f.data);
 	#else
-	return f32x4(select(c.floats, t.floats, f.floats));
+	return f32x4(select(c.uints, t.floats, f.floats));
 	#endif
 }
 
diff --git a/include/math/simd/vector/int.hpp b/include/math/simd/vector/int.hpp
index b5a369d..d0c5433 100644
--- a/include/math/simd/vector/int.hpp
+++ b/include/math/simd/vector/int.hpp
@@ -759,7 +759,7 @@ static i32x4 select(u32x4 c, i32x4 t, i32x4 f) noexcept
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vbslq_s32(vreinterpretq_u32_s32(vshrq_n_s32(vreinterpretq_s32_u32(c.data), 31)), t.data, f.data);
 	#else
-	return i32x4(select(c.ints, t.ints, f.ints));
+	return i32x4(select(c.uints, t.ints, f.ints));
 	#endif
 }
 
-- 
2.43.0


From 19aafb2789623635e7ed5c6f85de5daedabdb508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 47/54] fix: SIMD vector loaded from a pointer repeats its
 first component where there are no vector instructions

---
 include/math/simd/vector/float.hpp | 2 +-
 include/math/simd/vector/int.hpp   | 2 +-
 include/math/simd/vector/uint.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 1e95960..01d803f 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -224,7 +224,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_f32(v);
 		#else
-		floats = *v;
+		floats = *((const float4*)v);
 		#endif
 	}
 	
diff --git a/include/math/simd/vector/int.hpp b/include/math/simd/vector/int.hpp
index d0c5433..6586ad0 100644
--- a/include/math/simd/vector/int.hpp
+++ b/include/math/simd/vector/int.hpp
@@ -199,7 +199,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) i32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_s32(v);
 		#else
-		ints = *v;
+		ints = *((const int4*)v);
 		#endif
 	}
 	
diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index f901f5d..364d74d 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -190,7 +190,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_u32(v);
 		#else
-		uints = *v;
+		uints = *((const uint4*)v);
 		#endif
 	}
 	
-- 
2.43.0


From 48077f69e7c8c522e88c1429e0a00211b87b69d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 48/54] fix: SIMD integer and float vectors are not converted
 into each other where there are no vector instructions

---
 include/math/simd/vector/float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 01d803f..0e1da2e 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -153,7 +153,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_u32(v.data);
 		#else
-		floats = v.floats;
+		floats = (float4)v.uints;
 		#endif
 	}
 	/**
@@ -167,7 +167,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_s32(v.data);
 		#else
-		floats = v.floats;
+		floats = (float4)v.ints;
 		#endif
 	}
 
@@ -414,7 +414,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcvtq_s32_f32(data);
 		#else
-		return i32x4((uint4)floats);
+		return i32x4((int4)floats);
 		#endif
 	}
 
-- 
2.43.0


From 7c6c5bbe2ad3552f468f461bd2ce68d4a3df6f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 49/54] fix: transpose3x3 moves the translation into W where
 there are no vector instructions

---
 include/math/simd/matrix/float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index eb77f86..0f36c61 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -389,9 +389,9 @@ static f32x4x4 transpose3x3(const f32x4x4& m) noexcept
 	#else
 	auto r = transpose((float3x3)m);
 	return f32x4x4(
-		f32x4(r.c0.x, r.c0.y, r.c0.z, m.c3.floats.x), 
-		f32x4(r.c1.x, r.c1.y, r.c1.z, m.c3.floats.y), 
-		f32x4(r.c2.x, r.c2.y, r.c2.z, m.c3.floats.z), m.c3);
+		f32x4(r.c0.x, r.c0.y, r.c0.z, 0.0f), 
+		f32x4(r.c1.x, r.c1.y, r.c1.z, 0.0f), 
+		f32x4(r.c2.x, r.c2.y, r.c2.z, 0.0f), m.c3);
 	#endif
 }
 
-- 
2.43.0


From 6f63e02f80fb69bb1151afc51c54336f094a1277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 50/54] fix: SIMD matrix is read through an unrelated type

---
 include/math/simd/matrix/float.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index 0f36c61..5fcb05a 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -121,7 +121,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 	 */
 	explicit operator float4x4() const noexcept
 	{
-		return *((const float4x4*)this);
+		return float4x4((float4)c0, (float4)c1, (float4)c2, (float4)c3);
 	}
 	/**
 	 * @brief Returns SIMD matrix as 4x3 floating point matrix.
@@ -207,7 +207,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 			result[i].data = r;
 		}
 		#else
-		result = f32x4x4((*((const float4x4*)this) * (*((const float4x4*)&m))));
+		result = f32x4x4((float4x4)*this * (float4x4)m);
 		#endif
 		return result;
 	}
@@ -230,7 +230,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 		r = vmlaq_f32(r, c3.data, vdupq_laneq_f32(v.data, 3));
 		return r;
 		#else
-		return f32x4((*((const float4x4*)this) * (*((const float4*)&v))));
+		return f32x4((float4x4)*this * (float4)v);
 		#endif
 	}
 
@@ -361,7 +361,7 @@ static f32x4x4 transpose4x4(const f32x4x4& m) noexcept
 	auto t4 = vzipq_f32(t1.val[1], t2.val[1]);
 	return f32x4x4(t3.val[0], t3.val[1], t4.val[0], t4.val[1]);
 	#else
-	return f32x4x4(transpose(*((const float4x4*)&m)));
+	return f32x4x4(transpose((float4x4)m));
 	#endif
 }
 /**
@@ -542,7 +542,7 @@ static f32x4x4 inverse4x4(const f32x4x4& m) noexcept
 	return f32x4x4(vmulq_f32(d, m0), vmulq_f32(d, m1), 
 		vmulq_f32(d, m2), vmulq_f32(d, m3));
 	#else
-	return f32x4x4(inverse(*((const float4x4*)&m)));
+	return f32x4x4(inverse((float4x4)m));
 	#endif
 }
 
-- 
2.43.0


From 911b16c8e593a47ea8299330c79ffe8388a35f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 51/54] fix: SIMD areAllTrue and its kin look at one bit of
 each byte

---
 include/math/simd/vector/uint.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 364d74d..5e1e9e0 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -657,7 +657,7 @@ static int getTrues(u32x4 v) noexcept
 static bool areAllTrue(u32x4 v) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data) == 0xFFFF;
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_set1_epi32(0xFFFFFFFF))) == 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminvq_u32(v.data) == 0xFFFFFFFFu;
 	#else
@@ -672,7 +672,7 @@ static bool areAllFalse(u32x4 v) noexcept
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
 	return _mm_testz_si128(v.data, v.data);
 	#elif defined(MATH_SIMD_SUPPORT_SSE)
-	return !_mm_movemask_epi8(v.data);
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_setzero_si128())) == 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return !vmaxvq_u32(v.data);
 	#else
@@ -687,7 +687,7 @@ static bool areAnyTrue(u32x4 v) noexcept
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
 	return !_mm_testz_si128(v.data, v.data);
 	#elif defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data);
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_setzero_si128())) != 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vmaxvq_u32(v.data);
 	#else
@@ -700,7 +700,7 @@ static bool areAnyTrue(u32x4 v) noexcept
 static bool areAnyFalse(u32x4 v) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data) != 0xFFFF;
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_set1_epi32(0xFFFFFFFF))) != 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminvq_u32(v.data) != 0xFFFFFFFFu;
 	#else
-- 
2.43.0


From 85a599a56555732e6593668172ece4b1d313187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:39 +0000
Subject: [PATCH 52/54] fix: BVH recreation reads its own freed root box

---
 source/bvh.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 53c7b58..c4aca33 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -288,6 +288,7 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 
 	RecreateGuard recreateGuard = { nodes, primitives, centroids, nodeStack, false };
 	auto primitiveCount = indexCount / Triangle::pointCount;
+	const auto rootBox = rootAabb; // Note: It can be the box of this BVH node.
 	nodes.resize(primitiveCount * 2 - 1);
 	primitives.resize(primitiveCount);
 
@@ -327,7 +328,7 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 
 	auto nodeCount = (uint32)1;
 	auto node = &nodes[0];
-	node->aabb = rootAabb;
+	node->aabb = rootBox;
 	node->setPrimitiveCount(primitiveCount);
 	node->setFirstPrimitive(0);
 
@@ -437,6 +438,7 @@ void Bvh::recreate(const Aabb* aabbs, const Aabb& rootAabb, uint32 aabbCount, co
 	assert(nodeStack.empty());
 
 	RecreateGuard recreateGuard = { nodes, primitives, centroids, nodeStack, false };
+	const auto rootBox = rootAabb; // Note: It can be the box of this BVH node.
 	nodes.resize(aabbCount * 2 - 1);
 	primitives.resize(aabbCount);
 
@@ -464,7 +466,7 @@ void Bvh::recreate(const Aabb* aabbs, const Aabb& rootAabb, uint32 aabbCount, co
 	auto nodeData = nodes.data();
 	auto nodeCount = (uint32)1;
 	auto node = &nodeData[0];
-	node->aabb = rootAabb;
+	node->aabb = rootBox;
 	node->setPrimitiveCount(aabbCount);
 	node->setFirstPrimitive(0);
 
-- 
2.43.0


From fd3620a6e3a0a571a7d9578ad79f0eabe2c42aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:59 +0000
Subject: [PATCH 53/54] fix: Spherical harmonics minimum search ends in a wrong
 extremum

The Newton iteration in shmin starts from one fixed point, so for some light
it converges to a pole or to another extremum, or oscillates, and deringing
leaves negative light or flattens more than needed. Look for the lowest of
several samples and refine it by bisection, which always ends.
---
 include/math/sh.hpp | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 42e164c..e132b21 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -253,19 +253,33 @@ static float shmin(float shw[shCoeffCount]) noexcept
 	auto minimum = m0min - 0.5f * d;
 	if (minimum < 0.0f)
 	{
-		auto dz = 0.0f;
-		auto z = (float)-M_SQRT1_2;
+		// Linear light is the weakest at z = -1, so the minimum is between z = -1 and z = 0, where z = -cos(t).
+		constexpr auto step = (float)(M_PI / 16.0);
+		auto l = 0.0f, r = step;
+		minimum = a - b + c;
 
-		do
+		for (int32 i = 1; i <= 8; i++)
 		{
-			minimum = (a * z * z + b * z + c) + (d * z * std::sqrt(1.0f - z * z));
-			dz = (z * z - 1.0f) * (d - 2.0f * d * z * z + (b + 2.0f * a * z) * std::sqrt(1.0f - z * z)) / 
-				(3.0f * d * z - 2.0f * d * z * z * z - 2.0f * a * std::pow(1.0f - z * z, 1.5f));
-			z = z - dz;
-		} while (std::abs(z) <= 1.0 && std::abs(dz) > 1e-5f);
-
-		if (std::abs(z) > 1.0f)
-			minimum = m0min - 0.5f * d; // Not converged, using lower bound.
+			auto z = -std::cos(i * step);
+			auto value = (a * z * z + b * z + c) + (d * z * std::sqrt(1.0f - z * z));
+
+			if (value < minimum)
+			{
+				minimum = value;
+				l = (i - 1) * step; r = (i + 1) * step;
+			}
+		}
+		for (int32 i = 0; i < 16; i++)
+		{
+			auto t = 0.5f * (l + r);
+			if (b * std::sin(t) - a * std::sin(2.0f * t) - d * std::cos(2.0f * t) < 0.0f)
+				l = t;
+			else
+				r = t;
+		}
+
+		auto z = -std::cos(l);
+		minimum = std::min(minimum, (a * z * z + b * z + c) + (d * z * std::sqrt(1.0f - z * z)));
 	}
 
 	return minimum;
-- 
2.43.0


From b1d5303f2dbd2aec0bfc0d32a0e2d56752b63420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:30 +0000
Subject: [PATCH 54/54] fix: BVH split cost counts primitives in an unused box
 component

---
 source/bvh.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index c4aca33..9b2efc5 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -67,8 +67,7 @@ namespace math
 	{
 		f32x4 min = f32x4::max;
 		f32x4 max = f32x4::minusMax;
-
-		int32& primitiveCount() noexcept { return max.ints.w; }
+		int32 primitiveCount = 0;
 	};
 }
 
@@ -119,7 +118,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 			auto& bin = bins[binIndex];
 			bin.min = min(min(min(bin.min, v0), v1), v2);
 			bin.max = max(max(max(bin.max, v0), v1), v2);
-			bin.primitiveCount()++;
+			bin.primitiveCount++;
 		}
 
 		float leftArea[BIN_COUNT - 1], rightArea[BIN_COUNT - 1];
@@ -130,12 +129,12 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 
 		for (int i = 0; i < BIN_COUNT - 1; i++)
 		{
-			leftSum += bins[i].primitiveCount();
+			leftSum += bins[i].primitiveCount;
 			leftCount[i] = leftSum;
 			leftMin = min(leftMin, bins[i].min);
 			leftMax = max(leftMax, bins[i].max);
 			leftArea[i] = calcArea(leftMin, leftMax);
-			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount();
+			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount;
 			rightCount[(BIN_COUNT - 2) - i] = rightSum;
 			rightMin = min(rightMin, bins[(BIN_COUNT - 1) - i].min);
 			rightMax = max(rightMax, bins[(BIN_COUNT - 1) - i].max);
@@ -193,7 +192,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 			auto& bin = bins[binIndex];
 			bin.min = min(bin.min, aabb.getMin());
 			bin.max = max(bin.max, aabb.getMax());
-			bin.primitiveCount()++;
+			bin.primitiveCount++;
 		}
 
 		// TODO: share this function part with a previous one?
@@ -205,12 +204,12 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 
 		for (int i = 0; i < BIN_COUNT - 1; i++)
 		{
-			leftSum += bins[i].primitiveCount();
+			leftSum += bins[i].primitiveCount;
 			leftCount[i] = leftSum;
 			leftMin = min(leftMin, bins[i].min);
 			leftMax = max(leftMax, bins[i].max);
 			leftArea[i] = calcArea(leftMin, leftMax);
-			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount();
+			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount;
 			rightCount[(BIN_COUNT - 2) - i] = rightSum;
 			rightMin = min(rightMin, bins[(BIN_COUNT - 1) - i].min);
 			rightMax = max(rightMax, bins[(BIN_COUNT - 1) - i].max);
-- 
2.43.0

