From 57b2584f8fcc05302602095eef3d87513857fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 001/209] fix: fm::vector destroys the elements it leaves
 behind when it re-allocates

Growing a vector of non-trivial elements copied them into the new buffer and
freed the old one without running their destructors, leaking whatever the old
copies owned.
---
 FCollada/FMath/FMArray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index 41c8859..9f7af13 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -337,6 +337,7 @@ namespace fm
 							for(size_t i = 0; i < sized; ++i)
 							{
 								fm::Construct(newValues + i, *(heapBuffer + i));
+								(*(heapBuffer + i)).~T();
 							}
 						}
 					}
-- 
2.43.0


From 2bc2b79ee358855463adf8cf3b96ced72d7f8e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 002/209] fix: inserting one of a fm::vector's own elements
 reads it before it moves

push_back/insert kept a reference into the old buffer across the re-allocation
(use after free) or the shift (wrong value).
---
 FCollada/FMath/FMArray.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index 9f7af13..349cee8 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -377,6 +377,12 @@ namespace fm
 		iterator insert(iterator it, const T& item)
 		{
 			FUAssert(it >= begin() && it <= end(), return it);
+			if (&item >= begin() && &item < end())
+			{
+				// The item is one of ours: take a copy before moving the buffer around.
+				const T copy(item);
+				return insert(it, copy);
+			}
 			if (sized == reserved)
 			{
 				size_t offset = it - begin();
-- 
2.43.0


From d8c08b2ed758bdaf94484c0691509e7c3abde3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 003/209] fix: no memcpy from a null buffer when an empty
 fm::vector is copied

---
 FCollada/FMath/FMArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index 349cee8..ab75e88 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -610,7 +610,7 @@ namespace fm
 				if constexpr (std::is_trivially_copyable_v<T>)
 				{
 					resize(rhs.size());
-					memcpy(begin(), rhs.begin(), sizeof(T) * rhs.size());
+					if (!rhs.empty()) memcpy(begin(), rhs.begin(), sizeof(T) * rhs.size());
 				}
 				else
 				{
-- 
2.43.0


From 338d523f9f613241d70794a792a66f94f8b7e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 004/209] fix: assigning a fm::pvector to itself keeps its
 contents

---
 FCollada/FMath/FMArrayPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FMath/FMArrayPointer.h b/FCollada/FMath/FMArrayPointer.h
index 2551579..a56476a 100644
--- a/FCollada/FMath/FMArrayPointer.h
+++ b/FCollada/FMath/FMArrayPointer.h
@@ -212,7 +212,7 @@ namespace fm
 			Overwrites the current data of the pointer array with the data of the given pointer array.
 			@param other The pointer array to copy.
 			@return The copied pointer array. */
-		pvector<T>& operator= (const pvector<T>& other) { clear(); insert(end(), other.begin(), other.end()); return *this; }
+		pvector<T>& operator= (const pvector<T>& other) { if (this != &other) { clear(); insert(end(), other.begin(), other.end()); } return *this; }
 
 		/** Resizes the pointer array to the given amount.
 			It is intentional that the default value is NULL.
-- 
2.43.0


From efd590e11927148ed7b45f5c1d4af244d31d242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 005/209] fix: fm::tree has a copy constructor and survives
 self-assignment

The implicit copy shared the nodes with the original (double release) and
self-assignment emptied the tree.
---
 FCollada/FMath/FMTree.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/FCollada/FMath/FMTree.h b/FCollada/FMath/FMTree.h
index b55dbeb..9d368a6 100644
--- a/FCollada/FMath/FMTree.h
+++ b/FCollada/FMath/FMTree.h
@@ -368,6 +368,15 @@ namespace fm
 			fm::Construct(root);
 		}
 
+		/** Copy constructor.
+			@param copy The tree to clone. */
+		tree(const tree<KEY, DATA>& copy) : root(NULL), sized(0)
+		{
+			root = (node*) fm::Allocate(sizeof(node));
+			fm::Construct(root);
+			(*this) = copy;
+		}
+
 		/** Destructor. */
 		~tree()
 		{
@@ -623,6 +632,7 @@ namespace fm
 			@return This tree, cloned. */
 		inline tree<KEY,DATA>& operator= (const tree<KEY,DATA>& copy)
 		{
+			if (this == &copy) return (*this);
 			clear();
 
 			// Function based on the iterator..
-- 
2.43.0


From 8d81027a94c005c425b0ade84eb7dfd9772b9964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 006/209] fix: fm::string keeps its NULL-termination and
 searches the whole string

- building from zero characters left a string without its terminator, which a
  later append(char) or back() then wrote or read out of bounds;
- resize(count, value) left the old terminator in the middle of the string;
- find/rfind never matched a character beyond 127;
- find_first_of gave up when the list of characters was longer than the string;
- find_last_of skipped characters and reported a shifted position.
---
 FCollada/FUtils/FUString.h | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/FCollada/FUtils/FUString.h b/FCollada/FUtils/FUString.h
index ed0bb4a..a0d5537 100644
--- a/FCollada/FUtils/FUString.h
+++ b/FCollada/FUtils/FUString.h
@@ -68,7 +68,7 @@ namespace fm
 				Use stringT::npos for copying full NULL-terminated strings. */
 		stringT(const CH* c, size_t length) : Parent()
 		{
-			if (c == NULL || length == 0) return;
+			if (c == NULL || length == 0) { Parent::push_back((CH) 0); return; }
 
 			if (length != npos)
 			{
@@ -109,7 +109,7 @@ namespace fm
 
 		/** Removes the last character from a string.
 			This function is NULL-termination aware. */
-		inline void pop_back() { if (Parent::size() > 0) { Parent::pop_back(); Parent::back() = 0; } }
+		inline void pop_back() { if (Parent::size() > 1) { Parent::pop_back(); Parent::back() = 0; } }
 
 		/** Retrieves whether the string contains useful data.
 			This function differs from the parent because it checks for NULL-termination.
@@ -215,7 +215,7 @@ namespace fm
 				character was not matched within the given (sub)string. */
 		size_t find(const CH& character, size_t offset=0) const
 		{
-			if (character > 0)
+			if (character != 0)
 			{
 				for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
 				{
@@ -290,7 +290,7 @@ namespace fm
 		size_t rfind(const CH& character, size_t offset=0) const
 		{
 			size_t ret = npos;
-			if (character > 0)
+			if (character != 0)
 			{
 				for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
 				{
@@ -367,7 +367,7 @@ namespace fm
 		size_t find_first_of(const CH* c, size_t offset=0) const
 		{
 			size_t length = 0; const CH* d = c; while (*d != 0) { ++length; ++d; }
-			if (length > 0 && Parent::size() >= length)
+			if (length > 0)
 			{
 				for (const CH* it = Parent::begin() + offset; it < Parent::end(); ++it)
 				{
@@ -386,21 +386,14 @@ namespace fm
 				If 'npos' is returned, none of the possible characters were found within the (sub)string. */
 		size_t find_last_of(const CH* c, size_t offset=0) const
 		{
-			size_t ret = length() - offset; // UNOPTIMIZE. Didn't feel like this is an important-enough function.
-			size_t length = 0; const CH* d = c; while (*d != 0) { ++length; ++d; }
-			if (length > 0 && Parent::size() >= length)
+			// UNOPTIMIZE. Didn't feel like this is an important-enough function.
+			if (offset >= length()) return npos;
+			for (size_t ret = length() - offset; ret > 0; --ret)
 			{
-				const CH* end = Parent::end() - (length + offset);
-				const CH* begin = Parent::begin();
-				for (const CH* it = end; it >= begin; --it)
+				const CH& candidate = *(Parent::begin() + ret - 1);
+				for (const CH* d = c; *d != 0; ++d)
 				{
-					d = c;
-					while (*d != 0)
-					{
-						if (*d == *it) return ret;
-						++d;
-					}
-					--ret;
+					if (*d == candidate) return ret - 1;
 				}
 			}
 			return npos;
@@ -445,8 +438,9 @@ namespace fm
 			@param value The value to assign to the new entries in the list. */
 		void resize(size_t count, const CH& value)
 		{
-			Parent::resize(count + 1, value);
-			Parent::back() = 0; // NULL-terminate
+			if (Parent::size() > 0) Parent::pop_back(); // Replace the previous NULL-termination as well.
+			Parent::resize(count, value);
+			Parent::push_back((CH) 0); // NULL-terminate
 		}
 	};
 
-- 
2.43.0


From 2e5141add16ad95f23bfb1d3b7277b716b2b9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 007/209] fix: FUStringBuilder writes 64-bit integers and NaN
 as documented and searches within its content

- append(uint64)/append(long) truncated the value to 32 bits;
- NaN was written as 'nan' (the comparison with quiet_NaN is always true);
- index() read one character past the content and rindex() skipped the first;
- append(buffer, length) counted bytes, not characters;
- no memcpy from a null buffer.
---
 FCollada/FUtils/FUStringBuilder.cpp |  4 ++--
 FCollada/FUtils/FUStringBuilder.h   |  2 +-
 FCollada/FUtils/FUStringBuilder.hpp | 16 ++++++++--------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/FCollada/FUtils/FUStringBuilder.cpp b/FCollada/FUtils/FUStringBuilder.cpp
index 8904f5e..b677004 100644
--- a/FCollada/FUtils/FUStringBuilder.cpp
+++ b/FCollada/FUtils/FUStringBuilder.cpp
@@ -41,7 +41,7 @@ template<> void FUStringBuilder::append(uint32 i)
 template<> void FUStringBuilder::append(uint64 i)
 {
 	fchar sz[128];
-	fsnprintf(sz, 128, FC("%u"), (unsigned int) i);
+	fsnprintf(sz, 128, FC("%llu"), (unsigned long long) i);
 	append(sz);
 }
 
@@ -68,7 +68,7 @@ template<> void FUSStringBuilder::append(uint32 i)
 template<> void FUSStringBuilder::append(uint64 i)
 {
 	char sz[128];
-	snprintf(sz, 128, "%u", (unsigned int) i);
+	snprintf(sz, 128, "%llu", (unsigned long long) i);
 	append(sz);
 }
 
diff --git a/FCollada/FUtils/FUStringBuilder.h b/FCollada/FUtils/FUStringBuilder.h
index b7be595..49e06c7 100644
--- a/FCollada/FUtils/FUStringBuilder.h
+++ b/FCollada/FUtils/FUStringBuilder.h
@@ -139,7 +139,7 @@ public:
 #if defined(__APPLE__) || defined(__OpenBSD__)
 	inline void append(unsigned long i) { append((uint32) i); } /**< See above. */
 #endif
-	inline void append(long i) { append((int32) i); } /**< See above. */
+	inline void append(long i) { if (i < 0) append((Char) '-'); append((i < 0) ? (uint64) 0 - (uint64) i : (uint64) i); } /**< See above. */
 #endif // platform-switch.
 
 	/** Appends the floating-point value, after converting it to a string,
diff --git a/FCollada/FUtils/FUStringBuilder.hpp b/FCollada/FUtils/FUStringBuilder.hpp
index 2a21779..21c1909 100644
--- a/FCollada/FUtils/FUStringBuilder.hpp
+++ b/FCollada/FUtils/FUStringBuilder.hpp
@@ -138,7 +138,7 @@ void FUStringBuilderT<Char>::reserve(size_t _length)
 	if (_length > reserved)
 	{
 		Char* b = new Char[_length];
-		memcpy(b, buffer, size * sizeof(Char));
+		if (size > 0) memcpy(b, buffer, size * sizeof(Char));
 		SAFE_DELETE_ARRAY(buffer);
 		buffer = b;
 		reserved = _length;
@@ -191,7 +191,7 @@ void FUStringBuilderT<Char>::append(const Char* sz, size_t len)
 	{
 		enlarge(max((size_t)64, size + len + 1));
 	}
-	memcpy(buffer + size, sz, len);
+	memcpy(buffer + size, sz, len * sizeof(Char));
 	size += len;
 }
 
@@ -200,7 +200,7 @@ template <class Char>
 void FUStringBuilderT<Char>::append(const FUStringBuilderT& b)
 {
 	if (size + b.size >= reserved) enlarge(64 + size + b.size - reserved);
-	memcpy(buffer + size, b.buffer, b.size * sizeof(Char));
+	if (b.size > 0) memcpy(buffer + size, b.buffer, b.size * sizeof(Char));
 	size += b.size;
 }
 
@@ -211,7 +211,7 @@ void FUStringBuilderT<Char>::append(float f)
 	// use <float.h> _isnan method to detect the 1.#IND00 NaN.
 	if (f != std::numeric_limits<float>::infinity() && f != -std::numeric_limits<float>::infinity() && f != std::numeric_limits<float>::quiet_NaN() && f != std::numeric_limits<float>::signaling_NaN() && !_isnan((double)f))
 #else
-	if (f != std::numeric_limits<float>::infinity() && f != -std::numeric_limits<float>::infinity() && f != std::numeric_limits<float>::quiet_NaN() && f != std::numeric_limits<float>::signaling_NaN())
+	if (f != std::numeric_limits<float>::infinity() && f != -std::numeric_limits<float>::infinity() && f == f)
 #endif
 	{
 		if (IsEquivalent(f, 0.0f, std::numeric_limits<float>::epsilon())) append((Char)'0');
@@ -237,7 +237,7 @@ void FUStringBuilderT<Char>::append(double f)
 	// use <float.h> _isnan method to detect the .#IND00 NaN.
 	if (f != std::numeric_limits<float>::infinity() && f != -std::numeric_limits<float>::infinity() && f != std::numeric_limits<float>::quiet_NaN() && f != std::numeric_limits<float>::signaling_NaN() && !_isnan(f))
 #else
-	if (f != std::numeric_limits<float>::infinity() && f != -std::numeric_limits<float>::infinity() && f != std::numeric_limits<float>::quiet_NaN() && f != std::numeric_limits<float>::signaling_NaN())
+	if (f != std::numeric_limits<float>::infinity() && f != -std::numeric_limits<float>::infinity() && f == f)
 #endif
 	{
 		if (IsEquivalent(f, 0.0, std::numeric_limits<double>::epsilon())) append((Char)'0');
@@ -339,7 +339,7 @@ int32 FUStringBuilderT<Char>::index(Char c) const
 {
 	if (buffer != NULL && size > 0)
 	{
-		const Char* end = buffer + size + 1;
+		const Char* end = buffer + size;
 		for (const Char* p = buffer; p != end; ++p)
 		{
 			if (*p == c) return (int32)(p - buffer);
@@ -353,9 +353,9 @@ int32 FUStringBuilderT<Char>::rindex(Char c) const
 {
 	if (buffer != NULL && size > 0)
 	{
-		for (const Char* p = buffer + size - 1; p != buffer; --p)
+		for (const Char* p = buffer + size; p != buffer; --p)
 		{
-			if (*p == c) return (int32)(p - buffer);
+			if (*(p - 1) == c) return (int32)(p - 1 - buffer);
 		}
 	}
 	return -1;
-- 
2.43.0


From d0b66ec0539f750a2c658835edcfcdaeb17b97ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 008/209] fix: FUStringConversion parses INF, signs, overflow
 and missing text without wrong values or over-reads

---
 FCollada/FUtils/FUStringConversion.cpp |  4 +-
 FCollada/FUtils/FUStringConversion.hpp | 75 +++++++++++++++-----------
 2 files changed, 45 insertions(+), 34 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.cpp b/FCollada/FUtils/FUStringConversion.cpp
index 0613f0e..64bcb4a 100644
--- a/FCollada/FUtils/FUStringConversion.cpp
+++ b/FCollada/FUtils/FUStringConversion.cpp
@@ -117,7 +117,7 @@ void FUStringConversion::ToFStringList(const fstring& value, FStringList& array)
 		// Find next white space
 		while ((c = *s) != 0 && c != ' ' && c != '\t' && c != '\r' && c != '\n') { ++s; }
 
-		if (index < array.size()) array[index++].append(word, s - word);
+		if (index < array.size()) array[index++] = fstring(word, s - word);
 		else { array.push_back(fstring(word, s - word)); ++index; }
 
 		// Skip all white spaces
@@ -140,7 +140,7 @@ void FUStringConversion::ToStringList(const char* s, StringList& array)
 		// Find next white space
 		while ((c = *s) != 0 && c != ' ' && c != '\t' && c != '\r' && c != '\n') { ++s; }
 
-		if (index < array.size()) array[index++].append(word, s - word);
+		if (index < array.size()) array[index++] = fm::string(word, s - word);
 		else { array.push_back(fm::string(word, s - word)); ++index; }
 
 		// Skip all white spaces
diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 576bec5..be7af2e 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -35,9 +35,10 @@ FCOLLADA_EXPORT int32 FUStringConversion::ToInt32(const CH** value)
 	CH c;
 	while ((c = *s) != 0 && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) { ++s; }
 
-	int32 val = 0;
-	int32 sign = 1;
-	if (*s == '-') { ++s; sign = -1; }
+	uint32 val = 0; // unsigned, so that numbers too large wrap around.
+	bool negative = false;
+	if (*s == '-') { ++s; negative = true; }
+	else if (*s == '+') ++s;
 
 	while ((c = *s) != 0)
 	{
@@ -45,11 +46,11 @@ FCOLLADA_EXPORT int32 FUStringConversion::ToInt32(const CH** value)
 		else break;
 		++s;
 	}
-	val *= sign;
-	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\n')) s++;
-	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\n')) s++;
+	if (negative) val = 0 - val;
+	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\r' && c != '\n')) s++;
+	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) s++;
 	*value = s;
-	return val;
+	return (int32) val;
 }
 
 // Convert a fstring to a float and advance the character pointer
@@ -67,7 +68,8 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 	double val = 0.0;
 	float sign = 1.0;
 	if (*s == '-') { ++s; sign = -1.0; }
-	float decimals = 0.0;
+	else if (*s == '+') ++s;
+	double decimals = 0.0;
 	int32 exponent = 0;
 	bool infinity = false;
 	bool nonValidFound = false;
@@ -87,7 +89,7 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 		case '8': val = val * 10.0 + 8.0; decimals *= 10.0; break;
 		case '9': val = val * 10.0 + 9.0; decimals *= 10.0; break;
 		case 'e':
-		case 'E': ++s; exponent = ToInt32(&s); s -= 2; nonValidFound = true; break;
+		case 'E': { const CH* e = s + 1; exponent = ToInt32(&e); nonValidFound = true; break; }
 		case 'I': infinity = true; [[fallthrough]];
 		default: nonValidFound = true; --s; break;
 		}
@@ -97,20 +99,8 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 	float out = 0.0f;
 	if (infinity) // test for infinity
 	{
-		infinity = false;
-		c = *(s++);
-		if (c != 'I') infinity = false;
-		else
-		{
-			c = *(s++);
-			if (c != 'N') infinity = false;
-			else
-			{
-				c = *(s++);
-				if (c != 'F') infinity = false;
-				else out = std::numeric_limits<float>::infinity() * ((float) sign);
-			}
-		}
+		infinity = (*s == 'I' && *(s + 1) == 'N' && *(s + 2) == 'F');
+		if (infinity) out = std::numeric_limits<float>::infinity() * ((float) sign);
 	}
 	if (!infinity)
 	{
@@ -147,8 +137,8 @@ FCOLLADA_EXPORT uint32 FUStringConversion::ToUInt32(const CH** value)
 		++s;
 	}
 
-	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\n')) s++;
-	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\n')) s++;
+	while ((c = *s) != '\0' && (c != ' ' && c != '\t' && c != '\r' && c != '\n')) s++;
+	while ((c = *s) != '\0' && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) s++;
 	*value = s;
 	return val;
 }
@@ -214,7 +204,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToDateTime(const CH* value, FUDateTime&
 template<class CH>
 FCOLLADA_EXPORT FMVector2 FUStringConversion::ToVector2(const CH** value)
 {
-	FMVector2 p;
+	FMVector2 p(FMVector2::Zero);
 	if (value != NULL && *value != NULL && **value != 0)
 	{
 		p.x = ToFloat(value);
@@ -226,7 +216,7 @@ FCOLLADA_EXPORT FMVector2 FUStringConversion::ToVector2(const CH** value)
 template<class CH>
 FCOLLADA_EXPORT FMVector3 FUStringConversion::ToVector3(const CH** value)
 {
-	FMVector3 p;
+	FMVector3 p(FMVector3::Zero);
 	if (value != NULL && *value != NULL && **value != 0)
 	{
 		p.x = ToFloat(value);
@@ -239,7 +229,7 @@ FCOLLADA_EXPORT FMVector3 FUStringConversion::ToVector3(const CH** value)
 template<class CH>
 FCOLLADA_EXPORT FMVector4 FUStringConversion::ToVector4(const CH** value)
 {
-	FMVector4 p;
+	FMVector4 p(FMVector4::Zero);
 	if (value != NULL && *value != NULL && **value != 0)
 	{
 		p.x = ToFloat(value);
@@ -284,7 +274,7 @@ template <class CH>
 FCOLLADA_EXPORT size_t FUStringConversion::CountValues(const CH* sz)
 {
 	size_t count = 0;
-	if (sz != NULL && *sz > 0)
+	if (sz != NULL)
 	{
 		while (*sz != 0)
 		{
@@ -306,8 +296,9 @@ template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToBooleanList(const CH* value, BooleanList& array)
 {
 	const CH* s = value;
-	CH c = *s;
+	CH c;
 	array.clear();
+	if (s == NULL) return;
 
 	// Start by eating all the white spaces.
 	while ((c = *s) != 0 && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) { ++s; }
@@ -390,7 +381,17 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedFloatList(const CH* value,
 	size_t validCount = 0;
 	if (value != NULL && *value != 0 && stride > 0)
 	{
-		size_t length = arrays[0]->size();
+		// Overwrite the values which all the provided arrays have in common.
+		size_t length = ~(size_t) 0;
+		for (size_t i = 0; i < stride; ++i)
+		{
+			if (arrays[i] != NULL) length = min(length, arrays[i]->size());
+		}
+		if (length == ~(size_t) 0) length = 0;
+		for (size_t i = 0; i < stride; ++i)
+		{
+			if (arrays[i] != NULL) arrays[i]->resize(length);
+		}
 		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
 		{
 			for (size_t i = 0; i < stride && *value != 0; ++i)
@@ -439,7 +440,17 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedUInt32List(const CH* value
 	size_t validCount = 0;
 	if (value != NULL && *value != 0 && stride > 0)
 	{
-		size_t length = arrays[0]->size();
+		// Overwrite the values which all the provided arrays have in common.
+		size_t length = ~(size_t) 0;
+		for (size_t i = 0; i < stride; ++i)
+		{
+			if (arrays[i] != NULL) length = min(length, arrays[i]->size());
+		}
+		if (length == ~(size_t) 0) length = 0;
+		for (size_t i = 0; i < stride; ++i)
+		{
+			if (arrays[i] != NULL) arrays[i]->resize(length);
+		}
 		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
 		{
 			for (size_t i = 0; i < stride && *value != 0; ++i)
-- 
2.43.0


From 5168bf9eff3fef4d9e101efe044730eb23835174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 009/209] fix: text lists skip leading whitespace, drop partial
 tuples, and scale exponents in double precision

---
 FCollada/FUtils/FUStringConversion.hpp | 38 +++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index be7af2e..a73dcf5 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -21,7 +21,9 @@
 template<class CH>
 FCOLLADA_EXPORT bool FUStringConversion::ToBoolean(const CH* value)
 {
-	return value != NULL && *value != 0 && *value != '0' && *value != 'f' && *value != 'F';
+	if (value == NULL) return false;
+	while (*value == ' ' || *value == '\t' || *value == '\r' || *value == '\n') ++value;
+	return *value != 0 && *value != '0' && *value != 'f' && *value != 'F';
 }
 
 // Convert a fstring to a int32 and advance the character pointer
@@ -106,8 +108,9 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 	{
 		// Generate the value
 		if (decimals == 0.0) decimals = 1.0;
-		out = (float) (val * sign / decimals);
-		if (exponent != 0) out *= powf(10.0f, (float) exponent);
+		val = val * sign / decimals;
+		if (exponent != 0 && val != 0.0) val *= pow(10.0, (double) exponent);
+		out = (float) val;
 	}
 
 	// Find next whitespaces and Skip end whitespaces
@@ -292,6 +295,14 @@ FCOLLADA_EXPORT size_t FUStringConversion::CountValues(const CH* sz)
 
 #ifdef HAS_VECTORTYPES
 
+// Skips leading whitespace: it does not start a value.
+template <class CH>
+inline const CH* FUSkipSpaces(const CH* s)
+{
+	while (s != NULL && (*s == ' ' || *s == '\t' || *s == '\r' || *s == '\n')) ++s;
+	return s;
+}
+
 template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToBooleanList(const CH* value, BooleanList& array)
 {
@@ -320,6 +331,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToBooleanList(const CH* value, BooleanL
 template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToInt32List(const CH* value, Int32List& array)
 {
+	value = FUSkipSpaces(value);
 	size_t length = 0;
 	if (value != NULL && *value != 0)
 	{
@@ -339,6 +351,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToInt32List(const CH* value, Int32List&
 template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToUInt32List(const CH* value, UInt32List& array)
 {
+	value = FUSkipSpaces(value);
 	size_t length = 0;
 	if (value != NULL && *value != 0)
 	{
@@ -358,6 +371,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToUInt32List(const CH* value, UInt32Lis
 template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToFloatList(const CH* value, FloatList& array)
 {
+	value = FUSkipSpaces(value);
 	size_t length = 0;
 	if (value != NULL && *value != 0)
 	{
@@ -377,6 +391,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToFloatList(const CH* value, FloatList&
 template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToInterleavedFloatList(const CH* value, fm::pvector<FloatList>& arrays)
 {
+	value = FUSkipSpaces(value);
 	size_t stride = arrays.size();
 	size_t validCount = 0;
 	if (value != NULL && *value != 0 && stride > 0)
@@ -392,14 +407,16 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedFloatList(const CH* value,
 		{
 			if (arrays[i] != NULL) arrays[i]->resize(length);
 		}
-		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
+		for (size_t count = 0; count < length && *value != 0; ++count)
 		{
-			for (size_t i = 0; i < stride && *value != 0; ++i)
+			size_t i = 0;
+			for (; i < stride && *value != 0; ++i)
 			{
 				FloatList* array = arrays[i];
 				if (array != NULL) array->at(count) = ToFloat(&value);
 				else ToFloat(&value);
 			}
+			if (i == stride) ++validCount;
 		}
 
 		if (*value != 0)
@@ -436,6 +453,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedFloatList(const CH* value,
 template <class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToInterleavedUInt32List(const CH* value, fm::pvector<UInt32List>& arrays)
 {
+	value = FUSkipSpaces(value);
 	size_t stride = arrays.size();
 	size_t validCount = 0;
 	if (value != NULL && *value != 0 && stride > 0)
@@ -451,14 +469,16 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedUInt32List(const CH* value
 		{
 			if (arrays[i] != NULL) arrays[i]->resize(length);
 		}
-		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
+		for (size_t count = 0; count < length && *value != 0; ++count)
 		{
-			for (size_t i = 0; i < stride && *value != 0; ++i)
+			size_t i = 0;
+			for (; i < stride && *value != 0; ++i)
 			{
 				UInt32List* array = arrays[i];
 				if (array != NULL) array->at(count) = ToUInt32(&value);
 				else ToUInt32(&value);
 			}
+			if (i == stride) ++validCount;
 		}
 
 		if (*value != 0)
@@ -496,6 +516,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedUInt32List(const CH* value
 template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToMatrixList(const CH* value, FMMatrix44List& array)
 {
+	value = FUSkipSpaces(value);
 	size_t count = 0;
 	if (value != NULL && *value != 0)
 	{
@@ -518,6 +539,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToMatrixList(const CH* value, FMMatrix4
 template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToVector2List(const CH* value, FMVector2List& array)
 {
+	value = FUSkipSpaces(value);
 	size_t count = 0;
 	if (value != NULL && *value != 0)
 	{
@@ -535,6 +557,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToVector2List(const CH* value, FMVector
 template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToVector3List(const CH* value, FMVector3List& array)
 {
+	value = FUSkipSpaces(value);
 	size_t count = 0;
 	if (value != NULL && *value != 0)
 	{
@@ -552,6 +575,7 @@ FCOLLADA_EXPORT void FUStringConversion::ToVector3List(const CH* value, FMVector
 template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToVector4List(const CH* value, FMVector4List& array)
 {
+	value = FUSkipSpaces(value);
 	size_t count = 0;
 	if (value != NULL && *value != 0)
 	{
-- 
2.43.0


From 2577862687b5ecb14f4d133ae6fdc9b45c7ba7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 010/209] fix: FUUri and FUFileManager handle queries,
 one-letter files, composed URIs, long paths and other servers

---
 FCollada/FUtils/FUFileManager.cpp | 35 +++++++-----------
 FCollada/FUtils/FUUri.cpp         | 60 ++++++++++++++++---------------
 2 files changed, 44 insertions(+), 51 deletions(-)

diff --git a/FCollada/FUtils/FUFileManager.cpp b/FCollada/FUtils/FUFileManager.cpp
index 3e3955b..a2619f1 100644
--- a/FCollada/FUtils/FUFileManager.cpp
+++ b/FCollada/FUtils/FUFileManager.cpp
@@ -255,33 +255,22 @@ bool FUFileManager::FileExists(const fstring& filename)
 // Strip a full filename of its filename, returning the path
 fstring FUFileManager::StripFileFromPath(const fstring& filename)
 {
-	fchar fullPath[MAX_PATH + 1];
-	fstrncpy(fullPath, filename.c_str(), MAX_PATH);
-	fullPath[MAX_PATH] = 0;
-	fchar* lastSlash = fstrrchr(fullPath, FC('/'));
-	fchar* lastBackslash = fstrrchr(fullPath, FC('\\'));
-	lastSlash = max(lastSlash, lastBackslash);
-	if (lastSlash != NULL) *(lastSlash + 1) = 0;
-	return fstring(fullPath);
+	size_t lastSlash = filename.find_last_of(FC("/\\"));
+	return (lastSlash != fstring::npos) ? filename.substr(0, lastSlash + 1) : filename;
 }
 
 // Extract the file extension out of a filename
 fstring FUFileManager::GetFileExtension(const fstring& _filename)
 {
-	fchar filename[MAX_PATH];
-	fstrncpy(filename, _filename.c_str(), MAX_PATH);
-	filename[MAX_PATH - 1] = 0;
+	size_t lastPeriod = _filename.find_last_of(FC("."));
+	if (lastPeriod == fstring::npos) return emptyFString;
 
-	fchar* lastPeriod = fstrrchr(filename, '.');
-	if (lastPeriod == NULL) return emptyFString;
+	size_t lastSlash = _filename.find_last_of(FC("/\\"));
+	if (lastSlash != fstring::npos && lastSlash > lastPeriod) return emptyFString;
 
-	fchar* lastSlash = fstrrchr(filename, '/');
-	fchar* lastBackslash = fstrrchr(filename, '\\');
-	lastSlash = max(lastSlash, lastBackslash);
-	if (lastSlash > lastPeriod) return emptyFString;
-
-	fstrlower(lastPeriod + 1);	// [claforte] Untested on __PPU__, refer to definition of fstrlower.
-	return fstring(lastPeriod + 1);
+	fstring extension = _filename.substr(lastPeriod + 1);
+	if (!extension.empty()) fstrlower(extension.begin());	// [claforte] Untested on __PPU__, refer to definition of fstrlower.
+	return extension;
 }
 
 fstring FUFileManager::CleanUri(const FUUri& uri)
@@ -382,7 +371,7 @@ fstring FUFileManager::GetApplicationFolderName()
 	char path[1024];
 	char path2[1024];
 	struct stat stat_buf;
-	strncpy(path2, "/proc/self/exe", 1023);
+	strncpy(path2, "/proc/self/exe", 1024);
 	while (1)
 	{
 		size_t size = readlink(path2, path, 1023);
@@ -393,11 +382,11 @@ fstring FUFileManager::GetApplicationFolderName()
 		}
 		else
 		{
-			path[max((size_t)1023u, size)] = '\0';
+			path[min((size_t)1023u, size)] = '\0';
 			int i = stat (path, &stat_buf);
 			if (i == -1) break;
 			else if (!S_ISLNK(stat_buf.st_mode)) break;
-			strncpy(path, path2, 1024);
+			strncpy(path2, path, 1024);
 		}
 	}
 	//"path" should have the application folder path in it.
diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index 69d8b04..ff1b64c 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -188,7 +188,9 @@ FUUri::FUUri(const fstring& uri, bool escape)
 	size_t queryDelimiter = _uri.find(FC('?'));
 	size_t fragmentDelimiter = _uri.find(FC('#'));
 
-	if (queryDelimiter != fstring::npos) query = _uri.substr(queryDelimiter + 1, fragmentDelimiter - queryDelimiter);
+	if (queryDelimiter > fragmentDelimiter) queryDelimiter = fstring::npos; // A '?' within the fragment.
+
+	if (queryDelimiter != fstring::npos) query = (fragmentDelimiter != fstring::npos) ? _uri.substr(queryDelimiter + 1, fragmentDelimiter - queryDelimiter - 1) : _uri.substr(queryDelimiter + 1);
 	if (fragmentDelimiter != fstring::npos) fragment = _uri.substr(fragmentDelimiter + 1);
 
 	if (queryDelimiter == fstring::npos && fragmentDelimiter == fstring::npos)
@@ -207,7 +209,7 @@ FUUri::FUUri(const fstring& uri, bool escape)
 	if (path.size() > 1 && path[1] == '|') path[1] = ':';
 	else if (path.size() > 2 && path[2] == '|') path[2] = ':';
 
-	if (!IsFile())
+	if (path.empty())
 	{
 		path.append(FC("/"));
 	}
@@ -215,6 +217,7 @@ FUUri::FUUri(const fstring& uri, bool escape)
 
 FUUri::FUUri(Scheme _scheme, const fstring& _user, const fstring& _passwd, const fstring& _host, uint32 _port, const fstring& _path, const fstring& _query, const fstring& _fragment)
 	:	scheme(_scheme),
+		schemeDelimiter(_scheme != NONE ? FC("://") : FC("")),
 		username(_user),
 		password(_passwd),
 		hostname(_host),
@@ -229,6 +232,7 @@ FUUri::FUUri(Scheme _scheme, const fstring& _user, const fstring& _passwd, const
 
 FUUri::FUUri(Scheme _scheme, const fstring& _host, const fstring& _path, const fstring& _fragment)
 	:	scheme(_scheme),
+		schemeDelimiter(_scheme != NONE ? FC("://") : FC("")),
 		hostname(_host),
 		port(0),
 		path(_path),
@@ -240,6 +244,7 @@ FUUri::FUUri(Scheme _scheme, const fstring& _host, const fstring& _path, const f
 
 FUUri::FUUri(const fstring& _path, const fstring& _fragment)
 	:	scheme(FUUri::FILE),
+		schemeDelimiter(FC("://")),
 		port(0),
 		path(_path),
 		fragment(_fragment)
@@ -445,6 +450,11 @@ fstring FUUri::MakeRelative(const fstring& _path) const
 		// First ensure that we have an absolute file path
 		filePath = MakeAbsolute(filePath);
 		FUUri uri(filePath);
+		if (GetScheme() != FUUri::NONE && uri.GetScheme() != FUUri::NONE && (uri.GetScheme() != GetScheme() || uri.GetPort() != GetPort()))
+		{
+			// Not on the same server, so we use the absolute path
+			return _path;
+		}
 		uri.scheme = GetScheme();
 
 		filePath = uri.GetPath();
@@ -459,10 +469,11 @@ fstring FUUri::MakeRelative(const fstring& _path) const
 		FStringList documentPaths, localPaths;
 		ExtractPathStack(path, documentPaths, false);
 		ExtractPathStack(filePath, localPaths, true);
+		if (localPaths.empty()) return _path;
 
 		if (GetHostname().empty() && GetScheme() == uri.GetScheme() && GetScheme() == FUUri::FILE)
 		{
-			if (!IsEquivalent(documentPaths.front(), localPaths.front()))
+			if (documentPaths.empty() || !IsEquivalent(documentPaths.front(), localPaths.front()))
 			{
 				// We're not on the same drive, return absolute path
 				return _path;
@@ -579,10 +590,10 @@ void FUUri::MakeAbsolute(FUUri& uri) const
 		}
 	}
 
-	if (scheme == HTTP)
+	if (scheme == HTTP || scheme == HTTPS || scheme == FTP)
 	{
 		// path is already absolute.
-		if (filePath[0] == '/')
+		if (!filePath.empty() && filePath[0] == '/')
 		{
 			return;
 		}
@@ -628,7 +639,7 @@ FUUri FUUri::Resolve(const fstring& relativePath) const
 
 bool FUUri::IsFile() const
 {
-	return path.length() > 1 && path.back() != '/';
+	return !path.empty() && path.back() != '/';
 }
 
 bool FUUri::IsAlpha(fchar fc)
@@ -664,36 +675,29 @@ bool FUUri::IsReserved(fchar fc)
 
 fstring FUUri::Escape(const fstring& path)
 {
-	fstring escaped;
+	FUStringBuilder escaped;
 
-	for (fstring::const_iterator it = path.begin(); it != path.end(); ++it)
+	for (const fchar* c = path.c_str(); *c != 0; ++c)
 	{
-		if (IsAlphaNumeric(*it) || IsMark(*it) || IsReserved(*it))
+		if (IsAlphaNumeric(*c) || IsMark(*c) || IsReserved(*c) || *c == '#')
 		{
-			// Character it not escaped
-			escaped.push_back(*it);
+			// Character is not escaped
+			escaped.append(*c);
 		}
-
-		if ((*it) == '%')
+		else if (*c == '%' && IsHex(c[1]) && IsHex(c[2]))
 		{
-			// Check if it is followed by an hex character
-			fstring::const_iterator itNext = it;
-			itNext++;
-
-			if (IsHex(*itNext))
-			{
-				// Character it not escaped
-				escaped.push_back(*it);
-			}
+			// Character is already escaped
+			escaped.append(*c);
+		}
+		else
+		{
+			// Escape current character
+			escaped.append((fchar) '%');
+			escaped.appendHex((uint8) *c);
 		}
-
-		// Escape current character
-		fstring _escaped = TO_FSTRING(FUStringConversion::ToString(int(*it)));
-		escaped.push_back(FC('%'));
-		escaped.append(_escaped.c_str());
 	}
 
-	return escaped;
+	return escaped.ToString();
 }
 
 // For a relative path, extract the list of the individual paths that must be traversed to get to the file.
-- 
2.43.0


From 352222fba719daeafd6a986d3f525702b7bc7ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 011/209] fix: FUUri::MakeRelative keeps the server of files
 that share no folder with the base

---
 FCollada/FUtils/FUUri.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index ff1b64c..a4d4823 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -532,6 +532,11 @@ fstring FUUri::MakeRelative(const fstring& _path) const
 
 			filePath = relativePath + filename;
 		}
+		else if (!GetHostname().empty())
+		{
+			// Nothing in common but the server: a path alone would lose it.
+			return uri.GetAbsolutePath();
+		}
 	}
 
 	filePath.replace(UNWANTED_FOLDER_CHAR, FOLDER_CHAR);
-- 
2.43.0


From ced4a63ca0bcfeddb5085064991d4028101f6869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 012/209] fix: text with percent signs, control characters or
 invalid UTF-8 survives XML export and import

---
 FCollada/FUtils/FUXmlParser.cpp               |  9 +--
 FCollada/FUtils/FUXmlWriter.cpp               | 55 ++++++++++++++++++-
 FCollada/FUtils/FUXmlWriter.h                 |  6 ++
 .../FArchiveXML/FAXEntityExport.cpp           |  2 +-
 .../FArchiveXML/FAXEntityImport.cpp           |  4 +-
 .../FArchiveXML/FAXInstanceImport.cpp         |  2 +-
 .../FArchiveXML/FAXMaterialExport.cpp         |  4 +-
 .../FArchiveXML/FAXMaterialImport.cpp         |  4 +-
 8 files changed, 73 insertions(+), 13 deletions(-)

diff --git a/FCollada/FUtils/FUXmlParser.cpp b/FCollada/FUtils/FUXmlParser.cpp
index 2080550..87a732b 100644
--- a/FCollada/FUtils/FUXmlParser.cpp
+++ b/FCollada/FUtils/FUXmlParser.cpp
@@ -27,16 +27,17 @@ namespace FUXmlParser
 		char c;
 		while ((c = *s) != 0)
 		{
-			if (c != '%')
+			if (c != '%' || !isxdigit((uint8) s[1]) || !isxdigit((uint8) s[2]))
 			{
 				xmlSBuilder.append(c);
 				++s;
 			}
 			else
 			{
-				++s; // skip the '%' character
-				uint32 value = FUStringConversion::HexToUInt32(&s, 2);
-				xmlSBuilder.append((char) value);
+				char hex[3] = { s[1], s[2], 0 };
+				const char* h = hex;
+				xmlSBuilder.append((char) FUStringConversion::HexToUInt32(&h, 2));
+				s += 3;
 			}
 		}
 		return xmlSBuilder.ToString();
diff --git a/FCollada/FUtils/FUXmlWriter.cpp b/FCollada/FUtils/FUXmlWriter.cpp
index a8282ee..af9c446 100644
--- a/FCollada/FUtils/FUXmlWriter.cpp
+++ b/FCollada/FUtils/FUXmlWriter.cpp
@@ -56,6 +56,35 @@ static const bool xmlValidityTable[256] =
 
 namespace FUXmlWriter
 {
+	// Returns whether this text is valid UTF-8, and uses only the characters that XML allows.
+	static bool IsXmlText(const char* str)
+	{
+		while (*str != 0)
+		{
+			uint8 lead = (uint8) *str++;
+			if (lead < 0x80) continue;
+
+			uint32 extra = (lead >= 0xF0) ? 3 : (lead >= 0xE0) ? 2 : 1;
+			if (lead < 0xC2 || lead > 0xF4) return false;
+			uint32 code = lead & (0x3F >> extra);
+			for (uint32 i = 0; i < extra; ++i, ++str)
+			{
+				if (((uint8) *str & 0xC0) != 0x80) return false;
+				code = (code << 6) | ((uint8) *str & 0x3F);
+			}
+
+			static const uint32 smallest[4] = { 0, 0x80, 0x800, 0x10000 };
+			if (code < smallest[extra] || code > 0x10FFFF) return false;
+			if ((code >= 0xD800 && code <= 0xDFFF) || code == 0xFFFE || code == 0xFFFF) return false;
+		}
+		return true;
+	}
+
+	// Returns whether the reader would take this text for a %XX escape sequence.
+	static inline bool IsEscapeSequence(const char* str)
+	{
+		return str[0] == '%' && isxdigit((uint8) str[1]) && isxdigit((uint8) str[2]);
+	}
 
 	// Create a new XML tree node
 	xmlNode* CreateNode(const char* name)
@@ -143,7 +172,7 @@ namespace FUXmlWriter
 			for (; (c = *str) != 0; ++str)
 			{
 				// For performance reason, use a look-up table.
-				if (xmlValidityTable[(uint8) c])
+				if (xmlValidityTable[(uint8) c] && !IsEscapeSequence(str))
 				{
 					// Valid characters
 					xmlSBuilder.append(c);
@@ -195,10 +224,32 @@ namespace FUXmlWriter
 	{
 		if (node != NULL)
 		{
-			xmlNewProp(node, xcT(attributeName), xcT(value));
+			// Escape what an XML attribute cannot hold, and what the reader would otherwise un-escape.
+			FUSStringBuilder xmlSBuilder;
+			bool isUtf8 = value != NULL && IsXmlText(value);
+			for (const char* str = value; str != NULL && *str != 0; ++str)
+			{
+				uint8 c = (uint8) *str;
+				bool valid = (c >= 32 && c < 127) || c == 9 || c == 10 || c == 13 || (c >= 128 && isUtf8);
+				if (valid && !IsEscapeSequence(str))
+				{
+					xmlSBuilder.append(*str);
+				}
+				else
+				{
+					xmlSBuilder.append((char) '%');
+					xmlSBuilder.appendHex(c);
+				}
+			}
+			xmlNewProp(node, xcT(attributeName), xcT(xmlSBuilder.ToCharPtr()));
 		}
 	}
 
+	void AddAttributeUnprocessed(xmlNode* node, const char* attributeName, const char* value)
+	{
+		if (node != NULL) xmlNewProp(node, xcT(attributeName), xcT(value));
+	}
+
 #ifdef UNICODE
 	void AddAttribute(xmlNode* node, const char* attributeName, const fstring& attributeValue)
 	{
diff --git a/FCollada/FUtils/FUXmlWriter.h b/FCollada/FUtils/FUXmlWriter.h
index 9662e77..c9b471c 100644
--- a/FCollada/FUtils/FUXmlWriter.h
+++ b/FCollada/FUtils/FUXmlWriter.h
@@ -63,6 +63,12 @@ namespace FUXmlWriter
 	inline xmlNode* AddChild(xmlNode* parent, const char* name, const fm::string& content) { return AddChild(parent, name, content.c_str()); } /**< See above. */
 	inline xmlNode* AddChild(xmlNode* parent, const char* name, FUSStringBuilder& content) { return AddChild(parent, name, content.ToCharPtr()); } /**< See above. */
 
+	/** Creates an attribute, with an unprocessed value, within a XML tree node.
+		@param node The XML tree node.
+		@param attributeName The attribute name.
+		@param attributeValue The attribute value: no special character is escaped. */
+	FCOLLADA_EXPORT void AddAttributeUnprocessed(xmlNode* node, const char* attributeName, const char* attributeValue);
+
 	/** Appends an unprocessed content string to a XML tree node.
 			The content string is added at the end of the XML tree node's content, with no special characters added.
 			@param node The XML tree node.
diff --git a/FColladaPlugins/FArchiveXML/FAXEntityExport.cpp b/FColladaPlugins/FArchiveXML/FAXEntityExport.cpp
index 5f6c4a5..6958e28 100644
--- a/FColladaPlugins/FArchiveXML/FAXEntityExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXEntityExport.cpp
@@ -122,7 +122,7 @@ xmlNode* FArchiveXML::WriteAssetContributor(FCDObject* object, xmlNode* parentNo
 			FUUri uri(assetContributor->GetSourceData());
 			fstring sourceDataUrl = uri.GetAbsoluteUri();
 			ConvertFilename(sourceDataUrl);
-			AddChild(contributorNode, DAE_SOURCEDATA_ASSET_PARAMETER, sourceDataUrl);
+			AddContentUnprocessed(AddChild(contributorNode, DAE_SOURCEDATA_ASSET_PARAMETER), TO_STRING(sourceDataUrl));
 		}
 	}
 	return contributorNode;
diff --git a/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp b/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp
index 020990d..4c31d14 100644
--- a/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXEntityImport.cpp
@@ -63,7 +63,9 @@ bool FArchiveXML::LoadExtraNode(FCDObject* object, xmlNode* customNode)
 	// Read in the node's attributes
 	for (xmlAttr* a = customNode->properties; a != NULL; a = a->next)
 	{
-		fcdenode->AddAttribute((const char*) a->name, (a->children != NULL) ? TO_FSTRING((const char*) (a->children->content)) : FS(""));
+		xmlChar* value = xmlNodeListGetString(customNode->doc, a->children, 1);
+		fcdenode->AddAttribute((const char*) a->name, (value != NULL) ? TO_FSTRING(XmlToString((const char*) value)) : FS(""));
+		xmlFree(value);
 	}
 
 	fcdenode->SetDirtyFlag();
diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index 46afd30..c13abfc 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -151,7 +151,7 @@ bool FArchiveXML::LoadControllerInstance(FCDObject* object, xmlNode* instanceNod
 
 	for (size_t i = 0; i < numRoots; ++i)
 	{
-		controllerInstance->GetSkeletonRoots()[i] = FUUri(TO_FSTRING(FUDaeParser::ReadNodeContentDirect(skeletonList[i])));
+		controllerInstance->GetSkeletonRoots()[i] = FUUri(TO_FSTRING(FUDaeParser::ReadNodeContentFull(skeletonList[i])));
 	}
 
 	return status;
diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index a68ce53..396df15 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -103,7 +103,7 @@ xmlNode* FArchiveXML::WriteEffectCode(FCDObject* object, xmlNode* parentNode)
 		AddNodeSid(codeNode, _sid);
 		fstring fileURL = effectCode->GetDocument()->GetFileManager()->CleanUri(FUUri(effectCode->GetFilename()));
 		FUXmlWriter::ConvertFilename(fileURL);
-		AddAttribute(codeNode, DAE_URL_ATTRIBUTE, fileURL);
+		AddAttributeUnprocessed(codeNode, DAE_URL_ATTRIBUTE, TO_STRING(fileURL).c_str());
 		break; }
 
 	default:
@@ -1070,7 +1070,7 @@ xmlNode* FArchiveXML::WriteImage(FCDObject* object, xmlNode* parentNode)
 	{
 		fstring url = image->GetDocument()->GetFileManager()->CleanUri(FUUri(image->GetFilename()));
 		FUXmlWriter::ConvertFilename(url);
-		AddChild(imageNode, DAE_INITFROM_ELEMENT, url);
+		AddContentUnprocessed(AddChild(imageNode, DAE_INITFROM_ELEMENT), TO_STRING(url));
 	}
 
 	if (image->GetWidth() > 0) AddAttribute(imageNode, DAE_WIDTH_ELEMENT, image->GetWidth());
diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 84a26c5..f389c74 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -469,7 +469,7 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 
 		FCDEffectParameterSurfaceInitFrom* ptrInit = (FCDEffectParameterSurfaceInitFrom*)effectParameterSurface->GetInitMethod();
 		//StringList names;
-		FUStringConversion::ToStringList(ReadNodeContentDirect(*it), effectParameterSurface->GetNames());
+		FUStringConversion::ToStringList(ReadNodeContentFull(*it), effectParameterSurface->GetNames());
 
 		if (effectParameterSurface->GetNames().size() == 0 || effectParameterSurface->GetNames()[0].empty())
 		{
@@ -666,7 +666,7 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 
 	xmlNode* formatNode = FindChildByType(surfaceNode, DAE_FORMAT_ELEMENT);
 	if (formatNode)
-		effectParameterSurface->SetFormat(FUStringConversion::ToString(ReadNodeContentDirect(formatNode)));
+		effectParameterSurface->SetFormat(ReadNodeContentFull(formatNode));
 
 	xmlNode* formatHintNode = FindChildByType(surfaceNode, DAE_FORMAT_HINT_ELEMENT);
 	if (formatHintNode)
-- 
2.43.0


From 1d39fc5316bed92c84510be9f13615660e017d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 013/209] fix: FUBase64::decode stays within its buffers for
 malformed text and text with line breaks

---
 FCollada/FUtils/FUBase64.cpp | 65 +++++++++---------------------------
 1 file changed, 16 insertions(+), 49 deletions(-)

diff --git a/FCollada/FUtils/FUBase64.cpp b/FCollada/FUtils/FUBase64.cpp
index 7163083..3995cbc 100644
--- a/FCollada/FUtils/FUBase64.cpp
+++ b/FCollada/FUtils/FUBase64.cpp
@@ -50,28 +50,6 @@ namespace FUBase64
 		return requiredBytes;
 	}
 
-	size_t CalculateRecquiredDecodeOutputBufferSize (const uint8* inputBufferString, size_t inputLength)
-	{
-		size_t bufferLength = inputLength;
-		div_t result = div ((int) bufferLength, 4);
-
-		if (inputBufferString[bufferLength - 1] != '=')
-		{
-			return result.quot * 3;
-		}
-		else
-		{
-			if (inputBufferString[bufferLength - 2] == '=')
-			{
-				return result.quot * 3 - 2;
-			}
-			else
-			{
-				return result.quot * 3 - 1;
-			}
-		}
-	}
-
 	void EncodeByteTriple(const uint8* inputBuffer, size_t inputbufferLength, uint8* outputBuffer)
 	{
 		uint32 mask = 0xfc000000;
@@ -200,40 +178,29 @@ namespace FUBase64
 
 	FCOLLADA_EXPORT void decode(const UInt8List& input, UInt8List& output)
 	{
-		size_t inputBufferIndex  = 0;
-		size_t outputBufferIndex = 0;
-
-		const uint8* inputBufferString = &input.at(0);
-		size_t inputbufferLength = input.size();
-
 		output.clear();
-		output.resize(CalculateRecquiredDecodeOutputBufferSize(inputBufferString, inputbufferLength), 0);
-		uint8* outputBuffer = &output.at(0);
+		output.reserve((input.size() / 4) * 3);
 
 		uint8 byteQuartet[4];
+		uint8 byteTriple[3];
+		size_t count = 0;
 
-		while (inputBufferIndex < inputbufferLength)
+		for (size_t i = 0; i < input.size(); ++i)
 		{
-			for (int i = 0; i < 4; ++i)
+			uint8 c = input[i];
+
+			// Ignore all characters except the ones in BASE64_ALPHABET
+			bool valid = (c >= 48 && c <=  57) || (c >= 65 && c <=  90) || (c >= 97 && c <= 122) || c == '+' || c == '/' || c == '=';
+			if (!valid) continue;
+
+			byteQuartet[count++] = c;
+			if (count == 4)
 			{
-				byteQuartet[i] = inputBufferString[inputBufferIndex];
-
-				// Ignore all characters except the ones in BASE64_ALPHABET
-				if ((byteQuartet[i] >= 48 && byteQuartet[i] <=  57) ||
-					(byteQuartet[i] >= 65 && byteQuartet[i] <=  90) ||
-					(byteQuartet[i] >= 97 && byteQuartet[i] <= 122) ||
-					 byteQuartet[i] == '+' || byteQuartet[i] == '/' || byteQuartet[i] == '=')
-				{}
-				else
-				{
-					// Invalid character
-					--i;
-				}
-
-				++inputBufferIndex;
+				size_t decoded = DecodebyteQuartet(byteQuartet, byteTriple);
+				output.insert(output.end(), byteTriple, decoded);
+				count = 0;
 			}
-
-			outputBufferIndex += DecodebyteQuartet(byteQuartet, outputBuffer + outputBufferIndex);
 		}
+		// An incomplete quartet, at the end, does not hold any byte.
 	}
 }
-- 
2.43.0


From 681a47447bae9a2be3bee7beec8149ae50a9d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 014/209] fix: releasing an FUEvent handler leaves the others
 intact, and callbacks may register, release and report meanwhile

---
 FCollada/FUtils/FUError.cpp |  8 ++++----
 FCollada/FUtils/FUError.h   |  2 +-
 FCollada/FUtils/FUEvent.h   | 23 +++++++++++++++++------
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/FCollada/FUtils/FUError.cpp b/FCollada/FUtils/FUError.cpp
index b4c45ed..edb8670 100644
--- a/FCollada/FUtils/FUError.cpp
+++ b/FCollada/FUtils/FUError.cpp
@@ -12,7 +12,7 @@
 //
 // FUError
 //
-std::mutex FUError::errorMutex;
+std::recursive_mutex FUError::errorMutex;
 
 FUEvent<FUError::Level, uint32, uint32> FUError::onErrorEvent;
 FUEvent<FUError::Level, uint32, uint32> FUError::onWarningEvent;
@@ -31,7 +31,7 @@ FUError::~FUError()
 
 bool FUError::Error(FUError::Level errorLevel, uint32 errorCode, uint32 errorArgument)
 {
-	const std::lock_guard<std::mutex> lock(errorMutex);
+	const std::lock_guard<std::recursive_mutex> lock(errorMutex);
 
 	switch (errorLevel)
 	{
@@ -47,7 +47,7 @@ bool FUError::Error(FUError::Level errorLevel, uint32 errorCode, uint32 errorArg
 void FUError::AddErrorCallback(FUError::Level errorLevel, void* object,
 		std::function<void(FUError::Level, uint32, uint32)> callback)
 {
-	const std::lock_guard<std::mutex> lock(errorMutex);
+	const std::lock_guard<std::recursive_mutex> lock(errorMutex);
 
 	switch (errorLevel)
 	{
@@ -60,7 +60,7 @@ void FUError::AddErrorCallback(FUError::Level errorLevel, void* object,
 
 void FUError::RemoveErrorCallback(FUError::Level errorLevel, void* object)
 {
-	const std::lock_guard<std::mutex> lock(errorMutex);
+	const std::lock_guard<std::recursive_mutex> lock(errorMutex);
 
 	switch (errorLevel)
 	{
diff --git a/FCollada/FUtils/FUError.h b/FCollada/FUtils/FUError.h
index 3025d11..8e5bbaf 100644
--- a/FCollada/FUtils/FUError.h
+++ b/FCollada/FUtils/FUError.h
@@ -238,7 +238,7 @@ public:
 	};
 
 private:
-	static std::mutex errorMutex;
+	static std::recursive_mutex errorMutex;
 
 	static FUEvent<FUError::Level, uint32, uint32> onErrorEvent;
 	static FUEvent<FUError::Level, uint32, uint32> onWarningEvent;
diff --git a/FCollada/FUtils/FUEvent.h b/FCollada/FUtils/FUEvent.h
index 27e5983..33a4afc 100644
--- a/FCollada/FUtils/FUEvent.h
+++ b/FCollada/FUtils/FUEvent.h
@@ -18,7 +18,9 @@
 #ifndef _FU_EVENT_H_
 #define _FU_EVENT_H_
 
+#include <algorithm>
 #include <functional>
+#include <tuple>
 #include <vector>
 
 /**
@@ -29,7 +31,8 @@ template <typename... Args>
 class FUEvent
 {
 private:
-	std::vector<std::tuple<void*, std::function<void(Args...)>>> handlers;
+	std::vector<std::tuple<void*, std::function<void(Args...)>, size_t>> handlers;
+	size_t nextRegistration = 0;
 public:
 
 	/** Constructor. */
@@ -46,7 +49,7 @@ public:
 		@param _function The static function to callback. */
 	void InsertHandler(void* object, std::function<void(Args...)> func)
 	{
-		handlers.emplace_back(std::tuple(object,func));
+		handlers.emplace_back(object, func, nextRegistration++);
 	}
 
 	/** Releases and unregisters a callback that handles the event.
@@ -55,8 +58,9 @@ public:
 		@param function The address of the function callback to unregister. */
 	void ReleaseHandler(void* object)
 	{
-		handlers.erase(std::remove_if(handlers.begin(), handlers.end(),
-					[object](auto t){ return std::get<0>(t) == object; }));
+		auto it = std::find_if(handlers.begin(), handlers.end(),
+					[object](const auto& t){ return std::get<0>(t) == object; });
+		if (it != handlers.end()) handlers.erase(it);
 	}
 
 	/**
@@ -66,8 +70,15 @@ public:
 	 */
 	void operator()(Args... args)
 	{
-		for (std::size_t i = handlers.size(); i > 0; --i)
-			(std::get<1>(handlers[i - 1]))(args...);
+		// The callbacks may add and release handlers, so work on a copy of the list.
+		const auto current = handlers;
+		for (auto it = current.rbegin(); it != current.rend(); ++it)
+		{
+			size_t registration = std::get<2>(*it);
+			bool released = std::none_of(handlers.begin(), handlers.end(),
+					[registration](const auto& t){ return std::get<2>(t) == registration; });
+			if (!released) (std::get<1>(*it))(args...);
+		}
 	}
 };
 
-- 
2.43.0


From 7494540c6d0910dda8cb75d4c6f2a83de6594b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 015/209] fix: copies of tracked pointers and lists are
 tracked, and moving an FUObjectRef moves the ownership

---
 FCollada/FUtils/FUObject.h    | 10 ++++++++--
 FCollada/FUtils/FUTracker.cpp |  6 ++++--
 FCollada/FUtils/FUTracker.h   | 23 +++++++++++++++++++++--
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/FCollada/FUtils/FUObject.h b/FCollada/FUtils/FUObject.h
index 8f183bc..75d619d 100644
--- a/FCollada/FUtils/FUObject.h
+++ b/FCollada/FUtils/FUObject.h
@@ -162,6 +162,9 @@ public:
 		if (_ptr != NULL) AttachObject((FUObject*) ptr);
 	}
 
+	/** An object has only one owner: a reference cannot be copied. */
+	FUObjectRef(const FUObjectRef<ObjectClass>& copy) = delete;
+
 	/** Destructor.
 		The object referenced will be released. */
 	~FUObjectRef()
@@ -183,6 +186,7 @@ public:
 		@return This reference. */
 	FUObjectRef<ObjectClass>& operator=(ObjectClass* _ptr)
 	{
+		if (ptr == _ptr) return *this;
 		if (ptr != NULL) ((FUObject*) ptr)->Release();
 		FUAssert(ptr == NULL, return *this);
 		ptr = _ptr;
@@ -198,9 +202,11 @@ public:
 		@return This reference. */
 	FUObjectRef<ObjectClass>& operator=(FUObjectRef<ObjectClass>& _ptr)
 	{
-		operator=(_ptr.ptr);
+		if (this == &_ptr) return *this;
+		ObjectClass* object = _ptr.ptr;
+		if (object != NULL) _ptr.DetachObject((FUObject*) object);
 		_ptr.ptr = NULL;
-		return *this;
+		return operator=(object);
 	}
 
 	/** Accesses the tracked object.
diff --git a/FCollada/FUtils/FUTracker.cpp b/FCollada/FUtils/FUTracker.cpp
index c082696..b984452 100644
--- a/FCollada/FUtils/FUTracker.cpp
+++ b/FCollada/FUtils/FUTracker.cpp
@@ -27,9 +27,11 @@ FUTrackable::~FUTrackable()
 
 void FUTrackable::Detach()
 {
-	for (FUTrackerList::iterator itT = trackers.begin(); itT != trackers.end(); ++itT)
+	// A notified tracker may release other trackers, which then leave our list.
+	FUTrackerList notified(trackers);
+	for (FUTrackerList::iterator itT = notified.begin(); itT != notified.end(); ++itT)
 	{
-		(*itT)->OnObjectReleased(this);
+		if (trackers.contains(*itT)) (*itT)->OnObjectReleased(this);
 	}
 	trackers.clear();
 
diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index 4fdc8f8..eb57312 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -121,6 +121,12 @@ public:
 		if (ptr != NULL) FUTracker::TrackObject((FUTrackable*) ptr);
 	}
 
+	/** Copy constructor. @param copy The tracking pointer to clone. */
+	FUTrackedPtr(const FUTrackedPtr& copy) : FUTracker(), ptr(copy.ptr)
+	{
+		if (ptr != NULL) FUTracker::TrackObject((FUTrackable*) ptr);
+	}
+
 	/** Destructor.
 		Stops the tracking of the pointer. */
 	~FUTrackedPtr()
@@ -334,14 +340,27 @@ public:
 	virtual bool TracksObject(const FUTrackable* object) const { return Parent::contains((ObjectClass*) object); }
 
 	/** Copy constructor. @param other The FUTrackedList to clone. */
-	FUTrackedList<ObjectClass>(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList(const FUTrackedList<ObjectClass>& other)
+	:	Parent(), FUTracker()
+	{
+		operator=(other);
+	}
 
 	/** Clones a list of tracked objects.
 		This list will stop tracking all its current tracked objects
 		and will start tracking the objects within the other list.
 		@param other A second list of tracked objects.
 		@return This list. */
-	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other)
+	{
+		if (this != &other)
+		{
+			clear();
+			reserve(other.size());
+			for (const_iterator it = other.begin(); it != other.end(); ++it) push_back(const_cast<ObjectClass*>(*it));
+		}
+		return *this;
+	}
 
 	inline bool empty() const { return Parent::empty(); } /**< Inherited from pvector. */
 	inline size_t size() const { return Parent::size(); } /**< Inherited from pvector. */
-- 
2.43.0


From 6d73469a5cb4b4f66e1d36b253ca340f0ac5f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 016/209] fix: error logs write the reported text itself,
 whatever its length and percent signs

---
 FCollada/FUtils/FUErrorLog.cpp |  2 +-
 FCollada/FUtils/FULogFile.cpp  | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/FCollada/FUtils/FUErrorLog.cpp b/FCollada/FUtils/FUErrorLog.cpp
index 45433e1..b9a16db 100644
--- a/FCollada/FUtils/FUErrorLog.cpp
+++ b/FCollada/FUtils/FUErrorLog.cpp
@@ -73,5 +73,5 @@ void FUErrorLog::OnErrorCallback(FUError::Level level, uint32 errorCode, uint32
 #endif // WIN32
 		newLine.append('\n');
 	}
-	logFile->WriteLine(newLine.ToCharPtr());
+	logFile->WriteLine("%s", newLine.ToCharPtr());
 }
diff --git a/FCollada/FUtils/FULogFile.cpp b/FCollada/FUtils/FULogFile.cpp
index c190da1..533a7fb 100644
--- a/FCollada/FUtils/FULogFile.cpp
+++ b/FCollada/FUtils/FULogFile.cpp
@@ -44,10 +44,14 @@ void FULogFile::WriteLine(const char* message, ...)
 
 void FULogFile::WriteLineV(const char* message, va_list& vars)
 {
-	size_t len = strlen(message);
-	char* buffer = new char[len + 1024];
-	vsnprintf(buffer, len + 1024, message, vars);
-	buffer[len + 1023] = 0;
+	va_list sizeVars;
+	va_copy(sizeVars, vars);
+	int len = vsnprintf(NULL, 0, message, sizeVars);
+	va_end(sizeVars);
+	if (len < 0) return;
+
+	char* buffer = new char[len + 1];
+	vsnprintf(buffer, len + 1, message, vars);
 
 	if (file->IsOpen())
 	{
-- 
2.43.0


From 43f1318342cd015b5c47a277ef39186a749c0a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 017/209] fix: FUUniqueStringMap keeps texts with leading zeros
 or large numbers apart

---
 FCollada/FUtils/FUUniqueStringMap.cpp | 32 ++++++++++++++++++---------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/FCollada/FUtils/FUUniqueStringMap.cpp b/FCollada/FUtils/FUUniqueStringMap.cpp
index bab61e7..bc3a33f 100644
--- a/FCollada/FUtils/FUUniqueStringMap.cpp
+++ b/FCollada/FUtils/FUUniqueStringMap.cpp
@@ -13,14 +13,13 @@
 template <class CH>
 inline void SplitString(const fm::stringT<CH>& str, fm::stringT<CH>& prefix, uint32& suffix)
 {
-	// Remove the suffix from the string.
-	size_t len = str.length();
-	prefix = str;
-	while (len > 0 && prefix[len-1] >= '0' && prefix[len-1] <= '9')
-	{
-		prefix.erase(len-1, len);
-		--len;
-	}
+	// Remove the suffix from the string: up to nine digits, which fit in the suffix,
+	// without any leading zero, which the suffix would not show.
+	size_t total = str.length();
+	size_t len = total;
+	while (len > 0 && total - len < 9 && str[len-1] >= '0' && str[len-1] <= '9') --len;
+	while (len + 1 < total && str[len] == '0') ++len;
+	prefix = str.substr(0, len);
 
 	// Parse the suffix: if no suffix is present, use -1.
 	size_t offset = prefix.length();
@@ -50,9 +49,20 @@ void FUUniqueStringMapT<CH>::insert(fm::stringT<CH>& wantedStr)
 		else
 		{
 			// Get the second last suffix, if it exists.
-			--itN;
-			if (itN == itV->second.end()) suffix = 2;
-			suffix = itN->first + 1;
+			if (itV->second.size() < 2) suffix = 2;
+			else
+			{
+				--itN;
+				suffix = itN->first + 1;
+			}
+		}
+
+		if (suffix > 999999999)
+		{
+			// No suffix is left.
+			wantedStr.append((CH) '_');
+			insert(wantedStr);
+			return;
 		}
 
 		// Recreate the user's string to use this unique suffix.
-- 
2.43.0


From 25ca50c03545dc3d5bdb514fc6ea99267e1ff88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 018/209] fix: the LINEAR texture filter is written under its
 own name

---
 FCollada/FUtils/FUDaeEnum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUDaeEnum.cpp b/FCollada/FUtils/FUDaeEnum.cpp
index 49fd60a..b423991 100644
--- a/FCollada/FUtils/FUDaeEnum.cpp
+++ b/FCollada/FUtils/FUDaeEnum.cpp
@@ -163,6 +163,7 @@ namespace FUDaeTextureFilterFunction
 		{
 		case NONE: return DAE_TEXTURE_FILTER_NONE;
 		case NEAREST: return DAE_TEXTURE_FILTER_NEAREST;
+		case LINEAR: return DAE_TEXTURE_FILTER_LINEAR;
 		case NEAREST_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_NEAR_MIP_NEAR;
 		case LINEAR_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_LIN_MIP_NEAR;
 		case NEAREST_MIPMAP_LINEAR: return DAE_TEXTURE_FILTER_NEAR_MIP_LIN;
-- 
2.43.0


From a3e84565c50422f3616ee51502799cdd17a786cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 019/209] fix: cloning an object keeps the original's id, and
 an empty id is never handed out

---
 FCollada/FCDocument/FCDObjectWithId.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDObjectWithId.cpp b/FCollada/FCDocument/FCDObjectWithId.cpp
index e23c7db..33f154d 100644
--- a/FCollada/FCDocument/FCDObjectWithId.cpp
+++ b/FCollada/FCDocument/FCDObjectWithId.cpp
@@ -33,8 +33,8 @@ FCDObjectWithId::~FCDObjectWithId()
 
 void FCDObjectWithId::Clone(FCDObjectWithId* clone) const
 {
+	clone->RemoveDaeId();
 	clone->daeId = daeId;
-	const_cast<FCDObjectWithId*>(this)->RemoveDaeId();
 }
 
 const fm::string& FCDObjectWithId::GetDaeId() const
@@ -58,6 +58,7 @@ void FCDObjectWithId::SetDaeId(const fm::string& id)
 	// Use this id to enforce a unique id.
 	FUSUniqueStringMap* names = GetDocument()->GetUniqueNameMap();
 	daeId = CleanId(id);
+	if (daeId->empty()) daeId = "unknown_object";
 	names->insert(daeId);
 	SetUniqueIdFlag();
 	SetDirtyFlag();
-- 
2.43.0


From 6a6f26faf0eddb45b634d69b51fe8b1be1585389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 020/209] fix: FMMatrix44::Decompose extracts the rotation in
 the z*y*x order that Recompose applies

---
 FCollada/FMath/FMMatrix44.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/FCollada/FMath/FMMatrix44.cpp b/FCollada/FMath/FMMatrix44.cpp
index 5632bea..61969bb 100644
--- a/FCollada/FMath/FMMatrix44.cpp
+++ b/FCollada/FMath/FMMatrix44.cpp
@@ -106,7 +106,7 @@ static float det3x3(float a1, float a2, float a3, float b1, float b2, float b3,
 
 void FMMatrix44::Decompose(FMVector3& scale, FMVector3& rotation, FMVector3& translation, float& inverted) const
 {
-	// translation * rotation [x*y*z order] * scale = original matrix
+	// translation * rotation [z*y*x order] * scale = original matrix
 	// if inverted is true, then negate scale and the above formula will be correct
 	scale.x = sqrtf(m[0][0] * m[0][0] + m[0][1] * m[0][1] + m[0][2] * m[0][2]);
 	scale.y = sqrtf(m[1][0] * m[1][0] + m[1][1] * m[1][1] + m[1][2] * m[1][2]);
@@ -129,19 +129,20 @@ void FMMatrix44::Decompose(FMVector3& scale, FMVector3& rotation, FMVector3& tra
 
 	// Calculate the rotation in Y first, using m[0][2], checking for out-of-bounds values
 	float c;
-	if (m[2][0] / scale.z >= 1.0f - FLT_TOLERANCE)
+	float siny = -m[0][2] / scale.x;
+	if (siny >= 1.0f - FLT_TOLERANCE)
 	{
 		rotation.y = ((float) FMath::Pi) / 2.0f;
 		c = 0.0f;
 	}
-	else if (m[2][0] / scale.z <= -1.0f + FLT_TOLERANCE)
+	else if (siny <= -1.0f + FLT_TOLERANCE)
 	{
 		rotation.y = ((float) FMath::Pi) / -2.0f;
 		c = 0.0f;
 	}
 	else
 	{
-		rotation.y = asinf(m[2][0] / scale.z);
+		rotation.y = asinf(siny);
 		c = cosf(rotation.y);
 	}
 
@@ -150,17 +151,17 @@ void FMMatrix44::Decompose(FMVector3& scale, FMVector3& rotation, FMVector3& tra
 	if (fabsf(c) > 0.01f)
 	{
 		float rx = m[2][2] / scale.z / c;
-		float ry = -m[2][1] / scale.z / c;
+		float ry = m[1][2] / scale.y / c;
 		rotation.x = atan2f(ry, rx);
 		rx = m[0][0] / scale.x / c;
-		ry = -m[1][0] / scale.y / c;
+		ry = m[0][1] / scale.x / c;
 		rotation.z = atan2f(ry, rx);
 	}
 	else
 	{
 		rotation.z = 0;
 		float rx = m[1][1] / scale.y;
-		float ry = m[1][2] / scale.y;
+		float ry = -m[2][1] / scale.z;
 		rotation.x = atan2f(ry, rx);
 	}
 
-- 
2.43.0


From e8d5f1f9c2e618d346d304333b0ce3e6c3284527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 021/209] fix: LookAtMatrix stays orthonormal when the up
 vector is parallel to the view direction

---
 FCollada/FMath/FMMatrix44.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/FCollada/FMath/FMMatrix44.cpp b/FCollada/FMath/FMMatrix44.cpp
index 61969bb..cc9d748 100644
--- a/FCollada/FMath/FMMatrix44.cpp
+++ b/FCollada/FMath/FMMatrix44.cpp
@@ -395,19 +395,14 @@ FMMatrix44 FMMatrix44::LookAtMatrix(const FMVector3& eye, const FMVector3& targe
 	FMMatrix44 mx;
 
 	FMVector3 forward = (target - eye).Normalize();
-	FMVector3 sideways, upward;
-	if (!IsEquivalent(forward, up) && !IsEquivalent(forward, -up))
+	FMVector3 sideways = (forward ^ up.Normalize()), upward;
+	if (sideways.LengthSquared() < 1e-6f)
 	{
-		sideways = (forward ^ up).Normalize();
-	}
-	else if (!IsEquivalent(up, FMVector3::XAxis))
-	{
-		sideways = FMVector3::XAxis;
-	}
-	else
-	{
-		sideways = FMVector3::ZAxis;
+		// The up direction is parallel to the view direction: use any axis that isn't.
+		FMVector3 axis = (fabsf(forward.x) < 0.9f) ? FMVector3::XAxis : FMVector3::ZAxis;
+		sideways = axis - forward * (forward * axis);
 	}
+	sideways.NormalizeIt();
 	upward = (sideways ^ forward);
 
 	mx[0][0] = sideways.x;  mx[0][1] = sideways.y;  mx[0][2] = sideways.z;
-- 
2.43.0


From d16912d325f9de0ce418e85e8b0f50e4f354d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 022/209] fix: quaternion conversions to Euler angles, to
 angle-axis near identity and from half-turn matrices

---
 FCollada/FMath/FMQuaternion.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/FCollada/FMath/FMQuaternion.cpp b/FCollada/FMath/FMQuaternion.cpp
index 75f03d2..8fe5e63 100644
--- a/FCollada/FMath/FMQuaternion.cpp
+++ b/FCollada/FMath/FMQuaternion.cpp
@@ -123,7 +123,7 @@ FMQuaternion FMQuaternion::slerp(const FMQuaternion& other, float t) const
 
 void FMQuaternion::ToAngleAxis(FMVector3& axis, float& angle) const
 {
-	angle = 2.0f * acosf(w);
+	angle = 2.0f * acosf(FMath::Clamp(w, -1.0f, 1.0f));
 	float s = sinf(angle / 2.0f);
 	if (!IsEquivalent(s, 0.0f))
 	{
@@ -156,14 +156,14 @@ FMVector3 FMQuaternion::ToEuler(FMVector3* previousAngles) const
 	{
 		angles.y = (float) -FMath::Pi / 2;
 
-		angles.x = -2 * atan2(x,w);
+		angles.x = 2 * atan2(x,w);
 		angles.z = 0;
 	}
 	else
 	{
 		// [GLaforte] Derived on 18-07-2007.
 		angles.y = asinf(siny);
-		angles.x = atan2f((x*w-y*z), 1.0f - 2.0f * (x*x+y*y));
+		angles.x = atan2f(2.0f * (x*w-y*z), 1.0f - 2.0f * (x*x+y*y));
 		angles.z = atan2f(2.0f * (z*w-x*y), 1.0f - 2.0f * (y*y+z*z));
 	}
 
@@ -245,7 +245,7 @@ FMQuaternion FMQuaternion::MatrixRotationQuaternion(const FMMatrix44& mat)
 		q.z = (mat[0][1] - mat[1][0]) / s;
 		q.w = s * 0.25f;
 	}
-	else if (mat[0][0] > mat[1][1])
+	else if (mat[0][0] > mat[1][1] && mat[0][0] > mat[2][2])
 	{
 		s = sqrtf(1.0f + mat[0][0] - mat[1][1] - mat[2][2]) * 2.0f;
 		q.x = 0.25f * s;
-- 
2.43.0


From fdfa4f1cd5b138ca733d5b1184d33d04de09147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 023/209] fix: FMMatrix33::Inverted of small matrices, hue of
 greys, equality of tiny opposite angle-axes

---
 FCollada/FMath/FMAngleAxis.cpp | 10 ++--------
 FCollada/FMath/FMMatrix33.cpp  |  4 ++--
 FCollada/FMath/FMVector3.cpp   |  3 ++-
 3 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/FCollada/FMath/FMAngleAxis.cpp b/FCollada/FMath/FMAngleAxis.cpp
index 63256fa..01b71ed 100644
--- a/FCollada/FMath/FMAngleAxis.cpp
+++ b/FCollada/FMath/FMAngleAxis.cpp
@@ -24,13 +24,7 @@ FMAngleAxis::FMAngleAxis(const FMVector3& _axis, float _angle)
 
 bool operator==(const FMAngleAxis& first, const FMAngleAxis& other)
 {
-	if (IsEquivalent(first.angle, other.angle))
-	{
-		return IsEquivalent(first.axis, other.axis);
-	}
-	else
-	{
-		return IsEquivalent(first.angle, -other.angle) && IsEquivalent(first.axis, -other.axis);
-	}
+	return (IsEquivalent(first.angle, other.angle) && IsEquivalent(first.axis, other.axis))
+		|| (IsEquivalent(first.angle, -other.angle) && IsEquivalent(first.axis, -other.axis));
 }
 
diff --git a/FCollada/FMath/FMMatrix33.cpp b/FCollada/FMath/FMMatrix33.cpp
index 3a03f4b..80580c8 100644
--- a/FCollada/FMath/FMMatrix33.cpp
+++ b/FCollada/FMath/FMMatrix33.cpp
@@ -94,8 +94,8 @@ FMMatrix33 FMMatrix33::Inverted() const
 
 	float det = (m[0][0] * b.m[0][0]) + (m[1][0] * b.m[0][1]) + (m[2][0] * b.m[0][2]);
 
-	// We should consider throwing an exception if det < eps.
-	if (IsEquivalent(det, 0.0f)) det = 0.01f;
+	// We should consider throwing an exception if the matrix is singular.
+	if (det == 0.0f) det = 0.01f;
 	float oodet = 1.0f / det;
 
 	b.m[0][0] *= oodet;
diff --git a/FCollada/FMath/FMVector3.cpp b/FCollada/FMath/FMVector3.cpp
index 4ab59c3..5e7d1b1 100644
--- a/FCollada/FMath/FMVector3.cpp
+++ b/FCollada/FMath/FMVector3.cpp
@@ -97,7 +97,8 @@ FMVector3 FMVector4::ToHSVColor()
 	if (!IsEquivalent(largest, 0.0f))
 	{
 		hsv.y = delta / largest;	// s
-		if (IsEquivalent(x, largest))			hsv.x = (y-z) / delta;			// between yellow & magenta
+		if (delta == 0.0f)						hsv.x = 0.0f;					// grey
+		else if (IsEquivalent(x, largest))		hsv.x = (y-z) / delta;			// between yellow & magenta
 		else if (IsEquivalent(y, largest))		hsv.x = 2.0f + (z-x) / delta;	// between cyan & yellow
 		else									hsv.x = 4.0f + (x-y) / delta;	// between magenta & cyan
 		hsv.x /= 6.0f;				// convert to [0,1]
-- 
2.43.0


From 09e9dd28172aa8d187cb7c7a100c4637ce266969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 024/209] fix: including one point in a fresh bounding box sets
 both of its bounds

---
 FCollada/FUtils/FUBoundingBox.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingBox.cpp b/FCollada/FUtils/FUBoundingBox.cpp
index 4813579..6326ab4 100644
--- a/FCollada/FUtils/FUBoundingBox.cpp
+++ b/FCollada/FUtils/FUBoundingBox.cpp
@@ -106,11 +106,11 @@ void FUBoundingBox::Include(const FUBoundingBox& boundingBox)
 void FUBoundingBox::Include(const FMVector3& point)
 {
 	if (point.x < minimum.x) minimum.x = point.x;
-	else if (point.x > maximum.x) maximum.x = point.x;
+	if (point.x > maximum.x) maximum.x = point.x;
 	if (point.y < minimum.y) minimum.y = point.y;
-	else if (point.y > maximum.y) maximum.y = point.y;
+	if (point.y > maximum.y) maximum.y = point.y;
 	if (point.z < minimum.z) minimum.z = point.z;
-	else if (point.z > maximum.z) maximum.z = point.z;
+	if (point.z > maximum.z) maximum.z = point.z;
 }
 
 FUBoundingBox FUBoundingBox::Transform(const FMMatrix44& transform) const
-- 
2.43.0


From ee921f91ac912debf8f831d669c40163e2de4237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 025/209] fix: bounding spheres contain the spheres they
 include and the points they transform, overlap centers lie in the overlap

---
 FCollada/FUtils/FUBoundingSphere.cpp | 42 ++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/FCollada/FUtils/FUBoundingSphere.cpp b/FCollada/FUtils/FUBoundingSphere.cpp
index ce373b0..bf19c9c 100644
--- a/FCollada/FUtils/FUBoundingSphere.cpp
+++ b/FCollada/FUtils/FUBoundingSphere.cpp
@@ -69,9 +69,9 @@ bool FUBoundingSphere::Contains(const FMVector3& point) const
 
 bool FUBoundingSphere::Overlaps(const FUBoundingSphere& boundingSphere, FMVector3* overlapCenter) const
 {
-	if (radius >= 0.0f)
+	if (radius >= 0.0f && boundingSphere.radius >= 0.0f)
 	{
-		FMVector3 centerToCenter = center - boundingSphere.center;
+		FMVector3 centerToCenter = boundingSphere.center - center;
 		float distanceSquared = centerToCenter.LengthSquared();
 		bool overlaps = distanceSquared < (radius + boundingSphere.radius) * (radius + boundingSphere.radius);
 		if (overlaps && overlapCenter != NULL)
@@ -79,8 +79,15 @@ bool FUBoundingSphere::Overlaps(const FUBoundingSphere& boundingSphere, FMVector
 			float distance = sqrtf(distanceSquared);
 			float overlapDistance = (radius + boundingSphere.radius) - distance;
 			float smallerRadius = min(radius, boundingSphere.radius);
-			overlapDistance = min(2.0f * smallerRadius, overlapDistance);
-			(*overlapCenter) = center + centerToCenter / distance * (radius - overlapDistance / 2.0f);
+			if (overlapDistance >= 2.0f * smallerRadius)
+			{
+				// One sphere contains the other.
+				(*overlapCenter) = (radius < boundingSphere.radius) ? center : boundingSphere.center;
+			}
+			else
+			{
+				(*overlapCenter) = center + centerToCenter / distance * (radius - overlapDistance / 2.0f);
+			}
 		}
 		return overlaps;
 	}
@@ -130,13 +137,22 @@ void FUBoundingSphere::Include(const FMVector3& point)
 
 void FUBoundingSphere::Include(const FUBoundingSphere& boundingSphere)
 {
+	if (!boundingSphere.IsValid()) return;
+
 	if (radius >= 0.0f)
 	{
 		float distance = (center - boundingSphere.center).Length();
-		if (distance + boundingSphere.radius > radius)
+		if (distance + radius <= boundingSphere.radius)
 		{
-			center = ((radius + distance / 2.0f) * center + (boundingSphere.radius + distance / 2.0f) * boundingSphere.center) / (radius + boundingSphere.radius + distance);
-			radius = (radius + boundingSphere.radius + distance) / 2.0f;
+			// The included sphere contains this one.
+			center = boundingSphere.center;
+			radius = boundingSphere.radius;
+		}
+		else if (distance + boundingSphere.radius > radius)
+		{
+			float newRadius = (radius + boundingSphere.radius + distance) / 2.0f;
+			center += (boundingSphere.center - center) * ((newRadius - radius) / distance);
+			radius = newRadius;
 		}
 	}
 	else
@@ -148,6 +164,8 @@ void FUBoundingSphere::Include(const FUBoundingSphere& boundingSphere)
 
 void FUBoundingSphere::Include(const FUBoundingBox& boundingBox)
 {
+	if (!boundingBox.IsValid()) return;
+
 	if (radius >= 0.0f)
 	{
 		FUBOUNDINGBOX_COORDINATES(coordinates, boundingBox);
@@ -173,15 +191,15 @@ FUBoundingSphere FUBoundingSphere::Transform(const FMMatrix44& transform) const
 	// Calculate the transformed bounding sphere radius using three sample points.
 	FMVector3 testPoints[3] =
 	{
-		FMVector3(radius, 0.0f, 0.0f),
-		FMVector3(0.0f, radius, 0.0f),
-		FMVector3(0.0f, 0.0f, radius)
+		transform.TransformVector(FMVector3(radius, 0.0f, 0.0f)),
+		transform.TransformVector(FMVector3(0.0f, radius, 0.0f)),
+		transform.TransformVector(FMVector3(0.0f, 0.0f, radius))
 	};
 
 	for (size_t i = 0; i < 3; ++i)
 	{
-		testPoints[i] = transform.TransformVector(testPoints[i]);
-		float lengthSquared = testPoints[i].LengthSquared();
+		// When the transformed axes aren't orthogonal, no single one of them bounds the transformed sphere.
+		float lengthSquared = fabsf(testPoints[i] * testPoints[0]) + fabsf(testPoints[i] * testPoints[1]) + fabsf(testPoints[i] * testPoints[2]);
 		if (lengthSquared > transformedSphere.radius * transformedSphere.radius)
 		{
 			transformedSphere.radius = sqrtf(lengthSquared);
-- 
2.43.0


From aea5a3ee0472a4504f7aeb7722723f6d14d326b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 026/209] fix: write the extra tree of plain instances, and
 that of controller instances once

---
 FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
index 9dafc27..c37ecc8 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
@@ -85,6 +85,11 @@ xmlNode* FArchiveXML::WriteEntityInstance(FCDObject* object, xmlNode* parentNode
 	fstring uriString = entityInstance->GetDocument()->GetFileManager()->CleanUri(uri);
 	AddAttribute(instanceNode, DAE_URL_ATTRIBUTE, uriString);
 
+	// The more specific instance types write out their extra tree themselves, after their own elements.
+	if (entityInstance->GetObjectType() == FCDEntityInstance::GetClassType())
+	{
+		FArchiveXML::WriteEntityInstanceExtra(entityInstance, instanceNode);
+	}
 	return instanceNode;
 }
 
@@ -151,7 +156,6 @@ xmlNode* FArchiveXML::WriteControllerInstance(FCDObject* object, xmlNode* parent
 		AddContent(skeletonNode, builder);
 	}
 
-	FArchiveXML::WriteEntityInstanceExtra(controllerInstance, instanceNode);
 	return instanceNode;
 }
 
-- 
2.43.0


From 92324bfac87abd7dfb2eeb6708c2190077f4b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 027/209] fix: release the temporary node instances created by
 the scene export

---
 FColladaPlugins/FArchiveXML/FAXSceneExport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
index 5b26d69..0809691 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
@@ -135,6 +135,7 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 				FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(const_cast<FCDocument*>(sceneNode->GetDocument()), NULL, FCDEntity::SCENE_NODE);
 				instance->SetEntity(const_cast<FCDSceneNode*>(child));
 				FArchiveXML::LetWriteObject(instance, node);
+				SAFE_RELEASE(instance);
 			}
 		}
 	}
-- 
2.43.0


From 2afcc31898e00284fe261ab6fd2f0cb9b6259da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 028/209] fix: load the instances of scene nodes that appear
 later in the document

---
 FColladaPlugins/FArchiveXML/FAXSceneImport.cpp |  7 ++++++-
 FColladaPlugins/FArchiveXML/FAXStructures.h    | 12 ++++++++++++
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp    | 17 +++++++++++++++++
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
index ac25bdf..7145792 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
@@ -156,7 +156,12 @@ bool FArchiveXML::LoadSceneNode(FCDObject* object, xmlNode* node)
 				}
 				else
 				{
-					FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_INST, child->line);
+					// The node may appear later in the document: look for it again once all the nodes are loaded.
+					FCDSceneNodeInstanceData data;
+					data.parent = sceneNode;
+					data.nodeId = TO_STRING(url.GetFragment());
+					data.line = child->line;
+					FArchiveXML::documentLinkDataMap[sceneNode->GetDocument()].sceneNodeInstanceData.push_back(data);
 				}
 			}
 			else
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index 5fdc209..c10a614 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -230,6 +230,17 @@ typedef fm::pvector<FCDAnimationChannel> FCDAnimationChannelList;
 
 #endif //_FAXSTRUCTURES_H_
 
+//
+// For FCDSceneNode: the node instances that appear before the instantiated node.
+//
+struct FCDSceneNodeInstanceData
+{
+	FCDSceneNode* parent;
+	fm::string nodeId;
+	int32 line;
+};
+typedef fm::vector<FCDSceneNodeInstanceData> FCDSceneNodeInstanceDataList;
+
 //
 // Per-document link data using in 2nd passing of loading.
 //
@@ -247,6 +258,7 @@ struct FCDocumentLinkData
 	FCDSkinControllerDataMap skinControllerDataMap;
 	FCDMorphControllerDataMap morphControllerDataMap;
 	FCDGeometrySourceDataMap geometrySourceDataMap;
+	FCDSceneNodeInstanceDataList sceneNodeInstanceData;
 };
 
 typedef fm::map<const FCDocument*, FCDocumentLinkData> DocumentLinkDataMap;
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 7c09480..8b7cf32 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -699,6 +699,23 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 		}
 	}
 
+	// Resolve the node instances that appear before the node they instantiate
+	FCDSceneNodeInstanceDataList& nodeInstances = FArchiveXML::documentLinkDataMap[theDocument].sceneNodeInstanceData;
+	for (size_t i = 0; i < nodeInstances.size(); ++i)
+	{
+		FCDSceneNodeInstanceData& data = nodeInstances[i];
+		FCDSceneNode* node = theDocument->FindSceneNode(data.nodeId);
+		if (node == NULL)
+		{
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_INST, data.line);
+		}
+		else if (!data.parent->AddChildNode(node))
+		{
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_CYCLE_DETECTED, data.line);
+		}
+	}
+	nodeInstances.clear();
+
 	// Read in the <scene> element
 	if (sceneNode != NULL)
 	{
-- 
2.43.0


From c6c342c465b19c84c909f4a90316e47f155d507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 029/209] fix: count the lines of all the line sets in the
 exported count

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 0817dba..fd014f2 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -299,7 +299,11 @@ xmlNode* FArchiveXML::WriteGeometryPolygons(FCDObject* object, xmlNode* parentNo
 	size_t primitiveCount = geometryPolygons->GetFaceCount();
 	if (geometryPolygons->GetPrimitiveType() == FCDGeometryPolygons::LINES && primitiveCount > 0)
 	{
-		primitiveCount = geometryPolygons->GetFaceVertexCount(0) / 2;
+		primitiveCount = 0;
+		for (size_t i = 0; i < faceCount; ++i)
+		{
+			primitiveCount += geometryPolygons->GetFaceVertexCount(i) / 2;
+		}
 	}
 	AddAttribute(polygonsNode, DAE_COUNT_ATTRIBUTE, primitiveCount);
 
-- 
2.43.0


From 02a61c1dce3a5c8ce3948074f1051a085bad54e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 030/209] fix: write one <p> per point set instead of a
 misplaced <vcount>

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index fd014f2..7a085a0 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -169,7 +169,7 @@ xmlNode* FArchiveXML::WriteGeometryPolygons(FCDObject* object, xmlNode* parentNo
 	case FCDGeometryPolygons::LINE_STRIPS: hasHoles = true; polygonNodeType = DAE_LINESTRIPS_ELEMENT; break;
 	case FCDGeometryPolygons::TRIANGLE_FANS: hasHoles = true; polygonNodeType = DAE_TRIFANS_ELEMENT; break;
 	case FCDGeometryPolygons::TRIANGLE_STRIPS: hasHoles = true; polygonNodeType = DAE_TRISTRIPS_ELEMENT; break;
-	case FCDGeometryPolygons::POINTS: polygonNodeType = DAE_POINTS_ELEMENT; break;
+	case FCDGeometryPolygons::POINTS: hasHoles = true; polygonNodeType = DAE_POINTS_ELEMENT; break;
 	default: polygonNodeType = emptyCharString; FUFail(break); break;
 	}
 	xmlNode* polygonsNode = AddChild(parentNode, polygonNodeType);
-- 
2.43.0


From 603b276d50a9a515a83f79c91e80e39c475948ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 031/209] fix: keep all the splines of a geometry on import

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 79e1d5e..90ee088 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -580,7 +580,8 @@ bool FArchiveXML::LoadGeometrySpline(FCDObject* object, xmlNode* splineNode)
 		FUDaeSplineType::Type splineType = FUDaeSplineType::FromString(ReadNodeContentFull(typeNode));
 
 		// The types must be compatible
-		if (!geometrySpline->SetType(splineType))
+		if (geometrySpline->GetSplineCount() == 0) geometrySpline->SetType(splineType);
+		else if (geometrySpline->GetType() != splineType)
 		{
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VARYING_SPLINE_TYPE, splineNode->line);
 			return status;
-- 
2.43.0


From 31e9e43e6e161ad52cdac8e99fdde1dce22ff694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 032/209] fix: remember what a convex mesh is the hull of

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 337d22f..149c90e 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -574,7 +574,9 @@ bool FArchiveXML::LinkGeometryMesh(FCDGeometryMesh* geometryMesh)
 		FCDGeometryMesh* origMesh = concaveGeom->GetMesh();
 		if (origMesh != NULL)
 		{
+			fm::string convexHullOf = geometryMesh->GetConvexHullOf();
 			origMesh->Clone(geometryMesh);
+			geometryMesh->SetConvexHullOf(convexHullOf); // overwritten by clone
 			geometryMesh->SetConvexify(geometryMesh != NULL);
 			geometryMesh->SetConvex(true); // may have been overwritten by clone
 		}
-- 
2.43.0


From d0c015fd0bda22696cc33aa82de6254b18fe8c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 033/209] fix: keep a surface's default viewport ratio and
 export mipmap_generate

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 5 +++++
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 396df15..12f0ae0 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -475,6 +475,11 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 		xmlNode* mipmapLevelsNode = AddChild(surfaceNode, DAE_MIP_LEVELS);
 		AddContent(mipmapLevelsNode, FUStringConversion::ToString(effectParameterSurface->GetMipLevelCount()));
 	}
+	if (effectParameterSurface->IsGenerateMipMaps())
+	{
+		xmlNode* mipmapGenerateNode = AddChild(surfaceNode, DAE_MIPMAP_GENERATE);
+		AddContent(mipmapGenerateNode, FUStringConversion::ToString(true));
+	}
 
 	return parameterNode;
 }
diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index f389c74..fccbb98 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -658,7 +658,7 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 	xmlNode* sizeNode = FindChildByType(surfaceNode, DAE_SIZE_ELEMENT);
 	effectParameterSurface->SetSize(FUStringConversion::ToVector3(ReadNodeContentDirect(sizeNode)));
 	xmlNode* viewportRatioNode = FindChildByType(surfaceNode, DAE_VIEWPORT_RATIO);
-	effectParameterSurface->SetViewportRatio(FUStringConversion::ToFloat(ReadNodeContentDirect(viewportRatioNode)));
+	if (viewportRatioNode != NULL) effectParameterSurface->SetViewportRatio(FUStringConversion::ToFloat(ReadNodeContentDirect(viewportRatioNode)));
 	xmlNode* mipLevelsNode = FindChildByType(surfaceNode, DAE_MIP_LEVELS);
 	effectParameterSurface->SetMipLevelCount((uint16) FUStringConversion::ToInt32(ReadNodeContentDirect(mipLevelsNode)));
 	xmlNode* mipmapGenerateNode = FindChildByType(surfaceNode, DAE_MIPMAP_GENERATE);
-- 
2.43.0


From da92b900fe1b23a21c1037e883474327e703b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 034/209] fix: keep every image of a surface's init_from
 elements on import

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index fccbb98..b53b8e9 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -468,16 +468,18 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 			effectParameterSurface->SetInitMethod(new FCDEffectParameterSurfaceInitFrom());
 
 		FCDEffectParameterSurfaceInitFrom* ptrInit = (FCDEffectParameterSurfaceInitFrom*)effectParameterSurface->GetInitMethod();
-		//StringList names;
-		FUStringConversion::ToStringList(ReadNodeContentFull(*it), effectParameterSurface->GetNames());
+		StringList names;
+		FUStringConversion::ToStringList(ReadNodeContentFull(*it), names);
 
-		if (effectParameterSurface->GetNames().size() == 0 || effectParameterSurface->GetNames()[0].empty())
+		if (names.size() == 0 || names[0].empty())
 		{
-			effectParameterSurface->GetNames().clear();
+			names.clear();
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_EMPTY_INIT_FROM, surfaceNode->line);
 		}
 
-		if (effectParameterSurface->GetNames().size() == 1) //might be 1.4.1, so allow the attributes mip, slice, face
+		effectParameterSurface->GetNames().insert(effectParameterSurface->GetNames().end(), names.begin(), names.end());
+
+		if (names.size() == 1) //might be 1.4.1, so allow the attributes mip, slice, face
 		{
 			if (HasNodeProperty(*it, DAE_MIP_ATTRIBUTE))
 			{
-- 
2.43.0


From 79bb6e2490627e96f72b98bdb5c98c517fe98082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 035/209] fix: export specular level and emission level
 textures

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 12f0ae0..ab07e1a 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -939,7 +939,8 @@ xmlNode* FArchiveXML::WriteEffectStandard(FCDObject* object, xmlNode* parentNode
 			{
 				FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAE_SHININESS_MATERIAL_PARAMETER, effectStandard->GetShininessParam(), FUDaeTextureChannel::SHININESS);
 			}
-			if (effectStandard->GetSpecularFactor() != 1.0f)
+			if (effectStandard->GetSpecularFactor() != 1.0f || effectStandard->GetSpecularFactorParam()->GetValue().IsAnimated()
+				|| !effectStandard->GetSpecularFactorParam()->IsConstant() || effectStandard->GetTextureCount(FUDaeTextureChannel::SPECULAR_LEVEL) > 0)
 			{
 				FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAEMAX_SPECLEVEL_MATERIAL_PARAMETER, effectStandard->GetSpecularFactorParam(), FUDaeTextureChannel::SPECULAR_LEVEL);
 			}
@@ -971,7 +972,7 @@ xmlNode* FArchiveXML::WriteEffectStandard(FCDObject* object, xmlNode* parentNode
 	}
 	if (effectStandard->IsEmissionFactor())
 	{
-		FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAEMAX_EMISSIONLEVEL_MATERIAL_PARAMETER, effectStandard->GetEmissionFactorParam(), FUDaeTextureChannel::UNKNOWN);
+		FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAEMAX_EMISSIONLEVEL_MATERIAL_PARAMETER, effectStandard->GetEmissionFactorParam(), FUDaeTextureChannel::EMISSION);
 	}
 	if (effectStandard->GetTextureCount(FUDaeTextureChannel::DISPLACEMENT) > 0)
 	{
-- 
2.43.0


From 5974733002c90567a9bf94d225395ee4ef772d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 036/209] fix: export the semantic of vector animator
 parameters

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index ab07e1a..d33af11 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -497,7 +497,7 @@ xmlNode* FArchiveXML::WriteEffectParameterVector(FCDObject* object, xmlNode* par
 	else if (effectParameterVector->IsAnimator())
 	{
 		xmlNode* parameterNode = FArchiveXML::WriteEffectParameter(effectParameterVector, parentNode);
-		AddAttribute(parameterNode, DAE_FXSTD_STATE_REF_ELEMENT, effectParameterVector->GetReference());
+		AddAttribute(parameterNode, DAE_SEMANTIC_ATTRIBUTE, effectParameterVector->GetSemantic());
 		AddAttribute(parameterNode, DAE_TYPE_ATTRIBUTE, DAEFC_FLOAT4_ATTRIBUTE_TYPE);
 		return parameterNode;
 	}
-- 
2.43.0


From 530e55d7dd772ecfcbc13a284f4e11780fd06045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 037/209] fix: unaligned accesses to packed pass state values

---
 FCollada/FCDocument/FCDEffectPassState.cpp        |  5 +++--
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 11 +++++++----
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp |  7 +++++--
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/FCollada/FCDocument/FCDEffectPassState.cpp b/FCollada/FCDocument/FCDEffectPassState.cpp
index c8fa080..abc65d3 100644
--- a/FCollada/FCDocument/FCDEffectPassState.cpp
+++ b/FCollada/FCDocument/FCDEffectPassState.cpp
@@ -54,8 +54,9 @@ FCDEffectPassState::FCDEffectPassState(FCDocument* document, FUDaePassState::Sta
 void FCDEffectPassState::SetDefaultValue()
 {
 
-#define SET_VALUE(offset, valueType, actualValue) *((valueType*)(data + offset)) = actualValue;
-#define SET_ENUM(offset, nameSpace, actualValue) *((uint32*)(data + offset)) = nameSpace::actualValue;
+	// The values are packed: they may not be aligned on their type's boundary.
+#define SET_VALUE(offset, valueType, actualValue) { valueType packedValue = actualValue; memcpy(data + offset, &packedValue, sizeof(valueType)); }
+#define SET_ENUM(offset, nameSpace, actualValue) { uint32 packedValue = nameSpace::actualValue; memcpy(data + offset, &packedValue, sizeof(uint32)); }
 
 	switch ((uint32) type)
 	{
diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index d33af11..d66d23a 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -580,12 +580,15 @@ xmlNode* FArchiveXML::WriteEffectPassState(FCDObject* object, xmlNode* parentNod
 
 	xmlNode* stateNode = AddChild(parentNode, FUDaePassState::ToString(effectPassState->GetType()));
 
-#define NODE_TYPE(offset, node, valueType, castType) \
-	AddAttribute(node, DAE_VALUE_ATTRIBUTE, FUStringConversion::ToString((castType) *((valueType*)(data + offset))));
+	// The values are packed: they may not be aligned on their type's boundary.
+#define NODE_TYPE(offset, node, valueType, castType) { \
+	valueType packedValue; memcpy((void*) &packedValue, data + offset, sizeof(valueType)); \
+	AddAttribute(node, DAE_VALUE_ATTRIBUTE, FUStringConversion::ToString((castType) packedValue)); }
 #define NODE_INDEX(offset, node) \
 	AddAttribute(node, DAE_INDEX_ATTRIBUTE, FUStringConversion::ToString((uint32) *((uint8*)(data + offset))));
-#define NODE_ENUM(offset, node, nameSpace, enumName) \
-	AddAttribute(node, DAE_VALUE_ATTRIBUTE, nameSpace::ToString((nameSpace::enumName) *((uint32*)(data + offset))));
+#define NODE_ENUM(offset, node, nameSpace, enumName) { \
+	uint32 packedValue; memcpy(&packedValue, data + offset, sizeof(uint32)); \
+	AddAttribute(node, DAE_VALUE_ATTRIBUTE, nameSpace::ToString((nameSpace::enumName) packedValue)); }
 
 #define CHILD_NODE_TYPE(offset, elementName, valueType, castType) { \
 	xmlNode* node = AddChild(stateNode, elementName); \
diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index b53b8e9..1b376fd 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -855,15 +855,18 @@ bool FArchiveXML::LoadEffectPassState(FCDObject* object, xmlNode* stateNode)
 
 	bool status = true;
 
+	// The values are packed: they may not be aligned on their type's boundary.
 #define NODE_TYPE(offset, node, valueType, convFn) \
 	if (node != NULL && HasNodeProperty(node, DAE_VALUE_ATTRIBUTE)) { \
-		*((valueType*)(effectPassState->GetData() + offset)) = (valueType) FUStringConversion::convFn(ReadNodeProperty(node, DAE_VALUE_ATTRIBUTE)); }
+		valueType packedValue = (valueType) FUStringConversion::convFn(ReadNodeProperty(node, DAE_VALUE_ATTRIBUTE)); \
+		memcpy(effectPassState->GetData() + offset, &packedValue, sizeof(valueType)); }
 #define NODE_INDEX(offset, node) \
 	if (node != NULL && HasNodeProperty(node, DAE_INDEX_ATTRIBUTE)) { \
 		*((uint8*)(effectPassState->GetData() + offset)) = (uint8) FUStringConversion::ToUInt32(ReadNodeProperty(node, DAE_INDEX_ATTRIBUTE)); }
 #define NODE_ENUM(offset, node, nameSpace) \
 	if (node != NULL && HasNodeProperty(node, DAE_VALUE_ATTRIBUTE)) { \
-		*((uint32*)(effectPassState->GetData() + offset)) = (uint32) nameSpace::FromString(ReadNodeProperty(node, DAE_VALUE_ATTRIBUTE)); }
+		uint32 packedValue = (uint32) nameSpace::FromString(ReadNodeProperty(node, DAE_VALUE_ATTRIBUTE)); \
+		memcpy(effectPassState->GetData() + offset, &packedValue, sizeof(uint32)); }
 
 #define CHILD_NODE_TYPE(offset, elementName, valueType, convFn) { \
 	xmlNode* node = FindChildByType(stateNode, elementName); \
-- 
2.43.0


From 773f4bf9515a5e7aaa8a9ae706f472e9f3e3f77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 038/209] fix: surface export without images

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index d66d23a..d6e257c 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -346,7 +346,7 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 						builder.append(effectParameterSurface->GetImage(i)->GetDaeId());
 						builder.append(' ');
 					}
-					builder.pop_back();
+					if (size > 0) builder.pop_back();
 					xmlNode* childNode = AddChild(surfaceNode, DAE_INITFROM_ELEMENT);
 					AddContent(childNode, builder.ToCharPtr());
 				}
@@ -369,12 +369,12 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 				if (in->volumeType == FCDEffectParameterSurfaceInitVolume::ALL)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				else if (in->volumeType == FCDEffectParameterSurfaceInitVolume::PRIMARY)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_PRIMARY_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				break;
 			}
@@ -385,13 +385,13 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 				if (in->cubeType == FCDEffectParameterSurfaceInitCube::ALL)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				else if (in->cubeType == FCDEffectParameterSurfaceInitCube::PRIMARY)
 				{
 					xmlNode* typeNode = AddChild(childNode, DAE_PRIMARY_ELEMENT);
 					AddChild(typeNode, DAE_ORDER_ELEMENT); //FIXME: complete when the spec gets more info.
-					AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+					if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				}
 				if (in->cubeType == FCDEffectParameterSurfaceInitCube::FACE)
 				{
@@ -407,7 +407,7 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 			{
 				xmlNode* childNode = AddChild(surfaceNode, DAE_INITPLANAR_ELEMENT);
 				xmlNode* typeNode = AddChild(childNode, DAE_ALL_ELEMENT);
-				AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
+				if (effectParameterSurface->GetImageCount() > 0) AddAttribute(typeNode, DAE_REF_ATTRIBUTE, effectParameterSurface->GetImage(0)->GetDaeId());
 				break;
 			}
 			default:
-- 
2.43.0


From 5fa591786fd610f08491502999641557985ef024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 039/209] fix: FCDTexture::SetImage released a sampler shared
 with other textures

---
 FCollada/FCDocument/FCDTexture.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDTexture.cpp b/FCollada/FCDocument/FCDTexture.cpp
index 7e13144..ce54ffe 100644
--- a/FCollada/FCDocument/FCDTexture.cpp
+++ b/FCollada/FCDocument/FCDTexture.cpp
@@ -74,8 +74,19 @@ const FCDImage* FCDTexture::GetImage() const
 // Set the image information for this texture.
 void FCDTexture::SetImage(FCDImage* image)
 {
-	// TODO: No parameter re-use for now.
-	SAFE_RELEASE(sampler);
+	// The sampler is shared by all the textures of the parent that use the same image:
+	// only release it when no other texture needs it.
+	bool isShared = false;
+	for (uint32 b = 0; parent != NULL && sampler != NULL && b < FUDaeTextureChannel::COUNT; ++b)
+	{
+		for (size_t t = 0; t < parent->GetTextureCount(b); ++t)
+		{
+			const FCDTexture* other = parent->GetTexture(b, t);
+			if (other != this && other->sampler == sampler) isShared = true;
+		}
+	}
+	if (isShared) sampler = NULL;
+	else SAFE_RELEASE(sampler);
 	if (image != NULL && parent != NULL)
 	{
 		// Look for a surface with the expected sid.
-- 
2.43.0


From 47af42d5605976268c9e8d6bad529d5f64b0baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 040/209] fix: color effect parameters accessed as vector
 effect parameters

---
 .../FArchiveXML/FAXMaterialExport.cpp         | 28 ++++++++++++----
 .../FArchiveXML/FAXMaterialImport.cpp         | 32 ++++++++++++++-----
 2 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index d6e257c..5d3ea11 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -211,13 +211,15 @@ xmlNode* FArchiveXML::WriteEffectParameterFloat2(FCDObject* object, xmlNode* par
 	return parameterNode;
 }
 
-xmlNode* FArchiveXML::WriteEffectParameterFloat3(FCDObject* object, xmlNode* parentNode)
+// The vector and color parameters only differ by the qualifiers of their values.
+template <class ParameterType>
+static xmlNode* WriteEffectParameterFloat3T(FCDObject* object, xmlNode* parentNode)
 {
-	FCDEffectParameterFloat3* effectParameterFloat3 = (FCDEffectParameterFloat3*) object;
+	ParameterType* effectParameterFloat3 = (ParameterType*) object;
 
 	xmlNode* parameterNode = FArchiveXML::WriteEffectParameter(effectParameterFloat3, parentNode);
 	fm::string s = FUStringConversion::ToString((FMVector3&) effectParameterFloat3->GetValue());
-	AddChild(parameterNode, (effectParameterFloat3->GetFloatType() == FCDEffectParameterFloat3::FLOAT) ? DAE_FXCMN_FLOAT3_ELEMENT : DAE_FXCMN_HALF3_ELEMENT, s);
+	AddChild(parameterNode, (effectParameterFloat3->GetFloatType() == ParameterType::FLOAT) ? DAE_FXCMN_FLOAT3_ELEMENT : DAE_FXCMN_HALF3_ELEMENT, s);
 	const char* wantedSubId = effectParameterFloat3->GetReference().c_str();
 	if (*wantedSubId == 0) wantedSubId = effectParameterFloat3->GetSemantic().c_str();
 	if (*wantedSubId == 0) wantedSubId = "flt3";
@@ -225,6 +227,12 @@ xmlNode* FArchiveXML::WriteEffectParameterFloat3(FCDObject* object, xmlNode* par
 	return parameterNode;
 }
 
+xmlNode* FArchiveXML::WriteEffectParameterFloat3(FCDObject* object, xmlNode* parentNode)
+{
+	if (object->HasType(FCDEffectParameterColor3::GetClassType())) return WriteEffectParameterFloat3T<FCDEffectParameterColor3>(object, parentNode);
+	return WriteEffectParameterFloat3T<FCDEffectParameterFloat3>(object, parentNode);
+}
+
 xmlNode* FArchiveXML::WriteEffectParameterInt(FCDObject* object, xmlNode* parentNode)
 {
 	FCDEffectParameterInt* effectParameterInt = (FCDEffectParameterInt*)object;
@@ -484,9 +492,11 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 	return parameterNode;
 }
 
-xmlNode* FArchiveXML::WriteEffectParameterVector(FCDObject* object, xmlNode* parentNode)
+// The vector and color parameters only differ by the qualifiers of their values.
+template <class ParameterType>
+static xmlNode* WriteEffectParameterVectorT(FCDObject* object, xmlNode* parentNode)
 {
-	FCDEffectParameterVector* effectParameterVector = (FCDEffectParameterVector*)object;
+	ParameterType* effectParameterVector = (ParameterType*)object;
 
 	if (effectParameterVector->IsReferencer())
 	{
@@ -506,7 +516,7 @@ xmlNode* FArchiveXML::WriteEffectParameterVector(FCDObject* object, xmlNode* par
 		xmlNode* parameterNode = FArchiveXML::WriteEffectParameter(effectParameterVector, parentNode);
 		FUSStringBuilder builder;
 		FUStringConversion::ToString(builder, effectParameterVector->GetValue());
-		AddChild(parameterNode, (effectParameterVector->GetFloatType() == FCDEffectParameterVector::FLOAT) ? DAE_FXCMN_FLOAT4_ELEMENT : DAE_FXCMN_HALF4_ELEMENT, builder);
+		AddChild(parameterNode, (effectParameterVector->GetFloatType() == ParameterType::FLOAT) ? DAE_FXCMN_FLOAT4_ELEMENT : DAE_FXCMN_HALF4_ELEMENT, builder);
 		const char* wantedSubId = effectParameterVector->GetReference().c_str();
 		if (*wantedSubId == 0) wantedSubId = effectParameterVector->GetSemantic().c_str();
 		if (*wantedSubId == 0) wantedSubId = "flt4";
@@ -515,6 +525,12 @@ xmlNode* FArchiveXML::WriteEffectParameterVector(FCDObject* object, xmlNode* par
 	}
 }
 
+xmlNode* FArchiveXML::WriteEffectParameterVector(FCDObject* object, xmlNode* parentNode)
+{
+	if (object->HasType(FCDEffectParameterColor4::GetClassType())) return WriteEffectParameterVectorT<FCDEffectParameterColor4>(object, parentNode);
+	return WriteEffectParameterVectorT<FCDEffectParameterVector>(object, parentNode);
+}
+
 xmlNode* FArchiveXML::WriteEffectPass(FCDObject* object, xmlNode* parentNode)
 {
 	FCDEffectPass* effectPass = (FCDEffectPass*)object;
diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 1b376fd..c385d30 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -267,21 +267,23 @@ bool FArchiveXML::LoadEffectParameterFloat2(FCDObject* object, xmlNode* paramete
 	return status;
 }
 
-bool FArchiveXML::LoadEffectParameterFloat3(FCDObject* object, xmlNode* parameterNode)
+// The vector and color parameters only differ by the qualifiers of their values.
+template <class ParameterType>
+static bool LoadEffectParameterFloat3T(FCDObject* object, xmlNode* parameterNode)
 {
 	if (!FArchiveXML::LoadEffectParameter(object, parameterNode)) return false;
 
 	bool status = true;
-	FCDEffectParameterFloat3* effectParameterFloat3 = (FCDEffectParameterFloat3*)object;
+	ParameterType* effectParameterFloat3 = (ParameterType*)object;
 	if (!effectParameterFloat3->IsAnimator())
 	{
 		xmlNode* valueNode = FindChildByType(parameterNode, DAE_FXCMN_FLOAT3_ELEMENT);
 		if (valueNode == NULL)
 		{
 			valueNode = FindChildByType(parameterNode, DAE_FXCMN_HALF3_ELEMENT);
-			effectParameterFloat3->SetFloatType(FCDEffectParameterFloat3::HALF);
+			effectParameterFloat3->SetFloatType(ParameterType::HALF);
 		}
-		else effectParameterFloat3->SetFloatType(FCDEffectParameterFloat3::FLOAT);
+		else effectParameterFloat3->SetFloatType(ParameterType::FLOAT);
 
 		const char* valueString = ReadNodeContentDirect(valueNode);
 		if (valueString == NULL || *valueString == 0)
@@ -297,6 +299,12 @@ bool FArchiveXML::LoadEffectParameterFloat3(FCDObject* object, xmlNode* paramete
 	return status;
 }
 
+bool FArchiveXML::LoadEffectParameterFloat3(FCDObject* object, xmlNode* parameterNode)
+{
+	if (object->HasType(FCDEffectParameterColor3::GetClassType())) return LoadEffectParameterFloat3T<FCDEffectParameterColor3>(object, parameterNode);
+	return LoadEffectParameterFloat3T<FCDEffectParameterFloat3>(object, parameterNode);
+}
+
 bool FArchiveXML::LoadEffectParameterInt(FCDObject* object, xmlNode* parameterNode)
 {
 	if (!FArchiveXML::LoadEffectParameter(object, parameterNode)) return false;
@@ -352,21 +360,23 @@ bool FArchiveXML::LoadEffectParameterString(FCDObject* object, xmlNode* paramete
 	return status;
 }
 
-bool FArchiveXML::LoadEffectParameterVector(FCDObject* object, xmlNode* parameterNode)
+// The vector and color parameters only differ by the qualifiers of their values.
+template <class ParameterType>
+static bool LoadEffectParameterVectorT(FCDObject* object, xmlNode* parameterNode)
 {
 	if (!FArchiveXML::LoadEffectParameter(object, parameterNode)) return false;
 
 	bool status = true;
-	FCDEffectParameterVector* effectParameterVector = (FCDEffectParameterVector*)object;
+	ParameterType* effectParameterVector = (ParameterType*)object;
 	if (!effectParameterVector->IsAnimator())
 	{
 		xmlNode* valueNode = FindChildByType(parameterNode, DAE_FXCMN_FLOAT4_ELEMENT);
 		if (valueNode == NULL)
 		{
 			valueNode = FindChildByType(parameterNode, DAE_FXCMN_HALF4_ELEMENT);
-			effectParameterVector->SetFloatType(FCDEffectParameterVector::HALF);
+			effectParameterVector->SetFloatType(ParameterType::HALF);
 		}
-		else effectParameterVector->SetFloatType(FCDEffectParameterVector::FLOAT);
+		else effectParameterVector->SetFloatType(ParameterType::FLOAT);
 
 		const char* valueString = ReadNodeContentDirect(valueNode);
 		if (valueString == NULL || *valueString == 0)
@@ -388,6 +398,12 @@ bool FArchiveXML::LoadEffectParameterVector(FCDObject* object, xmlNode* paramete
 	return status;
 }
 
+bool FArchiveXML::LoadEffectParameterVector(FCDObject* object, xmlNode* parameterNode)
+{
+	if (object->HasType(FCDEffectParameterColor4::GetClassType())) return LoadEffectParameterVectorT<FCDEffectParameterColor4>(object, parameterNode);
+	return LoadEffectParameterVectorT<FCDEffectParameterVector>(object, parameterNode);
+}
+
 bool FArchiveXML::LoadEffectParameterSampler(FCDObject* object, xmlNode* parameterNode)
 {
 	if (!FArchiveXML::LoadEffectParameter(object, parameterNode)) return false;
-- 
2.43.0


From 946a3fc3d12addb9427cca6294d20a7d81a3567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 041/209] fix: heap overflow in the POINT_DISTANCE_ATTENUATION
 pass state

---
 FCollada/FCDocument/FCDEffectPassState.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEffectPassState.cpp b/FCollada/FCDocument/FCDEffectPassState.cpp
index abc65d3..e231965 100644
--- a/FCollada/FCDocument/FCDEffectPassState.cpp
+++ b/FCollada/FCDocument/FCDEffectPassState.cpp
@@ -22,7 +22,7 @@ static const size_t dataSizeTable[FUDaePassState::COUNT] =
 	5, 5, 5, 5, 5, 5, 2, 2, 2, 2, 2, 2, 17, 256,			// [ 31- 44]
 	17, 2, 16, 16, 4, 4, 4, 8, 1, 8,						// [ 45- 54]
 	4, 4, 4, 16, 16, 1, 4, 4,								// [ 55- 62]
-	16, 16, 16, 4, 16, 64, 12, 4, 4, 4, 4,					// [ 63- 73]
+	16, 16, 16, 4, 16, 64, 16, 4, 4, 4, 4,					// [ 63- 73]
 	8, 64, 16, 4, 1, 1, 1, 1, 1, 1,							// [ 74- 83]
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,						// [ 84- 94]
 	1, 1, 1, 1, 1, 1, 1, 1,									// [ 95-102]
-- 
2.43.0


From b0411215e5877eeef52a354ba7653345f1c71286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 042/209] fix: one written interpolation per animation key, not
 twice as many with the first half unset

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 45aeabf..b746d23 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -404,7 +404,8 @@ void FArchiveXML::WriteSourceFCDAnimationCurve(FCDAnimationCurve* animationCurve
 	// Export the data arrays.
 	xmlNode* sourceNode = AddSourceFloat(parentNode, baseId + "-input", inputs, "TIME");
 	AddSourceFloat(parentNode, baseId + "-output", outputs, parameter);
-	fm::vector<FUDaeInterpolation::Interpolation> interpolations_(interpolations.size());
+	fm::vector<FUDaeInterpolation::Interpolation> interpolations_;
+	interpolations_.reserve(interpolations.size());
 	for (auto it = interpolations.begin(); it < interpolations.end(); ++it)
 		interpolations_.push_back(static_cast<FUDaeInterpolation::Interpolation>(*it));
 	AddSourceInterpolation(parentNode, baseId + "-interpolations", interpolations_);
@@ -606,7 +607,8 @@ void FArchiveXML::WriteSourceFCDAnimationMultiCurve(FCDAnimationMultiCurve* anim
 	// Export the data arrays
 	xmlNode* inputSourceNode = AddSourceFloat(parentNode, baseId + "-input", inputs, "TIME");
 	AddSourceFloat(parentNode, baseId + "-output", outputs, animationMultiCurve->GetDimension(), parameters);
-	fm::vector<FUDaeInterpolation::Interpolation> interpolations_(interpolations.size());
+	fm::vector<FUDaeInterpolation::Interpolation> interpolations_;
+	interpolations_.reserve(interpolations.size());
 	for (auto it = interpolations.begin(); it < interpolations.end(); ++it)
 		interpolations_.push_back(static_cast<FUDaeInterpolation::Interpolation>(*it));
 	AddSourceInterpolation(parentNode, baseId + "-interpolations", interpolations_);
-- 
2.43.0


From e11bb5d042851e999489613517599cfc142d131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 043/209] fix: the qualifier list of merged curves is freed
 after writing them

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index b746d23..34cb0b7 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -111,6 +111,7 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 		FArchiveXML::WriteSamplerFCDAnimationMultiCurve(multiCurve, parentNode, baseId);
 		FArchiveXML::WriteChannelFCDAnimationMultiCurve(multiCurve, parentNode, baseId, data.targetPointer);
 		SAFE_RELEASE(multiCurve);
+		SAFE_DELETE_ARRAY(qualifiers);
 	}
 	else
 	{
-- 
2.43.0


From f2b69d2eaa88e9907012acce08c16e8232b13dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 044/209] fix: importing an animation channel no longer
 replaces the animation's own extra tree

---
 .../FArchiveXML/FAXAnimationImport.cpp         | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index 4cd4f3a..b1b0be6 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -18,12 +18,6 @@
 #include "FCDocument/FCDAnimationCurve.h"
 #include "FCDocument/FCDAnimationMultiCurve.h"
 
-#define DONT_DEFINE_THIS
-
-#ifdef DONT_DEFINE_THIS
-#include <FCDocument/FCDExtra.h>
-#endif
-
 bool FArchiveXML::LoadAnimationChannel(FCDObject* object, xmlNode* channelNode)
 {
 	FCDAnimationChannel* animationChannel = (FCDAnimationChannel*)object;
@@ -36,18 +30,6 @@ bool FArchiveXML::LoadAnimationChannel(FCDObject* object, xmlNode* channelNode)
 	fm::string samplerId = ReadNodeSource(channelNode);
 	ReadNodeTargetProperty(channelNode, data.targetPointer, data.targetQualifier);
 
-#ifdef DONT_DEFINE_THIS
-	FCDAnimation* anim = animationChannel->GetParent();
-	FCDExtra* extra = anim->GetExtra();
-	extra->SetTransientFlag(); // Dont save this, its wasted whatever it is.
-	FCDEType* type = extra->AddType("AnimTargets");
-	FCDETechnique* teq = type->AddTechnique("TEMP");
-	teq->AddChildNode("pointer")->SetContent(TO_FSTRING(data.targetPointer));
-	teq->AddChildNode("pointer")->SetContent(TO_FSTRING(data.targetQualifier));
-#endif
-
-
-
 	xmlNode* samplerNode = FArchiveXML::FindChildByIdFCDAnimation(animationChannel->GetParent(), samplerId);
 	if (samplerNode == NULL || !IsEquivalent(samplerNode->name, DAE_SAMPLER_ELEMENT))
 	{
-- 
2.43.0


From abb9e7666829455c24bb168d3cadbc9032e54a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 045/209] fix: one unreadable animation channel no longer drops
 the valid ones after it

---
 FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index b1b0be6..8ef5fd8 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -399,8 +399,9 @@ bool FArchiveXML::LoadAnimation(FCDObject* object, xmlNode* node)
 		// Parse each <channel> element individually
 		// They each handle reading the <sampler> and <source> elements
 		FCDAnimationChannel* channel = animation->AddChannel();
-		status &= (FArchiveXML::LoadAnimationChannel(channel, *itC));
-		if (!status) SAFE_RELEASE(channel);
+		bool channelStatus = FArchiveXML::LoadAnimationChannel(channel, *itC);
+		if (!channelStatus) SAFE_RELEASE(channel);
+		status &= channelStatus;
 	}
 
 	// Parse all the hierarchical <animation> elements
-- 
2.43.0


From da4b7c6c22beaa7cfeb29af65ca30b9cf7d6f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 046/209] fix: animation clips keep their animation instances
 and names when written

---
 FCollada/FCDocument/FCDAnimationClip.h        |  7 +++++-
 .../FArchiveXML/FAXAnimationExport.cpp        | 23 +++++++++++++++----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationClip.h b/FCollada/FCDocument/FCDAnimationClip.h
index 8910592..0da9183 100644
--- a/FCollada/FCDocument/FCDAnimationClip.h
+++ b/FCollada/FCDocument/FCDAnimationClip.h
@@ -117,7 +117,12 @@ public:
     /** Retrieves the name of the animation at a given index.
         @param index The index of the animation.
         @return The name of the animation. */
-	inline fm::string GetAnimationName(size_t index) const { return names[index]; }
+	inline fm::string GetAnimationName(size_t index) const { return (index < names.size()) ? names[index] : fm::string(); }
+
+	/** Retrieves a given animation instance of this clip.
+		@param index The index of the animation instance to retrieve.
+		@return The animation instance at the given index. */
+	inline FCDEntityInstance* GetAnimationInstance(size_t index) { FUAssert(GetAnimationCount() > index, return NULL); return animations[index]; }
 
     /** [INTERNAL] Adds an animation instance.
         @return The empty animation instance. */
diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 34cb0b7..dbd4dcc 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -18,6 +18,7 @@
 #include "FCDocument/FCDAnimationCurve.h"
 #include "FCDocument/FCDAnimationMultiCurve.h"
 #include "FCDocument/FCDAnimationCurveTools.h"
+#include "FCDocument/FCDEntityInstance.h"
 
 xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNode)
 {
@@ -207,16 +208,30 @@ xmlNode* FArchiveXML::WriteAnimationClip(FCDObject* object, xmlNode* parentNode)
 	AddAttribute(clipNode, DAE_START_ATTRIBUTE, animationClip->GetStart());
 	AddAttribute(clipNode, DAE_END_ATTRIBUTE, animationClip->GetEnd());
 
-	// Build a list of the animations to instantiate
-	// from the list of curves for this clip
 	typedef fm::pvector<const FCDAnimation> FCDAnimationConstList;
-	FCDAnimationConstList animations;
+	FCDAnimationConstList animations, instantiated;
+
+	// Write out the instances this clip already holds
+	for (size_t i = 0; i < animationClip->GetAnimationCount(); ++i)
+	{
+		FCDEntityInstance* instance = animationClip->GetAnimationInstance(i);
+		xmlNode* instanceNode = FArchiveXML::LetWriteObject(instance, clipNode);
+		const fm::string name = animationClip->GetAnimationName(i);
+		if (instanceNode != NULL && instance->GetName().empty() && !name.empty())
+		{
+			AddAttribute(instanceNode, DAE_NAME_ATTRIBUTE, name);
+		}
+		instantiated.push_back(animationClip->GetAnimation(i));
+	}
+
+	// Build a list of the other animations to instantiate
+	// from the list of curves for this clip
 	for (FCDAnimationCurveTrackList::iterator itC = animationClip->GetClipCurves().begin(); itC != animationClip->GetClipCurves().end(); ++itC)
 	{
 		const FCDAnimationChannel* channel = (*itC)->GetParent();
 		if (channel == NULL) continue;
 		const FCDAnimation* animation = channel->GetParent();
-		if (animations.find(animation) == animations.end())
+		if (!animations.contains(animation) && !instantiated.contains(animation))
 		{
 			animations.push_back(animation);
 		}
-- 
2.43.0


From 19abe06f7cc7eee4ebe6425ab70714e96575873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 047/209] fix: animation targets keep the periods of their ids

---
 FCollada/FUtils/FUStringConversion.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUStringConversion.cpp b/FCollada/FUtils/FUStringConversion.cpp
index 64bcb4a..6615b75 100644
--- a/FCollada/FUtils/FUStringConversion.cpp
+++ b/FCollada/FUtils/FUStringConversion.cpp
@@ -209,7 +209,11 @@ fstring FUStringConversion::ToFString(const FMVector3& p)
 // Split the target string into its pointer and its qualifier(s)
 void FUStringConversion::SplitTarget(const fm::string& target, fm::string& pointer, fm::string& qualifier)
 {
-	size_t splitIndex = target.find_first_of("([.");
+	// The ids of the pointer may contain periods: the qualifier follows the last sub-id.
+	size_t startIndex = target.rfind('/');
+	startIndex = (startIndex != fm::string::npos) ? startIndex + 1 : 0;
+	size_t splitIndex = target.find_first_of("([", startIndex);
+	if (splitIndex == fm::string::npos) splitIndex = target.find_first_of(".", startIndex);
 	if (splitIndex != fm::string::npos)
 	{
 		pointer = target.substr(0, splitIndex);
-- 
2.43.0


From 99c8191d624baabc26185dfbc99d543808ed4af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:57 +0000
Subject: [PATCH 048/209] fix: a missing driver is reported when it is missing,
 not when it is found

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 149c90e..29b2ee9 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -98,7 +98,7 @@ bool FArchiveXML::LinkAnimation(FCDAnimation* animation)
 		FUAssert(it != FArchiveXML::documentLinkDataMap[channel->GetDocument()].animationChannelData.end(), continue);
 		FCDAnimationChannelData& data = it->second;
 
-		if (!data.driverPointer.empty() && channel->GetCurveCount() > 0 && channel->GetCurve(0)->HasDriver())
+		if (!data.driverPointer.empty() && channel->GetCurveCount() > 0 && !channel->GetCurve(0)->HasDriver())
 		{
 			status &= FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_ANIM_CURVE_DRIVER_MISSING);
 		}
-- 
2.43.0


From d2922fbcb013e0223c4704acc08f47e58bbb3da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 049/209] fix: drivers without curves of their own are written
 out; their first value is indexed once

---
 FCollada/FCDocument/FCDParameterAnimatable.h  |  5 +++
 .../FArchiveXML/FAXAnimationExport.cpp        | 35 +++++++++++++++----
 .../FArchiveXML/FAXSceneExport.cpp            |  8 ++++-
 FColladaPlugins/FArchiveXML/FAXStructures.h   |  2 ++
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp   |  7 ++++
 FColladaPlugins/FArchiveXML/FArchiveXML.h     | 10 ++++++
 6 files changed, 59 insertions(+), 8 deletions(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.h b/FCollada/FCDocument/FCDParameterAnimatable.h
index 600b08d..b134e2c 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.h
+++ b/FCollada/FCDocument/FCDParameterAnimatable.h
@@ -62,6 +62,11 @@ public:
 		@return Whether this animatable parameter is animated. */
 	bool IsAnimated() const;
 
+	/** Retrieves whether this animatable parameter already has an animation helper.
+		Unlike GetAnimated, this function never creates one.
+		@return Whether there is an animation helper. */
+	inline bool HasAnimated() const { return animated != NULL; }
+
 	/** Copy operator.
 		Note: the animation is not copied, right now.
 		@param parameter The other parameter.
diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index dbd4dcc..c3a6813 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -248,14 +248,39 @@ xmlNode* FArchiveXML::WriteAnimationClip(FCDObject* object, xmlNode* parentNode)
 	return clipNode;
 }
 
+void FArchiveXML::RegisterDrivers(FCDAnimation* animation)
+{
+	for (size_t i = 0; i < animation->GetChannelCount(); ++i)
+	{
+		FCDAnimationChannel* channel = animation->GetChannel(i);
+		for (size_t j = 0; j < channel->GetCurveCount(); ++j)
+		{
+			FCDAnimated* driver = channel->GetCurve(j)->GetDriverPtr();
+			if (driver == NULL) continue;
+			FCDAnimatedDriverList& drivers = FArchiveXML::documentLinkDataMap[driver->GetDocument()].animatedDrivers;
+			if (!drivers.contains(driver)) drivers.push_back(driver);
+		}
+	}
+	for (size_t i = 0; i < animation->GetChildrenCount(); ++i)
+	{
+		FArchiveXML::RegisterDrivers(animation->GetChild(i));
+	}
+}
+
+bool FArchiveXML::IsDriver(const FCDParameterAnimatable& value)
+{
+	if (!value.HasAnimated()) return false;
+	FCDAnimated* animated = const_cast<FCDAnimated*>(value.GetAnimated());
+	return FArchiveXML::documentLinkDataMap[animated->GetDocument()].animatedDrivers.contains(animated);
+}
+
 // Writes out a value's animations, if any, to the animation library of a COLLADA XML document.
 bool FArchiveXML::WriteAnimatedValue(const FCDParameterAnimatable* value, xmlNode* valueNode, const char* wantedSid, int32 arrayElement)
 {
-	if (value->IsAnimated() && valueNode != NULL)
+	if (valueNode != NULL && (value->IsAnimated() || FArchiveXML::IsDriver(*value)))
 	{
 		// Find the value's animations
 		FCDAnimated* animated = const_cast<FCDAnimated*>(value->GetAnimated());
-		if (!animated->HasCurve()) return false;
 		animated->SetArrayElement(arrayElement);
 		FArchiveXML::WriteAnimatedValue(animated, valueNode, wantedSid);
 		return true;
@@ -476,7 +501,7 @@ xmlNode* FArchiveXML::WriteSamplerFCDAnimationCurve(FCDAnimationCurve* animation
 	if (animationCurve->HasDriver())
 	{
 		FCDAnimatedDataMap::iterator it = FArchiveXML::documentLinkDataMap[animationCurve->GetDriverPtr()->GetDocument()].animatedData.find(animationCurve->GetDriverPtr());
-		FUAssert(it != FArchiveXML::documentLinkDataMap[animationCurve->GetDriverPtr()->GetDocument()].animatedData.end(),);
+		if (it == FArchiveXML::documentLinkDataMap[animationCurve->GetDriverPtr()->GetDocument()].animatedData.end()) return samplerNode; // The driver was not written out.
 		FCDAnimatedData& data = it->second;
 
 		FUSStringBuilder builder(data.pointer);
@@ -485,10 +510,6 @@ xmlNode* FArchiveXML::WriteSamplerFCDAnimationCurve(FCDAnimationCurve* animation
 		{
 			builder.append('('); builder.append(driverElement); builder.append(')');
 		}
-		if (animationCurve->GetDriverIndex() == 0)
-		{
-			builder.append('('); builder.append(animationCurve->GetDriverIndex()); builder.append(')');
-		}
 		AddInput(samplerNode, builder.ToCharPtr(), DAEMAYA_DRIVER_INPUT);
 	}
 
diff --git a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
index 0809691..7554bc2 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
@@ -367,7 +367,13 @@ void FArchiveXML::WriteTransformBase(FCDTransform* transform, xmlNode* transform
 	}
 
 	// Process the animation of the transform.
-	if (transform->IsAnimated())
+	bool isDriver = false;
+	FCDAnimatedDriverList& drivers = FArchiveXML::documentLinkDataMap[transform->GetDocument()].animatedDrivers;
+	for (FCDAnimatedDriverList::iterator it = drivers.begin(); it != drivers.end() && !isDriver; ++it)
+	{
+		isDriver = (*it)->GetTargetObject() == transform;
+	}
+	if (transform->IsAnimated() || isDriver)
 	{
 		FArchiveXML::WriteAnimatedValue(transform->GetAnimated(), transformNode, wantedSid);
 	}
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index c10a614..b547357 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -109,6 +109,7 @@ struct FCDAnimatedData
 	//StringList qualifiers;
 };
 typedef fm::map<FCDAnimated*, FCDAnimatedData> FCDAnimatedDataMap;
+typedef fm::pvector<FCDAnimated> FCDAnimatedDriverList;
 
 //
 // For FCDAnimationChannel
@@ -250,6 +251,7 @@ struct FCDocumentLinkData
 	FCDTargetedEntityDataMap targetedEntityDataMap;
 	FCDAnimationChannelDataMap animationChannelData;
 	FCDAnimatedDataMap animatedData;
+	FCDAnimatedDriverList animatedDrivers; // The drivers of the curves of the document being written out.
 	FCDAnimationCurveDataMap animationCurveData;
 	FCDAnimationDataMap animationData;
 	FCDPhysicsModelDataMap physicsModelDataMap;
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 8b7cf32..f2f9e35 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -855,6 +855,13 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 
 #undef CLEAN_LIBRARY_SUB_IDS
 
+		// Find out which values drive animation curves
+		FArchiveXML::documentLinkDataMap[theDocument].animatedDrivers.clear();
+		for (size_t i = 0; i < theDocument->GetAnimationLibrary()->GetEntityCount(); ++i)
+		{
+			FArchiveXML::RegisterDrivers(theDocument->GetAnimationLibrary()->GetEntity(i));
+		}
+
 		// Export the libraries
 #define EXPORT_LIBRARY(memberName, daeElementName) if (!(memberName)->IsEmpty() || (memberName)->GetExtra()->HasContent()) { \
 	xmlNode* libraryNode = AddChild(colladaNode, daeElementName); \
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.h b/FColladaPlugins/FArchiveXML/FArchiveXML.h
index fe667e7..c430e33 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.h
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.h
@@ -502,6 +502,16 @@ public:
 	static xmlNode* WriteAnimationClip(FCDObject* object, xmlNode* parentNode);
 
 	static bool WriteAnimatedValue(const FCDParameterAnimatable* value, xmlNode* valueNode, const char* wantedSid, int32 arrayElement = -1);
+
+	/** Records the animated values that drive the curves of an animation,
+		so that they are given a target pointer even when they have no curves of their own.
+		@param animation An animation. */
+	static void RegisterDrivers(FCDAnimation* animation);
+
+	/** Retrieves whether a value drives an animation curve of the document being written out.
+		@param value An animatable value.
+		@return Whether the value is the driver of an animation curve. */
+	static bool IsDriver(const FCDParameterAnimatable& value);
 	static void WriteAnimatedValue(const FCDAnimated* _animated, xmlNode* valueNode, const char* wantedSid);
 
 	static void WriteSourceFCDAnimationCurve(FCDAnimationCurve* animationCurve, xmlNode* parentNode, const fm::string& baseId);
-- 
2.43.0


From 76b1ec488e7eed6222e43a639af7e66116e9e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 050/209] fix: the animated nodes of the document's extra tree
 keep their curves

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index f2f9e35..42ecdf8 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -921,15 +921,15 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 				FArchiveXML::WriteLibrary(theDocument->GetEmitterLibrary(), libraryNode);
 		}
 
+		// Write out the document extra: before the animations, since its nodes may be animated.
+		FArchiveXML::WriteExtra(theDocument->GetExtra(), colladaNode);
+
 		// Write out the animations
 		if (animationLibraryNode != NULL)
 		{
 			if (!theDocument->GetAnimationLibrary()->GetTransientFlag())
 				FArchiveXML::WriteLibrary(theDocument->GetAnimationLibrary(), animationLibraryNode);
 		}
-
-		// Write out the document extra.
-		FArchiveXML::WriteExtra(theDocument->GetExtra(), colladaNode);
 	}
 
 	--FArchiveXML::loadedDocumentCount;
-- 
2.43.0


From f021aa2fde126679e21d7bb3668c90d71d86dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 051/209] fix: the animations of bound material parameters are
 written out

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 5d3ea11..dcfa173 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -187,6 +187,7 @@ xmlNode* FArchiveXML::WriteEffectParameterFloat(FCDObject* object, xmlNode* pare
 		xmlNode* parameterNode = FArchiveXML::WriteEffectParameter(effectParameterFloat, parentNode);
 		AddAttribute(parameterNode, DAE_SEMANTIC_ATTRIBUTE, effectParameterFloat->GetSemantic());
 		AddAttribute(parameterNode, DAE_TYPE_ATTRIBUTE, DAEFC_FLOAT_ATTRIBUTE_TYPE);
+		FArchiveXML::WriteAnimatedValue(&effectParameterFloat->GetValue(), parameterNode, "flt");
 		return parameterNode;
 	}
 	else
@@ -509,6 +510,7 @@ static xmlNode* WriteEffectParameterVectorT(FCDObject* object, xmlNode* parentNo
 		xmlNode* parameterNode = FArchiveXML::WriteEffectParameter(effectParameterVector, parentNode);
 		AddAttribute(parameterNode, DAE_SEMANTIC_ATTRIBUTE, effectParameterVector->GetSemantic());
 		AddAttribute(parameterNode, DAE_TYPE_ATTRIBUTE, DAEFC_FLOAT4_ATTRIBUTE_TYPE);
+		FArchiveXML::WriteAnimatedValue(&effectParameterVector->GetValue(), parameterNode, "flt4");
 		return parameterNode;
 	}
 	else
-- 
2.43.0


From 43ef6d0a3016cd0ad448497a9de6e7b4da1e4531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 052/209] fix: the document's extra trees are read after the
 animations, as their nodes may be animated

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 42ecdf8..23b60e6 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -654,11 +654,6 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 				}
 			}
 		}
-		else
-		{
-			// Dump this extra in the document's extra.
-			FArchiveXML::LoadExtra(theDocument->GetExtra(), *it);
-		}
 	}
 
 	// Process the ordered libraries
@@ -699,6 +694,13 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 		}
 	}
 
+	// Dump the other extras in the document's extra: after the animations, since its nodes may be animated.
+	for (xmlNodeList::iterator it = extraNodes.begin(); it != extraNodes.end(); ++it)
+	{
+		if (IsEquivalent(ReadNodeProperty(*it, DAE_TYPE_ATTRIBUTE), DAEFC_LIBRARIES_TYPE)) continue;
+		FArchiveXML::LoadExtra(theDocument->GetExtra(), *it);
+	}
+
 	// Resolve the node instances that appear before the node they instantiate
 	FCDSceneNodeInstanceDataList& nodeInstances = FArchiveXML::documentLinkDataMap[theDocument].sceneNodeInstanceData;
 	for (size_t i = 0; i < nodeInstances.size(); ++i)
-- 
2.43.0


From 1f42239d7d866f2bab164a8045897891b75f9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 053/209] fix: a controller instance without material bindings
 is not read as a geometry

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index c13abfc..632c2c2 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -113,8 +113,9 @@ bool FArchiveXML::LoadGeometryInstance(FCDObject* object, xmlNode* instanceNode)
 	else
 	{
 		// Blinding attempt to use the material semantic from the polygons as a material id.
-		FCDGeometry* geometry = (FCDGeometry*) geometryInstance->GetEntity();
-		if (geometry != NULL && geometry->HasType(FCDGeometry::GetClassType()) && geometry->IsMesh())
+		FCDEntity* entity = geometryInstance->GetEntity();
+		FCDGeometry* geometry = (entity != NULL) ? DynamicCast<FCDGeometry>(entity) : NULL;
+		if (geometry != NULL && geometry->IsMesh())
 		{
 			FCDGeometryMesh* mesh = geometry->GetMesh();
 			size_t polyCount = mesh->GetPolygonsCount();
-- 
2.43.0


From efad49ca8da57c61d7363deac6c59ceefd1ed76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 054/209] fix: a morph controller finds its base when it is
 another controller

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 29b2ee9..5ace427 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -548,7 +548,7 @@ bool FArchiveXML::LinkMorphController(FCDMorphController* morphController)
 	{
 		fm::string targetId = SkipPound(data.targetId);
 		FCDEntity* baseTarget = morphController->GetDocument()->FindGeometry(targetId);
-		if (baseTarget == NULL) baseTarget = morphController->GetDocument()->FindController(data.targetId);
+		if (baseTarget == NULL) baseTarget = morphController->GetDocument()->FindController(targetId);
 		if (baseTarget == NULL)
 		{
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_UNKNOWN_MC_BASE_TARGET_MISSING, 0);
-- 
2.43.0


From 7a375b5d6c5494a6385cfd93580782d0aaa74d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:26 +0000
Subject: [PATCH 055/209] fix: a driver among the morph weights keeps its index
 in the list

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp |  3 ++-
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp   | 12 ++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index c3a6813..d6fecf2 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -505,7 +505,8 @@ xmlNode* FArchiveXML::WriteSamplerFCDAnimationCurve(FCDAnimationCurve* animation
 		FCDAnimatedData& data = it->second;
 
 		FUSStringBuilder builder(data.pointer);
-		int32 driverElement = animationCurve->GetDriverIndex();
+		int32 driverElement = animationCurve->GetDriverPtr()->GetArrayElement();
+		if (driverElement < 0) driverElement = animationCurve->GetDriverIndex();
 		if (driverElement >= 0)
 		{
 			builder.append('('); builder.append(driverElement); builder.append(')');
diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 5ace427..a36b788 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -73,14 +73,22 @@ bool FArchiveXML::LinkDriver(FCDAnimationChannel* animationChannel, FCDAnimated*
 
 	bool driver = !data.driverPointer.empty();
 	driver &= animatedTargetPointer == data.driverPointer;
-	driver &= data.driverQualifier >= 0 && (uint32) data.driverQualifier < animated->GetValueCount();
+
+	// The qualifier of a list element, such as a morph target weight, is its index in the list.
+	int32 driverIndex = data.driverQualifier;
+	if (animated->GetArrayElement() >= 0)
+	{
+		driver &= driverIndex == animated->GetArrayElement();
+		driverIndex = 0;
+	}
+	driver &= driverIndex >= 0 && (uint32) driverIndex < animated->GetValueCount();
 	if (driver)
 	{
 		// Retrieve the value pointer for the driver
 		size_t curveCount = animationChannel->GetCurveCount();
 		for (size_t c = 0; c < curveCount; ++c)
 		{
-			animationChannel->GetCurve(c)->SetDriver(animated, data.driverQualifier);
+			animationChannel->GetCurve(c)->SetDriver(animated, driverIndex);
 		}
 	}
 	return driver;
-- 
2.43.0


From a27463994933c7393c213537a73343e391dadd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 056/209] fix: write the equation of a collision plane in the
 order in which it is read

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index b6b8444..bd4bf41 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -129,8 +129,7 @@ xmlNode* FArchiveXML::WritePASPlane(FCDObject* object, xmlNode* node)
 	FCDPASPlane* pASPlane = (FCDPASPlane*)object;
 
 	xmlNode* geomNode = AddChild(node, DAE_PLANE_ELEMENT);
-	FMVector4 equation;
-	equation.w = pASPlane->normal.x; equation.x = pASPlane->normal.y; equation.y = pASPlane->normal.z; equation.z = pASPlane->d;
+	FMVector4 equation(pASPlane->normal, pASPlane->d);
 	fm::string s = FUStringConversion::ToString(equation);
 	AddChild(geomNode, DAE_EQUATION_ELEMENT, s);
 	return geomNode;
-- 
2.43.0


From 9e90b0f63c889a72ade892210d6564f541e2a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 057/209] fix: read the spring of a rigid constraint from its
 common technique, where it is written

---
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 0f88407..3627ffe 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -838,7 +838,8 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 		}
 	}
 
-	xmlNode* spring = FindChildByType(physicsRigidConstraintNode, DAE_SPRING_ELEMENT);
+	xmlNode* spring = FindChildByType(techniqueNode, DAE_SPRING_ELEMENT);
+	if (spring == NULL) spring = FindChildByType(physicsRigidConstraintNode, DAE_SPRING_ELEMENT);
 	if (spring)
 	{
 		xmlNode* linearSpring = FindChildByType(spring, DAE_LINEAR_ELEMENT);
-- 
2.43.0


From e87df6d4a1eb1ddc786aa9188ab4d786b0848b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 058/209] fix: write the physics material owned by a shape as
 its child, where it is read

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index bd4bf41..f2ecde0 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -38,8 +38,7 @@ xmlNode* FArchiveXML::WritePhysicsShape(FCDObject* object, xmlNode* parentNode)
 
 	if (physicsShape->OwnsPhysicsMaterial() && physicsShape->GetPhysicsMaterial())
 	{
-		xmlNode* materialNode = AddChild(physicsShapeNode, DAE_PHYSICS_MATERIAL_ELEMENT);
-		FArchiveXML::LetWriteObject(physicsShape->GetPhysicsMaterial(), materialNode);
+		FArchiveXML::LetWriteObject(physicsShape->GetPhysicsMaterial(), physicsShapeNode);
 	}
 	else if (physicsShape->GetInstanceMaterial())
 	{
-- 
2.43.0


From f42b65526989e062dd459d6daa965f5c0862d152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 059/209] fix: keep the link from a shape to a library physics
 material through save and load

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 5 +++++
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index f2ecde0..fe8a6de 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -44,6 +44,11 @@ xmlNode* FArchiveXML::WritePhysicsShape(FCDObject* object, xmlNode* parentNode)
 	{
 		FArchiveXML::LetWriteObject(physicsShape->GetInstanceMaterial(), physicsShapeNode);
 	}
+	else if (physicsShape->GetPhysicsMaterial() != NULL)
+	{
+		xmlNode* instanceNode = AddChild(physicsShapeNode, DAE_INSTANCE_PHYSICS_MATERIAL_ELEMENT);
+		AddAttribute(instanceNode, DAE_URL_ATTRIBUTE, fm::string("#") + physicsShape->GetPhysicsMaterial()->GetDaeId());
+	}
 
 	if (physicsShape->GetGeometryInstance())
 		FArchiveXML::LetWriteObject(physicsShape->GetGeometryInstance(), physicsShapeNode);
diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 3627ffe..251d15f 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -292,6 +292,10 @@ bool FArchiveXML::LoadPhysicsShape(FCDObject* object, xmlNode* physicsShapeNode)
 				FArchiveXML::LoadPhysicsMaterial(material, child);
 				physicsShape->GetInstanceMaterial()->SetEntity(material);
 			}
+			else
+			{
+				physicsShape->SetPhysicsMaterial((FCDPhysicsMaterial*) physicsShape->GetInstanceMaterial()->GetEntity());
+			}
 		}
 		else if (IsEquivalent(child->name, DAE_INSTANCE_GEOMETRY_ELEMENT))
 		{
-- 
2.43.0


From 66075fd08db782a37363bb13f8e7c9a313db1a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 060/209] fix: create the instance of a force field whose
 entity is not known yet

---
 FCollada/FCDocument/FCDPhysicsModelInstance.cpp | 3 ++-
 FCollada/FCDocument/FCDPhysicsScene.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsModelInstance.cpp b/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
index adf13a7..4bebc04 100644
--- a/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
+++ b/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
@@ -55,7 +55,8 @@ FCDPhysicsRigidConstraintInstance* FCDPhysicsModelInstance::AddRigidConstraintIn
 
 FCDPhysicsForceFieldInstance* FCDPhysicsModelInstance::AddForceFieldInstance(FCDForceField* forceField)
 {
-	FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(GetDocument(), (FCDSceneNode*) NULL, forceField);
+	FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(GetDocument(), NULL, FCDEntity::FORCE_FIELD);
+	instance->SetEntity(forceField);
 	instances.push_back(instance);
 	SetNewChildFlag();
 	return (FCDPhysicsForceFieldInstance*)instance;
diff --git a/FCollada/FCDocument/FCDPhysicsScene.cpp b/FCollada/FCDocument/FCDPhysicsScene.cpp
index 15ddf3c..276eb1a 100644
--- a/FCollada/FCDocument/FCDPhysicsScene.cpp
+++ b/FCollada/FCDocument/FCDPhysicsScene.cpp
@@ -81,7 +81,8 @@ FCDPhysicsForceFieldInstance* FCDPhysicsScene::AddForceFieldInstance(FCDForceFie
 {
 	FCDPhysicsForceFieldInstance* instance = (FCDPhysicsForceFieldInstance*)
 			FCDEntityInstanceFactory::CreateInstance(
-					GetDocument(), (FCDSceneNode*) NULL, forceField);
+					GetDocument(), NULL, FCDEntity::FORCE_FIELD);
+	instance->SetEntity(forceField);
 	forceFieldInstances.push_back(instance);
 	SetNewChildFlag();
 	return instance;
-- 
2.43.0


From 23d110f36b44fe552243bb7b1aca0443762b01d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 061/209] fix: write the rigid body of an instance by sub-id,
 as it is looked up, and allow for no target

---
 FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
index c37ecc8..475c88a 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
@@ -250,8 +250,14 @@ xmlNode* FArchiveXML::WritePhysicsRigidBodyInstance(FCDObject* object, xmlNode*
 
 	xmlNode* instanceNode = FArchiveXML::WriteEntityInstance(physicsRigidBodyInstance, parentNode);
 
-	AddAttribute(instanceNode, DAE_TARGET_ATTRIBUTE, fm::string("#") + physicsRigidBodyInstance->GetTargetNode()->GetDaeId());
-	AddAttribute(instanceNode, DAE_BODY_ATTRIBUTE, physicsRigidBodyInstance->GetEntity()->GetDaeId());
+	if (physicsRigidBodyInstance->GetTargetNode() != NULL)
+	{
+		AddAttribute(instanceNode, DAE_TARGET_ATTRIBUTE, fm::string("#") + physicsRigidBodyInstance->GetTargetNode()->GetDaeId());
+	}
+	if (physicsRigidBodyInstance->GetRigidBody() != NULL)
+	{
+		AddAttribute(instanceNode, DAE_BODY_ATTRIBUTE, physicsRigidBodyInstance->GetRigidBody()->GetSubId());
+	}
 
 	//inconsistency in the spec
 	RemoveAttribute(instanceNode, DAE_URL_ATTRIBUTE);
-- 
2.43.0


From 24a2ed57760a74dce97f19af4d1f7a3bbbacb1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 062/209] fix: keep the order and sub-ids of the transforms of
 a rigid constraint when loading

---
 .../FArchiveXML/FAXPhysicsImport.cpp          | 37 +++++++++----------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 251d15f..f4da97f 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -724,21 +724,20 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 
 	physicsRigidConstraint->SetSubId(FUDaeParser::ReadNodeSid(physicsRigidConstraintNode));
 
-#define PARSE_TRANSFORM(node, className, nodeName, transforms) { \
-	xmlNodeList transformNodes; \
-	FindChildrenByType(node, nodeName, transformNodes); \
-	for (xmlNodeList::iterator itT = transformNodes.begin(); itT != transformNodes.end(); ++itT) \
+#define PARSE_TRANSFORMS(node, transforms) { \
+	for (xmlNode* child = (node != NULL) ? node->children : NULL; child != NULL; child = child->next) \
 	{ \
-		if (IsEquivalent((*itT)->name, nodeName)) { \
-			className* transform = new className(physicsRigidConstraint->GetDocument(), NULL); \
-			transforms.push_back(transform); \
-			status = FArchiveXML::LoadSwitch(transform, &transform->GetObjectType(), *itT); \
-			if (!status) { \
-				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_TRANSFORM, (*itT)->line);} \
-		} \
-	}  }
-
-
+		if (child->type != XML_ELEMENT_NODE) continue; \
+		FCDTransform* transform = NULL; \
+		if (IsEquivalent(child->name, DAE_ROTATE_ELEMENT)) transform = new FCDTRotation(physicsRigidConstraint->GetDocument(), NULL); \
+		else if (IsEquivalent(child->name, DAE_TRANSLATE_ELEMENT)) transform = new FCDTTranslation(physicsRigidConstraint->GetDocument(), NULL); \
+		if (transform == NULL) continue; \
+		transforms.push_back(transform); \
+		transform->SetSubId(FUDaeParser::ReadNodeSid(child)); \
+		status = FArchiveXML::LoadSwitch(transform, &transform->GetObjectType(), child); \
+		if (!status) { \
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_TRANSFORM, child->line);} \
+	} }
 
 	//Reference-frame body
 	xmlNode* referenceBodyNode = FindChildByType(physicsRigidConstraintNode, DAE_REF_ATTACHMENT_ELEMENT);
@@ -757,8 +756,7 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 		}
 	}
 	// Parse the node's transforms: <rotate>, <translate>
-	PARSE_TRANSFORM(referenceBodyNode, FCDTRotation, DAE_ROTATE_ELEMENT, physicsRigidConstraint->GetTransformsRef())
-	PARSE_TRANSFORM(referenceBodyNode, FCDTTranslation, DAE_TRANSLATE_ELEMENT, physicsRigidConstraint->GetTransformsRef())
+	PARSE_TRANSFORMS(referenceBodyNode, physicsRigidConstraint->GetTransformsRef())
 
 	// target body
 	xmlNode* bodyNode = FindChildByType(physicsRigidConstraintNode, DAE_ATTACHMENT_ELEMENT);
@@ -776,11 +774,10 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_TARGE_BS_REF_NODE_MISSING, bodyNode->line);
 		}
 	}
-	// Parse the node's transforms: <rotate>, <scale>, <translate>
-	PARSE_TRANSFORM(bodyNode, FCDTRotation, DAE_ROTATE_ELEMENT, physicsRigidConstraint->GetTransformsTar())
-	PARSE_TRANSFORM(bodyNode, FCDTTranslation, DAE_TRANSLATE_ELEMENT, physicsRigidConstraint->GetTransformsTar())
+	// Parse the node's transforms: <rotate>, <translate>
+	PARSE_TRANSFORMS(bodyNode, physicsRigidConstraint->GetTransformsTar())
 
-#undef PARSE_TRANSFORM
+#undef PARSE_TRANSFORMS
 
 	//technique_common
 	xmlNode* techniqueNode = FindChildByType(physicsRigidConstraintNode, DAE_TECHNIQUE_COMMON_ELEMENT);
-- 
2.43.0


From 76e7bbb2dde261759246f57bc93bdc60582ff650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 063/209] fix: keep the sub-ids of the transforms of a physics
 shape when loading

---
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index f4da97f..c8afa8a 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -342,6 +342,7 @@ bool FArchiveXML::LoadPhysicsShape(FCDObject* object, xmlNode* physicsShapeNode)
 			if (transformType == FCDTransform::TRANSLATION || transformType == FCDTransform::ROTATION)
 			{
 				FCDTransform* transform = physicsShape->AddTransform((FCDTransform::Type) transformType);
+				transform->SetSubId(FUDaeParser::ReadNodeSid(child));
 				status &= (FArchiveXML::LoadSwitch(transform, &transform->GetObjectType(), child));
 			}
 		}
-- 
2.43.0


From 38e89cc5134ba4402befc9a372c2735801adf1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 064/209] fix: write the animation of the mass frame
 orientation

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index fe8a6de..d29fcb7 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -302,7 +302,11 @@ void FArchiveXML::WritePhysicsRigidBodyParameters(FCDPhysicsRigidBodyParameters*
 	xmlNode* massFrameNode = AddChild(techniqueNode, DAE_MASS_FRAME_ELEMENT);
 	FArchiveXML::AddPhysicsParameter(massFrameNode, DAE_TRANSLATE_ELEMENT, physicsRigidBodyParameters->GetMassFrameTranslate());
 	FMVector4 massFrameRotate(physicsRigidBodyParameters->GetMassFrameRotateAxis(), physicsRigidBodyParameters->GetMassFrameRotateAngle());
-	AddChild(massFrameNode, DAE_ROTATE_ELEMENT, massFrameRotate);
+	xmlNode* massFrameRotateNode = AddChild(massFrameNode, DAE_ROTATE_ELEMENT, massFrameRotate);
+	if (physicsRigidBodyParameters->GetMassFrameOrientation().IsAnimated())
+	{
+		FArchiveXML::WriteAnimatedValue(&physicsRigidBodyParameters->GetMassFrameOrientation(), massFrameRotateNode, DAE_ROTATE_ELEMENT);
+	}
 	if (physicsRigidBodyParameters->IsInertiaAccurate())
 	{
 		FArchiveXML::AddPhysicsParameter(techniqueNode, DAE_INERTIA_ELEMENT, physicsRigidBodyParameters->GetInertia());
-- 
2.43.0


From 99fc6703ee6d4fb424782452a439418f9e4a8b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 065/209] fix: load the animations of the velocities of a rigid
 body instance

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index 632c2c2..f46c4c7 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -326,6 +326,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 	{
 		physicsRigidBodyInstance->SetAngularVelocity(FUStringConversion::ToVector3(
 				ReadNodeContentDirect(param)));
+		FArchiveXML::LoadAnimatable(&physicsRigidBodyInstance->GetAngularVelocity(), param);
 	}
 	else
 	{
@@ -336,6 +337,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 	if (param != NULL)
 	{
 		physicsRigidBodyInstance->SetVelocity(FUStringConversion::ToVector3(ReadNodeContentDirect(param)));
+		FArchiveXML::LoadAnimatable(&physicsRigidBodyInstance->GetVelocity(), param);
 	}
 	else
 	{
-- 
2.43.0


From 838347cdf764f7a7af654b5f3203017441f96f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 066/209] fix: accept position sources of more than three
 floats for the volume of a shape

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index ad60a08..faf4e7f 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -213,7 +213,7 @@ float FCDPhysicsShape::CalculateVolume() const
 				const FCDGeometryPolygonsInput* positionInput = polygons->FindInput(FUDaeGeometryInput::POSITION);
 				const FCDGeometrySource* positionSource = positionInput->GetSource();
 				uint32 positionStride = positionSource->GetStride();
-				FUAssert(positionStride == 3, continue;);
+				FUAssert(positionStride >= 3, continue;);
 				const float* positionData = positionSource->GetData();
 				size_t positionDataLength = positionSource->GetDataCount();
 				for (size_t pos = 0; pos < positionDataLength;)
-- 
2.43.0


From e41d3786fad63c1c689bdd9aadaf163e348fe9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 067/209] fix: load the physics model instances of a model in
 document order

---
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 8 ++++----
 FColladaPlugins/FArchiveXML/FAXStructures.h      | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index c8afa8a..c722abc 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -233,12 +233,12 @@ bool FArchiveXML::AttachModelInstancesFCDPhysicsModel(FCDPhysicsModel* physicsMo
 	FUAssert(it != FArchiveXML::documentLinkDataMap[physicsModel->GetDocument()].physicsModelDataMap.end(),);
 	FCDPhysicsModelData& data = it->second;
 
-	for (ModelInstanceNameNodeMap::iterator it = data.modelInstancesMap.begin(); it != data.modelInstancesMap.end(); ++it)
+	for (ModelInstanceNodeList::iterator it = data.modelInstanceNodes.begin(); it != data.modelInstanceNodes.end(); ++it)
 	{
 		FCDPhysicsModelInstance* instance = physicsModel->AddPhysicsModelInstance();
-		status &= FArchiveXML::LoadPhysicsModelInstance(instance, it->first);
+		status &= FArchiveXML::LoadPhysicsModelInstance(instance, *it);
 	}
-	data.modelInstancesMap.clear();
+	data.modelInstanceNodes.clear();
 	return status;
 }
 
@@ -674,7 +674,7 @@ bool FArchiveXML::LoadPhysicsModel(FCDObject* object, xmlNode* physicsModelNode)
 		}
 		else if (IsEquivalent(child->name, DAE_INSTANCE_PHYSICS_MODEL_ELEMENT))
 		{
-			data.modelInstancesMap.insert(child, ReadNodeUrl(child));
+			data.modelInstanceNodes.push_back(child);
 		}
 	}
 
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index b547357..c6c6a0a 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -174,10 +174,10 @@ typedef fm::map<FCDAnimation*, FCDAnimationData> FCDAnimationDataMap;
 //
 // For FCDPhysicsModel
 //
-typedef fm::map<xmlNode*, FUUri> ModelInstanceNameNodeMap;
+typedef fm::pvector<xmlNode> ModelInstanceNodeList;
 struct FCDPhysicsModelData
 {
-	ModelInstanceNameNodeMap modelInstancesMap;
+	ModelInstanceNodeList modelInstanceNodes; // In document order.
 };
 typedef fm::map<FCDPhysicsModel*, FCDPhysicsModelData> FCDPhysicsModelDataMap;
 
-- 
2.43.0


From 38348bd27a9a4cd47c0877a4c011a55eb18f1c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 068/209] fix: write instances kept in extra trees of documents
 whose animations were not loaded

---
 FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp | 2 +-
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index 8ef5fd8..f42c54b 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -608,7 +608,7 @@ void FArchiveXML::FindAnimationChannels(FCDAnimation* animation, const fm::strin
 	for (size_t i = 0; i < animation->GetChannelCount(); ++i)
 	{
 		FCDAnimationChannelDataMap::iterator itChannelData = FArchiveXML::documentLinkDataMap[animation->GetChannel(i)->GetDocument()].animationChannelData.find(animation->GetChannel(i));
-		FUAssert(itChannelData != FArchiveXML::documentLinkDataMap[animation->GetChannel(i)->GetDocument()].animationChannelData.end(),);
+		if (itChannelData == FArchiveXML::documentLinkDataMap[animation->GetChannel(i)->GetDocument()].animationChannelData.end()) continue; // Not a loaded channel.
 		FCDAnimationChannelData& channelData = itChannelData->second;
 
 		if (channelData.targetPointer == pointer)
diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index a36b788..587e45a 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -68,7 +68,7 @@ bool FArchiveXML::LinkDriver(FCDAnimation* animation, FCDAnimated* animated, con
 bool FArchiveXML::LinkDriver(FCDAnimationChannel* animationChannel, FCDAnimated* animated, const fm::string& animatedTargetPointer)
 {
 	FCDAnimationChannelDataMap::iterator it = FArchiveXML::documentLinkDataMap[animationChannel->GetDocument()].animationChannelData.find(animationChannel);
-	FUAssert(it != FArchiveXML::documentLinkDataMap[animationChannel->GetDocument()].animationChannelData.end(),);
+	if (it == FArchiveXML::documentLinkDataMap[animationChannel->GetDocument()].animationChannelData.end()) return false; // Not a loaded channel.
 	FCDAnimationChannelData& data = it->second;
 
 	bool driver = !data.driverPointer.empty();
-- 
2.43.0


From 3c54d5274ddbcb44684490183eeb47beb86cc14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 069/209] fix: write the driver targets among the physics
 values

---
 .../FArchiveXML/FAXPhysicsExport.cpp          | 19 +++++--------------
 FColladaPlugins/FArchiveXML/FArchiveXML.h     |  6 +-----
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index d29fcb7..b417906 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -225,17 +225,11 @@ xmlNode* FArchiveXML::WritePhysicsRigidConstraint(FCDObject* object, xmlNode* pa
 
 	xmlNode* baseNode = AddChild(physicsRigidConstraintNode, DAE_TECHNIQUE_COMMON_ELEMENT);
 	xmlNode* enabledNode = AddChild(baseNode, DAE_ENABLED_ELEMENT, physicsRigidConstraint->GetEnabled());
-	if (physicsRigidConstraint->GetEnabled().IsAnimated())
-	{
-		FArchiveXML::WriteAnimatedValue(&physicsRigidConstraint->GetEnabled(), enabledNode,
-			!physicsRigidConstraint->GetSubId().empty() ? physicsRigidConstraint->GetSubId().c_str() : "constrain");
-	}
+	FArchiveXML::WriteAnimatedValue(&physicsRigidConstraint->GetEnabled(), enabledNode,
+		!physicsRigidConstraint->GetSubId().empty() ? physicsRigidConstraint->GetSubId().c_str() : "constrain");
 	xmlNode* interpenetrateNode = AddChild(baseNode, DAE_INTERPENETRATE_ELEMENT, physicsRigidConstraint->GetInterpenetrate());
-	if (physicsRigidConstraint->GetInterpenetrate().IsAnimated())
-	{
-		FArchiveXML::WriteAnimatedValue(&physicsRigidConstraint->GetInterpenetrate(), interpenetrateNode,
-			!physicsRigidConstraint->GetSubId().empty() ? physicsRigidConstraint->GetSubId().c_str() : "interpenetrate");
-	}
+	FArchiveXML::WriteAnimatedValue(&physicsRigidConstraint->GetInterpenetrate(), interpenetrateNode,
+		!physicsRigidConstraint->GetSubId().empty() ? physicsRigidConstraint->GetSubId().c_str() : "interpenetrate");
 	xmlNode* limitsNode = AddChild(baseNode, DAE_LIMITS_ELEMENT);
 
 	xmlNode* sctNode = AddChild(limitsNode, DAE_SWING_CONE_AND_TWIST_ELEMENT);
@@ -303,10 +297,7 @@ void FArchiveXML::WritePhysicsRigidBodyParameters(FCDPhysicsRigidBodyParameters*
 	FArchiveXML::AddPhysicsParameter(massFrameNode, DAE_TRANSLATE_ELEMENT, physicsRigidBodyParameters->GetMassFrameTranslate());
 	FMVector4 massFrameRotate(physicsRigidBodyParameters->GetMassFrameRotateAxis(), physicsRigidBodyParameters->GetMassFrameRotateAngle());
 	xmlNode* massFrameRotateNode = AddChild(massFrameNode, DAE_ROTATE_ELEMENT, massFrameRotate);
-	if (physicsRigidBodyParameters->GetMassFrameOrientation().IsAnimated())
-	{
-		FArchiveXML::WriteAnimatedValue(&physicsRigidBodyParameters->GetMassFrameOrientation(), massFrameRotateNode, DAE_ROTATE_ELEMENT);
-	}
+	FArchiveXML::WriteAnimatedValue(&physicsRigidBodyParameters->GetMassFrameOrientation(), massFrameRotateNode, DAE_ROTATE_ELEMENT);
 	if (physicsRigidBodyParameters->IsInertiaAccurate())
 	{
 		FArchiveXML::AddPhysicsParameter(techniqueNode, DAE_INERTIA_ELEMENT, physicsRigidBodyParameters->GetInertia());
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.h b/FColladaPlugins/FArchiveXML/FArchiveXML.h
index c430e33..bfabfee 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.h
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.h
@@ -567,11 +567,7 @@ public:
 	{
 		xmlNode* paramNode = AddChild(parentNode, name);
 		AddContent(paramNode, FUStringConversion::ToString((TYPE&) value));
-		if (value.IsAnimated())
-		{
-			const FCDAnimated* animated = value.GetAnimated();
-			FArchiveXML::WriteAnimatedValue(animated, paramNode, name);
-		}
+		FArchiveXML::WriteAnimatedValue(&value, paramNode, name);
 		return paramNode;
 	}
 
-- 
2.43.0


From 8a2acd7323063a21e1ae02df375fc291661f763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 070/209] fix: write a physics shape's mass and density of zero

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index b417906..62b4de5 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -31,9 +31,9 @@ xmlNode* FArchiveXML::WritePhysicsShape(FCDObject* object, xmlNode* parentNode)
 	xmlNode* physicsShapeNode = AddChild(parentNode, DAE_SHAPE_ELEMENT);
 
 	AddChild(physicsShapeNode, DAE_HOLLOW_ELEMENT, physicsShape->IsHollow()?"true":"false");
-	if (physicsShape->GetMass() && !physicsShape->IsDensityMoreAccurate())
+	if (physicsShape->GetMassPointer() != NULL && !physicsShape->IsDensityMoreAccurate())
 		AddChild(physicsShapeNode, DAE_MASS_ELEMENT, FUStringConversion::ToString(physicsShape->GetMass()));
-	if (physicsShape->GetDensity())
+	if (physicsShape->GetDensityPointer() != NULL)
 		AddChild(physicsShapeNode, DAE_DENSITY_ELEMENT, FUStringConversion::ToString(physicsShape->GetDensity()));
 
 	if (physicsShape->OwnsPhysicsMaterial() && physicsShape->GetPhysicsMaterial())
-- 
2.43.0


From 75398ae8568b3f12734d7684df7faa7ff83ea314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 071/209] fix: keep tangents exactly when merging curves that
 share their keys

---
 FCollada/FCDocument/FCDAnimationCurveTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurveTools.cpp b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
index 3a5a08d..edfd9f0 100644
--- a/FCollada/FCDocument/FCDAnimationCurveTools.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
@@ -166,8 +166,8 @@ namespace FCDAnimationCurveTools
 						{
 							FCDAnimationKeyBezier* bkey2 = (FCDAnimationKeyBezier*) curveKeys[c];
 							FMVector2 absolute(bkey->input, bkey->output[i]);
-							bkey->inTangent[i] = absolute + (bkey2->inTangent - absolute) / oldPreviousSpan * previousSpan;
-							bkey->outTangent[i] = absolute + (bkey2->outTangent - absolute) / oldNextSpan * nextSpan;
+							bkey->inTangent[i] = (oldPreviousSpan == previousSpan) ? bkey2->inTangent : absolute + (bkey2->inTangent - absolute) / oldPreviousSpan * previousSpan;
+							bkey->outTangent[i] = (oldNextSpan == nextSpan) ? bkey2->outTangent : absolute + (bkey2->outTangent - absolute) / oldNextSpan * nextSpan;
 						}
 						else
 						{
-- 
2.43.0


From 3cc387c8c30a0e3f5d25cac0d4596cfe773490b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 072/209] fix: match the surface and sampler ids of textures
 after their clean-up

---
 FCollada/FCDocument/FCDTexture.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/FCollada/FCDocument/FCDTexture.cpp b/FCollada/FCDocument/FCDTexture.cpp
index ce54ffe..f6ade59 100644
--- a/FCollada/FCDocument/FCDTexture.cpp
+++ b/FCollada/FCDocument/FCDTexture.cpp
@@ -89,9 +89,15 @@ void FCDTexture::SetImage(FCDImage* image)
 	else SAFE_RELEASE(sampler);
 	if (image != NULL && parent != NULL)
 	{
-		// Look for a surface with the expected sid.
-		fm::string surfaceSid = image->GetDaeId() + "-surface";
+		// Look for a surface with the expected sid: the sids of two images may look the same once cleaned up.
+		fm::string surfaceSid = FCDObjectWithId::CleanSubId(image->GetDaeId() + "-surface");
 		FCDEffectParameter* _surface = FCDEffectTools::FindEffectParameterByReference(parent, surfaceSid);
+		for (uint32 n = 2; _surface != NULL && _surface->HasType(FCDEffectParameterSurface::GetClassType())
+			&& ((FCDEffectParameterSurface*) _surface)->GetImage() != NULL && ((FCDEffectParameterSurface*) _surface)->GetImage() != image; ++n)
+		{
+			surfaceSid = FCDObjectWithId::CleanSubId(image->GetDaeId() + "-surface" + FUStringConversion::ToString(n));
+			_surface = FCDEffectTools::FindEffectParameterByReference(parent, surfaceSid);
+		}
 		FCDEffectParameterSurface* surface = NULL;
 		if (_surface == NULL)
 		{
@@ -109,8 +115,14 @@ void FCDTexture::SetImage(FCDImage* image)
 		else return;
 
 		// Look for a sampler with the expected sid.
-		fm::string samplerSid = image->GetDaeId() + "-sampler";
-        const FCDEffectParameter* _sampler = FCDEffectTools::FindEffectParameterByReference(parent, samplerSid);
+		fm::string samplerSid = FCDObjectWithId::CleanSubId(image->GetDaeId() + "-sampler");
+        FCDEffectParameter* _sampler = FCDEffectTools::FindEffectParameterByReference(parent, samplerSid);
+		for (uint32 n = 2; _sampler != NULL && _sampler->HasType(FCDEffectParameterSampler::GetClassType())
+			&& ((FCDEffectParameterSampler*) _sampler)->GetSurface() != NULL && ((FCDEffectParameterSampler*) _sampler)->GetSurface() != surface; ++n)
+		{
+			samplerSid = FCDObjectWithId::CleanSubId(image->GetDaeId() + "-sampler" + FUStringConversion::ToString(n));
+			_sampler = FCDEffectTools::FindEffectParameterByReference(parent, samplerSid);
+		}
 		if (_sampler == NULL)
 		{
 			sampler = (FCDEffectParameterSampler*) parent->AddEffectParameter(FCDEffectParameter::SAMPLER);
-- 
2.43.0


From fbd496ae59cbc857c1670bb2ecc290e95386ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 073/209] fix: give every sampler of the animation library its
 own id

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 2 ++
 FColladaPlugins/FArchiveXML/FAXStructures.h        | 1 +
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp        | 1 +
 3 files changed, 4 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index d6fecf2..5ee5624 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -108,6 +108,7 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 
 		// Merge and export the curves
 		FCDAnimationMultiCurve* multiCurve = FCDAnimationCurveTools::MergeCurves(mergingCurves, values);
+		FArchiveXML::documentLinkDataMap[animationChannel->GetDocument()].animationIds.insert(baseId);
 		FArchiveXML::WriteSourceFCDAnimationMultiCurve(multiCurve, parentNode, qualifiers, baseId);
 		FArchiveXML::WriteSamplerFCDAnimationMultiCurve(multiCurve, parentNode, baseId);
 		FArchiveXML::WriteChannelFCDAnimationMultiCurve(multiCurve, parentNode, baseId, data.targetPointer);
@@ -137,6 +138,7 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 				}
 				curveId.append(curveData.targetQualifier);
 				ids[c] = FCDObjectWithId::CleanId(curveId.ToCharPtr());
+				FArchiveXML::documentLinkDataMap[animationChannel->GetDocument()].animationIds.insert(ids[c]);
 
 				// Write out the curve's sources
 				FArchiveXML::WriteSourceFCDAnimationCurve(animationChannel->GetCurve(c), parentNode, ids[c]);
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index c6c6a0a..7f69f80 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -252,6 +252,7 @@ struct FCDocumentLinkData
 	FCDAnimationChannelDataMap animationChannelData;
 	FCDAnimatedDataMap animatedData;
 	FCDAnimatedDriverList animatedDrivers; // The drivers of the curves of the document being written out.
+	FUSUniqueStringMap animationIds; // The base ids of the samplers written out.
 	FCDAnimationCurveDataMap animationCurveData;
 	FCDAnimationDataMap animationData;
 	FCDPhysicsModelDataMap physicsModelDataMap;
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 23b60e6..09a6c7f 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -859,6 +859,7 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 
 		// Find out which values drive animation curves
 		FArchiveXML::documentLinkDataMap[theDocument].animatedDrivers.clear();
+		FArchiveXML::documentLinkDataMap[theDocument].animationIds = FUSUniqueStringMap();
 		for (size_t i = 0; i < theDocument->GetAnimationLibrary()->GetEntityCount(); ++i)
 		{
 			FArchiveXML::RegisterDrivers(theDocument->GetAnimationLibrary()->GetEntity(i));
-- 
2.43.0


From 65b516db034328acfbfca244d58544d12436ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 074/209] fix: write and read the convex hull reference as a
 URL

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 1 +
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 7a085a0..39f3075 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -75,6 +75,7 @@ xmlNode* FArchiveXML::WriteGeometryMesh(FCDObject* object, xmlNode* parentNode)
 	{
 		meshNode = AddChild(parentNode, DAE_CONVEX_MESH_ELEMENT);
 		FUSStringBuilder convexHullOfName(geometryMesh->GetConvexHullOf());
+		if (geometryMesh->GetConvexHullOf().find('#') == fm::string::npos) convexHullOfName.set(fm::string("#") + geometryMesh->GetConvexHullOf());
 		AddAttribute(meshNode, DAE_CONVEX_HULL_OF_ATTRIBUTE, convexHullOfName);
 	}
 	else
diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 90ee088..da31005 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -63,7 +63,7 @@ bool FArchiveXML::LoadGeometryMesh(FCDObject* object, xmlNode* meshNode)
 	bool status = true;
 
 	if (geometryMesh->IsConvex()) // <convex_mesh> element
-		geometryMesh->SetConvexHullOf(ReadNodeProperty(meshNode, DAE_CONVEX_HULL_OF_ATTRIBUTE));
+		geometryMesh->SetConvexHullOf(fm::string(FUDaeParser::SkipPound(ReadNodeProperty(meshNode, DAE_CONVEX_HULL_OF_ATTRIBUTE))));
 
 	if (geometryMesh->IsConvex() && !geometryMesh->GetConvexHullOf().empty())
 	{
-- 
2.43.0


From d4b849ec7c93dab0fa206977ec5dc787d2c61015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 075/209] fix: write physics model instances after the rigid
 bodies and constraints

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index 62b4de5..180d250 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -167,10 +167,6 @@ xmlNode* FArchiveXML::WritePhysicsModel(FCDObject* object, xmlNode* parentNode)
 	FCDPhysicsModel* physicsModel = (FCDPhysicsModel*)object;
 
 	xmlNode* physicsModelNode = FArchiveXML::WriteToEntityXMLFCDEntity(physicsModel, parentNode, DAE_PHYSICS_MODEL_ELEMENT);
-	for (size_t i = 0; i < physicsModel->GetInstanceCount(); ++i)
-	{
-		FArchiveXML::LetWriteObject(physicsModel->GetInstance(i), physicsModelNode);
-	}
 	for (size_t i = 0; i < physicsModel->GetRigidBodyCount(); ++i)
 	{
 		FArchiveXML::LetWriteObject(physicsModel->GetRigidBody(i), physicsModelNode);
@@ -179,6 +175,10 @@ xmlNode* FArchiveXML::WritePhysicsModel(FCDObject* object, xmlNode* parentNode)
 	{
 		FArchiveXML::LetWriteObject(physicsModel->GetRigidConstraint(i), physicsModelNode);
 	}
+	for (size_t i = 0; i < physicsModel->GetInstanceCount(); ++i)
+	{
+		FArchiveXML::LetWriteObject(physicsModel->GetInstance(i), physicsModelNode);
+	}
 
 	FArchiveXML::WriteEntityExtra(physicsModel, physicsModelNode);
 	return physicsModelNode;
-- 
2.43.0


From 525b058f97338583529bed58d642525a273a60db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 076/209] fix: continue a curve linearly before its first key
 in the right direction

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index ad8c072..c350d04 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -329,7 +329,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 		switch (preInfinity)
 		{
 		case FUDaeInfinity::CONSTANT: return outputStart;
-		case FUDaeInfinity::LINEAR: return outputStart + inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
+		case FUDaeInfinity::LINEAR: return outputStart - inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
 		case FUDaeInfinity::CYCLE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; break; }
 		case FUDaeInfinity::CYCLE_RELATIVE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; outputOffset -= cycleCount * outputSpan; break; }
 		case FUDaeInfinity::OSCILLATE: { float cycleCount = ceilf(inputDifference / (2.0f * inputSpan)); input += cycleCount * 2.0f * inputSpan; input = inputEnd - fabsf(input - inputEnd); break; }
-- 
2.43.0


From e916d373788a3bd5d7167f20a5f3939c20ac98d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 077/209] fix: keep curve evaluation within the keys when
 cycling and over keys without time span

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index c350d04..7f5adbb 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -321,12 +321,18 @@ float FCDAnimationCurve::Evaluate(float input) const
 	float outputEnd = keys.back()->output;
 	float outputSpan = outputEnd - outputStart;
 
+	// Cycling needs a time span and extrapolating needs two distinct times: without them, the curve is constant outside its keys.
+	FUDaeInfinity::Infinity before = preInfinity, after = postInfinity;
+	if (!(inputSpan > 0.0f)) before = after = FUDaeInfinity::CONSTANT;
+	if (before == FUDaeInfinity::LINEAR && !(keys[1]->input > inputStart)) before = FUDaeInfinity::CONSTANT;
+	if (after == FUDaeInfinity::LINEAR && !(keys[keys.size() - 2]->input < inputEnd)) after = FUDaeInfinity::CONSTANT;
+
 	// Account for pre-infinity mode
 	float outputOffset = 0.0f;
 	if (input < inputStart)
 	{
 		float inputDifference = inputStart - input;
-		switch (preInfinity)
+		switch (before)
 		{
 		case FUDaeInfinity::CONSTANT: return outputStart;
 		case FUDaeInfinity::LINEAR: return outputStart - inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
@@ -341,7 +347,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 	else if (input >= inputEnd)
 	{
 		float inputDifference = input - inputEnd;
-		switch (postInfinity)
+		switch (after)
 		{
 		case FUDaeInfinity::CONSTANT: return outputEnd;
 		case FUDaeInfinity::LINEAR: return outputEnd + inputDifference * (keys[keys.size() - 2]->output - outputEnd) / (keys[keys.size() - 2]->input - inputEnd);
@@ -352,6 +358,9 @@ float FCDAnimationCurve::Evaluate(float input) const
 		}
 	}
 
+	// Cycling over many time spans may round to outside of the keys.
+	input = FMath::Clamp(input, inputStart, inputEnd);
+
 	// Find the current interval
 	FCDAnimationKeyList::const_iterator it, start = keys.begin(), terminate = keys.end();
 	while (terminate - start > 3)
-- 
2.43.0


From 85277d8fc7f1c1be4547c62e371ba452bb14015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 078/209] fix: evaluate a curve at the time of a key to the
 value of that key

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 7f5adbb..71edd80 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -373,13 +373,15 @@ float FCDAnimationCurve::Evaluate(float input) const
 	// Linear search is more efficient on the last interval
 	for (it = start; it != terminate; ++it)
 	{
-		if ((*it)->input >= input) break;
+		if ((*it)->input > input) break;
 	}
 	if (it == keys.begin()) return outputOffset + outputStart;
+	if (it == keys.end()) return outputOffset + outputEnd;
 
 	// Get the keys and values for this interval
 	const FCDAnimationKey* startKey = *(it - 1);
 	const FCDAnimationKey* endKey = *it;
+	if (startKey->input == input) return outputOffset + startKey->output;
 	float inputInterval = endKey->input - startKey->input;
 	float outputInterval = endKey->output - startKey->output;
 
-- 
2.43.0


From 25779bdb1680eec5cd731f7aa17cdffa99fc5f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 079/209] fix: measure TCB segments from their own start key
 and end time

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 71edd80..b8d3cb6 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -465,7 +465,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 			const FCDAnimationKey* nextKey = (it + 1) < keys.end() ? (*(it + 1)) : NULL;
 			ComputeTCBTangent(startKey, endKey, nextKey, tkey2->tension, tkey2->continuity, tkey2->bias, endTangent, tempTangent);
 			cy = endKey->output + endTangent.y; //Assuming the tangent is GOING from the point.
-			cx = endKey->output + endTangent.x;
+			cx = endKey->input + endTangent.x;
 		}
 		else if (endKey->interpolation == FUDaeInterpolation::BEZIER) {
 			FCDAnimationKeyBezier* tkey2 = (FCDAnimationKeyBezier*) endKey;
@@ -473,7 +473,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 			cy = endTangent.y;
 			cx = endTangent.x;
 		}
-		float t = (input - inputStart) / inputInterval;
+		float t = (input - startKey->input) / inputInterval;
 		by = startKey->output - startTangent.y; //Assuming the tangent is GOING from the point.
 		bx = startKey->input - startTangent.x;
 
-- 
2.43.0


From efcff035d86bdbf5b5b7cf7829f1313be3676774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 080/209] fix: weigh the slopes of the tangents in 1D Bezier
 evaluation

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index b8d3cb6..bc2a332 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -437,7 +437,10 @@ float FCDAnimationCurve::Evaluate(float input) const
 			br = FMath::Clamp(br, 0.01f, 100.0f);
 			cr = FMath::Clamp(cr, 0.01f, 100.0f);
 		}
-		output = startKey->output * ti * ti * ti + br * b * ti * ti * t + cr * c * ti * t * t + endKey->output * t * t * t;
+		// In 1D, only the slopes of the tangents matter: the control points are moved along them to the thirds of the interval.
+		b = 3.0f * startKey->output + br * (b - startKey->output);
+		c = 3.0f * endKey->output + cr * (c - endKey->output);
+		output = startKey->output * ti * ti * ti + b * ti * ti * t + c * ti * t * t + endKey->output * t * t * t;
 		break; }
 	case FUDaeInterpolation::TCB: {
 		if (endKey->interpolation == FUDaeInterpolation::LINEAR) {
-- 
2.43.0


From db22d2dbe4916dea093d28e567a9308d69993cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 081/209] fix: evaluate Bezier segments of multi-curves as
 those of curves

---
 .../FCDocument/FCDAnimationMultiCurve.cpp     | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
index 513a714..be7510c 100644
--- a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
@@ -123,6 +123,11 @@ void FCDAnimationMultiCurve::Evaluate(float input, float* output) const
 			const FCDAnimationMKey* startKey = *(it - 1);
 			const FCDAnimationMKey* endKey = *it;
 			float inputInterval = endKey->input - startKey->input;
+			if (startKey->input == input)
+			{
+				for (uint32 i = 0; i < dimension; ++i) output[i] = startKey->output[i];
+				return;
+			}
 
 			// Interpolate the outputs.
 			// Similar code is found in FCDAnimationCurve.cpp. If you update this, update the other one too.
@@ -139,21 +144,35 @@ void FCDAnimationMultiCurve::Evaluate(float input, float* output) const
 				FCDAnimationMKeyBezier* bkey1 = (FCDAnimationMKeyBezier*) startKey;
 				for (uint32 i = 0; i < dimension; ++i)
 				{
-					FMVector2 inTangent;
-					if (endKey->interpolation == FUDaeInterpolation::BEZIER) inTangent = ((FCDAnimationMKeyBezier*) endKey)->inTangent[i];
-					else inTangent = FMVector2(endKey->input, 0.0f);
+					if (endKey->interpolation == FUDaeInterpolation::LINEAR)
+					{
+						output[i] = startKey->output[i] + (input - startKey->input) / inputInterval * (endKey->output[i] - startKey->output[i]);
+						continue;
+					}
+					else if (endKey->interpolation != FUDaeInterpolation::BEZIER)
+					{
+						output[i] = startKey->output[i];
+						continue;
+					}
+					FMVector2 inTangent = ((FCDAnimationMKeyBezier*) endKey)->inTangent[i];
 
 					float t = (input - startKey->input) / inputInterval;
 					if (is2DEvaluation) t = FindT(startKey->input, bkey1->outTangent[i].x, inTangent.x, endKey->input, input, t);
 					float b = bkey1->outTangent[i].v;
 					float c = inTangent.v;
 					float ti = 1.0f - t;
-					float br = inputInterval / (bkey1->outTangent[i].u - startKey->input);
-					float cr = inputInterval / (endKey->input - inTangent.u);
-					br = FMath::Clamp(br, 0.01f, 100.0f);
-					cr = FMath::Clamp(cr, 0.01f, 100.0f);
-
-					output[i] = startKey->output[i] * ti * ti * ti + br* b * ti * ti * t + cr * c * ti * t * t + endKey->output[i] * t * t * t;
+					float br = 3.0f;
+					float cr = 3.0f;
+					if (!is2DEvaluation)
+					{
+						br = inputInterval / (bkey1->outTangent[i].u - startKey->input);
+						cr = inputInterval / (endKey->input - inTangent.u);
+						br = FMath::Clamp(br, 0.01f, 100.0f);
+						cr = FMath::Clamp(cr, 0.01f, 100.0f);
+					}
+					b = 3.0f * startKey->output[i] + br * (b - startKey->output[i]);
+					c = 3.0f * endKey->output[i] + cr * (c - endKey->output[i]);
+					output[i] = startKey->output[i] * ti * ti * ti + b * ti * ti * t + c * ti * t * t + endKey->output[i] * t * t * t;
 				}
 				break; }
 
-- 
2.43.0


From 839e00199002dbe581352941b63303069db47286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 082/209] fix: release Bezier and TCB keys through a virtual
 destructor

---
 FCollada/FCDocument/FCDAnimationKey.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationKey.h b/FCollada/FCDocument/FCDAnimationKey.h
index 6993be2..b0e3d79 100644
--- a/FCollada/FCDocument/FCDAnimationKey.h
+++ b/FCollada/FCDocument/FCDAnimationKey.h
@@ -26,6 +26,9 @@
 class FCDAnimationKey
 {
 public:
+	/** Destructor: the keys of a curve are released through this type. */
+	virtual ~FCDAnimationKey() {}
+
 	/** The key input. Typically, this will be a time value, in seconds.
 		For driven curves, the dimension of this value will depend on the driver. */
 	float input;
-- 
2.43.0


From 8f200c0fcee40e8ecfc42c225a5c94afc767e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 083/209] fix: evaluate a curve at its last key to that key's
 value for every infinity

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index bc2a332..4846a9e 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -344,7 +344,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 	}
 
 	// Account for post-infinity mode
-	else if (input >= inputEnd)
+	else if (input > inputEnd)
 	{
 		float inputDifference = input - inputEnd;
 		switch (after)
-- 
2.43.0


From e2f7025bac5c23a8f1c73644b00a4a603ea25f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 084/209] fix: collapse Bezier multi-curves key by key

---
 FCollada/FCDocument/FCDAnimationCurveTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurveTools.cpp b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
index edfd9f0..beccbf3 100644
--- a/FCollada/FCDocument/FCDAnimationCurveTools.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
@@ -233,8 +233,8 @@ namespace FCDAnimationCurveTools
 
 			if (outKeys[i]->interpolation == FUDaeInterpolation::BEZIER)
 			{
-				FCDAnimationMKeyBezier* inBKey = (FCDAnimationMKeyBezier*) inKeys + i;
-				FCDAnimationKeyBezier* outBKey = (FCDAnimationKeyBezier*) outKeys + i;
+				FCDAnimationMKeyBezier* inBKey = (FCDAnimationMKeyBezier*) inKeys[i];
+				FCDAnimationKeyBezier* outBKey = (FCDAnimationKeyBezier*) outKeys[i];
 				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inBKey->inTangent[j].v;
 				outBKey->inTangent = FMVector2(inBKey->inTangent[0].u, (*collapse)(buffer, (uint32) dimension));
 				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inBKey->outTangent[j].v;
-- 
2.43.0


From 369443541ce752b8bb42706f74db9c2128a2185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 085/209] fix: keep infinities and target when collapsing a
 multi-curve

---
 FCollada/FCDocument/FCDAnimationCurveTools.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationCurveTools.cpp b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
index beccbf3..ff90134 100644
--- a/FCollada/FCDocument/FCDAnimationCurveTools.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
@@ -215,6 +215,9 @@ namespace FCDAnimationCurveTools
 
 		// Create the output one-dimensional curve and create the keys.
 		FCDAnimationCurve* out = new FCDAnimationCurve(const_cast<FCDocument*>(curve->GetDocument()), NULL);
+		out->SetTargetElement(curve->GetTargetElement());
+		out->SetPreInfinity(curve->GetPreInfinity());
+		out->SetPostInfinity(curve->GetPostInfinity());
 		for (size_t i = 0; i < keyCount; ++i)
 		{
 			out->AddKey((FUDaeInterpolation::Interpolation) inKeys[i]->interpolation);
-- 
2.43.0


From c3b7166c07e36c737ab5e59e20ca0ca5a3f4e6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 086/209] fix: set the TCB parameters of merged and collapsed
 keys

---
 .../FCDocument/FCDAnimationCurveTools.cpp     | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationCurveTools.cpp b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
index ff90134..8cdaf7f 100644
--- a/FCollada/FCDocument/FCDAnimationCurveTools.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
@@ -113,6 +113,13 @@ namespace FCDAnimationCurveTools
 						bkey->inTangent[i] = FMVector2(keys[k]->input - previousSpan, defaultValue);
 						bkey->outTangent[i] = FMVector2(keys[k]->input + nextSpan, defaultValue);
 					}
+					else if (keys[k]->interpolation == FUDaeInterpolation::TCB)
+					{
+						// Same default values as below.
+						FCDAnimationMKeyTCB* tkey = (FCDAnimationMKeyTCB*) keys[k];
+						tkey->tension[i] = tkey->continuity[i] = tkey->bias[i] = 0.5f;
+						tkey->easeIn[i] = tkey->easeOut[i] = 0.0f;
+					}
 				}
 
 				continue;
@@ -243,6 +250,21 @@ namespace FCDAnimationCurveTools
 				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inBKey->outTangent[j].v;
 				outBKey->outTangent = FMVector2(inBKey->outTangent[0].u, (*collapse)(buffer, (uint32) dimension));
 			}
+			else if (outKeys[i]->interpolation == FUDaeInterpolation::TCB)
+			{
+				FCDAnimationMKeyTCB* inTKey = (FCDAnimationMKeyTCB*) inKeys[i];
+				FCDAnimationKeyTCB* outTKey = (FCDAnimationKeyTCB*) outKeys[i];
+				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inTKey->tension[j];
+				outTKey->tension = (*collapse)(buffer, (uint32) dimension);
+				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inTKey->continuity[j];
+				outTKey->continuity = (*collapse)(buffer, (uint32) dimension);
+				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inTKey->bias[j];
+				outTKey->bias = (*collapse)(buffer, (uint32) dimension);
+				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inTKey->easeIn[j];
+				outTKey->easeIn = (*collapse)(buffer, (uint32) dimension);
+				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inTKey->easeOut[j];
+				outTKey->easeOut = (*collapse)(buffer, (uint32) dimension);
+			}
 		}
 		SAFE_DELETE_ARRAY(buffer);
 
-- 
2.43.0


From c221f10264b49ac95e71d4d1db2c870ef600b835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 087/209] fix: move the tangents of a curve with its keys to a
 clip

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 4846a9e..6feef97 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -300,6 +300,13 @@ void FCDAnimationCurve::SetCurrentAnimationClip(FCDAnimationClip* clip)
 		for (FCDAnimationKeyList::iterator it = keys.begin(); it != keys.end(); ++it)
 		{
 			(*it)->input += offset;
+			if ((*it)->interpolation == FUDaeInterpolation::BEZIER)
+			{
+				// The tangents hold absolute times.
+				FCDAnimationKeyBezier* bkey = (FCDAnimationKeyBezier*) (*it);
+				bkey->inTangent.u += offset;
+				bkey->outTangent.u += offset;
+			}
 		}
 	}
 
-- 
2.43.0


From fce51f9bc50a2badba1dc9d21e304c1592f695ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 088/209] fix: release the keys of a curve that is cloned into

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 6feef97..ee05f34 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -227,7 +227,7 @@ FCDAnimationCurve* FCDAnimationCurve::Clone(FCDAnimationCurve* clone, bool inclu
 	clone->SetTargetQualifier(targetQualifier);
 
 	// Pre-buffer the list of keys and clone them.
-	clone->keys.clear();
+	CLEAR_POINTER_VECTOR(clone->keys);
 	clone->keys.reserve(keys.size());
 	for (FCDAnimationKeyList::const_iterator it = keys.begin(); it != keys.end(); ++it)
 	{
-- 
2.43.0


From ff680325c10423af63d76138c967d4a4fc43e91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 089/209] fix: mark a curve dirty when a key is deleted

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index ee05f34..f68f2c8 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -191,6 +191,7 @@ bool FCDAnimationCurve::DeleteKey(FCDAnimationKey* key)
 
 	keys.erase(kitr);
 	delete key;
+	SetDirtyFlag();
 	return true;
 }
 
-- 
2.43.0


From 55aa6f93a0b83072917bb044440386658e9adfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 090/209] fix: a polygon input whose source goes away hands its
 shared indices to another input, not to itself

---
 FCollada/FCDocument/FCDGeometryPolygonsInput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
index 2e32322..d98ad1d 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
@@ -66,7 +66,7 @@ void FCDGeometryPolygonsInput::OnObjectReleased(FUTrackable* object)
 			for (size_t i = 0; i < inputCount; ++i)
 			{
 				FCDGeometryPolygonsInput* other = parent->GetInput(i);
-				if (other->offset == offset)
+				if (other != this && other->source != NULL && other->offset == offset)
 				{
 					// Move the shared list of indices to the other input.
 					other->indices = indices;
-- 
2.43.0


From ade9213d47a706abf732b208226e52888d5237ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 091/209] fix: AddVertexSource on an existing source keeps the
 indices that other inputs share with it

---
 FCollada/FCDocument/FCDGeometryMesh.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryMesh.cpp b/FCollada/FCDocument/FCDGeometryMesh.cpp
index c5d84ea..30a04d2 100644
--- a/FCollada/FCDocument/FCDGeometryMesh.cpp
+++ b/FCollada/FCDocument/FCDGeometryMesh.cpp
@@ -185,8 +185,27 @@ void FCDGeometryMesh::AddVertexSource(FCDGeometrySource* source)
 	{
 		FCDGeometryPolygonsInput* input = polygons[p]->FindInput(source);
 		int32 set = (input != NULL) ? input->GetSet() : -1;
-		SAFE_RELEASE(input);
+		UInt32List indices;
+		if (input != NULL)
+		{
+			if (input->GetOffset() == 0) continue;
+
+			// The list of indices may be shared with other inputs.
+			uint32 offset = input->GetOffset();
+			bool isOwner = input->OwnsIndices();
+			indices = UInt32List(input->GetIndices(), input->GetIndexCount());
+			SAFE_RELEASE(input);
+			size_t inputCount = polygons[p]->GetInputCount();
+			for (size_t i = 0; i < inputCount && isOwner; ++i)
+			{
+				FCDGeometryPolygonsInput* other = polygons[p]->GetInput(i);
+				if (other->GetOffset() != offset) continue;
+				if (!indices.empty()) other->SetIndices(&indices.front(), indices.size());
+				break;
+			}
+		}
 		input = polygons[p]->AddInput(source, 0);
+		if (input->GetIndexCount() == 0 && !indices.empty()) input->SetIndices(&indices.front(), indices.size());
 		if (set > -1) input->SetSet(set);
 	}
 
-- 
2.43.0


From 666f46ad402636f05ff534ab0f40cac09404afa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 092/209] fix: RemoveFace also removes the face's holes from
 the hole list and moves the others back

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 5e411a4..bacb84b 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -107,7 +107,17 @@ void FCDGeometryPolygons::RemoveFace(size_t index)
 	// Remove the face and its holes
 	size_t holeBefore = GetHoleCountBefore(index);
 	size_t holeCount = GetHoleCount(index);
-	faceVertexCounts.erase(index + holeBefore, holeCount + 1); // +1 in order to remove the polygon as well as the holes.
+	size_t firstRemoved = index + holeBefore;
+	faceVertexCounts.erase(firstRemoved, holeCount + 1); // +1 in order to remove the polygon as well as the holes.
+
+	// Update the list of holes: drop the removed ones and move the following ones back.
+	UInt32List oldHoleFaces(holeFaces.begin(), holeFaces.size());
+	holeFaces.clear();
+	for (UInt32List::const_iterator it = oldHoleFaces.begin(); it != oldHoleFaces.end(); ++it)
+	{
+		if ((*it) < firstRemoved) holeFaces.push_back(*it);
+		else if ((*it) > firstRemoved + holeCount) holeFaces.push_back((*it) - (uint32) (holeCount + 1));
+	}
 
 	parent->Recalculate();
 	SetDirtyFlag();
-- 
2.43.0


From 46e8bafbd5b6da12ae55c681bae600628b62c0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 093/209] fix: FitIndexBuffers never ended on a face larger
 than the maximum

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 1e62a0c..7f5db36 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -1107,7 +1107,8 @@ namespace FCDGeometryPolygonsTools
 			uint32 faceVertexCount = 0;
 			for (splitIt = faceVertexCounts.begin(); splitIt != faceVertexCounts.end(); ++splitIt)
 			{
-				if (faceVertexCount + (*splitIt) > maximumIndexCount) break;
+				// A face is never split: keep at least one face within the polygons set.
+				if (splitIt != faceVertexCounts.begin() && faceVertexCount + (*splitIt) > maximumIndexCount) break;
 				faceVertexCount += (*splitIt);
 			}
 			if (splitIt == faceVertexCounts.end()) continue; // Polygons sets fit correctly.
@@ -1129,7 +1130,7 @@ namespace FCDGeometryPolygonsTools
 				for (; faceCopyEnd < faceCount; ++faceCopyEnd)
 				{
 					uint32 localCount = faceVertexCounts[faceCopyEnd];
-					if (faceVertexCount + localCount > maximumIndexCount) break;
+					if (faceCopyEnd != faceCopyStart && faceVertexCount + localCount > maximumIndexCount) break;
 					faceVertexCount += localCount;
 				}
 				faceVertexCopyEnd += faceVertexCount;
-- 
2.43.0


From 6c1577cf53a4d4cd58ad06e2a6b39c8ee64dd7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 094/209] fix: FitIndexBuffers keeps holes with their faces

---
 .../FCDocument/FCDGeometryPolygonsTools.cpp   | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 7f5db36..82bae25 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -1103,17 +1103,20 @@ namespace FCDGeometryPolygonsTools
 			UInt32List faceVertexCounts(polygons->GetFaceVertexCounts(), faceCount);
 			size_t inputCount = polygons->GetInputCount();
 
-			UInt32List::iterator splitIt = faceVertexCounts.end();
+			// A face and its holes are never split: keep at least one face within the polygons set.
+			size_t splitFaceCount = 0;
 			uint32 faceVertexCount = 0;
-			for (splitIt = faceVertexCounts.begin(); splitIt != faceVertexCounts.end(); ++splitIt)
+			while (splitFaceCount < faceCount)
 			{
-				// A face is never split: keep at least one face within the polygons set.
-				if (splitIt != faceVertexCounts.begin() && faceVertexCount + (*splitIt) > maximumIndexCount) break;
-				faceVertexCount += (*splitIt);
+				size_t next = splitFaceCount;
+				uint32 localCount = 0;
+				do localCount += faceVertexCounts[next++]; while (next < faceCount && polygons->IsHoleFaceHole(next));
+				if (splitFaceCount > 0 && faceVertexCount + localCount > maximumIndexCount) break;
+				faceVertexCount += localCount;
+				splitFaceCount = next;
 			}
-			if (splitIt == faceVertexCounts.end()) continue; // Polygons sets fit correctly.
+			if (splitFaceCount == faceCount) continue; // Polygons sets fit correctly.
 			size_t splitIndexCount = (size_t) faceVertexCount;
-			size_t splitFaceCount = splitIt - faceVertexCounts.begin();
 
 			size_t faceCopyStart = splitFaceCount;
 			size_t faceCopyEnd = faceCopyStart;
@@ -1127,11 +1130,14 @@ namespace FCDGeometryPolygonsTools
 
 				// Figure out which faces will be moved to this polygons set.
 				faceVertexCount = 0;
-				for (; faceCopyEnd < faceCount; ++faceCopyEnd)
+				while (faceCopyEnd < faceCount)
 				{
-					uint32 localCount = faceVertexCounts[faceCopyEnd];
+					size_t next = faceCopyEnd;
+					uint32 localCount = 0;
+					do localCount += faceVertexCounts[next++]; while (next < faceCount && polygons->IsHoleFaceHole(next));
 					if (faceCopyEnd != faceCopyStart && faceVertexCount + localCount > maximumIndexCount) break;
 					faceVertexCount += localCount;
+					faceCopyEnd = next;
 				}
 				faceVertexCopyEnd += faceVertexCount;
 
@@ -1162,6 +1168,10 @@ namespace FCDGeometryPolygonsTools
 				size_t faceCopyCount = faceCopyEnd - faceCopyStart;
 				polygonsCopy->SetFaceVertexCountCount(faceCopyCount);
 				memcpy((void*) polygonsCopy->GetFaceVertexCounts(), &(*(faceVertexCounts.begin() + faceCopyStart)), faceCopyCount * sizeof(uint32));
+				for (size_t j = faceCopyStart; j < faceCopyEnd; ++j)
+				{
+					if (polygons->IsHoleFaceHole(j)) polygonsCopy->AddHole((uint32) (j - faceCopyStart));
+				}
 				faceCopyStart = faceCopyEnd;
 				faceVertexCopyStart = faceVertexCopyEnd;
 			}
@@ -1176,6 +1186,9 @@ namespace FCDGeometryPolygonsTools
 				}
 			}
 			polygons->SetFaceVertexCountCount(splitFaceCount);
+			size_t holeCount = polygons->GetHoleFaceCount();
+			while (holeCount > 0 && polygons->GetHoleFaces()[holeCount - 1] >= splitFaceCount) --holeCount;
+			polygons->SetHoleFaceCount(holeCount);
 		}
 
 		mesh->Recalculate();
-- 
2.43.0


From 81d078931ebee3830e1380d811d751e9dcbbf3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 095/209] fix: FitIndexBuffers keeps the primitive type, the
 sets and the offsets of the inputs

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 82bae25..50bcc50 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -1126,8 +1126,17 @@ namespace FCDGeometryPolygonsTools
 			{
 				// Create a new polygons set and copy the basic information from the first polygons set.
 				FCDGeometryPolygons* polygonsCopy = mesh->AddPolygons();
+				polygonsCopy->SetPrimitiveType(polygons->GetPrimitiveType());
 				polygonsCopy->SetMaterialSemantic(polygons->GetMaterialSemantic());
 
+				// The inputs of the vertex sources already exist: give them their offsets before they look for shared indices.
+				for (size_t j = 0; j < inputCount; ++j)
+				{
+					FCDGeometryPolygonsInput* input = polygons->GetInput(j);
+					FCDGeometryPolygonsInput* inputCopy = polygonsCopy->FindInput(input->GetSource());
+					if (inputCopy != NULL) inputCopy->SetOffset(input->GetOffset());
+				}
+
 				// Figure out which faces will be moved to this polygons set.
 				faceVertexCount = 0;
 				while (faceCopyEnd < faceCount)
@@ -1153,6 +1162,7 @@ namespace FCDGeometryPolygonsTools
 					if (!mesh->IsVertexSource(source)) inputCopy = polygonsCopy->AddInput(source, input->GetOffset());
 					else inputCopy = polygonsCopy->FindInput(source);
 					FUAssert(inputCopy != NULL, continue);
+					inputCopy->SetSet(input->GetSet());
 
 					// For owners, copy the indices over.
 					size_t indexCopyCount = inputCopy->GetIndexCount();
-- 
2.43.0


From 56811e0381523fb3a04e6fb65ec4979050d1ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 096/209] fix: averaged tangents are normalized

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 50bcc50..1ea47b6 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -402,7 +402,7 @@ namespace FCDGeometryPolygonsTools
 						if (list[v].tangentId == ~(uint32)0)
 						{
 							list[v].tangent /= (float) list[v].count; // Average the tangent.
-							list[v].tangent.Normalize();
+							list[v].tangent.NormalizeIt();
 							list[v].tangentId = CompressSortedVector(list[v].tangent, tangentData, tangentCompressionIndices);
 						}
 						tangentInput->AddIndex(list[v].tangentId);
-- 
2.43.0


From 8bfa6d11dae72f98a9145da8f4fef038c9030a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 097/209] fix: GenerateTextureTangentBasis leaked its temporary
 buffer

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 1ea47b6..41e71c0 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -187,8 +187,6 @@ namespace FCDGeometryPolygonsTools
 		// Allocate the tangential vertices.
 		// This temporary buffer is necessary to ensure we have smooth tangents/binormals.
 		TangentialVertexList* globalVertices = new TangentialVertexList[globalVertexCount];
-		for (size_t i = 0; i < globalVertexCount; i++)
-			new (globalVertices + i) TangentialVertexList();
 
 		// This operation is done on the tessellation: fill in the list of tangential vertices.
 		size_t polygonsCount = mesh->GetPolygonsCount();
@@ -423,6 +421,8 @@ namespace FCDGeometryPolygonsTools
 			}
 		}
 
+		delete[] globalVertices;
+
 		if (tangentSource != NULL) tangentSource->SetData(tangentData, 3);
 		if (binormalSource != NULL) binormalSource->SetData(binormalData, 3);
 	}
-- 
2.43.0


From 2f0734375fe6ea4a8ffcc8a9d54d98eecb4a8bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 098/209] fix: PackVertexBufferColor packs colors as bytes

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index 41e71c0..e0aee37 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -972,7 +972,7 @@ namespace FCDGeometryPolygonsTools
 		const FCDGeometrySource* source, uint32 vCount, uint16* vtxPackingMap,
 		const FCDGeometryIndexTranslationMap& translationMap)
 	{
-		PackVertexBuffers<FMColor, false, false>(destBuffer, destBuffStride, source, vCount, vtxPackingMap, translationMap);
+		PackVertexBuffers<FMColor, false, true>(destBuffer, destBuffStride, source, vCount, vtxPackingMap, translationMap);
 	}
 
 	void PackVertexBufferV2(uint8* destBuffer, uint32 destBuffStride,
-- 
2.43.0


From bd5526d54c38049bcfa4c5faaffb8aeaf9c2f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 099/209] fix: ApplyUniqueIndices accepts meshes of several
 polygon sets

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index e0aee37..e15c63e 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -898,7 +898,7 @@ namespace FCDGeometryPolygonsTools
 			FCDGeometryPolygonsInput* anInput = polygons->GetInput(0);
 			size_t nIndices = anInput->GetIndexCount();
 			 // Check if we are valid, if not, the best we can do is not crash
-			FUAssert(nIndices >= nNewIndices, nIndices = nNewIndices);
+			FUAssert(nIndices <= nNewIndices, nIndices = nNewIndices);
 			anInput->SetIndices(newIdxPtr, nIndices);
 
 			newIdxPtr += nIndices;
-- 
2.43.0


From 7a1c4fb340c042f88bf427a9f74e3b9b373b4673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 100/209] fix: RemoveFace erases the counts of the face and its
 holes, whatever its index

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index bacb84b..48b5cc4 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -108,7 +108,7 @@ void FCDGeometryPolygons::RemoveFace(size_t index)
 	size_t holeBefore = GetHoleCountBefore(index);
 	size_t holeCount = GetHoleCount(index);
 	size_t firstRemoved = index + holeBefore;
-	faceVertexCounts.erase(firstRemoved, holeCount + 1); // +1 in order to remove the polygon as well as the holes.
+	faceVertexCounts.erase(firstRemoved, firstRemoved + holeCount + 1); // +1 in order to remove the polygon as well as the holes.
 
 	// Update the list of holes: drop the removed ones and move the following ones back.
 	UInt32List oldHoleFaces(holeFaces.begin(), holeFaces.size());
-- 
2.43.0


From 109c04babc24c622a1bc9dff65aeeae4b34c5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 101/209] fix: GenerateUniqueIndices on one polygon set keeps
 the data of inputs that share their indices

---
 FCollada/FCDocument/FCDGeometryPolygonsTools.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
index e15c63e..0bbfb7e 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsTools.cpp
@@ -767,10 +767,8 @@ namespace FCDGeometryPolygonsTools
 				if (polygonsToProcess != NULL)
 				{
 					// Change the relevant input, if it exists, to point towards the new source.
-					uint32 set = oldInput->GetSet();
-					SAFE_RELEASE(oldInput);
-					FCDGeometryPolygonsInput* newInput = polygons->AddInput(newSource, 0);
-					newInput->SetSet(set);
+					// Its indices may be shared with inputs that have yet to be processed: they are replaced below.
+					oldInput->SetSource(newSource);
 				}
 			}
 
@@ -813,6 +811,16 @@ namespace FCDGeometryPolygonsTools
 			if (polygonsToProcess != NULL && polygons != polygonsToProcess) continue;
 
 			size_t inputCount = polygons->GetInputCount();
+			if (polygonsToProcess != NULL && !indexBuffer.empty())
+			{
+				// All the inputs now share one list of indices.
+				for (size_t i = 0; i < inputCount; i++)
+				{
+					FCDGeometryPolygonsInput* anyInput = polygons->GetInput(i);
+					if (anyInput->OwnsIndices()) anyInput->SetIndexCount(0);
+				}
+				for (size_t i = 0; i < inputCount; i++) polygons->GetInput(i)->SetOffset(0);
+			}
 			for (size_t i = 0; i < inputCount; i++)
 			{
 				FCDGeometryPolygonsInput* anyInput = polygons->GetInput(i);
-- 
2.43.0


From 5d66ca2e1c5e4b74e8b8ded502459e28a4b6263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 102/209] fix: ApplyTranslationMap accepts more packed vertices
 than influences

---
 FCollada/FCDocument/FCDControllerTools.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDControllerTools.cpp b/FCollada/FCDocument/FCDControllerTools.cpp
index 1481b92..c9cbfad 100644
--- a/FCollada/FCDocument/FCDControllerTools.cpp
+++ b/FCollada/FCDocument/FCDControllerTools.cpp
@@ -44,7 +44,6 @@ namespace FCDControllerTools
 
 		// This is how many vertices we are packing here!
 		skinInfluences.resize(largestIdx + 1);
-		FUAssert(largestIdx < influenceCount,);
 
 		// Now iterate over all the vertices that we have used and come up with something
 		for (uint32 i = 0; i < influenceCount; ++i)
-- 
2.43.0


From 7e889f3b2dee3f6af747d286d76aeaa56f514f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 103/209] fix: ReduceInfluences made NaN weights of weights
 that are all zero

---
 FCollada/FCDocument/FCDSkinController.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDSkinController.cpp b/FCollada/FCDocument/FCDSkinController.cpp
index 5e3d11b..30abc92 100644
--- a/FCollada/FCDocument/FCDSkinController.cpp
+++ b/FCollada/FCDocument/FCDSkinController.cpp
@@ -179,6 +179,7 @@ void FCDSkinController::ReduceInfluences(uint32 maxInfluenceCount, float minimum
 
 			float newTotal = 0.0f;
 			for (size_t i = 0; i < newInfluenceCount; ++i) newTotal += influence.GetPair(i)->weight;
+			if (newTotal == 0.0f) continue; // There is nothing to re-normalize.
 			float renormalizingFactor = oldTotal / newTotal;
 			for (size_t i = 0; i < newInfluenceCount; ++i) influence.GetPair(i)->weight *= renormalizingFactor;
 		}
-- 
2.43.0


From 816d54998769775bf97e463d8b994a27de8d95f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 104/209] fix: FCDMorphTarget::SetGeometry deleted the old
 geometry within its library

---
 FCollada/FCDocument/FCDMorphController.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/FCollada/FCDocument/FCDMorphController.cpp b/FCollada/FCDocument/FCDMorphController.cpp
index 9077f41..a0e7dad 100644
--- a/FCollada/FCDocument/FCDMorphController.cpp
+++ b/FCollada/FCDocument/FCDMorphController.cpp
@@ -186,13 +186,7 @@ FCDMorphTarget::~FCDMorphTarget()
 
 void FCDMorphTarget::SetGeometry(FCDGeometry* _geometry)
 {
-	// Let go of the old geometry
-	FCDGeometry* oldGeometry = geometry;
-	if (oldGeometry != NULL && oldGeometry->GetTrackerCount() == 1)
-	{
-		SAFE_RELEASE(geometry);
-	}
-
+	// The old geometry is not released: it belongs to its library.
 	// Check if this geometry is similar to the controller base target
 	if (GetParent()->GetBaseTarget() == NULL || GetParent()->IsSimilar(_geometry))
 	{
-- 
2.43.0


From b3a4253be5f1846da65d42b3cdf0d99784c15439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 105/209] fix: setting a reference's entity to NULL clears the
 reference

---
 FCollada/FCDocument/FCDEntityReference.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDEntityReference.cpp b/FCollada/FCDocument/FCDEntityReference.cpp
index 3582ad2..cd3d25b 100644
--- a/FCollada/FCDocument/FCDEntityReference.cpp
+++ b/FCollada/FCDocument/FCDEntityReference.cpp
@@ -102,6 +102,7 @@ void FCDEntityReference::SetEntity(FCDEntity* _entity)
 	}
 	else
 	{
+		entityId.clear();
 		SetEntityDocument(NULL);
 	}
 
-- 
2.43.0


From 3e0877499052e94da6704c27fcfd8a04933e12ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 106/209] fix: setting a reference's URI lets go of its old
 entity

---
 FCollada/FCDocument/FCDEntityReference.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/FCollada/FCDocument/FCDEntityReference.cpp b/FCollada/FCDocument/FCDEntityReference.cpp
index cd3d25b..4c4635c 100644
--- a/FCollada/FCDocument/FCDEntityReference.cpp
+++ b/FCollada/FCDocument/FCDEntityReference.cpp
@@ -65,6 +65,10 @@ const FCDEntity* FCDEntityReference::GetEntity() const
 
 void FCDEntityReference::SetUri(const FUUri& uri)
 {
+	// The old entity is no longer referenced.
+	if (entity != NULL) UntrackObject(entity);
+	entity = NULL;
+
 	entityId = TO_STRING(uri.GetFragment());
     entityId = FCDObjectWithId::CleanId(entityId);
 	FCDPlaceHolder* documentPlaceHolder = NULL;
-- 
2.43.0


From b469a37e8f7b04548b2a2c5f0ac0c4a684d6cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 107/209] fix: the skew matrix was transposed: the rotated axis
 stayed and the other moved

---
 FCollada/FCDocument/FCDTransform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDTransform.cpp b/FCollada/FCDocument/FCDTransform.cpp
index 3e0843b..e8c62fb 100644
--- a/FCollada/FCDocument/FCDTransform.cpp
+++ b/FCollada/FCDocument/FCDTransform.cpp
@@ -301,7 +301,7 @@ FMMatrix44 FCDTSkew::ToMatrix() const
 	{
 		for (int col = 0; col < 3; ++col)
 		{
-			v[col][row] = ((row == col) ? 1.0f : 0.0f) + s * skew->rotateAxis[col] * skew->aroundAxis[row];
+			v[row][col] = ((row == col) ? 1.0f : 0.0f) + s * skew->rotateAxis[col] * skew->aroundAxis[row];
 		}
 	}
 
-- 
2.43.0


From 6d8d6d5c8532d7315ab32db1e1767bdba845e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 108/209] fix: depth-first iteration visits instantiated nodes
 in order and does not use a dangling reference

---
 FCollada/FCDocument/FCDSceneNodeIterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDSceneNodeIterator.hpp b/FCollada/FCDocument/FCDSceneNodeIterator.hpp
index dca4f7f..a5d23fb 100644
--- a/FCollada/FCDocument/FCDSceneNodeIterator.hpp
+++ b/FCollada/FCDocument/FCDSceneNodeIterator.hpp
@@ -84,15 +84,16 @@ FCDSceneNodeIteratorT<NODE_T>::FCDSceneNodeIteratorT(NODE_T* root, SearchType se
 					if (entity != NULL && entity->HasType(FCDSceneNode::GetClassType()))
 					{
 						NODE_T* add = (NODE_T*) entity;
+						if (searchType == DEPTH_FIRST_PREORDER) queue.push_back(add);
 						if (add->GetChildrenCount() == 0 && add->GetInstanceCount() == 0)
 						{
 							// Don't bother processing this node.
-							queue.push_back(add);
+							if (searchType == DEPTH_FIRST_POSTORDER) queue.push_back(add);
 						}
 						else
 						{
+							++(it.second); // 'it' becomes invalid when the process queue grows.
 							processQueue.push_back(Child(add, 0));
-							++(it.second);
 							break;
 						}
 					}
-- 
2.43.0


From 3d65a6915a0de86b2dac7f4b3d7fe8719a84e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 109/209] fix: releasing a scene node deleted the children that
 it shares with other nodes

---
 FCollada/FCDocument/FCDSceneNode.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/FCollada/FCDocument/FCDSceneNode.cpp b/FCollada/FCDocument/FCDSceneNode.cpp
index fa6a8c6..beaef92 100644
--- a/FCollada/FCDocument/FCDSceneNode.cpp
+++ b/FCollada/FCDocument/FCDSceneNode.cpp
@@ -69,20 +69,16 @@ FCDSceneNode::~FCDSceneNode()
 		if (child->parents.empty()) { SAFE_RELEASE(child); }
 		else
 		{
-			// Check for external references in the parents
+			// Check for external references in the child's other parents
 			bool hasLocalReferences = false;
-			size_t parentCount = parents.size();
+			size_t parentCount = child->parents.size();
 			for (size_t p = 0; p < parentCount; ++p)
 			{
-				FCDSceneNode* parent = parents[p];
-				if (parent == this) children.erase(parent);
-				else
-				{
-					hasLocalReferences |= parent->GetDocument() == GetDocument();
-				}
+				hasLocalReferences |= child->parents[p]->GetDocument() == GetDocument();
 			}
 
-			if (!hasLocalReferences) SAFE_RELEASE(child);
+			if (hasLocalReferences) children.erase(child);
+			else SAFE_RELEASE(child);
 		}
 	}
 }
-- 
2.43.0


From 72ae6c7a103b0de1829b9423e8abd3f32486438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 110/209] fix: FCDEntity::Clone: copy the asset information,
 with its flags

---
 FCollada/FCDocument/FCDAsset.cpp  | 3 ++-
 FCollada/FCDocument/FCDEntity.cpp | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAsset.cpp b/FCollada/FCDocument/FCDAsset.cpp
index 3a06ae4..e3a4a9e 100644
--- a/FCollada/FCDocument/FCDAsset.cpp
+++ b/FCollada/FCDocument/FCDAsset.cpp
@@ -60,7 +60,8 @@ FCDAsset* FCDAsset::Clone(FCDAsset* clone, bool cloneAllContributors) const
 	clone->upAxis = upAxis;
 	clone->unitName = unitName;
 	clone->unitConversionFactor = unitConversionFactor;
-	clone->SetFlag(TestFlag(FLAG_HasUnits | FLAG_HasUpAxis));
+	clone->SetHasUnitsFlag(GetHasUnitsFlag());
+	clone->SetHasUpAxisFlag(GetHasUpAxisFlag());
 
 	if (cloneAllContributors)
 	{
diff --git a/FCollada/FCDocument/FCDEntity.cpp b/FCollada/FCDocument/FCDEntity.cpp
index 3b974ea..72e78f4 100644
--- a/FCollada/FCDocument/FCDEntity.cpp
+++ b/FCollada/FCDocument/FCDEntity.cpp
@@ -61,6 +61,10 @@ FCDEntity* FCDEntity::Clone(FCDEntity* clone, bool UNUSED(cloneChildren)) const
 	{
 		extra->Clone(clone->extra);
 	}
+	if (asset != NULL)
+	{
+		asset->Clone(clone->GetAsset());
+	}
 	return clone;
 }
 
-- 
2.43.0


From 4ea99d55d15a3e62e1c0d301d58287985e86e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 111/209] fix: clones of scene nodes and transforms lost their
 sub-ids

---
 FCollada/FCDocument/FCDSceneNode.cpp | 1 +
 FCollada/FCDocument/FCDTransform.cpp | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/FCollada/FCDocument/FCDSceneNode.cpp b/FCollada/FCDocument/FCDSceneNode.cpp
index beaef92..a5edc15 100644
--- a/FCollada/FCDocument/FCDSceneNode.cpp
+++ b/FCollada/FCDocument/FCDSceneNode.cpp
@@ -296,6 +296,7 @@ FCDEntity* FCDSceneNode::Clone(FCDEntity* _clone, bool cloneChildren) const
 	{
 		// Copy over the simple information.
 		clone->SetJointFlag(GetJointFlag());
+		clone->daeSubId = daeSubId;
 		clone->visibility = visibility;
 
 		// Don't copy the parents list but do clone all the children, transforms and instances
diff --git a/FCollada/FCDocument/FCDTransform.cpp b/FCollada/FCDocument/FCDTransform.cpp
index e8c62fb..b3a924c 100644
--- a/FCollada/FCDocument/FCDTransform.cpp
+++ b/FCollada/FCDocument/FCDTransform.cpp
@@ -75,6 +75,7 @@ FCDTransform* FCDTTranslation::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTTranslation::GetClassType())) return _clone;
 	else clone = (FCDTTranslation*) _clone;
 
+	clone->SetSubId(GetSubId());
 	clone->translation = translation;
 	return clone;
 }
@@ -121,6 +122,7 @@ FCDTransform* FCDTRotation::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTRotation::GetClassType())) return _clone;
 	else clone = (FCDTRotation*) _clone;
 
+	clone->SetSubId(GetSubId());
 	clone->angleAxis = angleAxis;
 	return clone;
 }
@@ -170,6 +172,7 @@ FCDTransform* FCDTScale::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTScale::GetClassType())) return _clone;
 	else clone = (FCDTScale*) _clone;
 
+	clone->SetSubId(GetSubId());
 	clone->scale = scale;
 	return clone;
 }
@@ -210,6 +213,7 @@ FCDTransform* FCDTMatrix::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTMatrix::GetClassType())) return _clone;
 	else clone = (FCDTMatrix*) _clone;
 
+	clone->SetSubId(GetSubId());
 	clone->transform = transform;
 	return clone;
 }
@@ -245,6 +249,7 @@ FCDTransform* FCDTLookAt::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTLookAt::GetClassType())) return _clone;
 	else clone = (FCDTLookAt*) _clone;
 
+	clone->SetSubId(GetSubId());
 	clone->lookAt = lookAt;
 	return clone;
 }
@@ -287,6 +292,7 @@ FCDTransform* FCDTSkew::Clone(FCDTransform* _clone) const
 	else if (!_clone->HasType(FCDTSkew::GetClassType())) return _clone;
 	else clone = (FCDTSkew*) _clone;
 
+	clone->SetSubId(GetSubId());
 	clone->skew = skew;
 	return clone;
 }
-- 
2.43.0


From a430f4a936b65f83c6e46b3a3c51db2ffcd0b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 112/209] fix: FCDEntityInstance::Clone: copy the name, the
 sub-id and the extra tree

---
 FCollada/FCDocument/FCDEntityInstance.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FCDocument/FCDEntityInstance.cpp b/FCollada/FCDocument/FCDEntityInstance.cpp
index d884bac..1b6d6e5 100644
--- a/FCollada/FCDocument/FCDEntityInstance.cpp
+++ b/FCollada/FCDocument/FCDEntityInstance.cpp
@@ -150,6 +150,12 @@ FCDEntityInstance* FCDEntityInstance::Clone(FCDEntityInstance* clone) const
 	}
 
 	clone->SetEntity(const_cast<FCDEntity*>(entityReference->GetEntity()));
+	clone->name = name;
+	clone->wantedSubId = wantedSubId;
+	if (extra != NULL)
+	{
+		extra->Clone(clone->GetExtra());
+	}
 	return clone;
 }
 
-- 
2.43.0


From b35a7104cf908337b72d964e99877ac89979ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 113/209] fix: FCDCamera could not be cloned: nothing of the
 camera was copied

---
 FCollada/FCDocument/FCDCamera.cpp | 23 +++++++++++++++++++++++
 FCollada/FCDocument/FCDCamera.h   |  8 ++++++++
 2 files changed, 31 insertions(+)

diff --git a/FCollada/FCDocument/FCDCamera.cpp b/FCollada/FCDocument/FCDCamera.cpp
index ea97c8d..b746720 100644
--- a/FCollada/FCDocument/FCDCamera.cpp
+++ b/FCollada/FCDocument/FCDCamera.cpp
@@ -38,6 +38,29 @@ FCDCamera::~FCDCamera()
 {
 }
 
+// Create a copy of this object.
+FCDEntity* FCDCamera::Clone(FCDEntity* _clone, bool cloneChildren) const
+{
+	FCDCamera* clone = NULL;
+	if (_clone == NULL) _clone = clone = new FCDCamera(const_cast<FCDocument*>(GetDocument()));
+	else if (_clone->HasType(FCDCamera::GetClassType())) clone = (FCDCamera*) _clone;
+
+	Parent::Clone(_clone, cloneChildren);
+
+	if (clone != NULL)
+	{
+		clone->projection = projection;
+		clone->viewY = viewY;
+		clone->viewX = viewX;
+		clone->aspectRatio = aspectRatio;
+		clone->nearZ = nearZ;
+		clone->farZ = farZ;
+		clone->SetHasHorizontalViewFlag(GetHasHorizontalViewFlag());
+		clone->SetHasVerticalViewFlag(GetHasVerticalViewFlag());
+	}
+	return _clone;
+}
+
 void FCDCamera::SetFovX(float _viewX)
 {
 	viewX = _viewX;
diff --git a/FCollada/FCDocument/FCDCamera.h b/FCollada/FCDocument/FCDCamera.h
index c2acdbf..bfdb539 100644
--- a/FCollada/FCDocument/FCDCamera.h
+++ b/FCollada/FCDocument/FCDCamera.h
@@ -89,6 +89,14 @@ public:
 		@return The entity type: CAMERA. */
 	virtual Type GetType() const { return CAMERA; }
 
+	/** Clones the camera object.
+		@param clone The cloned object. If this pointer is NULL, a new object is created and
+			you will need to release this new object. If the cloned object is not of type FCDCamera,
+			only the information of the parent class is cloned.
+		@param cloneChildren Whether to recursively clone this entity's children.
+		@return The cloned object. */
+	virtual FCDEntity* Clone(FCDEntity* clone = NULL, bool cloneChildren = false) const;
+
 	/** Retrieves the type of projection of this camera.
 		@return The projection type. */
 	inline ProjectionType GetProjectionType() const { return (ProjectionType) *projection; }
-- 
2.43.0


From ea4a3e1f8cc32f23969a395222da129eeaadd436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 114/209] fix: FCDLight could not be cloned: nothing of the
 light was copied

---
 FCollada/FCDocument/FCDLight.cpp | 26 ++++++++++++++++++++++++++
 FCollada/FCDocument/FCDLight.h   |  8 ++++++++
 2 files changed, 34 insertions(+)

diff --git a/FCollada/FCDocument/FCDLight.cpp b/FCollada/FCDocument/FCDLight.cpp
index 85fcc66..28f7a9f 100644
--- a/FCollada/FCDocument/FCDLight.cpp
+++ b/FCollada/FCDocument/FCDLight.cpp
@@ -41,3 +41,29 @@ FCDLight::FCDLight(FCDocument* document)
 FCDLight::~FCDLight()
 {
 }
+
+// Create a copy of this object.
+FCDEntity* FCDLight::Clone(FCDEntity* _clone, bool cloneChildren) const
+{
+	FCDLight* clone = NULL;
+	if (_clone == NULL) _clone = clone = new FCDLight(const_cast<FCDocument*>(GetDocument()));
+	else if (_clone->HasType(FCDLight::GetClassType())) clone = (FCDLight*) _clone;
+
+	Parent::Clone(_clone, cloneChildren);
+
+	if (clone != NULL)
+	{
+		clone->color = color;
+		clone->intensity = intensity;
+		clone->lightType = lightType;
+		clone->constantAttenuationFactor = constantAttenuationFactor;
+		clone->linearAttenuationFactor = linearAttenuationFactor;
+		clone->quadracticAttenuationFactor = quadracticAttenuationFactor;
+		clone->fallOffExponent = fallOffExponent;
+		clone->fallOffAngle = fallOffAngle;
+		clone->outerAngle = outerAngle;
+		clone->penumbraAngle = penumbraAngle;
+		clone->dropoff = dropoff;
+	}
+	return _clone;
+}
diff --git a/FCollada/FCDocument/FCDLight.h b/FCollada/FCDocument/FCDLight.h
index 18d3f57..cbf013d 100644
--- a/FCollada/FCDocument/FCDLight.h
+++ b/FCollada/FCDocument/FCDLight.h
@@ -102,6 +102,14 @@ public:
 		@return The entity type: LIGHT. */
 	virtual Type GetType() const { return LIGHT; }
 
+	/** Clones the light object.
+		@param clone The cloned object. If this pointer is NULL, a new object is created and
+			you will need to release this new object. If the cloned object is not of type FCDLight,
+			only the information of the parent class is cloned.
+		@param cloneChildren Whether to recursively clone this entity's children.
+		@return The cloned object. */
+	virtual FCDEntity* Clone(FCDEntity* clone = NULL, bool cloneChildren = false) const;
+
 	/** Checks if the light uses a DCC specific representation
 		Currently always returns false.
 		@deprecated Instead use: GetExtra()->GetDefaultType()->GetTechniques()
-- 
2.43.0


From 043bfc8a224c99af651a9db10b4dd14bbbdfcfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 115/209] fix: FCDController could not be cloned: its skin or
 morpher was left out

---
 FCollada/FCDocument/FCDController.cpp      | 17 +++++++++++++++++
 FCollada/FCDocument/FCDController.h        |  8 ++++++++
 FCollada/FCDocument/FCDMorphController.cpp | 14 ++++++++++++++
 FCollada/FCDocument/FCDMorphController.h   |  5 +++++
 FCollada/FCDocument/FCDSkinController.cpp  | 13 +++++++++++++
 FCollada/FCDocument/FCDSkinController.h    |  5 +++++
 6 files changed, 62 insertions(+)

diff --git a/FCollada/FCDocument/FCDController.cpp b/FCollada/FCDocument/FCDController.cpp
index 6c39545..8071ce2 100644
--- a/FCollada/FCDocument/FCDController.cpp
+++ b/FCollada/FCDocument/FCDController.cpp
@@ -37,6 +37,23 @@ FCDController::~FCDController()
 {
 }
 
+// Create a copy of this object.
+FCDEntity* FCDController::Clone(FCDEntity* _clone, bool cloneChildren) const
+{
+	FCDController* clone = NULL;
+	if (_clone == NULL) _clone = clone = new FCDController(const_cast<FCDocument*>(GetDocument()));
+	else if (_clone->HasType(FCDController::GetClassType())) clone = (FCDController*) _clone;
+
+	Parent::Clone(_clone, cloneChildren);
+
+	if (clone != NULL)
+	{
+		if (IsSkin()) skinController->Clone(clone->CreateSkinController());
+		else if (IsMorph()) morphController->Clone(clone->CreateMorphController());
+	}
+	return _clone;
+}
+
 
 // Sets the type of this controller to a skin controller.
 FCDSkinController* FCDController::CreateSkinController()
diff --git a/FCollada/FCDocument/FCDController.h b/FCollada/FCDocument/FCDController.h
index 25a166c..dadad9c 100644
--- a/FCollada/FCDocument/FCDController.h
+++ b/FCollada/FCDocument/FCDController.h
@@ -59,6 +59,14 @@ public:
 		@return The entity class type: CONTROLLER. */
 	virtual Type GetType() const { return CONTROLLER; }
 
+	/** Clones the controller object.
+		@param clone The cloned object. If this pointer is NULL, a new object is created and
+			you will need to release this new object. If the cloned object is not of type FCDController,
+			only the information of the parent class is cloned.
+		@param cloneChildren Whether to recursively clone this entity's children.
+		@return The cloned object. */
+	virtual FCDEntity* Clone(FCDEntity* clone = NULL, bool cloneChildren = false) const;
+
 	/** Retrieves whether this controller is a skin controller.
 		@return Whether this controller is a skin controller. */
 	bool IsSkin() const { return skinController != NULL; }
diff --git a/FCollada/FCDocument/FCDMorphController.cpp b/FCollada/FCDocument/FCDMorphController.cpp
index a0e7dad..45a6d4c 100644
--- a/FCollada/FCDocument/FCDMorphController.cpp
+++ b/FCollada/FCDocument/FCDMorphController.cpp
@@ -96,6 +96,20 @@ FCDMorphTarget* FCDMorphController::AddTarget(FCDGeometry* geometry, float weigh
 	return target;
 }
 
+// Copies the information of this morpher into another morpher.
+FCDMorphController* FCDMorphController::Clone(FCDMorphController* clone) const
+{
+	if (clone == NULL) return NULL;
+	clone->method = method;
+	for (const FCDMorphTarget** it = morphTargets.begin(); it != morphTargets.end(); ++it)
+	{
+		clone->AddTarget(const_cast<FCDGeometry*>((*it)->GetGeometry()), (*it)->GetWeight());
+	}
+	clone->baseTarget = const_cast<FCDEntity*>(GetBaseTarget());
+	clone->SetDirtyFlag();
+	return clone;
+}
+
 // Retrieves whether a given entity is similar to the base target.
 bool FCDMorphController::IsSimilar(FCDEntity* entity)
 {
diff --git a/FCollada/FCDocument/FCDMorphController.h b/FCollada/FCDocument/FCDMorphController.h
index d25366d..5527ba0 100644
--- a/FCollada/FCDocument/FCDMorphController.h
+++ b/FCollada/FCDocument/FCDMorphController.h
@@ -175,6 +175,11 @@ public:
 		@return The new morph target. */
 	FCDMorphTarget* AddTarget(FCDGeometry* geometry = NULL, float weight = 0.0f);
 
+	/** Copies the information of this morpher into another morpher.
+		@param clone The morpher to copy into.
+		@return The clone. */
+	FCDMorphController* Clone(FCDMorphController* clone) const;
+
 	/** Retrieves the method used to interpolate between the different morph targets.
 		@return The interpolation method. */
 	FUDaeMorphMethod::Method GetMethod() const { return (FUDaeMorphMethod::Method) *method; }
diff --git a/FCollada/FCDocument/FCDSkinController.cpp b/FCollada/FCDocument/FCDSkinController.cpp
index 30abc92..f4f7e24 100644
--- a/FCollada/FCDocument/FCDSkinController.cpp
+++ b/FCollada/FCDocument/FCDSkinController.cpp
@@ -138,6 +138,19 @@ FCDSkinControllerJoint* FCDSkinController::AddJoint(const fm::string jSubId, con
 }
 
 
+// Copies the information of this skin into another skin.
+FCDSkinController* FCDSkinController::Clone(FCDSkinController* clone) const
+{
+	if (clone == NULL) return NULL;
+	clone->target->SetUri(target->GetUri());
+	clone->target->SetEntity(const_cast<FCDEntity*>(GetTarget()));
+	clone->bindShapeTransform = bindShapeTransform;
+	clone->joints = joints;
+	clone->influences = influences;
+	clone->SetDirtyFlag();
+	return clone;
+}
+
 // Reduce the number of joints influencing each vertex to a maximum count
 void FCDSkinController::ReduceInfluences(uint32 maxInfluenceCount, float minimumWeight)
 {
diff --git a/FCollada/FCDocument/FCDSkinController.h b/FCollada/FCDocument/FCDSkinController.h
index 2eb224b..18ffece 100644
--- a/FCollada/FCDocument/FCDSkinController.h
+++ b/FCollada/FCDocument/FCDSkinController.h
@@ -244,6 +244,11 @@ public:
 		@param maxInfluenceCount The maximum number of influence to keep for each vertex.
 		@param minimumWeight The smallest weight to keep. */
 	void ReduceInfluences(uint32 maxInfluenceCount, float minimumWeight=0.0f);
+
+	/** Copies the information of this skin into another skin.
+		@param clone The skin to copy into.
+		@return The clone. */
+	FCDSkinController* Clone(FCDSkinController* clone) const;
 };
 
 #endif // _FCD_SKIN_CONTROLLER_H_
-- 
2.43.0


From 536b6bc0862b71d9a9391e740efb00f680510c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:42 +0000
Subject: [PATCH 116/209] fix: FCDEffectParameterSampler::Clone: copy the wrap
 modes and filters

---
 FCollada/FCDocument/FCDEffectParameterSampler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FCDocument/FCDEffectParameterSampler.cpp b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
index c6f07ce..0ccc62b 100644
--- a/FCollada/FCDocument/FCDEffectParameterSampler.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
@@ -74,6 +74,12 @@ FCDEffectParameter* FCDEffectParameterSampler::Clone(FCDEffectParameter* _clone)
 	{
 		clone->surface = const_cast<FCDEffectParameterSurface*>((const FCDEffectParameterSurface*)(surface));
 		clone->samplerType = samplerType;
+		clone->wrap_s = wrap_s;
+		clone->wrap_t = wrap_t;
+		clone->wrap_p = wrap_p;
+		clone->minFilter = minFilter;
+		clone->magFilter = magFilter;
+		clone->mipFilter = mipFilter;
 	}
 	return _clone;
 }
-- 
2.43.0


From 76b3582f3e8cff0f98254aa770aa4723b780ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 117/209] fix: FCDEffectParameterSurface::Clone: copy the
 surface type

---
 FCollada/FCDocument/FCDEffectParameterSurface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDEffectParameterSurface.cpp b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
index 11d201c..30271e6 100644
--- a/FCollada/FCDocument/FCDEffectParameterSurface.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
@@ -165,6 +165,7 @@ FCDEffectParameter* FCDEffectParameterSurface::Clone(FCDEffectParameter* _clone)
 		clone->mipLevelCount = mipLevelCount;
 		clone->generateMipmaps = generateMipmaps;
 
+		clone->type = type;
 		clone->format = format;
 		if (formatHint != NULL)
 		{
-- 
2.43.0


From f59bd08fa845bbbac6f99ae18f4736c35ee557e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 118/209] fix: FCDEffectProfileFX::Clone: copy the platform

---
 FCollada/FCDocument/FCDEffectProfileFX.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDEffectProfileFX.cpp b/FCollada/FCDocument/FCDEffectProfileFX.cpp
index c474bfe..035b866 100644
--- a/FCollada/FCDocument/FCDEffectProfileFX.cpp
+++ b/FCollada/FCDocument/FCDEffectProfileFX.cpp
@@ -82,6 +82,7 @@ FCDEffectProfile* FCDEffectProfileFX::Clone(FCDEffectProfile* _clone) const
 	if (clone != NULL)
 	{
 		clone->type = type;
+		clone->platform = platform;
 
 		// Clone the codes: needs to happen before the techniques are cloned.
 		clone->codes.reserve(codes.size());
-- 
2.43.0


From 79be4adc35f371f6ac466d978729751fe54201f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 119/209] fix: FCDEffectStandard::Clone: copy the parameter
 references and the reflective and refractive flags

---
 FCollada/FCDocument/FCDEffectStandard.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDEffectStandard.cpp b/FCollada/FCDocument/FCDEffectStandard.cpp
index 1d497c4..c34bd8f 100644
--- a/FCollada/FCDocument/FCDEffectStandard.cpp
+++ b/FCollada/FCDocument/FCDEffectStandard.cpp
@@ -260,13 +260,14 @@ FCDEffectProfile* FCDEffectStandard::Clone(FCDEffectProfile* _clone) const
 		}
 		clone->transparencyMode = transparencyMode;
 
-#define CLONE_ANIMATED(value) clone->value->SetValue(value->GetValue()); if (value->GetValue().IsAnimated()) value->GetValue().GetAnimated()->Clone(clone->value->GetValue().GetAnimated());
+#define CLONE_ANIMATED(value) value->Clone(clone->value); if (value->GetValue().IsAnimated()) value->GetValue().GetAnimated()->Clone(clone->value->GetValue().GetAnimated());
 
 		CLONE_ANIMATED(emissionColor); CLONE_ANIMATED(emissionFactor); clone->isEmissionFactor = isEmissionFactor;
 		CLONE_ANIMATED(translucencyColor); CLONE_ANIMATED(translucencyFactor);
 		CLONE_ANIMATED(diffuseColor); CLONE_ANIMATED(ambientColor);
 		CLONE_ANIMATED(specularColor); CLONE_ANIMATED(specularFactor); CLONE_ANIMATED(shininess);
-		CLONE_ANIMATED(reflectivityColor); CLONE_ANIMATED(reflectivityFactor); CLONE_ANIMATED(indexOfRefraction);
+		CLONE_ANIMATED(reflectivityColor); CLONE_ANIMATED(reflectivityFactor); clone->isReflective = isReflective;
+		CLONE_ANIMATED(indexOfRefraction); clone->isRefractive = isRefractive;
 
 #undef CLONE_ANIMATED
 	}
-- 
2.43.0


From fa9bc63b9cb994f44a8745a4987abffc336f087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 120/209] fix: FCDMaterial::Clone: copy the technique hints and
 use the cloned effect

---
 FCollada/FCDocument/FCDMaterial.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/FCollada/FCDocument/FCDMaterial.cpp b/FCollada/FCDocument/FCDMaterial.cpp
index c7708de..8fc1f5a 100644
--- a/FCollada/FCDocument/FCDMaterial.cpp
+++ b/FCollada/FCDocument/FCDMaterial.cpp
@@ -92,6 +92,7 @@ FCDEntity* FCDMaterial::Clone(FCDEntity* _clone, bool cloneChildren) const
 				clone->ownsEffect = true;
 				FCDEffect* clonedEffect = clone->GetDocument()->GetEffectLibrary()->AddEntity();
 				_effect->Clone(clonedEffect, cloneChildren);
+				clone->SetEffect(clonedEffect);
 			}
 			else
 			{
@@ -99,6 +100,9 @@ FCDEntity* FCDMaterial::Clone(FCDEntity* _clone, bool cloneChildren) const
 			}
 		}
 
+		// Clone the platform-technique hints
+		clone->techniqueHints = techniqueHints;
+
 		// Clone the effect parameters
 		size_t parameterCount = parameters.size();
 		for (size_t p = 0; p < parameterCount; ++p)
-- 
2.43.0


From 8a4aee729c73ccb45d70bd4d398d7a31a6029804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 121/209] fix: FCDGeometryPolygons::Clone: copy the primitive
 type

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 48b5cc4..1520862 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -300,6 +300,7 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 	if (clone == NULL) return NULL;
 
 	// Clone the miscellaneous information.
+	clone->primitiveType = primitiveType;
 	clone->materialSemantic = materialSemantic;
 	clone->faceVertexCounts = faceVertexCounts;
 	clone->faceOffset = faceOffset;
-- 
2.43.0


From 9d4dad2fda084fdf088f946423cdf67a97fb98cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 122/209] fix: FCDGeometryPolygons::Clone: copy the extra tree

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 1520862..d50ce5b 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -344,5 +344,11 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 		input->SetSet(inputs[i]->GetSet());
 	}
 
+	// Clone the extra information.
+	if (extra != NULL)
+	{
+		extra->Clone(clone->GetExtra());
+	}
+
 	return clone;
 }
-- 
2.43.0


From fd1974f614e24ba49b75c2bfc08f6ccf13a2f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 123/209] fix: FCDPhysicsShape::Clone: material instance cloned
 into itself, shared material and density flag lost

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index faf4e7f..7463781 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -122,15 +122,20 @@ FCDPhysicsShape* FCDPhysicsShape::Clone(FCDPhysicsShape* clone) const
 
 	if (mass != NULL) clone->SetMass(*mass);
 	if (density != NULL) clone->SetDensity(*density);
+	clone->SetDensityMoreAccurate(isDensityMoreAccurate);
 	clone->SetHollow(hollow);
 
 	// Clone the material instance
 	if (instanceMaterialRef != NULL)
 	{
 		clone->instanceMaterialRef = FCDEntityInstanceFactory::CreateInstance(clone->GetDocument(), NULL, FCDEntity::PHYSICS_MATERIAL);
-		instanceMaterialRef->Clone(instanceMaterialRef);
+		instanceMaterialRef->Clone(clone->instanceMaterialRef);
 	}
-	if (physicsMaterial != NULL)
+	if (physicsMaterial != NULL && !ownsPhysicsMaterial && clone->IsLocal(this))
+	{
+		clone->SetPhysicsMaterial(const_cast<FCDPhysicsMaterial*>(physicsMaterial.operator->()));
+	}
+	else if (physicsMaterial != NULL)
 	{
 		FCDPhysicsMaterial* clonedMaterial = clone->AddOwnPhysicsMaterial();
 		physicsMaterial->Clone(clonedMaterial);
-- 
2.43.0


From 0cce73bb9fca2b23175f220dea30583946700c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 124/209] fix: FCDPhysicsRigidBodyParameters::CopyFrom: copy
 the density and the accuracy flags

---
 FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
index 03f6fa6..bbaa2e7 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
+++ b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
@@ -77,6 +77,9 @@ void FCDPhysicsRigidBodyParameters::CopyFrom(const FCDPhysicsRigidBodyParameters
 
 	dynamic = original.dynamic;
 	mass = original.mass;
+	density = original.density;
+	isDensityMoreAccurate = original.isDensityMoreAccurate;
+	isInertiaAccurate = original.isInertiaAccurate;
 	inertia = original.inertia;
 	massFrameTranslate = original.massFrameTranslate;
 	massFrameOrientation = original.massFrameOrientation;
-- 
2.43.0


From 4e9df1b6dca7e7a5edd06e2f1d87d09feefa5662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 125/209] fix: FCDPhysicsRigidBodyParameters::CopyFrom: do not
 share a physics material owned by the original

---
 FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
index bbaa2e7..50a78e7 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
+++ b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
@@ -92,7 +92,7 @@ void FCDPhysicsRigidBodyParameters::CopyFrom(const FCDPhysicsRigidBodyParameters
 
 	if (original.physicsMaterial != NULL)
 	{
-		if (parent->IsLocal(original.parent))
+		if (!original.ownsPhysicsMaterial && parent->IsLocal(original.parent))
 		{
 			SetPhysicsMaterial(const_cast<FCDPhysicsMaterial*> (original.physicsMaterial.operator->()));
 		}
-- 
2.43.0


From 6f6aeab7d7f2559303f6ccde613518a0d7430de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 126/209] fix: FCDPhysicsRigidConstraint::Clone: copy the
 sub-id

---
 FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp b/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp
index eb4a027..f80d247 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp
+++ b/FCollada/FCDocument/FCDPhysicsRigidConstraint.cpp
@@ -83,6 +83,7 @@ FCDEntity* FCDPhysicsRigidConstraint::Clone(FCDEntity* _clone, bool cloneChildre
 
 	if (clone != NULL)
 	{
+		clone->sid = sid;
 		clone->enabled = enabled;
 		clone->interpenetrate = interpenetrate;
 		clone->referenceRigidBody = referenceRigidBody;
-- 
2.43.0


From 1f24c1c0ab800f852ae32b7794337a83dca137e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 127/209] fix: FCDPASPlane::Clone: copy the distance

---
 FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp b/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
index 507377e..84eb40f 100644
--- a/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
+++ b/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
@@ -87,6 +87,7 @@ FCDEntity* FCDPASPlane::Clone(FCDEntity* _clone, bool cloneChildren) const
 	if (clone != NULL)
 	{
 		clone->normal = normal;
+		clone->d = d;
 	}
 	return _clone;
 }
-- 
2.43.0


From 38bcfd2db0032d0ccfd26b253ad5d627643ef289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 128/209] fix: FCDTexture::Clone: cloning an effect profile
 duplicated the samplers

---
 FCollada/FCDocument/FCDTexture.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDTexture.cpp b/FCollada/FCDocument/FCDTexture.cpp
index f6ade59..f2207da 100644
--- a/FCollada/FCDocument/FCDTexture.cpp
+++ b/FCollada/FCDocument/FCDTexture.cpp
@@ -149,7 +149,24 @@ FCDTexture* FCDTexture::Clone(FCDTexture* clone) const
 
 	if (sampler != NULL)
 	{
-		sampler->Clone(clone->GetSampler());
+		if (clone->parent == parent)
+		{
+			// The textures of an effect profile may share a sampler.
+			clone->SetSampler(const_cast<FCDEffectParameterSampler*>(GetSampler()));
+		}
+		else
+		{
+			// The sampler has been cloned already, when the whole profile is being cloned.
+			FCDEffectParameter* cloned = FCDEffectTools::FindEffectParameterByReference(clone->parent, sampler->GetReference());
+			if (cloned != NULL && cloned->HasType(FCDEffectParameterSampler::GetClassType()))
+			{
+				clone->SetSampler((FCDEffectParameterSampler*) cloned);
+			}
+			else
+			{
+				sampler->Clone(clone->GetSampler());
+			}
+		}
 	}
 
 	return clone;
-- 
2.43.0


From 1128b5b163dfb0f4d97328c32203de5923ae14a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 129/209] fix: FCDPhysicsModel::Clone: the cloned constraints
 were attached to the original rigid bodies

---
 FCollada/FCDocument/FCDPhysicsModel.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/FCollada/FCDocument/FCDPhysicsModel.cpp b/FCollada/FCDocument/FCDPhysicsModel.cpp
index f7f8699..f47ae5a 100644
--- a/FCollada/FCDocument/FCDPhysicsModel.cpp
+++ b/FCollada/FCDocument/FCDPhysicsModel.cpp
@@ -71,6 +71,15 @@ FCDEntity* FCDPhysicsModel::Clone(FCDEntity* _clone, bool cloneChildren) const
 		{
 			FCDPhysicsRigidConstraint* clonedConstraint = clone->AddRigidConstraint();
 			(*it)->Clone(clonedConstraint, cloneChildren);
+
+			// The constraint attaches the cloned rigid bodies together.
+			size_t offset = clone->rigidBodies.size() - rigidBodies.size();
+			for (size_t b = 0; b < rigidBodies.size(); ++b)
+			{
+				FCDPhysicsRigidBody* clonedBody = clone->rigidBodies[b + offset];
+				if ((*it)->GetReferenceRigidBody() == rigidBodies[b]) clonedConstraint->SetReferenceRigidBody(clonedBody);
+				if ((*it)->GetTargetRigidBody() == rigidBodies[b]) clonedConstraint->SetTargetRigidBody(clonedBody);
+			}
 		}
 
 		// Clone the model instances
-- 
2.43.0


From e7e14c8ac62ec29fa47dd29d9fa33ec8d7319562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 130/209] fix: the samplers of cloned effects and materials
 used the surfaces of the originals

---
 FCollada/FCDocument/FCDEffect.cpp             | 15 ++++++++++
 .../FCDocument/FCDEffectParameterSampler.h    | 28 +++++++++++++++++++
 FCollada/FCDocument/FCDEffectProfile.cpp      |  2 ++
 FCollada/FCDocument/FCDEffectTechnique.cpp    |  6 ++++
 FCollada/FCDocument/FCDMaterial.cpp           |  2 ++
 5 files changed, 53 insertions(+)

diff --git a/FCollada/FCDocument/FCDEffect.cpp b/FCollada/FCDocument/FCDEffect.cpp
index 9fe3c65..bf6937b 100644
--- a/FCollada/FCDocument/FCDEffect.cpp
+++ b/FCollada/FCDocument/FCDEffect.cpp
@@ -17,6 +17,8 @@
 #include "FCDocument/FCDEffect.h"
 #include "FCDocument/FCDEffectStandard.h"
 #include "FCDocument/FCDEffectProfileFX.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
+#include "FCDocument/FCDEffectTechnique.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
 #include "FCDocument/FCDLibrary.h"
@@ -115,6 +117,19 @@ FCDEntity* FCDEffect::Clone(FCDEntity* _clone, bool cloneChildren) const
 			FCDEffectParameter* parameter = clone->AddEffectParameter(parameters[p]->GetType());
 			parameters[p]->Clone(parameter);
 		}
+		FCDEffectParameterSampler::UseClonedSurfaces(clone, this, clone);
+
+		// The profiles and their techniques may also use the surfaces of the effect.
+		for (FCDEffectProfile** itR = clone->profiles.begin(); itR != clone->profiles.end(); ++itR)
+		{
+			FCDEffectParameterSampler::UseClonedSurfaces(*itR, this, clone);
+			if (!(*itR)->HasType(FCDEffectProfileFX::GetClassType())) continue;
+			FCDEffectProfileFX* profile = (FCDEffectProfileFX*) *itR;
+			for (size_t t = 0; t < profile->GetTechniqueCount(); ++t)
+			{
+				FCDEffectParameterSampler::UseClonedSurfaces(profile->GetTechnique(t), this, clone);
+			}
+		}
 	}
 	return _clone;
 }
diff --git a/FCollada/FCDocument/FCDEffectParameterSampler.h b/FCollada/FCDocument/FCDEffectParameterSampler.h
index b982c96..4f8897f 100644
--- a/FCollada/FCDocument/FCDEffectParameterSampler.h
+++ b/FCollada/FCDocument/FCDEffectParameterSampler.h
@@ -17,6 +17,9 @@
 #ifndef _FCD_EFFECT_PARAMETER_H_
 #include "FCDocument/FCDEffectParameter.h"
 #endif // _FCD_EFFECT_PARAMETER_H_
+#ifndef _FCD_EFFECT_PARAMETER_SURFACE_H_
+#include "FCDocument/FCDEffectParameterSurface.h"
+#endif // _FCD_EFFECT_PARAMETER_H_
 
 #ifndef _FU_DAE_ENUM_H_
 #include "FUtils/FUDaeEnum.h"
@@ -128,6 +131,31 @@ public:
 		@return The cloned effect parameter. */
 	virtual FCDEffectParameter* Clone(FCDEffectParameter* clone = NULL) const;
 
+	/** Redirects the samplers of a cloned object to the cloned surfaces.
+		A cloned sampler points to the surface of the original sampler.
+		@param samplers The cloned object that holds the samplers.
+		@param originals The original object that holds the surfaces.
+		@param clones The clone of this last object: its last parameters are the clones. */
+	template <class SCOPE, class ORIGINAL, class CLONE>
+	static void UseClonedSurfaces(SCOPE* samplers, const ORIGINAL* originals, CLONE* clones)
+	{
+		size_t samplerCount = samplers->GetEffectParameterCount();
+		size_t surfaceCount = originals->GetEffectParameterCount();
+		size_t offset = clones->GetEffectParameterCount() - surfaceCount;
+		for (size_t i = 0; i < samplerCount; ++i)
+		{
+			if (samplers->GetEffectParameter(i)->GetType() != SAMPLER) continue;
+			FCDEffectParameterSampler* sampler = (FCDEffectParameterSampler*) samplers->GetEffectParameter(i);
+			const FCDEffectParameter* surface = (FCDEffectParameterSurface*) sampler->surface;
+			for (size_t j = 0; j < surfaceCount && surface != NULL; ++j)
+			{
+				if (originals->GetEffectParameter(j) != surface) continue;
+				sampler->surface = (FCDEffectParameterSurface*) clones->GetEffectParameter(j + offset);
+				break;
+			}
+		}
+	}
+
 	/** [INTERNAL] Overwrites the target parameter with this parameter.
 		This function is used during the flattening of materials.
 		@param target The target parameter to overwrite. */
diff --git a/FCollada/FCDocument/FCDEffectProfile.cpp b/FCollada/FCDocument/FCDEffectProfile.cpp
index ee9389d..a3e8492 100644
--- a/FCollada/FCDocument/FCDEffectProfile.cpp
+++ b/FCollada/FCDocument/FCDEffectProfile.cpp
@@ -15,6 +15,7 @@
 #include "FCDocument/FCDExtra.h"
 #include "FCDocument/FCDImage.h"
 #include "FCDocument/FCDLibrary.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
 
 //
 // FCDEffectProfile
@@ -46,6 +47,7 @@ FCDEffectProfile* FCDEffectProfile::Clone(FCDEffectProfile* clone) const
 		FCDEffectParameter* parameter = clone->AddEffectParameter(parameters[p]->GetType());
 		parameters[p]->Clone(parameter);
 	}
+	FCDEffectParameterSampler::UseClonedSurfaces(clone, this, clone);
 	extra->Clone(clone->extra);
 	return clone;
 }
diff --git a/FCollada/FCDocument/FCDEffectTechnique.cpp b/FCollada/FCDocument/FCDEffectTechnique.cpp
index f434391..d06bfee 100644
--- a/FCollada/FCDocument/FCDEffectTechnique.cpp
+++ b/FCollada/FCDocument/FCDEffectTechnique.cpp
@@ -12,6 +12,7 @@
 #include "FCDocument/FCDEffectCode.h"
 #include "FCDocument/FCDEffectPass.h"
 #include "FCDocument/FCDEffectProfileFX.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
 #include "FCDocument/FCDEffectTechnique.h"
@@ -70,6 +71,11 @@ FCDEffectTechnique* FCDEffectTechnique::Clone(FCDEffectTechnique* clone) const
 		FCDEffectParameter* parameter = clone->AddEffectParameter(parameters[p]->GetType());
 		parameters[p]->Clone(parameter);
 	}
+	FCDEffectParameterSampler::UseClonedSurfaces(clone, this, clone);
+	if (parent != NULL && clone->parent != NULL && clone->parent != parent)
+	{
+		FCDEffectParameterSampler::UseClonedSurfaces(clone, parent, clone->parent);
+	}
 
 	// Clone the codes: need to happen before the passes are cloned
 	clone->codes.reserve(codes.size());
diff --git a/FCollada/FCDocument/FCDMaterial.cpp b/FCollada/FCDocument/FCDMaterial.cpp
index 8fc1f5a..208193b 100644
--- a/FCollada/FCDocument/FCDMaterial.cpp
+++ b/FCollada/FCDocument/FCDMaterial.cpp
@@ -16,6 +16,7 @@
 #include "FCDocument/FCDocument.h"
 #include "FCDocument/FCDEffect.h"
 #include "FCDocument/FCDEffectTools.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
 #include "FCDocument/FCDEntityReference.h"
@@ -110,6 +111,7 @@ FCDEntity* FCDMaterial::Clone(FCDEntity* _clone, bool cloneChildren) const
 			FCDEffectParameter* parameter = clone->AddEffectParameter(parameters[p]->GetType());
 			parameters[p]->Clone(parameter);
 		}
+		FCDEffectParameterSampler::UseClonedSurfaces(clone, this, clone);
 	}
 
 	return _clone;
-- 
2.43.0


From 58a07e4a3f47d1ce678ec3603dd3d6ed28c36577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 131/209] fix: FCDAnimationClip::Clone: the cloned curves were
 leaked and registered the clip twice

---
 FCollada/FCDocument/FCDAnimationClip.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationClip.cpp b/FCollada/FCDocument/FCDAnimationClip.cpp
index 0fe71a6..a057af2 100644
--- a/FCollada/FCDocument/FCDAnimationClip.cpp
+++ b/FCollada/FCDocument/FCDAnimationClip.cpp
@@ -60,8 +60,9 @@ FCDEntity* FCDAnimationClip::Clone(FCDEntity* _clone, bool cloneChildren) const
 		{
 			if (cloneChildren)
 			{
-				FCDAnimationCurve* clonedCurve = (*it)->Clone(NULL, false);
-				clonedCurve->AddClip(clone);
+				// The channel owns its curves.
+				FCDAnimationCurve* clonedCurve = const_cast<FCDAnimationCurve*>(*it)->GetParent()->AddCurve();
+				(*it)->Clone(clonedCurve, false);
 				clone->AddClipCurve(clonedCurve);
 			}
 		}
-- 
2.43.0


From 141a59aba133c2dab877602bde51b90ab18f26eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 132/209] fix: FCDAnimationClip::Clone: copy the animation
 instances and their names

---
 FCollada/FCDocument/FCDAnimationClip.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationClip.cpp b/FCollada/FCDocument/FCDAnimationClip.cpp
index a057af2..cdb4218 100644
--- a/FCollada/FCDocument/FCDAnimationClip.cpp
+++ b/FCollada/FCDocument/FCDAnimationClip.cpp
@@ -55,6 +55,15 @@ FCDEntity* FCDAnimationClip::Clone(FCDEntity* _clone, bool cloneChildren) const
 		clone->start = start;
 		clone->end = end;
 
+		// Copy the animation instances.
+		for (size_t i = 0; i < animations.size(); ++i)
+		{
+			FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(clone->GetDocument(), NULL, FCDEntity::ANIMATION);
+			clone->animations.push_back(instance);
+			animations[i]->Clone(instance);
+		}
+		clone->names = names;
+
 		// If requested, clone the animation curves as well.
 		for (FCDAnimationCurveTrackList::const_iterator it = curves.begin(); it != curves.end(); ++it)
 		{
-- 
2.43.0


From 30196ab69f746e29b912657fb4930d644b2a3eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 133/209] fix: FCDAnimationCurve::Clone: the cloned clips were
 leaked, registered twice and got the wrong offsets

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index f68f2c8..6ee1c5e 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -18,6 +18,8 @@
 #include "FCDocument/FCDAnimated.h"
 #include "FCDocument/FCDAnimationClip.h"
 #include "FCDocument/FCDAnimationKey.h"
+#include "FCDocument/FCDocument.h"
+#include "FCDocument/FCDLibrary.h"
 #include "FUtils/FUDaeEnum.h"
 
 #include <cassert>
@@ -264,14 +266,11 @@ FCDAnimationCurve* FCDAnimationCurve::Clone(FCDAnimationCurve* clone, bool inclu
 		// Animation clips that depend on this curve
 		for (FCDAnimationClipList::const_iterator it = clips.begin(); it != clips.end(); ++it)
 		{
-			FCDAnimationClip* clonedClip = (FCDAnimationClip*) (*it)->Clone(0, false);
+			// The clip registers itself with the curve.
+			FCDAnimationClip* clonedClip = clone->GetDocument()->GetAnimationClipLibrary()->AddEntity();
+			(*it)->Clone(clonedClip, false);
 			clonedClip->AddClipCurve(clone);
-			clone->AddClip(clonedClip);
-		}
-
-		for (FloatList::const_iterator it = clipOffsets.begin(); it != clipOffsets.end(); ++it)
-		{
-			clone->clipOffsets.push_back(*it);
+			clone->SetClipOffset(clipOffsets[it - clips.begin()], clonedClip);
 		}
 	}
 
-- 
2.43.0


From cc7466a60f4212a37dad2e64da5084a16ed623e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 134/209] fix: the clone of a standard effect has its own
 animation curves

---
 FCollada/FCDocument/FCDEffectStandard.cpp | 35 ++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEffectStandard.cpp b/FCollada/FCDocument/FCDEffectStandard.cpp
index c34bd8f..5d10b1b 100644
--- a/FCollada/FCDocument/FCDEffectStandard.cpp
+++ b/FCollada/FCDocument/FCDEffectStandard.cpp
@@ -15,6 +15,9 @@
 #include "StdAfx.h"
 #include "FCDocument/FCDocument.h"
 #include "FCDocument/FCDAnimated.h"
+#include "FCDocument/FCDAnimation.h"
+#include "FCDocument/FCDAnimationChannel.h"
+#include "FCDocument/FCDAnimationCurve.h"
 #include "FCDocument/FCDEffect.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
@@ -238,6 +241,36 @@ float FCDEffectStandard::GetReflectivity() const
 	return (reflectivityColor->GetValue()->x + reflectivityColor->GetValue()->x + reflectivityColor->GetValue()->x) / 3.0f * reflectivityFactor->GetValue();
 }
 
+// Clones an animated value: the clone gets its own copy of the curves.
+static void CloneAnimated(const FCDAnimated* animated, FCDAnimated* clone)
+{
+	animated->Clone(clone);
+
+	typedef fm::map<FCDAnimationChannel*, FCDAnimationChannel*> ChannelMap;
+	ChannelMap channels;
+	size_t valueCount = min(animated->GetValueCount(), clone->GetValueCount());
+	for (size_t i = 0; i < valueCount; ++i)
+	{
+		clone->RemoveCurve(i);
+		if (clone->GetDocument() != animated->GetDocument()) continue; // The animations belong to the other document.
+
+		size_t curveCount = animated->GetCurveCount(i);
+		for (size_t j = 0; j < curveCount; ++j)
+		{
+			FCDAnimationCurve* curve = const_cast<FCDAnimationCurve*>(animated->GetCurve(i, j));
+			FCDAnimationChannel* channel = curve->GetParent();
+			if (channel == NULL) continue;
+			if (channels.find(channel) == channels.end())
+			{
+				channels[channel] = channel->GetParent()->AddChannel();
+			}
+			FCDAnimationCurve* clonedCurve = channels[channel]->AddCurve();
+			curve->Clone(clonedCurve, false);
+			clone->AddCurve(i, clonedCurve);
+		}
+	}
+}
+
 // Clone the standard effect
 FCDEffectProfile* FCDEffectStandard::Clone(FCDEffectProfile* _clone) const
 {
@@ -260,7 +293,7 @@ FCDEffectProfile* FCDEffectStandard::Clone(FCDEffectProfile* _clone) const
 		}
 		clone->transparencyMode = transparencyMode;
 
-#define CLONE_ANIMATED(value) value->Clone(clone->value); if (value->GetValue().IsAnimated()) value->GetValue().GetAnimated()->Clone(clone->value->GetValue().GetAnimated());
+#define CLONE_ANIMATED(value) value->Clone(clone->value); if (value->GetValue().IsAnimated()) CloneAnimated(value->GetValue().GetAnimated(), clone->value->GetValue().GetAnimated());
 
 		CLONE_ANIMATED(emissionColor); CLONE_ANIMATED(emissionFactor); clone->isEmissionFactor = isEmissionFactor;
 		CLONE_ANIMATED(translucencyColor); CLONE_ANIMATED(translucencyFactor);
-- 
2.43.0


From 1143c529ac222e504391565f7149276d3d05b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 135/209] fix: the clone of a texture takes the clone of its
 own sampler

---
 FCollada/FCDocument/FCDTexture.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDTexture.cpp b/FCollada/FCDocument/FCDTexture.cpp
index f2207da..a50103a 100644
--- a/FCollada/FCDocument/FCDTexture.cpp
+++ b/FCollada/FCDocument/FCDTexture.cpp
@@ -157,7 +157,16 @@ FCDTexture* FCDTexture::Clone(FCDTexture* clone) const
 		else
 		{
 			// The sampler has been cloned already, when the whole profile is being cloned.
-			FCDEffectParameter* cloned = FCDEffectTools::FindEffectParameterByReference(clone->parent, sampler->GetReference());
+			FCDEffectParameter* cloned = NULL;
+			size_t parameterCount = min(parent->GetEffectParameterCount(), clone->parent->GetEffectParameterCount());
+			for (size_t p = 0; p < parameterCount && cloned == NULL; ++p)
+			{
+				if (parent->GetEffectParameter(p) == sampler && clone->parent->GetEffectParameter(p)->GetReference() == sampler->GetReference())
+				{
+					cloned = clone->parent->GetEffectParameter(p);
+				}
+			}
+			if (cloned == NULL) cloned = FCDEffectTools::FindEffectParameterByReference(clone->parent, sampler->GetReference());
 			if (cloned != NULL && cloned->HasType(FCDEffectParameterSampler::GetClassType()))
 			{
 				clone->SetSampler((FCDEffectParameterSampler*) cloned);
-- 
2.43.0


From 27882d760418630461aba31661b22adb19d1ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 136/209] fix: the cloned textures use the cloned samplers of
 the effect

---
 FCollada/FCDocument/FCDEffect.cpp  | 21 +++++++++++++++++++++
 FCollada/FCDocument/FCDTexture.cpp | 14 +++++++++++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEffect.cpp b/FCollada/FCDocument/FCDEffect.cpp
index bf6937b..d22c551 100644
--- a/FCollada/FCDocument/FCDEffect.cpp
+++ b/FCollada/FCDocument/FCDEffect.cpp
@@ -23,6 +23,7 @@
 #include "FCDocument/FCDEffectParameterFactory.h"
 #include "FCDocument/FCDLibrary.h"
 #include "FCDocument/FCDImage.h"
+#include "FCDocument/FCDTexture.h"
 
 //
 // FCDEffect
@@ -123,6 +124,26 @@ FCDEntity* FCDEffect::Clone(FCDEntity* _clone, bool cloneChildren) const
 		for (FCDEffectProfile** itR = clone->profiles.begin(); itR != clone->profiles.end(); ++itR)
 		{
 			FCDEffectParameterSampler::UseClonedSurfaces(*itR, this, clone);
+			if ((*itR)->HasType(FCDEffectStandard::GetClassType()))
+			{
+				// The textures may use the samplers of the effect.
+				FCDEffectStandard* standard = (FCDEffectStandard*) *itR;
+				for (uint32 b = 0; b < FUDaeTextureChannel::COUNT; ++b)
+				{
+					for (size_t t = 0; t < standard->GetTextureCount(b); ++t)
+					{
+						FCDTexture* texture = standard->GetTexture(b, t);
+						for (size_t p = 0; p < parameterCount; ++p)
+						{
+							if (parameters[p] == ((const FCDTexture*) texture)->GetSampler())
+							{
+								texture->SetSampler((FCDEffectParameterSampler*) clone->GetEffectParameter(clone->GetEffectParameterCount() - parameterCount + p));
+								break;
+							}
+						}
+					}
+				}
+			}
 			if (!(*itR)->HasType(FCDEffectProfileFX::GetClassType())) continue;
 			FCDEffectProfileFX* profile = (FCDEffectProfileFX*) *itR;
 			for (size_t t = 0; t < profile->GetTechniqueCount(); ++t)
diff --git a/FCollada/FCDocument/FCDTexture.cpp b/FCollada/FCDocument/FCDTexture.cpp
index a50103a..a4c78fd 100644
--- a/FCollada/FCDocument/FCDTexture.cpp
+++ b/FCollada/FCDocument/FCDTexture.cpp
@@ -167,7 +167,19 @@ FCDTexture* FCDTexture::Clone(FCDTexture* clone) const
 				}
 			}
 			if (cloned == NULL) cloned = FCDEffectTools::FindEffectParameterByReference(clone->parent, sampler->GetReference());
-			if (cloned != NULL && cloned->HasType(FCDEffectParameterSampler::GetClassType()))
+
+			// The samplers of the whole effect are replaced when the effect is being cloned.
+			bool isEffectSampler = false;
+			const FCDEffect* effect = parent->GetParent();
+			for (size_t p = 0; effect != NULL && p < effect->GetEffectParameterCount() && !isEffectSampler; ++p)
+			{
+				isEffectSampler = effect->GetEffectParameter(p) == sampler;
+			}
+			if (isEffectSampler)
+			{
+				clone->SetSampler(const_cast<FCDEffectParameterSampler*>(GetSampler()));
+			}
+			else if (cloned != NULL && cloned->HasType(FCDEffectParameterSampler::GetClassType()))
 			{
 				clone->SetSampler((FCDEffectParameterSampler*) cloned);
 			}
-- 
2.43.0


From b1e84d13ddac8b9e1747bb6cd663c0a60c8fa455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 137/209] fix: the export of merged curves does not use
 released animated values

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 9 ++++-----
 FColladaPlugins/FArchiveXML/FAXStructures.h        | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 5ee5624..26b7254 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -98,12 +98,11 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 			values.push_back((*itDV).defaultValue);
 		}
 
-		FUAssert(data.animatedValue != NULL, return parentNode);
 		const char** qualifiers = new const char*[values.size()];
 		memset(qualifiers, 0, sizeof(char*) * values.size());
-		for (size_t i = 0; i < values.size() && i < data.animatedValue->GetValueCount(); ++i)
+		for (size_t i = 0; i < values.size(); ++i)
 		{
-			qualifiers[i] = data.animatedValue->GetQualifier(i);
+			qualifiers[i] = data.defaultValues[i].defaultQualifier.c_str();
 		}
 
 		// Merge and export the curves
@@ -329,7 +328,6 @@ void FArchiveXML::WriteAnimatedValue(const FCDAnimated* _animated, xmlNode* valu
 				FUAssert(channel != NULL, continue);
 
 				channelData.targetPointer = animatedData.pointer;
-				channelData.animatedValue = animated;
 
 				if (!channels.contains(channel)) channels.push_back(channel);
 			}
@@ -340,6 +338,7 @@ void FArchiveXML::WriteAnimatedValue(const FCDAnimated* _animated, xmlNode* valu
 		{
 			FCDAnimationChannel* channel = (*itC);
 			FCDAnimationChannelData& channelData = FArchiveXML::documentLinkDataMap[channel->GetDocument()].animationChannelData[channel];
+			channelData.defaultValues.clear(); // The default values belong to the last target pointer.
 
 			for (size_t i = 0; i < animated->GetValueCount(); ++i)
 			{
@@ -357,7 +356,7 @@ void FArchiveXML::WriteAnimatedValue(const FCDAnimated* _animated, xmlNode* valu
 				}
 
 				float defaultValue = !animated->GetRelativeAnimationFlag() ? *animated->GetValue(i) : 0.0f;
-				channelData.defaultValues.push_back(FAXAnimationChannelDefaultValue(curve, defaultValue));
+				channelData.defaultValues.push_back(FAXAnimationChannelDefaultValue(curve, defaultValue, animated->GetQualifier(i)));
 			}
 		}
 	}
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index 7f69f80..c3a0fff 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -118,11 +118,12 @@ struct FAXAnimationChannelDefaultValue
 {
 	FCDAnimationCurve* curve; /**< An animation curve contained by this channel. */
 	float defaultValue; /**< The default value for an animation value pointer that is not animated but may be merged. */
+	fm::string defaultQualifier; /**< The qualifier of the animation value. */
 
 	/** Default constructor. */
 	FAXAnimationChannelDefaultValue() : curve(NULL), defaultValue(0.0f) {}
 	/** Simple constructor. @param c A curve. @param f The default value. @param q The default value's qualifier. */
-	FAXAnimationChannelDefaultValue(FCDAnimationCurve* c, float f) { curve = c; defaultValue = f; }
+	FAXAnimationChannelDefaultValue(FCDAnimationCurve* c, float f, const fm::string& q) { curve = c; defaultValue = f; defaultQualifier = q; }
 };
 typedef fm::vector<FAXAnimationChannelDefaultValue> FAXAnimationChannelDefaultValueList;
 
@@ -138,7 +139,6 @@ struct FCDAnimationChannelData
 
 	// Export parameters
 	FAXAnimationChannelDefaultValueList defaultValues;
-	FCDAnimated* animatedValue = nullptr;
 
 	FCDAnimationChannelData()
 	{
-- 
2.43.0


From 70c964330bc525306b2348d8db862028ad5d98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 138/209] fix: curves forget the animation clips that are
 released

---
 FCollada/FCDocument/FCDAnimationClip.cpp  |  5 +++++
 FCollada/FCDocument/FCDAnimationCurve.cpp | 16 +++++++++++++++-
 FCollada/FCDocument/FCDAnimationCurve.h   |  4 ++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationClip.cpp b/FCollada/FCDocument/FCDAnimationClip.cpp
index cdb4218..0ced7d2 100644
--- a/FCollada/FCDocument/FCDAnimationClip.cpp
+++ b/FCollada/FCDocument/FCDAnimationClip.cpp
@@ -31,6 +31,11 @@ FCDAnimationClip::FCDAnimationClip(FCDocument* document)
 
 FCDAnimationClip::~FCDAnimationClip()
 {
+	// The curves no longer depend on this clip.
+	for (FCDAnimationCurveTrackList::iterator it = curves.begin(); it != curves.end(); ++it)
+	{
+		(*it)->UnregisterAnimationClip(this);
+	}
 	curves.clear();
 }
 
diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 6ee1c5e..923f096 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -199,7 +199,8 @@ bool FCDAnimationCurve::DeleteKey(FCDAnimationKey* key)
 
 void FCDAnimationCurve::AddClip(FCDAnimationClip* clip)
 {
-    clips.push_back(clip);
+	// The clip registers itself with the curve.
+	clip->AddClipCurve(this);
 }
 
 bool FCDAnimationCurve::HasDriver() const
@@ -622,3 +623,16 @@ void FCDAnimationCurve::RegisterAnimationClip(FCDAnimationClip* clip)
 	clipOffsets.push_back(-clip->GetStart());
 	SetDirtyFlag();
 }
+
+void FCDAnimationCurve::UnregisterAnimationClip(const FCDAnimationClip* clip)
+{
+	for (size_t i = clips.size(); i > 0; --i)
+	{
+		if (clips[i - 1] == clip)
+		{
+			clips.erase(i - 1);
+			clipOffsets.erase(i - 1);
+		}
+	}
+	if (currentClip == clip) currentClip = NULL;
+}
diff --git a/FCollada/FCDocument/FCDAnimationCurve.h b/FCollada/FCDocument/FCDAnimationCurve.h
index 1c2253f..4a59e93 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.h
+++ b/FCollada/FCDocument/FCDAnimationCurve.h
@@ -244,6 +244,10 @@ public:
 		@param clip An animation clip. */
 	void RegisterAnimationClip(FCDAnimationClip* clip);
 
+	/** [INTERNAL] Removes an animation clip from the list of animation clips that use this curve.
+		@param clip An animation clip. */
+	void UnregisterAnimationClip(const FCDAnimationClip* clip);
+
 	/** [INTERNAL] Retrieves the target element suffix for the curve.
 		This will be -1 if the animated element does not belong to an
 		animated element list.
-- 
2.43.0


From 6e01eef05b7a4ae7fd69970362abbed1c3faf3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 139/209] fix: conversions between X-up and Z-up map the
 up-axis

---
 FCollada/FCDocument/FCDocumentTools.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index 74dae0a..cbb52d0 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -110,6 +110,16 @@ namespace FCDocumentTools
 		{
 			if (functor == Identity) return;
 
+			// The last transform of the stack applies first.
+			// Change from Y-up into the target up-axis.
+			if (target == X && !rollOnly)
+			{
+				SmartAddRotationPivot(node, FMVector3::ZAxis, -90.0f);
+			}
+			else if (target == Z)
+			{
+				SmartAddRotationPivot(node, rollOnly ? FMVector3::ZAxis : FMVector3::XAxis, rollOnly ? -90.0f : 90.0f);
+			}
 
 			// Change out of the current up-axis into Y-up.
 			if (current == X && !rollOnly)
@@ -120,16 +130,6 @@ namespace FCDocumentTools
 			{
 				SmartAddRotationPivot(node, rollOnly ? FMVector3::ZAxis : FMVector3::XAxis, rollOnly ? 90.0f : -90.0f);
 			}
-
-			// Change into the target up-axis.
-			if (target == X && !rollOnly)
-			{
-				SmartAddRotationPivot(node, FMVector3::ZAxis, -90.0f);
-			}
-			else if (target == Z)
-			{
-				SmartAddRotationPivot(node, rollOnly ? FMVector3::ZAxis : FMVector3::XAxis, rollOnly ? -90.0f : 90.0f);
-			}
 		}
 
 		void operator() (FMVector3& data, bool isScale = false) { (*functor)(data, (isScale ? 1 : -1)); }
@@ -153,10 +153,10 @@ namespace FCDocumentTools
 
 		static void Identity(FMVector3& UNUSED(data), int32 UNUSED(sign)) {}
 		static void XtoY(FMVector3& data, int32 sign) { float t = sign * data.x; data.x = data.y; data.y = t; }
-		static void XtoZ(FMVector3& data, int32 UNUSED(sign)) { float t = data.x; data.x = data.y; data.y = data.z; data.z = t; }
+		static void XtoZ(FMVector3& data, int32 sign) { float t = sign * data.x; data.x = data.z; data.z = sign * data.y; data.y = t; }
 		static void YtoX(FMVector3& data, int32 sign) { float t = data.x; data.x = sign * data.y; data.y = t; }
 		static void YtoZ(FMVector3& data, int32 sign) { float t = sign * data.y; data.y = data.z; data.z = t; }
-		static void ZtoX(FMVector3& data, int32 UNUSED(sign)) { float t = data.z; data.z = data.y; data.y = data.x; data.x = t; }
+		static void ZtoX(FMVector3& data, int32 sign) { float t = data.x; data.x = sign * data.y; data.y = sign * data.z; data.z = t; }
 		static void ZtoY(FMVector3& data, int32 sign) { float t = data.y; data.y = sign * data.z; data.z = t; }
 	};
 
-- 
2.43.0


From 05b941ead20c08507d11c17bb5a52ae1a9709294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 140/209] fix: the document's asset applies to entities with an
 asset of their own

---
 FCollada/FCDocument/FCDEntity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEntity.cpp b/FCollada/FCDocument/FCDEntity.cpp
index 72e78f4..b6cd51d 100644
--- a/FCollada/FCDocument/FCDEntity.cpp
+++ b/FCollada/FCDocument/FCDEntity.cpp
@@ -108,7 +108,7 @@ FCDAsset* FCDEntity::GetAsset()
 void FCDEntity::GetHierarchicalAssets(FCDAssetConstList& assets) const
 {
 	if (asset != NULL) assets.push_back(asset);
-	else assets.push_back(GetDocument()->GetAsset());
+	assets.push_back(GetDocument()->GetAsset());
 }
 
 // Look for a children with the given COLLADA Id.
-- 
2.43.0


From 5ff74029d96ccf08f0a7273c65c1825dace8aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 141/209] fix: the assets of libraries override the document's
 and are reset

---
 FCollada/FCDocument/FCDocumentTools.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index cbb52d0..0dd37ef 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -235,7 +235,8 @@ namespace FCDocumentTools
 	{
 		FCDAssetList assets; assets.reserve(3);
 		entity->GetHierarchicalAssets(assets);
-		if (libraryAsset != NULL) assets.push_back(libraryAsset);
+		// The asset of the library comes before the asset of the document, which is the last one.
+		if (libraryAsset != NULL) assets.insert(assets.end() - 1, libraryAsset);
 		bool hasLength = false;
 		bool hasAxis = false;
 		for (FCDAssetList::iterator it = assets.begin(); it != assets.end(); ++it)
@@ -247,6 +248,17 @@ namespace FCDocumentTools
 		if (!hasAxis) upAxisFunctor.SetCurrent(FMVector3::Origin);
 	}
 
+	template <class T>
+	inline void ResetLibraryAsset(FCDLibrary<T>* library)
+	{
+		FCDAsset* asset = library->GetAsset(false);
+		if (asset != NULL)
+		{
+			asset->ResetHasUnitsFlag();
+			asset->ResetHasUpAxisFlag();
+		}
+	}
+
 	inline void ResetAsset(FCDEntity* entity)
 	{
 		FCDAsset* asset = const_cast<FCDAsset*>(const_cast<const FCDEntity*>(entity)->GetAsset());
@@ -696,6 +708,13 @@ namespace FCDocumentTools
 				ResetAsset(library->GetEntity(i));
 			}
 
+			// All the contents of the libraries are now in the wanted units and up-axis.
+			ResetLibraryAsset(document->GetVisualSceneLibrary());
+			ResetLibraryAsset(document->GetControllerLibrary());
+			ResetLibraryAsset(document->GetGeometryLibrary());
+			ResetLibraryAsset(document->GetCameraLibrary());
+			ResetLibraryAsset(library);
+
 			document->GetAsset()->SetUnitConversionFactor(unitInMeters);
 			document->GetAsset()->SetUpAxis(_upAxis);
 		}
-- 
2.43.0


From 1d725381e336ef3e09c2da32af5930ca273d15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 142/209] fix: scene nodes are standardised once and with their
 parents' assets

---
 FCollada/FCDocument/FCDocumentTools.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index 0dd37ef..03453c0 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -492,10 +492,14 @@ namespace FCDocumentTools
 			FCDocument* document = documentQueue.back(); documentQueue.pop_back();
 
 			// Iterate over the scene graph, modifying the transforms.
+			// A node may be found more than once: in the library and as the child of another node.
+			fm::map<FCDSceneNode*, bool> processedNodes;
 			VisualSceneNodeIterator visualSceneNodeIt(document->GetVisualSceneLibrary());
 			while (!visualSceneNodeIt.IsDone())
 			{
 				FCDSceneNode* node = visualSceneNodeIt.Next();
+				if (processedNodes.find(node) != processedNodes.end()) continue;
+				processedNodes.insert(node, true);
 				GetAssetFunctors(node, document->GetVisualSceneLibrary()->GetAsset(false), lengthFunctor, upAxisFunctor);
 				if (lengthFunctor.HasConversion() || upAxisFunctor.HasConversion())
 				{
@@ -558,7 +562,12 @@ namespace FCDocumentTools
 					CLEAR_POINTER_VECTOR(toRemove);
 				}
 
-				ResetAsset(node);
+			}
+
+			// The assets of the parents are needed for the children.
+			for (fm::map<FCDSceneNode*, bool>::iterator itN = processedNodes.begin(); itN != processedNodes.end(); ++itN)
+			{
+				ResetAsset(itN->first);
 			}
 
 			// Iterate over the skin controllers: need to convert the bind-poses.
-- 
2.43.0


From 9a3ced3f7c9452e5a398027273a92672859649ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 143/209] fix: standardisation of animated normals

---
 FCollada/FCDocument/FCDocumentTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index 03453c0..a436f70 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -656,9 +656,9 @@ namespace FCDocumentTools
 									{
 										FMVector3& v = *(FMVector3*) (ptr + j * stride);
 										upAxisFunctor(v);
-										if (source->GetSourceData().IsAnimated(j) || source->GetSourceData().IsAnimated(j + 1) || source->GetSourceData().IsAnimated(j + 2))
+										if (source->GetSourceData().IsAnimated(stride * j) || source->GetSourceData().IsAnimated(stride * j + 1) || source->GetSourceData().IsAnimated(stride * j + 2))
 										{
-											ConvertAnimationVector3(source->GetSourceData().GetAnimated(j), source->GetSourceData().GetAnimated(j+1), source->GetSourceData().GetAnimated(j+2), v, document, lengthFunctor, upAxisFunctor, false);
+											ConvertAnimationVector3(source->GetSourceData().GetAnimated(stride * j), source->GetSourceData().GetAnimated(stride * j + 1), source->GetSourceData().GetAnimated(stride * j + 2), v, document, lengthFunctor, upAxisFunctor, false);
 										}
 									}
 								}
-- 
2.43.0


From 0b665cc89705bed318bc04b4b99802313ea42377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 144/209] fix: look-at transforms under a change of up-axis

---
 FCollada/FCDocument/FCDocumentTools.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index a436f70..e3817c6 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -132,6 +132,26 @@ namespace FCDocumentTools
 			}
 		}
 
+		// Turns back what follows a look-at transform: its columns do not depend on the up-axis.
+		// Returns the number of transforms that were inserted.
+		size_t InsertLookAtPivot(FCDSceneNode* node, size_t index)
+		{
+			if (functor == Identity) return 0;
+
+			size_t count = 0;
+			if (current == X || current == Z)
+			{
+				FCDTRotation* rotate = (FCDTRotation*) node->AddTransform(FCDTransform::ROTATION, index + count++);
+				rotate->SetRotation((current == X) ? FMVector3::ZAxis : FMVector3::XAxis, (current == X) ? -90.0f : 90.0f);
+			}
+			if (target == X || target == Z)
+			{
+				FCDTRotation* rotate = (FCDTRotation*) node->AddTransform(FCDTransform::ROTATION, index + count++);
+				rotate->SetRotation((target == X) ? FMVector3::ZAxis : FMVector3::XAxis, (target == X) ? 90.0f : -90.0f);
+			}
+			return count;
+		}
+
 		void operator() (FMVector3& data, bool isScale = false) { (*functor)(data, (isScale ? 1 : -1)); }
 
 	private:
@@ -511,7 +531,7 @@ namespace FCDocumentTools
 						else if (transform->HasType(FCDTRotation::GetClassType())) CONVERT_VECT3(((FCDTRotation*) transform)->GetAngleAxis(), ((FCDTRotation*) transform)->GetAxis())
 						else if (transform->HasType(FCDTScale::GetClassType())) CONVERT_SCALE(((FCDTScale*) transform)->GetScale(), ((FCDTScale*) transform)->GetScale())
 						else if (transform->HasType(FCDTSkew::GetClassType())) { CONVERT_VECT3(((FCDTSkew*) transform)->GetSkew(), ((FCDTSkew*) transform)->GetRotateAxis()); CONVERT_VECT3(((FCDTSkew*) transform)->GetSkew(), ((FCDTSkew*) transform)->GetAroundAxis()); }
-						else if (transform->HasType(FCDTLookAt::GetClassType())) { CONVERT_VECT3L(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetPosition()); CONVERT_VECT3L(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetTarget()); CONVERT_VECT3(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetUp()); }
+						else if (transform->HasType(FCDTLookAt::GetClassType())) { CONVERT_VECT3L(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetPosition()); CONVERT_VECT3L(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetTarget()); CONVERT_VECT3(((FCDTLookAt*) transform)->GetLookAt(), ((FCDTLookAt*) transform)->GetUp()); size_t inserted = upAxisFunctor.InsertLookAtPivot(node, t + 1); t += inserted; transformCount += inserted; }
 						else if (transform->HasType(FCDTMatrix::GetClassType())) { CONVERT_MAT44(((FCDTMatrix*) transform)->GetTransform(), ((FCDTMatrix*) transform)->GetTransform()); }
 					}
 				}
-- 
2.43.0


From ab07e68ecc936e12287f1e4a080ea5d73ab57bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 145/209] fix: nested animations forget their assets once
 standardised

---
 FCollada/FCDocument/FCDocumentTools.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDocumentTools.cpp b/FCollada/FCDocument/FCDocumentTools.cpp
index e3817c6..a8f2589 100644
--- a/FCollada/FCDocument/FCDocumentTools.cpp
+++ b/FCollada/FCDocument/FCDocumentTools.cpp
@@ -289,6 +289,13 @@ namespace FCDocumentTools
 		}
 	}
 
+	void ResetAnimationAssets(FCDAnimation* animation)
+	{
+		ResetAsset(animation);
+		size_t childCount = animation->GetChildrenCount();
+		for (size_t i = 0; i < childCount; ++i) ResetAnimationAssets(animation->GetChild(i));
+	}
+
 	void ConvertAnimationVector3(FCDAnimated* animated1, FCDAnimated* animated2, FCDAnimated* animated3, float* v1, float* v2, float* v3, FCDocument* document, FCDConversionUnitFunctor& lengthFunctor, FCDConversionSwapFunctor& upAxisFunctor, bool convertLength, bool isScale = false)
 	{
 		FUAssert(animated1 != NULL && animated2 != NULL && animated3 != NULL, return);
@@ -734,7 +741,7 @@ namespace FCDocumentTools
 			size_t animationCount = library->GetEntityCount();
 			for (size_t i = 0; i < animationCount; ++i)
 			{
-				ResetAsset(library->GetEntity(i));
+				ResetAnimationAssets(library->GetEntity(i));
 			}
 
 			// All the contents of the libraries are now in the wanted units and up-axis.
-- 
2.43.0


From 233726836cbd961d10630c849b3690d36e8943b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 146/209] fix: declared counts and strides do not decide how
 much memory is taken

---
 .../FArchiveXML/FAXColladaParser.cpp          | 71 ++++++++++---------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
index ac45698..1fa267c 100644
--- a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
@@ -127,6 +127,14 @@ namespace FUDaeParser
 		}
 	}
 
+	// The number of values to make room for: the declared number is only
+	// a hint, there cannot be more values than there are characters.
+	static size_t GetExpectedCount(size_t declaredCount, const char* content)
+	{
+		size_t length = (content != NULL) ? strlen(content) : 0;
+		return min(declaredCount, length);
+	}
+
 	// Retrieves a list of floats from a source node
 	// Returns the data's stride.
 	uint32 ReadSource(xmlNode* sourceNode, FloatList& array)
@@ -137,10 +145,10 @@ namespace FUDaeParser
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
 			stride = ReadNodeStride(accessorNode);
-			array.resize(ReadNodeCount(accessorNode) * stride);
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(GetExpectedCount((size_t) ReadNodeCount(accessorNode) * stride, arrayContent));
 			FUStringConversion::ToFloatList(arrayContent, array);
 		}
 		return stride;
@@ -153,10 +161,10 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			array.resize(ReadNodeCount(accessorNode));
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(GetExpectedCount(ReadNodeCount(accessorNode), arrayContent));
 			FUStringConversion::ToInt32List(arrayContent, array);
 		}
 	}
@@ -168,11 +176,11 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			array.resize(ReadNodeCount(accessorNode));
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_NAME_ARRAY_ELEMENT);
 			if (arrayNode == NULL) arrayNode = FindChildByType(sourceNode, DAE_IDREF_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(GetExpectedCount(ReadNodeCount(accessorNode), arrayContent));
 			FUStringConversion::ToStringList(arrayContent, array);
 		}
 	}
@@ -184,10 +192,10 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			array.resize(ReadNodeCount(accessorNode));
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(GetExpectedCount(ReadNodeCount(accessorNode), arrayContent));
 			FUStringConversion::ToPointList(arrayContent, array);
 		}
 	}
@@ -199,10 +207,10 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			array.resize(ReadNodeCount(accessorNode));
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(GetExpectedCount(ReadNodeCount(accessorNode), arrayContent));
 			FUStringConversion::ToMatrixList(arrayContent, array);
 		}
 	}
@@ -214,20 +222,21 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			uint32 count = ReadNodeCount(accessorNode);
+   			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
+			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			size_t count = GetExpectedCount(ReadNodeCount(accessorNode), arrayContent);
 			for (fm::pvector<FloatList>::iterator it = arrays.begin(); it != arrays.end(); ++it)
 			{
 				(*it)->resize(count);
 			}
 
 			// Use the stride to pad the interleaved float lists or remove extra elements
-			uint32 stride = ReadNodeStride(accessorNode);
+			size_t stride = ReadNodeStride(accessorNode);
 			while (stride < arrays.size()) arrays.pop_back();
+			stride = max(arrays.size(), GetExpectedCount(stride, arrayContent));
 			while (stride > arrays.size()) arrays.push_back(NULL);
 
-			// Read and parse the float array
-   			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			// Parse the float array
 			FUStringConversion::ToInterleavedFloatList(arrayContent, arrays);
 		}
 	}
@@ -239,7 +248,9 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			uint32 count = ReadNodeCount(accessorNode);
+			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
+			const char* value = ReadNodeContentDirect(arrayNode);
+			size_t count = GetExpectedCount(ReadNodeCount(accessorNode), value);
 			for (fm::pvector<FMVector2List>::iterator it = arrays.begin(); it != arrays.end(); ++it)
 			{
 				(*it)->resize(count);
@@ -250,9 +261,7 @@ namespace FUDaeParser
 			stride = ReadNodeStride(accessorNode);
 			if (stride > 0 && stride == arrays.size())
 			{
-				// Read and parse the float array
-				xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-				const char* value = ReadNodeContentDirect(arrayNode);
+				// Parse the float array
 				for (size_t i = 0; i < count && *value != 0; ++i)
 				{
 					for (size_t j = 0; j < stride && *value != 0; ++j)
@@ -273,11 +282,10 @@ namespace FUDaeParser
 			{
 				// Use the stride to pad the interleaved float lists or remove extra elements
 				while (stride < arrays.size() * 2) arrays.pop_back();
+				stride = (uint32) max(arrays.size() * 2, GetExpectedCount(stride, value));
 				while (stride > arrays.size() * 2) arrays.push_back(NULL);
 
-				// Read and parse the float array
-				xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-				const char* value = ReadNodeContentDirect(arrayNode);
+				// Parse the float array
 				for (size_t i = 0; i < count && *value != 0; ++i)
 				{
 					for (size_t j = 0; 2 * j < stride && *value != 0; ++j)
@@ -325,7 +333,9 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			uint32 count = ReadNodeCount(accessorNode);
+			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
+			const char* value = ReadNodeContentDirect(arrayNode);
+			size_t count = GetExpectedCount(ReadNodeCount(accessorNode), value);
 			for (fm::pvector<FMVector3List>::iterator it = arrays.begin(); it != arrays.end(); ++it)
 			{
 				(*it)->resize(count);
@@ -336,9 +346,7 @@ namespace FUDaeParser
 			stride = ReadNodeStride(accessorNode);
 			if (stride > 0 && stride == arrays.size())
 			{
-				// Read and parse the float array
-				xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-				const char* value = ReadNodeContentDirect(arrayNode);
+				// Parse the float array
 				for (size_t i = 0; i < count && *value != 0; ++i)
 				{
 					for (size_t j = 0; j < stride && *value != 0; ++j)
@@ -359,11 +367,10 @@ namespace FUDaeParser
 			{
 				// Use the stride to pad the interleaved float lists or remove extra elements
 				while (stride < arrays.size() * 3) arrays.pop_back();
+				stride = (uint32) max(arrays.size() * 3, GetExpectedCount(stride, value));
 				while (stride > arrays.size() * 3) arrays.push_back(NULL);
 
-				// Read and parse the float array
-				xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-				const char* value = ReadNodeContentDirect(arrayNode);
+				// Parse the float array
 				for (size_t i = 0; i < count && *value != 0; ++i)
 				{
 					for (size_t j = 0; 3 * j < stride && *value != 0; ++j)
@@ -385,7 +392,7 @@ namespace FUDaeParser
 
 				while (*value != 0)
 				{
-					for (size_t i = 0; 2 * i < stride && *value != 0; ++i)
+					for (size_t i = 0; 3 * i < stride && *value != 0; ++i)
 					{
 						if (arrays[i] != NULL)
 						{
@@ -415,20 +422,20 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			uint32 count = ReadNodeCount(accessorNode);
+			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_NAME_ARRAY_ELEMENT);
+			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			size_t count = GetExpectedCount(ReadNodeCount(accessorNode), arrayContent);
 			array.resize(count);
 
 			// Backward compatibility: drop the unwanted interpolation values.
 			// Before, we exported one interpolation token for each dimension of a merged curve.
 			// Now, we export one interpolation token for each key of a merged curve.
-			uint32 stride = ReadNodeStride(accessorNode);
-			StringList stringArray(count * stride);
-			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_NAME_ARRAY_ELEMENT);
-			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			size_t stride = ReadNodeStride(accessorNode);
+			StringList stringArray(GetExpectedCount(count * stride, arrayContent));
 			FUStringConversion::ToStringList(arrayContent, stringArray);
-			for (uint32 i = 0; i < count; ++i)
+			for (size_t i = 0; i < count; ++i)
 			{
-				array[i] = (uint32) FUDaeInterpolation::FromString(stringArray[i * stride]);
+				array[i] = (uint32) ((i * stride < stringArray.size()) ? FUDaeInterpolation::FromString(stringArray[i * stride]) : FUDaeInterpolation::DEFAULT);
 			}
 		}
 	}
-- 
2.43.0


From 7c77ed318ceec9b0817edc7dbaf6abaa9387d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 147/209] fix: a channel has no more curves than its output
 source has values

---
 FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index f42c54b..10aa8d5 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -70,6 +70,15 @@ bool FArchiveXML::LoadAnimationChannel(FCDObject* object, xmlNode* channelNode)
 	uint32 curveCount = FUStringConversion::ToUInt32(accessorStrideString);
 	if (curveCount == 0) curveCount = 1;
 
+	// There cannot be more curves than there are values in the output source.
+	FloatList outputValues;
+	FUStringConversion::ToFloatList(ReadNodeContentDirect(FindChildByType(outputSource, DAE_FLOAT_ARRAY_ELEMENT)), outputValues);
+	if (curveCount > 1 && curveCount > outputValues.size())
+	{
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_SOURCE_SIZE, outputSource->line);
+		return false;
+	}
+
 	// Create the animation curves
 	for (uint32 i = 0; i < curveCount; ++i)
 	{
-- 
2.43.0


From 78d57399e8789e4a25ffeb2c46766a7f76e201af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 148/209] fix: malformed skins are reported instead of being
 read out of bounds

---
 .../FArchiveXML/FAXControllerImport.cpp       | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index 2b9e7a0..71a7739 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -115,23 +115,27 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	if (firstCombinerValueNode == NULL)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_ELEMENT, combinerNode->line);
+		return status = false;
 	}
 
 	// Process these inputs
 	FloatList weights;
 	StringList jointSubIds;
 	FMMatrix44List invertedBindPoses;
-	int32 jointIdx = 0, weightIdx = 1;
+	uint32 jointIdx = 0, weightIdx = 1;
+	size_t indexStride = 2;
 	for (xmlNodeList::iterator it = skinningInputNodes.begin(); it != skinningInputNodes.end(); ++it)
 	{
 		fm::string semantic = ReadNodeSemantic(*it);
 		fm::string sourceId = ReadNodeSource(*it);
 		xmlNode* sourceNode = FindChildById(skinNode, sourceId);
+		fm::string idx = ReadNodeProperty(*it, DAE_OFFSET_ATTRIBUTE);
+		uint32 inputOffset = FUStringConversion::ToUInt32(idx);
+		if (!idx.empty()) indexStride = max(indexStride, (size_t) inputOffset + 1);
 
 		if (semantic == DAE_JOINT_SKIN_INPUT)
 		{
-			fm::string idx = ReadNodeProperty(*it, DAE_OFFSET_ATTRIBUTE);
-			if (!idx.empty()) jointIdx = FUStringConversion::ToInt32(idx);
+			if (!idx.empty()) jointIdx = inputOffset;
 			if (!jointSubIds.empty()) continue;
 			ReadSource(sourceNode, jointSubIds);
 			data.jointAreSids = FindChildByType(sourceNode, DAE_NAME_ARRAY_ELEMENT) != NULL;
@@ -148,8 +152,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 		}
 		else if (semantic == DAE_WEIGHT_SKIN_INPUT)
 		{
-			fm::string idx = ReadNodeProperty(*it, DAE_OFFSET_ATTRIBUTE);
-			if (!idx.empty()) weightIdx = FUStringConversion::ToInt32(idx);
+			if (!idx.empty()) weightIdx = inputOffset;
 
 			// Read in the weights <source> element
 			ReadSource(sourceNode, weights);
@@ -157,8 +160,8 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	}
 
 	// Parse the <vcount> and the <v> elements
-	UInt32List combinerVertexCounts; combinerVertexCounts.reserve(combinerValueCount);
-	Int32List combinerVertexIndices; combinerVertexIndices.reserve(combinerValueCount * 5);
+	UInt32List combinerVertexCounts;
+	Int32List combinerVertexIndices;
 
 	// The <vcount> and the <v> elements are ordered. Read the <vcount> element first.
 	if (!IsEquivalent(firstCombinerValueNode->name, DAE_VERTEXCOUNT_ELEMENT))
@@ -173,7 +176,8 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	while (vNode != NULL && vNode->type != XML_ELEMENT_NODE) vNode = vNode->next;
 	if (vNode == NULL || !IsEquivalent(vNode->name, DAE_VERTEX_ELEMENT))
 	{
-		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_V_ELEMENT_MISSING, vNode->line);
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_V_ELEMENT_MISSING, firstCombinerValueNode->line);
+		return status = false;
 	}
 	content = ReadNodeContentDirect(vNode);
 	FUStringConversion::ToInt32List(content, combinerVertexIndices);
@@ -187,6 +191,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	if (combinerVertexCounts.size() != combinerValueCount)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_INVALID_VCOUNT, skinNode->line);
+		if (combinerValueCount > combinerVertexCounts.size()) combinerValueCount = (uint32) combinerVertexCounts.size();
 	}
 
 	// Setup the joint-weight-vertex matches
@@ -195,9 +200,9 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	for (size_t j = 0; j < combinerValueCount; ++j)
 	{
 		FCDSkinControllerVertex* vert = skinController->GetVertexInfluence(j);
-		uint32 localValueCount = combinerVertexCounts[j];
+		size_t localValueCount = min((size_t) combinerVertexCounts[j], (combinerVertexIndexCount - offset) / indexStride);
 		vert->SetPairCount(localValueCount);
-		for (size_t i = 0; i < localValueCount && offset < combinerVertexIndexCount - 1; ++i)
+		for (size_t i = 0; i < localValueCount; ++i)
 		{
 			FCDJointWeightPair* pair = vert->GetPair(i);
 			pair->jointIndex = combinerVertexIndices[offset + jointIdx];
@@ -212,8 +217,8 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_WEIGHT_INDEX);
 				weightIndex = 0;
 			}
-			pair->weight = weights[weightIndex];
-			offset += 2;
+			pair->weight = (weightIndex < weightCount) ? weights[weightIndex] : 0.0f;
+			offset += indexStride;
 		}
 	}
 
@@ -235,7 +240,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	for (size_t i = 0; i < jointCount; ++i)
 	{
 		skinController->GetJoint(i)->SetId(jointSubIds[i]);
-		skinController->GetJoint(i)->SetBindPoseInverse(invertedBindPoses[i]);
+		skinController->GetJoint(i)->SetBindPoseInverse((i < invertedBindPoses.size()) ? invertedBindPoses[i] : FMMatrix44::Identity);
 	}
 
 	skinController->SetDirtyFlag();
-- 
2.43.0


From 4dc70f844e9f0f81a53902087c99380801a27fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 149/209] fix: morphs without targets or with too few weights
 can be imported

---
 FColladaPlugins/FArchiveXML/FAXControllerImport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index 71a7739..5d630fb 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -276,7 +276,7 @@ bool FArchiveXML::LoadMorphController(FCDObject* object, xmlNode* morphNode)
 	{
 		//return status.Fail(FS("Cannot find necessary <targets> element for morph controller: ") + TO_FSTRING(parent->GetDaeId()), morphNode->line);
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_ELEMENT, morphNode->line);
-
+		return status = false;
 	}
 	xmlNodeList inputNodes;
 	FindChildrenByType(targetsNode, DAE_INPUT_ELEMENT, inputNodes);
@@ -326,7 +326,7 @@ bool FArchiveXML::LoadMorphController(FCDObject* object, xmlNode* morphNode)
 		{
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_TARGET_GEOMETRY_MISSING, morphNode->line);
 		}
-		FCDMorphTarget* morphTarget = morphController->AddTarget(targetGeometry, weights[i]);
+		FCDMorphTarget* morphTarget = morphController->AddTarget(targetGeometry, (i < (int32) weights.size()) ? weights[i] : 0.0f);
 
 		// Record the morphing weight as animatable
 		// COLLADA has a morph weight array, but FCollada considers each weight independently.
-- 
2.43.0


From cb109f1ad6435ce44835cb3b39addf6d7f3a885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 150/209] fix: meshes without vertices can be imported

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index da31005..cb31d8e 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -86,6 +86,7 @@ bool FArchiveXML::LoadGeometryMesh(FCDObject* object, xmlNode* meshNode)
 	if (verticesNode == NULL)
 	{
 		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_MESH_VERTICES_MISSING, meshNode->line);
+		return status;
 	}
 
 	// Read in the per-vertex inputs
-- 
2.43.0


From 5bdab482bb0e19284b5484ca1dd954c0fcffbfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 151/209] fix: polygon sets without positions, with hostile
 offsets or counts can be imported

---
 .../FArchiveXML/FAXGeometryImport.cpp         | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index cb31d8e..0cfd936 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -244,6 +244,10 @@ bool FArchiveXML::LoadGeometry(FCDObject* object, xmlNode* geometryNode)
 	return status;
 }
 
+// The largest offset accepted for the inputs of a polygon set:
+// the size of the index buffers depends on it.
+static const uint32 MAXIMUM_INPUT_OFFSET = 0xFFFF;
+
 bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 {
 	FCDGeometryPolygons* geometryPolygons = (FCDGeometryPolygons*)object;
@@ -286,11 +290,16 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 		if (IsEquivalent(itNode->name, DAE_INPUT_ELEMENT))
 		{
 			fm::string sourceId = ReadNodeSource(itNode);
-			if (sourceId[0] == '#') sourceId.erase(0, 1);
+			if (!sourceId.empty() && sourceId[0] == '#') sourceId.erase(0, 1);
 
 			// Parse input idx/offset
 			fm::string idx = ReadNodeProperty(itNode, DAE_OFFSET_ATTRIBUTE);
 			uint32 offset = (!idx.empty()) ? FUStringConversion::ToUInt32(idx) : (uint32) (idxOwners.size() + 1);
+			if (offset > MAXIMUM_INPUT_OFFSET)
+			{
+				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_UNKNOWN_POLYGONS_INPUT, itNode->line);
+				continue;
+			}
 			if (offset >= idxOwners.size()) idxOwners.resize(offset + 1);
 
 			// Parse input set
@@ -397,13 +406,13 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 			if (vCountDataString != NULL) FUStringConversion::ToUInt32List(vCountDataString, vCountData);
 			size_t vCountCount = vCountData.size();
 			geometryPolygons->SetFaceVertexCountCount(vCountCount);
-			memcpy((void*) geometryPolygons->GetFaceVertexCounts(), vCountData.begin(), sizeof(uint32) * vCountCount);
+			if (vCountCount > 0) memcpy((void*) geometryPolygons->GetFaceVertexCounts(), vCountData.begin(), sizeof(uint32) * vCountCount);
 
 			// Count the total number of face-vertices expected, to pre-buffer the index lists
 			// The absolute maximum possible is the number of vertices (That is, a face
 			// that includes every vertex)
-			// We can assume all these ptrs are valid, otherwise we wouldnt get here.
-			size_t nVertices = geometryPolygons->GetParent()->GetPositionSource()->GetValueCount();
+			FCDGeometrySource* positionSource = geometryPolygons->GetParent()->GetPositionSource();
+			size_t nVertices = (positionSource != NULL) ? positionSource->GetValueCount() : 0;
 			expectedVertexCount = 0;
 			for (size_t i = 0; i < vCountCount; ++i)
 			{
@@ -417,6 +426,16 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 		}
 	}
 
+	// There cannot be more indices than there are characters in the <p> elements.
+	size_t maximumVertexCount = 0;
+	for (xmlNode* pNode = itNode; pNode != NULL; pNode = pNode->next)
+	{
+		if (pNode->type != XML_ELEMENT_NODE || !IsEquivalent(pNode->name, DAE_POLYGON_ELEMENT)) continue;
+		const char* content = ReadNodeContentDirect(pNode);
+		if (content != NULL) maximumVertexCount += strlen(content);
+	}
+	expectedVertexCount = min(expectedVertexCount, maximumVertexCount);
+
 	// Pre-allocate the buffers with enough memory
 	fm::pvector<UInt32List> allIndices;
 	UInt32List* masterIndices = NULL;
@@ -434,6 +453,12 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 			input->ReserveIndexCount(expectedVertexCount);
 		}
 	}
+	if (masterIndices == NULL)
+	{
+		// The vertices have no valid source: there is nothing to index.
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_NO_VERTEX_INPUT, baseNode->line);
+		return status;
+	}
 
 	// Process the tessellation
 	for (; itNode != NULL; itNode = itNode->next)
-- 
2.43.0


From 994faee77f12ff1cdf63cb754be67c28d1a71461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 152/209] fix: splines of an unknown type can be imported

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 0cfd936..bc9728d 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -615,6 +615,11 @@ bool FArchiveXML::LoadGeometrySpline(FCDObject* object, xmlNode* splineNode)
 
 		// Read in the typed spline.
 		FCDSpline* spline = geometrySpline->AddSpline();
+		if (spline == NULL)
+		{
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VARYING_SPLINE_TYPE, splineNode->line);
+			return status = false;
+		}
 		bool s = FArchiveXML::LoadSwitch(spline, &spline->GetObjectType(), splineNode);
 		if (!s)
 		{
@@ -710,7 +715,7 @@ bool FArchiveXML::LoadNURBSSpline(FCDObject* object, xmlNode* splineNode)
 	for (size_t i = 0; i < inputElements.size(); i++)
 	{
 		xmlNode* inputNode = inputElements[i];
-		fm::string sourceId = ReadNodeProperty(inputNode, DAE_SOURCE_ATTRIBUTE).substr(1);
+		fm::string sourceId = ReadNodeProperty(inputNode, DAE_SOURCE_ATTRIBUTE);
 		if (sourceId.empty()) { FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_DEFAULT_ERROR); return status; }
 		xmlNode* sourceNode = FindChildById(splineNode, sourceId);
 		if (sourceNode == NULL) { FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_DEFAULT_ERROR); return status; }
-- 
2.43.0


From d82f6ceb73d72947e5b0d25b9f1566aa572cbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 153/209] fix: lights without a common technique can be
 imported

---
 FColladaPlugins/FArchiveXML/FAXLightImport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXLightImport.cpp b/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
index 5495648..f191876 100644
--- a/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
@@ -30,7 +30,8 @@ bool FArchiveXML::LoadLight(FCDObject* object, xmlNode* lightNode)
 
 	// Look for the <point>, <directional>, <spot> or <ambient> element under the common-profile technique
 	xmlNode* lightParameterNode = NULL;
-	for (xmlNode* child = commonTechniqueNode->children; child != NULL; child = child->next)
+	xmlNode* firstLightNode = (commonTechniqueNode != NULL) ? commonTechniqueNode->children : NULL;
+	for (xmlNode* child = firstLightNode; child != NULL; child = child->next)
 	{
 		if (child->type != XML_ELEMENT_NODE) continue;
 		if (IsEquivalent(child->name, DAE_LIGHT_POINT_ELEMENT)) { lightParameterNode = child; light->SetLightType(FCDLight::POINT); break; }
-- 
2.43.0


From 75ad95c5da69e6c2b6b66b985c83de99bdc72353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 154/209] fix: materials without an effect instance can be
 imported

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index c385d30..012d1a3 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -51,6 +51,7 @@ bool FArchiveXML::LoadMaterial(FCDObject* object, xmlNode* materialNode)
 	if (effectNode == NULL)
 	{
 		FUError::Error(FUError::WARNING_LEVEL, FUError::ERROR_MISSING_ELEMENT, materialNode->line);
+		return status;
 	}
 
 	FUUri url = ReadNodeUrl(effectNode);
-- 
2.43.0


From bd7ee216cfa7d56f08cd391a6dd740274523cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 155/209] fix: the joints of skins which were not imported with
 the scene are left alone

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index f46c4c7..0d47fc7 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -383,7 +383,10 @@ bool FArchiveXML::LinkControllerInstance(FCDControllerInstance* controllerInstan
 {
 	const FCDSkinController* skin =  FArchiveXML::FindSkinController(controllerInstance, controllerInstance->GetEntity());
 	if (skin == NULL) return true;
-	FCDSkinControllerData& data = FArchiveXML::documentLinkDataMap[skin->GetDocument()].skinControllerDataMap.find(const_cast<FCDSkinController*>(skin))->second;
+	FCDSkinControllerDataMap& skinDataMap = FArchiveXML::documentLinkDataMap[skin->GetDocument()].skinControllerDataMap;
+	FCDSkinControllerDataMap::iterator itData = skinDataMap.find(const_cast<FCDSkinController*>(skin));
+	if (itData == skinDataMap.end()) return true; // This skin was not imported along with the scene graph.
+	FCDSkinControllerData& data = itData->second;
 
 	// Look for each joint, by COLLADA id, within the scene graph
 	size_t jointCount = skin->GetJointCount();
-- 
2.43.0


From bb4d6b9db2705b94d048349abf91f122d49f3def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 156/209] fix: looking for the base geometry of skins which
 target each other ends

---
 FCollada/FCDocument/FCDController.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/FCollada/FCDocument/FCDController.cpp b/FCollada/FCDocument/FCDController.cpp
index 8071ce2..abdaf4b 100644
--- a/FCollada/FCDocument/FCDController.cpp
+++ b/FCollada/FCDocument/FCDController.cpp
@@ -90,9 +90,16 @@ const FCDEntity* FCDController::GetBaseTarget() const
 const FCDGeometry* FCDController::GetBaseGeometry() const
 {
 	const FCDEntity* base = GetBaseTarget();
+	const FCDEntity* trail = base;
+	bool moveTrail = false;
 	while (base != NULL && base->GetType() == FCDEntity::CONTROLLER)
 	{
 		base = ((const FCDController*) base)->GetBaseTarget();
+
+		// Skins can target each other: watch for cycles.
+		if (moveTrail) trail = ((const FCDController*) trail)->GetBaseTarget();
+		moveTrail = !moveTrail;
+		if (base == trail) return NULL;
 	}
 
 	if (base != NULL && base->GetType() == FCDEntity::GEOMETRY)
@@ -107,10 +114,17 @@ const FCDController* FCDController::GetBaseGeometryController() const
 {
 	const FCDEntity* parentBase = this;
 	const FCDEntity* base = GetBaseTarget();
+	const FCDEntity* trail = base;
+	bool moveTrail = false;
 	while (base != NULL && base->GetType() == FCDEntity::CONTROLLER)
 	{
 		parentBase = base;
 		base = ((const FCDController*) base)->GetBaseTarget();
+
+		// Skins can target each other: watch for cycles.
+		if (moveTrail) trail = ((const FCDController*) trail)->GetBaseTarget();
+		moveTrail = !moveTrail;
+		if (base == trail) return NULL;
 	}
 
 	if (base != NULL && base->GetType() == FCDEntity::GEOMETRY)
-- 
2.43.0


From ce1fc185370fcf21b8e4ac6fff6e120eb1c21b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 157/209] fix: physics instances of something else than a
 physics model can be imported

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index 0d47fc7..ff9991c 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -310,6 +310,11 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 		}
 		physicsRigidBodyInstance->SetRigidBody(body);
 	}
+	else
+	{
+		FUError::Error(FUError::ERROR_LEVEL, FUError::WARNING_MISSING_URI_TARGET, instanceNode->line);
+		return false;
+	}
 
 	//Read in the same children as rigid_body + velocity and angular_velocity
 	xmlNode* techniqueNode = FindChildByType(instanceNode, DAE_TECHNIQUE_COMMON_ELEMENT);
@@ -360,10 +365,11 @@ bool FArchiveXML::LoadPhysicsRigidConstraintInstance(FCDObject* object, xmlNode*
 	// Check for the expected instantiation node type
 	if (!IsEquivalent(instanceNode->name, DAE_INSTANCE_RIGID_CONSTRAINT_ELEMENT)
 		|| physicsRigidConstraintInstance->GetModelParentInstance() == NULL
-		|| physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity() == NULL)
+		|| physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity() == NULL
+		|| physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity()->GetType() != FCDEntity::PHYSICS_MODEL)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_UNKNOWN_ELEMENT, instanceNode->line);
-		status = false;
+		return status = false;
 	}
 
 	FCDPhysicsModel* model = (FCDPhysicsModel*) physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity();
-- 
2.43.0


From 0a80bd72e2b8bb1f4019e422a686eec2b2d89948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 158/209] fix: the volume of a shape does not need its mesh to
 be complete

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 7463781..9d9842f 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -200,6 +200,7 @@ float FCDPhysicsShape::CalculateVolume() const
 	if (IsGeometryInstance())
 	{
 		FCDGeometry* geom = ((FCDGeometry*)geometry->GetEntity());
+		if (geom == NULL || geom->GetType() != FCDEntity::GEOMETRY) return 1.0f; // missing or invalid target.
 		if (geom->IsMesh())
 		{
 			FUBoundingBox boundary;
@@ -216,17 +217,19 @@ float FCDPhysicsShape::CalculateVolume() const
 			{
 				const FCDGeometryPolygons* polygons = mesh->GetPolygons(i);
 				const FCDGeometryPolygonsInput* positionInput = polygons->FindInput(FUDaeGeometryInput::POSITION);
-				const FCDGeometrySource* positionSource = positionInput->GetSource();
+				const FCDGeometrySource* positionSource = (positionInput != NULL) ? positionInput->GetSource() : NULL;
+				if (positionSource == NULL) continue;
 				uint32 positionStride = positionSource->GetStride();
 				FUAssert(positionStride >= 3, continue;);
 				const float* positionData = positionSource->GetData();
 				size_t positionDataLength = positionSource->GetDataCount();
-				for (size_t pos = 0; pos < positionDataLength;)
+				for (size_t pos = 0; pos + positionStride <= positionDataLength;)
 				{
 					boundary.Include(FMVector3(positionData, (uint32)pos));
 					pos += positionStride;
 				}
 
+				if (!boundary.IsValid()) continue; // no positions.
 				FMVector3 min = boundary.GetMin();
 				FMVector3 max = boundary.GetMax();
 				countingVolume +=
-- 
2.43.0


From 87ab39e827cf1518bff8a29f0cafbaa11d97f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 159/209] fix: without a visual scene there are no skeleton
 nodes to find

---
 FCollada/FCDocument/FCDControllerInstance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDControllerInstance.cpp b/FCollada/FCDocument/FCDControllerInstance.cpp
index f217ef8..dad80af 100644
--- a/FCollada/FCDocument/FCDControllerInstance.cpp
+++ b/FCollada/FCDocument/FCDControllerInstance.cpp
@@ -144,7 +144,7 @@ void FCDControllerInstance::FindSkeletonNodes(FCDSceneNodeList& skeletonNodes) c
 	}
 
 	// If we have no root, add the visual scene root.
-	if (skeletonNodes.empty())
+	if (skeletonNodes.empty() && document->GetVisualSceneInstance() != NULL)
 	{
 		skeletonNodes.push_back(const_cast<FCDSceneNode*>(document->GetVisualSceneInstance()));
 	}
-- 
2.43.0


From acc0e01afc36886f15fa4a48073348aa0bb31628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 160/209] fix: an object can be in a tracked list more than
 once

---
 FCollada/FUtils/FUTracker.h | 43 ++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index eb57312..1a40191 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -198,7 +198,7 @@ public:
 	{
 		for (iterator it = begin(); it != end(); ++it)
 		{
-			FUTracker::UntrackObject((FUTrackable*) (*it));
+			if (FUTracker::TracksObject((FUTrackable*) (*it))) FUTracker::UntrackObject((FUTrackable*) (*it));
 		}
 		Parent::clear();
 	}
@@ -242,7 +242,7 @@ public:
 		@param object An object to contain. */
 	inline void push_back(ObjectClass* object)
 	{
-		FUTracker::TrackObject((FUTrackable*) object);
+		TrackItem((FUTrackable*) object);
 		Parent::push_back(object);
 	}
 
@@ -252,7 +252,7 @@ public:
 		@return The iterator to the inserted object. */
 	iterator insert(iterator _iterator, ObjectClass* object)
 	{
-		FUTracker::TrackObject(object);
+		TrackItem((FUTrackable*) object);
 		return (iterator) Parent::insert(_iterator, object);
 	}
 
@@ -279,7 +279,7 @@ public:
 			for (; _startIterator != _endIterator; ++_startIterator, ++_where)
 			{
 				*_where = const_cast<ObjectClass*>((const ObjectClass*)(*_startIterator));
-				FUTracker::TrackObject(const_cast<FUTrackable*>((const FUTrackable*) (*_startIterator)));
+				TrackItem(const_cast<FUTrackable*>((const FUTrackable*) (*_startIterator)));
 			}
 		}
 	}
@@ -289,8 +289,9 @@ public:
 	{
 		if (!Parent::empty())
 		{
-			FUTracker::UntrackObject(back());
+			ObjectClass* object = back();
 			Parent::pop_back();
+			UntrackItem(object);
 		}
 	}
 
@@ -298,8 +299,10 @@ public:
 		@param _it The list position for the value to remove. */
 	iterator erase(iterator _it)
 	{
-		FUTracker::UntrackObject((FUTrackable*) *_it);
-		return (iterator) Parent::erase(_it);
+		ObjectClass* object = *_it;
+		iterator next = (iterator) Parent::erase(_it);
+		UntrackItem(object);
+		return next;
 	}
 
 	/** Removes a range of values from the list.
@@ -307,8 +310,11 @@ public:
 		@param last The list position just passed the last value to remove. */
 	inline void erase(iterator first, iterator last)
 	{
-		for (iterator it = first; it != last; ++it) FUTracker::UntrackObject((FUTrackable*) *it);
+		Parent erased;
+		erased.reserve(last - first);
+		for (iterator it = first; it != last; ++it) erased.push_back(*it);
 		Parent::erase(first, last);
+		for (iterator it = (iterator) erased.begin(); it != (iterator) erased.end(); ++it) UntrackItem(*it);
 	}
 
 	/** Removes a range of values from the list.
@@ -324,8 +330,7 @@ public:
 		iterator it = Parent::find(value);
 		if (it != Parent::end())
 		{
-			FUTracker::UntrackObject((FUTrackable*) *it);
-			Parent::erase(it);
+			erase(it);
 			return true;
 		}
 		return false;
@@ -383,8 +388,9 @@ public:
 	{
 		if (!Parent::empty())
 		{
-			FUTracker::UntrackObject(front());
+			ObjectClass* object = front();
 			Parent::pop_front();
+			UntrackItem(object);
 		}
 	}
 
@@ -394,7 +400,20 @@ protected:
 	virtual void OnObjectReleased(FUTrackable* object)
 	{
 		FUAssert(TracksObject(object), return);
-		Parent::erase((ObjectClass*) object);
+		while (Parent::erase((ObjectClass*) object)) {}
+	}
+
+private:
+	// An object may be contained many times, but it is tracked once.
+	void TrackItem(FUTrackable* object)
+	{
+		if (object != NULL && !FUTracker::TracksObject(object)) FUTracker::TrackObject(object);
+	}
+
+	// Call this function after removing the object from the list.
+	void UntrackItem(ObjectClass* object)
+	{
+		if (!Parent::contains(object) && FUTracker::TracksObject((FUTrackable*) object)) FUTracker::UntrackObject((FUTrackable*) object);
 	}
 };
 
-- 
2.43.0


From c02619d6e0ec83e2b5976bbb7ef24b426166ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 161/209] fix: faces without enough indices can be exported

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 39f3075..23790f6 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -255,7 +255,7 @@ xmlNode* FArchiveXML::WriteGeometryPolygons(FCDObject* object, xmlNode* parentNo
 			{
 				for (fm::pvector<const FCDGeometryPolygonsInput>::iterator itI = idxOwners.begin(); itI != idxOwners.end(); ++itI)
 				{
-					if ((*itI) != NULL)
+					if ((*itI) != NULL && faceVertexIndex < (*itI)->GetIndexCount())
 					{
 						builder.append((*itI)->GetIndices()[faceVertexIndex]);
 						builder.append(' ');
-- 
2.43.0


From f0ce8966a400928f5d409c4f11ac145155279f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 162/209] fix: vertex sources which the first polygon set does
 not use can be exported

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 23790f6..d7c9908 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -100,8 +100,7 @@ xmlNode* FArchiveXML::WriteGeometryMesh(FCDObject* object, xmlNode* parentNode)
 			{
 				FCDGeometryPolygons* firstPolys = geometryMesh->GetPolygons(0);
 				FCDGeometryPolygonsInput* input = firstPolys->FindInput(source);
-				FUAssert(input != NULL, continue);
-				if (input->GetSet() != -1)
+				if (input != NULL && input->GetSet() != -1)
 				{
 					// We are interested in the set information, so if it is available, export it as an extra.
 					if (verticesInputExtraNode == NULL)
-- 
2.43.0


From cc4c272d0012e29c8767d1e92beea520d0392aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 163/209] fix: geometry sources with a hostile stride are
 refused

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index bc9728d..05ceae6 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -19,6 +19,9 @@
 #include "FCDocument/FCDGeometryPolygonsInput.h"
 #include "FCDocument/FCDGeometrySpline.h"
 
+// The largest stride accepted for a geometry source.
+static const uint32 MAXIMUM_SOURCE_STRIDE = 0xFFFF;
+
 bool FArchiveXML::LoadGeometrySource(FCDObject* object, xmlNode* sourceNode)
 {
 	FCDGeometrySource* geometrySource = (FCDGeometrySource*) object;
@@ -42,7 +45,13 @@ bool FArchiveXML::LoadGeometrySource(FCDObject* object, xmlNode* sourceNode)
 	}
 
 	// Read in the source data
-	geometrySource->SetStride(ReadSource(sourceNode, geometrySource->GetSourceData().GetDataList()));
+	uint32 stride = ReadSource(sourceNode, geometrySource->GetSourceData().GetDataList());
+	if (stride > MAXIMUM_SOURCE_STRIDE)
+	{
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_SOURCE_SIZE, sourceNode->line);
+		stride = 0;
+	}
+	geometrySource->SetStride(stride);
 	if (geometrySource->GetStride() == 0)
 	{
 		FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_EMPTY_SOURCE, sourceNode->line);
-- 
2.43.0


From 573cfdcdd4b3e30966a41a8a394a99b5ab5826b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 164/209] fix: instances which target something of another type
 are not cast to their type

---
 FCollada/FCDocument/FCDAnimationClip.h                  | 2 +-
 FCollada/FCDocument/FCDMaterialInstance.cpp             | 2 +-
 FCollada/FCDocument/FCDMaterialInstance.h               | 4 ++--
 FCollada/FCDocument/FCDPhysicsRigidBodyInstance.h       | 2 +-
 FCollada/FCDocument/FCDPhysicsRigidConstraintInstance.h | 2 +-
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp        | 7 +++++--
 6 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationClip.h b/FCollada/FCDocument/FCDAnimationClip.h
index 0da9183..2935de5 100644
--- a/FCollada/FCDocument/FCDAnimationClip.h
+++ b/FCollada/FCDocument/FCDAnimationClip.h
@@ -107,7 +107,7 @@ public:
     /** Retrieves a given animation instanced by this clip.
         @param index The index of the animation to retrieve.
         @return The animation object at the given index. */
-	inline FCDAnimation* GetAnimation(size_t index) const { FUAssert(GetAnimationCount() > index, return NULL); return (FCDAnimation*) animations[index]->GetEntity(); }
+	inline FCDAnimation* GetAnimation(size_t index) const { FUAssert(GetAnimationCount() > index, return NULL); FCDEntity* e = const_cast<FCDEntityInstance*>(animations[index])->GetEntity(); return (e != NULL && e->GetType() == FCDEntity::ANIMATION) ? (FCDAnimation*) e : NULL; }
 
     /** Sets the name of the animation at a given index.
         @param name The name to give the animation at the given index.
diff --git a/FCollada/FCDocument/FCDMaterialInstance.cpp b/FCollada/FCDocument/FCDMaterialInstance.cpp
index 4462ac8..1cb638a 100644
--- a/FCollada/FCDocument/FCDMaterialInstance.cpp
+++ b/FCollada/FCDocument/FCDMaterialInstance.cpp
@@ -92,7 +92,7 @@ FCDObject* FCDMaterialInstance::GetGeometryTarget()
 		{
 			e = ((FCDController*) e)->GetBaseGeometry();
 		}
-		if (e->HasType(FCDGeometry::GetClassType()))
+		if (e != NULL && e->HasType(FCDGeometry::GetClassType()))
 		{
 			FCDGeometry* geometry = (FCDGeometry*) e;
 			if (geometry->IsMesh())
diff --git a/FCollada/FCDocument/FCDMaterialInstance.h b/FCollada/FCDocument/FCDMaterialInstance.h
index 2307ea7..fea8833 100644
--- a/FCollada/FCDocument/FCDMaterialInstance.h
+++ b/FCollada/FCDocument/FCDMaterialInstance.h
@@ -143,8 +143,8 @@ public:
 
 	/** Retrieves the material entity used by this instance.
 		@return The instanced material. */
-	inline FCDMaterial* GetMaterial() { return (FCDMaterial*) GetEntity(); }
-	inline const FCDMaterial* GetMaterial() const { return (const FCDMaterial*) GetEntity(); } /**< See above. */
+	inline FCDMaterial* GetMaterial() { FCDEntity* e = GetEntity(); return (e != NULL && e->GetType() == FCDEntity::MATERIAL) ? (FCDMaterial*) e : NULL; }
+	inline const FCDMaterial* GetMaterial() const { return const_cast<FCDMaterialInstance*>(this)->GetMaterial(); } /**< See above. */
 
 	/** Sets the material entity used by this instance.
 		@param _material The new instanced material. */
diff --git a/FCollada/FCDocument/FCDPhysicsRigidBodyInstance.h b/FCollada/FCDocument/FCDPhysicsRigidBodyInstance.h
index 83b049a..06b82fd 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidBodyInstance.h
+++ b/FCollada/FCDocument/FCDPhysicsRigidBodyInstance.h
@@ -80,7 +80,7 @@ public:
 
 	/** Retrieves the rigid body for this instance.
 		@return The rigid body. */
-	inline FCDPhysicsRigidBody* GetRigidBody() { return (FCDPhysicsRigidBody*) GetEntity(); }
+	inline FCDPhysicsRigidBody* GetRigidBody() { FCDEntity* e = GetEntity(); return (e != NULL && e->GetType() == FCDEntity::PHYSICS_RIGID_BODY) ? (FCDPhysicsRigidBody*) e : NULL; }
 
 	/** Retrieves the angular velocity of this rigid body instance.
 		@return The angular velocity. */
diff --git a/FCollada/FCDocument/FCDPhysicsRigidConstraintInstance.h b/FCollada/FCDocument/FCDPhysicsRigidConstraintInstance.h
index cf61b18..8c5fd9c 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidConstraintInstance.h
+++ b/FCollada/FCDocument/FCDPhysicsRigidConstraintInstance.h
@@ -67,7 +67,7 @@ public:
 
 	/** Retrieves the rigid constraint for this rigid constraint instance.
 		@return The rigid constraint. */
-	inline FCDPhysicsRigidConstraint* GetRigidConstraint() { return (FCDPhysicsRigidConstraint*) GetEntity(); }
+	inline FCDPhysicsRigidConstraint* GetRigidConstraint() { FCDEntity* e = GetEntity(); return (e != NULL && e->GetType() == FCDEntity::PHYSICS_RIGID_CONSTRAINT) ? (FCDPhysicsRigidConstraint*) e : NULL; }
 
 	/** Clones the rigid constraint instance.
 		@param clone The rigid constraint instance to become the clone.
diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index c722abc..551ecd5 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -135,7 +135,8 @@ bool FArchiveXML::LoadPhysicsRigidBodyParameters(FCDPhysicsRigidBodyParameters*
 			FCDEntityInstance* physicsMaterialInstance = FCDEntityInstanceFactory::CreateInstance(parameters->GetDocument(), NULL, FCDEntity::PHYSICS_MATERIAL);
 			parameters->SetInstanceMaterial(physicsMaterialInstance);
 			FArchiveXML::LoadSwitch(physicsMaterialInstance, &physicsMaterialInstance->GetObjectType(), param);
-			FCDPhysicsMaterial* material = (FCDPhysicsMaterial*) physicsMaterialInstance->GetEntity();
+			FCDEntity* entity = physicsMaterialInstance->GetEntity();
+			FCDPhysicsMaterial* material = (entity != NULL && entity->GetType() == FCDEntity::PHYSICS_MATERIAL) ? (FCDPhysicsMaterial*) entity : NULL;
 			if (material == NULL)
 			{
 				FUError::Error(FUError::ERROR_LEVEL, FUError::WARNING_MISSING_URI_TARGET, param->line);
@@ -294,7 +295,9 @@ bool FArchiveXML::LoadPhysicsShape(FCDObject* object, xmlNode* physicsShapeNode)
 			}
 			else
 			{
-				physicsShape->SetPhysicsMaterial((FCDPhysicsMaterial*) physicsShape->GetInstanceMaterial()->GetEntity());
+				FCDEntity* material = physicsShape->GetInstanceMaterial()->GetEntity();
+				if (material != NULL && material->GetType() != FCDEntity::PHYSICS_MATERIAL) material = NULL;
+				physicsShape->SetPhysicsMaterial((FCDPhysicsMaterial*) material);
 			}
 		}
 		else if (IsEquivalent(child->name, DAE_INSTANCE_GEOMETRY_ELEMENT))
-- 
2.43.0


From 6343d3b84a5605613a5811cd0da67b64f69e6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:40 +0000
Subject: [PATCH 165/209] fix: sources without a stride have no values

---
 FCollada/FCDocument/FCDGeometrySource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometrySource.h b/FCollada/FCDocument/FCDGeometrySource.h
index 88b07f8..5d79735 100644
--- a/FCollada/FCDocument/FCDGeometrySource.h
+++ b/FCollada/FCDocument/FCDGeometrySource.h
@@ -109,7 +109,7 @@ public:
 
 	/** Retrieves the number of individual source values contained in the source.
 		@return The number of source values. */
-	inline size_t GetValueCount() const { return sourceData.size() / stride; }
+	inline size_t GetValueCount() const { return (stride > 0) ? sourceData.size() / stride : 0; }
 
 	/** Retrieves the max number of values this input can handle before memory is reallocated.
 		@return The number of source values. */
-- 
2.43.0


From 6b8be3c45c2a4aec61f51dc7f7b0f87bbff1e2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 166/209] fix: replacing an instance of a physics material
 releases the former one

---
 FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp | 6 ++++++
 FCollada/FCDocument/FCDPhysicsRigidBodyParameters.h   | 2 +-
 FCollada/FCDocument/FCDPhysicsShape.cpp               | 6 ++++++
 FCollada/FCDocument/FCDPhysicsShape.h                 | 2 +-
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
index 50a78e7..d73a8e3 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
+++ b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
@@ -118,6 +118,12 @@ FCDPhysicsShape* FCDPhysicsRigidBodyParameters::AddPhysicsShape()
 	return shape;
 }
 
+void FCDPhysicsRigidBodyParameters::SetInstanceMaterial(FCDEntityInstance* instance)
+{
+	if (instance != instanceMaterialRef) SAFE_RELEASE(instanceMaterialRef);
+	instanceMaterialRef = instance;
+}
+
 void FCDPhysicsRigidBodyParameters::SetPhysicsMaterial(FCDPhysicsMaterial* _physicsMaterial)
 {
 	if (physicsMaterial && ownsPhysicsMaterial)
diff --git a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.h b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.h
index ad53f62..0791788 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.h
+++ b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.h
@@ -229,7 +229,7 @@ public:
 
 	/** [INTERNAL] Set the material instance.
 		@instance The new material instance. */
-	void SetInstanceMaterial(FCDEntityInstance* instance) { instanceMaterialRef = instance; }
+	void SetInstanceMaterial(FCDEntityInstance* instance);
 
 	/** [INTERNAL] Retrieve the material instance.
 		@return The material instance. */
diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 9d9842f..7361f9c 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -79,6 +79,12 @@ void FCDPhysicsShape::SetPhysicsMaterial(FCDPhysicsMaterial* _physicsMaterial)
 	SetNewChildFlag();
 }
 
+void FCDPhysicsShape::SetInstanceMaterial(FCDEntityInstance* instance)
+{
+	if (instance != instanceMaterialRef) SAFE_RELEASE(instanceMaterialRef);
+	instanceMaterialRef = instance;
+}
+
 FCDGeometryInstance* FCDPhysicsShape::CreateGeometryInstance(FCDGeometry* geom, bool createConvexMesh)
 {
 	analGeom = NULL;
diff --git a/FCollada/FCDocument/FCDPhysicsShape.h b/FCollada/FCDocument/FCDPhysicsShape.h
index 2a1e980..d3b6ea2 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.h
+++ b/FCollada/FCDocument/FCDPhysicsShape.h
@@ -199,7 +199,7 @@ public:
 	/** [INTERNAL] Set the material instance.
 		@instance The new material instance.
 	*/
-	void SetInstanceMaterial(FCDEntityInstance* instance){ instanceMaterialRef = instance; }
+	void SetInstanceMaterial(FCDEntityInstance* instance);
 
 	/** [INTERNAL] Retrieve the material instance.
 		@return The material instance.
-- 
2.43.0


From 5d644a35afc367c09be5dbfc0c949db0a4a830f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 167/209] fix: releasing an input leaves the indices to the
 inputs which share them

---
 .../FCDocument/FCDGeometryPolygonsInput.cpp   | 30 +++++++++++--------
 .../FCDocument/FCDGeometryPolygonsInput.h     |  3 ++
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
index d98ad1d..ebc05e5 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
@@ -35,6 +35,8 @@ FCDGeometryPolygonsInput::~FCDGeometryPolygonsInput()
 		UntrackObject(source);
 		source = NULL;
 	}
+
+	ReleaseIndices();
 }
 
 FUDaeGeometryInput::Semantic FCDGeometryPolygonsInput::GetSemantic() const
@@ -58,21 +60,25 @@ void FCDGeometryPolygonsInput::OnObjectReleased(FUTrackable* object)
 	if (source == object)
 	{
 		source = NULL;
+		ReleaseIndices();
+	}
+}
 
-		// Verify whether we own/share the index list.
-		if (!indices.empty())
+// Verify whether we own/share the index list.
+void FCDGeometryPolygonsInput::ReleaseIndices()
+{
+	if (!indices.empty())
+	{
+		size_t inputCount = parent->GetInputCount();
+		for (size_t i = 0; i < inputCount; ++i)
 		{
-			size_t inputCount = parent->GetInputCount();
-			for (size_t i = 0; i < inputCount; ++i)
+			FCDGeometryPolygonsInput* other = parent->GetInput(i);
+			if (other != this && other->source != NULL && other->offset == offset)
 			{
-				FCDGeometryPolygonsInput* other = parent->GetInput(i);
-				if (other != this && other->source != NULL && other->offset == offset)
-				{
-					// Move the shared list of indices to the other input.
-					other->indices = indices;
-					indices.clear();
-					break;
-				}
+				// Move the shared list of indices to the other input.
+				other->indices = indices;
+				indices.clear();
+				break;
 			}
 		}
 	}
diff --git a/FCollada/FCDocument/FCDGeometryPolygonsInput.h b/FCollada/FCDocument/FCDGeometryPolygonsInput.h
index 9b2b57c..841b485 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsInput.h
+++ b/FCollada/FCDocument/FCDGeometryPolygonsInput.h
@@ -153,6 +153,9 @@ private:
 	// FUTracker interface.
 	virtual void OnObjectReleased(FUTrackable* object);
 
+	// Hands the index list over to an input which shares it.
+	void ReleaseIndices();
+
 	// Finds the index buffer for this list.
 	FUParameterUInt32List& FindIndices() { return const_cast<FUParameterUInt32List&>(const_cast<const FCDGeometryPolygonsInput*>(this)->FindIndices()); }
 	const FUParameterUInt32List& FindIndices() const;
-- 
2.43.0


From aff6f42c8e0227df5a818de67d5a7453916819d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 168/209] fix: replacing the geometry instance of a shape
 releases the former one

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 6 ++++++
 FCollada/FCDocument/FCDPhysicsShape.h   | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 7361f9c..06f1489 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -79,6 +79,12 @@ void FCDPhysicsShape::SetPhysicsMaterial(FCDPhysicsMaterial* _physicsMaterial)
 	SetNewChildFlag();
 }
 
+void FCDPhysicsShape::SetGeometryInstance(FCDGeometryInstance* instance)
+{
+	if (instance != geometry) SAFE_RELEASE(geometry);
+	geometry = instance;
+}
+
 void FCDPhysicsShape::SetInstanceMaterial(FCDEntityInstance* instance)
 {
 	if (instance != instanceMaterialRef) SAFE_RELEASE(instanceMaterialRef);
diff --git a/FCollada/FCDocument/FCDPhysicsShape.h b/FCollada/FCDocument/FCDPhysicsShape.h
index d3b6ea2..fc69036 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.h
+++ b/FCollada/FCDocument/FCDPhysicsShape.h
@@ -139,7 +139,7 @@ public:
 	/** [INTERNAL] Set the geometry instance.
 		@param instance The new geometry instance.
 	*/
-	void SetGeometryInstance(FCDGeometryInstance* instance){ geometry = instance; }
+	void SetGeometryInstance(FCDGeometryInstance* instance);
 
 	/** Creates a geometry instance for this shape. If IsAnalyticalGeometry
 		returned true before this call, it will return false afterwards as the
-- 
2.43.0


From 5d882edc9063da550a22ee79460b64e0de1be7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 169/209] fix: all documents are listed, whatever the depth of
 their references

---
 FCollada/FCollada.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCollada.cpp b/FCollada/FCollada.cpp
index 895d5b9..8dc5963 100644
--- a/FCollada/FCollada.cpp
+++ b/FCollada/FCollada.cpp
@@ -86,7 +86,7 @@ namespace FCollada
 	{
 		documents.clear();
 		documents.insert(documents.end(), topDocuments.begin(), topDocuments.end());
-		for (size_t index = 0; index < topDocuments.size(); ++index)
+		for (size_t index = 0; index < documents.size(); ++index)
 		{
 			FCDocument* document = documents[index];
 
-- 
2.43.0


From dfa03bd8447841e403e6b18373bf5948510f090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:11 +0000
Subject: [PATCH 170/209] fix: a document is only loaded once for external
 references

---
 FCollada/FCDocument/FCDPlaceHolder.cpp | 57 +++++++++++++++-----------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/FCollada/FCDocument/FCDPlaceHolder.cpp b/FCollada/FCDocument/FCDPlaceHolder.cpp
index 4fe5d60..9575d0e 100644
--- a/FCollada/FCDocument/FCDPlaceHolder.cpp
+++ b/FCollada/FCDocument/FCDPlaceHolder.cpp
@@ -60,49 +60,60 @@ FCDocument* FCDPlaceHolder::GetTarget(bool loadIfMissing)
 	return target;
 }
 
+// The documents being loaded because of an external reference, with the documents that hold these references.
+static FCDocumentList loadingDocuments;
+
+// Retrieves the document of that URL, if it is already loaded.
+static FCDocument* FindLoadedDocument(FCDocument* owner, const fstring& fileUrl)
+{
+	FCDocumentList documents;
+	FCollada::GetAllDocuments(documents);
+	documents.insert(documents.end(), loadingDocuments.begin(), loadingDocuments.end());
+	documents.push_back(owner);
+	for (FCDocument** it = documents.begin(); it != documents.end(); ++it)
+	{
+		if (IsEquivalent((*it)->GetFileUrl(), fileUrl)) return *it;
+	}
+	return NULL;
+}
+
 void FCDPlaceHolder::LoadTarget(FCDocument* newTarget)
 {
 	if (target == NULL)
 	{
-		if (newTarget == NULL)
+		// A document is only loaded once: its own references may lead back to this document.
+		if (newTarget == NULL) newTarget = FindLoadedDocument(GetDocument(), fileUrl);
+
+		if (newTarget != NULL)
+		{
+			target = newTarget;
+			TrackObject(target);
+		}
+		else
 		{
 			newTarget = new FCDocument();
 			FUUri uri(GetDocument()->GetFileManager()->GetCurrentUri().MakeAbsolute(fileUrl));
 			fstring filename = uri.GetAbsolutePath();
 
-#ifdef _DEBUG
-			// Check for circular dependencies.
-			FCDocumentList documents;
-			FCollada::GetAllDocuments(documents);
-			for (FCDocument** it = documents.begin(); it != documents.end(); ++it)
-			{
-				// If the following asset triggers, you are wrongly forcing XRefs to load during archiving ?
-				FUAssert(!IsEquivalent((*it)->GetFileUrl(), fileUrl),);
-			}
-#endif // _DEBUG
-
 			// Now, we have to copy over our callback schemes from our document to the new
 			// one (to ensure that the new document can handle the scheme we was loaded under)
 			FCDocument* curDoc = GetDocument();
 			newTarget->GetFileManager()->CloneSchemeCallbacks(curDoc->GetFileManager());
 
+			// The references met while loading must be able to find the new document.
+			target = newTarget;
+			TrackObject(target);
+			loadingDocuments.push_back(curDoc);
+			loadingDocuments.push_back(newTarget);
 			bool loadStatus = FCollada::LoadDocumentFromFile(newTarget, filename.c_str());
+			loadingDocuments.pop_back();
+			loadingDocuments.pop_back();
 			if (!loadStatus)
 			{
-				SAFE_DELETE(newTarget);
-			}
-		}
-
-		if (newTarget != NULL)
-		{
-			if (target != NULL)
-			{
-				fileUrl = target->GetFileUrl();
 				UntrackObject(target);
 				target = NULL;
+				SAFE_RELEASE(newTarget);
 			}
-			target = newTarget;
-			TrackObject(target);
 		}
 		SetNewChildFlag();
 	}
-- 
2.43.0


From f1d29ce8849d127e2d6e4415d6feb9dfa278abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 171/209] fix: unresolved external effects and scenes keep
 their address

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 2 +-
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index dcfa173..599c6c2 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -36,7 +36,7 @@ xmlNode* FArchiveXML::WriteMaterial(FCDObject* object, xmlNode* parentNode)
 
 	// The <instance_effect> element is required in COLLADA 1.4
 	xmlNode* instanceEffectNode = AddChild(materialNode, DAE_INSTANCE_EFFECT_ELEMENT);
-	if (material->GetEffect() != NULL)
+	if (material->GetEffectReference()->IsExternal() || material->GetEffect() != NULL)
 	{
 		const FUUri& uri = material->GetEffectReference()->GetUri();
 		fstring uriString = material->GetDocument()->GetFileManager()->CleanUri(uri);
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 09a6c7f..b1102cc 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -900,7 +900,7 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 				AddAttribute(instanceVisualSceneNode, DAE_URL_ATTRIBUTE, uriString);
 			}
 		}
-		if (theDocument->GetVisualSceneInstance() != NULL)
+		if (theDocument->GetVisualSceneInstanceReference()->IsExternal() || theDocument->GetVisualSceneInstance() != NULL)
 		{
 			// Write out the <instance_visual_scene>
 			if (sceneNode == NULL) sceneNode = AddChild(colladaNode, DAE_SCENE_ELEMENT);
-- 
2.43.0


From 49746541f0d078cb093b1a30f3cf673725b6ba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 172/209] fix: exporting to a file which cannot be written
 fails

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index b1102cc..2dfdf6a 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -405,6 +405,7 @@ bool FArchiveXML::ImportFile(const fchar* filePath, FCDocument* fcdocument)
 	}
 	_FCATCH_ALL
 	{
+		status = false;
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_PARSING_FAILED);
 	}
 
@@ -464,6 +465,7 @@ bool FArchiveXML::ExportFile(FCDocument* fcdocument, const fchar* filePath)
 			// Create the XML document and write it out to the given filename
 			if (!daeDocument.Write())
 			{
+				status = false;
 				FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_WRITE_FILE, rootNode->line);
 			}
 			else
@@ -474,6 +476,7 @@ bool FArchiveXML::ExportFile(FCDocument* fcdocument, const fchar* filePath)
 	}
     _FCATCH_ALL
 	{
+		status = false;
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_PARSING_FAILED);
 	}
 
-- 
2.43.0


From 48e50cddc27b1b9eacdab16583e4dc163d967373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 173/209] fix: folders cannot be opened as files

---
 FCollada/FUtils/FUFile.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/FCollada/FUtils/FUFile.cpp b/FCollada/FUtils/FUFile.cpp
index 38aca84..565e36e 100644
--- a/FCollada/FUtils/FUFile.cpp
+++ b/FCollada/FUtils/FUFile.cpp
@@ -8,6 +8,9 @@
 
 #include "StdAfx.h"
 #include "FUFile.h"
+#ifndef WIN32
+#include <sys/stat.h>
+#endif // WIN32
 
 //
 // FUFile
@@ -66,6 +69,15 @@ bool FUFile::Open(const fchar* filename, Mode mode)
 #else
 	filePtr = fopen(filename, openMode);
 #endif // UNICODE
+#ifndef WIN32
+	// Folders can be opened for reading, but they have no content.
+	struct stat status;
+	if (filePtr != NULL && fstat(fileno(filePtr), &status) == 0 && S_ISDIR(status.st_mode))
+	{
+		fclose(filePtr);
+		filePtr = NULL;
+	}
+#endif // WIN32
 	if (filePtr == NULL)
 	{
 #ifdef WIN32
-- 
2.43.0


From 46f1160a176b3bf246c1fd5e1c9197454a271d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 174/209] fix: partial reads and writes fail

---
 FCollada/FUtils/FUFile.cpp        | 4 ++--
 FCollada/FUtils/FUXmlDocument.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/FCollada/FUtils/FUFile.cpp b/FCollada/FUtils/FUFile.cpp
index 565e36e..aac29b2 100644
--- a/FCollada/FUtils/FUFile.cpp
+++ b/FCollada/FUtils/FUFile.cpp
@@ -119,14 +119,14 @@ size_t FUFile::GetLength()
 bool FUFile::Read(void* buffer, size_t length)
 {
 	FUAssert(IsOpen(), return 0);
-	return (fread(buffer, 1, length, filePtr) > 0);
+	return (fread(buffer, 1, length, filePtr) == length);
 }
 
 // Write out some data to a file
 bool FUFile::Write(const void* buffer, size_t length)
 {
 	FUAssert(IsOpen(), return 0);
-	return (fwrite(buffer, 1, length, filePtr) > 0);
+	return (fwrite(buffer, 1, length, filePtr) == length);
 }
 
 // Flush/close the file stream
diff --git a/FCollada/FUtils/FUXmlDocument.cpp b/FCollada/FUtils/FUXmlDocument.cpp
index 0d88491..7dffef0 100644
--- a/FCollada/FUtils/FUXmlDocument.cpp
+++ b/FCollada/FUtils/FUXmlDocument.cpp
@@ -34,11 +34,11 @@ FUXmlDocument::FUXmlDocument(FUFileManager* manager, const fchar* _filename, boo
 		{
 			size_t fileLength = file->GetLength();
 			uint8* fileData = new uint8[fileLength];
-			file->Read(fileData, fileLength);
+			bool complete = file->Read(fileData, fileLength);
 			file->Close();
 
 			// Open the given XML file.
-			xmlDocument = xmlParseMemory(reinterpret_cast<const char*>(fileData), static_cast<int>(fileLength));
+			if (complete) xmlDocument = xmlParseMemory(reinterpret_cast<const char*>(fileData), static_cast<int>(fileLength));
 			SAFE_DELETE_ARRAY(fileData);
 		}
 		SAFE_DELETE(file);
-- 
2.43.0


From b37768d5af049df6617d0e342a1d23a0cde2c270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 175/209] fix: loading a document which fails does not leave a
 dangling pointer

---
 FCollada/FCollada.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCollada.cpp b/FCollada/FCollada.cpp
index 8dc5963..df931d5 100644
--- a/FCollada/FCollada.cpp
+++ b/FCollada/FCollada.cpp
@@ -108,7 +108,7 @@ namespace FCollada
 
 		if (!LoadDocumentFromFile(theDocument, filename))
 		{
-			SAFE_DELETE(theDocument);
+			SAFE_RELEASE(theDocument);
 		}
 		return theDocument;
 	}
@@ -123,7 +123,7 @@ namespace FCollada
 	{
 		// This function is deprecated.
 		FCDocument* document = FCollada::NewTopDocument();
-		if (!LoadDocumentFromFile(document, filename)) document->Release();
+		if (!LoadDocumentFromFile(document, filename)) SAFE_RELEASE(document);
 		return document;
 	}
 
-- 
2.43.0


From 60d2e4ae6708fbbe04b9bcab5b8baa4a5ecc89a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 176/209] fix: documents loaded while importing another leave
 its link data

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 2dfdf6a..1c43c38 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -400,8 +400,8 @@ bool FArchiveXML::ImportFile(const fchar* filePath, FCDocument* fcdocument)
     		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MALFORMED_XML);
 		}
 
-		// Clean-up the XML reader
-		FArchiveXML::ClearIntermediateData();
+		// Clean-up the XML reader, unless this document is loaded for another one.
+		if (FArchiveXML::loadedDocumentCount == 0) FArchiveXML::ClearIntermediateData();
 	}
 	_FCATCH_ALL
 	{
@@ -435,8 +435,8 @@ bool FArchiveXML::ImportFileFromMemory(const fchar* filePath, FCDocument* fcdocu
 			FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MALFORMED_XML);
 		}
 
-		// Clean-up the XML reader
-		FArchiveXML::ClearIntermediateData();
+		// Clean-up the XML reader, unless this document is loaded for another one.
+		if (FArchiveXML::loadedDocumentCount == 0) FArchiveXML::ClearIntermediateData();
     }
     _FCATCH_ALL
     {
@@ -557,11 +557,13 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 
 	if (FArchiveXML::loadedDocumentCount == 0)
 		FArchiveXML::ClearIntermediateData();
+	FArchiveXML::documentLinkDataMap.erase(theDocument);
 	++FArchiveXML::loadedDocumentCount;
 
 	// The only root node supported is "COLLADA"
 	if (!IsEquivalent(colladaNode->name, DAE_COLLADA_ELEMENT))
 	{
+		--FArchiveXML::loadedDocumentCount;
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_INVALID_ELEMENT, colladaNode->line);
 		return status = false;
 	}
@@ -663,7 +665,11 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 	size_t libraryNodeCount = orderedLibraryNodes.size();
 	for (size_t i = 0; i < libraryNodeCount; ++i)
 	{
-		if (FCollada::CancelLoading()) return false;
+		if (FCollada::CancelLoading())
+		{
+			--FArchiveXML::loadedDocumentCount;
+			return false;
+		}
 
 		xmlOrderedNode& n = orderedLibraryNodes[i];
 		switch (n.order)
-- 
2.43.0


From fdbaa362693aae7c80dfb3959ce90828d1225315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 177/209] fix: the current time of documents can be set, and
 reaches each of them once

---
 FCollada/FCDocument/FCDocument.cpp | 16 ++++++++++++++--
 FCollada/FCDocument/FCDocument.h   |  3 ++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/FCollada/FCDocument/FCDocument.cpp b/FCollada/FCDocument/FCDocument.cpp
index c67e4f7..a328904 100644
--- a/FCollada/FCDocument/FCDocument.cpp
+++ b/FCollada/FCDocument/FCDocument.cpp
@@ -354,8 +354,13 @@ void FCDocument::SetFileUrl(const fstring& filename)
 	fileManager->PushRootFile(fileUrl);
 }
 
-void FCDocument::SetCurrentTime(float time)
+void FCDocument::EvaluateDocument(FCDocument* document, float time, fm::pvector<FCDocument>& evaluated)
 {
+	// Documents may reference each other: evaluate each of them only once.
+	if (evaluated.contains(document)) return;
+	evaluated.push_back(document);
+
+	FCDAnimatedSet& animatedValues = document->animatedValues;
 	for (FCDAnimatedSet::iterator itA = animatedValues.begin(); itA != animatedValues.end(); ++itA)
 	{
 		FCDAnimated* animated = (*itA).first;
@@ -363,13 +368,20 @@ void FCDocument::SetCurrentTime(float time)
 	}
 
 	// We must evaluate all our child documents as well!
+	FCDExternalReferenceManager* externalReferenceManager = document->GetExternalReferenceManager();
 	for (size_t i = 0; i < externalReferenceManager->GetPlaceHolderCount(); i++)
 	{
 		FCDPlaceHolder* placeHolder = externalReferenceManager->GetPlaceHolder(i);
-		if (placeHolder->IsTargetLoaded()) placeHolder->GetTarget()->SetCurrentTime(time);
+		if (placeHolder->IsTargetLoaded()) EvaluateDocument(placeHolder->GetTarget(), time, evaluated);
 	}
 }
 
+void FCDocument::SetCurrentTime(float time)
+{
+	fm::pvector<FCDocument> evaluated;
+	EvaluateDocument(this, time, evaluated);
+}
+
 // More linker-tricking for DLL support.
 extern bool CreateLibraryFunctions(FCDocument* doc)
 {
diff --git a/FCollada/FCDocument/FCDocument.h b/FCollada/FCDocument/FCDocument.h
index 97149ff..155b61f 100644
--- a/FCollada/FCDocument/FCDocument.h
+++ b/FCollada/FCDocument/FCDocument.h
@@ -149,6 +149,7 @@ private:
 	// Animated values
 	typedef fm::map<FCDAnimated*, FCDAnimated*> FCDAnimatedSet;
 	FCDAnimatedSet animatedValues;
+	static void EvaluateDocument(FCDocument* document, float time, fm::pvector<FCDocument>& evaluated);
 
 public:
 	/** Construct a new COLLADA document. */
@@ -261,7 +262,7 @@ public:
 
 	/** Evaluate the animation objects at the given time
 		@param time The time to evaluate the objects at */
-	inline void SetCurrentTime(float time);
+	void SetCurrentTime(float time);
 
 	/** Retrieves the list of entity layers.
 		@return The list of entity layers. */
-- 
2.43.0


From 0dfc15360d40129b72531a43ab39b729a0c9f7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 178/209] fix: shrinking an animatable list to a default value
 releases the right animations

---
 FCollada/FCDocument/FCDParameterAnimatable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.hpp b/FCollada/FCDocument/FCDParameterAnimatable.hpp
index ddf6745..98ca978 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.hpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.hpp
@@ -186,7 +186,7 @@ template <class TYPE, int QUALIFIERS>
 void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::resize(size_t count, const TYPE& value)
 {
 	if (count > values.size()) OnInsertion(values.size(), count - values.size());
-	else if (count < values.size()) OnRemoval(count - values.size(), values.size());
+	else if (count < values.size()) OnRemoval(count, values.size() - count);
 	values.resize(count, value);
 	OnPotentialSizeChange();
 }
-- 
2.43.0


From 1a08e345601d4f014bb6353f850c598a0321f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 179/209] fix: resizing an animatable list marks its object

---
 FCollada/FCDocument/FCDParameterAnimatable.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.hpp b/FCollada/FCDocument/FCDParameterAnimatable.hpp
index 98ca978..ae6a206 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.hpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.hpp
@@ -179,6 +179,8 @@ void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::resize(size_t count)
 	if (count > values.size()) OnInsertion(values.size(), count - values.size());
 	else if (count < values.size()) OnRemoval(count, values.size() - count);
 	values.resize(count);
+	GetParent()->SetStructureChangedFlag();
+	GetParent()->SetDirtyFlag();
 	OnPotentialSizeChange();
 }
 
@@ -188,6 +190,8 @@ void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::resize(size_t count, const T
 	if (count > values.size()) OnInsertion(values.size(), count - values.size());
 	else if (count < values.size()) OnRemoval(count, values.size() - count);
 	values.resize(count, value);
+	GetParent()->SetStructureChangedFlag();
+	GetParent()->SetDirtyFlag();
 	OnPotentialSizeChange();
 }
 
-- 
2.43.0


From 7025dd342f142dfd649ca1d27c422a5da42e74b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 180/209] fix: animations of a list follow the values which
 move within it

---
 FCollada/FCDocument/FCDParameterAnimatable.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.hpp b/FCollada/FCDocument/FCDParameterAnimatable.hpp
index ae6a206..c3af2b9 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.hpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.hpp
@@ -201,18 +201,13 @@ void FCDParameterListAnimatableT<TYPE, QUALIFIERS>::OnPotentialSizeChange()
 	size_t animatedCount = animateds.size();
 	if (animatedCount == 0) return;
 
-	// Check if the first FCDAnimated points to the correct values.
-	// If it does, then they all should be fine.
-	FCDAnimated* animated = animateds.front();
-	FUAssert((size_t) animated->GetArrayElement() < values.size(), return);
-	if (animated->GetValue(0) == (void*) &values[animated->GetArrayElement()]) return;
-
-	// Process all the animateds and set their value pointers.
+	// Process all the animateds and set their value pointers: the values may have been
+	// relocated, and inserting or removing values moves the ones which follow.
 	// IMPORTANT: it is assumed that these values are FLOATS and ORDERED.
-	size_t stride = animated->GetValueCount();
+	size_t stride = animateds.front()->GetValueCount();
 	for (size_t i = 0; i < animatedCount; ++i)
 	{
-		animated = animateds[i];
+		FCDAnimated* animated = animateds[i];
 		size_t arrayElement = animated->GetArrayElement();
 		FUAssert(arrayElement < values.size(), return);
 		for (size_t j = 0; j < stride; ++j)
-- 
2.43.0


From 9b32341d02bed61a812c3c2e740e94a888c55c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 181/209] fix: the animation of a skew has the qualifiers of a
 skew

---
 FCollada/FCDocument/FCDParameterAnimatable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDParameterAnimatable.cpp b/FCollada/FCDocument/FCDParameterAnimatable.cpp
index c633cdd..2610f7e 100644
--- a/FCollada/FCDocument/FCDParameterAnimatable.cpp
+++ b/FCollada/FCDocument/FCDParameterAnimatable.cpp
@@ -137,7 +137,7 @@ template <> FCDAnimated* FCDParameterAnimatableSkew::CreateAnimated()
 		&value.aroundAxis.x, &value.aroundAxis.y, &value.aroundAxis.z,
 		&value.angle
 	};
-	return new FCDAnimated((FCDObject*) GetParent(), 7, FCDAnimatedStandardQualifiers::LOOKAT, values);
+	return new FCDAnimated((FCDObject*) GetParent(), 7, FCDAnimatedStandardQualifiers::SKEW, values);
 }
 
 //
-- 
2.43.0


From 184e0184db03d1061d78682d0c7cb402d70d0ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 182/209] fix: entities of documents which are being loaded are
 not reported as missing

---
 FCollada/FCDocument/FCDEntityReference.cpp | 2 +-
 FCollada/FCDocument/FCDPlaceHolder.cpp     | 5 +++++
 FCollada/FCDocument/FCDPlaceHolder.h       | 5 +++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEntityReference.cpp b/FCollada/FCDocument/FCDEntityReference.cpp
index 4c4635c..2f0e582 100644
--- a/FCollada/FCDocument/FCDEntityReference.cpp
+++ b/FCollada/FCDocument/FCDEntityReference.cpp
@@ -160,7 +160,7 @@ void FCDEntityReference::LoadEntity()
 	{
 		entity = entityDocument->FindEntity(entityId);
 		if (entity != NULL) TrackObject(entity);
-		else
+		else if (placeHolder == NULL || !placeHolder->IsTargetLoading())
 		{
 			FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_INVALID_URI);
 			FUFail(return);
diff --git a/FCollada/FCDocument/FCDPlaceHolder.cpp b/FCollada/FCDocument/FCDPlaceHolder.cpp
index 9575d0e..9c97c71 100644
--- a/FCollada/FCDocument/FCDPlaceHolder.cpp
+++ b/FCollada/FCDocument/FCDPlaceHolder.cpp
@@ -77,6 +77,11 @@ static FCDocument* FindLoadedDocument(FCDocument* owner, const fstring& fileUrl)
 	return NULL;
 }
 
+bool FCDPlaceHolder::IsTargetLoading() const
+{
+	return target != NULL && loadingDocuments.contains(const_cast<FCDocument*>((const FCDocument*) target));
+}
+
 void FCDPlaceHolder::LoadTarget(FCDocument* newTarget)
 {
 	if (target == NULL)
diff --git a/FCollada/FCDocument/FCDPlaceHolder.h b/FCollada/FCDocument/FCDPlaceHolder.h
index 81e07b9..4410195 100644
--- a/FCollada/FCDocument/FCDPlaceHolder.h
+++ b/FCollada/FCDocument/FCDPlaceHolder.h
@@ -74,6 +74,11 @@ public:
 		@return Whether the referenced document is available. */
 	inline bool IsTargetLoaded() const { return target != NULL; }
 
+	/** Retrieves whether the target document is being loaded, or is waiting for
+		the documents that it references: some of its entities may not be available yet.
+		@return Whether the target document is being loaded. */
+	bool IsTargetLoading() const;
+
 	/** Retrieves the URL of the referenced FCollada document.
 		@return The URL of the referenced FCollada document. */
 	const fstring& GetFileUrl() const;
-- 
2.43.0


From 94aa4dc4c85d5d1b6d1c557f6de09ad1eb2b6dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 183/209] fix: opacity and reflectivity average the three
 components of the colour

---
 FCollada/FCDocument/FCDEffectStandard.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDEffectStandard.cpp b/FCollada/FCDocument/FCDEffectStandard.cpp
index 5d10b1b..56d8b81 100644
--- a/FCollada/FCDocument/FCDEffectStandard.cpp
+++ b/FCollada/FCDocument/FCDEffectStandard.cpp
@@ -230,7 +230,7 @@ FCDTexture* FCDEffectStandard::AddTexture(uint32 bucket)
 float FCDEffectStandard::GetOpacity() const
 {
 	if (transparencyMode == RGB_ZERO)
-		return 1.0f - (translucencyColor->GetValue()->x + translucencyColor->GetValue()->x + translucencyColor->GetValue()->x) / 3.0f * translucencyFactor->GetValue();
+		return 1.0f - (translucencyColor->GetValue()->x + translucencyColor->GetValue()->y + translucencyColor->GetValue()->z) / 3.0f * translucencyFactor->GetValue();
 	else
 		return translucencyColor->GetValue()->w * translucencyFactor->GetValue();
 }
@@ -238,7 +238,7 @@ float FCDEffectStandard::GetOpacity() const
 // Calculate the overall reflectivity for this material
 float FCDEffectStandard::GetReflectivity() const
 {
-	return (reflectivityColor->GetValue()->x + reflectivityColor->GetValue()->x + reflectivityColor->GetValue()->x) / 3.0f * reflectivityFactor->GetValue();
+	return (reflectivityColor->GetValue()->x + reflectivityColor->GetValue()->y + reflectivityColor->GetValue()->z) / 3.0f * reflectivityFactor->GetValue();
 }
 
 // Clones an animated value: the clone gets its own copy of the curves.
-- 
2.43.0


From cac6a51ce9677621eff220b4a7fdac6ee40d4406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 184/209] fix: AddImage of a surface inserts at any position
 and gives the index of an image that is already there

---
 FCollada/FCDocument/FCDEffectParameterSurface.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDEffectParameterSurface.cpp b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
index 30271e6..b885dd5 100644
--- a/FCollada/FCDocument/FCDEffectParameterSurface.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
@@ -63,7 +63,8 @@ size_t FCDEffectParameterSurface::FindImage(const FCDImage* image) const
 size_t FCDEffectParameterSurface::AddImage(FCDImage* image, size_t index)
 {
 	size_t exists = FindImage(image);
-	if (exists == (size_t) ~0)
+	if (exists != (size_t) ~0) index = exists;
+	else
 	{
 		if (index == (size_t) ~0)
 		{
@@ -72,7 +73,7 @@ size_t FCDEffectParameterSurface::AddImage(FCDImage* image, size_t index)
 		}
 		else
 		{
-			FUAssert(index > images.size(), return (size_t) ~0);
+			FUAssert(index <= images.size(), return (size_t) ~0);
 			images.insert(index, image);
 		}
 		SetNewChildFlag();
-- 
2.43.0


From f164ad32b9782553a6c3af17b1d5ae0821b2279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 185/209] fix: cloning a cube map initialisation keeps the
 image order of its faces

---
 FCollada/FCDocument/FCDEffectParameterSurface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDEffectParameterSurface.cpp b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
index b885dd5..c9d3abd 100644
--- a/FCollada/FCDocument/FCDEffectParameterSurface.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
@@ -238,6 +238,7 @@ FCDEffectParameterSurfaceInit* FCDEffectParameterSurfaceInitCube::Clone(FCDEffec
 	if (clone != NULL)
 	{
 		clone->cubeType = cubeType;
+		clone->order = order;
 	}
 	return clone;
 }
-- 
2.43.0


From f2e050a5527d946f9ce650fc6101eb3d9c1a7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 186/209] fix: overwriting an effect parameter dirties the
 target, and three setters mark their object dirty

---
 FCollada/FCDocument/FCDEffectParameter.hpp        | 4 ++--
 FCollada/FCDocument/FCDEffectParameterSampler.cpp | 2 +-
 FCollada/FCDocument/FCDEffectParameterSurface.cpp | 2 +-
 FCollada/FCDocument/FCDEffectParameterSurface.h   | 2 +-
 FCollada/FCDocument/FCDEffectStandard.h           | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/FCollada/FCDocument/FCDEffectParameter.hpp b/FCollada/FCDocument/FCDEffectParameter.hpp
index e0c284b..2e75bb1 100644
--- a/FCollada/FCDocument/FCDEffectParameter.hpp
+++ b/FCollada/FCDocument/FCDEffectParameter.hpp
@@ -42,7 +42,7 @@ void FCDEffectParameterT<PrimitiveType>::Overwrite(FCDEffectParameter* target)
 	{
 		FCDEffectParameterT<PrimitiveType>* s = (FCDEffectParameterT<PrimitiveType>*) target;
 		s->value = value;
-		SetDirtyFlag();
+		s->SetDirtyFlag();
 	}
 }
 
@@ -88,6 +88,6 @@ void FCDEffectParameterAnimatableT<PrimitiveType, Qualifiers>::Overwrite(FCDEffe
 	{
 		FCDEffectParameterAnimatableT<PrimitiveType, Qualifiers>* s = (FCDEffectParameterAnimatableT<PrimitiveType, Qualifiers>*) target;
 		s->value = *value;
-		SetDirtyFlag();
+		s->SetDirtyFlag();
 	}
 }
diff --git a/FCollada/FCDocument/FCDEffectParameterSampler.cpp b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
index 0ccc62b..bb8e243 100644
--- a/FCollada/FCDocument/FCDEffectParameterSampler.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
@@ -93,7 +93,7 @@ void FCDEffectParameterSampler::Overwrite(FCDEffectParameter* target)
 		if (samplerType == s->samplerType)
 		{
 			s->surface = surface;
-			SetNewChildFlag();
+			s->SetNewChildFlag();
 		}
 	}
 }
diff --git a/FCollada/FCDocument/FCDEffectParameterSurface.cpp b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
index c9d3abd..cd9c853 100644
--- a/FCollada/FCDocument/FCDEffectParameterSurface.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
@@ -195,7 +195,7 @@ void FCDEffectParameterSurface::Overwrite(FCDEffectParameter* target)
 		s->viewportRatio = viewportRatio;
 		s->mipLevelCount = mipLevelCount;
 		s->generateMipmaps = generateMipmaps;
-		SetDirtyFlag();
+		s->SetDirtyFlag();
 	}
 }
 
diff --git a/FCollada/FCDocument/FCDEffectParameterSurface.h b/FCollada/FCDocument/FCDEffectParameterSurface.h
index bc88ce7..4e0b5a9 100644
--- a/FCollada/FCDocument/FCDEffectParameterSurface.h
+++ b/FCollada/FCDocument/FCDEffectParameterSurface.h
@@ -152,7 +152,7 @@ public:
 		This parameter is optional and can contain all zeroes to indicate
 		that you should read the surface dimensions from the image file(s).
 		@param dimensions The wanted dimensions. */
-	void SetSize(const FMVector3& dimensions) { size = dimensions; }
+	void SetSize(const FMVector3& dimensions) { size = dimensions; SetDirtyFlag(); }
 
 	/** Retrieves the viewport ratio to use when the surface is a render target.
 		@return The viewport ratio. */
diff --git a/FCollada/FCDocument/FCDEffectStandard.h b/FCollada/FCDocument/FCDEffectStandard.h
index 9ddae55..c43efae 100644
--- a/FCollada/FCDocument/FCDEffectStandard.h
+++ b/FCollada/FCDocument/FCDEffectStandard.h
@@ -477,7 +477,7 @@ public:
 
 	/**	Sets the reflectivity state.
 		@param r The effect's new reflectivity state.*/
-	inline void SetReflective(bool r) { isReflective = r; }
+	inline void SetReflective(bool r) { isReflective = r; SetDirtyFlag(); }
 
 //
 // Reflectivity Color (vector)
@@ -544,7 +544,7 @@ public:
 
 	/**	Sets the refractive state.
 		@param r The effect's new refractive state.*/
-	inline void SetRefractive(bool r) { isRefractive = r; }
+	inline void SetRefractive(bool r) { isRefractive = r; SetDirtyFlag(); }
 
 //
 // IndexOfRefraction (float)
-- 
2.43.0


From a9c46d4b7746c0606e9eed0f0557cc3295e05782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 187/209] fix: two surface parameters of the same size can be
 equal

---
 FCollada/FCDocument/FCDEffectParameterSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEffectParameterSurface.cpp b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
index cd9c853..c6b9b3a 100644
--- a/FCollada/FCDocument/FCDEffectParameterSurface.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
@@ -129,7 +129,7 @@ bool FCDEffectParameterSurface::IsValueEqual(FCDEffectParameter *parameter)
 		if (initMethod != param->GetInitMethod()) return false;
 	}
 
-	if (size != param->GetSize()) return false;
+	if (!IsEquivalent(size, param->GetSize())) return false;
 	if (mipLevelCount != param->GetMipLevelCount()) return false;
 	if (generateMipmaps != param->IsGenerateMipMaps()) return false;
 	if (viewportRatio != param->GetViewportRatio()) return false;
-- 
2.43.0


From 59c923aab0cf00d6f2312879ff81dafa499a406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 188/209] fix: GetDefaultColor and GetDefaultFloat accept a
 material without an effect or a common profile

---
 FCollada/FCDocument/FCDEffectTools.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FCDocument/FCDEffectTools.cpp b/FCollada/FCDocument/FCDEffectTools.cpp
index 8fd48cc..8c36248 100644
--- a/FCollada/FCDocument/FCDEffectTools.cpp
+++ b/FCollada/FCDocument/FCDEffectTools.cpp
@@ -345,8 +345,11 @@ namespace FCDEffectTools
 	FMVector4* GetDefaultColor(FCDMaterial* material, const fm::string& semantic, bool* isFloat3)
 	{
 		//Find the different classes that are needed.
+		if (material == NULL) return NULL;
 		FCDEffect* effect = material->GetEffect();
+		if (effect == NULL) return NULL;
 		FCDEffectProfile* effectProfile = effect->FindProfile(FUDaeProfileType::COMMON);
+		if (effectProfile == NULL) return NULL;
 		FCDEffectStandard* effectStandard = (FCDEffectStandard*) effectProfile;
 		bool isFloat = true;
 
@@ -424,8 +427,11 @@ namespace FCDEffectTools
 	float* GetDefaultFloat(FCDMaterial* material, const fm::string& semantic)
 	{
 		//Find the different classes that are needed.
+		if (material == NULL) return NULL;
 		FCDEffect* effect = material->GetEffect();
+		if (effect == NULL) return NULL;
 		FCDEffectProfile* effectProfile = effect->FindProfile(FUDaeProfileType::COMMON);
+		if (effectProfile == NULL) return NULL;
 		FCDEffectStandard* effectStandard = (FCDEffectStandard*) effectProfile;
 		bool isFloat = true;
 
-- 
2.43.0


From 568d50234e69060a7b318087c378ba32fb18256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:35 +0000
Subject: [PATCH 189/209] fix: the outer angle of a light with an animated
 fall-off and a penumbra gets curves of its own

---
 FCollada/FCDocument/FCDLightTools.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDLightTools.cpp b/FCollada/FCDocument/FCDLightTools.cpp
index 932b4eb..bc86374 100644
--- a/FCollada/FCDocument/FCDLightTools.cpp
+++ b/FCollada/FCDocument/FCDLightTools.cpp
@@ -21,6 +21,15 @@
 
 namespace FCDLightTools
 {
+	// Animates the given value with a copy of another value's curve, within a channel of its own.
+	static FCDAnimationCurve* CopyCurve(const FCDAnimationCurve* curve, FCDAnimated* animated, FCDAnimation* animation)
+	{
+		FCDAnimationCurve* copy = animation->AddChannel()->AddCurve();
+		curve->Clone(copy, false);
+		animated->AddCurve(0, copy);
+		return copy;
+	}
+
 	void LoadPenumbra(FCDLight* light, float penumbraValue, FCDAnimated* penumbraAnimated, bool createAnimationChannel)
 	{
 		bool fallOffIsOuter = false;
@@ -60,8 +69,11 @@ namespace FCDLightTools
 		// there's animation on the fallOffAngle only, so just need to copy the animation to the outterAngle as well
 		if (outerAngleCurve == NULL)
 		{
-			fallOffAngleAnimated->Clone(outerAngleAnimated);
-			FUAssert(outerAngleAnimated != NULL, return); // should not be null because we know fallOffAngle is animated
+			const FCDAnimationCurveTrackList& fallOffCurves = fallOffAngleAnimated->GetCurves()[0];
+			for (size_t i = 0; i < fallOffCurves.size(); ++i)
+			{
+				CopyCurve(fallOffCurves[i], outerAngleAnimated, const_cast<FCDAnimationCurve*>(fallOffCurves[i])->GetParent()->GetParent());
+			}
 			outerAngleAnimated->SetTargetObject(light);
 
 			// if we penumbra was negative, fallOffAngle needs to be lowered, else outerAngle needs to be raised
-- 
2.43.0


From f0ccb4e0207b3e4ca8a04266ee512a155d4234a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 190/209] fix: the fall-off angle which an animated penumbra
 requires gets a curve of its own

---
 FCollada/FCDocument/FCDLightTools.cpp | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/FCollada/FCDocument/FCDLightTools.cpp b/FCollada/FCDocument/FCDLightTools.cpp
index bc86374..cb149c6 100644
--- a/FCollada/FCDocument/FCDLightTools.cpp
+++ b/FCollada/FCDocument/FCDLightTools.cpp
@@ -143,25 +143,14 @@ namespace FCDLightTools
 		// at this point, we need curves for both fallOffAngle and outerAngle!
 		if (fallOffAngleCurve == NULL)
 		{
+			FCDAnimation* animation = outerAngleCurve->GetParent()->GetParent();
 			if (createAnimationChannel)
 			{
-				outerAngleValue.GetAnimated()->Clone(fallOffAngleAnimated);
-			}
-			FUAssert(fallOffAngleAnimated != NULL, return); // should not be null because outerAngle is animated
-			fallOffAngleAnimated->SetTargetObject(light);
-			fallOffAngleCurve = fallOffAngleAnimated->GetCurve(0);
-
-			if (fallOffAngleCurve == NULL)
-			{
-				FUAssert(createAnimationChannel, ;); // should only happen if we created new animated
-				fallOffAngleAnimated->RemoveCurve(0);
-				FCDAnimation* animation = light->GetDocument()->GetAnimationLibrary()->AddEntity();
+				animation = light->GetDocument()->GetAnimationLibrary()->AddEntity();
 				animation->SetDaeId("compensate_falloff_for_penumbra");
-				FCDAnimationChannel* channel = animation->AddChannel();
-				fallOffAngleCurve = channel->AddCurve();
-				outerAngleCurve->Clone(fallOffAngleCurve);
-				fallOffAngleAnimated->AddCurve(0, fallOffAngleCurve);
 			}
+			fallOffAngleAnimated->SetTargetObject(light);
+			fallOffAngleCurve = CopyCurve(outerAngleCurve, fallOffAngleAnimated, animation);
 
 			// remove the keys
 			FCDAnimationCurveTrackList& curves = fallOffAngleAnimated->GetCurves()[0];
-- 
2.43.0


From 329f12b60c59301963674a4eff26781703abecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 191/209] fix: looking for the time where an animated penumbra
 changes sign always ends

---
 FCollada/FCDocument/FCDLightTools.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDLightTools.cpp b/FCollada/FCDocument/FCDLightTools.cpp
index cb149c6..ecc70b2 100644
--- a/FCollada/FCDocument/FCDLightTools.cpp
+++ b/FCollada/FCDocument/FCDLightTools.cpp
@@ -229,8 +229,9 @@ namespace FCDLightTools
 
 				if ((isNegative && (key->output[1] > 0)) || (!isNegative && (key->output[1] < 0)))
 				{
-					hasFlip = true;
 					isNegative = !isNegative;
+					if (multiKeys[i-1]->interpolation == FUDaeInterpolation::STEP) continue; // the sign flips at the key
+					hasFlip = true;
 
 					// flip in sign, find out where to add the additional key using binary search
 					float higherTime = key->input;
@@ -241,6 +242,7 @@ namespace FCDLightTools
 					multiCurve->Evaluate(currentTime, output);
 					while (!IsEquivalent(output[1], 0.0f)) // while penumbra output != 0
 					{
+						if (currentTime <= lowerTime || currentTime >= higherTime) break; // as close as can be
 						if ((isNegative && (output[1] < 0)) || (!isNegative && (output[1] > 0)))
 						{
 							higherTime = currentTime;
-- 
2.43.0


From 18f900b2833f50aa6abfe5c8892930a112589ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:46 +0000
Subject: [PATCH 192/209] fix: LoadPenumbra releases the merged curves

---
 FCollada/FCDocument/FCDLightTools.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FCDocument/FCDLightTools.cpp b/FCollada/FCDocument/FCDLightTools.cpp
index ecc70b2..dfaea9a 100644
--- a/FCollada/FCDocument/FCDLightTools.cpp
+++ b/FCollada/FCDocument/FCDLightTools.cpp
@@ -291,6 +291,7 @@ namespace FCDLightTools
 			if (hasFlip)
 			{
 				// recompute the multiCurve with the intermediate values
+				SAFE_RELEASE(multiCurve);
 				multiCurve = FCDAnimationCurveTools::MergeCurves(multiCurveCurves, multiCurveValues);
 				dimension = multiCurve->GetDimension();
 				FUAssert(dimension == 2, return);
@@ -347,6 +348,7 @@ namespace FCDLightTools
 						offset + inTangentsOffset * (outerAngleBkey->inTangent.x - outerAngleBkey->input);
 			}
 		}
+		SAFE_RELEASE(multiCurve);
 
 		// flip the keys (and their tangents) if necessary
 		FCDAnimationKey** finalFallOffAngleKeys = fallOffAngleCurve->GetKeys();
-- 
2.43.0


From 493bee1425309be10fb899ce23b8cd33edb7f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:50 +0000
Subject: [PATCH 193/209] fix: sampled animations look for large turns in the
 curves of rotations

---
 FCollada/FCDocument/FCDSceneNodeTools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDSceneNodeTools.cpp b/FCollada/FCDocument/FCDSceneNodeTools.cpp
index e3a80a1..51a50a6 100644
--- a/FCollada/FCDocument/FCDSceneNodeTools.cpp
+++ b/FCollada/FCDocument/FCDSceneNodeTools.cpp
@@ -36,7 +36,8 @@ namespace FCDSceneNodeTools
 			FCDAnimated* animated = transform->GetAnimated();
 			if (animated != NULL)
 			{
-				if (animated->HasCurve()) animateds.push_back(animated);
+				if (!animated->HasCurve()) continue;
+				animateds.push_back(animated);
 
 				// Figure out whether this is a rotation and then, which animated value contains the angle.
 				if (!transform->HasType(FCDTRotation::GetClassType())) angleIndices.push_back(-1);
-- 
2.43.0


From 4cd9411f8136070c51e25df259bce62e7f880996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 194/209] fix: an open linear spline gives an open Bezier
 spline

---
 FCollada/FCDocument/FCDGeometrySpline.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometrySpline.cpp b/FCollada/FCDocument/FCDGeometrySpline.cpp
index 54d9fdc..9c2f37c 100644
--- a/FCollada/FCDocument/FCDGeometrySpline.cpp
+++ b/FCollada/FCDocument/FCDGeometrySpline.cpp
@@ -67,10 +67,7 @@ void FCDLinearSpline::ToBezier(FCDBezierSpline& bezier)
 	size_t count = cvs.size();
 	bool closed = IsClosed();
 
-	if (closed)
-	{
-		bezier.SetClosed(true);
-	}
+	bezier.SetClosed(closed);
 
 	for (size_t i = 0; i < count; i++)
 	{
-- 
2.43.0


From 14673218746c03d1842a8e196e9101ad1fd783ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 195/209] fix: a closed Bezier spline without segments gives no
 NURBS

---
 FCollada/FCDocument/FCDGeometrySpline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometrySpline.cpp b/FCollada/FCDocument/FCDGeometrySpline.cpp
index 9c2f37c..ccefc1f 100644
--- a/FCollada/FCDocument/FCDGeometrySpline.cpp
+++ b/FCollada/FCDocument/FCDGeometrySpline.cpp
@@ -144,7 +144,7 @@ void FCDBezierSpline::ToNURBs(FCDNURBSSplineList &toFill) const
 		toFill.push_back(nurb);
 	}
 
-	if (closed)
+	if (closed && nurbCount > 0)
 	{
 		// we still have one NURB to create
 		FCDNURBSSpline* nurb = new FCDNURBSSpline(const_cast<FCDocument*>(GetDocument()));
-- 
2.43.0


From a35703f042ec44918489fa644230d99831173bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:02 +0000
Subject: [PATCH 196/209] fix: text split by comments or CDATA sections is read
 whole

---
 FCollada/FUtils/FUXmlParser.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUXmlParser.cpp b/FCollada/FUtils/FUXmlParser.cpp
index 87a732b..1a4e71c 100644
--- a/FCollada/FUtils/FUXmlParser.cpp
+++ b/FCollada/FUtils/FUXmlParser.cpp
@@ -189,9 +189,27 @@ namespace FUXmlParser
 	// Returns the text content directly attached to a node
 	const char* ReadNodeContentDirect(xmlNode* node)
 	{
-		if (node == NULL || node->children == NULL
-			|| node->children->type != XML_TEXT_NODE || node->children->content == NULL) return emptyCharString;
-		return (const char*) node->children->content;
+		if (node == NULL) return emptyCharString;
+
+		// Comments, processing instructions and CDATA sections split the text:
+		// gather it within its first piece.
+		xmlNode* text = NULL;
+		for (xmlNode* child = node->children; child != NULL && child->type != XML_ELEMENT_NODE && child->type != XML_ENTITY_REF_NODE;)
+		{
+			xmlNode* next = child->next;
+			if (child->type == XML_TEXT_NODE || child->type == XML_CDATA_SECTION_NODE)
+			{
+				if (text == NULL) text = child;
+				else if (child->content != NULL)
+				{
+					xmlNodeAddContent(text, child->content);
+					xmlNodeSetContent(child, NULL);
+				}
+			}
+			child = next;
+		}
+		if (text == NULL || text->content == NULL) return emptyCharString;
+		return (const char*) text->content;
 	}
 
 	// Returns the inner text content of a node
-- 
2.43.0


From b679a8bc9ba678b83df8b53fc4f03fe53d4dff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 197/209] fix: channels created while importing a light have no
 driver to link

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 587e45a..8178fec 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -103,7 +103,7 @@ bool FArchiveXML::LinkAnimation(FCDAnimation* animation)
 	{
 		FCDAnimationChannel* channel = animation->GetChannel(i);
 		FCDAnimationChannelDataMap::iterator it = FArchiveXML::documentLinkDataMap[channel->GetDocument()].animationChannelData.find(channel);
-		FUAssert(it != FArchiveXML::documentLinkDataMap[channel->GetDocument()].animationChannelData.end(), continue);
+		if (it == FArchiveXML::documentLinkDataMap[channel->GetDocument()].animationChannelData.end()) continue; // created during the import
 		FCDAnimationChannelData& data = it->second;
 
 		if (!data.driverPointer.empty() && channel->GetCurveCount() > 0 && !channel->GetCurve(0)->HasDriver())
-- 
2.43.0


From 6f87a599ef6fae12cca36c9d6b37e5c5ff962f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:25 +0000
Subject: [PATCH 198/209] fix: a penumbra animated in steps remains so

---
 FCollada/FCDocument/FCDLightTools.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDLightTools.cpp b/FCollada/FCDocument/FCDLightTools.cpp
index dfaea9a..c183f80 100644
--- a/FCollada/FCDocument/FCDLightTools.cpp
+++ b/FCollada/FCDocument/FCDLightTools.cpp
@@ -165,11 +165,14 @@ namespace FCDLightTools
 				curves.at(i)->SetPreInfinity(FUDaeInfinity::CONSTANT);
 				curves.at(i)->SetPostInfinity(FUDaeInfinity::CONSTANT);
 
-				FCDAnimationKey* firstKey = curves.at(i)->AddKey(FUDaeInterpolation::LINEAR);
+				// steps remain steps when merged with a curve of steps
+				FUDaeInterpolation::Interpolation interpolation =
+						(outerAngleKeys[0]->interpolation == FUDaeInterpolation::STEP) ? FUDaeInterpolation::STEP : FUDaeInterpolation::LINEAR;
+				FCDAnimationKey* firstKey = curves.at(i)->AddKey(interpolation);
 				firstKey->input = outerAngleKeys[0]->input;
 				firstKey->output = (fallOffIsOuter)? light->GetOuterAngle() : light->GetFallOffAngle();
 
-				FCDAnimationKey* lastKey = curves.at(i)->AddKey(FUDaeInterpolation::LINEAR);
+				FCDAnimationKey* lastKey = curves.at(i)->AddKey(interpolation);
 				lastKey->input = outerAngleKeys[(outerAngleKeysCount > 1)? outerAngleKeysCount - 1 : 0]->input;
 				lastKey->output = (fallOffIsOuter)? light->GetOuterAngle() : light->GetFallOffAngle();
 			}
-- 
2.43.0


From 276babb97a8394aa39fb52d32633f181dd0ce4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 199/209] fix: the object of a technique plug-in is released
 with its extra tree

---
 FCollada/FCDocument/FCDExtra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDExtra.h b/FCollada/FCDocument/FCDExtra.h
index cfe671a..e22b1d5 100644
--- a/FCollada/FCDocument/FCDExtra.h
+++ b/FCollada/FCDocument/FCDExtra.h
@@ -441,7 +441,7 @@ class FCOLLADA_EXPORT FCDETechnique : public FCDENode
 private:
 	DeclareObjectType(FCDENode, FCDETechnique)
 
-	DeclareParameterPtr(FUTrackable, pluginOverride, FC("Plug-in Override Object"))
+	DeclareParameterRef(FUTrackable, pluginOverride, FC("Plug-in Override Object"))
 	DeclareParameter(fm::string, FUParameterQualifiers::SIMPLE, profile, FC("Profile Name"))
 
 public:
-- 
2.43.0


From 94efb92ad95bfbdf537abe2bf10392a7552881c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:40 +0000
Subject: [PATCH 200/209] fix: importing an object from data that is not XML
 fails

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 1c43c38..96753b1 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -540,7 +540,13 @@ bool FArchiveXML::EndExport(const fchar* UNUSED(filePath))
 bool FArchiveXML::ImportObject(FCDObject* object, const fm::vector<uint8>& data)
 {
 	FUXmlDocument loadDocument((const char*) data.begin(), data.size());
-	bool retVal = LoadSwitch(object, &object->GetObjectType(), loadDocument.GetRootNode());
+	xmlNode* rootNode = loadDocument.GetRootNode();
+	if (rootNode == NULL)
+	{
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MALFORMED_XML);
+		return false;
+	}
+	bool retVal = LoadSwitch(object, &object->GetObjectType(), rootNode);
 	if (FArchiveXML::loadedDocumentCount == 0)
 		FArchiveXML::ClearIntermediateData();
 	return retVal;
-- 
2.43.0


From 589ae392b5fa059041ed919e10bf1a2e2c60b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:43 +0000
Subject: [PATCH 201/209] fix: making a folder which exists succeeds

---
 FCollada/FUtils/FUFileManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FUtils/FUFileManager.cpp b/FCollada/FUtils/FUFileManager.cpp
index a2619f1..9b10720 100644
--- a/FCollada/FUtils/FUFileManager.cpp
+++ b/FCollada/FUtils/FUFileManager.cpp
@@ -219,6 +219,8 @@ bool FUFileManager::MakeDirectory(const fstring& directory)
 #elif defined(LINUX) || defined(__APPLE__)
 	if (mkdir(TO_STRING(absoluteDirectory).c_str(), std::numeric_limits<mode_t>::max()) == 0)
 		return true; // I think this means all permissions..
+	struct stat status;
+	if (errno == EEXIST && stat(TO_STRING(absoluteDirectory).c_str(), &status) == 0 && S_ISDIR(status.st_mode)) return true;
 #endif // WIN32
 
 	return false;
-- 
2.43.0


From 33408346ffd47d3183329ab7e4ce4e86c9792ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:54 +0000
Subject: [PATCH 202/209] fix: FindConvexHullOfMesh hung on meshes that are the
 convex hull of each other

---
 FCollada/FCDocument/FCDGeometryMesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FCDocument/FCDGeometryMesh.cpp b/FCollada/FCDocument/FCDGeometryMesh.cpp
index 30a04d2..459f3d3 100644
--- a/FCollada/FCDocument/FCDGeometryMesh.cpp
+++ b/FCollada/FCDocument/FCDGeometryMesh.cpp
@@ -65,8 +65,11 @@ void FCDGeometryMesh::SetConvexHullOf(FCDGeometry* _geom)
 const FCDGeometryMesh* FCDGeometryMesh::FindConvexHullOfMesh() const
 {
 	const FCDGeometryMesh* mesh = this;
+	size_t remaining = GetDocument()->GetGeometryLibrary()->GetEntityCount();
 	while ((mesh != NULL) && !mesh->GetConvexHullOf().empty())
 	{
+		// Meshes that are the convex hull of each other have no source mesh.
+		if (remaining-- == 0) return NULL;
 		const FCDocument* document = mesh->GetDocument();
 		const FCDGeometry* geometry = document->GetGeometryLibrary()->
 				FindDaeId(mesh->GetConvexHullOf());
-- 
2.43.0


From 0355eb36feaf13a8ab9194a1b2864fb0a9820996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 203/209] fix: find the code of a cloned shader by its place,
 and clone techniques that have no profile

---
 FCollada/FCDocument/FCDEffectPassShader.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDEffectPassShader.cpp b/FCollada/FCDocument/FCDEffectPassShader.cpp
index 7f0e87b..30320ae 100644
--- a/FCollada/FCDocument/FCDEffectPassShader.cpp
+++ b/FCollada/FCDocument/FCDEffectPassShader.cpp
@@ -99,8 +99,24 @@ FCDEffectPassShader* FCDEffectPassShader::Clone(FCDEffectPassShader* clone) cons
 	// Look for the new code within the parent.
 	if (code != NULL)
 	{
-		clone->code = clone->parent->GetParent()->FindCode(code->GetSubId());
-		if (clone->code == NULL) clone->code = clone->parent->GetParent()->GetParent()->FindCode(code->GetSubId());
+		clone->code = NULL;
+
+		FCDEffectTechnique* technique = (parent != NULL) ? parent->GetParent() : NULL;
+		FCDEffectTechnique* cloneTechnique = (clone->parent != NULL) ? clone->parent->GetParent() : NULL;
+		FCDEffectProfileFX* profile = (technique != NULL) ? technique->GetParent() : NULL;
+		FCDEffectProfileFX* cloneProfile = (cloneTechnique != NULL) ? cloneTechnique->GetParent() : NULL;
+
+		// The codes are cloned in order: sub-ids may be shared by the technique and its profile.
+		for (size_t c = 0; technique != NULL && cloneTechnique != NULL && c < technique->GetCodeCount() && c < cloneTechnique->GetCodeCount(); ++c)
+		{
+			if (technique->GetCode(c) == code && cloneTechnique->GetCode(c)->GetSubId() == code->GetSubId()) clone->code = cloneTechnique->GetCode(c);
+		}
+		for (size_t c = 0; profile != NULL && cloneProfile != NULL && c < profile->GetCodeCount() && c < cloneProfile->GetCodeCount(); ++c)
+		{
+			if (profile->GetCode(c) == code && cloneProfile->GetCode(c)->GetSubId() == code->GetSubId()) clone->code = cloneProfile->GetCode(c);
+		}
+		if (clone->code == NULL && cloneTechnique != NULL) clone->code = cloneTechnique->FindCode(code->GetSubId());
+		if (clone->code == NULL && cloneProfile != NULL) clone->code = cloneProfile->FindCode(code->GetSubId());
 	}
 	return clone;
 }
-- 
2.43.0


From 5d691d2da129427563fee69a2369729a8a163fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:19 +0000
Subject: [PATCH 204/209] fix: selecting a clip on the clone of a curve that
 another clip had moved used the wrong offset

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 923f096..f62ad94 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -262,6 +262,9 @@ FCDAnimationCurve* FCDAnimationCurve::Clone(FCDAnimationCurve* clone, bool inclu
 	clone->inputDriver = inputDriver;
 	clone->inputDriverIndex = inputDriverIndex;
 
+	// The keys were copied as the current clip has them.
+	clone->currentOffset = currentOffset;
+
 	if (includeClips)
 	{
 		// Animation clips that depend on this curve
-- 
2.43.0


From 49fd411c040be85d11602155def57346adc639fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 205/209] fix: the clone of an animation clip lost the offsets
 of its curves

---
 FCollada/FCDocument/FCDAnimationClip.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationClip.cpp b/FCollada/FCDocument/FCDAnimationClip.cpp
index 0ced7d2..02784dd 100644
--- a/FCollada/FCDocument/FCDAnimationClip.cpp
+++ b/FCollada/FCDocument/FCDAnimationClip.cpp
@@ -78,6 +78,12 @@ FCDEntity* FCDAnimationClip::Clone(FCDEntity* _clone, bool cloneChildren) const
 				FCDAnimationCurve* clonedCurve = const_cast<FCDAnimationCurve*>(*it)->GetParent()->AddCurve();
 				(*it)->Clone(clonedCurve, false);
 				clone->AddClipCurve(clonedCurve);
+
+				// The clip may have been moved since the curve was added.
+				for (size_t i = 0; i < (*it)->GetClipCount(); ++i)
+				{
+					if ((*it)->GetClip(i) == this) clonedCurve->SetClipOffset((*it)->GetClipOffset(i), clone);
+				}
 			}
 		}
 	}
-- 
2.43.0


From cd8f14875fc01a878c208fbe1464c9dade81e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 206/209] fix: the indices of a face that was added were not
 set to zero

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index d50ce5b..748bff9 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -65,12 +65,18 @@ void FCDGeometryPolygons::AddFace(uint32 degree)
 	for (size_t i = 0; i < inputCount; ++i)
 	{
 		FCDGeometryPolygonsInput* input = inputs[i];
-		if (!newPolygonSet && input->OwnsIndices()) input->SetIndexCount(input->GetIndexCount() + degree);
-		else if (newPolygonSet && input->GetIndexCount() == 0)
+		size_t oldIndexCount = input->GetIndexCount();
+		if (!newPolygonSet && input->OwnsIndices()) input->SetIndexCount(oldIndexCount + degree);
+		else if (newPolygonSet && oldIndexCount == 0)
 		{
 			// Declare this input as the owner!
 			input->SetIndexCount(degree);
 		}
+		else continue;
+
+		// SetIndexCount leaves the new indices uninitialized.
+		uint32* indices = input->GetIndices();
+		for (uint32 d = 0; d < degree; ++d) indices[oldIndexCount + d] = 0;
 	}
 
 	parent->Recalculate();
-- 
2.43.0


From 3119f5b9c46f97b44d001bb4028353baf9da8bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 207/209] fix: removing a face wrote outside of index lists
 which are shorter than the faces

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 748bff9..717bd70 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -100,13 +100,16 @@ void FCDGeometryPolygons::RemoveFace(size_t index)
 		size_t inputIndexCount = input->GetIndexCount();
 		if (offset < inputIndexCount)
 		{
+			// The list of indices may be shorter than the faces say.
+			size_t removedCount = min(indexCount, inputIndexCount - offset);
+
 			// Move the indices backwards.
 			uint32* indices = input->GetIndices();
-			for (size_t o = offset; o < inputIndexCount - indexCount; ++o)
+			for (size_t o = offset; o < inputIndexCount - removedCount; ++o)
 			{
-				indices[o] = indices[o + indexCount];
+				indices[o] = indices[o + removedCount];
 			}
-			input->SetIndexCount(max(offset, inputIndexCount - indexCount));
+			input->SetIndexCount(inputIndexCount - removedCount);
 		}
 	}
 
-- 
2.43.0


From 6840ad1404c345c78dc195d8cefc1fe8b3977ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:20 +0000
Subject: [PATCH 208/209] fix: cloned polygon sets lost inputs which use the
 same source and crashed on inputs without one

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 717bd70..092debd 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -322,8 +322,13 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 	// Note that the vertex source inputs are usually created by default.
 	size_t inputCount = inputs.size();
 	clone->inputs.reserve(inputCount);
+	FCDGeometryPolygonsInputList availableInputs;
+	for (size_t i = 0; i < clone->GetInputCount(); ++i) availableInputs.push_back(clone->GetInput(i));
 	for (size_t i = 0; i < inputCount; ++i)
 	{
+		// The source of this input may have been released.
+		if (inputs[i]->GetSource() == NULL) continue;
+
 		// Find the cloned source that correspond to the original input.
 		FCDGeometrySource* cloneSource = NULL;
 		FCDGeometrySourceCloneMap::const_iterator it = cloneMap.find(inputs[i]->GetSource());
@@ -339,7 +344,16 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 		}
 
 		// Retrieve or create the input to clone.
-		FCDGeometryPolygonsInput* input = clone->FindInput(cloneSource);
+		// A source may be used by several inputs: each of them has a clone of its own.
+		FCDGeometryPolygonsInput* input = NULL;
+		for (FCDGeometryPolygonsInput** itA = availableInputs.begin(); itA != availableInputs.end(); ++itA)
+		{
+			if ((*itA)->GetSource() != cloneSource) continue;
+			input = (*itA);
+			input->SetOffset(inputs[i]->GetOffset());
+			availableInputs.erase(itA);
+			break;
+		}
 		if (input == NULL)
 		{
 			input = clone->AddInput(cloneSource, inputs[i]->GetOffset());
-- 
2.43.0


From 496ff455e533439d3513fbcbd8d19e87b06bfd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:17 +0000
Subject: [PATCH 209/209] fix: an input whose source is released hands its
 index list to the inputs sharing it

---
 FCollada/FCDocument/FCDGeometryPolygonsInput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
index ebc05e5..aa58448 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
@@ -57,7 +57,8 @@ void FCDGeometryPolygonsInput::SetSource(FCDGeometrySource* _source)
 // Callback when the tracked source is released.
 void FCDGeometryPolygonsInput::OnObjectReleased(FUTrackable* object)
 {
-	if (source == object)
+	// The tracked pointer may have been notified first, in which case it is already cleared.
+	if (source == object || source == NULL)
 	{
 		source = NULL;
 		ReleaseIndices();
-- 
2.43.0

