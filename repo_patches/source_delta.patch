From 63928ee55b584d0fac6d2dfa8444da927345246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 001/190] fix: Entry::insertBefore links the following entry
 back to the new one

---
 lib/include/spvgentwo/Entry.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Entry.h b/lib/include/spvgentwo/Entry.h
index eed12eb..f05645c 100644
--- a/lib/include/spvgentwo/Entry.h
+++ b/lib/include/spvgentwo/Entry.h
@@ -167,7 +167,9 @@ namespace spvgentwo
 
 		entry->m_pPrev = m_pPrev;
 		entry->m_pNext = this;
-		
+
+		m_pPrev = entry;
+
 		return entry;
 	}
 
-- 
2.43.0


From e1ad671b40cc8cfc9911b54d910808822b232559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 002/190] fix: List copy assignment unlinks the surplus
 elements and adopts a missing allocator

---
 lib/include/spvgentwo/List.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index a8339bf..2026ced 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -182,11 +182,13 @@ namespace spvgentwo
 		}
 
 		// left side was longer, destroy rest
-		if(l != le)
+		while (l != le)
 		{
-			l.entry()->destroyList(m_pAllocator);
+			l = erase(l);
 		}
 
+		setAllocator(_other.m_pAllocator);
+
 		// right side was longer, emplace
 		for (; r != re; ++r)
 		{
-- 
2.43.0


From 76ddd1da2ab90407cb2f2d379f14a68e85e89c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 003/190] fix: List keeps its links and size when an entry
 could not be allocated

---
 lib/include/spvgentwo/List.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index 2026ced..a9c3998 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -240,6 +240,11 @@ namespace spvgentwo
 	template<class T>
 	inline Entry<T>* List<T>::prepend_entry(Entry<T>* _entry)
 	{
+		if (_entry == nullptr)
+		{
+			return nullptr;
+		}
+
 		if (m_pBegin == nullptr)
 		{
 			m_pBegin = _entry;
@@ -256,6 +261,11 @@ namespace spvgentwo
 	template<class T>
 	inline Entry<T>* List<T>::append_entry(Entry<T>* _entry)
 	{
+		if (_entry == nullptr)
+		{
+			return nullptr;
+		}
+
 		if (m_pBegin == nullptr)
 		{
 			m_pBegin = _entry;
@@ -301,8 +311,12 @@ namespace spvgentwo
 	template<class ...Args>
 	inline Entry<T>* List<T>::insert_before(Iterator _pos, Args&& ..._args)
 	{
-		++m_Elements;
 		Entry<T>* entry = _pos.entry()->insertBefore(m_pAllocator, stdrep::forward<Args>(_args)...);
+		if (entry == nullptr)
+		{
+			return nullptr;
+		}
+		++m_Elements;
 		if (_pos.entry() == m_pBegin)
 		{
 			m_pBegin = entry;
@@ -314,8 +328,12 @@ namespace spvgentwo
 	template<class ...Args>
 	inline Entry<T>* List<T>::insert_after(Iterator _pos, Args&& ..._args)
 	{
-		++m_Elements;
 		Entry<T>* entry = _pos.entry()->insertAfter(m_pAllocator, stdrep::forward<Args>(_args)...);
+		if (entry == nullptr)
+		{
+			return nullptr;
+		}
+		++m_Elements;
 		if (_pos.entry() == m_pLast)
 		{
 			m_pLast = entry;
-- 
2.43.0


From df964896bf31d34c0fd4c8e51e43b116a45ebc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 004/190] fix: Vector::resize sets the requested size and
 constructs elements that fit the capacity

---
 lib/include/spvgentwo/Vector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index d09c989..036c593 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -263,7 +263,7 @@ namespace spvgentwo
 	template<class U>
 	inline bool Vector<U>::resize(sgt_size_t _size, const T* _pInitValue)
 	{
-		if ( _size > m_capacity )
+		if ( _size > m_elements ) // grow
 		{
 			if ( reserve(_size) == false )
 			{
@@ -272,14 +272,14 @@ namespace spvgentwo
 
 			if ( _pInitValue == nullptr || stdrep::is_copy_constructible_v<T> == false )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{};
 				}
 			}
 			else if constexpr ( stdrep::is_copy_constructible_v<T> )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{ *_pInitValue };
 				}
@@ -294,7 +294,7 @@ namespace spvgentwo
 			}
 		}
 
-		m_elements = m_capacity;
+		m_elements = _size;
 
 		return true;
 	}
-- 
2.43.0


From 346fcb0f92d7f7edbe05fb2ff0d26d0765fef530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 005/190] fix: Vector copy assignment adopts the allocator when
 it has none

---
 lib/include/spvgentwo/Vector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 036c593..da691c5 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -192,6 +192,11 @@ namespace spvgentwo
 	{
 		if ( this == &_other ) return *this;
 
+		if ( m_pAllocator == nullptr )
+		{
+			m_pAllocator = _other.m_pAllocator;
+		}
+
 		if ( resize(_other.m_elements) )
 		{
 			for ( sgt_size_t i = 0u; i < _other.m_elements; ++i )
-- 
2.43.0


From 4cef7d927b1c81e5788af6db207a0f5483a32cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 006/190] fix: Vector::assign stays within the elements for
 every position and count

---
 lib/include/spvgentwo/Vector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index da691c5..71718be 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -319,7 +319,12 @@ namespace spvgentwo
 	template<class U>
 	inline void Vector<U>::assign(const T& _data, sgt_size_t _pos, sgt_size_t _count)
 	{
-		if ( _pos + _count > m_elements )
+		if ( _pos >= m_elements )
+		{
+			return;
+		}
+
+		if ( _count > m_elements - _pos )
 		{
 			_count = m_elements - _pos;
 		}
-- 
2.43.0


From d03a78d8d0505a3937afe337f2264914ad042165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 007/190] fix: Vector::insert shifts overlapping elements,
 destructs moved ones and reports a missing allocator

---
 lib/include/spvgentwo/Vector.h | 42 ++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 71718be..9256f2f 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -354,25 +354,42 @@ namespace spvgentwo
 		{
 			auto remainder = m_elements - _pos;
 
-			// move-construct last remainder elements to reserved but un-initialized data at the end
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
+			// move the last remainder elements back by _count, beginning with the last one, so that none is overwritten
+			for ( sgt_size_t i = remainder; i > 0u; --i )
 			{
-				traits::constructWithArgs(m_pData + _pos + _count + i, stdrep::move(m_pData[_pos + i]));
-			}
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
-			{
-				m_pData[_pos + i] = _pData[i];
+				const sgt_size_t from = _pos + i - 1u;
+				const sgt_size_t to = from + _count;
+
+				if ( to >= m_elements ) // reserved but un-initialized data at the end
+				{
+					traits::constructWithArgs(m_pData + to, stdrep::move(m_pData[from]));
+				}
+				else if ( to != from )
+				{
+					m_pData[to] = stdrep::move(m_pData[from]);
+				}
 			}
-			auto rest = _count - remainder;
-			for ( sgt_size_t i = 0u; i < rest; ++i )
+			for ( sgt_size_t i = 0u; i < _count; ++i )
 			{
-				traits::constructWithArgs(m_pData + m_elements + i, stdrep::move(_pData[remainder + i]));
+				if ( _pos + i < m_elements )
+				{
+					m_pData[_pos + i] = _pData[i];
+				}
+				else
+				{
+					traits::constructWithArgs(m_pData + _pos + i, _pData[i]);
+				}
 			}
 
 			m_elements += _count;
 		}
 		else
 		{
+			if ( m_pAllocator == nullptr )
+			{
+				return nullptr;
+			}
+
 			const auto newSize = m_elements + _count;
 			const auto newCapacity = newSize + (newSize >> 2); // grow by 1.25
 
@@ -402,6 +419,11 @@ namespace spvgentwo
 
 			if ( m_pData != nullptr )
 			{
+				// free old data
+				for ( sgt_size_t i = 0u; i < m_elements; ++i )
+				{
+					m_pData[i].~T();
+				}
 				m_pAllocator->deallocate(m_pData, m_capacity * sizeof(T));
 			}
 
-- 
2.43.0


From f9bcd3341e832b99879d0df7a1b6473739262d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 008/190] fix: String terminates text of explicit length,
 substr stays inside the string

---
 lib/include/spvgentwo/String.h |  2 +-
 lib/source/String.cpp          | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 6578866..4978480 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -45,7 +45,7 @@ namespace spvgentwo
 
 		constexpr String(String&& _other) noexcept : Vector(stdrep::move(_other)) {}
 
-		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator, _pStr, _length == 0u ? stringLength(_pStr) : _length) {};
+		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator) { append(_pStr, _length); };
 
 		String& operator=(const String& _other) { Vector::operator=(_other); return *this; }
 		String& operator=(String&& _other) noexcept { Vector::operator=(stdrep::move(_other)); return *this; }
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 0452f5b..b11a907 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -19,7 +19,11 @@ spvgentwo::String& spvgentwo::String::operator=(const char* _pStr)
 
 spvgentwo::String spvgentwo::String::substr(sgt_size_t _offset, sgt_size_t _length)
 {
-	const sgt_size_t available = m_elements - _offset;
+	if (_length == 0u || _offset >= size())
+	{
+		return String(m_pAllocator);
+	}
+	const sgt_size_t available = size() - _offset;
 	return String(m_pAllocator, m_pData+_offset, _length > available ? available : _length);
 }
 
@@ -61,7 +65,7 @@ spvgentwo::String& spvgentwo::String::operator+=(const char* _pStr)
 spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _length)
 {
 	const sgt_size_t length = _length == 0u ? stringLength(_pStr) : _length;
-	if (reserve(m_elements + length))
+	if (length != 0u && reserve(m_elements + length + 1u))
 	{
 		// we only want one string terminator, overwrite the old one an append
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
@@ -70,6 +74,11 @@ spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _leng
 			m_pData[offset + i] = _pStr[i];
 		}
 		m_elements = offset + length;
+
+		if (m_pData[m_elements - 1u] != '\0') // _length may exclude the terminator
+		{
+			m_pData[m_elements++] = '\0';
+		}
 	}
 	return *this;
 }
-- 
2.43.0


From 94d2798d6bbc8f70eab22ce31d35d0a667472dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 009/190] fix: String::operator+= keeps the terminator when a
 string is appended to itself

---
 lib/source/String.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index b11a907..0686751 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -48,11 +48,12 @@ spvgentwo::String& spvgentwo::String::operator+=(const String& _other)
 	if (reserve(m_elements + _other.m_elements))
 	{
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
-		for (sgt_size_t i = 0; i < _other.m_elements; ++i)
+		const sgt_size_t length = _other.m_elements; // _other might be this string
+		for (sgt_size_t i = 0; i < length; ++i)
 		{
-			m_pData[offset + i] = _other[i];
+			m_pData[offset + i] = &_other == this && i + 1u == length ? '\0' : _other[i];
 		}
-		m_elements = offset + _other.m_elements;
+		m_elements = offset + length;
 	}
 	return *this;
 }
-- 
2.43.0


From 8dedd4a3c6529cabce865753b9590b52ab5a292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 010/190] fix: String::insert terminates empty strings and
 rejects positions behind the terminator

---
 lib/include/spvgentwo/String.h |  2 +-
 lib/source/String.cpp          | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 4978480..d650e52 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -78,7 +78,7 @@ namespace spvgentwo
 		// don't insert the additional string terminator from _pCStr
 		Iterator insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length = 0u);
 
-		Iterator insert(sgt_size_t _pos, const String& _str) { return Vector::insert(_pos, _str.data(), _str.size()); }
+		Iterator insert(sgt_size_t _pos, const String& _str);
 
 		bool operator==(const String& _other) const;
 		bool operator==(const char* _pStr) const;
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 0686751..e75ba11 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -115,7 +115,18 @@ bool spvgentwo::String::operator==(const char* _pStr) const
 
 spvgentwo::String::Iterator spvgentwo::String::insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length)
 {
-	auto ret = Vector::insert(_pos, _pCStr, _length == 0u ? (stringLength(_pCStr) - 1u) : _length);
+	if (m_elements != 0u && _pos > size()) // text can not follow the terminator
+	{
+		return nullptr;
+	}
+
+	const sgt_size_t length = _length == 0u && _pCStr != nullptr ? (stringLength(_pCStr) - 1u) : _length;
+	if (reserve(m_elements + length + 1u) == false) // including the terminator
+	{
+		return nullptr;
+	}
+
+	auto ret = Vector::insert(_pos, _pCStr, length);
 
 	if (m_elements != 0u && m_pData[m_elements - 1u] != '\0')
 	{
@@ -123,4 +134,9 @@ spvgentwo::String::Iterator spvgentwo::String::insert(sgt_size_t _pos, const cha
 		Vector::insert(m_elements, '\0');
 	}
 	return ret;
+}
+
+spvgentwo::String::Iterator spvgentwo::String::insert(sgt_size_t _pos, const String& _str)
+{
+	return _str.size() == 0u ? insert(_pos, "") : insert(_pos, _str.data(), _str.size());
 }
\ No newline at end of file
-- 
2.43.0


From ac432a2a7fdbcd675b2d39da9e126d2a6a96c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 011/190] fix: String comparison treats an unallocated empty
 string like an empty literal

---
 lib/source/String.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index e75ba11..d7ec3a4 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -86,9 +86,9 @@ spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _leng
 
 bool spvgentwo::String::operator==(const String& _other) const
 {
-	if (m_elements == _other.m_elements)
+	if (size() == _other.size())
 	{
-		for (sgt_size_t i = 0u; i < m_elements; ++i)
+		for (sgt_size_t i = 0u; i < size(); ++i)
 		{
 			if (m_pData[i] != _other.m_pData[i])
 				return false;
@@ -101,9 +101,9 @@ bool spvgentwo::String::operator==(const String& _other) const
 bool spvgentwo::String::operator==(const char* _pStr) const
 {
 	const sgt_size_t length = stringLength(_pStr);
-	if (m_elements == length)
+	if (size() == (length == 0u ? 0u : length - 1u))
 	{
-		for (sgt_size_t i = 0; i < m_elements; ++i)
+		for (sgt_size_t i = 0; i < size(); ++i)
 		{
 			if (m_pData[i] != _pStr[i])
 				return false;
-- 
2.43.0


From fd1f4a0a8d4b0bcf1f312d096f55776e298feebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 012/190] fix: String::clear terminates the retained buffer

---
 lib/include/spvgentwo/String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index d650e52..3a70efa 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -62,6 +62,9 @@ namespace spvgentwo
 		constexpr T& back() { return m_pData[m_elements - 2u]; }
 		constexpr const T& back() const { return m_pData[m_elements - 2u]; }
 
+		// keeps c_str() valid, does not deallocate
+		void clear() { Vector::clear(); if (m_pData != nullptr) { m_pData[0] = '\0'; } }
+
 		String substr(sgt_size_t _offset, sgt_size_t _length);
 
 		String operator+(const String& _other) const;
-- 
2.43.0


From 4fc43e24df17316518efcc0d0476cd3db7c69919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 013/190] fix: String::emplace_back keeps the string terminated
 when memory runs out

---
 lib/include/spvgentwo/String.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 3a70efa..8791096 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -110,6 +110,10 @@ namespace spvgentwo
 	{
 		if(m_elements == 0 || Vector::back() != '\0')
 		{
+			if (reserve(m_elements + 2u) == false) // element and terminator
+			{
+				return nullptr;
+			}
 			Vector::emplace_back(stdrep::forward<Arg>(_arg));
 			Vector::emplace_back('\0');
 			return &back();
-- 
2.43.0


From 28cfdd702351606f7490ee1d0324e8697cf18c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 014/190] fix: constructing a Vector from an array no longer
 selects the pointer overload with size 0

---
 common/include/common/HeapVector.h | 2 +-
 lib/include/spvgentwo/Vector.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/HeapVector.h b/common/include/common/HeapVector.h
index 9cb8a44..cdd922f 100644
--- a/common/include/common/HeapVector.h
+++ b/common/include/common/HeapVector.h
@@ -20,7 +20,7 @@ namespace spvgentwo
 		HeapVector(sgt_size_t _size = 0u) : Vector<U>(HeapAllocator::instance(), _size) {}
 
 		// copy from array
-		HeapVector(const T* _pData, sgt_size_t _size = 0u) : Vector<U>(HeapAllocator::instance(), _pData, _size) {}
+		HeapVector(const T* _pData, sgt_size_t _size) : Vector<U>(HeapAllocator::instance(), _pData, _size) {}
 
 		template <sgt_size_t Size>
 		HeapVector(const T(&_array)[Size]) : Vector<U>(HeapAllocator::instance(), _array) {}
diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 9256f2f..bcc8446 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -19,7 +19,7 @@ namespace spvgentwo
 		Vector(IAllocator* _pAllocator, sgt_size_t _size);
 
 		// copy from array
-		Vector(IAllocator* _pAllocator, const T* _pData, sgt_size_t _size = 0u);
+		Vector(IAllocator* _pAllocator, const T* _pData, sgt_size_t _size);
 
 		template <sgt_size_t Size>
 		Vector(IAllocator* _pAllocator, const T(&_array)[Size]);
-- 
2.43.0


From 368d08ae79291d8c1cd74a00079bc7930d3c9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 015/190] fix: String keeps its terminator when an unallocated
 empty string is appended, inserted or assigned

---
 lib/include/spvgentwo/String.h | 2 +-
 lib/source/String.cpp          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 8791096..34e3346 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -47,7 +47,7 @@ namespace spvgentwo
 
 		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator) { append(_pStr, _length); };
 
-		String& operator=(const String& _other) { Vector::operator=(_other); return *this; }
+		String& operator=(const String& _other) { Vector::operator=(_other); if (m_elements == 0u) { clear(); } return *this; }
 		String& operator=(String&& _other) noexcept { Vector::operator=(stdrep::move(_other)); return *this; }
 
 		String& operator=(const char* _pStr);
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index d7ec3a4..edfeeab 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -45,7 +45,7 @@ spvgentwo::String spvgentwo::String::operator+(const char* _pStr) const
 
 spvgentwo::String& spvgentwo::String::operator+=(const String& _other)
 {
-	if (reserve(m_elements + _other.m_elements))
+	if (_other.m_elements != 0u && reserve(m_elements + _other.m_elements))
 	{
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
 		const sgt_size_t length = _other.m_elements; // _other might be this string
@@ -128,7 +128,7 @@ spvgentwo::String::Iterator spvgentwo::String::insert(sgt_size_t _pos, const cha
 
 	auto ret = Vector::insert(_pos, _pCStr, length);
 
-	if (m_elements != 0u && m_pData[m_elements - 1u] != '\0')
+	if (m_elements == 0u || m_pData[m_elements - 1u] != '\0')
 	{
 		// append string terminator if necessar
 		Vector::insert(m_elements, '\0');
-- 
2.43.0


From ba8c589a3f76a8654f9c2730db6a1d9b72818a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 016/190] fix: HashMap keeps entries of one key adjacent so
 that getRange covers exactly them

---
 lib/include/spvgentwo/HashMap.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index d29619f..d61dfe3 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -350,23 +350,34 @@ namespace spvgentwo
 	template<class ...Args>
 	inline typename HashMap<Key, Value>::Node& HashMap<Key, Value>::emplace(const Key& _key, Args&& ..._args)
 	{
-		Entry<Node>* pNode = Entry<Node>::create(m_pAllocator, _key, stdrep::forward<Args>(_args)...);
-
-		Node& n = pNode->inner();
+		Hash64 h = 0u;
 
 		if constexpr (stdrep::is_same_v<Key, Hash64>)
 		{
-			n.hash = _key;
+			h = _key;
 		}
 		else
 		{
-			n.hash = m_pHashFunc(_key);
+			h = m_pHashFunc(_key);
 		}
 
-		const auto index = n.hash % m_Buckets;
+		const auto index = h % m_Buckets;
+		Bucket& bucket = m_pBuckets[index];
+
+		// nodes of the same key must be adjacent, getRange() returns them as [first, last]
+		auto pos = bucket.last();
+		while (pos != nullptr && pos->hash != h)
+		{
+			--pos;
+		}
 
 		// append to chain
-		m_pBuckets[index].append_entry(pNode);
+		Entry<Node>* pNode = pos == nullptr ?
+			bucket.emplace_back_entry(_key, stdrep::forward<Args>(_args)...) :
+			bucket.insert_after(pos, _key, stdrep::forward<Args>(_args)...);
+
+		Node& n = pNode->inner();
+		n.hash = h;
 
 		++m_Elements;
 
-- 
2.43.0


From 8306a9156c142a589f6797939220972550f3f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 017/190] fix: HashMap lookups answer for maps without buckets
 and for Hash64 keys

---
 lib/include/spvgentwo/HashMap.h | 55 ++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index d61dfe3..e0ae730 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -51,16 +51,26 @@ namespace spvgentwo
 
 		// only enable overload of Key type differs from Hash64
 		template <class T = Key, typename = stdrep::enable_if_t<stdrep::is_same_v<T, Key> && !stdrep::is_same_v<T, Hash64>>>
-		Value* get(const T& _key) const { return get(m_pHashFunc(_key)); }
+		Value* get(const T& _key) const { return m_Buckets == 0u ? nullptr : get(m_pHashFunc(_key)); }
 
 		// retuns nullptr if not resident
-		Value* operator[](const Key& _key) const { return get(m_pHashFunc(_key)); }
+		Value* operator[](const Key& _key) const
+		{
+			if constexpr (stdrep::is_same_v<Key, Hash64>)
+			{
+				return get(_key);
+			}
+			else
+			{
+				return m_Buckets == 0u ? nullptr : get(m_pHashFunc(_key));
+			}
+		}
 
 		TRange getRange(const Hash64 _hash) const;
 
 		// only enable overload of Key type differs from Hash64
 		template <class T = Key, typename = stdrep::enable_if_t<stdrep::is_same_v<T, Key> && !stdrep::is_same_v<T, Hash64>>>
-		TRange getRange(const T& _key) const { return getRange(m_pHashFunc(_key)); }
+		TRange getRange(const T& _key) const { return m_Buckets == 0u ? TRange{} : getRange(m_pHashFunc(_key)); }
 
 		Iterator find(const Key& _key) const;
 
@@ -73,7 +83,9 @@ namespace spvgentwo
 		unsigned int eraseRange(const Key& _key);
 
 		unsigned int count(const Hash64 _hash) const;
-		unsigned int count(const Key& _key) const { return count(m_pHashFunc(_key)); }
+		// only enable overload of Key type differs from Hash64
+		template <class T = Key, typename = stdrep::enable_if_t<stdrep::is_same_v<T, Key> && !stdrep::is_same_v<T, Hash64>>>
+		unsigned int count(const T& _key) const { return m_Buckets == 0u ? 0u : count(m_pHashFunc(_key)); }
 
 		constexpr const Bucket& getBucket(const unsigned int _index) const { return m_pBuckets[_index]; }
 		constexpr unsigned int getBucketCount() const { return m_Buckets; }
@@ -103,6 +115,14 @@ namespace spvgentwo
 		if (m_pAllocator != nullptr)
 		{
 			m_pBuckets = static_cast<Bucket*>(m_pAllocator->allocate(m_Buckets * sizeof(Bucket), alignof(Bucket)));
+		}
+
+		if (m_pBuckets == nullptr)
+		{
+			m_Buckets = 0u;
+		}
+		else
+		{
 			for (auto i = 0u; i < m_Buckets; ++i)
 			{
 				new(m_pBuckets + i) Bucket(m_pAllocator);
@@ -137,6 +157,7 @@ namespace spvgentwo
 			m_pAllocator->deallocate(m_pBuckets, m_Buckets * sizeof(Bucket));
 			m_pBuckets = nullptr;
 			m_pAllocator = nullptr;
+			m_Buckets = 0u;
 			m_Elements = 0u;
 			m_pHashFunc = nullptr;
 		}
@@ -187,6 +208,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline Value* HashMap<Key, Value>::get(const Hash64 _hash) const
 	{
+		if (m_Buckets == 0u)
+		{
+			return nullptr;
+		}
+
 		const auto index = _hash % m_Buckets;
 
 		for (Node& n : m_pBuckets[index])
@@ -201,6 +227,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline typename HashMap<Key, Value>::TRange HashMap<Key, Value>::getRange(const Hash64 _hash) const
 	{
+		if (m_Buckets == 0u)
+		{
+			return {};
+		}
+
 		const auto index = _hash % m_Buckets;
 		const Bucket& bucket = m_pBuckets[index];
 
@@ -240,6 +271,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline unsigned int HashMap<Key, Value>::eraseRange(const Key& _key)
 	{
+		if (m_Buckets == 0u)
+		{
+			return 0u;
+		}
+
 		Hash64 h = 0u;
 
 		if constexpr (stdrep::is_same_v<Key, Hash64>)
@@ -276,6 +312,12 @@ namespace spvgentwo
 	inline unsigned int HashMap<Key, Value>::count(const Hash64 _hash) const
 	{
 		unsigned int keys = 0u;
+
+		if (m_Buckets == 0u)
+		{
+			return keys;
+		}
+
 		const auto index = _hash % m_Buckets;
 
 		for (const Node& n : m_pBuckets[index])
@@ -292,6 +334,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline typename HashMap<Key, Value>::Iterator HashMap<Key, Value>::find(const Key& _key) const
 	{
+		if (m_Buckets == 0u)
+		{
+			return end();
+		}
+
 		Hash64 h = 0u;
 
 		if constexpr (stdrep::is_same_v<Key, Hash64>)
-- 
2.43.0


From 912c56d75877372cad19f49e9519a78a6621fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 018/190] fix: HashMapIterator is only valid while it points at
 an element

---
 lib/include/spvgentwo/HashMapIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/HashMapIterator.h b/lib/include/spvgentwo/HashMapIterator.h
index 3066444..cf5df96 100644
--- a/lib/include/spvgentwo/HashMapIterator.h
+++ b/lib/include/spvgentwo/HashMapIterator.h
@@ -60,8 +60,8 @@ namespace spvgentwo
 		constexpr KeyValue* operator->() { return &m_element->kv; }
 		constexpr const KeyValue* operator->() const { return &m_element->kv; }
 
-		// check if iterator is valid, can be derefed. Might still be at end!
-		constexpr operator bool() const { return m_pBucket != nullptr || m_element == nullptr; }
+		// check if iterator is valid, can be derefed
+		constexpr operator bool() const { return m_pBucket != nullptr && m_element != nullptr; }
 
 	private:
 		typename Bucket::Iterator m_element = nullptr;
-- 
2.43.0


From 820a904de6ea40bf55b7b902beb71a94288b48f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 019/190] fix: HashMap::eraseRange keeps the element count

---
 lib/include/spvgentwo/HashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index e0ae730..72e3abd 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -305,6 +305,8 @@ namespace spvgentwo
 			}
 		}
 
+		m_Elements -= keys;
+
 		return keys;
 	}
 
-- 
2.43.0


From d7d4b31cc6c55c617510481f01131f41ad06755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 020/190] fix: HashMap::findKey iterates the nodes of a bucket

---
 lib/include/spvgentwo/HashMap.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 72e3abd..f43ee71 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -372,14 +372,11 @@ namespace spvgentwo
 	{
 		for (auto i = 0u; i < m_Buckets; ++i)
 		{
-			for (Bucket& b : m_pBuckets[i])
+			for (Node& n : m_pBuckets[i])
 			{
-				for (Node& n : b)
+				if (n.kv.value == _value)
 				{
-					if (n.kv.value == _value)
-					{
-						return &n.kv.key;
-					}
+					return &n.kv.key;
 				}
 			}
 		}
-- 
2.43.0


From d4aec0a5ab84ac60b63ea77ede26601a20045ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 021/190] fix: isTerminatorOp misses OpTerminateInvocation and
 the ray/mesh terminators

---
 lib/include/spvgentwo/SpvDefines.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index f890847..20e88be 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -82,6 +82,10 @@ namespace spvgentwo
 		case spv::Op::OpReturnValue:
 		case spv::Op::OpKill:
 		case spv::Op::OpUnreachable:
+		case spv::Op::OpTerminateInvocation:
+		case spv::Op::OpIgnoreIntersectionKHR:
+		case spv::Op::OpTerminateRayKHR:
+		case spv::Op::OpEmitMeshTasksEXT:
 			return true;
 		default:
 			return false;
-- 
2.43.0


From d1ccbefec7eb3bd522341e5b1c929cd8a23dc361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 022/190] fix: Grammar operand names of Dim 1D/2D/3D are not
 the specified names

---
 lib/source/Grammar.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/source/Grammar.cpp b/lib/source/Grammar.cpp
index e44f584..d27cbda 100644
--- a/lib/source/Grammar.cpp
+++ b/lib/source/Grammar.cpp
@@ -8646,9 +8646,9 @@ Grammar::Grammar(IAllocator* _pAllocator) : m_instructions(_pAllocator, 953u), m
 	m_operandNames.emplaceUnique(Hash64(15u, 5605u), "CodeSectionINTEL");
 	m_operandNames.emplaceUnique(Hash64(15u, 5936u), "DeviceOnlyINTEL");
 	m_operandNames.emplaceUnique(Hash64(15u, 5937u), "HostOnlyINTEL");
-	m_operandNames.emplaceUnique(Hash64(16u, 0u), "Dim1D");
-	m_operandNames.emplaceUnique(Hash64(16u, 1u), "Dim2D");
-	m_operandNames.emplaceUnique(Hash64(16u, 2u), "Dim3D");
+	m_operandNames.emplaceUnique(Hash64(16u, 0u), "1D");
+	m_operandNames.emplaceUnique(Hash64(16u, 1u), "2D");
+	m_operandNames.emplaceUnique(Hash64(16u, 2u), "3D");
 	m_operandNames.emplaceUnique(Hash64(16u, 3u), "Cube");
 	m_operandNames.emplaceUnique(Hash64(16u, 4u), "Rect");
 	m_operandNames.emplaceUnique(Hash64(16u, 5u), "Buffer");
-- 
2.43.0


From f685f232d6803c602872b279ef5ecefba6918d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 023/190] fix: the XShift enumerators are not the bit positions
 of the masks

---
 lib/include/spvgentwo/Spv.h              | 182 +++++++++++------------
 lib/source/TypeInferenceAndValiation.cpp |   2 +-
 2 files changed, 92 insertions(+), 92 deletions(-)

diff --git a/lib/include/spvgentwo/Spv.h b/lib/include/spvgentwo/Spv.h
index 690ec65..b2332ac 100644
--- a/lib/include/spvgentwo/Spv.h
+++ b/lib/include/spvgentwo/Spv.h
@@ -59,26 +59,26 @@ namespace spvgentwo::spv
 	enum class ImageOperandsShift : unsigned
 	{
 		None = 0,
-		Bias = 1,
-		Lod = 2,
-		Grad = 3,
-		ConstOffset = 4,
-		Offset = 5,
-		ConstOffsets = 6,
-		Sample = 7,
-		MinLod = 8,
-		MakeTexelAvailable = 9,
-		MakeTexelAvailableKHR = 10,
-		MakeTexelVisible = 11,
-		MakeTexelVisibleKHR = 12,
-		NonPrivateTexel = 13,
-		NonPrivateTexelKHR = 14,
-		VolatileTexel = 15,
-		VolatileTexelKHR = 16,
-		SignExtend = 17,
-		ZeroExtend = 18,
-		Nontemporal = 19,
-		Offsets = 20,
+		Bias = 0,
+		Lod = 1,
+		Grad = 2,
+		ConstOffset = 3,
+		Offset = 4,
+		ConstOffsets = 5,
+		Sample = 6,
+		MinLod = 7,
+		MakeTexelAvailable = 8,
+		MakeTexelAvailableKHR = 8,
+		MakeTexelVisible = 9,
+		MakeTexelVisibleKHR = 9,
+		NonPrivateTexel = 10,
+		NonPrivateTexelKHR = 10,
+		VolatileTexel = 11,
+		VolatileTexelKHR = 11,
+		SignExtend = 12,
+		ZeroExtend = 13,
+		Nontemporal = 14,
+		Offsets = 16,
 		Max = 0x7fffffff
 	};
 	enum class FPFastMathModeMask : unsigned
@@ -95,13 +95,13 @@ namespace spvgentwo::spv
 	enum class FPFastMathModeShift : unsigned
 	{
 		None = 0,
-		NotNaN = 1,
-		NotInf = 2,
-		NSZ = 3,
-		AllowRecip = 4,
-		Fast = 5,
-		AllowContractFastINTEL = 6,
-		AllowReassocINTEL = 7,
+		NotNaN = 0,
+		NotInf = 1,
+		NSZ = 2,
+		AllowRecip = 3,
+		Fast = 4,
+		AllowContractFastINTEL = 16,
+		AllowReassocINTEL = 17,
 		Max = 0x7fffffff
 	};
 	enum class SelectionControlMask : unsigned
@@ -113,8 +113,8 @@ namespace spvgentwo::spv
 	enum class SelectionControlShift : unsigned
 	{
 		None = 0,
-		Flatten = 1,
-		DontFlatten = 2,
+		Flatten = 0,
+		DontFlatten = 1,
 		Max = 0x7fffffff
 	};
 	enum class LoopControlMask : unsigned
@@ -143,25 +143,25 @@ namespace spvgentwo::spv
 	enum class LoopControlShift : unsigned
 	{
 		None = 0,
-		Unroll = 1,
-		DontUnroll = 2,
-		DependencyInfinite = 3,
-		DependencyLength = 4,
-		MinIterations = 5,
-		MaxIterations = 6,
-		IterationMultiple = 7,
-		PeelCount = 8,
-		PartialCount = 9,
-		InitiationIntervalINTEL = 10,
-		MaxConcurrencyINTEL = 11,
-		DependencyArrayINTEL = 12,
-		PipelineEnableINTEL = 13,
-		LoopCoalesceINTEL = 14,
-		MaxInterleavingINTEL = 15,
-		SpeculatedIterationsINTEL = 16,
-		NoFusionINTEL = 17,
-		LoopCountINTEL = 18,
-		MaxReinvocationDelayINTEL = 19,
+		Unroll = 0,
+		DontUnroll = 1,
+		DependencyInfinite = 2,
+		DependencyLength = 3,
+		MinIterations = 4,
+		MaxIterations = 5,
+		IterationMultiple = 6,
+		PeelCount = 7,
+		PartialCount = 8,
+		InitiationIntervalINTEL = 16,
+		MaxConcurrencyINTEL = 17,
+		DependencyArrayINTEL = 18,
+		PipelineEnableINTEL = 19,
+		LoopCoalesceINTEL = 20,
+		MaxInterleavingINTEL = 21,
+		SpeculatedIterationsINTEL = 22,
+		NoFusionINTEL = 23,
+		LoopCountINTEL = 24,
+		MaxReinvocationDelayINTEL = 25,
 		Max = 0x7fffffff
 	};
 	enum class FunctionControlMask : unsigned
@@ -176,11 +176,11 @@ namespace spvgentwo::spv
 	enum class FunctionControlShift : unsigned
 	{
 		None = 0,
-		Inline = 1,
-		DontInline = 2,
-		Pure = 3,
-		Const = 4,
-		OptNoneINTEL = 5,
+		Inline = 0,
+		DontInline = 1,
+		Pure = 2,
+		Const = 3,
+		OptNoneINTEL = 16,
 		Max = 0x7fffffff
 	};
 	enum class MemorySemanticsMask : unsigned
@@ -209,10 +209,10 @@ namespace spvgentwo::spv
 	{
 		Relaxed = 0,
 		None = 1,
-		Acquire = 2,
-		Release = 3,
-		AcquireRelease = 4,
-		SequentiallyConsistent = 5,
+		Acquire = 1,
+		Release = 2,
+		AcquireRelease = 3,
+		SequentiallyConsistent = 4,
 		UniformMemory = 6,
 		SubgroupMemory = 7,
 		WorkgroupMemory = 8,
@@ -220,12 +220,12 @@ namespace spvgentwo::spv
 		AtomicCounterMemory = 10,
 		ImageMemory = 11,
 		OutputMemory = 12,
-		OutputMemoryKHR = 13,
-		MakeAvailable = 14,
-		MakeAvailableKHR = 15,
-		MakeVisible = 16,
-		MakeVisibleKHR = 17,
-		Volatile = 18,
+		OutputMemoryKHR = 12,
+		MakeAvailable = 13,
+		MakeAvailableKHR = 13,
+		MakeVisible = 14,
+		MakeVisibleKHR = 14,
+		Volatile = 15,
 		Max = 0x7fffffff
 	};
 	enum class MemoryAccessMask : unsigned
@@ -246,17 +246,17 @@ namespace spvgentwo::spv
 	enum class MemoryAccessShift : unsigned
 	{
 		None = 0,
-		Volatile = 1,
-		Aligned = 2,
-		Nontemporal = 3,
-		MakePointerAvailable = 4,
-		MakePointerAvailableKHR = 5,
-		MakePointerVisible = 6,
-		MakePointerVisibleKHR = 7,
-		NonPrivatePointer = 8,
-		NonPrivatePointerKHR = 9,
-		AliasScopeINTELMask = 10,
-		NoAliasINTELMask = 11,
+		Volatile = 0,
+		Aligned = 1,
+		Nontemporal = 2,
+		MakePointerAvailable = 3,
+		MakePointerAvailableKHR = 3,
+		MakePointerVisible = 4,
+		MakePointerVisibleKHR = 4,
+		NonPrivatePointer = 5,
+		NonPrivatePointerKHR = 5,
+		AliasScopeINTELMask = 16,
+		NoAliasINTELMask = 17,
 		Max = 0x7fffffff
 	};
 	enum class KernelProfilingInfoMask : unsigned
@@ -267,7 +267,7 @@ namespace spvgentwo::spv
 	enum class KernelProfilingInfoShift : unsigned
 	{
 		None = 0,
-		CmdExecTime = 1,
+		CmdExecTime = 0,
 		Max = 0x7fffffff
 	};
 	enum class RayFlagsMask : unsigned
@@ -288,17 +288,17 @@ namespace spvgentwo::spv
 	enum class RayFlagsShift : unsigned
 	{
 		NoneKHR = 0,
-		OpaqueKHR = 1,
-		NoOpaqueKHR = 2,
-		TerminateOnFirstHitKHR = 3,
-		SkipClosestHitShaderKHR = 4,
-		CullBackFacingTrianglesKHR = 5,
-		CullFrontFacingTrianglesKHR = 6,
-		CullOpaqueKHR = 7,
-		CullNoOpaqueKHR = 8,
-		SkipTrianglesKHR = 9,
-		SkipAABBsKHR = 10,
-		ForceOpacityMicromap2StateEXT = 11,
+		OpaqueKHR = 0,
+		NoOpaqueKHR = 1,
+		TerminateOnFirstHitKHR = 2,
+		SkipClosestHitShaderKHR = 3,
+		CullBackFacingTrianglesKHR = 4,
+		CullFrontFacingTrianglesKHR = 5,
+		CullOpaqueKHR = 6,
+		CullNoOpaqueKHR = 7,
+		SkipTrianglesKHR = 8,
+		SkipAABBsKHR = 9,
+		ForceOpacityMicromap2StateEXT = 10,
 		Max = 0x7fffffff
 	};
 	enum class FragmentShadingRateMask : unsigned
@@ -1304,11 +1304,11 @@ namespace spvgentwo::spv
 	enum class CooperativeMatrixOperandsShift : unsigned
 	{
 		NoneKHR = 0,
-		MatrixASignedComponentsKHR = 1,
-		MatrixBSignedComponentsKHR = 2,
-		MatrixCSignedComponentsKHR = 3,
-		MatrixResultSignedComponentsKHR = 4,
-		SaturatingAccumulationKHR = 5,
+		MatrixASignedComponentsKHR = 0,
+		MatrixBSignedComponentsKHR = 1,
+		MatrixCSignedComponentsKHR = 2,
+		MatrixResultSignedComponentsKHR = 3,
+		SaturatingAccumulationKHR = 4,
 		Max = 0x7fffffff
 	};
 	enum class CooperativeMatrixLayout : unsigned
diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index d40293f..2d54208 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -55,7 +55,7 @@ namespace
 			return true;
 		};
 
-		for (unsigned int i = 0u; opMask != spv::ImageOperandsMask::MaskNone && i < (unsigned int)spv::ImageOperandsShift::ZeroExtend; ++i)
+		for (unsigned int i = 0u; opMask != spv::ImageOperandsMask::MaskNone && i <= (unsigned int)spv::ImageOperandsShift::ZeroExtend; ++i)
 		{
 			// TODO: get operands within the loop and dont return in the switch
 			spv::ImageOperandsMask mask = static_cast<spv::ImageOperandsMask>(1u << i);
-- 
2.43.0


From f692d48ee08cbad2b193f0b26f366e86d4c7040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 024/190] fix: readOperands: a literal string that is not
 terminated inside its instruction wraps the operand count

---
 lib/source/Instruction.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 5f888f3..c848efd 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -356,13 +356,14 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	auto parseLiteralString = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
-		while (_operands-- > 0u)
+		while (_operands > 0u)
 		{
 			if (_reader.get(word) == false)
 			{
 				getModule()->logError("Unexpected end of instruction stream for %s", info->name);
 				return false;
 			}
+			--_operands;
 
 			addOperand(static_cast<literal_t>(word));
 			if (hasStringTerminator(word)) // reached end of string
@@ -371,7 +372,8 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			}
 		}
 
-		return true;
+		getModule()->logError("Unterminated literal string for %s", info->name);
+		return false;
 	};
 
 	auto parseId = [&](unsigned int& _operands) -> bool
-- 
2.43.0


From 5086ae78f3ab2b814dfbb11bb70b34f739971ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 025/190] fix: readOperands: enumerant parameters are read
 beyond the end of the instruction

---
 lib/source/Instruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index c848efd..61642e6 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -379,7 +379,7 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	auto parseId = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
-		if (_reader.get(word) == false)
+		if (_operands == 0u || _reader.get(word) == false)
 		{
 			getModule()->logError("Unexpected end of instruction stream for %s", info->name);
 			return false;
@@ -392,7 +392,7 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	auto parseLiteral = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
-		if (_reader.get(word) == false)
+		if (_operands == 0u || _reader.get(word) == false)
 		{
 			getModule()->logError("Unexpected end of instruction stream for %s", info->name);
 			return false;
-- 
2.43.0


From 535f95653b18d90b3c87e27e658c06a68d2f41c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 026/190] fix: readOperands accepts instructions without their
 mandatory operands and with a word count of zero

---
 lib/source/Instruction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 61642e6..2b79793 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -337,9 +337,10 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 
 	m_Operation = _op;
 
-	if (_operandCount == 0u)
+	if (_operandCount >= 0xffffu) // word count of zero, instructions have at most 0xffff words
 	{
-		return true; // nothing left to do
+		getModule()->logError("Invalid word count for op code %u", m_Operation);
+		return false;
 	}
 
 	const Grammar::Instruction* info = _grammar.getInfo(static_cast<unsigned int>(m_Operation));
-- 
2.43.0


From 8c27b418d6519d967601ffff0734213c726c7306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 027/190] fix: readOperands: parameters of combined mask bits
 are not parsed

---
 lib/source/Instruction.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 2b79793..521f6b2 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -504,15 +504,31 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			{
 				const unsigned int enumVal = back().getLiteral(); // last added operand
 
-				if (auto* params = _grammar.getOperandParameters(op.kind, enumVal); params != nullptr)
+				auto parseParameters = [&](const unsigned int _value) -> bool
 				{
-					for (const auto& param : *params)
+					if (auto* params = _grammar.getOperandParameters(op.kind, _value); params != nullptr)
 					{
-						if (parseSimpleOps(_operandCount, param) == false)
+						for (const auto& param : *params)
 						{
-							return false;
+							if (parseSimpleOps(_operandCount, param) == false)
+							{
+								return false;
+							}
 						}
 					}
+					return true;
+				};
+
+				if (op.category == Grammar::OperandCategory::ValueEnum)
+				{
+					if (parseParameters(enumVal) == false) return false;
+				}
+				else // each bit of the mask brings its own parameters, from lowest to highest bit
+				{
+					for (unsigned int bit = 0u; bit < 32u; ++bit)
+					{
+						if ((enumVal & (1u << bit)) != 0u && parseParameters(1u << bit) == false) return false;
+					}
 				}
 			}
 		}
-- 
2.43.0


From 60ca32fc18c7aec029aa53c54082bcd308a7b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 028/190] fix: readOperands: literal operands of
 OpSpecConstantOp are read as ids

---
 lib/source/Instruction.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 521f6b2..264b177 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -352,7 +352,7 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	}
 
 	auto it = info->operands.begin();
-	const auto end = info->operands.end();
+	auto end = info->operands.end();
 
 	auto parseLiteralString = [&](unsigned int& _operands) -> bool
 	{
@@ -440,17 +440,23 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 				return false;
 			}
 
-			// remaining operands must be IDs
-			while (_operandCount > 0u)
+			// remaining operands are those of the nested operation, without its result type and result id
+			info = _grammar.getInfo(back().getLiteral());
+
+			if (info == nullptr)
 			{
-				if (parseId(_operandCount) == false)
-				{
-					return false;
-				}
+				getModule()->logError("Unkown op code %u for OpSpecConstantOp", back().getLiteral().value);
+				return false;
 			}
 
-			++it; // no more operands after this one
-			break; // end of instruction
+			it = info->operands.begin();
+			end = info->operands.end();
+
+			while (it != end && (it->kind == Grammar::OperandKind::IdResultType || it->kind == Grammar::OperandKind::IdResult))
+			{
+				++it;
+			}
+			continue; // next operand
 		}
 
 		if (op.category == Grammar::OperandCategory::Composite)
-- 
2.43.0


From 27c61e1baf93f63416cc4f8f5cff6a7fdaec3d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 029/190] fix: reconstructTypeAndConstantInfo skips the access
 qualifier of OpTypeImage and dereferences the end

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a4d0b47..a7792ba 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -993,7 +993,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 
 				if (++it != nullptr)
 				{
-					t.setAccessQualifier(static_cast<spv::AccessQualifier>((++it)->getLiteral().value));
+					t.setAccessQualifier(static_cast<spv::AccessQualifier>(it->getLiteral().value));
 				}
 			}
 			break;
-- 
2.43.0


From e69d6364beba12f1c1aeabee625c3a5d5e1fdd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 030/190] fix: readAndInit rejects modules with types or
 constants that Type and Constant cannot represent

---
 lib/source/Module.cpp | 116 ++++++++++++++++++++----------------------
 1 file changed, 55 insertions(+), 61 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a7792ba..ea17b54 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -839,6 +839,25 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 	{
 		auto it = instr.getFirstActualOperand(); // TODO: validate number of available operands with Grammar in read() (for now just assume the .spv is valid)
 
+		// types & constants which Type & Constant can't represent (or which are forward declared) have no info, neither has anything composed of them
+		bool hasInfo = true;
+
+		auto getSubType = [&](const Instruction* _pSubType, const char* _pError) -> const Type*
+		{
+			const Type* sub = getTypeInfo(_pSubType);
+			if (sub == nullptr)
+			{
+				hasInfo = false;
+
+				if (_pSubType == nullptr || _pSubType->isType() == false)
+				{
+					logError(_pError);
+					success = false;
+				}
+			}
+			return sub;
+		};
+
 		if (instr.isType())
 		{
 			Type t(_pAllocator != nullptr ? _pAllocator: m_pAllocator);
@@ -883,12 +902,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			case spv::Op::OpTypeVector:
 			case spv::Op::OpTypeMatrix:
 			{
-				const Type* sub = getTypeInfo(it->getInstruction());
-				if (sub == nullptr)
-				{
-					logError("Component or Column sub type not found");
-					success = false;
-				}
+				const Type* sub = getSubType(it->getInstruction(), "Component or Column sub type not found");
 
 				t.Member(sub); // component / column type
 				t.setVectorComponentCount((++it)->getLiteral()); // or MatrixColumnCount
@@ -897,23 +911,13 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			case spv::Op::OpTypePointer:
 				t.setStorageClass(static_cast<spv::StorageClass>(it->getLiteral().value));
 				{
-					const Type* sub = getTypeInfo((++it)->getInstruction());
-					if (sub == nullptr)
-					{
-						logError("Pointer base type not found");
-						success = false;
-					}
+					const Type* sub = getSubType((++it)->getInstruction(), "Pointer base type not found");
 					t.Member(sub);
 				}
 				break;
 			case spv::Op::OpTypeForwardPointer:
 			{
-				const Type* sub = getTypeInfo(it->getInstruction());
-				if (sub == nullptr)
-				{
-					logError("Pointer type not found");
-					success = false;
-				}
+				const Type* sub = getSubType(it->getInstruction(), "Pointer type not found");
 				t.Member(sub);
 				t.setStorageClass(static_cast<spv::StorageClass>((++it)->getLiteral().value));
 			}
@@ -922,12 +926,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			case spv::Op::OpTypeFunction:
 				for (auto end = instr.end(); it != end; ++it)
 				{
-					const Type* sub = getTypeInfo(it->getInstruction());
-					if (sub == nullptr)
-					{
-						logError("Member or Parameter sub type not found");
-						success = false;
-					}
+					const Type* sub = getSubType(it->getInstruction(), "Member or Parameter sub type not found");
 					t.Member(sub); // member or parameter type
 				}
 				break;
@@ -935,53 +934,38 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			case spv::Op::OpTypeSampledImage:
 			case spv::Op::OpTypeVmeImageINTEL:
 			{
-				const Type* sub = getTypeInfo(it->getInstruction());
-				if (sub == nullptr)
-				{
-					logError("Element or image type not found");
-					success = false;
-				}
+				const Type* sub = getSubType(it->getInstruction(), "Element or image type not found");
 				t.Member(sub); // element or image type
 			}
 			break;
 			case spv::Op::OpTypeArray:
 			{
-				const Type* sub = getTypeInfo(it->getInstruction());
-				if (sub == nullptr)
-				{
-					logError("Element type not found");
-					success = false;
-				}
+				const Type* sub = getSubType(it->getInstruction(), "Element type not found");
 				t.Member(sub); // element type
 
 				Instruction* pConstInstr = (++it)->getInstruction();
-				if ( pConstInstr == nullptr || pConstInstr->getType()->isInt() == false)
+				const Type* lengthType = pConstInstr != nullptr ? pConstInstr->getType() : nullptr;
+				if (lengthType == nullptr || lengthType->isInt() == false)
 				{
 					logError("Array length constant not found or invalid type");
+					hasInfo = false;
 					success = false;
 					break; // don't deref c
 				}
 
-				auto cit = pConstInstr->getFirstActualOperand();
-				if (cit->isLiteral())
+				if (pConstInstr->getOperation() == spv::Op::OpConstant || pConstInstr->getOperation() == spv::Op::OpSpecConstant)
 				{
-					t.setArrayLength(cit->literal); // array length
+					t.setArrayLength(pConstInstr->getFirstActualOperand()->getLiteral()); // array length
 				}
 				else
 				{
-					logError("Invalid constant data");
-					success = false;
+					hasInfo = false; // length is not known (OpSpecConstantOp)
 				}
 			}
 			break;
 			case spv::Op::OpTypeImage:
 			{
-				const Type* sub = getTypeInfo(it->getInstruction());
-				if (sub == nullptr)
-				{
-					logError("Sampled type not found");
-					success = false;
-				}
+				const Type* sub = getSubType(it->getInstruction(), "Sampled type not found");
 				t.Member(sub); // sampled type
 
 				t.setImageDimension(static_cast<spv::Dim>((++it)->getLiteral().value));
@@ -998,8 +982,13 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			}
 			break;
 			default:
-				logError("Type [%u] not implemented", instr.getOperation());
-				success = false;
+				hasInfo = false;
+			}
+
+			if (hasInfo == false)
+			{
+				logWarning("No type info for [%u]", instr.getOperation());
+				continue;
 			}
 
 			auto& node = m_TypeToInstr.emplaceUnique(stdrep::move(t), &instr);
@@ -1017,8 +1006,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			}
 			else
 			{
-				logError("Constant type not found");
-				success = false;
+				getSubType(instr.getResultTypeInstr(), "Constant type not found");
 			}
 
 			switch (instr.getOperation())
@@ -1051,18 +1039,24 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 					}
 					else
 					{
-						logError("Constituent constant not found");
-						success = false;					
+						hasInfo = false;
+
+						if (it->isInstruction() == false)
+						{
+							logError("Constituent constant not found");
+							success = false;
+						}
 					}
 				}
-				if (c.getComponents().empty())
-				{
-					logError("Expected components for this constant composite [reconstructTypeAndConstantInfo]");
-				}
 				break;
 			default:
-				logError("Constant [%u] not implemented", instr.getOperation());
-				success = false;
+				hasInfo = false;
+			}
+
+			if (hasInfo == false)
+			{
+				logWarning("No constant info for [%u]", instr.getOperation());
+				continue;
 			}
 
 			auto& node = m_ConstantToInstr.emplaceUnique(stdrep::move(c), &instr);
@@ -1074,7 +1068,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 	{
 		if (auto it = _fun.getFunction()->last(); it != nullptr && it->isInstruction() && it->instruction->isType()) // last operand is OpTypeFunction
 		{
-			return _fun.setFunctionType(it->instruction);
+			return it->instruction->getType() == nullptr || _fun.setFunctionType(it->instruction); // type info might not be available
 		}
 		return false;
 	};
-- 
2.43.0


From 42ad5498985f411e83fbee129a3eab10d9010508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 031/190] fix: module-scope OpUndef is written after the
 constants composed of it

---
 lib/source/Module.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index ea17b54..7a88339 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1358,7 +1358,8 @@ bool spvgentwo::Module::read(IReader& _reader, const Grammar& _grammar)
 
 			break;
 		case spv::Op::OpUndef:
-			if(addUndefInstr()->readOperands(_reader, _grammar, op, operands) == false)
+			// might be a constituent of the constants that follow, so it has to keep its place among them
+			if (m_TypesAndConstants.emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false)
 				return false;
 			break;
 		case spv::Op::OpLine:
-- 
2.43.0


From b3367afc643976a291090f7f4521d3d0ddcb020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 032/190] fix: Module::read rejects OpExtInst at module scope

---
 lib/source/Module.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 7a88339..b10939f 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1362,6 +1362,10 @@ bool spvgentwo::Module::read(IReader& _reader, const Grammar& _grammar)
 			if (m_TypesAndConstants.emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false)
 				return false;
 			break;
+		case spv::Op::OpExtInst: // non-semantic instructions, can be used by the following ones
+			if (m_TypesAndConstants.emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false)
+				return false;
+			break;
 		case spv::Op::OpLine:
 		case spv::Op::OpNoLine:
 			if (addLineInstr()->readOperands(_reader, _grammar, op, operands) == false)
-- 
2.43.0


From e69edeab6333c212d47532b57579f77363b2e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 033/190] fix: literals of OpSwitch with a 64 bit selector are
 read as ids

---
 lib/source/Instruction.cpp | 13 ++++++++++++-
 lib/source/Module.cpp      | 38 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 264b177..ac12e50 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -467,7 +467,18 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 				return false;
 			}
 
-			if (const auto* bases = _grammar.getOperandBases(op.kind); bases != nullptr)
+			if (m_Operation == spv::Op::OpSwitch && _operandCount % 2u != 0u && _operandCount % 3u == 0u)
+			{
+				// 64 bit selector: literals have two words
+				while (_operandCount > 0u)
+				{
+					if (parseLiteral(_operandCount) == false || parseLiteral(_operandCount) == false || parseId(_operandCount) == false)
+					{
+						return false;
+					}
+				}
+			}
+			else if (const auto* bases = _grammar.getOperandBases(op.kind); bases != nullptr)
 			{
 				if (_operandCount % bases->size() != 0u)
 				{
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index b10939f..76b2d89 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -782,8 +782,44 @@ bool spvgentwo::Module::resolveIDs(IAllocator* _pAllocator)
 		return false;
 	}
 
-	auto lookUp = [&idToPtr, &success, this](Instruction& _instr) -> bool
+	// number of literal words depends on the type of the selector, which is only known now
+	auto fixSwitchLiterals = [&idToPtr](Instruction& _switch)
 	{
+		auto getInstr = [&idToPtr](const Instruction::Iterator& _it) -> Instruction*
+		{
+			if (_it == nullptr || _it->isInstruction())
+			{
+				return _it != nullptr ? _it->getInstruction() : nullptr;
+			}
+			Instruction** ppInstr = idToPtr.get(_it->getId());
+			return ppInstr != nullptr ? *ppInstr : nullptr;
+		};
+
+		const Instruction* selector = getInstr(_switch.begin());
+		const Instruction* type = selector != nullptr ? getInstr(selector->getResultTypeOperand()) : nullptr;
+
+		if (type == nullptr || type->getOperation() != spv::Op::OpTypeInt || type->getFirstActualOperand()->getLiteral() <= 32u)
+		{
+			return;
+		}
+
+		unsigned int index = 0u;
+		for (auto it = _switch.begin() + 2u, end = _switch.end(); it != end; ++it, ++index) // skip selector and default target
+		{
+			if (it->isId() == false && it->isLiteral() == false) continue; // resolved already
+
+			const unsigned int word = it->isId() ? static_cast<unsigned int>(it->getId()) : it->getLiteral().value;
+			if (index % 3u == 2u) *it = spv::Id{ word }; else *it = literal_t{ word };
+		}
+	};
+
+	auto lookUp = [&idToPtr, &success, &fixSwitchLiterals, this](Instruction& _instr) -> bool
+	{
+		if (_instr.getOperation() == spv::Op::OpSwitch)
+		{
+			fixSwitchLiterals(_instr);
+		}
+
 		for (auto it = _instr.begin(), end = _instr.end(); it != end; ++it)
 		{
 			if (_instr.hasResult() && it == _instr.getResultIdOperand()) // dont replace the dummy resultID operand
-- 
2.43.0


From b704c4ddae05bd8d49edd9ba361983da2d96e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 034/190] fix: operand counts of OpLabel and OpFunctionEnd are
 ignored when reading

---
 lib/include/spvgentwo/BasicBlock.h | 2 +-
 lib/source/BasicBlock.cpp          | 4 ++--
 lib/source/Function.cpp            | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/BasicBlock.h b/lib/include/spvgentwo/BasicBlock.h
index f39e3c4..6ea8f3f 100644
--- a/lib/include/spvgentwo/BasicBlock.h
+++ b/lib/include/spvgentwo/BasicBlock.h
@@ -66,7 +66,7 @@ namespace spvgentwo
 
 		void write(IWriter& _writer) const;
 
-		bool read(IReader& _reader, const Grammar& _grammar);
+		bool read(IReader& _reader, const Grammar& _grammar, const unsigned int _labelOperands = 1u);
 
 		// remove instruction from this block (if it is in this block). OpLabel can't be removed. Returns true if the instruction was removed
 		bool remove(const Instruction* _pInstr);
diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 6400a62..18cf2a1 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -125,10 +125,10 @@ void spvgentwo::BasicBlock::write(IWriter& _writer) const
 	}
 }
 
-bool spvgentwo::BasicBlock::read(IReader& _reader, const Grammar& _grammar)
+bool spvgentwo::BasicBlock::read(IReader& _reader, const Grammar& _grammar, const unsigned int _labelOperands)
 {
 	// function alread consumed the first word of OpLabel, OpLabel as one result Id operand
-	if (m_Label.readOperands(_reader, _grammar, spv::Op::OpLabel, 1u) == false || m_Label.getOperation() != spv::Op::OpLabel) return false;
+	if (m_Label.readOperands(_reader, _grammar, spv::Op::OpLabel, _labelOperands) == false || m_Label.getOperation() != spv::Op::OpLabel) return false;
 
 	unsigned int word{ 0 };
 
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 583abed..14538e0 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -88,10 +88,10 @@ bool spvgentwo::Function::read(IReader& _reader, const Grammar& _grammar, Instru
 			if (m_Parameters.emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false) return false;
 			break;
 		case spv::Op::OpLabel:
-			if (addBasicBlock().read(_reader, _grammar) == false) return false;
+			if (addBasicBlock().read(_reader, _grammar, operands) == false) return false;
 			break;
 		case spv::Op::OpFunctionEnd:
-			return true; // FunctionEnd has no operands
+			return m_FunctionEnd.readOperands(_reader, _grammar, op, operands); // FunctionEnd has no operands
 		default:
 			m_pModule->logError("Unexpected op-code for function");
 			return false; // unexpected op code
-- 
2.43.0


From 9fa7393eeeafffdf5e0a6880192abd8f8d63ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 035/190] fix: entry points that share a function are rejected
 when reading and lose their interface

---
 lib/source/EntryPoint.cpp | 12 +++++++++++-
 lib/source/Module.cpp     |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/source/EntryPoint.cpp b/lib/source/EntryPoint.cpp
index 1102789..f5df70b 100644
--- a/lib/source/EntryPoint.cpp
+++ b/lib/source/EntryPoint.cpp
@@ -33,8 +33,18 @@ void spvgentwo::EntryPoint::finalizeGlobalInterface(const GlobalInterfaceVersion
 		it = m_EntryPoint.erase(it);
 	}
 
+	// several entry points can share a function, only one of them owns its body
+	const Function* pFunction = this;
+	if (auto it = m_EntryPoint.getFirstActualOperand() + 1u; empty() && it != nullptr && it->isInstruction() && it->instruction != nullptr)
+	{
+		if (const Function* pShared = it->instruction->getFunction(); pShared != nullptr)
+		{
+			pFunction = pShared;
+		}
+	}
+
 	// collect new interface
-	collectReferencedVariables(*this, m_EntryPoint, _version, m_pAllocator);
+	collectReferencedVariables(*pFunction, m_EntryPoint, _version, m_pAllocator);
 }
 
 spvgentwo::String& spvgentwo::EntryPoint::getNameStorage()
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 76b2d89..d6adbfb 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1117,6 +1117,9 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 
 	for (EntryPoint& f : m_EntryPoints)
 	{
+		if (*f.getFunction() == spv::Op::OpNop) // function is shared with another entry point
+			continue;
+
 		if (updateFunctionTypes(f) == false)
 			success = false;
 	}
-- 
2.43.0


From f17cd7defc770cd88f074488b6a5cc241244a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 036/190] fix: literal operands of OpenCL extended instructions
 are read as ids

---
 lib/source/Instruction.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index ac12e50..2508660 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -459,6 +459,39 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			continue; // next operand
 		}
 
+		else if (op.kind == Grammar::OperandKind::LiteralExtInstInteger) // OpExtInst
+		{
+			const spv::Id set = back().getId();
+
+			if (parseLiteral(_operandCount) == false) // instruction of the extended set
+			{
+				return false;
+			}
+
+			const Grammar::Instruction* extInfo = nullptr;
+
+			// operands of OpenCL instructions can be literals, those of other sets are ids as described by the core grammar
+			for (const auto& [name, import] : getModule()->getExtInstrImports())
+			{
+				if (name == "OpenCL.std" && import.getResultId() == set)
+				{
+					extInfo = _grammar.getInfo(back().getLiteral(), Grammar::Extension::OpenCl);
+					break;
+				}
+			}
+
+			if (extInfo != nullptr)
+			{
+				it = extInfo->operands.begin();
+				end = extInfo->operands.end();
+			}
+			else
+			{
+				++it;
+			}
+			continue; // operands of the extended instruction
+		}
+
 		if (op.category == Grammar::OperandCategory::Composite)
 		{
 			if (it + 1u != end) // all known compisites are trailing args
-- 
2.43.0


From 82d6e89804cf93a16d88de85b3929f9a0144aa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 037/190] fix: disassembly drops mask names, parameters, wide
 literal words and nested operands

printInstruction did not follow the grammar into mask parameters, OpSpecConstantOp and OpExtInst operands
---
 common/source/ModulePrinter.cpp | 396 +++++++++++++++++++++-----------
 1 file changed, 262 insertions(+), 134 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 01e0d4e..f34ec9d 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -40,6 +40,76 @@ namespace
 		return _it;
 	}
 
+	// instruction of the extended instruction set imported by _extInst (OpExtInst)
+	const spvgentwo::Grammar::Instruction* getExtInstInfo(const spvgentwo::Instruction& _extInst, unsigned int _instruction, const spvgentwo::Grammar& _grammar)
+	{
+		using namespace spvgentwo;
+
+		auto set = _extInst.getFirstActualOperand();
+		if (set == nullptr || set->isInstruction() == false || set->instruction == nullptr || *set->instruction != spv::Op::OpExtInstImport)
+		{
+			return nullptr;
+		}
+
+		if (compareLiteralString("GLSL.std.450", set->instruction->getFirstActualOperand(), set->instruction->end()))
+		{
+			return _grammar.getInfo(_instruction, Grammar::Extension::Glsl);
+		}
+		else if (compareLiteralString("OpenCL.std", set->instruction->getFirstActualOperand(), set->instruction->end()))
+		{
+			return _grammar.getInfo(_instruction, Grammar::Extension::OpenCl);
+		}
+		return nullptr;
+	}
+
+	// print names of all set bits
+	bool printMask(unsigned int _mask, spvgentwo::Grammar::OperandKind _kind, const spvgentwo::Grammar& _grammar, spvgentwo::ModulePrinter::IModulePrinter& _printer)
+	{
+		const auto& colors = _printer.getColorScheme();
+
+		if (_mask == 0u)
+		{
+			_printer.append(_mask, colors.literal, colors.defaultText);
+			return true;
+		}
+
+		bool first = true;
+		for (unsigned int i = 0u; i < 32u; ++i)
+		{
+			const unsigned int bit = 1u << i;
+			if ((_mask & bit) == 0u)
+			{
+				continue;
+			}
+
+			if (first == false)
+			{
+				_printer << "|";
+			}
+			first = false;
+
+			if (const char* name = _grammar.getOperandName(_kind, bit); name != nullptr)
+			{
+				_printer.append(name, colors.enumValue, colors.defaultText);
+			}
+			else
+			{
+				_printer.append(bit, colors.literal, colors.defaultText);
+			}
+		}
+
+		return true;
+	}
+
+	void printLiteral64(unsigned int _low, unsigned int _high, spvgentwo::ModulePrinter::IModulePrinter& _printer)
+	{
+		const auto& colors = _printer.getColorScheme();
+		char buf[24]{ '\0' };
+		snprintf(buf, sizeof(buf), "%llu", (static_cast<unsigned long long>(_high) << 32u) | _low);
+		_printer << " ";
+		_printer.append(buf, colors.literal, colors.defaultText);
+	}
+
 	bool printOperand(const spvgentwo::Instruction& _instr, const spvgentwo::Operand& op, const spvgentwo::Grammar::Operand& _info, const spvgentwo::Grammar& _grammar, spvgentwo::ModulePrinter::IModulePrinter& _printer, spvgentwo::ModulePrinter::PrintOptions _options)
 	{
 		using namespace spvgentwo;
@@ -117,7 +187,7 @@ namespace
 			}
 	
 			_printer << "%";
-			if (const char* name = op.branchTarget->getName(); _options & ModulePrinter::PrintOptionsBits::OperandName && name != nullptr && stringLength(name) > 1)
+			if (const char* name = op.branchTarget->getName(); (_options & ModulePrinter::PrintOptionsBits::InstructionName) && name != nullptr && stringLength(name) > 1)
 			{
 				_printer.append(name, colors.operandId, colors.defaultText);
 			}
@@ -135,28 +205,12 @@ namespace
 		}
 		else if (op.isLiteral())
 		{
-			if (_instr.getOperation() == spv::Op::OpExtInst)
+			if (_info.kind == Grammar::OperandKind::LiteralExtInstInteger)
 			{
-				if (auto set = _instr.getFirstActualOperand(); set != nullptr && set->isInstruction() && *set->instruction == spv::Op::OpExtInstImport) // extension set
-				{					
-					Grammar::Extension ext = Grammar::Extension::Core;
-					if (compareLiteralString("GLSL.std.450", set->instruction->getFirstActualOperand(), set->instruction->end()))
-					{
-						ext = Grammar::Extension::Glsl;
-					}
-					else if (compareLiteralString("OpenCL.std", set->instruction->getFirstActualOperand(), set->instruction->end()))
-					{
-						ext = Grammar::Extension::OpenCl;
-					}
-
-					if (ext != Grammar::Extension::Core)
-					{
-						if (auto* extInfo = _grammar.getInfo(static_cast<unsigned int>(op.literal.value), ext); extInfo != nullptr)
-						{
-							_printer.append(extInfo->name, colors.extinst, colors.defaultText);
-							return true;
-						}
-					}
+				if (auto* extInfo = getExtInstInfo(_instr, op.literal, _grammar); extInfo != nullptr)
+				{
+					_printer.append(extInfo->name, colors.extinst, colors.defaultText);
+					return true;
 				}
 			}
 			else if (_info.category == Grammar::OperandCategory::BitEnum || _info.category == Grammar::OperandCategory::ValueEnum)
@@ -166,6 +220,10 @@ namespace
 					_printer.append(name, colors.enumValue, colors.defaultText);				
 					return true;
 				}
+				else if (_info.category == Grammar::OperandCategory::BitEnum && (_options & ModulePrinter::PrintOptionsBits::OperandName))
+				{
+					return printMask(op.literal, _info.kind, _grammar, _printer);
+				}
 			}
 			else if (_info.kind == Grammar::OperandKind::LiteralContextDependentNumber && _instr.isSpecOrConstant() && (_options & ModulePrinter::PrintOptionsBits::ConstantData))
 			{
@@ -186,6 +244,181 @@ namespace
 			return false;
 		}
 	}
+
+	// print operands starting at _it as described by the grammar operands [_info, _infoEnd)
+	bool printOperands(const spvgentwo::Instruction& _instr, spvgentwo::Instruction::Iterator _it, const spvgentwo::Grammar::Operand* _info, const spvgentwo::Grammar::Operand* _infoEnd, const spvgentwo::Grammar& _grammar, spvgentwo::ModulePrinter::IModulePrinter& _printer, spvgentwo::ModulePrinter::PrintOptions _options)
+	{
+		using namespace spvgentwo;
+		const auto& colors = _printer.getColorScheme();
+		const auto end = _instr.end();
+		bool success = true;
+
+		auto printOp = [&](const Grammar::Operand& info)
+		{
+			if (info.kind == Grammar::OperandKind::LiteralString)
+			{
+				_printer << " \"";
+				_it = appendLiteralString(_printer, _it, end, colors.string, colors.defaultText);
+				_printer << "\"";
+			}
+			else
+			{
+				success &= printOperand(_instr, *_it, info, _grammar, _printer, _options);
+				++_it;
+			}
+		};
+
+		auto printParameters = [&](Grammar::OperandKind kind, unsigned int value)
+		{
+			if (auto* params = _grammar.getOperandParameters(kind, value); params != nullptr)
+			{
+				for (auto pit = params->begin(), pend = params->end(); _it != end && pit != pend; ++pit)
+				{
+					printOp(*pit);
+				}
+			}
+		};
+
+		while (_info != _infoEnd)
+		{
+			if (_it == end)
+			{
+				if (_info->quantifier == Grammar::Quantifier::One) // last operand was not optional
+				{
+					_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
+					return false; // invalid instruction
+				}
+				break;
+			}
+
+			const Grammar::Operand& info = *_info;
+
+			if (info.category == Grammar::OperandCategory::Composite)
+			{
+				auto* bases = _grammar.getOperandBases(info.kind);
+				if (bases == nullptr || bases->empty())
+				{
+					_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
+					return false; // invalid instruction
+				}
+
+				for (auto bit = bases->begin(); _it != end;)
+				{
+					// literals of OpSwitch have as many words as the selector
+					if (_it->isLiteral() && _it.next() != end && _it.next()->isLiteral() && bit->category == Grammar::OperandCategory::Literal && bit + 1u != bases->end() && (bit + 1u)->category == Grammar::OperandCategory::Id)
+					{
+						printLiteral64(_it->literal, _it.next()->literal, _printer);
+						++_it;
+						++_it;
+					}
+					else
+					{
+						printOp(*bit);
+					}
+
+					if (++bit == bases->end()) // reset
+					{
+						bit = bases->begin();
+					}
+				}
+				break; // always trailing
+			}
+
+			const unsigned int value = _it->getLiteral();
+
+			if (info.kind == Grammar::OperandKind::LiteralContextDependentNumber && _it->isLiteral() && _it.next() != end)
+			{
+				// value of several words
+				const Constant* c = (_options & ModulePrinter::PrintOptionsBits::ConstantData) ? _instr.getConstant() : nullptr;
+				if (c != nullptr)
+				{
+					_printer << " ";
+				}
+				if (c == nullptr || _printer.append(*c, colors.constant, colors.defaultText) == false)
+				{
+					for (; _it != end; ++_it)
+					{
+						if (_it->isLiteral())
+						{
+							_printer << " ";
+							_printer.append(_it->literal.value, colors.literal, colors.defaultText);
+						}
+						else
+						{
+							success &= printOperand(_instr, *_it, info, _grammar, _printer, _options);
+						}
+					}
+				}
+				break; // always trailing
+			}
+
+			printOp(info);
+
+			if (info.kind == Grammar::OperandKind::LiteralSpecConstantOpInteger) // remaining operands are those of the nested operation
+			{
+				const auto* nested = _grammar.getInfo(value);
+				if (nested == nullptr)
+				{
+					_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
+					return false; // invalid instruction
+				}
+
+				auto nestedInfo = nested->operands.begin();
+				const auto nestedEnd = nested->operands.end();
+				while (nestedInfo != nestedEnd && (nestedInfo->kind == Grammar::OperandKind::IdResultType || nestedInfo->kind == Grammar::OperandKind::IdResult))
+				{
+					++nestedInfo;
+				}
+
+				_printer << " [";
+				if (_options & ModulePrinter::PrintOptionsBits::OperationName)
+				{
+					_printer << nested->name;
+				}
+				success &= printOperands(_instr, _it, nestedInfo, nestedEnd, _grammar, _printer, _options);
+				_printer << "]";
+				return success;
+			}
+			else if (info.kind == Grammar::OperandKind::LiteralExtInstInteger) // remaining operands are those of the extended instruction
+			{
+				if (const auto* extInfo = getExtInstInfo(_instr, value, _grammar); extInfo != nullptr)
+				{
+					success &= printOperands(_instr, _it, extInfo->operands.begin(), extInfo->operands.end(), _grammar, _printer, _options);
+					return success;
+				}
+			}
+			else if (Grammar::hasOperandParameters(info.kind))
+			{
+				if (info.category == Grammar::OperandCategory::BitEnum) // each bit of the mask brings its own parameters, from lowest to highest bit
+				{
+					for (unsigned int i = 0u; i < 32u; ++i)
+					{
+						if ((value & (1u << i)) != 0u)
+						{
+							printParameters(info.kind, 1u << i);
+						}
+					}
+				}
+				else
+				{
+					printParameters(info.kind, value);
+				}
+			}
+
+			if (info.quantifier != Grammar::Quantifier::ZeroOrAny)
+			{
+				++_info;
+			}
+		}
+
+		// operands which the grammar does not know
+		for (const Grammar::Operand unknown{ Grammar::OperandKind::LiteralInteger, Grammar::OperandCategory::Literal, nullptr, Grammar::Quantifier::One }; _it != end; ++_it)
+		{
+			success &= printOperand(_instr, *_it, unknown, _grammar, _printer, _options);
+		}
+
+		return success;
+	}
 } // !anonymous
 
 void spvgentwo::ModulePrinter::ModuleStringPrinter::append(const char* _pStr, const char* _pushColor, const char* _popColor)
@@ -213,6 +446,12 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 	auto* instrInfo = _grammar.getInfo(static_cast<unsigned int>(_instr.getOperation()));
 	const auto& colors = _printer.getColorScheme();
 
+	if (instrInfo == nullptr)
+	{
+		_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
+		return false; // invalid instruction
+	}
+
 	if (_instr.hasResult() && ((_options & PrintOptionsBits::InstructionName) || (_options & PrintOptionsBits::ResultId)))
 	{
 		if (const char* name = _instr.getName(); (_options & PrintOptionsBits::InstructionName) && name != nullptr && stringLength(name) > 1)
@@ -245,118 +484,7 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 		_printer <<  instrInfo->name;	
 	}
 
-	auto it = _instr.begin();
-	auto end = _instr.end();
-
-	for (const Grammar::Operand& info : instrInfo->operands)
-	{
-		if (it == end)
-		{
-			if (info.quantifier == Grammar::Quantifier::One) // last operand was not optional
-			{
-				_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
-				return false; // invalid instruction			
-			}
-			break;
-		}
-
-		if (info.kind == Grammar::OperandKind::LiteralString)
-		{
-			_printer << " \"";
-			it = appendLiteralString(_printer, it, end, colors.string, colors.defaultText);
-			_printer << "\"";
-
-			continue;
-		}
-		
-		if (info.category == Grammar::OperandCategory::Composite)
-		{
-			if (auto* bases = _grammar.getOperandBases(info.kind); bases != nullptr)
-			{
-				auto bit = bases->begin();
-				auto bend = bases->end();
-
-				for (; it != end; ++it, ++bit)
-				{
-					if (bit == bend) // reset
-					{
-						bit = bases->begin();
-					}
-
-					success &= printOperand(_instr, *it, *bit, _grammar, _printer, _options);
-				}
-
-				continue;
-			}
-			else
-			{
-				_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
-				return false; // invalid instruction
-			}
-		}
-
-		success &= printOperand(_instr, *it, info, _grammar, _printer, _options);
-		// need to increment 'it' after this part
-
-		if (info.kind == Grammar::OperandKind::LiteralSpecConstantOpInteger)
-		{
-			Instruction constInstr;
-			constInstr.setParent(_instr); // allocator
-			constInstr.setOperation(static_cast<spv::Op>(it->getLiteral().value)); // opcode
-			if (constInstr.hasResultType())
-			{
-				constInstr.addOperand(*_instr.getResultTypeOperand());
-			}
-			if (constInstr.hasResult())
-			{
-				constInstr.addOperand(InvalidId);
-			}
-
-			// copy remaining operands
-			for (++it ;it != end; ++it)
-			{
-				constInstr.addOperand(*it);
-			}
-
-			_printer << " [";
-			success &= printInstruction(constInstr, _grammar, _printer, _options ^ PrintOptionsBits::ResultId, nullptr);
-			_printer << "]";
-		}
-		else if (Grammar::hasOperandParameters(info.kind))
-		{
-			if (auto* params = _grammar.getOperandParameters(info.kind, it->getLiteral()); params != nullptr)
-			{
-				auto pit = params->begin();
-				auto pend = params->end();
-
-				for (++it; it != end && pit != pend; ++pit)
-				{
-					if (pit->kind == Grammar::OperandKind::LiteralString)
-					{
-						_printer << " \"";
-						it = appendLiteralString(_printer, it, end, colors.string, colors.defaultText);
-						_printer << "\"";
-
-						continue;
-					}
-
-					success &= printOperand(_instr, *it, *pit, _grammar, _printer, _options);
-					++it;
-				}
-			}
-		}
-		else if (info.quantifier == Grammar::Quantifier::ZeroOrAny)
-		{
-			while(++it != end)
-			{
-				success &= printOperand(_instr, *it, info, _grammar, _printer, _options);			
-			}
-		}
-		else
-		{
-			++it;		
-		}
-	}
+	success &= printOperands(_instr, _instr.begin(), instrInfo->operands.begin(), instrInfo->operands.end(), _grammar, _printer, _options);
 
 	return success;
 }
-- 
2.43.0


From b25a15b0d5726f6f32b7320df3403d7e179e66b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 038/190] fix: floating point constants are disassembled with 6
 fractional digits only

---
 common/source/ModulePrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index f34ec9d..7c61870 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -551,8 +551,8 @@ bool spvgentwo::ModulePrinter::IModulePrinter::append(const Constant& _constant,
 	if (!printed && t.isU16())	printed = printConstData<unsigned short>(_constant, buf, "%u");
 	if (!printed && t.isU32())	printed = printConstData<unsigned int>(_constant, buf, "%u");
 	if (!printed && t.isU64())	printed = printConstData<unsigned long long>(_constant, buf, "%llu");
-	if (!printed && t.isF32())	printed = printConstData<float>(_constant, buf, "%f");
-	if (!printed && t.isF64())	printed = printConstData<double>(_constant, buf, "%f");
+	if (!printed && t.isF32())	printed = printConstData<float>(_constant, buf, "%.9g");
+	if (!printed && t.isF64())	printed = printConstData<double>(_constant, buf, "%.17g");
 
 	if (printed)
 	{
-- 
2.43.0


From b137d09b584a1c15297826f6c1bc7e43d1004064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 039/190] fix: disassembler returns 0 when the file can't be
 opened or serialized

---
 dis/source/dis.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dis/source/dis.cpp b/dis/source/dis.cpp
index 682cf2b..d9538b9 100644
--- a/dis/source/dis.cpp
+++ b/dis/source/dis.cpp
@@ -97,15 +97,16 @@ int main(int argc, char* argv[])
 
 		if (serialize)
 		{
-			if (BinaryFileWriter writer(alloc, "serialized.spv"); writer.isOpen())
+			if (BinaryFileWriter writer(alloc, "serialized.spv"); writer.isOpen() == false || module.finalizeAndWrite(writer) == false)
 			{
-				module.finalizeAndWrite(writer);
+				return -1;
 			}
 		}
 	}
 	else
 	{
 		logger.logError("Failed to open %s", spv);
+		return -1;
 	}
 
 	return 0;
-- 
2.43.0


From ec779fe3e2e03efc8f4148376bd2a2ab6e343fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 040/190] fix: compareLiteralString matches missing and
 unterminated literals and ignores the string length

---
 lib/source/Instruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 2508660..f4ccfd4 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -2140,7 +2140,7 @@ bool spvgentwo::compareLiteralString(const char* _pStr, Instruction::Iterator _b
 	for (auto it = _begin; it != _end && it->isLiteral() && j < _StrLength; ++it)
 	{
 		const char* str = reinterpret_cast<const char*>(&it->literal.value);
-		for (unsigned int i = 0u; i < sizeof(unsigned int); ++i)
+		for (unsigned int i = 0u; i < sizeof(unsigned int) && j < _StrLength; ++i)
 		{
 			if (str[i] == '\0' && _pStr[j] == '\0')
 			{
@@ -2152,5 +2152,5 @@ bool spvgentwo::compareLiteralString(const char* _pStr, Instruction::Iterator _b
 			}
 		}
 	};
-	return true;
+	return j == _StrLength; // otherwise the literal ended without terminator
 }
\ No newline at end of file
-- 
2.43.0


From 88ab799fb24c7b449df7c83fb0faffeec3ed22af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 041/190] fix: GrammarHelper::getOperandByName matches prefixes
 of operand names

---
 common/source/GrammarHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/GrammarHelper.cpp b/common/source/GrammarHelper.cpp
index 8fa5084..426adf6 100644
--- a/common/source/GrammarHelper.cpp
+++ b/common/source/GrammarHelper.cpp
@@ -20,7 +20,7 @@ namespace
 			++_pRight;
 		}
 
-		return true;
+		return *_pLeft == *_pRight;
 	}
 }
 
-- 
2.43.0


From cf240de2cbc22200a8291537db8900fb0e149305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 042/190] fix: GrammarHelper reads past the end of the grammar
 operands

---
 common/source/GrammarHelper.cpp | 34 +++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/common/source/GrammarHelper.cpp b/common/source/GrammarHelper.cpp
index 426adf6..dc411fc 100644
--- a/common/source/GrammarHelper.cpp
+++ b/common/source/GrammarHelper.cpp
@@ -30,15 +30,26 @@ spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getFirstOperandOfKind
 	{
 		auto opIt = info->operands.begin();
 
-		for (auto it = _pInstruction->begin(); it != nullptr && opIt != nullptr; )
+		for (auto it = _pInstruction->begin(); it != nullptr && opIt != info->operands.end(); )
 		{
 			if (opIt->kind == _kind)
 			{
 				return it;
 			}
 
-			++it;
-			++opIt;
+			if (opIt->kind == Grammar::OperandKind::LiteralString)
+			{
+				it = skipLiteralString(it);
+			}
+			else
+			{
+				++it;
+			}
+
+			if (opIt->quantifier != Grammar::Quantifier::ZeroOrAny)
+			{
+				++opIt;
+			}
 		}
 	}
 
@@ -51,15 +62,26 @@ spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getOperandByName(cons
 	{
 		auto opIt = info->operands.begin();
 
-		for (auto it = _pInstruction->begin(); it != nullptr && opIt != nullptr; )
+		for (auto it = _pInstruction->begin(); it != nullptr && opIt != info->operands.end(); )
 		{
 			if (stringCmp(_pName, opIt->name))
 			{
 				return it;
 			}
 
-			++it;
-			++opIt;
+			if (opIt->kind == Grammar::OperandKind::LiteralString)
+			{
+				it = skipLiteralString(it);
+			}
+			else
+			{
+				++it;
+			}
+
+			if (opIt->quantifier != Grammar::Quantifier::ZeroOrAny)
+			{
+				++opIt;
+			}
 		}
 	}
 
-- 
2.43.0


From 05765798b941b8c88715bdd16f6cb18743ef3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 043/190] fix: collectReferencedVariables dereferences missing
 callees

---
 lib/source/Function.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 14538e0..dc9e03c 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -336,8 +336,14 @@ void spvgentwo::collectReferencedVariables(const Function& _func, List<Operand>&
 					if (instr.getOperation() == spv::Op::OpFunctionCall)
 					{
 						// 3rd arg of opFunctionCall is OpFunction whos parent Function class holds the BBs were looking for
-						Instruction* pOpFunc = (instr.begin() + 2u)->getInstruction();
-						Function* pFunction = pOpFunc->getFunction();
+						auto itFunc = instr.begin() + 2u;
+						Instruction* pOpFunc = itFunc != nullptr ? itFunc->getInstruction() : nullptr;
+						Function* pFunction = pOpFunc != nullptr ? pOpFunc->getFunction() : nullptr;
+
+						if (pFunction == nullptr)
+						{
+							continue;
+						}
 
 						// add unvisited function BBs
 						for (BasicBlock& funcBB : *pFunction)
-- 
2.43.0


From 0a52e335a1626fd53e120f5db60e7d36ae4193c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 044/190] fix: entry point interface misses all but the first
 variable an instruction uses

---
 lib/source/Function.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index dc9e03c..3cc7ae7 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -386,7 +386,6 @@ void spvgentwo::collectReferencedVariables(const Function& _func, List<Operand>&
 					{
 						_outVarInstr.emplace_back(pArg);
 					}
-					break;
 				}
 			}
 		}
-- 
2.43.0


From 71b2b422ba1e40b1dcb3adcf524f92746798e1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 045/190] fix: FunctionCallGraph dereferences missing callees

---
 common/source/FunctionCallGraph.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/source/FunctionCallGraph.cpp b/common/source/FunctionCallGraph.cpp
index c99befd..25ca25e 100644
--- a/common/source/FunctionCallGraph.cpp
+++ b/common/source/FunctionCallGraph.cpp
@@ -20,9 +20,15 @@ void spvgentwo::FunctionCallGraph::add(const Function& _func)
 		{
 			if (instr == spv::Op::OpFunctionCall)
 			{
-				if (auto it = instr.getFirstActualOperand(); it != nullptr && it->isInstruction())
+				if (auto it = instr.getFirstActualOperand(); it != nullptr && it->getInstruction() != nullptr)
 				{
 					Function* dstFunc = it->getInstruction()->getFunction();
+
+					if (dstFunc == nullptr)
+					{
+						continue;
+					}
+
 					auto dstIt = this->m_nodes.find_if([&dstFunc](NodeType& n) { return n.data() == dstFunc; });
 
 					NodeType* dst = nullptr;
-- 
2.43.0


From 4d80b7dbcb150552a877dcfa064bc6a5bdbe0715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 046/190] fix: moving a module loses its generator

---
 lib/source/Module.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index d6adbfb..9b05795 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -59,6 +59,7 @@ spvgentwo::Module::Module(Module&& _other) noexcept:
 	m_pLogger(_other.m_pLogger),
 	m_pTypeInferenceAndVailation(_other.m_pTypeInferenceAndVailation),
 	m_spvVersion(_other.m_spvVersion),
+	m_spvGenerator(_other.m_spvGenerator),
 	m_spvBound(_other.m_spvBound),
 	m_spvSchema(_other.m_spvSchema),
 	m_Functions(stdrep::move(_other.m_Functions)),
@@ -94,6 +95,7 @@ spvgentwo::Module& spvgentwo::Module::operator=(Module&& _other) noexcept
 	m_pLogger = _other.m_pLogger;
 	m_pTypeInferenceAndVailation = _other.m_pTypeInferenceAndVailation;
 	m_spvVersion = _other.m_spvVersion;
+	m_spvGenerator = _other.m_spvGenerator;
 	m_spvBound = _other.m_spvBound;
 	m_spvSchema = _other.m_spvSchema;
 	m_Functions = stdrep::move(_other.m_Functions);
-- 
2.43.0


From 682980c006d56e17dcdfccc75c7ad34133bfcb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 047/190] fix: Module::reset sets a newer version than the
 initial one

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 9b05795..49bafb2 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -173,7 +173,7 @@ spvgentwo::Module::~Module()
 
 void spvgentwo::Module::reset()
 {
-	m_spvVersion = spv::Version;
+	m_spvVersion = makeVersion(1u, 0u);
 	m_spvGenerator = GeneratorId;
 	m_spvBound = 0u;
 	m_spvSchema = 0u;
-- 
2.43.0


From 5c7d960bf37f2a0012bf8a85b5b78f88e91b07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 048/190] fix: addCapability ignores the secondary base
 capability

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 49bafb2..325fbb7 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -322,7 +322,7 @@ void spvgentwo::Module::addCapability(spv::Capability _capability, bool _addDepe
 		}
 		if (cap.secondary != spv::Capability::Max)
 		{
-			addCapability(cap.primary, true);
+			addCapability(cap.secondary, true);
 		}
 	}
 
-- 
2.43.0


From c97548f524dc8b35c0f0960be730bc4af2d2fc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 049/190] fix: getLocalSize dereferences missing operands of
 size constants

---
 common/source/ReflectionHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 0be9a01..6094cb8 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -24,7 +24,7 @@ bool spvgentwo::ReflectionHelper::getLocalSize(const Module& _module, unsigned i
 					if (instr == nullptr || instr->isSpecOrConstant() == false)
 						return 0u;
 
-					if(auto it = instr->getFirstActualOperand(); it->isLiteral() )
+					if(auto it = instr->getFirstActualOperand(); it != nullptr && it->isLiteral() )
 					{
 						return it->literal;
 					}
-- 
2.43.0


From 7463091091315572c452b9b0e3be0f81d430dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 050/190] fix: decoration and name queries dereference missing
 operands

---
 common/include/common/ReflectionHelperTemplate.inl | 4 ++--
 common/source/ReflectionHelper.cpp                 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/common/ReflectionHelperTemplate.inl b/common/include/common/ReflectionHelperTemplate.inl
index db31638..c145301 100644
--- a/common/include/common/ReflectionHelperTemplate.inl
+++ b/common/include/common/ReflectionHelperTemplate.inl
@@ -49,7 +49,7 @@ void spvgentwo::ReflectionHelper::getDecorationsFunc(const Instruction* _pTarget
 
 	for (Instruction& decoration : _pTarget->getModule()->getDecorations())
 	{
-		if (*decoration.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = decoration.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target
 		{
 			_func(&decoration);
 		}
@@ -64,7 +64,7 @@ void spvgentwo::ReflectionHelper::getNamesFunc(const Instruction* _pTarget, Func
 
 	for (Instruction& name : _pTarget->getModule()->getNames())
 	{
-		if (*name.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = name.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target
 		{
 			_func(&name);
 		}
diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 6094cb8..ea0adbb 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -67,7 +67,7 @@ void spvgentwo::ReflectionHelper::getDecorations(const Instruction* _pTarget, Li
 
 	for(Instruction& decoration : _pTarget->getModule()->getDecorations())
 	{
-		if (*decoration.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = decoration.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target
 		{
 			_outDecorations.emplace_back(&decoration);
 		}
-- 
2.43.0


From 18c72309b3887ca6cf278a167090e6f5525b0335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 051/190] fix: getSpvDecorationAndLiteralFromDecoration accepts
 any instruction

---
 common/source/ReflectionHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index ea0adbb..06e556d 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -97,7 +97,7 @@ spvgentwo::spv::Decoration spvgentwo::ReflectionHelper::getSpvDecorationKindFrom
 
 bool spvgentwo::ReflectionHelper::getSpvDecorationAndLiteralFromDecoration(const Instruction* _pInDecoration, spv::Decoration& _outDecoration, unsigned int& _outValue)
 {
-	if (_pInDecoration == nullptr || (*_pInDecoration != spv::Op::OpDecorate && *_pInDecoration == spv::Op::OpMemberDecorate))
+	if (_pInDecoration == nullptr || (*_pInDecoration != spv::Op::OpDecorate && *_pInDecoration != spv::Op::OpMemberDecorate))
 	{
 		return false;
 	}
-- 
2.43.0


From 4f74f7435a7e9a709ed6a82619a023601e518096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 052/190] fix: getVariablesWithDecoration never reports
 decorations without literals

---
 common/include/common/ReflectionHelperTemplate.inl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/include/common/ReflectionHelperTemplate.inl b/common/include/common/ReflectionHelperTemplate.inl
index c145301..8b277a6 100644
--- a/common/include/common/ReflectionHelperTemplate.inl
+++ b/common/include/common/ReflectionHelperTemplate.inl
@@ -11,6 +11,11 @@ void spvgentwo::ReflectionHelper::getVariablesWithDecorationFunc(const Module& _
 	{
 		auto target = deco.getFirstActualOperand();
 
+		if (target == nullptr || target->getInstruction() == nullptr)
+		{
+			continue;
+		}
+
 		auto it = target.next(); // skip target ID
 
 		bool match = false;
@@ -24,11 +29,11 @@ void spvgentwo::ReflectionHelper::getVariablesWithDecorationFunc(const Module& _
 			++it;
 		}
 
-		if (match && it.next() != nullptr)
+		if (match)
 		{
 			if (_pValue != nullptr)
 			{
-				if (*_pValue == it.next()->getLiteral())
+				if (it.next() != nullptr && *_pValue == it.next()->getLiteral())
 				{
 					_func(target->getInstruction());
 				}
-- 
2.43.0


From 4ff474f245018f138dc94f157410ca55f170b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 053/190] fix: printing a boolean constant with an invalid
 value is undefined behaviour

---
 common/source/ModulePrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 7c61870..1a20a90 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -532,9 +532,9 @@ bool spvgentwo::ModulePrinter::IModulePrinter::append(const Constant& _constant,
 
 	if (t.isBool())
 	{
-		if (const bool* data = _constant.getDataAs<bool>(false); data != nullptr)
+		if (const unsigned int* data = _constant.getDataAs<unsigned int>(false); data != nullptr)
 		{
-			append(*data ? "true" : "false", _pushColor, _popColor);
+			append(*data != 0u ? "true" : "false", _pushColor, _popColor);
 			return true;
 		}
 		return false;
-- 
2.43.0


From a79089bc557ba2b5623a3773c44a2c61ca1492e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 054/190] fix: boolean constants of parsed modules have no data
 and are not found again

---
 lib/source/Module.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 325fbb7..5ddb93b 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1050,11 +1050,15 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			switch (instr.getOperation())
 			{
 			case spv::Op::OpConstantNull:
+				break; // nothing to do
 			case spv::Op::OpConstantTrue:
 			case spv::Op::OpSpecConstantTrue:
+				c.addData(true);
+				break;
 			case spv::Op::OpConstantFalse:
 			case spv::Op::OpSpecConstantFalse:
-				break; // nothing to do
+				c.addData(false);
+				break;
 			case spv::Op::OpConstant:
 			case spv::Op::OpSpecConstant:
 			case spv::Op::OpConstantSampler:
-- 
2.43.0


From c43a77c6cd230f44598e2c046b41234317725834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:02 +0000
Subject: [PATCH 055/190] fix: words of wide constants are printed in addition
 to their value

---
 common/source/ModulePrinter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 1a20a90..c9ba5e6 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -334,7 +334,11 @@ namespace
 				{
 					_printer << " ";
 				}
-				if (c == nullptr || _printer.append(*c, colors.constant, colors.defaultText) == false)
+				if (c != nullptr && _printer.append(*c, colors.constant, colors.defaultText))
+				{
+					_it = end;
+				}
+				else
 				{
 					for (; _it != end; ++_it)
 					{
-- 
2.43.0


From ad7fa9a854f4ce624cf83e34251d96761023f277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 056/190] fix: validateOperands must not take front() of an
 empty branch target block

---
 lib/source/TypeInferenceAndValiation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 2d54208..83da711 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -558,7 +558,7 @@ bool spvgentwo::ITypeInferenceAndVailation::validateOperands(const spvgentwo::In
 				module->logError("Unassigned branchtarget operand (nullptr)");
 				return false;
 			}
-			else if (&op.branchTarget->front() == &_instr)
+			else if (op.branchTarget->empty() == false && &op.branchTarget->front() == &_instr)
 			{
 				module->logError("Recursive branch target instruction operand");
 				return false;
-- 
2.43.0


From bbb4339936e87bfe7aea73d7be3260fe9f6ee75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 057/190] fix: opCompositeExtractDynamic derived its result
 type from the first sub type instead of the composite

---
 lib/source/Instruction.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index f4ccfd4..59f218e 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1274,12 +1274,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeExtractDynamic(Instru
 		return error();
 	}
 
-	auto it = pBaseType->getSubType(0u);
-
-	if (it != nullptr)
-	{
-		it = it->getSubType(_indices);
-	}
+	auto it = pBaseType->getSubType(_indices);
 
 	if (it != nullptr)
 	{
-- 
2.43.0


From acde87f0207ee4636bcc17f6695bbbd891df57f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 058/190] fix: getTypeFromOp did not know OpBitCount,
 opBitCount rejected every operand

---
 lib/include/spvgentwo/SpvDefines.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 20e88be..3775c04 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -193,6 +193,7 @@ namespace spvgentwo
 		case spv::Op::OpSatConvertSToU:
 		case spv::Op::OpBitFieldInsert:
 		case spv::Op::OpBitReverse:
+		case spv::Op::OpBitCount:
 
 			_sign = Sign::Any;
 			return spv::Op::OpTypeInt;
-- 
2.43.0


From 8d8334e111853239b21a57d468cc74cb25785107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 059/190] fix: opVectorTimesMatrix result type must have one
 component per matrix column

---
 lib/source/Instruction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 59f218e..3e7b93a 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1433,7 +1433,9 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVectorTimesMatrix(Instruction*
 
 	if (pVecType->isVectorOfFloat() && pMatType->isMatrix() && pMatType->hasSameBase(*pVecType) && pMatType->front().getVectorComponentCount() == pVecType->getVectorComponentCount())
 	{
-		return makeOp(spv::Op::OpVectorTimesMatrix, _pVector->getResultTypeInstr(), InvalidId, _pVector, _pMatrix);
+		// the result has one component per matrix column
+		Instruction* pResultType = getModule()->addType(pVecType->front().wrapVector(pMatType->getMatrixColumnCount()));
+		return makeOp(spv::Op::OpVectorTimesMatrix, pResultType, InvalidId, _pVector, _pMatrix);
 	}
 
 	getModule()->logError("Operand of OpVectorTimesMatrix is not a vector or matrix of float type");
-- 
2.43.0


From 2388fd3c4f99c149b87dd1fa9edd7bfcd40a6c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 060/190] fix: opPhiDynamic dropped its first variable

---
 lib/source/Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 3e7b93a..7e36b5e 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1070,7 +1070,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opPhiDynamic(const List<Instruct
 
 	makeOp(spv::Op::OpPhi, type, InvalidId);
 
-	for (auto it = _variables.begin().next(); it != _variables.end(); ++it)
+	for (auto it = _variables.begin(); it != _variables.end(); ++it)
 	{
 		Instruction* var = *it;
 		if (var == nullptr || (var->getResultTypeInstr() != type) || (var->getBasicBlock() == nullptr))
-- 
2.43.0


From ed57d444474878a86d7f0a338637781ff0041f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 061/190] fix: If() left the branch blocks of empty lambdas
 without terminator

---
 lib/include/spvgentwo/BasicBlockTemplate.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/BasicBlockTemplate.inl b/lib/include/spvgentwo/BasicBlockTemplate.inl
index 5832e83..7cbccd9 100644
--- a/lib/include/spvgentwo/BasicBlockTemplate.inl
+++ b/lib/include/spvgentwo/BasicBlockTemplate.inl
@@ -19,11 +19,11 @@ namespace spvgentwo
 		_false(falseBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.empty() == false && trueBB.back().isTerminator() == false)
+		if (trueBB.getTerminator() == nullptr)
 		{
 			trueBB->opBranch(&mergeBB);
 		}
-		if (falseBB.empty() == false && falseBB.back().isTerminator() == false)
+		if (falseBB.getTerminator() == nullptr)
 		{
 			falseBB->opBranch(&mergeBB);
 		}
@@ -45,7 +45,7 @@ namespace spvgentwo
 		_true(trueBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.empty() == false && trueBB.back().isTerminator() == false)
+		if (trueBB.getTerminator() == nullptr)
 		{
 			trueBB->opBranch(&mergeBB);		
 		}
-- 
2.43.0


From 524e8d1dcbc9b457185d637519e59eecf95c3a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 062/190] fix: Loop() appended a second terminator to blocks
 terminated by the user

---
 lib/include/spvgentwo/BasicBlockTemplate.inl | 11 +++++++++--
 lib/source/BasicBlock.cpp                    | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/BasicBlockTemplate.inl b/lib/include/spvgentwo/BasicBlockTemplate.inl
index 7cbccd9..e243737 100644
--- a/lib/include/spvgentwo/BasicBlockTemplate.inl
+++ b/lib/include/spvgentwo/BasicBlockTemplate.inl
@@ -79,10 +79,17 @@ namespace spvgentwo
 		condBB->opBranchConditional(pCond, &bodyBB, &mergeBB);
 
 		_body(bodyBB);
-		bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
+		// check if user didnt exit controlflow via kill or similar
+		if (bodyBB.getTerminator() == nullptr)
+		{
+			bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
+		}
 
 		_continue(continueBB);
-		continueBB->opBranch(&loop); // back edge to loop merge
+		if (continueBB.getTerminator() == nullptr)
+		{
+			continueBB->opBranch(&loop); // back edge to loop merge
+		}
 
 		return mergeBB;
 	}
diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 18cf2a1..cd2b593 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -214,8 +214,15 @@ spvgentwo::BasicBlock& spvgentwo::BasicBlock::Loop(Instruction* _pCondition, Bas
 	addInstruction()->opBranch(&condBB);
 
 	condBB->opBranchConditional(_pCondition, &_body, &mergeBB);
-	_body->opBranch(&_continue); // branch to "increment" / continue block
-	_continue->opBranch(this); // back edge to loop merge
+	// check if user didnt exit controlflow via kill or similar
+	if (_body.getTerminator() == nullptr)
+	{
+		_body->opBranch(&_continue); // branch to "increment" / continue block
+	}
+	if (_continue.getTerminator() == nullptr)
+	{
+		_continue->opBranch(this); // back edge to loop merge
+	}
 
 	return mergeBB;
 }
-- 
2.43.0


From 06a8d2413d9620f22f28fc4c775e12d6110d1aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:50 +0000
Subject: [PATCH 063/190] fix: getSubType for a list of indices returned a sub
 type of the indexed type

---
 lib/source/Type.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index 9072a08..6c43f76 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -690,20 +690,20 @@ spvgentwo::Type& spvgentwo::Type::Member(const Type* _pSubType)
 
 spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getSubType(const List<unsigned int>& _indices) const
 {
-	auto it = m_subTypes.begin();
+	const Type* type = this;
+	auto it = m_subTypes.end();
 
 	for (auto i : _indices)
 	{
-		auto prev = it;
-		it = it + i;
-		if (it != nullptr)
-		{
-			it = it->getSubTypes().begin();
-		}
-		else
+		const auto& subTypes = type->getSubTypes();
+
+		if (subTypes.empty())
 		{
-			return prev;
+			return it;
 		}
+
+		it = subTypes.begin() + (i < subTypes.size() ? i : 0u);
+		type = it.operator->();
 	}
 
 	return it;
-- 
2.43.0


From c7642b7c656e62a1f9eef53277b86a23c5956df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 064/190] fix: opFrexpStruct dereferenced the sub type of a
 scalar operand

---
 lib/source/GLSL450Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 6bf091e..6ac3e59 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -212,7 +212,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opFrexpStruct(Instruction*
 	// components.
 
 	Type exponent(*significantType->getType());
-	exponent.front().Int(32);
+	exponent.getBaseType().Int(32);
 
 	Module* module = getModule();
 	Instruction* exponentType = module->addType(exponent);
-- 
2.43.0


From 6a019a11093d155f18cb259dd158b15451f4c523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 065/190] fix: opLength and opDistance rejected scalar operands

---
 lib/source/GLSL450Instruction.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 6ac3e59..80b3d7a 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -277,15 +277,12 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opLength(Instruction* _pX)
 	const Type* type = _pX->getType();
 	if (type == nullptr) return error();
 
-	if (type->isVectorOfFloat())
+	if (type->isScalarOrVectorOf(spv::Op::OpTypeFloat))
 	{
-		if (auto it = _pX->getResultTypeInstr()->getFirstActualOperand(); it != nullptr && it->isInstruction()) // extract base type
-		{
-			return opExtInst(it->instruction, ExtName, static_cast<unsigned int>(glslstd450::Op::Length), _pX);
-		}
+		return opExtInst(getModule()->addType(type->getBaseType()), ExtName, static_cast<unsigned int>(glslstd450::Op::Length), _pX);
 	}
 
-	getModule()->logError("Operand of opLength is not of type float vector");
+	getModule()->logError("Operand of opLength is not a float scalar or vector");
 
 	return error();
 }
@@ -299,10 +296,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opDistance(Instruction* _p
 
 	if (type1->isScalarOrVectorOfSameLength(spv::Op::OpTypeFloat, *type2))
 	{
-		if (auto it = _pP1->getResultTypeInstr()->getFirstActualOperand(); it != nullptr && it->isInstruction()) // extract base type
-		{
-			return opExtInst(it->instruction, ExtName, static_cast<unsigned int>(glslstd450::Op::Distance), _pP1, _pP2);
-		}
+		return opExtInst(getModule()->addType(type1->getBaseType()), ExtName, static_cast<unsigned int>(glslstd450::Op::Distance), _pP1, _pP2);
 	}
 
 	getModule()->logError("Operand type of opDistance is not a float scalar or vector");
-- 
2.43.0


From bc44ae596ca85a5346e3dfb4656a81bcf33627de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:40 +0000
Subject: [PATCH 066/190] fix: opLdexp required the exponent to have the
 component width of x

---
 lib/source/GLSL450Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 80b3d7a..a649a5b 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -230,7 +230,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opLdexp(Instruction* _pFlo
 
 	if (xType == nullptr || expType == nullptr) return error();
 
-	if (xType->isScalarOrVectorOfSameLength(*expType) && xType->getBaseType().isFloat() && expType->getBaseType().isInt())
+	if (xType->isScalarOrVectorOfSameLength(*expType, false) && xType->getBaseType().isFloat() && expType->getBaseType().isInt())
 	{
 		return opExtInst(resultType, ExtName, static_cast<unsigned int>(glslstd450::Op::Ldexp), _pFloatX, _pIntExp);
 	}
-- 
2.43.0


From 2b9f38e94582f58e3afb26bd5ea089eff6563eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 067/190] fix: assignIDs declared every alternative capability
 of an instruction

---
 lib/include/spvgentwo/Module.h |  3 ++
 lib/source/Module.cpp          | 83 +++++++++++++++++++++++++++++++---
 2 files changed, 80 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/Module.h b/lib/include/spvgentwo/Module.h
index 5251822..d92adcf 100644
--- a/lib/include/spvgentwo/Module.h
+++ b/lib/include/spvgentwo/Module.h
@@ -134,6 +134,9 @@ namespace spvgentwo
 		// check if OpCapability is present in the module
 		bool checkCapability(spv::Capability _capability) const;
 
+		// check if capability was added or is implicitly declared by one of the added capabilities
+		bool isCapabilityEnabled(spv::Capability _capability) const;
+
 		// returns true if OpCapability matching _capability was in the module
 		bool removeCapability(spv::Capability _capability);
 		
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 5ddb93b..f883f0b 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -334,6 +334,35 @@ bool spvgentwo::Module::checkCapability(spv::Capability _capability) const
 	return m_Capabilities.find(_capability) != m_Capabilities.end();
 }
 
+bool spvgentwo::Module::isCapabilityEnabled(spv::Capability _capability) const
+{
+	auto implies = [_capability](auto& _self, spv::Capability _declared) -> bool
+	{
+		if (_declared == _capability)
+		{
+			return true;
+		}
+
+		const BaseCapability base = getBaseCapability(_declared);
+		return (base.primary != spv::Capability::Max && _self(_self, base.primary)) || (base.secondary != spv::Capability::Max && _self(_self, base.secondary));
+	};
+
+	if (checkCapability(_capability))
+	{
+		return true;
+	}
+
+	for (const auto& node : m_Capabilities)
+	{
+		if (implies(implies, node.key))
+		{
+			return true;
+		}
+	}
+
+	return false;
+}
+
 bool spvgentwo::Module::removeCapability(spv::Capability _capability)
 {
 	if (auto it = m_Capabilities.find(_capability); it != m_Capabilities.end())
@@ -717,17 +746,59 @@ spvgentwo::spv::Id spvgentwo::Module::assignIDs(const Grammar* _pGrammar)
 	unsigned int maxId = 0u;
 	unsigned int maxVersion = m_spvVersion;
 
-	iterateInstructions([&maxId, &maxVersion, _pGrammar, this](Instruction& instr)
+	// the capabilities listed for an instruction are alternatives, one of them has to be declared (directly or implicitly)
+	auto addOneOf = [this](const Vector<spv::Capability>& _capabilities)
+	{
+		if (_capabilities.empty())
+		{
+			return;
+		}
+
+		for (const spv::Capability& c : _capabilities)
+		{
+			if (isCapabilityEnabled(c))
+			{
+				return;
+			}
+		}
+
+		spv::Capability pick = _capabilities[0];
+		for (const spv::Capability& c : _capabilities)
+		{
+			if (c != spv::Capability::Kernel) // dont turn a shader module into a kernel
+			{
+				pick = c;
+				break;
+			}
+		}
+
+		logDebug("Adding SPIR-V capability %u", static_cast<unsigned>(pick)); // TODO: get name of capability
+		addCapability(pick);
+	};
+
+	if (_pGrammar != nullptr) // the memory model is not part of the instruction grammar
+	{
+		if (auto model = m_MemoryModel.getFirstActualOperand(); model != nullptr && model.next() != nullptr)
+		{
+			const auto addressing = static_cast<spv::AddressingModel>(model->getLiteral().value);
+			const auto memory = static_cast<spv::MemoryModel>(model.next()->getLiteral().value);
+
+			if (addressing == spv::AddressingModel::Physical32 || addressing == spv::AddressingModel::Physical64) addCapability(spv::Capability::Addresses);
+			else if (addressing == spv::AddressingModel::PhysicalStorageBuffer64) addCapability(spv::Capability::PhysicalStorageBufferAddresses);
+
+			if (memory == spv::MemoryModel::OpenCL) addCapability(spv::Capability::Kernel);
+			else if (memory == spv::MemoryModel::Vulkan) addCapability(spv::Capability::VulkanMemoryModel);
+			else if (isCapabilityEnabled(spv::Capability::Shader) == false) addCapability(spv::Capability::Shader);
+		}
+	}
+
+	iterateInstructions([&maxId, &maxVersion, &addOneOf, _pGrammar, this](Instruction& instr)
 	{
 		if (_pGrammar != nullptr) // add missing capabilities, extensions and required version
 		{
 			if (auto* info = _pGrammar->getInfo(static_cast<unsigned int>(instr.getOperation())); info != nullptr)
 			{
-				for (const spv::Capability& c : info->capabilities)
-				{
-					logDebug("Adding SPIR-V capability %u", static_cast<unsigned>(c)); // TODO: get name of capability
-					addCapability(c);
-				}
+				addOneOf(info->capabilities);
 				for (const spv::Extension& e : info->extensions)
 				{
 					logDebug("Adding SPIR-V extension %s for use of %s", spv::ExtensionNames[static_cast<unsigned>(e)], info->name);
-- 
2.43.0


From 06535c5617bdf5fadde6fe631262d93ba2a41dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 068/190] fix: opImageWrite compared the texel length with the
 image dimension

---
 lib/include/spvgentwo/InstructionTemplate.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index b3ec547..2bd0cee 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -793,7 +793,9 @@ namespace spvgentwo
 
 		const Type& sampledType = imageType->front();
 
-		if (texelType->isScalarOrVectorOf(sampledType.getType(), getImageDimension(imageType->getImageDimension()) ) == false)
+		const Type& texelComponent = texelType->isVector() ? texelType->front() : *texelType;
+
+		if (texelComponent.isNumerial() == false || (sampledType.isVoid() == false && texelComponent != sampledType))
 		{
 			module->logError("OpImageWrite texel type must be numerical scalar or vector of type %s", sampledType.getString());
 			return error();
-- 
2.43.0


From b1c6eb8fc34abd5f1957fbff6fce63fc6eb05ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 069/190] fix: image coordinates of cube images and
 OpImageQueryLod were checked against a wrong dimension

---
 lib/include/spvgentwo/Instruction.h           | 3 ++-
 lib/include/spvgentwo/InstructionTemplate.inl | 9 ++++++---
 lib/source/Instruction.cpp                    | 8 +++++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index 850af2b..e55698c 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -766,7 +766,8 @@ namespace spvgentwo
 		{
 			IsProjective = 1 << 0,
 			CanBeInt = 1 << 1,
-			MustBeInt = 1 << 2
+			MustBeInt = 1 << 2,
+			NoArrayLayer = 1 << 3 // coordinates don't have a separate component for the array layer
 		};
 
 		// Checks dimension & element type of coordiantes to access a image of type _pImageType
diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 2bd0cee..cae5b59 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -686,6 +686,7 @@ namespace spvgentwo
 			}
 			isSampled = false;
 			coordCheckArgs |= CheckImgCoord::MustBeInt;
+			if (imageType->getImageDimension() == spv::Dim::Cube) coordCheckArgs |= CheckImgCoord::NoArrayLayer;
 			break;
 		//case spv::Op::OpImageSparseFetch:
 		case spv::Op::OpImageFetch:
@@ -717,9 +718,8 @@ namespace spvgentwo
 		case spv::Op::OpImageSampleDrefExplicitLod:		isSampled = true; isDref = true; break;
 		case spv::Op::OpImageSampleProjDrefImplicitLod: isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; isDref = true; break;
 		case spv::Op::OpImageSampleProjDrefExplicitLod: isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; isDref = true; break;
-		case spv::Op::OpImageQueryLod:					isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; break;
+		case spv::Op::OpImageQueryLod:					isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; coordCheckArgs |= CheckImgCoord::NoArrayLayer; break;
 
-			break;
 		default:
 			module.logError("_imageOp is not supported / implemented");
 			return error();
@@ -786,7 +786,10 @@ namespace spvgentwo
 			return error();
 		}
 
-		if (checkImageCoordinateType(imageType, coordType, CheckImgCoord::MustBeInt) == false)
+		Flag<CheckImgCoord> coordCheckArgs = CheckImgCoord::MustBeInt;
+		if (imageType->getImageDimension() == spv::Dim::Cube) coordCheckArgs |= CheckImgCoord::NoArrayLayer;
+
+		if (checkImageCoordinateType(imageType, coordType, coordCheckArgs) == false)
 		{
 			return error();		
 		}
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 7e36b5e..2faf4b9 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1843,7 +1843,13 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 		return false;
 	}
 
-	if (_pImageType->getImageArray())
+	// cube images are addressed with a direction, or with texel coordinates and layer face index
+	if (_pImageType->getImageDimension() == spv::Dim::Cube)
+	{
+		dim += 1u;
+	}
+
+	if (_pImageType->getImageArray() && _args.none(CheckImgCoord::NoArrayLayer))
 	{
 		dim += 1u;
 	}
-- 
2.43.0


From 96beed00ac719cea3eaf9784273a3d25e7792a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 070/190] fix: integer coordinates were accepted for gather and
 projective sampling and float coordinates for OpImageFetch

---
 lib/include/spvgentwo/InstructionTemplate.inl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index cae5b59..f4a9c90 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -696,14 +696,13 @@ namespace spvgentwo
 				return error();
 			}
 			isSampled = false;
-			coordCheckArgs |= CheckImgCoord::CanBeInt;
+			coordCheckArgs |= CheckImgCoord::MustBeInt;
 			break;
 		case spv::Op::OpImageDrefGather:
 			isDref = true; [[fallthrough]];
 		case spv::Op::OpImageGather:
 			isSampled = true;
 			isComponent = !isDref;
-			coordCheckArgs |= CheckImgCoord::CanBeInt;
 			if (spv::Dim d = imageType->getImageDimension(); d != spv::Dim::Dim2D && d != spv::Dim::Cube && d != spv::Dim::Rect)
 			{
 				module.logError("OpImageGather requres Dim of sampled image to be 2D, Cube or Rect");
@@ -712,7 +711,7 @@ namespace spvgentwo
 			break;
 		case spv::Op::OpImageSampleImplicitLod:			isSampled = true; break;
 		case spv::Op::OpImageSampleExplicitLod:			isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; break;
-		case spv::Op::OpImageSampleProjImplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; coordCheckArgs |= CheckImgCoord::IsProjective; break;
+		case spv::Op::OpImageSampleProjImplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; break;
 		case spv::Op::OpImageSampleProjExplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; break;
 		case spv::Op::OpImageSampleDrefImplicitLod:		isSampled = true; isDref = true; break;
 		case spv::Op::OpImageSampleDrefExplicitLod:		isSampled = true; isDref = true; break;
-- 
2.43.0


From 9ebd8446dfc683723669c4d570c508d42a1f91b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 071/190] fix: depth comparing samples and reads of single
 channel images returned vectors

---
 lib/source/TypeInferenceAndValiation.cpp | 30 ++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 83da711..85c692f 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -385,9 +385,35 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		// Result Type must be a scalar or vector of floating-point type or integer type. It must be a scalar or vector with
 		// component type the same as Sampled Type of the OpTypeImage(unless that Sampled Type is OpTypeVoid)
 
-		unsigned int components = instr != spv::Op::OpImageRead ? 4u : getImageChannelCount(image->getImageFormat());
+		//Dref samples:
+		// Result Type must be a scalar of integer type or floating-point type
+
+		unsigned int components = 4u;
+
+		switch (instr)
+		{
+		case spv::Op::OpImageSampleDrefImplicitLod:
+		case spv::Op::OpImageSampleDrefExplicitLod:
+		case spv::Op::OpImageSampleProjDrefImplicitLod:
+		case spv::Op::OpImageSampleProjDrefExplicitLod:
+			components = 1u;
+			break;
+		case spv::Op::OpImageRead:
+			// assume 4 components if the format is not known
+			if (unsigned int channels = getImageChannelCount(image->getImageFormat()); channels != 0u)
+			{
+				components = channels;
+			}
+			break;
+		default:
+			break;
+		}
 		
-		if (sampledType.isVoid())
+		if (components == 1u)
+		{
+			return sampledType.isVoid() ? module->type<float>() : module->addType(sampledType);
+		}
+		else if (sampledType.isVoid())
 		{
 			// assume float4
 			return module->type<vector_t<float, 4>>();
-- 
2.43.0


From 61a074bdedec370e369dc581b2ee10d9845668da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 072/190] fix: the size of a 1D image was queried as vector
 with one component

---
 lib/source/TypeInferenceAndValiation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 85c692f..11b318f 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -453,6 +453,11 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 
 		auto dim = getImageDimension(type1->getImageDimension()) + (type1->getImageArray() ? 1u : 0u);
 
+		if (dim == 1u)
+		{
+			return module->type<unsigned int>();
+		}
+
 		return module->addType(module->newType().Vector(dim).UIntM());
 	}
 	case spv::Op::OpImageQueryLod:
-- 
2.43.0


From d086ef17fe22a0cee5c26e6e0b6d41cf30bd29a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 073/190] fix: image operands were only checked for the first
 bit of the operand mask and gradients and offsets could not be used

---
 lib/source/TypeInferenceAndValiation.cpp | 205 ++++++++++++++---------
 1 file changed, 127 insertions(+), 78 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 11b318f..68fa74a 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -25,107 +25,156 @@ namespace
 		const Type* imageType = imgIt->getInstruction()->getType();
 		const Type* coordType = coordIt->getInstruction()->getType();
 
-		Flag<spv::ImageOperandsMask> opMask = spv::ImageOperandsMask::MaskNone;
-		Instruction::Iterator imageOp1 = nullptr;
+		if (imageType == nullptr || coordType == nullptr)
+		{
+			module->logError("Image or coordinate operand has no type");
+			return false;
+		}
 
-		if (drefCompoOrMask && drefCompoOrMask->isLiteral())
+		if (imageType->isSampledImage())
 		{
-			imageOp1 = drefCompoOrMask.next();
-			opMask = static_cast<spv::ImageOperandsMask>(drefCompoOrMask->getLiteral().value);
+			imageType = &imageType->front();
 		}
-		else if (drefCompoOrMask && drefCompoOrMask->isInstruction())
+
+		Flag<spv::ImageOperandsMask> opMask = spv::ImageOperandsMask::MaskNone;
+
+		auto maskIt = drefCompoOrMask && drefCompoOrMask->isInstruction() ? drefCompoOrMask.next() : drefCompoOrMask;
+		auto operandIt = maskIt ? maskIt.next() : maskIt; // first image operand
+
+		if (maskIt && maskIt->isLiteral())
 		{
-			imageOp1 = drefCompoOrMask + 2u;
-			if (drefCompoOrMask.next()) opMask = static_cast<spv::ImageOperandsMask>(drefCompoOrMask.next()->getLiteral().value);
+			opMask = static_cast<spv::ImageOperandsMask>(maskIt->getLiteral().value);
 		}
 
-		Instruction* op1 = imageOp1 != nullptr ? imageOp1->getInstruction() : nullptr;
-		Instruction* op2 = imageOp1.next() != nullptr ? imageOp1.next()->getInstruction() : nullptr;
-		const Type* type1 = op1 != nullptr ? op1->getType() : nullptr;
-		const Type* type2 = op2 != nullptr ? op2->getType() : nullptr;;
+		// consumes the next image operand, returns null if there is none
+		auto nextOperand = [&]() -> Instruction*
+		{
+			Instruction* operand = operandIt ? operandIt->getInstruction() : nullptr;
+			if (operandIt) ++operandIt;
+			return operand;
+		};
+
+		// number of coordinate components without array layer, projective component and depth reference
+		const unsigned int coordLength = getImageDimension(imageType->getImageDimension()) + (imageType->getImageDimension() == spv::Dim::Cube ? 1u : 0u);
 
-		auto checkCoordAndOperandDim = [&]() ->bool
+		// consumes the next image operand and checks its type, _length 0 means scalar
+		auto checkOperand = [&](const char* _name, spv::Op _baseType, unsigned int _length, bool _constant) -> bool
 		{
-			unsigned int coordLength = coordType->getScalarOrVectorLength() - (imageType->getImageArray() ? 1u : 0u);
-			if (coordLength != type1->getScalarOrVectorLength() || coordLength != type2->getScalarOrVectorLength())
+			Instruction* operand = nextOperand();
+			const Type* type = operand != nullptr ? operand->getType() : nullptr;
+
+			if (type == nullptr)
+			{
+				module->logError("Image operand %s is missing or has no type", _name);
+				return false;
+			}
+			if (type->isScalarOrVectorOf(_baseType) == false || type->getScalarOrVectorLength() != (_length == 0u ? 1u : _length) || type->getBaseType().getIntWidth() != 32u)
 			{
-				module->logError("Invalid derivative dimensions");
+				module->logError("Image operand %s has invalid type or dimension", _name);
+				return false;
+			}
+			if (_constant && operand->isSpecOrConstant() == false)
+			{
+				module->logError("Image operand %s is not a constant op", _name);
 				return false;
 			}
 			return true;
 		};
 
+		const bool multiSampled = imageType->getImageMultiSampled();
+		const bool isFetch = op == spv::Op::OpImageFetch || op == spv::Op::OpImageSparseFetch;
+		const bool isReadWrite = op == spv::Op::OpImageRead || op == spv::Op::OpImageWrite || op == spv::Op::OpImageSparseRead;
+
 		for (unsigned int i = 0u; opMask != spv::ImageOperandsMask::MaskNone && i <= (unsigned int)spv::ImageOperandsShift::ZeroExtend; ++i)
 		{
-			// TODO: get operands within the loop and dont return in the switch
 			spv::ImageOperandsMask mask = static_cast<spv::ImageOperandsMask>(1u << i);
-			if ((opMask & mask) == mask)
+			if ((opMask & mask) != mask)
+			{
+				continue;
+			}
+
+			switch (mask)
+			{
+			case spv::ImageOperandsMask::Bias:
+			case spv::ImageOperandsMask::MinLod:
+				if (isFetch || isReadWrite || multiSampled)
+				{
+					module->logError("Bias and MinLod operands require a sampling operation on a single sampled image");
+					return false;
+				}
+				if (checkOperand(mask == spv::ImageOperandsMask::Bias ? "Bias" : "MinLod", spv::Op::OpTypeFloat, 0u, false) == false) return false;
+				break;
+			case spv::ImageOperandsMask::Lod:
+				if (isReadWrite || multiSampled)
+				{
+					module->logError("Lod operand requires a sampling or fetch operation on a single sampled image");
+					return false;
+				}
+				if (checkOperand("Lod", isFetch ? spv::Op::OpTypeInt : spv::Op::OpTypeFloat, 0u, false) == false) return false;
+				break;
+			case spv::ImageOperandsMask::Grad:
+				if (checkOperand("Grad dx", spv::Op::OpTypeFloat, coordLength, false) == false) return false;
+				if (checkOperand("Grad dy", spv::Op::OpTypeFloat, coordLength, false) == false) return false;
+				break;
+			case spv::ImageOperandsMask::ConstOffset:
+			case spv::ImageOperandsMask::Offset:
+				if (imageType->getImageDimension() == spv::Dim::Cube)
+				{
+					module->logError("Offset operands can't be used with cube images");
+					return false;
+				}
+				if (checkOperand("Offset", spv::Op::OpTypeInt, coordLength, mask == spv::ImageOperandsMask::ConstOffset) == false) return false;
+				break;
+			case spv::ImageOperandsMask::ConstOffsets:
 			{
-				switch (mask)
+				Instruction* offsets = nextOperand();
+				const Type* type = offsets != nullptr ? offsets->getType() : nullptr;
+				if (op != spv::Op::OpImageGather && op != spv::Op::OpImageDrefGather)
+				{
+					module->logError("ConstOffsets operand can only be used with OpImageGather or OpImageDrefGather");
+					return false;
+				}
+				if (type == nullptr || offsets->isSpecOrConstant() == false || type->isArray() == false || type->getArrayLength() != 4u || type->front().isVectorOfInt(2u) == false)
+				{
+					module->logError("ConstOffsets operand must be a constant array of four integer vectors with two components");
+					return false;
+				}
+				break;
+			}
+			case spv::ImageOperandsMask::Sample:
+				if (isFetch == false && isReadWrite == false)
+				{
+					module->logError("Sample operand can only be used with OpImageFetch,OpImageRead,OpImageWrite,OpImageSparseFetch or OpImageSparseRead");
+					return false;
+				}
+				if (multiSampled == false)
 				{
-				case spv::ImageOperandsMask::Bias:
-					return module->logError(type1->isFloat(), "Bias operand must be of type float");
-				case spv::ImageOperandsMask::Lod:
-					return module->logError(op == spv::Op::OpImageFetch ? type1->isInt() : type1->isFloat(), "Lod operand must be of type float (or int for OpImageFetch)");
-				case spv::ImageOperandsMask::Grad:
-					if (checkCoordAndOperandDim() == false)
-					{
-						return false;
-					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeFloat) == false || type2->isBaseTypeOf(spv::Op::OpTypeFloat))
-					{
-						module->logError("Explicit lod grad operands must be scalar or vector of float");
-						return false;
-					}
-					return true;
-				case spv::ImageOperandsMask::ConstOffset:
-					if (op1->isSpecOrConstant() == false)
-					{
-						module->logError("Image operand is not a constant op");
-						return false;
-					}
-					[[fallthrough]];
-				case spv::ImageOperandsMask::Offset:
-					if (checkCoordAndOperandDim() == false)
-					{
-						return false;
-					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeInt) == false || type2->isBaseTypeOf(spv::Op::OpTypeInt))
-					{
-						module->logError("Explicit lod grad operands must be scalar or vector of integer");
-						return false;
-					}
-					return true;
-				case spv::ImageOperandsMask::ConstOffsets:
-					break; // not implemented yet
-				case spv::ImageOperandsMask::Sample:
-					if (op != spv::Op::OpImageFetch &&
-						op != spv::Op::OpImageRead &&
-						op != spv::Op::OpImageWrite &&
-						op != spv::Op::OpImageSparseFetch &&
-						op != spv::Op::OpImageSparseRead) {
-						module->logError("Sample operand can only be used with OpImageFetch,OpImageRead,OpImageWrite,OpImageSparseFetch or OpImageSparseRead");
-						return false;
-					}
-					return module->logError(type1->isInt() && imageType->getImageMultiSampled(), "Sample operand must be of type int & the image must be MS");
-				case spv::ImageOperandsMask::MinLod:
-					return module->logError(type1->isFloat(), "MinLod operand must be of type float");
-				case spv::ImageOperandsMask::MakeTexelAvailableKHR:
-				case spv::ImageOperandsMask::MakeTexelVisibleKHR:
-				case spv::ImageOperandsMask::NonPrivateTexelKHR:
-				case spv::ImageOperandsMask::VolatileTexelKHR:
-					return true; // reserved, no type check
-				case spv::ImageOperandsMask::SignExtend:
-					break; // not implemented yet
-				case spv::ImageOperandsMask::ZeroExtend:
-					break; // not implemented yet
-				default:
-					module->logError("Unknown operand mask");
-					continue;
+					module->logError("Sample operand requires a multi sampled image");
+					return false;
 				}
+				if (checkOperand("Sample", spv::Op::OpTypeInt, 0u, false) == false) return false;
+				break;
+			case spv::ImageOperandsMask::MakeTexelAvailableKHR:
+			case spv::ImageOperandsMask::MakeTexelVisibleKHR:
+				nextOperand(); // scope, no type check
+				break;
+			case spv::ImageOperandsMask::NonPrivateTexelKHR:
+			case spv::ImageOperandsMask::VolatileTexelKHR:
+			case spv::ImageOperandsMask::SignExtend:
+			case spv::ImageOperandsMask::ZeroExtend:
+				break; // no operand
+			default:
+				module->logError("Unknown operand mask");
+				break;
 			}
 		}
 
+		if (operandIt)
+		{
+			module->logError("Image operands don't match the image operand mask");
+			return false;
+		}
+
 		return true;
 	}
 }
-- 
2.43.0


From 5f6f1543ab33507fb1db89806c68db25703a65fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 074/190] fix: opSource without file encoded the source text as
 file id

---
 lib/source/Instruction.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 2faf4b9..c9d70ad 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -780,10 +780,17 @@ void spvgentwo::Instruction::opSource(spv::SourceLanguage _lang, unsigned int _v
 		else
 		{
 			getModule()->logError("Operand of _pFileString of opSource target must be OpString instruction");
+			return;
 		}
 	}
 	if (_pSourceText != nullptr)
 	{
+		if (_pFileString == nullptr)
+		{
+			// source text is the operand after the file id, it can't be encoded without
+			getModule()->logError("opSource with source text requires a _pFileString");
+			return;
+		}
 		appendLiterals(_pSourceText);
 	}
 }
-- 
2.43.0


From 31b4354e6119bab627e84a1192fd1ef2a03bf0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 075/190] fix: Type::Scalar made distinct types of a float or
 void with sign or width

---
 lib/source/Type.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index 6c43f76..421a507 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -272,20 +272,20 @@ spvgentwo::Type& spvgentwo::Type::Scalar(spv::Op _base, unsigned int _bits, bool
 {
 	reset();
 	m_Type = _base;
-	m_FloatWidth = _bits;
-	m_IntSign = _sign;
+
+	// void and bool have no width, only integers have a sign
+	if (_base == spv::Op::OpTypeInt || _base == spv::Op::OpTypeFloat)
+	{
+		m_FloatWidth = _bits;
+		m_IntSign = _base == spv::Op::OpTypeInt && _sign;
+	}
 
 	return *this;
 }
 
 spvgentwo::Type& spvgentwo::Type::Scalar(const dyn_scalar_t& _scalarType)
 {
-	reset();
-	m_Type = _scalarType.baseType;
-	m_FloatWidth = _scalarType.bits;
-	m_IntSign = _scalarType.sign;
-
-	return *this;
+	return Scalar(_scalarType.baseType, _scalarType.bits, _scalarType.sign);
 }
 
 spvgentwo::Type& spvgentwo::Type::Struct(const Type* _pSubType)
-- 
2.43.0


From 5283524bb03cf2f84bd241c9e116ada5bd2c7b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 076/190] fix: types with differently nested members had the
 same hash and shared one instruction

---
 lib/include/spvgentwo/Type.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index cf80c54..97faeb2 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -669,6 +669,9 @@ namespace spvgentwo
 			_hasher << _type.getImageFormat();
 			_hasher << _type.getAccessQualifier();
 				
+			// delimit the list of subtypes
+			_hasher << static_cast<unsigned int>(_type.getSubTypes().size());
+
 			for (const Type& sub : _type.getSubTypes()) {
 				operator()(sub, _hasher); // go deeper
 			}
-- 
2.43.0


From 07c6b63c43630895d3055a958ca8d985f8649315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 077/190] fix: OpTypePipe was not implemented by addType and
 reconstructTypeAndConstantInfo

---
 lib/include/spvgentwo/Type.h | 4 ++--
 lib/source/Module.cpp        | 6 ++++++
 lib/source/Type.cpp          | 3 ++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index 97faeb2..ca377c3 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -251,7 +251,7 @@ namespace spvgentwo
 
 		Type& Queue();
 
-		Type& Pipe();
+		Type& Pipe(spv::AccessQualifier _access = spv::AccessQualifier::ReadOnly);
 
 		Type& PipeStorage();
 
@@ -836,7 +836,7 @@ namespace spvgentwo
 	inline Type& Type::fundamental<queue_t>(const queue_t*) { return Queue(); }
 
 	template <>
-	inline Type& Type::fundamental<pipe_t>(const pipe_t*) { return Pipe(); }
+	inline Type& Type::fundamental<pipe_t>(const pipe_t*) { return m_AccessQualifier != spv::AccessQualifier::Max ? Pipe(m_AccessQualifier) : Pipe(); }
 
 	template <>
 	inline Type& Type::fundamental<pipe_storage_t>(const pipe_storage_t*) { return PipeStorage(); }
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index f883f0b..31ec03a 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -640,6 +640,9 @@ spvgentwo::Instruction* spvgentwo::Module::addType(const Type& _type, const char
 		pInstr->addOperand(addType(_type.getSubTypes().front())); // element type
 		pInstr->addOperand(constant(_type.getArrayLength())); // length as constant
 		break;
+	case spv::Op::OpTypePipe:
+		pInstr->appendLiterals(_type.getAccessQualifier());
+		break;
 	case spv::Op::OpTypeImage:
 		pInstr->addOperand(addType(_type.getSubTypes().front())); // sampled type
 		pInstr->appendLiterals(_type.getImageDimension());
@@ -1072,6 +1075,9 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				}
 			}
 			break;
+			case spv::Op::OpTypePipe:
+				t.setAccessQualifier(static_cast<spv::AccessQualifier>(it->getLiteral().value));
+				break;
 			case spv::Op::OpTypeImage:
 			{
 				const Type* sub = getSubType(it->getInstruction(), "Sampled type not found");
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index 421a507..a4cf7d6 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -452,10 +452,11 @@ spvgentwo::Type& spvgentwo::Type::Queue()
 	return *this;
 }
 
-spvgentwo::Type& spvgentwo::Type::Pipe()
+spvgentwo::Type& spvgentwo::Type::Pipe(spv::AccessQualifier _access)
 {
 	reset();
 	m_Type = spv::Op::OpTypePipe;
+	m_AccessQualifier = _access;
 	return *this;
 }
 
-- 
2.43.0


From c18b4a612d5157f7c39d163b15a7bba2aa87ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 078/190] fix: a parsed array with specialization constant
 length was returned for an array with literal length

---
 lib/source/Module.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 31ec03a..95777df 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -947,15 +947,21 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 
 	bool success = true;
 
+	// arrays with specialization constant length (and types composed of them) can't be requested by Type, which has a literal length
+	List<const Instruction*> specSized(_pAllocator != nullptr ? _pAllocator : m_pAllocator);
+
 	for (Instruction& instr : m_TypesAndConstants)
 	{
 		auto it = instr.getFirstActualOperand(); // TODO: validate number of available operands with Grammar in read() (for now just assume the .spv is valid)
 
 		// types & constants which Type & Constant can't represent (or which are forward declared) have no info, neither has anything composed of them
 		bool hasInfo = true;
+		bool isSpecSized = false;
 
 		auto getSubType = [&](const Instruction* _pSubType, const char* _pError) -> const Type*
 		{
+			isSpecSized |= specSized.contains(_pSubType);
+
 			const Type* sub = getTypeInfo(_pSubType);
 			if (sub == nullptr)
 			{
@@ -1068,6 +1074,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				if (pConstInstr->getOperation() == spv::Op::OpConstant || pConstInstr->getOperation() == spv::Op::OpSpecConstant)
 				{
 					t.setArrayLength(pConstInstr->getFirstActualOperand()->getLiteral()); // array length
+					isSpecSized |= pConstInstr->getOperation() == spv::Op::OpSpecConstant;
 				}
 				else
 				{
@@ -1106,8 +1113,17 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				continue;
 			}
 
-			auto& node = m_TypeToInstr.emplaceUnique(stdrep::move(t), &instr);
+			auto& node = m_TypeToInstr.emplaceUnique(stdrep::move(t), nullptr);
 			m_InstrToType.emplaceUnique(&instr, &node.kv.key);
+
+			if (isSpecSized)
+			{
+				specSized.emplace_back(&instr);
+			}
+			else if (node.kv.value == nullptr)
+			{
+				node.kv.value = &instr;
+			}
 		}
 		else if (instr.isSpecOrConstant())
 		{
-- 
2.43.0


From a6bb60ad85d12b7aa32a27b1f7f040d3a7b7322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 079/190] fix: Constant::make appended to the data and
 components of a previous value

---
 lib/include/spvgentwo/Constant.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/spvgentwo/Constant.h b/lib/include/spvgentwo/Constant.h
index 8ddbf4d..bf18fbb 100644
--- a/lib/include/spvgentwo/Constant.h
+++ b/lib/include/spvgentwo/Constant.h
@@ -70,6 +70,8 @@ namespace spvgentwo
 	template <class T>
 	Constant& Constant::make(const T& _value, const bool _spec)
 	{
+		reset();
+
 		if constexpr (stdrep::is_same_v<T, bool>)
 		{
 			m_Operation = _value ? (_spec ? spv::Op::OpSpecConstantTrue : spv::Op::OpConstantTrue) : (_spec ? spv::Op::OpSpecConstantFalse : spv::Op::OpConstantFalse);
-- 
2.43.0


From d05c21ca51da9fcaa35f87d3cb5c5e82fdb2f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 080/190] fix: a parsed constant of an array with
 specialization constant length was returned for one of an array with literal
 length

---
 lib/source/Module.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 95777df..08b3ce2 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1194,8 +1194,13 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				continue;
 			}
 
-			auto& node = m_ConstantToInstr.emplaceUnique(stdrep::move(c), &instr);
+			auto& node = m_ConstantToInstr.emplaceUnique(stdrep::move(c), nullptr);
 			m_InstrToConstant.emplaceUnique(&instr, &node.kv.key);
+
+			if (node.kv.value == nullptr && specSized.contains(instr.getResultTypeInstr()) == false)
+			{
+				node.kv.value = &instr;
+			}
 		}
 	}
 
-- 
2.43.0


From 7a321a658088da578a872fd1c0e99382c0896f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 081/190] fix: moved graph nodes left their neighbours with
 edges to the old node, move assignment did not compile

---
 common/include/common/Node.h | 51 +++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Node.h b/common/include/common/Node.h
index b9a64b3..ab0698f 100644
--- a/common/include/common/Node.h
+++ b/common/include/common/Node.h
@@ -55,6 +55,12 @@ namespace spvgentwo
 		typename List<EdgeType>::Iterator remove_output(const Node* _pNode);
 
 	private:
+		// remove the edges connected nodes have to this node
+		void disconnectAll();
+
+		// let edges of connected nodes, which used to target _pOther, target this node
+		void retarget(const Node* _pOther);
+
 		N m_data{};
 
 		List<EdgeType> m_inputs;
@@ -67,6 +73,7 @@ namespace spvgentwo
 		m_inputs(stdrep::move(_other.m_inputs)),
 		m_outputs(stdrep::move(_other.m_outputs))
 	{
+		retarget(&_other);
 	}
 
 	template<class N, class E>
@@ -79,15 +86,57 @@ namespace spvgentwo
 	template<class N, class E>
 	inline Node<N, E>& Node<N, E>::operator=(Node<N, E>&& _other) noexcept
 	{
-		if (this == &_other) return this;
+		if (this == &_other) return *this;
+
+		disconnectAll();
 
 		m_data = stdrep::move(_other.m_data);
 		m_inputs = stdrep::move(_other.m_inputs);
 		m_outputs = stdrep::move(_other.m_outputs);
 
+		retarget(&_other);
+
 		return *this;
 	}
 
+	template<class N, class E>
+	inline void Node<N, E>::disconnectAll()
+	{
+		while (m_inputs.empty() == false)
+		{
+			m_inputs.front().pTarget->disconnect(this);
+		}
+
+		while (m_outputs.empty() == false)
+		{
+			disconnect(m_outputs.front().pTarget);
+		}
+	}
+
+	template<class N, class E>
+	inline void Node<N, E>::retarget(const Node* _pOther)
+	{
+		for (EdgeType& edge : m_inputs)
+		{
+			if (edge.pTarget == _pOther) edge.pTarget = this;
+
+			for (EdgeType& e : edge.pTarget->m_outputs)
+			{
+				if (e.pTarget == _pOther) e.pTarget = this;
+			}
+		}
+
+		for (EdgeType& edge : m_outputs)
+		{
+			if (edge.pTarget == _pOther) edge.pTarget = this;
+
+			for (EdgeType& e : edge.pTarget->m_inputs)
+			{
+				if (e.pTarget == _pOther) e.pTarget = this;
+			}
+		}
+	}
+
 	template<class N, class E>
 	inline typename List<typename Node<N, E>::EdgeType>::Iterator Node<N, E>::remove_input(const Node* _pNode)
 	{
-- 
2.43.0


From 6d57193bbdc0062e2fc370277eba63d44ef47d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 082/190] fix: Node::connect moved edge data into the output
 edge, the input edge was empty

---
 common/include/common/Node.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/Node.h b/common/include/common/Node.h
index ab0698f..f9534d4 100644
--- a/common/include/common/Node.h
+++ b/common/include/common/Node.h
@@ -172,7 +172,7 @@ namespace spvgentwo
 	template<class ...EdgeArgs>
 	inline void Node<N, E>::connect(Node* _pTarget, EdgeArgs&& ..._args)
 	{
-		m_outputs.emplace_back(_pTarget, stdrep::forward<EdgeArgs>(_args)...);
+		m_outputs.emplace_back(_pTarget, static_cast<const EdgeArgs&>(_args)...); // arguments are needed for both edges
 		_pTarget->m_inputs.emplace_back(this, stdrep::forward<EdgeArgs>(_args)...);
 	}
 
-- 
2.43.0


From 75cc2943445cf1ed498267a9c0942056d6531836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 083/190] fix: Graph move assignment did not return a value

---
 common/include/common/Graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/common/Graph.h b/common/include/common/Graph.h
index da320b0..b8b29e6 100644
--- a/common/include/common/Graph.h
+++ b/common/include/common/Graph.h
@@ -65,6 +65,7 @@ namespace spvgentwo
 	inline Graph<N, E>& Graph<N, E>::operator=(Graph<N, E>&& _other) noexcept
 	{
 		m_nodes = stdrep::move(_other.m_nodes);
+		return *this;
 	}
 
 	template<class N, class E>
-- 
2.43.0


From 7ba334a5b51e6e2dacf0944b2d13094f69b91d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 084/190] fix: Graph::back returned the first node

---
 common/include/common/Graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/Graph.h b/common/include/common/Graph.h
index b8b29e6..af0f0fd 100644
--- a/common/include/common/Graph.h
+++ b/common/include/common/Graph.h
@@ -41,8 +41,8 @@ namespace spvgentwo
 		NodeType& front() { return m_nodes.front(); }
 		const NodeType& front() const { return m_nodes.front(); }
 
-		NodeType& back() { return m_nodes.front(); }
-		const NodeType& back() const { return m_nodes.front(); }
+		NodeType& back() { return m_nodes.back(); }
+		const NodeType& back() const { return m_nodes.back(); }
 
 	protected:
 
-- 
2.43.0


From 8c343bd16476ad36c2b6cf7da6204cdbe306cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 085/190] fix: ExprGraph::evaluateExplicit and evaluation with
 edge lists did not compile

---
 common/include/common/ExprGraph.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/include/common/ExprGraph.h b/common/include/common/ExprGraph.h
index 6d2ef79..8f3e41c 100644
--- a/common/include/common/ExprGraph.h
+++ b/common/include/common/ExprGraph.h
@@ -56,7 +56,7 @@ namespace spvgentwo
 			}
 			else
 			{
-				expr(_pExitNode->inputs(), _pExitNode->output());			
+				expr(_pExitNode->inputs(), _pExitNode->outputs());			
 			}
 		}
 	}
@@ -76,13 +76,13 @@ namespace spvgentwo
 
 			if constexpr (args == ExprArgs::FunctionPtrLists)
 			{
-				auto inputs = transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
-				auto outputs = transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto inputs = algo::transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto outputs = algo::transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
 				expr(inputs, outputs);
 			}
 			else
 			{
-				expr(node->inputs(), node->output());
+				expr(node->inputs(), node->outputs());
 			}
 		}
 
-- 
2.43.0


From f1a5dc8fbb0a866b47c24f31b4df88346fd52e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 086/190] fix: Callable released its functor with the size of
 the interface

---
 common/include/common/Callable.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 6f8336d..b83f04a 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -88,6 +88,7 @@ namespace spvgentwo
 			virtual ~ICallable() = default;
 			virtual ReturnType invoke(Args...) = 0;
 			virtual ICallable* copy(IAllocator* _pAllocator) const = 0;
+			virtual void destroy(IAllocator* _pAllocator) = 0; // deallocates with the size of the implementation
 		};
 
 		template <typename Functor>
@@ -109,6 +110,11 @@ namespace spvgentwo
 				return _pAllocator->construct<CallableImpl<Functor>>(m_func);
 			}
 
+			void destroy(IAllocator* _pAllocator) final
+			{
+				_pAllocator->destruct(this);
+			}
+
 		private:
 			Functor m_func;
 		};
@@ -213,7 +219,7 @@ namespace spvgentwo
 		{
 			if (m_pAllocator != nullptr && m_pCallable != nullptr)
 			{
-				m_pAllocator->destruct(m_pCallable);
+				m_pCallable->destroy(m_pAllocator);
 				m_pCallable = nullptr;
 			}
 		}
-- 
2.43.0


From fbf5a94b6a11f97f3094aa0d0f25b812a147893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 087/190] fix: Callable could not be assigned to itself, from
 an empty one, from a non-const one or after it was moved

---
 common/include/common/Callable.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index b83f04a..1d73227 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -170,7 +170,6 @@ namespace spvgentwo
 			m_pAllocator(_other.m_pAllocator),
 			m_pCallable(_other.m_pCallable)
 		{	
-			_other.m_pAllocator = nullptr;
 			_other.m_pCallable = nullptr;
 		}
 
@@ -192,18 +191,27 @@ namespace spvgentwo
 
 		Callable& operator=(const Callable& _other)
 		{
+			if (this == &_other) return *this;
+
 			reset();
 			m_pAllocator = _other.m_pAllocator;
-			m_pCallable = _other.m_pCallable->copy(m_pAllocator);
+			m_pCallable = _other.m_pCallable != nullptr ? _other.m_pCallable->copy(m_pAllocator) : nullptr;
 			return *this;
 		}
 
+		// non-const overload is preferred over the assignment of arbitrary functors
+		Callable& operator=(Callable& _other)
+		{
+			return *this = static_cast<const Callable&>(_other);
+		}
+
 		Callable& operator=(Callable&& _other)
 		{
+			if (this == &_other) return *this;
+
 			reset();
 			m_pAllocator = _other.m_pAllocator;
 			m_pCallable = _other.m_pCallable;
-			_other.m_pAllocator = nullptr;
 			_other.m_pCallable = nullptr;
 			return *this;
 		}
-- 
2.43.0


From d0d0ad6edff5e52047f90b609218feab649673ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 088/190] fix: Callable did not accept functors which are
 non-const lvalues

---
 common/include/common/Callable.h     | 18 ++----------------
 common/include/common/HeapCallable.h |  6 ++++--
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 1d73227..d7cebf1 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -132,16 +132,10 @@ namespace spvgentwo
 			m_pAllocator(_pAllocator)
 		{}
 
-		template <typename Functor>
-		Callable(IAllocator* _pAllocator, const Functor& f) :
-			m_pAllocator(_pAllocator),
-			m_pCallable(_pAllocator->construct<CallableImpl<Functor>>(f))
-		{}
-
 		template <typename Functor>
 		Callable(IAllocator* _pAllocator, Functor&& f) :
 			m_pAllocator(_pAllocator),
-			m_pCallable(_pAllocator->construct<CallableImpl<Functor>>(spvgentwo::stdrep::move(f)))
+			m_pCallable(_pAllocator->construct<CallableImpl<stdrep::decay_t<Functor>>>(stdrep::forward<Functor>(f)))
 		{}
 
 		Callable(IAllocator* _pAllocator, ReturnType(*_func)(Args...)) :
@@ -173,19 +167,11 @@ namespace spvgentwo
 			_other.m_pCallable = nullptr;
 		}
 
-		template <typename Functor>
-		Callable& operator=(const Functor& f)
-		{
-			reset();
-			m_pCallable = m_pAllocator->construct<CallableImpl<Functor>>(f);
-			return *this;
-		}
-
 		template <typename Functor>
 		Callable& operator=(Functor&& f) noexcept
 		{
 			reset();
-			m_pCallable = m_pAllocator->construct<CallableImpl<Functor>>(stdrep::move(f));
+			m_pCallable = m_pAllocator->construct<CallableImpl<stdrep::decay_t<Functor>>>(stdrep::forward<Functor>(f));
 			return *this;
 		}
 
diff --git a/common/include/common/HeapCallable.h b/common/include/common/HeapCallable.h
index 7bf9552..81fad71 100644
--- a/common/include/common/HeapCallable.h
+++ b/common/include/common/HeapCallable.h
@@ -13,6 +13,7 @@ namespace spvgentwo
 	{
 	public:
 		HeapCallable(const HeapCallable& _other) noexcept : Callable<Func>(_other){}
+		HeapCallable(HeapCallable& _other) noexcept : Callable<Func>(static_cast<const Callable<Func>&>(_other)) {} // preferred over arbitrary functors
 		HeapCallable(HeapCallable&& _other) noexcept : Callable<Func>(stdrep::move(_other)) {}
 
 		template <typename ...Args>
@@ -20,8 +21,9 @@ namespace spvgentwo
 
 		virtual ~HeapCallable() override = default;
 
-		HeapCallable& operator=(const HeapCallable& _other) { Callable<Func>::operator=(_other); return *this; }
-		HeapCallable& operator=(HeapCallable&& _other) noexcept { Callable<Func>::operator=(stdrep::move(_other)); return *this; }
+		HeapCallable& operator=(const HeapCallable& _other) { Callable<Func>::operator=(static_cast<const Callable<Func>&>(_other)); return *this; }
+		HeapCallable& operator=(HeapCallable& _other) { Callable<Func>::operator=(static_cast<const Callable<Func>&>(_other)); return *this; }
+		HeapCallable& operator=(HeapCallable&& _other) noexcept { Callable<Func>::operator=(static_cast<Callable<Func>&&>(_other)); return *this; }
 
 		template <typename ...Args>
 		HeapCallable& operator=(Args&& ..._args) noexcept { Callable<Func>::operator=(stdrep::forward<Args>(_args)...); return *this; }
-- 
2.43.0


From b0c5aeb6932b3526eac5b23f2d71110904c853ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 089/190] fix: functions called by Callable received copies of
 reference arguments

---
 common/include/common/Callable.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index d7cebf1..62b05b9 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -12,8 +12,7 @@ namespace spvgentwo
 
 		operator bool() const { return pFn != nullptr; }
 
-		template <typename ... OtherArgs>
-		ReturnType operator()(OtherArgs... _args) const { return (*pFn)(_args...); }
+		ReturnType operator()(Args... _args) const { return (*pFn)(stdrep::forward<Args>(_args)...); }
 	};
 
 	template <typename ReturnType, typename... Args>
@@ -31,7 +30,7 @@ namespace spvgentwo
 
 		operator bool() const { return pFn != nullptr; }
 
-		ReturnType operator()(Args... _args) const { return (pObj->*pFn)(_args...); }
+		ReturnType operator()(Args... _args) const { return (pObj->*pFn)(stdrep::forward<Args>(_args)...); }
 	};
 
 	template <typename Obj, typename ReturnType, typename... Args>
-- 
2.43.0


From 93b0459fdc9b56bbdbc453474335f260c04d28c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 090/190] fix: make_callable and make_member_func for member
 functions did not compile

---
 common/include/common/Callable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 62b05b9..519b4b0 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -36,7 +36,7 @@ namespace spvgentwo
 	template <typename Obj, typename ReturnType, typename... Args>
 	auto make_memeber_func(Obj* _obj, ReturnType(Obj::* _func)(Args...))
 	{
-		return MemberFunc<Obj, ReturnType, Args...> {_obj, _func};
+		return MemberFunc<Obj, ReturnType, Args...> {_func, _obj};
 	}
 
 	template <typename ReturnType, typename... Args>
@@ -73,7 +73,7 @@ namespace spvgentwo
 	template <typename Obj, typename ReturnType, typename... Args>
 	auto make_variadic_memeber_func(Obj* _obj, ReturnType(Obj::* _func)(Args..., ...))
 	{
-		return VariadicMemberFunc<Obj, ReturnType, Args...> {_obj, _func};
+		return VariadicMemberFunc<Obj, ReturnType, Args...> {_func, _obj};
 	}
 
 	template <typename T>
@@ -275,7 +275,7 @@ namespace spvgentwo
 	template <typename Obj, typename ReturnType, typename... Args>
 	auto make_callable(spvgentwo::IAllocator* _pAllocator, Obj* _obj, ReturnType(Obj::*_func)(Args...))
 	{
-		return Callable<ReturnType(Args...)>(_pAllocator, _func, _obj);
+		return Callable<ReturnType(Args...)>(_pAllocator, _obj, _func);
 	}
 
 	// variadic member function
-- 
2.43.0


From 3e646449263104b994fe075f7b8af0b90687b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 091/190] fix: a request which does not fit made
 ExternalMemoryAllocator return memory outside of its buffer

---
 common/source/ExternalMemoryAllocator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/source/ExternalMemoryAllocator.cpp b/common/source/ExternalMemoryAllocator.cpp
index 362e370..87914e8 100644
--- a/common/source/ExternalMemoryAllocator.cpp
+++ b/common/source/ExternalMemoryAllocator.cpp
@@ -4,7 +4,10 @@ void* spvgentwo::ExternalMemoryAllocator::allocate(sgt_size_t _bytes, unsigned i
 {
 	const auto capacity = static_cast<sgt_size_t>(static_cast<const char*>(m_pEnd) - static_cast<const char*>(m_pCurrent));
 	void* ptr = alignPowerOf2(_aligment, _bytes, m_pCurrent, capacity);
-	m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	if (ptr != nullptr)
+	{
+		m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	}
 	return ptr;
 }
 
-- 
2.43.0


From a03c231f9dc3acf053d64add0e666a0e06f64b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 092/190] fix: the invalid execution model was reported as
 vertex stage

---
 common/source/VulkanInterop.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 6aea573..82e6f9e 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -38,8 +38,6 @@ spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionMod
 		return ShaderStageFlagBits::VK_SHADER_STAGE_MISS_BIT_KHR;
 	case spv::ExecutionModel::CallableKHR:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_CALLABLE_BIT_KHR;
-	case spv::ExecutionModel::Max:
-		return ShaderStageFlagBits::VK_SHADER_STAGE_VERTEX_BIT;
 	default:
 		break;
 	}
-- 
2.43.0


From d1f4443e33f2107d9a6447b9c7fd917df4d2fa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 093/190] fix: task and mesh execution models of the EXT
 extension had no shader stage

---
 common/source/VulkanInterop.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 82e6f9e..8ea9eda 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -23,8 +23,10 @@ spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionMod
 		return ShaderStageFlagBits::VK_SHADER_STAGE_COMPUTE_BIT;
 	//case spv::ExecutionModel::Kernel: OpenCL
 	case spv::ExecutionModel::TaskNV:
+	case spv::ExecutionModel::TaskEXT: // same bits
 		return ShaderStageFlagBits::VK_SHADER_STAGE_TASK_BIT_NV;
 	case spv::ExecutionModel::MeshNV:
+	case spv::ExecutionModel::MeshEXT:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_MESH_BIT_NV;
 	case spv::ExecutionModel::RayGenerationKHR:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_RAYGEN_BIT_KHR;
-- 
2.43.0


From 9e25a2d0fa7b0af632948a71b6309f4fa05f0cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 094/190] fix: combined image samplers were reported as texel
 buffers

---
 common/source/VulkanInterop.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 8ea9eda..e4cbd4a 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -117,12 +117,7 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 	{
 	case spv::Op::OpTypeSampler:					return DescriptorType::VK_DESCRIPTOR_TYPE_SAMPLER;
 	case spv::Op::OpTypeSampledImage:
-		switch (type.front().getImageSamplerAccess())
-		{
-		case SamplerImageAccess::Sampled:			return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER;
-		case SamplerImageAccess::Storage:			return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER;
-		default:									return DescriptorType::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
-		}		
+		return type.front().getImageDimension() == spv::Dim::Buffer ? DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER : DescriptorType::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
 	case spv::Op::OpTypeImage:
 	{
 		switch (type.getImageDimension())
-- 
2.43.0


From bce792da1e464998dce062925c09426836bd05a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 095/190] fix: arrays of resources were reported as buffers

---
 common/source/VulkanInterop.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index e4cbd4a..5dd30c0 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -60,7 +60,18 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 		return DescriptorType::VK_DESCRIPTOR_TYPE_MAX_ENUM;
 	}
 
-	const Type& type = ptr->front();
+	// an array of resources has the descriptor type of its elements
+	auto getResourceType = [](const Type& _ptr) -> const Type&
+	{
+		const Type* t = &_ptr.front();
+		while ((t->isArray() || t->isRuntimeArray()) && t->getSubTypes().empty() == false)
+		{
+			t = &t->front();
+		}
+		return *t;
+	};
+
+	const Type& type = getResourceType(*ptr);
 
 	const spv::StorageClass storage = _variable.getStorageClass();
 
-- 
2.43.0


From c620bffaa00d0b704775b005ff2118d6fd44ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 096/190] fix: images and samplers which share a binding were
 not reported as combined image sampler

---
 common/source/VulkanInterop.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 5dd30c0..0b9cbfe 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -86,6 +86,15 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 			type.getType() == spv::Op::OpTypeImage)
 		)
 	{
+		// storage images, texel buffers and input attachments can't be combined with a sampler
+		auto isCombinable = [](const Type& _type) -> bool
+		{
+			const Type& image = _type.isSampledImage() ? _type.front() : _type;
+			return _type.isSampler() ||
+				(image.isImage() && image.getImageDimension() != spv::Dim::Buffer && image.getImageDimension() != spv::Dim::SubpassData &&
+				(_type.isSampledImage() || image.getImageSamplerAccess() == SamplerImageAccess::Sampled));
+		};
+
 		const unsigned int set = ReflectionHelper::getDecorationLiteralFromTarget(spv::Decoration::DescriptorSet, &_variable);
 		const unsigned int binding = ReflectionHelper::getDecorationLiteralFromTarget(spv::Decoration::Binding, &_variable);
 
@@ -100,11 +109,12 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 				}
 
 				// we found another variable in the same set
-				if (const Type* otherType = _pVar->getType(); _pVar != &_variable && otherType != nullptr && _pVar->getStorageClass() == spv::StorageClass::UniformConstant)
+				if (const Type* otherPtr = _pVar->getType(); _pVar != &_variable && otherPtr != nullptr && otherPtr->isPointer(spv::StorageClass::UniformConstant) && otherPtr->getSubTypes().empty() == false)
 				{
-					// check for [sampler & image] or [image & sampler] variable combo
-					if (((otherType->getType() == spv::Op::OpTypeSampler) && (type.getType() == spv::Op::OpTypeSampledImage || type.getType() == spv::Op::OpTypeImage)) ||
-						((type.getType() == spv::Op::OpTypeSampler) && (otherType->getType() == spv::Op::OpTypeSampledImage || otherType->getType() == spv::Op::OpTypeImage)))
+					const Type& otherType = getResourceType(*otherPtr);
+
+					// check for different parts of a combined image sampler
+					if (isCombinable(type) && isCombinable(otherType) && type.getType() != otherType.getType())
 					{
 						// we found a image or sampler on the same descriptor set & binding in UniformConstant storage class
 						if (ReflectionHelper::getDecorationLiteralFromTarget(spv::Decoration::Binding, _pVar) == binding)
-- 
2.43.0


From c1be2c72da8f26f0bc19f032154506c80d8c0a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 097/190] fix: buffers with BufferBlock decoration were
 reported as uniform buffers

---
 common/source/VulkanInterop.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 0b9cbfe..e1b06e6 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -167,7 +167,24 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 	default: // assume this is a buffer
 		switch (storage)
 		{
-		case spv::StorageClass::Uniform:			[[fallthrough]];
+		case spv::StorageClass::Uniform:
+		{
+			// structs decorated with BufferBlock are storage buffers (before SPIR-V 1.3)
+			bool isBufferBlock = false;
+			const Instruction* pPtrInstr = _variable.getResultTypeInstr();
+			const Instruction* pTypeInstr = pPtrInstr != nullptr && pPtrInstr->getFirstActualOperand().next() != nullptr ? pPtrInstr->getFirstActualOperand().next()->getInstruction() : nullptr; // skip storage class
+			while (pTypeInstr != nullptr && (*pTypeInstr == spv::Op::OpTypeArray || *pTypeInstr == spv::Op::OpTypeRuntimeArray) && pTypeInstr->getFirstActualOperand() != nullptr)
+			{
+				pTypeInstr = pTypeInstr->getFirstActualOperand()->getInstruction(); // element type
+			}
+
+			ReflectionHelper::getDecorationsFunc(pTypeInstr, [&isBufferBlock](const Instruction* _pDecoration)
+			{
+				isBufferBlock |= *_pDecoration == spv::Op::OpDecorate && ReflectionHelper::getSpvDecorationKindFromDecoration(_pDecoration) == spv::Decoration::BufferBlock;
+			});
+
+			return isBufferBlock ? DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER : DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER;
+		}
 		case spv::StorageClass::UniformConstant:	return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER;
 		case spv::StorageClass::StorageBuffer:		return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
 		default:
-- 
2.43.0


From ec1d30ec20bc687ce119fd602349b11284e07c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 098/190] fix: entry point interfaces did not match the version
 required by the instructions

---
 lib/source/Module.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 08b3ce2..871254f 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1301,16 +1301,16 @@ bool spvgentwo::Module::write(IWriter& _writer) const
 
 spvgentwo::spv::Id spvgentwo::Module::finalize( const Grammar* _pGrammar )
 {
-	finalizeEntryPoints();
+	const spv::Id bound = assignIDs( _pGrammar ); // overwrites m_spvBound, might raise the version
 
-	return assignIDs( _pGrammar ); // overwrites m_spvBound
+	finalizeEntryPoints(); // interfaces depend on the version
+
+	return bound;
 }
 
 bool spvgentwo::Module::finalizeAndWrite(IWriter& _writer, const Grammar* _pGrammar)
 {
-	finalizeEntryPoints();
-
-	assignIDs(_pGrammar); // overwrites m_spvBound
+	finalize(_pGrammar);
 
 	return write(_writer);
 }
-- 
2.43.0


From d93f1cdb721568085f31dbf8556753459e6d04fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 099/190] fix: BinaryFileReader::read() starts over instead of
 continuing at the position of the previous file

---
 common/source/BinaryFileReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/source/BinaryFileReader.cpp b/common/source/BinaryFileReader.cpp
index 16fa62a..2dd04e9 100644
--- a/common/source/BinaryFileReader.cpp
+++ b/common/source/BinaryFileReader.cpp
@@ -20,6 +20,9 @@ bool spvgentwo::BinaryFileReader::get(unsigned int& _word)
 
 bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sgt_size_t _length)
 {
+	m_buffer.clear();
+	m_pos = 0u;
+
 	if (_path == nullptr)
 	{
 		return false;
-- 
2.43.0


From 2b5bd4b71c221c255dcf7ec202fe57d96d9bd34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 100/190] fix: BinaryFileReader determines the length of the
 file from the requested offset to its end

---
 common/source/BinaryFileReader.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/source/BinaryFileReader.cpp b/common/source/BinaryFileReader.cpp
index 2dd04e9..d27b8af 100644
--- a/common/source/BinaryFileReader.cpp
+++ b/common/source/BinaryFileReader.cpp
@@ -55,12 +55,19 @@ bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sg
 
 	if (file != nullptr)
 	{
-		if (fseek(file, static_cast<long>(_offset), SEEK_END) != 0) 
+		if (fseek(file, 0, SEEK_END) != 0)
 		{
 			return false;
 		}
 
-		auto remaining = static_cast<sgt_size_t>(ftell(file));
+		const long size = ftell(file);
+
+		if (size < 0 || static_cast<sgt_size_t>(size) < _offset)
+		{
+			return false;
+		}
+
+		const auto remaining = static_cast<sgt_size_t>(size) - _offset;
 		if (fseek(file, static_cast<long>(_offset), SEEK_SET) != 0u)
 		{
 			return false;
-- 
2.43.0


From 1745816d8722b667004fda524425345a23be05f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 101/190] fix: BinaryFileReader does not offer the words of a
 failed read

---
 common/source/BinaryFileReader.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/source/BinaryFileReader.cpp b/common/source/BinaryFileReader.cpp
index d27b8af..ef6db81 100644
--- a/common/source/BinaryFileReader.cpp
+++ b/common/source/BinaryFileReader.cpp
@@ -88,7 +88,13 @@ bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sg
 				return false;
 			}
 
-			return fread(m_buffer.data(), sizeof(sgt_uint32_t), count, file) == count;
+			if (fread(m_buffer.data(), sizeof(sgt_uint32_t), count, file) != count)
+			{
+				m_buffer.clear();
+				return false;
+			}
+
+			return true;
 		}
 	}
 
-- 
2.43.0


From 93e39d86803aa6d37b2d43c04e16f776b1e05022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 102/190] fix: BinaryFileWriter and BinaryVectorWriter refuse
 words which could not be stored

---
 common/include/common/BinaryVectorWriter.h | 3 ++-
 common/source/BinaryFileWriter.cpp         | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/common/BinaryVectorWriter.h b/common/include/common/BinaryVectorWriter.h
index a85d637..d0523a2 100644
--- a/common/include/common/BinaryVectorWriter.h
+++ b/common/include/common/BinaryVectorWriter.h
@@ -20,7 +20,8 @@ namespace spvgentwo
 	template<typename U32Vector>
 	inline bool BinaryVectorWriter<U32Vector>::put(unsigned int _word)
 	{
+		const auto size = m_vector.size();
 		m_vector.emplace_back(_word);
-		return true;
+		return m_vector.size() != size; // vector might have run out of memory
 	}
 } //!spvgentwo
diff --git a/common/source/BinaryFileWriter.cpp b/common/source/BinaryFileWriter.cpp
index b29e441..1611ac4 100644
--- a/common/source/BinaryFileWriter.cpp
+++ b/common/source/BinaryFileWriter.cpp
@@ -14,8 +14,7 @@ spvgentwo::BinaryFileWriter::~BinaryFileWriter()
 
 bool spvgentwo::BinaryFileWriter::put(unsigned int _word)
 {
-	m_buffer.emplace_back(_word);
-	return true;
+	return m_buffer.emplace_back(_word) != nullptr;
 }
 
 bool spvgentwo::BinaryFileWriter::open(const char* _path)
-- 
2.43.0


From bf3138966b08d3b8717ae87f3c527e5d0a0c87ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 103/190] fix: BinaryFileWriter::close() and the tools report a
 module which could not be stored

---
 common/include/common/BinaryFileWriter.h |  3 ++-
 common/source/BinaryFileWriter.cpp       | 10 +++++++---
 dis/source/dis.cpp                       |  2 +-
 link/source/link.cpp                     |  9 +++++++--
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/common/include/common/BinaryFileWriter.h b/common/include/common/BinaryFileWriter.h
index 2190b1c..fa9e8aa 100644
--- a/common/include/common/BinaryFileWriter.h
+++ b/common/include/common/BinaryFileWriter.h
@@ -17,7 +17,8 @@ namespace spvgentwo
 		bool isOpen() const { return m_pFile != nullptr; }
 		operator bool() const { return m_pFile != nullptr; }
 
-		void close();
+		// writes the buffered words, returns false if they could not be stored
+		bool close();
 
 	private:
 		Vector<sgt_uint32_t> m_buffer;
diff --git a/common/source/BinaryFileWriter.cpp b/common/source/BinaryFileWriter.cpp
index 1611ac4..dd1bf4f 100644
--- a/common/source/BinaryFileWriter.cpp
+++ b/common/source/BinaryFileWriter.cpp
@@ -37,17 +37,21 @@ bool spvgentwo::BinaryFileWriter::open(const char* _path)
 	return m_pFile != nullptr;
 }
 
-void spvgentwo::BinaryFileWriter::close()
+bool spvgentwo::BinaryFileWriter::close()
 {
+	bool success = true;
+
 	if (m_pFile != nullptr)
 	{
 		if (m_buffer.empty() == false)
 		{
-			fwrite(m_buffer.data(), sizeof(sgt_uint32_t), m_buffer.size(), static_cast<FILE*>(m_pFile));
+			success = fwrite(m_buffer.data(), sizeof(sgt_uint32_t), m_buffer.size(), static_cast<FILE*>(m_pFile)) == m_buffer.size();
 		}
 
-		fclose(static_cast<FILE*>(m_pFile));
+		success &= fclose(static_cast<FILE*>(m_pFile)) == 0;
 		m_pFile = nullptr;
 	}
 	m_buffer.clear();
+
+	return success;
 }
\ No newline at end of file
diff --git a/dis/source/dis.cpp b/dis/source/dis.cpp
index d9538b9..f21378d 100644
--- a/dis/source/dis.cpp
+++ b/dis/source/dis.cpp
@@ -97,7 +97,7 @@ int main(int argc, char* argv[])
 
 		if (serialize)
 		{
-			if (BinaryFileWriter writer(alloc, "serialized.spv"); writer.isOpen() == false || module.finalizeAndWrite(writer) == false)
+			if (BinaryFileWriter writer(alloc, "serialized.spv"); writer.isOpen() == false || module.finalizeAndWrite(writer) == false || writer.close() == false)
 			{
 				return -1;
 			}
diff --git a/link/source/link.cpp b/link/source/link.cpp
index 6c2c789..8b1d680 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -88,7 +88,12 @@ int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 		return -1;
 	}
 
-	_module.finalizeAndWrite(writer);
+	if (_module.finalizeAndWrite(writer) == false || writer.close() == false)
+	{
+		g_logger.logError("Failed to write \'%s\'", _out);
+		return -1;
+	}
+
 	return 0;
 }
 
@@ -115,7 +120,7 @@ int link(const HeapList<Module>& _libs, Module& _target, const LinkerHelper::Lin
 	_target.finalizeEntryPoints();
 
 	// don't need to call assignIDs, we are using AssignResultIDs
-	if (_target.write(writer) == false) 
+	if (_target.write(writer) == false || writer.close() == false)
 	{
 		g_logger.logError("Failed to write \'%s\'", _out);
 		return -1;
-- 
2.43.0


From aa47baa279fb00a9c306998fc3bd6b5b90ab566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 104/190] fix: spvgentwo linker stops if a module could not be
 loaded instead of linking an empty one

---
 link/source/link.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 8b1d680..15f3d4d 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -324,12 +324,15 @@ int main(int argc, char* argv[])
 			}
 		}
 		g_logger.logWarning("Unkown parameter %s", arg);
-		return false;
+		return true;
 	};
 
 	for (int i = 1; i < argc; ++i)
 	{
-		checkParam(argv[i], i);
+		if (checkParam(argv[i], i) == false)
+		{
+			return -1;
+		}
 	}
 
 	if (g_targets.empty() == false)
-- 
2.43.0


From 8e79a88627cb502e8431c098235c73424027a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 105/190] fix: spvgentwo linker reports symbols which are not
 part of the module to patch

---
 link/source/link.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 15f3d4d..ce59c63 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -129,7 +129,7 @@ int link(const HeapList<Module>& _libs, Module& _target, const LinkerHelper::Lin
 	return 0;
 }
 
-void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
+bool addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 {
 	Instruction* instr = nullptr;
 	const char* target = _argv[++_i];
@@ -145,7 +145,7 @@ void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 	if (instr == nullptr)
 	{
 		g_logger.logError("Could not find %s in %s", target, g_patchspv);
-		return;
+		return false;
 	}
 
 	if (const char* name = _argv[++_i]; name != nullptr)
@@ -160,6 +160,8 @@ void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 		g_targets.emplace_back(instr, name, type, exportVars);
 		g_logger.logInfo("Adding %s target instruction \'%s\' with name \'%s\'", type == spv::LinkageType::Import ? "import" : "export", target, name);
 	}
+
+	return true;
 }
 
 int main(int argc, char* argv[])
@@ -281,16 +283,14 @@ int main(int argc, char* argv[])
 		{ // import symbol
 			"-import", "-i",
 			[](int& _i, int _argc, char* _argv[]) {
-				addTarget(spv::LinkageType::Import, _i, _argc, _argv);
-				return true;
+				return addTarget(spv::LinkageType::Import, _i, _argc, _argv);
 			},
 			2 // symbol name and export name
 		},
 		{ // import symbol
 			"-export", "-e",
 			[](int& _i, int _argc, char* _argv[]) {
-				addTarget(spv::LinkageType::Export, _i, _argc, _argv);
-				return true;
+				return addTarget(spv::LinkageType::Export, _i, _argc, _argv);
 			},
 			2 // symbol name and export name and -vars (optional)
 		}
-- 
2.43.0


From 0ae9414bd86d6f05eb8e284d214550389a680cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 106/190] fix: instructions behind an unterminated basic block
 were not visited (uses of such modules were neither reported nor replaced)

---
 lib/include/spvgentwo/ModuleTemplate.inl |  7 +------
 lib/source/Module.cpp                    | 23 +++++++++++++++++++++++
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/ModuleTemplate.inl b/lib/include/spvgentwo/ModuleTemplate.inl
index 1433f62..d5f0a7d 100644
--- a/lib/include/spvgentwo/ModuleTemplate.inl
+++ b/lib/include/spvgentwo/ModuleTemplate.inl
@@ -206,7 +206,7 @@ namespace spvgentwo
 		if (iterateInstructionContainer(_func, _module.getUndefs())) return true;
 		if (iterateInstructionContainer(_func, _module.getLines())) return true;
 
-		auto iterateFuncion = [&_module, &pred, &_func](auto& f) -> bool
+		auto iterateFuncion = [&pred, &_func](auto& f) -> bool
 		{
 			if (pred(*f.getFunction())) return true;
 			if (iterateInstructionContainer(_func, f.getParameters())) return true;
@@ -214,11 +214,6 @@ namespace spvgentwo
 			{
 				if (pred(*bb.getLabel())) return true;
 				if (iterateInstructionContainer(_func, bb)) return true;
-				if (bb.getTerminator() == nullptr)
-				{
-					_module.logError("BasicBlock %s has no terminator instruction, missing opReturn?", bb.getName());
-					return true;
-				}
 			}
 			if (pred(*f.getFunctionEnd())) return true;
 			return false;
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 871254f..04d762c 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1283,6 +1283,29 @@ bool spvgentwo::Module::reconstructNames(IAllocator* _pAllocator)
 
 bool spvgentwo::Module::write(IWriter& _writer) const
 {
+	auto isTerminated = [this](const Function& _func) -> bool
+	{
+		for (const BasicBlock& bb : _func)
+		{
+			if (bb.getTerminator() == nullptr)
+			{
+				logError("BasicBlock %s has no terminator instruction, missing opReturn?", bb.getName());
+				return false;
+			}
+		}
+		return true;
+	};
+
+	for (const Function& func : m_Functions)
+	{
+		if (isTerminated(func) == false) return false;
+	}
+
+	for (const EntryPoint& ep : m_EntryPoints)
+	{
+		if (isTerminated(ep) == false) return false;
+	}
+
 	// write header
 	if (_writer.put(spv::MagicNumber) == false) return false;
 	if (_writer.put(m_spvVersion) == false) return false;
-- 
2.43.0


From e42ccfa146571c561005c2ec7aa8f61355d36892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 107/190] fix: gatherUses() and replaceUses() missed types used
 as result types

---
 lib/source/Module.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 04d762c..b1935e4 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1640,7 +1640,8 @@ void spvgentwo::Module::gatherUses(const Instruction* _pInstr, List<Instruction*
 {
 	auto gather = [_pInstr, _pReplacement, &_outUses](Instruction& _instr)
 	{
-		for (auto it = _instr.getFirstActualOperand(), end = _instr.end(); it != end; ++it)
+		// result types are uses, too
+		for (auto it = _instr.begin(), end = _instr.end(); it != end; ++it)
 		{
 			if (*it == _pInstr)
 			{
@@ -1665,7 +1666,8 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 
 	auto replace = [_pInstr, _pReplacement](Instruction& _instr)
 	{
-		for (auto it = _instr.getFirstActualOperand(), end = _instr.end(); it != end; ++it)
+		// result types are uses, too
+		for (auto it = _instr.begin(), end = _instr.end(); it != end; ++it)
 		{
 			if (*it == _pInstr)
 			{
-- 
2.43.0


From 4e8724086328fa5be9638b474542e96421c352f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 108/190] fix: gatherUses() and replaceUses() missed the
 branches to a label

---
 lib/source/Module.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index b1935e4..2b61b45 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1636,6 +1636,27 @@ spvgentwo::Instruction* spvgentwo::Module::getInstructionById(const spv::Id _res
 	return instr;
 }
 
+namespace
+{
+	// branches refer to the basic block instead of its label
+	bool refersTo(const spvgentwo::Operand& _operand, const spvgentwo::Instruction* _pInstr)
+	{
+		return _operand == _pInstr || (_operand.isBranchTarget() && _operand.branchTarget != nullptr && _operand.branchTarget->getLabel() == _pInstr);
+	}
+
+	void replaceOperand(spvgentwo::Operand& _operand, spvgentwo::Instruction* _pReplacement)
+	{
+		if (_operand.isBranchTarget() && _pReplacement != nullptr && *_pReplacement == spvgentwo::spv::Op::OpLabel)
+		{
+			_operand = _pReplacement->getBasicBlock();
+		}
+		else
+		{
+			_operand = _pReplacement;
+		}
+	}
+}
+
 void spvgentwo::Module::gatherUses(const Instruction* _pInstr, List<Instruction*>& _outUses, Instruction* _pReplacement)
 {
 	auto gather = [_pInstr, _pReplacement, &_outUses](Instruction& _instr)
@@ -1643,12 +1664,12 @@ void spvgentwo::Module::gatherUses(const Instruction* _pInstr, List<Instruction*
 		// result types are uses, too
 		for (auto it = _instr.begin(), end = _instr.end(); it != end; ++it)
 		{
-			if (*it == _pInstr)
+			if (refersTo(*it, _pInstr))
 			{
 				_outUses.emplace_back(&_instr);
 				if (_pReplacement != nullptr)
 				{
-					*it = _pReplacement;				
+					replaceOperand(*it, _pReplacement);
 				}
 			}
 		}
@@ -1669,9 +1690,9 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 		// result types are uses, too
 		for (auto it = _instr.begin(), end = _instr.end(); it != end; ++it)
 		{
-			if (*it == _pInstr)
+			if (refersTo(*it, _pInstr))
 			{
-				*it = _pReplacement;
+				replaceOperand(*it, _pReplacement);
 			}
 		}
 	};
-- 
2.43.0


From 88a91be5df3a1038ec885835cea0a8b5e24e889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 109/190] fix: name lookup still had the name of the replaced
 instruction after gatherUses() and replaceUses()

---
 lib/source/Module.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 2b61b45..f54d607 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1659,7 +1659,9 @@ namespace
 
 void spvgentwo::Module::gatherUses(const Instruction* _pInstr, List<Instruction*>& _outUses, Instruction* _pReplacement)
 {
-	auto gather = [_pInstr, _pReplacement, &_outUses](Instruction& _instr)
+	bool renamed = false;
+
+	auto gather = [_pInstr, _pReplacement, &_outUses, &renamed](Instruction& _instr)
 	{
 		// result types are uses, too
 		for (auto it = _instr.begin(), end = _instr.end(); it != end; ++it)
@@ -1670,12 +1672,18 @@ void spvgentwo::Module::gatherUses(const Instruction* _pInstr, List<Instruction*
 				if (_pReplacement != nullptr)
 				{
 					replaceOperand(*it, _pReplacement);
+					renamed |= _instr == spv::Op::OpName || _instr == spv::Op::OpMemberName;
 				}
 			}
 		}
 	};
 
 	iterateInstructions(gather);
+
+	if (renamed)
+	{
+		reconstructNames();
+	}
 }
 
 void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pReplacement)
@@ -1685,7 +1693,9 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 		return;
 	}
 
-	auto replace = [_pInstr, _pReplacement](Instruction& _instr)
+	bool renamed = false;
+
+	auto replace = [_pInstr, _pReplacement, &renamed](Instruction& _instr)
 	{
 		// result types are uses, too
 		for (auto it = _instr.begin(), end = _instr.end(); it != end; ++it)
@@ -1693,11 +1703,17 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 			if (refersTo(*it, _pInstr))
 			{
 				replaceOperand(*it, _pReplacement);
+				renamed |= _instr == spv::Op::OpName || _instr == spv::Op::OpMemberName;
 			}
 		}
 	};
 
 	iterateInstructions(replace);
+
+	if (renamed)
+	{
+		reconstructNames();
+	}
 }
 
 void spvgentwo::Module::removeFromLookupMaps(const Instruction* _pInstr)
-- 
2.43.0


From 60dbd79a9c12033a1abfb0c55237f229dd659a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 110/190] fix: removeFromLookupMaps() erased the type or
 constant of other instructions with the same declaration

---
 lib/source/Module.cpp | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index f54d607..9465ed1 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1718,23 +1718,41 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 
 void spvgentwo::Module::removeFromLookupMaps(const Instruction* _pInstr)
 {
-	if (auto itt = m_InstrToType.find(_pInstr); itt != m_InstrToType.end())
+	// several instructions might declare the same type or constant, they share the key of the map
+	auto removeDeclaration = [_pInstr](auto& _keyToInstr, auto& _instrToKey)
 	{
-		if(auto tti = m_TypeToInstr.find(*itt->value); tti != m_TypeToInstr.end())
+		auto it = _instrToKey.find(_pInstr);
+		if (it == _instrToKey.end())
 		{
-			m_TypeToInstr.erase(tti);
+			return;
 		}
-		m_InstrToType.erase(itt);
-	}
 
-	if (auto itc = m_InstrToConstant.find(_pInstr); itc != m_InstrToConstant.end())
-	{
-		if (auto cti = m_ConstantToInstr.find(*itc->value); cti != m_ConstantToInstr.end())
+		const auto* key = it->value;
+		_instrToKey.erase(it);
+
+		auto kti = _keyToInstr.find(*key);
+		if (kti == _keyToInstr.end() || (kti->value != nullptr && kti->value != _pInstr))
 		{
-			m_ConstantToInstr.erase(cti);
+			return;
 		}
-		m_InstrToConstant.erase(itc);
-	}
+
+		for (const auto& [instr, other] : _instrToKey)
+		{
+			if (other == key)
+			{
+				if (kti->value != nullptr)
+				{
+					kti->value = const_cast<Instruction*>(instr);
+				}
+				return;
+			}
+		}
+
+		_keyToInstr.erase(kti);
+	};
+
+	removeDeclaration(m_TypeToInstr, m_InstrToType);
+	removeDeclaration(m_ConstantToInstr, m_InstrToConstant);
 
 	m_NameLookup.eraseRange(_pInstr);
 }
-- 
2.43.0


From 128f8c012a932f1d3c1873d6af03ffe871426e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 111/190] fix: Module::remove() and BasicBlock::remove() left
 the removed instruction in the name, type and constant lookups

---
 lib/source/BasicBlock.cpp | 1 +
 lib/source/Module.cpp     | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index cd2b593..545da66 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -160,6 +160,7 @@ bool spvgentwo::BasicBlock::remove(const Instruction* _pInstr)
 		{
 			if(it.operator->() == _pInstr)
 			{
+				getModule()->removeFromLookupMaps(_pInstr);
 				erase(it);
 				return true;
 			}
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 9465ed1..777105e 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1764,12 +1764,18 @@ bool spvgentwo::Module::remove(const Instruction* _pInstr)
 		return false;
 	}
 
-	auto erase = [_pInstr](List<Instruction>& container) -> bool
+	auto erase = [this, _pInstr](List<Instruction>& container) -> bool
 	{
 		auto it = container.find_if([_pInstr](const Instruction& _instr) {return &_instr == _pInstr; });
 		if (it != container.end())
 		{
+			const bool isName = *_pInstr == spv::Op::OpName || *_pInstr == spv::Op::OpMemberName;
+			removeFromLookupMaps(_pInstr);
 			container.erase(it);
+			if (isName)
+			{
+				reconstructNames();
+			}
 			return true;
 		}
 		return false;
@@ -1799,6 +1805,7 @@ bool spvgentwo::Module::remove(const Instruction* _pInstr)
 		{
 			if (&value == _pInstr) 
 			{
+				removeFromLookupMaps(_pInstr);
 				m_ExtInstrImport.erase(m_ExtInstrImport.find(key));
 				return true;
 			}
-- 
2.43.0


From 74d2be3084542ca9d29c065d19010c55c321cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 112/190] fix: Function::remove() left references to the
 instructions of the removed basic block

---
 lib/source/Function.cpp | 65 ++++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 14 deletions(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 3cc7ae7..9c9ccc0 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -136,37 +136,74 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Function::remove(const Basic
 
 	const Instruction* opLabel = _pBB->getLabel();
 
-	bool found = false;
-	for (auto it = begin(); it != end(); ++it) 
+	auto pos = begin();
+	while (pos != end() && pos.operator->() != _pBB)
 	{
-		if (it.operator->() == _pBB)
-		{
-			erase(it);
-			found = true;
-			break;
-		}
+		++pos;
 	}
 
-	if (found == false)
+	if (pos == end())
 	{
 		m_pModule->logError("BasicBlock not found in function");
 		return uses;
 	}
 
-	auto gatherUse = [opLabel, _pBB, _pReplacement, &uses](Instruction& instr)
+	auto isInBlock = [_pBB](const Instruction& instr) -> bool
+	{
+		return instr.getParentType() == Instruction::ParentType::BasicBlock && instr.getBasicBlock() == _pBB;
+	};
+
+	bool renamed = false;
+
+	auto gatherUse = [opLabel, _pBB, _pReplacement, &uses, &isInBlock, &renamed](Instruction& instr)
 	{
-		for (auto it = instr.getFirstActualOperand(), end = instr.end(); it != end; ++it)
+		if (isInBlock(instr))
+		{
+			return; // is going to be removed
+		}
+
+		bool used = false;
+		for (Operand& op : instr)
 		{
-			if (*it == _pBB || *it == opLabel)
+			if (op == _pBB)
+			{
+				op = _pReplacement;
+				used = true;
+			}
+			else if (op == opLabel)
 			{
-				uses.emplace_back(&instr);
-				*it = _pReplacement;
+				op = _pReplacement != nullptr ? _pReplacement->getLabel() : nullptr;
+				renamed |= _pReplacement != nullptr;
+				used = true;
 			}
+			else if (const Instruction* operand = op.getInstruction(); operand != nullptr && isInBlock(*operand))
+			{
+				op = InvalidInstr; // there is no replacement for instructions of this block
+				used = true;
+			}
+		}
+
+		if (used)
+		{
+			uses.emplace_back(&instr);
 		}
 	};
 
 	m_pModule->iterateInstructions(gatherUse);
 
+	m_pModule->removeFromLookupMaps(opLabel);
+	for (const Instruction& instr : *_pBB)
+	{
+		m_pModule->removeFromLookupMaps(&instr);
+	}
+
+	erase(pos);
+
+	if (renamed)
+	{
+		m_pModule->reconstructNames();
+	}
+
 	return uses;
 }
 
-- 
2.43.0


From b0f96c774d71101694f707403e192c62f8189bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 113/190] fix: Module::remove() left references to the
 parameters, blocks and instructions of the removed function

---
 lib/source/Module.cpp | 106 ++++++++++++++++++++++++++++++------------
 1 file changed, 76 insertions(+), 30 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 777105e..3c6c4f6 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -233,52 +233,98 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Module::remove(const Functio
 	const Instruction* opFunction = _pFunction->getFunction();
 	Instruction* opFunctionReplacement = _pReplacementToCall != nullptr ? _pReplacementToCall->getFunction() : nullptr;
 
-	// remove from functions if its not an entry point
-	bool found = false;
-	for (auto it = m_Functions.begin(), end = m_Functions.end(); it != end; ++it)
+	auto function = m_Functions.begin();
+	while (function != m_Functions.end() && function.operator->() != _pFunction)
 	{
-		if (it.operator->() == _pFunction)
+		++function;
+	}
+
+	auto entryPoint = m_EntryPoints.begin();
+	while (entryPoint != m_EntryPoints.end() && entryPoint.operator->() != _pFunction)
+	{
+		++entryPoint;
+	}
+
+	if (function == m_Functions.end() && entryPoint == m_EntryPoints.end())
+	{
+		logError("Could not remove function, not found in module");
+		return uses;
+	}
+
+	const Instruction* opEntryPoint = entryPoint != m_EntryPoints.end() ? entryPoint->getEntryPoint() : nullptr;
+
+	auto isInFunction = [_pFunction, opEntryPoint](const Instruction& instr) -> bool
+	{
+		switch (instr.getParentType())
 		{
-			m_Functions.erase(it);
-			found = true;
-			break;
+		case Instruction::ParentType::BasicBlock:
+			return instr.getBasicBlock() != nullptr && instr.getBasicBlock()->getFunction() == _pFunction;
+		case Instruction::ParentType::Function:
+			return instr.getFunction() == _pFunction;
+		default:
+			return &instr == opEntryPoint;
 		}
-	}
+	};
+
+	bool renamed = false;
 
-	// function seems to be an entry point
-	if (found == false)
+	auto gatherUse = [opFunction, opFunctionReplacement, &uses, &isInFunction, &renamed](Instruction& instr)
 	{
-		for (auto it = m_EntryPoints.begin(), end = m_EntryPoints.end(); it != end; ++it)
+		if (isInFunction(instr))
 		{
-			if (it.operator->() == _pFunction)
+			return; // is going to be removed
+		}
+
+		bool used = false;
+		for (Operand& op : instr)
+		{
+			if (op == opFunction)
 			{
-				m_EntryPoints.erase(it);
-				found = true;
-				break;
+				op = opFunctionReplacement;
+				renamed |= opFunctionReplacement != nullptr;
+				used = true;
+			}
+			else if (const Instruction* operand = op.getInstruction(); operand != nullptr && isInFunction(*operand))
+			{
+				op = InvalidInstr; // there is no replacement for parameters and instructions of this function
+				used = true;
 			}
 		}
-	}
 
-	if (found)
+		if (used)
+		{
+			uses.emplace_back(&instr);
+		}
+	};
+
+	iterateInstructions(gatherUse);
+
+	removeFromLookupMaps(opFunction);
+	for (const Instruction& param : _pFunction->getParameters())
+	{
+		removeFromLookupMaps(&param);
+	}
+	for (const BasicBlock& bb : *_pFunction)
 	{
-		auto gatherUse = [opFunction, opFunctionReplacement, &uses](Instruction& instr)
+		removeFromLookupMaps(bb.getLabel());
+		for (const Instruction& instr : bb)
 		{
-			for (auto it = instr.getFirstActualOperand(), end = instr.end(); it != end; ++it)
-			{
-				if (*it == opFunction) // need to check use of OpFunctionparameter?
-				{
-					*it = opFunctionReplacement;
-					uses.emplace_back(&instr);
-					break;
-				}
-			}
-		};
+			removeFromLookupMaps(&instr);
+		}
+	}
 
-		iterateInstructions(gatherUse);
+	if (function != m_Functions.end())
+	{
+		m_Functions.erase(function);
 	}
 	else
 	{
-		logError("Could not remove function, not found in module");
+		m_EntryPoints.erase(entryPoint);
+	}
+
+	if (renamed)
+	{
+		reconstructNames();
 	}
 
 	return uses;
-- 
2.43.0


From 3aea79f25cd5ca9b65b8f3459afac6d5caa86816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 114/190] fix: getInstructionByName compared the member index
 of OpMemberName as text and dereferenced missing operands

---
 lib/source/Module.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 3c6c4f6..b05b725 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1965,9 +1965,14 @@ spvgentwo::Instruction* spvgentwo::Module::getInstructionByName(const char* _pNa
 {
 	for (Instruction& instr : m_Names) 
 	{
+		if (instr.getOperation() != spv::Op::OpName)
+		{
+			continue; // the string of OpMemberName names a member
+		}
+
 		auto it = instr.getFirstActualOperand();
 
-		if (Instruction* target = it->getInstruction(); target != nullptr)
+		if (Instruction* target = it != nullptr ? it->getInstruction() : nullptr; target != nullptr)
 		{
 			if (compareLiteralString(_pName, it.next(), instr.end()))
 			{
-- 
2.43.0


From db2f0cd6e8435b02ac66ff6ef02bcfaa35583ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 115/190] fix: getInstructionById returned an arbitrary
 instruction without result for the invalid id

---
 lib/source/Module.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index b05b725..bfcd3cb 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1665,6 +1665,11 @@ spvgentwo::Instruction* spvgentwo::Module::addLineInstr()
 
 spvgentwo::Instruction* spvgentwo::Module::getInstructionById(const spv::Id _resultId)
 {
+	if (_resultId == InvalidId)
+	{
+		return nullptr;
+	}
+
 	Instruction* instr = nullptr;
 
 	auto pred = [&instr, _resultId](Instruction& _instr) -> bool
-- 
2.43.0


From 86f5218064a2abc36aa4e30b90b16d0c7b458c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 116/190] fix: getName and getNames reported a null pointer for
 an empty name

---
 lib/source/Module.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index bfcd3cb..3751ff5 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -472,7 +472,7 @@ const char* spvgentwo::Module::getName(const Instruction* _pTarget, const unsign
 	{
 		if (name.kv.value.member == _memberIndex)
 		{
-			return name.kv.value.name.c_str();
+			return name.kv.value.name.empty() ? "" : name.kv.value.name.c_str();
 		}
 	}
 
@@ -487,7 +487,7 @@ spvgentwo::List<spvgentwo::Module::MemberNameCStr> spvgentwo::Module::getNames(c
 	{
 		if (name.kv.key == _pTarget) 
 		{		
-			names.emplace_back(name.kv.value.name.c_str(), name.kv.value.member);
+			names.emplace_back(name.kv.value.name.empty() ? "" : name.kv.value.name.c_str(), name.kv.value.member);
 		}
 	}
 
-- 
2.43.0


From 3082d111dcb4f9286f9c1531cb472c3b67f1e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 117/190] fix: addName and addMemberName reported names that
 were rejected

---
 lib/source/Module.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 3751ff5..e727317 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -456,14 +456,22 @@ spvgentwo::Instruction* spvgentwo::Module::addNameInstr()
 
 void spvgentwo::Module::addName(Instruction* _pTarget, const char* _pName)
 {
-	addNameInstr()->opName(_pTarget, _pName);
-	m_NameLookup.emplace(_pTarget, MemberName{ String(m_pAllocator, _pName), sgt_uint32_max });
+	Instruction* pInstr = addNameInstr();
+	pInstr->opName(_pTarget, _pName);
+	if (pInstr->getOperation() == spv::Op::OpName) // otherwise the target was rejected
+	{
+		m_NameLookup.emplace(_pTarget, MemberName{ String(m_pAllocator, _pName), sgt_uint32_max });
+	}
 }
 
 void spvgentwo::Module::addMemberName(Instruction* _pTargetBase, const char* _pMemberName, unsigned int _memberIndex)
 {
-	addNameInstr()->opMemberName(_pTargetBase, _memberIndex, _pMemberName);
-	m_NameLookup.emplace(_pTargetBase, MemberName{ String(m_pAllocator, _pMemberName), _memberIndex });
+	Instruction* pInstr = addNameInstr();
+	pInstr->opMemberName(_pTargetBase, _memberIndex, _pMemberName);
+	if (pInstr->getOperation() == spv::Op::OpMemberName) // otherwise the target was rejected
+	{
+		m_NameLookup.emplace(_pTargetBase, MemberName{ String(m_pAllocator, _pMemberName), _memberIndex });
+	}
 }
 
 const char* spvgentwo::Module::getName(const Instruction* _pTarget, const unsigned int _memberIndex) const
-- 
2.43.0


From 7f6dd4fb5b394c8a4a7a059efce69bfc39682fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 118/190] fix: EntryPoint::getName was null for entry points
 created with a signature

---
 lib/include/spvgentwo/EntryPointTemplate.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/EntryPointTemplate.inl b/lib/include/spvgentwo/EntryPointTemplate.inl
index 6a86a7a..c3625cb 100644
--- a/lib/include/spvgentwo/EntryPointTemplate.inl
+++ b/lib/include/spvgentwo/EntryPointTemplate.inl
@@ -6,7 +6,8 @@ namespace spvgentwo
 	inline EntryPoint::EntryPoint(Module* _pModule, const spv::ExecutionModel _model, const char* _pEntryPointName, const Flag<spv::FunctionControlMask> _control, Instruction* _pReturnType, TypeInstr* ..._paramTypeInstructions) :
 		Function(_pModule, _pEntryPointName, _control, _pReturnType, _paramTypeInstructions...),
 		m_EntryPoint(this, spv::Op::OpNop),
-		m_ExecutionModel(_model)
+		m_ExecutionModel(_model),
+		m_nameStorage(_pModule->getAllocator(), _pEntryPointName)
 	{
 		m_isEntryPoint = true;
 		m_EntryPoint.opEntryPoint(_model, &m_Function, _pEntryPointName);
-- 
2.43.0


From 32c2308f39f932db0ecb3243d81b7624034a569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 119/190] fix: EntryPoint::finalize did not store the execution
 model

---
 lib/source/EntryPoint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/source/EntryPoint.cpp b/lib/source/EntryPoint.cpp
index f5df70b..0ebab5f 100644
--- a/lib/source/EntryPoint.cpp
+++ b/lib/source/EntryPoint.cpp
@@ -60,6 +60,7 @@ spvgentwo::Instruction* spvgentwo::EntryPoint::finalize(const spv::ExecutionMode
 	{
 		m_EntryPoint.opEntryPoint(_model, &m_Function, _pEntryPointName);
 		m_nameStorage = _pEntryPointName;
+		m_ExecutionModel = _model;
 	}
 
 	return pFunc;
-- 
2.43.0


From d35fc1fc814dbd348db24eb663e7f52a187e6ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 120/190] fix: getLocalSize returned the opcode operand of an
 OpSpecConstantOp as size

---
 common/source/ReflectionHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 06e556d..9b9fb07 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -21,8 +21,8 @@ bool spvgentwo::ReflectionHelper::getLocalSize(const Module& _module, unsigned i
 			{
 				auto getValue = [](const Instruction* instr) -> unsigned int
 				{
-					if (instr == nullptr || instr->isSpecOrConstant() == false)
-						return 0u;
+					if (instr == nullptr || (*instr != spv::Op::OpConstant && *instr != spv::Op::OpSpecConstant))
+						return 0u; // null or not known
 
 					if(auto it = instr->getFirstActualOperand(); it != nullptr && it->isLiteral() )
 					{
-- 
2.43.0


From d2dd752f0e3cf48585441ebf451471a50d2a6e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 121/190] fix: the reflection tool did not know the decoration
 Restrict

---
 refl/source/refl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refl/source/refl.cpp b/refl/source/refl.cpp
index 39138ca..4014067 100644
--- a/refl/source/refl.cpp
+++ b/refl/source/refl.cpp
@@ -36,7 +36,7 @@ const HeapHashMap<spv::Decoration, const char*> DecorationNames(
 	spv::Decoration::Centroid, (const char*)"Centroid",
 	spv::Decoration::Sample, (const char*)"Sample",
 	spv::Decoration::Invariant, (const char*)"Invariant",
-	spv::Decoration::Restrict, (const char*)"Restrict`",
+	spv::Decoration::Restrict, (const char*)"Restrict",
 	spv::Decoration::Aliased, (const char*)"Aliased",
 	spv::Decoration::Volatile, (const char*)"Volatile",
 	spv::Decoration::Constant, (const char*)"Constant",
-- 
2.43.0


From ba2b993b574c8e95bc2f0476739c01ec815396a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 122/190] fix: the reflection tool passed null to printf for
 functions without name

---
 refl/source/refl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refl/source/refl.cpp b/refl/source/refl.cpp
index 4014067..5d739c0 100644
--- a/refl/source/refl.cpp
+++ b/refl/source/refl.cpp
@@ -167,7 +167,8 @@ void printFunctions(IModulePrinter& _printer, const Module& _module, const Gramm
 
 	for (const Function& fun : _module.getFunctions())
 	{
-		printf("%s\n", fun.getName());
+		const char* name = fun.getName();
+		printf("%s\n", name != nullptr ? name : "[UNNAMED]");
 
 		printFnType(fun);
 	}
-- 
2.43.0


From 498c1bfa4f7b71ea17441d543342a7ee5ca216a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 123/190] fix: getDecorationLiteralFromTarget returned 0 for id
 operands and ignored decorations without operands

---
 common/source/ReflectionHelper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 9b9fb07..48d9da7 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -153,14 +153,15 @@ unsigned int spvgentwo::ReflectionHelper::getDecorationLiteralFromTarget(spv::De
 				target = target.next(); // skip member index
 			}
 
-			if (auto deco = target.next(); deco != nullptr && deco.next() != nullptr && deco->getLiteral() == static_cast<unsigned int>(_decoration))
+			if (auto deco = target.next(); deco != nullptr && deco->isLiteral() && deco->getLiteral() == static_cast<unsigned int>(_decoration))
 			{
 				if (_pOutDecoration != nullptr)
 				{
 					*_pOutDecoration = &decoration;
 				}
 
-				return deco.next()->getLiteral();
+				// operands of OpDecorateId are instructions
+				return deco.next() != nullptr && deco.next()->isLiteral() ? deco.next()->getLiteral().value : sgt_uint32_max;
 			}
 		}
 	}
-- 
2.43.0


From 584c0a4246595bf7193a38363b91e02f61add944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 124/190] fix: getDecorationLiteralFromTarget took the member
 index of OpMemberDecorateString for the decoration

---
 common/source/ReflectionHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 48d9da7..80c6703 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -148,7 +148,7 @@ unsigned int spvgentwo::ReflectionHelper::getDecorationLiteralFromTarget(spv::De
 
 		if (target != nullptr && *target == _pTarget)
 		{
-			if (decoration == spv::Op::OpMemberDecorate)
+			if (decoration == spv::Op::OpMemberDecorate || decoration == spv::Op::OpMemberDecorateString)
 			{
 				target = target.next(); // skip member index
 			}
-- 
2.43.0


From 7c6ab3cff21bf948c002b0a96991593d40713f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 125/190] fix: RemoveLinkageCapability shared its bit with
 AssignResultIDs

---
 common/include/common/LinkerHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/LinkerHelper.h b/common/include/common/LinkerHelper.h
index cd669d7..45e2465 100644
--- a/common/include/common/LinkerHelper.h
+++ b/common/include/common/LinkerHelper.h
@@ -42,7 +42,7 @@ namespace spvgentwo
 			ImportReferencedVariables = 1 << 6, // global variables referenced in (auto) imported functions
 			ImportReferencedStrings = 1 << 7, // global strings referenced in OpLine etc
 			AssignResultIDs = 1 << 8, // on-the-fligh assing ResultIds while transfering instructions from lib to consumber module (leaves original IDs intact, can improve performance if module.assignIDs() is not used)
-			RemoveLinkageCapability = 1 << 8, // remove linkage capability from the consumer library if all imports and exports have been resolved
+			RemoveLinkageCapability = 1 << 9, // remove linkage capability from the consumer library if all imports and exports have been resolved
 			AutoAddRequiredCapabilitiesAndExtensions = 1 << 10, // instead of copying ALL Capabilities & Extensions from the all libs to the consumer module, use LinkerOptions.grammar to select only required Caps & Exts for the consumer module.
 			UpdateEntryPointGlobalVarInterface = 1 << 11, // Add global variables referenced by the consumer EntryPoints to their OpEntryPoint, this should always be switched on unless Module.finalizeEntryPoints() is called after linking.
 			CopyOpSourceStringInstructions = 1 << 12, // Copy OpString, OpSource, OpSourceContinued and OpSourceExtension instructions from lib to consumer module
-- 
2.43.0


From 86b4f24bc88b04b0a5691a94b21741ea35965a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 126/190] fix: import() removed the Linkage capability while
 symbols of other libraries were not resolved

---
 common/source/LinkerHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 4fbd87e..84345a6 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -579,6 +579,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	List<ImportSymbol> iFuncs(pAllocator);
 
 	bool hasExports = false;
+	bool allImportsResolved = true;
 
 	// gather symbols to import
 	for (auto it = _consumer.getDecorations().begin(), end = _consumer.getDecorations().end(); it != end; ++it)
@@ -610,6 +611,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 			else
 			{
 				info("Symbol %s not found in import module", name.c_str()); // just an info because it could be in a different import module
+				allImportsResolved = false;
 			}
 		}
 		else if (type == spv::LinkageType::Export)
@@ -700,7 +702,6 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
-	bool allImportsResolved = true;
 	// import variables first in case they are used in the imported function
 	for (const ImportSymbol& var : iVars)
 	{
-- 
2.43.0


From f5ca7029bca4cf7479623c5964d5bed6ff3d7e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 127/190] fix: import() lowered the version of the consumer

---
 common/source/LinkerHelper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 84345a6..e2a2668 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -772,7 +772,11 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	{
 		_consumer.addRequiredCapabilities(*_options.grammar);
 		_consumer.addRequiredExtensions(*_options.grammar);
-		_consumer.setRequiredVersion(*_options.grammar);
+
+		if (const auto required = _consumer.getRequiredVersion(*_options.grammar); required > _consumer.getSpvVersion())
+		{
+			_consumer.setSpvVersion(required);
+		}
 	}
 	else // import all capabilities
 	{
-- 
2.43.0


From 5db9740ee4b94101ce87c67814be99afaf9bbc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 128/190] fix: import() turned the name of a struct into the
 name of member 4294967295

---
 common/source/LinkerHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index e2a2668..fb6e4bb 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -737,7 +737,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 				{
 					for (const auto& n : _lib.getNameLookupMap().getRange(lTarget))
 					{
-						if (*lTarget == spv::Op::OpTypeStruct)
+						if (n.kv.value.member != sgt_uint32_max)
 						{
 							_consumer.addMemberName(cTarget, n.kv.value.name.c_str(), n.kv.value.member);
 						}
-- 
2.43.0


From 62869aad9606c48d4cd3eea74e99de79521d0a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 129/190] fix: import() dereferenced the missing operand of
 OpDecorationGroup

---
 common/source/LinkerHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index fb6e4bb..a5500c8 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -755,9 +755,9 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	{
 		for (const Instruction& lDeco : _lib.getDecorations())
 		{
-			if (ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
+			if (auto it = lDeco.getFirstActualOperand(); it != nullptr && ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
 			{
-				const Instruction* lTarget = lDeco.getFirstActualOperand()->getInstruction();
+				const Instruction* lTarget = it->getInstruction();
 				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr)
 				{
 					Instruction* cDeco = _consumer.addDecorationInstr();
-- 
2.43.0


From 8fae6445b48a2f7f7dc0ba08dcf7ba098c38dbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:25 +0000
Subject: [PATCH 130/190] fix: addTypeInstr and addConstantInstr kept a pointer
 to the caller's type or constant

---
 lib/source/Module.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index e727317..31c4c3e 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -756,8 +756,8 @@ spvgentwo::Instruction* spvgentwo::Module::addTypeInstr(const Type* _pType)
 
 	if (_pType != nullptr)
 	{
-		m_TypeToInstr.emplaceUnique(*_pType, instr);
-		m_InstrToType.emplaceUnique(instr, _pType);
+		auto& node = m_TypeToInstr.emplaceUnique(*_pType, instr);
+		m_InstrToType.emplaceUnique(instr, &node.kv.key);
 	}
 
 	return instr;
@@ -769,8 +769,8 @@ spvgentwo::Instruction* spvgentwo::Module::addConstantInstr(const Constant* _pCo
 
 	if (_pConstant != nullptr)
 	{
-		m_ConstantToInstr.emplaceUnique(*_pConstant, instr);
-		m_InstrToConstant.emplaceUnique(instr, _pConstant);
+		auto& node = m_ConstantToInstr.emplaceUnique(*_pConstant, instr);
+		m_InstrToConstant.emplaceUnique(instr, &node.kv.key);
 	}
 
 	return instr;
-- 
2.43.0


From 650e76026e1701800ae252241bb22694dd719c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 131/190] fix: import() transferred types and constants without
 their operands (names, decorations, order) and merged different ones

---
 common/source/LinkerHelper.cpp | 358 +++++++++++++++++++--------------
 1 file changed, 207 insertions(+), 151 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index a5500c8..3df77e5 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -163,7 +163,7 @@ namespace
 		}
 	}
 
-	inline spvgentwo::Instruction* assignId(spvgentwo::Instruction* instr, spvgentwo::LinkerHelper::LinkerOptions _options)
+	inline spvgentwo::Instruction* assignId(spvgentwo::Instruction* instr, const spvgentwo::LinkerHelper::LinkerOptions& _options)
 	{
 		if (_options & spvgentwo::LinkerHelper::LinkerOptionBits::AssignResultIDs)
 		{
@@ -172,198 +172,257 @@ namespace
 		return instr;
 	}
 
-	template<class Func>
-	inline spvgentwo::Instruction* addTypeOrConstants(Func _func, spvgentwo::Module& _module, spvgentwo::LinkerHelper::LinkerOptions _options)
+	inline const char* getInstrName(const spvgentwo::LinkerHelper::LinkerOptions& _options, const spvgentwo::Instruction* _pInstr, const char* _pAlt)
 	{
-		using namespace spvgentwo;
-		const auto& tac = _module.getTypesAndConstants();
-		auto prev = tac.last();
-		Instruction* instr = _func();
-
-		for (auto end = tac.end(), it = prev; it != end; ++it)
+		if (_options.grammar != nullptr)
 		{
-			if (_options & LinkerHelper::LinkerOptionBits::AssignResultIDs)
-			{
-				it->assignResultId(false);
-			}
-
-			if (it != prev && it.next() != end)
+			if (auto* info = _options.grammar->getInfo(static_cast<unsigned int>(_pInstr->getOperation())); info != nullptr)
 			{
-				printInstruction(_options, it.operator->(), " -> [IMPLICIT]\n");
+				return info->name;
 			}
 		}
 
-		return instr;
+		return _pAlt;
 	}
 
-	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options);
+
+	// true if every decoration of _pLeft is also a decoration of _pRight
+	inline bool hasDecorationsOf(const spvgentwo::Instruction* _pLeft, const spvgentwo::Instruction* _pRight)
 	{
 		using namespace spvgentwo;
-		using namespace LinkerHelper;
 
-		if (_cache.find(_pLibInstr) != _cache.end())
-		{
-			return true;
-		}
+		bool all = true;
 
-		Module* module = _pTarget->getModule();
-		if (module == nullptr) { return false; }
-
-		auto getInstrName = [&_options](const Instruction* instr, const char* alt = nullptr) -> const char*
+		ReflectionHelper::getDecorationsFunc(_pLeft, [&](const Instruction* _pDeco)
 		{
-			if (_options.grammar != nullptr)
+			bool found = false;
+
+			ReflectionHelper::getDecorationsFunc(_pRight, [&](const Instruction* _pOther)
 			{
-				if (auto* info = _options.grammar->getInfo(static_cast<unsigned int>(instr->getOperation())); info != nullptr)
+				bool equal = _pDeco->getOperation() == _pOther->getOperation() && _pDeco->size() == _pOther->size();
+
+				auto it = _pOther->begin();
+				for (auto lit = _pDeco->begin(), end = _pDeco->end(); equal && lit != end; ++lit, ++it)
 				{
-					return info->name;
+					// the operands that are not literal are the target, and constants that can't be compared here
+					equal = lit->isLiteral() ? (it->isLiteral() && lit->getLiteral() == it->getLiteral()) : it->isLiteral() == false;
 				}
-			}
 
-			return alt;
-		};
+				found |= equal;
+			});
+
+			all &= found;
+		});
 
-		auto getSymbolName = [](const Instruction* instr) -> const char*
+		return all;
+	}
+
+	// look for a type or constant of the consumer that is declared with the same operands, specialization constants are never shared
+	inline spvgentwo::Instruction* findTypeOrConstant(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Module& _consumer, const InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options)
+	{
+		using namespace spvgentwo;
+
+		if (_pLibInstr->isSpecConstant())
 		{
-			const char* name = instr->getName();
-			return name != nullptr ? name : "UNNAMED";
-		};
+			return nullptr;
+		}
 
-		auto error = [module](auto&& ... args) {module->logError(args...); };
+		auto equal = [&](const Operand& _lib, const Operand& _consumer) -> bool
+		{
+			if (_lib.isInstruction() && _consumer.isInstruction())
+			{
+				Instruction** ppTarget = _cache[_lib.getInstruction()];
+				return ppTarget != nullptr && *ppTarget == _consumer.getInstruction();
+			}
 
-		// instruction parent must be be set before calling this function
-		_pTarget->setOperation(_pLibInstr->getOperation());
+			return _lib.isLiteral() && _consumer.isLiteral() && _lib.getLiteral() == _consumer.getLiteral();
+		};
 
-		auto lookupOperand = [&](const Instruction* lib) -> bool
+		for (Instruction& instr : _consumer.getTypesAndConstants())
 		{
-			auto operandError = [&](const char* operandInstrName = "", const char* hint = "")
+			if (instr.getOperation() != _pLibInstr->getOperation() || instr.size() != _pLibInstr->size())
 			{
-				error("[%%%u = %s] operand '%s' %s not found! %s", _pLibInstr->getResultId(), getInstrName(_pLibInstr, ""), getSymbolName(lib), getInstrName(lib, operandInstrName), hint);
-			};
+				continue;
+			}
 
-			Instruction* cInstr = nullptr;
+			bool match = true;
 
-			bool reported = false;
-			bool cached = false;
+			auto it = instr.begin();
+			for (auto lit = _pLibInstr->begin(), end = _pLibInstr->end(); match && lit != end; ++lit, ++it)
+			{
+				match = lit->isId() || equal(*lit, *it); // only the result is an id
+			}
 
-			if (Instruction** ppTarget = _cache[lib]; ppTarget != nullptr)
+			// the decorations of a type are part of its definition
+			if (match && _pLibInstr->isType() && (_options & spvgentwo::LinkerHelper::LinkerOptionBits::ImportReferencedDecorations))
 			{
-				cInstr = *ppTarget;
-				cached = true;
+				match = hasDecorationsOf(_pLibInstr, &instr) && hasDecorationsOf(&instr, _pLibInstr);
 			}
-			else if (lib->isSpecOrConstant())
+
+			if (match)
 			{
-				if ( _options & LinkerOptionBits::ImportMissingConstants )
-				{
-					if ( const Constant* c = lib->getConstant(); c != nullptr )
-					{
-						cInstr = addTypeOrConstants([&]() { return module->addConstant(*c); }, *module, _options);
-					}
-					else // fallback to generic transfer for spec constants
-					{
-						cInstr = module->addConstantInstr();
-						if ( transferInstruction(lib, cInstr, _cache, _options) == false ) return false;
-						cached = true;
-					}				
-				}
-				else
-				{
-					operandError("Op(Spec)Constant", "Use \'ImportMissingConstants\'.");
-					reported = true;
-				}
+				return &instr;
 			}
-			else if (lib->isType())
+		}
+
+		return nullptr;
+	}
+
+	// types and constants of an imported symbol are the ones the consumer declared it with
+	inline void cacheTypeOrConstant(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pConsumerInstr, InstrLookup& _cache)
+	{
+		if (_pLibInstr == nullptr || _pConsumerInstr == nullptr || (_pLibInstr->isType() == false && _pLibInstr->isSpecOrConstant() == false))
+		{
+			return;
+		}
+
+		if (_pLibInstr->getOperation() != _pConsumerInstr->getOperation() || _cache[_pLibInstr] != nullptr)
+		{
+			return;
+		}
+
+		_cache.emplaceUnique(_pLibInstr, _pConsumerInstr);
+
+		auto it = _pConsumerInstr->begin();
+		for (auto lit = _pLibInstr->begin(); lit != _pLibInstr->end() && it != _pConsumerInstr->end(); ++lit, ++it)
+		{
+			if (lit->isInstruction() && it->isInstruction())
 			{
-				if (const Type* t = lib->getType(); t != nullptr && (_options & LinkerOptionBits::ImportMissingTypes))
-				{
-					cInstr = addTypeOrConstants([&]() { return module->addType(*t); }, *module, _options);
-				}
-				else
-				{
-					operandError("OpType", "Use \'ImportMissingTypes\'.");
-					reported = true;
-				}
+				cacheTypeOrConstant(lit->getInstruction(), it->getInstruction(), _cache);
 			}
-			else if(*lib == spv::Op::OpVariable)
+		}
+	}
+
+	// returns the instruction of the consumer that corresponds to _pOperand, which is transferred if it is missing and declared at module level
+	inline spvgentwo::Instruction* lookupOperand(const spvgentwo::Instruction* _pOperand, const spvgentwo::Instruction* _pUser, spvgentwo::Module& _consumer, InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options)
+	{
+		using namespace spvgentwo;
+		using namespace LinkerHelper;
+
+		if (Instruction** ppTarget = _cache[_pOperand]; ppTarget != nullptr)
+		{
+			return *ppTarget;
+		}
+
+		auto operandError = [&](const char* _pOperandName, const char* _pHint)
+		{
+			const char* name = _pOperand->getName();
+			_consumer.logError("[%%%u = %s] operand '%s' %s not found! %s", _pUser->getResultId(), getInstrName(_options, _pUser, ""), name != nullptr ? name : "UNNAMED", getInstrName(_options, _pOperand, _pOperandName), _pHint);
+			return nullptr;
+		};
+
+		// operands have to be declared before the instruction
+		auto lookupOperands = [&]() -> bool
+		{
+			for (const Operand& op : *_pOperand)
 			{
-				if(lib->getStorageClass() != spv::StorageClass::Function && (_options & LinkerOptionBits::ImportReferencedVariables))
+				if (op.isInstruction() && lookupOperand(op.getInstruction(), _pOperand, _consumer, _cache, _options) == nullptr)
 				{
-					cInstr = module->addGlobalVariableInstr();
-					if (transferInstruction(lib, cInstr, _cache, _options) == false) return false;
-					cached = true;
+					return false;
 				}
-				else
-				{
-					operandError("OpVariable", "Use \'ImportReferencedVariables\'.");
-					reported = true;
-				}	
 			}
-			else if (*lib == spv::Op::OpString)
+			return true;
+		};
+
+		auto transfer = [&](Instruction* _pTarget) -> Instruction*
+		{
+			return transferInstruction(_pOperand, _pTarget, _cache, _options) ? _pTarget : nullptr;
+		};
+
+		const bool constant = _pOperand->isSpecOrConstant();
+
+		if (constant || _pOperand->isType())
+		{
+			if (lookupOperands() == false) return nullptr;
+
+			if (Instruction* pTarget = findTypeOrConstant(_pOperand, _consumer, _cache, _options); pTarget != nullptr)
 			{
-				if (_options & LinkerOptionBits::ImportReferencedStrings)
-				{
-					cInstr = module->addSourceStringInstr();
-					if (transferInstruction(lib, cInstr, _cache, _options) == false) return false;
-					cached = true;
-				}
-				else
-				{
-					operandError("OpString", "Use \'ImportReferencedStrings\'.");
-					reported = true;
-				}
+				_cache.emplaceUnique(_pOperand, assignId(pTarget, _options));
+				printInstruction(_options, _pOperand, " -> ", pTarget);
+				return pTarget;
 			}
-			else if (*lib == spv::Op::OpFunction)
+
+			if (constant)
 			{
-				operandError("OpFunction", "Use \'ImportReferencedFunctions\'.");
-				reported = true;
+				return (_options & LinkerOptionBits::ImportMissingConstants) ? transfer(_consumer.addConstantInstr(_pOperand->getConstant())) : operandError("Op(Spec)Constant", "Use \'ImportMissingConstants\'.");
 			}
-			else if (*lib == spv::Op::OpExtInstImport)
+
+			return (_options & LinkerOptionBits::ImportMissingTypes) ? transfer(_consumer.addTypeInstr(_pOperand->getType())) : operandError("OpType", "Use \'ImportMissingTypes\'.");
+		}
+		else if (*_pOperand == spv::Op::OpVariable)
+		{
+			if (_pOperand->getStorageClass() != spv::StorageClass::Function && (_options & LinkerOptionBits::ImportReferencedVariables))
+			{
+				return lookupOperands() ? transfer(_consumer.addGlobalVariableInstr()) : nullptr;
+			}
+
+			return operandError("OpVariable", "Use \'ImportReferencedVariables\'.");
+		}
+		else if (*_pOperand == spv::Op::OpString)
+		{
+			return (_options & LinkerOptionBits::ImportReferencedStrings) ? transfer(_consumer.addSourceStringInstr()) : operandError("OpString", "Use \'ImportReferencedStrings\'.");
+		}
+		else if (*_pOperand == spv::Op::OpFunction)
+		{
+			return operandError("OpFunction", "Use \'ImportReferencedFunctions\'.");
+		}
+		else if (*_pOperand == spv::Op::OpExtInstImport)
+		{
+			for (const auto& [name, instr] : _pOperand->getModule()->getExtInstrImports())
 			{
-				if (_options & LinkerOptionBits::ImportMissingExtensionSets)
+				if (&instr == _pOperand) // this is the extension we are looking for
 				{
-					for (const auto& [name, instr] : lib->getModule()->getExtInstrImports())
+					Instruction* pTarget = _consumer.getExtensionInstructionImport(name.c_str());
+
+					if (pTarget == nullptr)
 					{
-						if (&instr == lib) // this is the extension we are looking for
+						if (_options & LinkerOptionBits::ImportMissingExtensionSets)
+						{
+							pTarget = _consumer.addExtensionInstructionImport(name.c_str());
+						}
+						else
 						{
-							cInstr = module->addExtensionInstructionImport(name.c_str()); // unique add / lookup
-							break;
+							return operandError("OpExtInstImport", "Use \'ImportMissingExtensionSets\'.");
 						}
 					}
-				}
-				else
-				{
-					operandError("OpExtInstImport", "Use \'ImportMissingExtensionSets\'.");
-					reported = true;
+
+					_cache.emplaceUnique(_pOperand, assignId(pTarget, _options));
+					printInstruction(_options, _pOperand, " -> ", pTarget);
+					return pTarget;
 				}
 			}
+		}
 
-			if (cInstr != nullptr)
-			{
-				if (cached == false)
-				{
-					_cache.emplaceUnique(lib, cInstr);
-					if (_options & LinkerOptionBits::AssignResultIDs)
-					{
-						cInstr->assignResultId(false);
-					}
+		return operandError("", "");
+	}
 
-					printInstruction(_options, lib, " -> ", cInstr);				
-				}
+	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options)
+	{
+		using namespace spvgentwo;
+		using namespace LinkerHelper;
 
-				_pTarget->addOperand(cInstr);
-				return true;
-			}
+		Module* module = _pTarget->getModule();
+		if (module == nullptr) { return false; }
+
+		// instruction parent must be be set before calling this function
+		_pTarget->setOperation(_pLibInstr->getOperation());
 
-			if (reported == false)
+		auto addOperand = [&](const Instruction* _pOperand) -> bool
+		{
+			Instruction* cInstr = lookupOperand(_pOperand, _pLibInstr, *module, _cache, _options);
+
+			if (cInstr != nullptr)
 			{
-				operandError();
+				_pTarget->addOperand(cInstr);
 			}
 
-			return false;
+			return cInstr != nullptr;
 		};
 
 		if (_pTarget->hasResultType())
 		{
-			if (lookupOperand(_pLibInstr->getResultTypeInstr()) == false) return false;
+			if (addOperand(_pLibInstr->getResultTypeInstr()) == false) return false;
 		}
 		if (_pTarget->hasResult())
 		{
@@ -378,15 +437,16 @@ namespace
 			}
 			else if (it->isInstruction())
 			{
-				if (lookupOperand(it->getInstruction()) == false) return false;
+				if (addOperand(it->getInstruction()) == false) return false;
 			}
 			else if (it->isBranchTarget())
 			{
-				if (lookupOperand(it->getBranchTarget()->getLabel()) == false) return false;
+				if (addOperand(it->getBranchTarget()->getLabel()) == false) return false;
 			}
 			else
 			{
-				error("[%s] %s has unresolved ID operand, module needs to be resolved by resolveIDs() before importing a using it as import library.", getInstrName(_pLibInstr, ""), getSymbolName(_pLibInstr));
+				const char* name = _pLibInstr->getName();
+				module->logError("[%s] %s has unresolved ID operand, module needs to be resolved by resolveIDs() before importing a using it as import library.", getInstrName(_options, _pLibInstr, ""), name != nullptr ? name : "UNNAMED");
 				return false;
 			}
 		}
@@ -419,19 +479,18 @@ namespace
 		bool success = true;
 		Module& consumer = *_cFunc.getModule();
 
-		// create function signature
-		if (_cFunc.isFinalized() == false) // Function return type
+		if (*_cFunc.getFunction() == spv::Op::OpNop) // create function signature
 		{
-			_cFunc.setReturnType(_lFunc.getReturnType());
-		}
+			if (transferInstruction(_lFunc.getFunction(), _cFunc.getFunction(), _cache, _options) == false) return false; // OpFunction
 
-		if(_cFunc.getParameters().empty()) // parameters
-		{
 			for (const Instruction& lParam : _lFunc.getParameters())
 			{
-				Instruction* cType = addTypeOrConstants([&]() { return consumer.addType(*lParam.getType()); }, consumer, _options);
+				Instruction* cType = lookupOperand(lParam.getResultTypeInstr(), &lParam, consumer, _cache, _options);
+				if (cType == nullptr) return false;
 				_cFunc.addParameters(cType); // OpFunctionParameter
 			}
+
+			_cFunc.setFunctionType(_lFunc.getFunctionType());
 		}
 		else if(_cFunc.getParameters().size() != _lFunc.getParameters().size())
 		{
@@ -439,12 +498,6 @@ namespace
 			return false;
 		}
 
-		if(_cFunc.isFinalized() == false) // create OpFunction
-		{
-			_cFunc.finalize(_lFunc.getFunctionControl());
-			addTypeOrConstants([&]() { return consumer.addType(_cFunc.getFunctionType()); }, consumer, _options);
-		}
-
 		_cache.emplaceUnique(_lFunc.getFunction(), assignId(_cFunc.getFunction(), _options)); // OpFunction
 
 		printInstruction(_options, _lFunc.getFunction(), " -> ", _cFunc.getFunction()); // OpFunction
@@ -452,9 +505,7 @@ namespace
 		{
 			Instruction* lParam = _lFunc.getParameter(i);
 			Instruction* cParam = assignId(_cFunc.getParameter(i), _options);
-			Instruction* cType = cParam->getResultTypeInstr();
 
-			_cache.emplaceUnique(lParam->getResultTypeInstr(), cType);
 			_cache.emplaceUnique(lParam, cParam);
 
 			printInstruction(_options, lParam, " -> ", cParam); // OpFunctionParameter
@@ -522,6 +573,8 @@ namespace
 
 			if (checkType(*libType, *consumerType) == false) return false;
 
+			cacheTypeOrConstant(_libSymbol->getResultTypeInstr(), _consumerSymbol->getResultTypeInstr(), _cache);
+
 			printInstruction(_options, _libSymbol, " -> ", _consumerSymbol);
 			_cache.emplaceUnique(_libSymbol, _consumerSymbol);
 		}
@@ -532,6 +585,9 @@ namespace
 
 			if (checkType(libFunc.getFunctionType(), cosumerFunc.getFunctionType()) == false) return false;
 
+			// OpFunction ResultType ResultId FunctionControl FunctionType
+			cacheTypeOrConstant(_libSymbol->last()->getInstruction(), _consumerSymbol->last()->getInstruction(), _cache);
+
 			success &= transferFunction(libFunc, cosumerFunc, _cache, _options);
 		}
 		else
-- 
2.43.0


From cde55e2de9098e4956a7e77a14b70f40159792a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 132/190] fix: import() could not transfer instructions that
 are used before their definition (OpPhi)

---
 common/source/LinkerHelper.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 3df77e5..24273af 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -464,9 +464,9 @@ namespace
 
 		printInstruction(_options, _lBB.getLabel(), " -> ", _cBB.getLabel());
 
-		for (const spvgentwo::Instruction& lInstr : _lBB)
+		for (auto lit = _lBB.begin(), cit = _cBB.begin(); lit != _lBB.end(); ++lit, ++cit)
 		{
-			success &= transferInstruction(&lInstr, _cBB.addInstruction(), _cache, _options);
+			success &= transferInstruction(lit.operator->(), cit.operator->(), _cache, _options);
 		}
 
 		return success;
@@ -511,11 +511,16 @@ namespace
 			printInstruction(_options, lParam, " -> ", cParam); // OpFunctionParameter
 		}
 
-		// cache labels first, they can be referenced from other basic blocks, not yet added
+		// cache labels and instructions first, they can be referenced from other instructions and basic blocks, not yet transferred
 		for(const spvgentwo::BasicBlock& lBB : _lFunc)
 		{
 			auto& cBB = _cFunc.addBasicBlock();
 			_cache.emplaceUnique(lBB.getLabel(), assignId(cBB.getLabel(), _options));
+
+			for (const Instruction& lInstr : lBB)
+			{
+				_cache.emplaceUnique(&lInstr, cBB.addInstruction());
+			}
 		}
 
 		for(auto lit = _lFunc.begin(), cit = _cFunc.begin(); lit != _lFunc.end(); ++lit, ++cit)
-- 
2.43.0


From 28d0626831d7c0beb6c4c99a7c5fa017a3cb1c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 133/190] fix: import() dropped the initializer of imported
 variables

---
 common/source/LinkerHelper.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 24273af..c32a569 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -582,6 +582,14 @@ namespace
 
 			printInstruction(_options, _libSymbol, " -> ", _consumerSymbol);
 			_cache.emplaceUnique(_libSymbol, _consumerSymbol);
+
+			// OpVariable ResultType ResultId StorageClass Initializer
+			if (const Instruction* pInitializer = _libSymbol->last()->getInstruction(); pInitializer != nullptr)
+			{
+				Instruction* cInitializer = lookupOperand(pInitializer, _libSymbol, _consumer, _cache, _options);
+				if (cInitializer == nullptr) return false;
+				_consumerSymbol->addOperand(cInitializer);
+			}
 		}
 		else if (*_libSymbol == spv::Op::OpFunction && _libSymbol->getFunction() != nullptr && _consumerSymbol->getFunction() != nullptr)
 		{
-- 
2.43.0


From eb820cfe15da2f617184d587a1abd53529993027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 134/190] fix: import() could not transfer uses of OpUndef at
 module level

---
 common/source/LinkerHelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index c32a569..16b87bc 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -359,6 +359,10 @@ namespace
 
 			return operandError("OpVariable", "Use \'ImportReferencedVariables\'.");
 		}
+		else if (*_pOperand == spv::Op::OpUndef && _pOperand->getBasicBlock() == nullptr)
+		{
+			return lookupOperands() ? transfer(_consumer.addUndefInstr()) : nullptr;
+		}
 		else if (*_pOperand == spv::Op::OpString)
 		{
 			return (_options & LinkerOptionBits::ImportReferencedStrings) ? transfer(_consumer.addSourceStringInstr()) : operandError("OpString", "Use \'ImportReferencedStrings\'.");
-- 
2.43.0


From f150faf64ae8d352a85ee8b595967ea98412bb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 135/190] fix: import() repeated decorations the consumer
 already has

---
 common/source/LinkerHelper.cpp | 39 ++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 16b87bc..6fc1d4e 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -187,33 +187,36 @@ namespace
 
 	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options);
 
-	// true if every decoration of _pLeft is also a decoration of _pRight
-	inline bool hasDecorationsOf(const spvgentwo::Instruction* _pLeft, const spvgentwo::Instruction* _pRight)
+	// true if _pTarget is already decorated like _pDeco decorates its own target
+	inline bool hasDecoration(const spvgentwo::Instruction* _pTarget, const spvgentwo::Instruction* _pDeco)
 	{
 		using namespace spvgentwo;
 
-		bool all = true;
+		bool found = false;
 
-		ReflectionHelper::getDecorationsFunc(_pLeft, [&](const Instruction* _pDeco)
+		ReflectionHelper::getDecorationsFunc(_pTarget, [&](const Instruction* _pOther)
 		{
-			bool found = false;
+			bool equal = _pDeco->getOperation() == _pOther->getOperation() && _pDeco->size() == _pOther->size();
 
-			ReflectionHelper::getDecorationsFunc(_pRight, [&](const Instruction* _pOther)
+			auto it = _pOther->begin();
+			for (auto lit = _pDeco->begin(), end = _pDeco->end(); equal && lit != end; ++lit, ++it)
 			{
-				bool equal = _pDeco->getOperation() == _pOther->getOperation() && _pDeco->size() == _pOther->size();
+				// only the target is not a literal, constants of other modules can't be compared here
+				equal = lit->isLiteral() ? (it->isLiteral() && lit->getLiteral() == it->getLiteral()) : (lit == _pDeco->begin());
+			}
 
-				auto it = _pOther->begin();
-				for (auto lit = _pDeco->begin(), end = _pDeco->end(); equal && lit != end; ++lit, ++it)
-				{
-					// the operands that are not literal are the target, and constants that can't be compared here
-					equal = lit->isLiteral() ? (it->isLiteral() && lit->getLiteral() == it->getLiteral()) : it->isLiteral() == false;
-				}
+			found |= equal;
+		});
 
-				found |= equal;
-			});
+		return found;
+	}
 
-			all &= found;
-		});
+	// true if every decoration of _pLeft is also a decoration of _pRight
+	inline bool hasDecorationsOf(const spvgentwo::Instruction* _pLeft, const spvgentwo::Instruction* _pRight)
+	{
+		bool all = true;
+
+		spvgentwo::ReflectionHelper::getDecorationsFunc(_pLeft, [&](const spvgentwo::Instruction* _pDeco) { all &= hasDecoration(_pRight, _pDeco); });
 
 		return all;
 	}
@@ -831,7 +834,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 			if (auto it = lDeco.getFirstActualOperand(); it != nullptr && ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
 			{
 				const Instruction* lTarget = it->getInstruction();
-				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr)
+				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr && hasDecoration(*ppCTarget, &lDeco) == false)
 				{
 					Instruction* cDeco = _consumer.addDecorationInstr();
 					success &= transferInstruction(&lDeco, cDeco, cache, _options);
-- 
2.43.0


From 7b977463a2c2affa3bccaa61c0126c0da11e06eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 136/190] fix: import() could not transfer references to
 imported variables and functions that are resolved later

---
 common/source/LinkerHelper.cpp | 39 ++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 6fc1d4e..b5bfae2 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -540,6 +540,28 @@ namespace
 		return success;
 	}
 
+	// references to the symbol of the library become references to the symbol of the consumer, which also declares the type
+	inline void cacheImportSymbol(const spvgentwo::Instruction* _pLibSymbol, spvgentwo::Instruction* _pConsumerSymbol, InstrLookup& _cache)
+	{
+		using namespace spvgentwo;
+
+		if (_pLibSymbol->getOperation() != _pConsumerSymbol->getOperation())
+		{
+			return; // reported by importSymbolImpl
+		}
+
+		_cache.emplaceUnique(_pLibSymbol, _pConsumerSymbol);
+
+		if (*_pLibSymbol == spv::Op::OpFunction) // OpFunction ResultType ResultId FunctionControl FunctionType
+		{
+			cacheTypeOrConstant(_pLibSymbol->last()->getInstruction(), _pConsumerSymbol->last()->getInstruction(), _cache);
+		}
+		else
+		{
+			cacheTypeOrConstant(_pLibSymbol->getResultTypeInstr(), _pConsumerSymbol->getResultTypeInstr(), _cache);
+		}
+	}
+
 	inline bool importSymbolImpl(spvgentwo::Module& _consumer, const spvgentwo::Instruction* _libSymbol, spvgentwo::Instruction* _consumerSymbol, const spvgentwo::String& _name, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
 	{
 		bool success = true;
@@ -585,10 +607,7 @@ namespace
 
 			if (checkType(*libType, *consumerType) == false) return false;
 
-			cacheTypeOrConstant(_libSymbol->getResultTypeInstr(), _consumerSymbol->getResultTypeInstr(), _cache);
-
 			printInstruction(_options, _libSymbol, " -> ", _consumerSymbol);
-			_cache.emplaceUnique(_libSymbol, _consumerSymbol);
 
 			// OpVariable ResultType ResultId StorageClass Initializer
 			if (const Instruction* pInitializer = _libSymbol->last()->getInstruction(); pInitializer != nullptr)
@@ -605,9 +624,6 @@ namespace
 
 			if (checkType(libFunc.getFunctionType(), cosumerFunc.getFunctionType()) == false) return false;
 
-			// OpFunction ResultType ResultId FunctionControl FunctionType
-			cacheTypeOrConstant(_libSymbol->last()->getInstruction(), _consumerSymbol->last()->getInstruction(), _cache);
-
 			success &= transferFunction(libFunc, cosumerFunc, _cache, _options);
 		}
 		else
@@ -725,6 +741,17 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		success &= copy(_lib.getModulesProcessed(), [&]() -> Instruction* { return _consumer.addModuleProccessedInstr(); });
 	}
 
+	// the consumer's declarations are the targets of every reference to an imported symbol
+	for (const ImportSymbol& var : iVars)
+	{
+		cacheImportSymbol(var.lib, var.consume, cache);
+	}
+
+	for (const ImportSymbol& func : iFuncs)
+	{
+		cacheImportSymbol(func.lib, func.consume, cache);
+	}
+
 	if (_options & LinkerOptionBits::ImportReferencedFunctions)
 	{
 		// gather all functions called from all the iFuncs we want to import
-- 
2.43.0


From 4319801446932e01f8228677031b6935ff88ff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 137/190] fix: import() added referenced functions in an order
 that depends on their addresses

---
 common/source/LinkerHelper.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index b5bfae2..af7cfcb 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -754,8 +754,10 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 
 	if (_options & LinkerOptionBits::ImportReferencedFunctions)
 	{
+		struct CalledFunction { const Function* lib; Function* consumer; };
+
 		// gather all functions called from all the iFuncs we want to import
-		HashMap <Function*, Function*> calledFuncs(pAllocator, static_cast<unsigned int>(_lib.getFunctions().size())); // lib Func -> consumer Function
+		List<CalledFunction> calledFuncs(pAllocator); // in the order of discovery
 		for (const ImportSymbol& func : iFuncs)
 		{
 			Function* target = func.lib->getFunction();
@@ -777,15 +779,13 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 							}
 						});
 
-						if (exported == false)
+						// if we didn't add this function before (call from another site)
+						if (exported == false && cache[callee->getFunction()] == nullptr)
 						{
-							// if we didn't add this function before (call from another site)
-							if (auto& n = calledFuncs.emplaceUnique(callee, nullptr); n.kv.value == nullptr)
-							{
-								// cache the OpFunctions so that we can transfer the instructions in any order and transfering OpFunctionCall works
-								n.kv.value = &_consumer.addFunction();
-								cache.emplaceUnique(callee->getFunction(), assignId(n.kv.value->getFunction(), _options)); // OpFunction
-							}
+							// cache the OpFunctions so that we can transfer the instructions in any order and transfering OpFunctionCall works
+							Function& target = _consumer.addFunction();
+							cache.emplaceUnique(callee->getFunction(), target.getFunction()); // OpFunction
+							calledFuncs.emplace_back(callee, &target);
 						}
 					}
 				}
@@ -793,7 +793,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 
 		// transfer functions from lib to consumer
-		for (auto& [lFunc, cFunc] : calledFuncs)
+		for (const auto& [lFunc, cFunc] : calledFuncs)
 		{
 			{
 				String sig(pAllocator);
-- 
2.43.0


From 82d3cc33ebef75bf632be8f244407f9a1d3d791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 138/190] fix: import() failed if an imported function calls an
 exported function the consumer does not import

---
 common/include/common/LinkerHelper.h |  2 +-
 common/source/LinkerHelper.cpp       | 13 ++-----------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/common/include/common/LinkerHelper.h b/common/include/common/LinkerHelper.h
index 45e2465..92d8b1c 100644
--- a/common/include/common/LinkerHelper.h
+++ b/common/include/common/LinkerHelper.h
@@ -38,7 +38,7 @@ namespace spvgentwo
 			ImportMissingExtensionSets = 1 << 2, // during instruction lookup, import missing OpExtInstImport
 			ImportReferencedDecorations = 1 << 3, // referencing imported symbol
 			ImportReferencedNames = 1 << 4, // referencing imported symbol
-			ImportReferencedFunctions = 1 << 5, // functions called from an imported function, but were not exported themselves
+			ImportReferencedFunctions = 1 << 5, // functions called from an imported function, which are not imported by the consumer themselves
 			ImportReferencedVariables = 1 << 6, // global variables referenced in (auto) imported functions
 			ImportReferencedStrings = 1 << 7, // global strings referenced in OpLine etc
 			AssignResultIDs = 1 << 8, // on-the-fligh assing ResultIds while transfering instructions from lib to consumber module (leaves original IDs intact, can improve performance if module.assignIDs() is not used)
diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index af7cfcb..746a74c 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -770,17 +770,8 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 					Function* callee = node->data();
 					if (callee != target) // not interested in the exported function
 					{
-						// check if callee is NOT marked for export
-						bool exported = false;
-						ReflectionHelper::getDecorationsFunc(callee->getFunction(), [&exported](const Instruction* pDeco) {
-							if(exported == false && getLinkageTypeFromDecoration(pDeco) == spv::LinkageType::Export)
-							{
-								exported = true;
-							}
-						});
-
-						// if we didn't add this function before (call from another site)
-						if (exported == false && cache[callee->getFunction()] == nullptr)
+						// if the consumer does not import this function and we didn't add it before (call from another site)
+						if (cache[callee->getFunction()] == nullptr)
 						{
 							// cache the OpFunctions so that we can transfer the instructions in any order and transfering OpFunctionCall works
 							Function& target = _consumer.addFunction();
-- 
2.43.0


From f4299c1c457be966e662d119e103d845c8f3358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 139/190] fix: import() passed null for empty names

---
 common/source/LinkerHelper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 746a74c..bfd75da 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -831,13 +831,15 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 				{
 					for (const auto& n : _lib.getNameLookupMap().getRange(lTarget))
 					{
+						const char* pName = n.kv.value.name.empty() ? "" : n.kv.value.name.c_str();
+
 						if (n.kv.value.member != sgt_uint32_max)
 						{
-							_consumer.addMemberName(cTarget, n.kv.value.name.c_str(), n.kv.value.member);
+							_consumer.addMemberName(cTarget, pName, n.kv.value.member);
 						}
 						else
 						{
-							_consumer.addName(cTarget, n.kv.value.name.c_str());
+							_consumer.addName(cTarget, pName);
 						}
 					}
 				}
-- 
2.43.0


From 43d21ab7f4b07c66e11688e5e5c9f7a46dcb7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 140/190] fix: finalizing and linking did not add the
 capabilities for 8, 16 and 64 bit types

---
 lib/include/spvgentwo/Module.h |  3 +++
 lib/source/Module.cpp          | 48 +++++++++++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Module.h b/lib/include/spvgentwo/Module.h
index d92adcf..7e3f468 100644
--- a/lib/include/spvgentwo/Module.h
+++ b/lib/include/spvgentwo/Module.h
@@ -137,6 +137,9 @@ namespace spvgentwo
 		// check if capability was added or is implicitly declared by one of the added capabilities
 		bool isCapabilityEnabled(spv::Capability _capability) const;
 
+		// capability the module lacks to declare an OpTypeInt or OpTypeFloat of this width, spv::Capability::Max if there is none
+		spv::Capability getTypeWidthCapability(const Instruction& _instr) const;
+
 		// returns true if OpCapability matching _capability was in the module
 		bool removeCapability(spv::Capability _capability);
 		
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 31c4c3e..bc15633 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -380,6 +380,37 @@ bool spvgentwo::Module::checkCapability(spv::Capability _capability) const
 	return m_Capabilities.find(_capability) != m_Capabilities.end();
 }
 
+spvgentwo::spv::Capability spvgentwo::Module::getTypeWidthCapability(const Instruction& _instr) const
+{
+	using C = spv::Capability;
+
+	const bool isInt = _instr == spv::Op::OpTypeInt;
+
+	auto it = isInt || _instr == spv::Op::OpTypeFloat ? _instr.getFirstActualOperand() : nullptr;
+	if (it == nullptr || it->isLiteral() == false)
+	{
+		return C::Max;
+	}
+
+	auto oneOf = [this](auto ... _capabilities) { return (... || isCapabilityEnabled(_capabilities)); };
+
+	switch (it->getLiteral().value)
+	{
+	case 8u:
+		return isInt && oneOf(C::Int8, C::StorageBuffer8BitAccess, C::UniformAndStorageBuffer8BitAccess, C::StoragePushConstant8) == false ? C::Int8 : C::Max;
+	case 16u:
+		if (oneOf(C::StorageBuffer16BitAccess, C::UniformAndStorageBuffer16BitAccess, C::StoragePushConstant16, C::StorageInputOutput16))
+		{
+			return C::Max;
+		}
+		return isInt ? (oneOf(C::Int16) ? C::Max : C::Int16) : (oneOf(C::Float16, C::Float16Buffer) ? C::Max : C::Float16);
+	case 64u:
+		return oneOf(isInt ? C::Int64 : C::Float64) ? C::Max : (isInt ? C::Int64 : C::Float64);
+	default:
+		return C::Max;
+	}
+}
+
 bool spvgentwo::Module::isCapabilityEnabled(spv::Capability _capability) const
 {
 	auto implies = [_capability](auto& _self, spv::Capability _declared) -> bool
@@ -833,6 +864,15 @@ spvgentwo::spv::Id spvgentwo::Module::assignIDs(const Grammar* _pGrammar)
 		addCapability(pick);
 	};
 
+	// the width of OpTypeInt and OpTypeFloat is not part of the instruction grammar
+	auto addWidth = [this](const Instruction& _instr)
+	{
+		if (const spv::Capability c = getTypeWidthCapability(_instr); c != spv::Capability::Max)
+		{
+			addCapability(c);
+		}
+	};
+
 	if (_pGrammar != nullptr) // the memory model is not part of the instruction grammar
 	{
 		if (auto model = m_MemoryModel.getFirstActualOperand(); model != nullptr && model.next() != nullptr)
@@ -849,13 +889,14 @@ spvgentwo::spv::Id spvgentwo::Module::assignIDs(const Grammar* _pGrammar)
 		}
 	}
 
-	iterateInstructions([&maxId, &maxVersion, &addOneOf, _pGrammar, this](Instruction& instr)
+	iterateInstructions([&maxId, &maxVersion, &addOneOf, &addWidth, _pGrammar, this](Instruction& instr)
 	{
 		if (_pGrammar != nullptr) // add missing capabilities, extensions and required version
 		{
 			if (auto* info = _pGrammar->getInfo(static_cast<unsigned int>(instr.getOperation())); info != nullptr)
 			{
 				addOneOf(info->capabilities);
+				addWidth(instr);
 				for (const spv::Extension& e : info->extensions)
 				{
 					logDebug("Adding SPIR-V extension %s for use of %s", spv::ExtensionNames[static_cast<unsigned>(e)], info->name);
@@ -1927,6 +1968,11 @@ void spvgentwo::Module::addRequiredCapabilities(const Grammar& _grammar)
 				addCapability(c);
 			}
 		}
+
+		if (const spv::Capability c = getTypeWidthCapability(_instr); c != spv::Capability::Max)
+		{
+			addCapability(c);
+		}
 	};
 
 	iterateInstructions(check);
-- 
2.43.0


From 01cb86fb9775e9e2e9c669f49ae64681951fe3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 141/190] fix: import() dereferenced the missing type info of
 variables whose array length is an OpSpecConstantOp

---
 common/source/LinkerHelper.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index bfd75da..3464851 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -272,6 +272,30 @@ namespace
 		return nullptr;
 	}
 
+	// true if both declare the same type or constant
+	inline bool sameDeclaration(const spvgentwo::Instruction* _pLeft, const spvgentwo::Instruction* _pRight)
+	{
+		if (_pLeft == nullptr || _pRight == nullptr || _pLeft->getOperation() != _pRight->getOperation() || _pLeft->size() != _pRight->size())
+		{
+			return false;
+		}
+
+		auto it = _pRight->begin();
+		for (auto lit = _pLeft->begin(), end = _pLeft->end(); lit != end; ++lit, ++it)
+		{
+			if (lit->isLiteral() && (it->isLiteral() == false || lit->getLiteral() != it->getLiteral()))
+			{
+				return false;
+			}
+			else if (lit->isInstruction() && sameDeclaration(lit->getInstruction(), it->getInstruction()) == false)
+			{
+				return false;
+			}
+		}
+
+		return true;
+	}
+
 	// types and constants of an imported symbol are the ones the consumer declared it with
 	inline void cacheTypeOrConstant(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pConsumerInstr, InstrLookup& _cache)
 	{
@@ -605,7 +629,15 @@ namespace
 			const Type* libType = _libSymbol->getType();
 			const Type* consumerType = _consumerSymbol->getType();
 
-			if (checkType(*libType, *consumerType) == false) return false;
+			if (libType != nullptr && consumerType != nullptr)
+			{
+				if (checkType(*libType, *consumerType) == false) return false;
+			}
+			else if (sameDeclaration(_libSymbol->getResultTypeInstr(), _consumerSymbol->getResultTypeInstr()) == false) // no type info, length of an array is an OpSpecConstantOp
+			{
+				error("Type mismatch for symbol %s", _name.c_str());
+				return false;
+			}
 
 			printInstruction(_options, _libSymbol, " -> ", _consumerSymbol);
 
-- 
2.43.0


From 7253823097d94f633d87f0d03574d5a2f0f1233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 142/190] fix: modules, types and constants kept memory of the
 allocator of the type or constant they were given

---
 lib/source/Constant.cpp |  9 ++++++++-
 lib/source/Module.cpp   | 25 +++++++++++++++++++------
 lib/source/Type.cpp     | 10 +++++++++-
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/lib/source/Constant.cpp b/lib/source/Constant.cpp
index a0daf80..2086830 100644
--- a/lib/source/Constant.cpp
+++ b/lib/source/Constant.cpp
@@ -32,10 +32,17 @@ spvgentwo::Constant& spvgentwo::Constant::operator=(const Constant& _other)
 {
 	if (this == &_other) return *this;
 
-	m_Components = _other.m_Components;
+	// components of all levels use the allocator of this constant, _other could be one of them
+	List<Constant> components(m_Components.getAllocator() != nullptr ? m_Components.getAllocator() : _other.m_Components.getAllocator());
+	for (const Constant& component : _other.m_Components)
+	{
+		components.emplace_back(components.getAllocator()) = component;
+	}
+
 	m_literalData = _other.m_literalData;
 	m_Operation = _other.m_Operation;
 	m_Type = _other.m_Type;
+	m_Components = stdrep::move(components);
 
 	return *this;
 }
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index bc15633..848a6f4 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -546,7 +546,10 @@ spvgentwo::Instruction* spvgentwo::Module::addDecorationInstr()
 spvgentwo::Instruction* spvgentwo::Module::addConstant(const Constant& _const, const char* _pName)
 {
 	const spv::Op constantOp = _const.getOperation();
-	auto& node = m_ConstantToInstr.emplaceUnique(_const, nullptr);
+
+	Constant key(m_pAllocator); // the allocator of _const might not live as long as the module
+	key = _const;
+	auto& node = m_ConstantToInstr.emplaceUnique(key, nullptr);
 
 	// early return for regular constants which are unique
 	if( IsConstantOp(constantOp) && node.kv.value != nullptr )
@@ -641,7 +644,9 @@ const spvgentwo::Constant* spvgentwo::Module::getConstantInfo(const Instruction*
 
 spvgentwo::Instruction* spvgentwo::Module::addType(const Type& _type, const char* _pName)
 {
-	auto& node = m_TypeToInstr.emplaceUnique(_type, nullptr);
+	Type key(m_pAllocator); // the allocator of _type might not live as long as the module
+	key = _type;
+	auto& node = m_TypeToInstr.emplaceUnique(key, nullptr);
 	if (node.kv.value != nullptr)
 	{
 		return node.kv.value;
@@ -787,7 +792,9 @@ spvgentwo::Instruction* spvgentwo::Module::addTypeInstr(const Type* _pType)
 
 	if (_pType != nullptr)
 	{
-		auto& node = m_TypeToInstr.emplaceUnique(*_pType, instr);
+		Type key(m_pAllocator);
+		key = *_pType;
+		auto& node = m_TypeToInstr.emplaceUnique(key, instr);
 		m_InstrToType.emplaceUnique(instr, &node.kv.key);
 	}
 
@@ -800,7 +807,9 @@ spvgentwo::Instruction* spvgentwo::Module::addConstantInstr(const Constant* _pCo
 
 	if (_pConstant != nullptr)
 	{
-		auto& node = m_ConstantToInstr.emplaceUnique(*_pConstant, instr);
+		Constant key(m_pAllocator);
+		key = *_pConstant;
+		auto& node = m_ConstantToInstr.emplaceUnique(key, instr);
 		m_InstrToConstant.emplaceUnique(instr, &node.kv.key);
 	}
 
@@ -1208,7 +1217,9 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				continue;
 			}
 
-			auto& node = m_TypeToInstr.emplaceUnique(stdrep::move(t), nullptr);
+			Type key(m_pAllocator);
+			key = t;
+			auto& node = m_TypeToInstr.emplaceUnique(key, nullptr);
 			m_InstrToType.emplaceUnique(&instr, &node.kv.key);
 
 			if (isSpecSized)
@@ -1289,7 +1300,9 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				continue;
 			}
 
-			auto& node = m_ConstantToInstr.emplaceUnique(stdrep::move(c), nullptr);
+			Constant key(m_pAllocator);
+			key = c;
+			auto& node = m_ConstantToInstr.emplaceUnique(key, nullptr);
 			m_InstrToConstant.emplaceUnique(&instr, &node.kv.key);
 
 			if (node.kv.value == nullptr && specSized.contains(instr.getResultTypeInstr()) == false)
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index a4cf7d6..4114226 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -70,7 +70,13 @@ spvgentwo::Type& spvgentwo::Type::operator=(Type&& _other) noexcept
 spvgentwo::Type& spvgentwo::Type::operator=(const Type& _other)
 {
 	if (this == &_other) return *this;
-	m_subTypes = _other.m_subTypes;
+
+	// sub types of all levels use the allocator of this type, _other could be one of them
+	List<Type> subTypes(m_subTypes.getAllocator() != nullptr ? m_subTypes.getAllocator() : _other.m_subTypes.getAllocator());
+	for (const Type& sub : _other.m_subTypes)
+	{
+		subTypes.emplace_back(subTypes.getAllocator()) = sub;
+	}
 
 	m_Type = _other.m_Type;
 	m_IntSign = _other.m_IntSign;
@@ -83,6 +89,8 @@ spvgentwo::Type& spvgentwo::Type::operator=(const Type& _other)
 	m_StorageClass = _other.m_StorageClass;
 	m_AccessQualifier = _other.m_AccessQualifier;
 
+	m_subTypes = stdrep::move(subTypes);
+
 	return *this;
 }
 
-- 
2.43.0


From b9b7a03a6ce36e60d911fbfe8bfbbb3c3835fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 143/190] fix: import() dropped the linkage of functions and
 variables the library itself imports

---
 common/source/LinkerHelper.cpp | 47 ++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 3464851..40e3726 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -705,6 +705,9 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	bool hasExports = false;
 	bool allImportsResolved = true;
 
+	// symbols the consumer imports or exports
+	HashMap<String, Instruction*> consumerSymbols(pAllocator);
+
 	// gather symbols to import
 	for (auto it = _consumer.getDecorations().begin(), end = _consumer.getDecorations().end(); it != end; ++it)
 	{
@@ -712,6 +715,11 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		String name(pAllocator);
 		const spv::LinkageType type = getLinkageTypeFromDecoration(it.operator->(), &importSymbol, &name);
 
+		if (type == spv::LinkageType::Import || type == spv::LinkageType::Export)
+		{
+			consumerSymbols.emplaceUnique(name, importSymbol);
+		}
+
 		if (type == spv::LinkageType::Import)
 		{
 			if (const Instruction** ppSymbol = exportTable[name]; ppSymbol != nullptr)
@@ -784,6 +792,23 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		cacheImportSymbol(func.lib, func.consume, cache);
 	}
 
+	// symbols the library imports are the ones the consumer imports or exports with the same name
+	for (const Instruction& deco : _lib.getDecorations())
+	{
+		Instruction* symbol = nullptr;
+		String name(pAllocator);
+
+		if (getLinkageTypeFromDecoration(&deco, &symbol, &name) == spv::LinkageType::Import)
+		{
+			auto declaration = [](const Instruction* _pSymbol) { return *_pSymbol == spv::Op::OpFunction ? _pSymbol->last()->getInstruction() : _pSymbol->getResultTypeInstr(); };
+
+			if (Instruction** ppSymbol = consumerSymbols[name]; ppSymbol != nullptr && (*ppSymbol)->getOperation() == symbol->getOperation() && sameDeclaration(declaration(symbol), declaration(*ppSymbol)))
+			{
+				cacheImportSymbol(symbol, *ppSymbol, cache);
+			}
+		}
+	}
+
 	if (_options & LinkerOptionBits::ImportReferencedFunctions)
 	{
 		struct CalledFunction { const Function* lib; Function* consumer; };
@@ -847,6 +872,28 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		else { allImportsResolved = false; }
 	}
 
+	// symbols imported by the library are still to be imported by the consumer, if it does not know them
+	for (const Instruction& deco : _lib.getDecorations())
+	{
+		Instruction* symbol = nullptr;
+		String name(pAllocator);
+
+		if (getLinkageTypeFromDecoration(&deco, &symbol, &name) == spv::LinkageType::Import)
+		{
+			if (Instruction** ppSymbol = cache[symbol]; ppSymbol != nullptr)
+			{
+				Instruction** ppConsumerSymbol = consumerSymbols[name];
+
+				if (ppConsumerSymbol == nullptr || *ppConsumerSymbol != *ppSymbol)
+				{
+					addLinkageDecoration(*ppSymbol, spv::LinkageType::Import, name.c_str());
+					_consumer.addCapability(spv::Capability::Linkage);
+					allImportsResolved = false;
+				}
+			}
+		}
+	}
+
 	if (_options & LinkerOptionBits::ImportReferencedNames)
 	{
 		for (const Instruction& name : _lib.getNames())
-- 
2.43.0


From 6506b5733656ce823147320556d6e52aab82cf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 144/190] fix: import() dropped the decorations that decoration
 groups of the library apply

---
 common/source/LinkerHelper.cpp | 98 ++++++++++++++++++++++++++++++++--
 1 file changed, 95 insertions(+), 3 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 40e3726..15ea149 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -221,6 +221,25 @@ namespace
 		return all;
 	}
 
+	// true if a decoration group applies to _pTarget or one of its members
+	inline bool isGroupDecorated(const spvgentwo::Instruction* _pTarget)
+	{
+		using namespace spvgentwo;
+
+		for (const Instruction& deco : _pTarget->getModule()->getDecorations())
+		{
+			if (deco == spv::Op::OpGroupDecorate || deco == spv::Op::OpGroupMemberDecorate)
+			{
+				for (const Operand& op : deco)
+				{
+					if (op == _pTarget) return true;
+				}
+			}
+		}
+
+		return false;
+	}
+
 	// look for a type or constant of the consumer that is declared with the same operands, specialization constants are never shared
 	inline spvgentwo::Instruction* findTypeOrConstant(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Module& _consumer, const InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options)
 	{
@@ -257,10 +276,10 @@ namespace
 				match = lit->isId() || equal(*lit, *it); // only the result is an id
 			}
 
-			// the decorations of a type are part of its definition
+			// the decorations of a type are part of its definition, the ones of groups are not compared
 			if (match && _pLibInstr->isType() && (_options & spvgentwo::LinkerHelper::LinkerOptionBits::ImportReferencedDecorations))
 			{
-				match = hasDecorationsOf(_pLibInstr, &instr) && hasDecorationsOf(&instr, _pLibInstr);
+				match = hasDecorationsOf(_pLibInstr, &instr) && hasDecorationsOf(&instr, _pLibInstr) && isGroupDecorated(_pLibInstr) == false && isGroupDecorated(&instr) == false;
 			}
 
 			if (match)
@@ -489,6 +508,54 @@ namespace
 		return true;
 	}
 
+	// decorates _pTarget (or one of its members) like the group of the library, decoration groups are not imported
+	inline bool transferGroupDecorations(const spvgentwo::Instruction* _pGroup, spvgentwo::Instruction* _pTarget, const spvgentwo::Operand* _pMember, InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options)
+	{
+		using namespace spvgentwo;
+
+		bool success = true;
+
+		ReflectionHelper::getDecorationsFunc(_pGroup, [&](const Instruction* _pDeco)
+		{
+			if (*_pDeco == spv::Op::OpGroupDecorate || *_pDeco == spv::Op::OpGroupMemberDecorate || (_pMember == nullptr && hasDecoration(_pTarget, _pDeco)))
+			{
+				return;
+			}
+
+			Instruction* deco = _pTarget->getModule()->addDecorationInstr();
+			deco->setOperation(_pDeco->getOperation());
+			deco->addOperand(_pTarget);
+
+			if (_pMember != nullptr)
+			{
+				deco->setOperation(*_pDeco == spv::Op::OpDecorateString ? spv::Op::OpMemberDecorateString : spv::Op::OpMemberDecorate);
+				deco->addOperand(*_pMember);
+			}
+
+			for (auto it = _pDeco->begin().next(), end = _pDeco->end(); it != end; ++it)
+			{
+				if (it->isInstruction())
+				{
+					Instruction* pOperand = lookupOperand(it->getInstruction(), _pDeco, *_pTarget->getModule(), _cache, _options);
+
+					if (pOperand == nullptr)
+					{
+						success = false;
+						return;
+					}
+
+					deco->addOperand(pOperand);
+				}
+				else
+				{
+					deco->addOperand(*it);
+				}
+			}
+		});
+
+		return success;
+	}
+
 	inline bool transferBasicBlock(const spvgentwo::BasicBlock& _lBB, spvgentwo::BasicBlock& _cBB, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
 	{
 		bool success = true;
@@ -930,7 +997,32 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	{
 		for (const Instruction& lDeco : _lib.getDecorations())
 		{
-			if (auto it = lDeco.getFirstActualOperand(); it != nullptr && ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
+			if (lDeco == spv::Op::OpGroupDecorate || lDeco == spv::Op::OpGroupMemberDecorate)
+			{
+				auto it = lDeco.begin();
+
+				if (it == nullptr || it->isInstruction() == false) continue;
+
+				const Instruction* group = it->getInstruction();
+
+				for (auto end = lDeco.end(); ++it != end;)
+				{
+					Instruction** ppCTarget = it->isInstruction() ? cache[it->getInstruction()] : nullptr;
+					const Operand* pMember = nullptr;
+
+					if (lDeco == spv::Op::OpGroupMemberDecorate)
+					{
+						if (++it == end) break;
+						pMember = it.operator->();
+					}
+
+					if (ppCTarget != nullptr)
+					{
+						success &= transferGroupDecorations(group, *ppCTarget, pMember, cache, _options);
+					}
+				}
+			}
+			else if (auto it = lDeco.getFirstActualOperand(); it != nullptr && ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
 			{
 				const Instruction* lTarget = it->getInstruction();
 				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr && hasDecoration(*ppCTarget, &lDeco) == false)
-- 
2.43.0


From d3225adc904591eebce355f4599e9a90c28a8331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 145/190] fix: import() dropped the names of constants that
 only decorations use

---
 common/source/LinkerHelper.cpp | 64 +++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 15ea149..18f80a2 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -961,38 +961,6 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
-	if (_options & LinkerOptionBits::ImportReferencedNames)
-	{
-		for (const Instruction& name : _lib.getNames())
-		{
-			const Instruction* lTarget = name.getFirstActualOperand()->getInstruction();
-			if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr)
-			{
-				Instruction* cTarget = *ppCTarget;
-
-				auto cRange = _consumer.getNameLookupMap().getRange(static_cast<const Instruction*>(cTarget));
-
-				// check if we already added (member) names for this instructions
-				if (cRange.empty())
-				{
-					for (const auto& n : _lib.getNameLookupMap().getRange(lTarget))
-					{
-						const char* pName = n.kv.value.name.empty() ? "" : n.kv.value.name.c_str();
-
-						if (n.kv.value.member != sgt_uint32_max)
-						{
-							_consumer.addMemberName(cTarget, pName, n.kv.value.member);
-						}
-						else
-						{
-							_consumer.addName(cTarget, pName);
-						}
-					}
-				}
-			}
-		}
-	}
-
 	if (_options & LinkerOptionBits::ImportReferencedDecorations)
 	{
 		for (const Instruction& lDeco : _lib.getDecorations())
@@ -1034,6 +1002,38 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
+	if (_options & LinkerOptionBits::ImportReferencedNames)
+	{
+		for (const Instruction& name : _lib.getNames())
+		{
+			const Instruction* lTarget = name.getFirstActualOperand()->getInstruction();
+			if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr)
+			{
+				Instruction* cTarget = *ppCTarget;
+
+				auto cRange = _consumer.getNameLookupMap().getRange(static_cast<const Instruction*>(cTarget));
+
+				// check if we already added (member) names for this instructions
+				if (cRange.empty())
+				{
+					for (const auto& n : _lib.getNameLookupMap().getRange(lTarget))
+					{
+						const char* pName = n.kv.value.name.empty() ? "" : n.kv.value.name.c_str();
+
+						if (n.kv.value.member != sgt_uint32_max)
+						{
+							_consumer.addMemberName(cTarget, pName, n.kv.value.member);
+						}
+						else
+						{
+							_consumer.addName(cTarget, pName);
+						}
+					}
+				}
+			}
+		}
+	}
+
 	// only add required capabilities & extensions
 	if (_options.grammar != nullptr && (_options & LinkerOptionBits::AutoAddRequiredCapabilitiesAndExtensions))
 	{
-- 
2.43.0


From 376656764e8bd9620be55b97dd103c4a8fe7eac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 146/190] fix: import() repeated decorations that decoration
 groups already apply

---
 common/source/LinkerHelper.cpp | 223 ++++++++++++++++++++-------------
 1 file changed, 135 insertions(+), 88 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 18f80a2..6060a9b 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -187,57 +187,118 @@ namespace
 
 	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options);
 
-	// true if _pTarget is already decorated like _pDeco decorates its own target
-	inline bool hasDecoration(const spvgentwo::Instruction* _pTarget, const spvgentwo::Instruction* _pDeco)
+	// decoration of a target or of one of its members, possibly applied by a decoration group
+	struct AppliedDecoration
 	{
-		using namespace spvgentwo;
+		const spvgentwo::Instruction* deco = nullptr;
+		const spvgentwo::Operand* member = nullptr;
+		spvgentwo::Instruction::Iterator operands = nullptr; // the Decoration and its operands
+	};
 
-		bool found = false;
+	inline bool isGroupDecorate(const spvgentwo::Instruction* _pDeco)
+	{
+		return *_pDeco == spvgentwo::spv::Op::OpGroupDecorate || *_pDeco == spvgentwo::spv::Op::OpGroupMemberDecorate;
+	}
 
-		ReflectionHelper::getDecorationsFunc(_pTarget, [&](const Instruction* _pOther)
+	template <class Func> // Func(const AppliedDecoration&)
+	inline void getGroupDecorationsFunc(const spvgentwo::Instruction* _pGroup, const spvgentwo::Operand* _pMember, Func _func)
+	{
+		spvgentwo::ReflectionHelper::getDecorationsFunc(_pGroup, [&](const spvgentwo::Instruction* _pDeco)
 		{
-			bool equal = _pDeco->getOperation() == _pOther->getOperation() && _pDeco->size() == _pOther->size();
-
-			auto it = _pOther->begin();
-			for (auto lit = _pDeco->begin(), end = _pDeco->end(); equal && lit != end; ++lit, ++it)
+			if (isGroupDecorate(_pDeco) == false)
 			{
-				// only the target is not a literal, constants of other modules can't be compared here
-				equal = lit->isLiteral() ? (it->isLiteral() && lit->getLiteral() == it->getLiteral()) : (lit == _pDeco->begin());
+				_func(AppliedDecoration{ _pDeco, _pMember, _pDeco->begin().next() });
 			}
-
-			found |= equal;
 		});
-
-		return found;
 	}
 
-	// true if every decoration of _pLeft is also a decoration of _pRight
-	inline bool hasDecorationsOf(const spvgentwo::Instruction* _pLeft, const spvgentwo::Instruction* _pRight)
+	template <class Func> // Func(const Operand& _target, const Operand* _pMember)
+	inline void getGroupTargetsFunc(const spvgentwo::Instruction* _pGroupDecorate, Func _func)
 	{
-		bool all = true;
+		auto it = _pGroupDecorate->begin();
 
-		spvgentwo::ReflectionHelper::getDecorationsFunc(_pLeft, [&](const spvgentwo::Instruction* _pDeco) { all &= hasDecoration(_pRight, _pDeco); });
+		for (auto end = _pGroupDecorate->end(); it != end && ++it != end;)
+		{
+			const spvgentwo::Operand& target = *it;
 
-		return all;
+			if (*_pGroupDecorate == spvgentwo::spv::Op::OpGroupMemberDecorate && ++it == end)
+			{
+				return;
+			}
+
+			_func(target, *_pGroupDecorate == spvgentwo::spv::Op::OpGroupMemberDecorate ? it.operator->() : nullptr);
+		}
 	}
 
-	// true if a decoration group applies to _pTarget or one of its members
-	inline bool isGroupDecorated(const spvgentwo::Instruction* _pTarget)
+	template <class Func> // Func(const AppliedDecoration&)
+	inline void getAppliedDecorationsFunc(const spvgentwo::Instruction* _pTarget, Func _func)
 	{
 		using namespace spvgentwo;
 
 		for (const Instruction& deco : _pTarget->getModule()->getDecorations())
 		{
-			if (deco == spv::Op::OpGroupDecorate || deco == spv::Op::OpGroupMemberDecorate)
+			auto it = deco.begin();
+
+			if (it == nullptr)
+			{
+				continue;
+			}
+
+			if (isGroupDecorate(&deco))
 			{
-				for (const Operand& op : deco)
+				getGroupTargetsFunc(&deco, [&](const Operand& _target, const Operand* _pMember)
 				{
-					if (op == _pTarget) return true;
+					if (_target == _pTarget)
+					{
+						getGroupDecorationsFunc(it->getInstruction(), _pMember, _func);
+					}
+				});
+			}
+			else if (*it == _pTarget)
+			{
+				const bool member = deco == spv::Op::OpMemberDecorate || deco == spv::Op::OpMemberDecorateString;
+				const Operand* pMember = member && ++it != deco.end() ? it.operator->() : nullptr;
+
+				if (it != deco.end())
+				{
+					_func(AppliedDecoration{ &deco, pMember, it.next() });
 				}
 			}
 		}
+	}
 
-		return false;
+	// true if _pTarget is already decorated like this
+	inline bool hasDecoration(const spvgentwo::Instruction* _pTarget, const AppliedDecoration& _deco)
+	{
+		using namespace spvgentwo;
+
+		bool found = false;
+
+		getAppliedDecorationsFunc(_pTarget, [&](const AppliedDecoration& _other)
+		{
+			bool equal = (_deco.member == nullptr || _other.member == nullptr) ? _deco.member == _other.member : _deco.member->getLiteral() == _other.member->getLiteral();
+
+			auto l = _deco.operands, lend = _deco.deco->end();
+			auto r = _other.operands, rend = _other.deco->end();
+			for (; equal && l != lend && r != rend; ++l, ++r)
+			{
+				equal = l->isLiteral() && r->isLiteral() && l->getLiteral() == r->getLiteral(); // constants of other modules can't be compared here
+			}
+
+			found |= equal && l == lend && r == rend;
+		});
+
+		return found;
+	}
+
+	// true if every decoration of _pLeft is also a decoration of _pRight
+	inline bool hasDecorationsOf(const spvgentwo::Instruction* _pLeft, const spvgentwo::Instruction* _pRight)
+	{
+		bool all = true;
+
+		getAppliedDecorationsFunc(_pLeft, [&](const AppliedDecoration& _deco) { all &= hasDecoration(_pRight, _deco); });
+
+		return all;
 	}
 
 	// look for a type or constant of the consumer that is declared with the same operands, specialization constants are never shared
@@ -276,10 +337,10 @@ namespace
 				match = lit->isId() || equal(*lit, *it); // only the result is an id
 			}
 
-			// the decorations of a type are part of its definition, the ones of groups are not compared
+			// the decorations of a type are part of its definition
 			if (match && _pLibInstr->isType() && (_options & spvgentwo::LinkerHelper::LinkerOptionBits::ImportReferencedDecorations))
 			{
-				match = hasDecorationsOf(_pLibInstr, &instr) && hasDecorationsOf(&instr, _pLibInstr) && isGroupDecorated(_pLibInstr) == false && isGroupDecorated(&instr) == false;
+				match = hasDecorationsOf(_pLibInstr, &instr) && hasDecorationsOf(&instr, _pLibInstr);
 			}
 
 			if (match)
@@ -508,52 +569,45 @@ namespace
 		return true;
 	}
 
-	// decorates _pTarget (or one of its members) like the group of the library, decoration groups are not imported
-	inline bool transferGroupDecorations(const spvgentwo::Instruction* _pGroup, spvgentwo::Instruction* _pTarget, const spvgentwo::Operand* _pMember, InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options)
+	// copies a decoration to _pTarget, decoration groups are not imported
+	inline bool transferDecoration(const AppliedDecoration& _deco, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options)
 	{
 		using namespace spvgentwo;
 
-		bool success = true;
-
-		ReflectionHelper::getDecorationsFunc(_pGroup, [&](const Instruction* _pDeco)
+		if (hasDecoration(_pTarget, _deco))
 		{
-			if (*_pDeco == spv::Op::OpGroupDecorate || *_pDeco == spv::Op::OpGroupMemberDecorate || (_pMember == nullptr && hasDecoration(_pTarget, _pDeco)))
-			{
-				return;
-			}
+			return true;
+		}
+
+		const spv::Op op = _deco.deco->getOperation();
+
+		Instruction* cDeco = _pTarget->getModule()->addDecorationInstr();
+		cDeco->setOperation(op);
+		cDeco->addOperand(_pTarget);
 
-			Instruction* deco = _pTarget->getModule()->addDecorationInstr();
-			deco->setOperation(_pDeco->getOperation());
-			deco->addOperand(_pTarget);
+		if (_deco.member != nullptr)
+		{
+			cDeco->setOperation((op == spv::Op::OpDecorateString || op == spv::Op::OpMemberDecorateString) ? spv::Op::OpMemberDecorateString : spv::Op::OpMemberDecorate);
+			cDeco->addOperand(*_deco.member);
+		}
 
-			if (_pMember != nullptr)
+		for (auto it = _deco.operands, end = _deco.deco->end(); it != end; ++it)
+		{
+			if (it->isInstruction())
 			{
-				deco->setOperation(*_pDeco == spv::Op::OpDecorateString ? spv::Op::OpMemberDecorateString : spv::Op::OpMemberDecorate);
-				deco->addOperand(*_pMember);
+				Instruction* pOperand = lookupOperand(it->getInstruction(), _deco.deco, *_pTarget->getModule(), _cache, _options);
+				if (pOperand == nullptr) return false;
+				cDeco->addOperand(pOperand);
 			}
-
-			for (auto it = _pDeco->begin().next(), end = _pDeco->end(); it != end; ++it)
+			else
 			{
-				if (it->isInstruction())
-				{
-					Instruction* pOperand = lookupOperand(it->getInstruction(), _pDeco, *_pTarget->getModule(), _cache, _options);
-
-					if (pOperand == nullptr)
-					{
-						success = false;
-						return;
-					}
-
-					deco->addOperand(pOperand);
-				}
-				else
-				{
-					deco->addOperand(*it);
-				}
+				cDeco->addOperand(*it);
 			}
-		});
+		}
 
-		return success;
+		printInstruction(_options, _deco.deco, " -> ", cDeco);
+
+		return true;
 	}
 
 	inline bool transferBasicBlock(const spvgentwo::BasicBlock& _lBB, spvgentwo::BasicBlock& _cBB, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
@@ -965,38 +1019,31 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	{
 		for (const Instruction& lDeco : _lib.getDecorations())
 		{
-			if (lDeco == spv::Op::OpGroupDecorate || lDeco == spv::Op::OpGroupMemberDecorate)
+			if (auto it = lDeco.begin(); it == nullptr || it->isInstruction() == false)
 			{
-				auto it = lDeco.begin();
-
-				if (it == nullptr || it->isInstruction() == false) continue;
-
-				const Instruction* group = it->getInstruction();
-
-				for (auto end = lDeco.end(); ++it != end;)
+				continue;
+			}
+			else if (isGroupDecorate(&lDeco))
+			{
+				getGroupTargetsFunc(&lDeco, [&](const Operand& _target, const Operand* _pMember)
 				{
-					Instruction** ppCTarget = it->isInstruction() ? cache[it->getInstruction()] : nullptr;
-					const Operand* pMember = nullptr;
-
-					if (lDeco == spv::Op::OpGroupMemberDecorate)
-					{
-						if (++it == end) break;
-						pMember = it.operator->();
-					}
-
-					if (ppCTarget != nullptr)
+					if (Instruction** ppCTarget = _target.isInstruction() ? cache[_target.getInstruction()] : nullptr; ppCTarget != nullptr)
 					{
-						success &= transferGroupDecorations(group, *ppCTarget, pMember, cache, _options);
+						getGroupDecorationsFunc(it->getInstruction(), _pMember, [&](const AppliedDecoration& _deco) { success &= transferDecoration(_deco, *ppCTarget, cache, _options); });
 					}
-				}
+				});
 			}
-			else if (auto it = lDeco.getFirstActualOperand(); it != nullptr && ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
+			else if (ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
 			{
-				const Instruction* lTarget = it->getInstruction();
-				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr && hasDecoration(*ppCTarget, &lDeco) == false)
+				if (Instruction** ppCTarget = cache[it->getInstruction()]; ppCTarget != nullptr)
 				{
-					Instruction* cDeco = _consumer.addDecorationInstr();
-					success &= transferInstruction(&lDeco, cDeco, cache, _options);
+					const bool member = lDeco == spv::Op::OpMemberDecorate || lDeco == spv::Op::OpMemberDecorateString;
+					const auto second = it.next();
+
+					if (second != lDeco.end())
+					{
+						success &= transferDecoration(AppliedDecoration{ &lDeco, member ? second.operator->() : nullptr, member ? second.next() : second }, *ppCTarget, cache, _options);
+					}
 				}
 			}
 		}
-- 
2.43.0


From 819043db894a3649c396b110578c727403c17c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:50 +0000
Subject: [PATCH 147/190] fix: the linker tool ignored
 AutoAddRequiredCapabilitiesAndExtensions without -verbose

---
 link/source/link.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index ce59c63..0862a29 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -208,7 +208,6 @@ int main(int argc, char* argv[])
 		{ // verbose
 			"-PrintInstructions", "-verbose",
 			[]([[maybe_unused]] int& _i, [[maybe_unused]] int _argc, [[maybe_unused]] char* _argv[]){
-				g_options.grammar = &g_gram;
 				g_options.printer = &g_printer;
 				g_logger.logInfo("Verbose instruction printing enabled");
 				return true;
@@ -297,6 +296,7 @@ int main(int argc, char* argv[])
 	};
 
 	g_options.flags = LinkerOptionBits::AssignResultIDs;
+	g_options.grammar = &g_gram; // needed by AutoAddRequiredCapabilitiesAndExtensions
 	// we dont want to set LinkerOptionBits::UpdateEntryPointGlobalVarInterface, we call finalizeEntryPoints() manually 
 
 	auto checkParam = [argc, argv, &CmdOptions](const char* arg, int& i) -> bool
-- 
2.43.0


From 048e6dfc52e0865d937a6f8437be0f1ee483dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:50 +0000
Subject: [PATCH 148/190] fix: the linker tool exported entry points and local
 variables and used removed instructions

---
 link/source/link.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 0862a29..fbd8956 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -47,6 +47,19 @@ int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 {
 	_module.addCapability(spv::Capability::Linkage);
 
+	// check all targets first, importing a function removes its instructions
+	for (auto& t : _targets)
+	{
+		const bool function = *t.instr == spv::Op::OpFunction && t.instr->getFunction()->isEntryPoint() == false;
+		const bool variable = *t.instr == spv::Op::OpVariable && t.instr->getBasicBlock() == nullptr;
+
+		if (function == false && variable == false)
+		{
+			g_logger.logError("Only OpFunctions which are not EntryPoints and global OpVariables can be imported/exported [%s]", g_gram.getInfo(static_cast<unsigned int>(t.instr->getOperation()))->name);
+			return -1;
+		}
+	}
+
 	for (auto& t : _targets)
 	{
 		if (*t.instr == spv::Op::OpFunction && t.instr->getFunction()->isEntryPoint() == false)
@@ -70,12 +83,6 @@ int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 			}
 		}
 
-		if (*t.instr != spv::Op::OpFunction && *t.instr != spv::Op::OpVariable)
-		{
-			g_logger.logError("Only OpFunctions which are not EntryPoints and global OpVariables can be imported/exported [%s]", g_gram.getInfo(static_cast<unsigned int>(t.instr->getOperation())));
-			return -1;
-		}
-
 		Instruction* instr = _module.addDecorationInstr();
 		instr->opDecorate(t.instr, spv::Decoration::LinkageAttributes, t.name, t.type);
 		g_printer << "Added "; printInstruction(*instr, g_gram, g_printer); g_printer << "\n";
-- 
2.43.0


From c440aaa58595d28d6658ed7845cebdf4177d3a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 149/190] fix: removeFunctionBody() dropped the group
 decorations of other instructions

---
 common/source/LinkerHelper.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 6060a9b..64b4db7 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -26,16 +26,25 @@ bool spvgentwo::LinkerHelper::removeFunctionBody(Function& _func)
 		for (auto it = _container.begin(), end = _container.end(); it != end;)
 		{
 			bool removed = false;
-			for (const Operand& op : *it)
+			for (auto op = it->begin(), opEnd = it->end(); op != opEnd;)
 			{
 				// if the instruction is coming from one of _funcs basic blocks, we remove it 
 				// (OpFunction, OpFunctionParameter and OpFunctionEnd are fine, they will not be removed as they are part to the declaration)
-				if (const Instruction* param = op.getInstruction(); param != nullptr && (param->getFunction() == &_func && param->getBasicBlock() != nullptr))
+				if (const Instruction* param = op->getInstruction(); param != nullptr && (param->getFunction() == &_func && param->getBasicBlock() != nullptr))
 				{
+					// the group still decorates its other targets
+					if (*it == spv::Op::OpGroupDecorate && it->size() > 2u)
+					{
+						op = it->erase(op);
+						continue;
+					}
+
 					it = _container.erase(it);
 					removed = true;
 					break;
 				}
+
+				++op;
 			}
 
 			if (removed == false)
-- 
2.43.0


From 16b3b656a0099934cf129d5dffd717fe0781842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 150/190] fix: import() left incomplete instructions behind if
 a type, constant, variable, string or function was not to be imported

---
 common/source/LinkerHelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 64b4db7..0436ad7 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -536,6 +536,10 @@ namespace
 			{
 				_pTarget->addOperand(cInstr);
 			}
+			else
+			{
+				_pTarget->reset(); // incomplete instructions can't be used
+			}
 
 			return cInstr != nullptr;
 		};
-- 
2.43.0


From 49b57f63a70f8dfd36f403e0e2f27eaa0da0c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 151/190] fix: a list entry removed without being destroyed
 kept its links to the old neighbours

---
 lib/include/spvgentwo/Entry.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/spvgentwo/Entry.h b/lib/include/spvgentwo/Entry.h
index f05645c..d058baa 100644
--- a/lib/include/spvgentwo/Entry.h
+++ b/lib/include/spvgentwo/Entry.h
@@ -216,6 +216,11 @@ namespace spvgentwo
 		{
 			_pAlloc->destruct(this);
 		}
+		else // entry can be added to another list
+		{
+			m_pPrev = nullptr;
+			m_pNext = nullptr;
+		}
 
 		return next;
 	}
-- 
2.43.0


From 368863a38c78d86f6d020f7d6fbf81b4e6a3404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 152/190] fix: c_str() of an empty String was not terminated
 after reserve()

---
 lib/include/spvgentwo/String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 34e3346..54092af 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -62,6 +62,9 @@ namespace spvgentwo
 		constexpr T& back() { return m_pData[m_elements - 2u]; }
 		constexpr const T& back() const { return m_pData[m_elements - 2u]; }
 
+		// keeps c_str() valid, also for an empty string
+		bool reserve(sgt_size_t _size) { if (Vector::reserve(_size) == false) { return false; } if (m_elements == 0u && m_pData != nullptr) { m_pData[0] = '\0'; } return true; }
+
 		// keeps c_str() valid, does not deallocate
 		void clear() { Vector::clear(); if (m_pData != nullptr) { m_pData[0] = '\0'; } }
 
-- 
2.43.0


From ba0bb8882fb3d4b4fd9cffd5cd68a151ceeafadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 153/190] fix: c_str() kept the old text after a null pointer
 was assigned to a String

---
 lib/source/String.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index edfeeab..4d3fd29 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -4,7 +4,11 @@ spvgentwo::String& spvgentwo::String::operator=(const char* _pStr)
 {
 	const sgt_size_t length = stringLength(_pStr);
 
-	if (reserve(length))
+	if (length == 0u)
+	{
+		clear();
+	}
+	else if (reserve(length))
 	{
 		for (sgt_size_t i = 0; i < length; ++i)
 		{
-- 
2.43.0


From fd9ddaebf6aa17abf36d9704ba96cc4ffe72989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 154/190] fix: the capabilities implied by 18 capabilities were
 missing

---
 lib/include/spvgentwo/SpvDefines.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 3775c04..b929c08 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -339,9 +339,9 @@ namespace spvgentwo
 		case spv::Capability::FragmentShadingRateKHR: return spv::Capability::Shader;
 		//case spv::Capability::SubgroupBallotKHR:
 		case spv::Capability::DrawParameters: return spv::Capability::Shader;
-		//case spv::Capability::WorkgroupMemoryExplicitLayoutKHR: unkown
-		//case spv::Capability::WorkgroupMemoryExplicitLayout8BitAccessKHR: unkonwn
-		//case spv::Capability::WorkgroupMemoryExplicitLayout16BitAccessKHR: unkown
+		case spv::Capability::WorkgroupMemoryExplicitLayoutKHR: return spv::Capability::Shader;
+		case spv::Capability::WorkgroupMemoryExplicitLayout8BitAccessKHR: return spv::Capability::WorkgroupMemoryExplicitLayoutKHR;
+		case spv::Capability::WorkgroupMemoryExplicitLayout16BitAccessKHR: return spv::Capability::WorkgroupMemoryExplicitLayoutKHR;
 		//case spv::Capability::SubgroupVoteKHR:
 		//case spv::Capability::StorageBuffer16BitAccess: // same as StorageUniformBufferBlock16
 		case spv::Capability::UniformAndStorageBuffer16BitAccess: return spv::Capability::StorageBuffer16BitAccess; // same as StorageUniform16
@@ -394,9 +394,9 @@ namespace spvgentwo
 		case spv::Capability::SampledImageArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
 		case spv::Capability::StorageBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
 		case spv::Capability::StorageImageArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::InputAttachmentArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::UniformTexelBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::StorageTexelBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
+		case spv::Capability::InputAttachmentArrayNonUniformIndexing: return { spv::Capability::ShaderNonUniform, spv::Capability::InputAttachment };
+		case spv::Capability::UniformTexelBufferArrayNonUniformIndexing: return { spv::Capability::ShaderNonUniform, spv::Capability::SampledBuffer };
+		case spv::Capability::StorageTexelBufferArrayNonUniformIndexing: return { spv::Capability::ShaderNonUniform, spv::Capability::ImageBuffer };
 		case spv::Capability::RayTracingNV: return spv::Capability::Shader;
 		//case spv::Capability::VulkanMemoryModel:
 		//case spv::Capability::VulkanMemoryModelDeviceScope:
@@ -422,7 +422,7 @@ namespace spvgentwo
 		//case spv::Capability::AtomicFloat32MinMaxEXT: unknown
 		//case spv::Capability::AtomicFloat64MinMaxEXT: unknown
 		//case spv::Capability::AtomicFloat16MinMaxEXT: unknown
-		//case spv::Capability::VectorComputeINTEL: unknown
+		case spv::Capability::VectorComputeINTEL: return spv::Capability::VectorAnyINTEL;
 		//case spv::Capability::VectorAnyINTEL: unknown
 		//case spv::Capability::SubgroupAvcMotionEstimationINTEL:
 		//case spv::Capability::SubgroupAvcMotionEstimationIntraINTEL:
@@ -430,7 +430,7 @@ namespace spvgentwo
 		//case spv::Capability::VariableLengthArrayINTEL: unknown
 		//case spv::Capability::FunctionFloatControlINTEL: unknown
 		//case spv::Capability::FPGAMemoryAttributesINTEL: unknown
-		//case spv::Capability::FPFastMathModeINTEL: unknown
+		case spv::Capability::FPFastMathModeINTEL: return spv::Capability::Kernel;
 		//case spv::Capability::ArbitraryPrecisionIntegersINTEL: unknown
 		//case spv::Capability::UnstructuredLoopControlsINTEL:
 		//case spv::Capability::FPGALoopControlsINTEL:
@@ -447,6 +447,16 @@ namespace spvgentwo
 		case spv::Capability::AtomicFloat32AddEXT: return spv::Capability::Shader;
 		case spv::Capability::AtomicFloat64AddEXT: return spv::Capability::Shader;
 		//case spv::Capability::LongConstantCompositeINTEL: unknown
+		case spv::Capability::ShaderEnqueueAMDX: return spv::Capability::Shader;
+		case spv::Capability::MeshShadingEXT: return spv::Capability::Shader;
+		case spv::Capability::RayTracingPositionFetchKHR: return spv::Capability::Shader;
+		case spv::Capability::RayTracingMotionBlurNV: return spv::Capability::Shader;
+		case spv::Capability::RayTracingOpacityMicromapEXT: return { spv::Capability::RayQueryKHR, spv::Capability::RayTracingKHR };
+		case spv::Capability::ShaderInvocationReorderNV: return spv::Capability::RayTracingKHR;
+		case spv::Capability::RayQueryPositionFetchKHR: return spv::Capability::Shader;
+		case spv::Capability::DotProductInput4x8Bit: return spv::Capability::Int8;
+		case spv::Capability::GroupNonUniformRotateKHR: return spv::Capability::GroupNonUniform;
+		case spv::Capability::FPGAKernelAttributesv2INTEL: return spv::Capability::FPGAKernelAttributesINTEL;
 		default:
 			return spv::Capability::Max;
 		}
-- 
2.43.0


From cfd77d34e1aabdfe56ecf1da2f7a928fea6590ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 155/190] fix: ShaderClockKHR and AtomicFloat32/64AddEXT do not
 imply Shader

---
 lib/include/spvgentwo/SpvDefines.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index b929c08..d3d8d4c 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -371,7 +371,7 @@ namespace spvgentwo
 		case spv::Capability::StencilExportEXT: return spv::Capability::Shader;
 		case spv::Capability::ImageReadWriteLodAMD: return spv::Capability::Shader;
 		case spv::Capability::Int64ImageEXT: return spv::Capability::Shader;
-		case spv::Capability::ShaderClockKHR: return spv::Capability::Shader;
+		//case spv::Capability::ShaderClockKHR:
 		case spv::Capability::SampleMaskOverrideCoverageNV: return spv::Capability::SampleRateShading;
 		case spv::Capability::GeometryShaderPassthroughNV: return spv::Capability::Geometry;
 		case spv::Capability::ShaderViewportIndexLayerEXT: return spv::Capability::MultiViewport;
@@ -444,8 +444,8 @@ namespace spvgentwo
 		//case spv::Capability::IOPipesINTEL: unknown
 		//case spv::Capability::BlockingPipesINTEL:
 		//case spv::Capability::FPGARegINTEL:
-		case spv::Capability::AtomicFloat32AddEXT: return spv::Capability::Shader;
-		case spv::Capability::AtomicFloat64AddEXT: return spv::Capability::Shader;
+		//case spv::Capability::AtomicFloat32AddEXT:
+		//case spv::Capability::AtomicFloat64AddEXT:
 		//case spv::Capability::LongConstantCompositeINTEL: unknown
 		case spv::Capability::ShaderEnqueueAMDX: return spv::Capability::Shader;
 		case spv::Capability::MeshShadingEXT: return spv::Capability::Shader;
-- 
2.43.0


From d62a28725a8d7726b1df2959914d49086f1ae435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 156/190] fix: accept shift amounts with a component width that
 differs from the base of the shift

---
 lib/include/spvgentwo/Instruction.h |  9 ++++++---
 lib/source/Instruction.cpp          | 19 +++++++++++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index e55698c..119f47f 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -639,11 +639,11 @@ namespace spvgentwo
 
 		Instruction* opFUnordGreaterThanEqual(Instruction* _pLeft, Instruction* _pRight) { return scalarVecOp(spv::Op::OpFUnordGreaterThanEqual, _pLeft, _pRight, "Operand of OpFUnordGreaterThanEqual is not a scalar or vector of float type"); }
 		
-		Instruction* opShiftRightLogical(Instruction* _pBaseIntVec, Instruction* _pShiftIntVec) { return scalarVecOp(spv::Op::OpShiftRightLogical, _pBaseIntVec, _pShiftIntVec, "Operand of OpShiftRightLogical is not a scalar or vector of int", false); }
+		Instruction* opShiftRightLogical(Instruction* _pBaseIntVec, Instruction* _pShiftIntVec) { return shiftOp(spv::Op::OpShiftRightLogical, _pBaseIntVec, _pShiftIntVec, "Operand of OpShiftRightLogical is not a scalar or vector of int"); }
 		
-		Instruction* opShiftRightArithmetic(Instruction* _pBaseIntVec, Instruction* _pShiftIntVec) { return scalarVecOp(spv::Op::OpShiftRightArithmetic, _pBaseIntVec, _pShiftIntVec, "Operand of OpShiftRightArithmetic is not a scalar or vector of int", false); }
+		Instruction* opShiftRightArithmetic(Instruction* _pBaseIntVec, Instruction* _pShiftIntVec) { return shiftOp(spv::Op::OpShiftRightArithmetic, _pBaseIntVec, _pShiftIntVec, "Operand of OpShiftRightArithmetic is not a scalar or vector of int"); }
 		
-		Instruction* opShiftLeftLogical(Instruction* _pBaseIntVec, Instruction* _pShiftIntVec) { return scalarVecOp(spv::Op::OpShiftLeftLogical, _pBaseIntVec, _pShiftIntVec, "Operand of OpShiftLeftLogical is not a scalar or vector of int", false); }
+		Instruction* opShiftLeftLogical(Instruction* _pBaseIntVec, Instruction* _pShiftIntVec) { return shiftOp(spv::Op::OpShiftLeftLogical, _pBaseIntVec, _pShiftIntVec, "Operand of OpShiftLeftLogical is not a scalar or vector of int"); }
 
 		Instruction* opBitwiseOr(Instruction* _pLeft, Instruction* _pRight) { return scalarVecOp(spv::Op::OpBitwiseOr, _pLeft, _pRight, "Operand of OpBitwiseOr is not a scalar or vector of int", false); }
 
@@ -788,6 +788,9 @@ namespace spvgentwo
 		// checks types based on passed _op using getTypeFromOp(_op, sign)
 		Instruction* scalarVecOp(spv::Op _op, Instruction* _pLeft, Instruction* _pRight = nullptr, const char* _pErrorMsg = nullptr, bool _checkSign = true);
 
+		// base and shift need the same number of integer components, but not the same component width
+		Instruction* shiftOp(spv::Op _op, Instruction* _pBase, Instruction* _pShift, const char* _pErrorMsg);
+
 		// decides based on type of _pLeft and _pRight if _intFun or _floatFun should be called
 		Instruction* intFloatOp(Instruction* _pLeft, Instruction* _pRight, DualOpMemberFun _intFun, DualOpMemberFun _floatFun, const char* _pErrorMsg = nullptr);
 
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index c9d70ad..fd7060a 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1932,6 +1932,25 @@ spvgentwo::Instruction* spvgentwo::Instruction::scalarVecOp(spv::Op _op, Instruc
 	return scalarVecOp(_op, type, sign, _pLeft, _pRight, _pErrorMsg, _checkSign);
 }
 
+spvgentwo::Instruction* spvgentwo::Instruction::shiftOp(spv::Op _op, Instruction* _pBase, Instruction* _pShift, const char* _pErrorMsg)
+{
+	if (_pBase == nullptr || _pShift == nullptr) return error();
+
+	const Type* pBaseType = _pBase->getType();
+	const Type* pShiftType = _pShift->getType();
+
+	if (pBaseType == nullptr || pShiftType == nullptr) return error();
+
+	if (pBaseType->isScalarOrVectorOfSameLength(spv::Op::OpTypeInt, *pShiftType, false))
+	{
+		return makeOp(_op, InvalidInstr, InvalidId, _pBase, _pShift);
+	}
+
+	getModule()->logError(_pErrorMsg);
+
+	return error();
+}
+
 spvgentwo::Instruction* spvgentwo::Instruction::intFloatOp(Instruction* _pLeft, Instruction* _pRight, DualOpMemberFun _intFun, DualOpMemberFun _floatFun, const char* _pErrorMsg)
 {
 	if (_pLeft == nullptr || _pRight == nullptr) return error();
-- 
2.43.0


From 9887ce940c32367234837d500dc00a2db26b3b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 157/190] fix: reject derivatives of floats that are not 32
 bits wide

---
 lib/include/spvgentwo/Instruction.h | 21 ++++++++++++---------
 lib/source/Instruction.cpp          | 17 +++++++++++++++++
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index 119f47f..f0914c5 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -659,17 +659,17 @@ namespace spvgentwo
 		Instruction* opBitReverse(Instruction* _pBase) { return scalarVecOp(spv::Op::OpBitReverse, _pBase, nullptr, "Operand of OpBitReverse is not a scalar or vector of int type"); }
 		Instruction* opBitCount(Instruction* _pBase) { return scalarVecOp(spv::Op::OpBitCount, _pBase, nullptr, "Operand of OpBitCount is not a scalar or vector of int type"); }
 
-		Instruction* opDPdx(Instruction* _pFloatVec) { return scalarVecOp(spv::Op::OpDPdx, _pFloatVec, nullptr, "Operand of OpDPdx is not a scalar or vector of float type"); }
-		Instruction* opDPdy(Instruction* _pFloatVec) { return scalarVecOp(spv::Op::OpDPdy, _pFloatVec, nullptr, "Operand of OpDPdy is not a scalar or vector of float type"); }
-		Instruction* opFwidth(Instruction* _pFloatVec) { return scalarVecOp(spv::Op::OpFwidth, _pFloatVec, nullptr, "Operand of OpFwidth is not a scalar or vector of float type"); }
+		Instruction* opDPdx(Instruction* _pFloatVec) { return derivativeOp(spv::Op::OpDPdx, _pFloatVec, "Operand of OpDPdx is not a scalar or vector of 32 bit float type"); }
+		Instruction* opDPdy(Instruction* _pFloatVec) { return derivativeOp(spv::Op::OpDPdy, _pFloatVec, "Operand of OpDPdy is not a scalar or vector of 32 bit float type"); }
+		Instruction* opFwidth(Instruction* _pFloatVec) { return derivativeOp(spv::Op::OpFwidth, _pFloatVec, "Operand of OpFwidth is not a scalar or vector of 32 bit float type"); }
 
-		Instruction* opDPdxFine(Instruction* _pFloatVec) { return scalarVecOp(spv::Op::OpDPdxFine, _pFloatVec, nullptr, "Operand of OpDPdxFine is not a scalar or vector of float type"); }
-		Instruction* opDPdyFine(Instruction* _pFloatVec) { return scalarVecOp(spv::Op::OpDPdyFine, _pFloatVec, nullptr, "Operand of OpDPdyFine is not a scalar or vector of float type"); }
-		Instruction* opFwidthFine(Instruction* _pFloatVec) { return scalarVecOp(spv::Op::OpFwidthFine, _pFloatVec, nullptr, "Operand of OpFwidthFine is not a scalar or vector of float type"); }
+		Instruction* opDPdxFine(Instruction* _pFloatVec) { return derivativeOp(spv::Op::OpDPdxFine, _pFloatVec, "Operand of OpDPdxFine is not a scalar or vector of 32 bit float type"); }
+		Instruction* opDPdyFine(Instruction* _pFloatVec) { return derivativeOp(spv::Op::OpDPdyFine, _pFloatVec, "Operand of OpDPdyFine is not a scalar or vector of 32 bit float type"); }
+		Instruction* opFwidthFine(Instruction* _pFloatVec) { return derivativeOp(spv::Op::OpFwidthFine, _pFloatVec, "Operand of OpFwidthFine is not a scalar or vector of 32 bit float type"); }
 
-		Instruction* opDPdxCoarse(Instruction* _pFloatVec) { return scalarVecOp(spv::Op::OpDPdxCoarse, _pFloatVec, nullptr, "Operand of OpDPdxCoarse is not a scalar or vector of float type"); }
-		Instruction* opDPdyCoarse(Instruction* _pFloatVec) { return scalarVecOp(spv::Op::OpDPdyCoarse, _pFloatVec, nullptr, "Operand of OpDPdyCoarse is not a scalar or vector of float type"); }
-		Instruction* opFwidthCoarse(Instruction* _pFloatVec) { return scalarVecOp(spv::Op::OpFwidthCoarse, _pFloatVec, nullptr, "Operand of OpFwidthCoarse is not a scalar or vector of float type"); }
+		Instruction* opDPdxCoarse(Instruction* _pFloatVec) { return derivativeOp(spv::Op::OpDPdxCoarse, _pFloatVec, "Operand of OpDPdxCoarse is not a scalar or vector of 32 bit float type"); }
+		Instruction* opDPdyCoarse(Instruction* _pFloatVec) { return derivativeOp(spv::Op::OpDPdyCoarse, _pFloatVec, "Operand of OpDPdyCoarse is not a scalar or vector of 32 bit float type"); }
+		Instruction* opFwidthCoarse(Instruction* _pFloatVec) { return derivativeOp(spv::Op::OpFwidthCoarse, _pFloatVec, "Operand of OpFwidthCoarse is not a scalar or vector of 32 bit float type"); }
 
 		Instruction* opEmitVertex();
 		Instruction* opEndPrimitive();
@@ -791,6 +791,9 @@ namespace spvgentwo
 		// base and shift need the same number of integer components, but not the same component width
 		Instruction* shiftOp(spv::Op _op, Instruction* _pBase, Instruction* _pShift, const char* _pErrorMsg);
 
+		// operand must be a scalar or vector of 32 bit float type
+		Instruction* derivativeOp(spv::Op _op, Instruction* _pFloatVec, const char* _pErrorMsg);
+
 		// decides based on type of _pLeft and _pRight if _intFun or _floatFun should be called
 		Instruction* intFloatOp(Instruction* _pLeft, Instruction* _pRight, DualOpMemberFun _intFun, DualOpMemberFun _floatFun, const char* _pErrorMsg = nullptr);
 
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index fd7060a..9c11680 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1951,6 +1951,23 @@ spvgentwo::Instruction* spvgentwo::Instruction::shiftOp(spv::Op _op, Instruction
 	return error();
 }
 
+spvgentwo::Instruction* spvgentwo::Instruction::derivativeOp(spv::Op _op, Instruction* _pFloatVec, const char* _pErrorMsg)
+{
+	if (_pFloatVec == nullptr) return error();
+
+	const Type* pType = _pFloatVec->getType();
+	if (pType == nullptr) return error();
+
+	if (pType->isScalarOrVectorOf(spv::Op::OpTypeFloat, 0u, 32u))
+	{
+		return makeOp(_op, InvalidInstr, InvalidId, _pFloatVec);
+	}
+
+	getModule()->logError(_pErrorMsg);
+
+	return error();
+}
+
 spvgentwo::Instruction* spvgentwo::Instruction::intFloatOp(Instruction* _pLeft, Instruction* _pRight, DualOpMemberFun _intFun, DualOpMemberFun _floatFun, const char* _pErrorMsg)
 {
 	if (_pLeft == nullptr || _pRight == nullptr) return error();
-- 
2.43.0


From 359cde538cb8e399e5e23d0d299fb3a00a1a3992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 158/190] fix: reject 64 bit operands of the GLSL instructions
 Atan2 and Pow

---
 lib/include/spvgentwo/GLSL450Instruction.h | 6 +++---
 lib/source/GLSL450Instruction.cpp          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/GLSL450Instruction.h b/lib/include/spvgentwo/GLSL450Instruction.h
index 77620d5..7de7866 100644
--- a/lib/include/spvgentwo/GLSL450Instruction.h
+++ b/lib/include/spvgentwo/GLSL450Instruction.h
@@ -42,8 +42,8 @@ namespace spvgentwo
 		Instruction* opAcosh(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Acosh, _pFloat, true); }
 		Instruction* opAtanh(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Atanh, _pFloat, true); }
 
-		Instruction* opAtan2(Instruction* _pY, Instruction* _pX) { return scalarOrFloatVec2(glslstd450::Op::Atan2, _pY, _pX); }
-		Instruction* opPow(Instruction* _pX, Instruction* _pY) { return scalarOrFloatVec2(glslstd450::Op::Pow, _pX, _pY); }
+		Instruction* opAtan2(Instruction* _pY, Instruction* _pX) { return scalarOrFloatVec2(glslstd450::Op::Atan2, _pY, _pX, true); }
+		Instruction* opPow(Instruction* _pX, Instruction* _pY) { return scalarOrFloatVec2(glslstd450::Op::Pow, _pX, _pY, true); }
 
 		Instruction* opExp(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Exp, _pFloat, true); }
 		Instruction* opLog(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Log, _pFloat, true); }
@@ -119,7 +119,7 @@ namespace spvgentwo
 
 	private:
 		Instruction* scalarOrFloatVec1(glslstd450::Op _op, Instruction* _pFloat, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
-		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pResultType = nullptr);
+		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrFloatVec3(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pOp3, Instruction* _pResultType = nullptr);
 
 		Instruction* scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, Instruction* _pResultType = nullptr);
diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index a649a5b..241071e 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -21,14 +21,14 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec1(glslstd4
 	return error();
 }
 
-spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pResultType)
+spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit, Instruction* _pResultType)
 {
 	const Type* leftType = _pOp1->getType();
 	const Type* rightType = _pOp2->getType();
 
 	if (leftType == nullptr || rightType == nullptr) return error();
 
-	if (leftType->isScalarOrVectorOf(spv::Op::OpTypeFloat) && *leftType == *rightType)
+	if (leftType->isScalarOrVectorOf(spv::Op::OpTypeFloat) && *leftType == *rightType && (_no64Bit ? leftType->getBaseType().getFloatWidth() <= 32u : true))
 	{
 		Instruction* returnType = _pResultType != nullptr ? _pResultType : _pOp1->getResultTypeInstr();
 		if (returnType == nullptr) return error();
-- 
2.43.0


From a88fb61711c602d81e7af04498d36236c22705ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 159/190] fix: reject operands of the GLSL instructions
 FindSMsb and FindUMsb that are not 32 bits wide

---
 lib/include/spvgentwo/GLSL450Instruction.h | 6 +++---
 lib/source/GLSL450Instruction.cpp          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/GLSL450Instruction.h b/lib/include/spvgentwo/GLSL450Instruction.h
index 7de7866..7fb7fee 100644
--- a/lib/include/spvgentwo/GLSL450Instruction.h
+++ b/lib/include/spvgentwo/GLSL450Instruction.h
@@ -106,8 +106,8 @@ namespace spvgentwo
 		Instruction* opRefract(Instruction* _pIvec, Instruction* _pNvec, Instruction* _pEtaFloat);
 		
 		Instruction* opFindILsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindILsb, _pIntVec, Sign::Any); }
-		Instruction* opFindSMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindSMsb, _pIntVec, Sign::Any); }
-		Instruction* opFindUMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindUMsb, _pIntVec, Sign::Any); }
+		Instruction* opFindSMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindSMsb, _pIntVec, Sign::Any, true); }
+		Instruction* opFindUMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindUMsb, _pIntVec, Sign::Any, true); }
 
 		Instruction* opInterpolateAtCentroid(Instruction* _pInterpolant) { return interpolate(glslstd450::Op::InterpolateAtCentroid, _pInterpolant, nullptr); }
 		Instruction* opInterpolateAtSample(Instruction* _pInterpolant, Instruction* _pSampleInt) { return interpolate(glslstd450::Op::InterpolateAtSample, _pInterpolant, _pSampleInt); }
@@ -122,7 +122,7 @@ namespace spvgentwo
 		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrFloatVec3(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pOp3, Instruction* _pResultType = nullptr);
 
-		Instruction* scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, Instruction* _pResultType = nullptr);
+		Instruction* scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, const bool _only32Bit = false, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrIntVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Sign _sign, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrIntVec3(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pOp3, Sign _sign, Instruction* _pResultType = nullptr);
 
diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 241071e..71b453a 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -62,7 +62,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec3(glslstd4
 	return error();
 }
 
-spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, Instruction* _pResultType)
+spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, const bool _only32Bit, Instruction* _pResultType)
 {
 	Instruction* pTypeInstr = _pInt->getResultTypeInstr();
 	if (pTypeInstr == nullptr) return error();
@@ -70,7 +70,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrIntVec1(glslstd450
 	const Type* pType = pTypeInstr->getType();
 	if (pType == nullptr) return error();
 
-	if (pType->isScalarOrVectorOf(spv::Op::OpTypeInt) && pType->getBaseType().hasSign(_sign))
+	if (pType->isScalarOrVectorOf(spv::Op::OpTypeInt, 0u, _only32Bit ? 32u : 0u) && pType->getBaseType().hasSign(_sign))
 	{
 		return opExtInst(_pResultType != nullptr ? _pResultType : pTypeInstr, ExtName, static_cast<unsigned int>(_op), _pInt);
 	}
-- 
2.43.0


From 9a154184ce11fb037eeb411c47efdade936a1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 160/190] fix: report an error for conversions to float types
 of a width that does not exist

---
 lib/source/Instruction.cpp               | 4 ++--
 lib/source/TypeInferenceAndValiation.cpp | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 9c11680..3a3f846 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1675,13 +1675,13 @@ spvgentwo::Instruction* spvgentwo::Instruction::opFConvert(Instruction* _pFloatV
 	if (type == nullptr) return error();
 
 	// copy type for manipulation
-	if (Type t = *type; t.isScalarOrVectorOf(spv::Op::OpTypeFloat) && t.getBaseType().getFloatWidth() != _bitWidth)
+	if (Type t = *type; t.isScalarOrVectorOf(spv::Op::OpTypeFloat) && t.getBaseType().getFloatWidth() != _bitWidth && (_bitWidth == 16u || _bitWidth == 32u || _bitWidth == 64u))
 	{
 		t.getBaseType().setFloatWidth(_bitWidth);
 		return makeOp(spv::Op::OpFConvert, getModule()->addType(t), InvalidId, _pFloatVec);
 	}
 
-	getModule()->logError("Operand of OpFConvert is not a float type with differing component width");
+	getModule()->logError("Operand of OpFConvert is not a float type with differing component width or there is no float type of the requested width");
 
 	return error();
 }
diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 68fa74a..a71e20d 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -545,6 +545,9 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 
 		Type t(*type1);
 		Type& base = t.getBaseType();
+
+		if (base.getIntWidth() < 16u) break; // there is no float type of this width
+
 		base.setType(spv::Op::OpTypeFloat);
 		base.setIntSign(false); // reset sign
 
-- 
2.43.0


From d767440199305ddee193c8ee4045c2bb7d6134dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 161/190] fix: reject OpAccessChain on a base that is not a
 pointer or with an index that is not an integer

---
 lib/include/spvgentwo/InstructionTemplate.inl | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index f4a9c90..d8d252b 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -245,6 +245,20 @@ namespace spvgentwo
 			return error();
 		}
 
+		if (const Type* pBaseType = _pBase->getType(); pBaseType == nullptr || pBaseType->isPointer() == false)
+		{
+			getModule()->logError("_pBase of OpAccessChain is not a pointer");
+			return error();
+		}
+
+		auto isIntIndex = [](const Instruction* _pIndex) { return _pIndex != nullptr && _pIndex->getType() != nullptr && _pIndex->getType()->isInt(); };
+
+		if ((isIntIndex(_pIndices) && ...) == false)
+		{
+			getModule()->logError("Index of OpAccessChain is not a scalar of integer type");
+			return error();
+		}
+
 		return makeOp(spv::Op::OpAccessChain, _pResultType, InvalidId, _pBase, _pIndices...);
 	}
 
-- 
2.43.0


From 5eeb9e80e2a957665085a791f42b8334afd4715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 162/190] fix: reject OpBitcast of booleans, matrices and other
 types that are not numerical scalars or vectors

---
 lib/source/Instruction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 3a3f846..785ba8c 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1759,8 +1759,10 @@ spvgentwo::Instruction* spvgentwo::Instruction::opBitcast(Instruction* _pResultT
 		return error();
 	}
 
+	auto isNumericalScalarOrVector = [](const Type& _type) { return _type.isScalarOrVectorOf(spv::Op::OpTypeInt) || _type.isScalarOrVectorOf(spv::Op::OpTypeFloat); };
+
 	if ((operandType->isPointer() && resultType->isPointer()) ||
-		(operandType->getScalarOrVectorLength() * operandType->getBaseType().getIntWidth() ==
+		(isNumericalScalarOrVector(*operandType) && isNumericalScalarOrVector(*resultType) && operandType->getScalarOrVectorLength() * operandType->getBaseType().getIntWidth() ==
 			resultType->getScalarOrVectorLength() * resultType->getBaseType().getIntWidth()))
 	{
 		return makeOp(spv::Op::OpBitcast, _pResultType, InvalidId, _pOperand);
-- 
2.43.0


From d29e4413f08a3087ebb9dc6a4f881e9e90fad9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 163/190] fix: reject composite indices beyond the number of
 members and index sequences that are too long

---
 lib/include/spvgentwo/InstructionTemplate.inl | 14 +++++--
 lib/include/spvgentwo/Type.h                  |  4 ++
 lib/source/Instruction.cpp                    | 15 ++++---
 lib/source/Type.cpp                           | 41 +++++++++++++++++++
 4 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index d8d252b..2e77693 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -276,7 +276,13 @@ namespace spvgentwo
 		const Type* pBaseType = _pBase->getType();
 		if (pBaseType == nullptr) return error();
 
-		auto it = pBaseType->getSubType(0u, _indices...); // base is a pointer type, so 0 is used to get the inner type
+		const Type* it = nullptr;
+
+		if (pBaseType->isPointer() && pBaseType->getSubTypes().empty() == false)
+		{
+			const unsigned int indices[] = { _indices..., 0u }; // not empty
+			it = pBaseType->front().getMemberType(indices, sizeof...(_indices), false);
+		}
 
 		if (it != nullptr)
 		{
@@ -579,7 +585,8 @@ namespace spvgentwo
 			return error();
 		}
 
-		auto it = pBaseType->getSubType(_indices...);
+		const unsigned int indices[] = { _indices... };
+		const Type* it = pBaseType->getMemberType(indices, sizeof...(_indices));
 
 		if (it != nullptr)
 		{
@@ -613,7 +620,8 @@ namespace spvgentwo
 			return error();
 		}
 
-		auto it = pBaseType->getSubType(_indices...);
+		const unsigned int indices[] = { _indices... };
+		const Type* it = pBaseType->getMemberType(indices, sizeof...(_indices));
 
 		if (it != nullptr)
 		{
diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index ca377c3..1bc42fa 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -396,6 +396,10 @@ namespace spvgentwo
 		// depth first traversal of type hierarchy using integer indices (dynamic variant), returns the iterator of the last valid type accessed by index
 		Iterator getSubType(const List<unsigned int>& _indices) const;
 
+		// type of the composite member reached by the index sequence, nullptr if a type on the way is not a composite or has no member of that index
+		// array, vector and matrix indices are only checked against the number of elements if _checkBounds is true
+		const Type* getMemberType(const unsigned int* _pIndices, unsigned int _count, bool _checkBounds = true) const;
+
 		// creates a new empty type from this types allocator
 		Type New() const;
 
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 785ba8c..f79cfa1 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1136,11 +1136,11 @@ spvgentwo::Instruction* spvgentwo::Instruction::opAccessChain(Instruction* _pBas
 	const Type* pBaseType = _pBase->getType();
 	if (pBaseType == nullptr) return error();
 
-	auto it = pBaseType->getSubType(0u); // base is a pointer type, so 0 is used to get the inner type
+	const Type* it = pBaseType->isPointer() && pBaseType->getSubTypes().empty() == false ? &pBaseType->front() : nullptr;
 
-	if (it != nullptr)
+	for (unsigned int i : _indices)
 	{
-		it = it->getSubType(_indices);
+		it = it != nullptr ? it->getMemberType(&i, 1u, false) : nullptr;
 	}
 
 	if (it != nullptr)
@@ -1281,9 +1281,14 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeExtractDynamic(Instru
 		return error();
 	}
 
-	auto it = pBaseType->getSubType(_indices);
+	const Type* it = pBaseType;
 
-	if (it != nullptr)
+	for (unsigned int i : _indices)
+	{
+		it = it != nullptr ? it->getMemberType(&i, 1u) : nullptr;
+	}
+
+	if (it != nullptr && _indices.empty() == false)
 	{
 		Instruction* pResultType = pModule->addType(*it);
 		makeOp(spv::Op::OpCompositeExtract, pResultType, InvalidId, _pComposite);
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index 4114226..1ea98fe 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -718,6 +718,47 @@ spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getSubType(const Lis
 	return it;
 }
 
+const spvgentwo::Type* spvgentwo::Type::getMemberType(const unsigned int* _pIndices, unsigned int _count, bool _checkBounds) const
+{
+	const Type* type = this;
+
+	for (unsigned int i = 0u; i < _count; ++i)
+	{
+		const unsigned int index = _pIndices[i];
+
+		if (type->m_subTypes.empty())
+		{
+			return nullptr;
+		}
+
+		if (type->isStruct())
+		{
+			if (index >= type->m_subTypes.size()) return nullptr;
+
+			type = (type->m_subTypes.begin() + index).operator->();
+		}
+		else if (type->isVector() || type->isMatrix() || type->isArray())
+		{
+			// the length of an array is 0 if it is not a known constant
+			const unsigned int length = type->isVector() ? type->m_VecComponentCount : (type->isMatrix() ? type->m_MatColumnCount : type->m_ArrayLength);
+
+			if (_checkBounds && length != 0u && index >= length) return nullptr;
+
+			type = &type->front();
+		}
+		else if (type->isRuntimeArray())
+		{
+			type = &type->front();
+		}
+		else
+		{
+			return nullptr;
+		}
+	}
+
+	return type;
+}
+
 spvgentwo::Type spvgentwo::Type::New() const
 {
 	return Type(m_subTypes.getAllocator());
-- 
2.43.0


From 5fbdf8a7d8b93308da7441124908ebfe7f895b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:01 +0000
Subject: [PATCH 164/190] fix: report an error if the constituents of
 OpCompositeConstruct do not match its result type

---
 lib/include/spvgentwo/Instruction.h           |  3 ++
 lib/include/spvgentwo/InstructionTemplate.inl |  6 ++-
 lib/source/Instruction.cpp                    | 52 +++++++++++++++++++
 3 files changed, 60 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index f0914c5..d58d2ee 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -778,6 +778,9 @@ namespace spvgentwo
 		template <class T, class ...Args>
 		void makeOpInternal(T&& first, Args&& ... _args);
 
+		// checks if the operands of this OpCompositeConstruct match number and types of the constituents of _resultType, logs an error if not
+		bool checkConstituents(const Type& _resultType) const;
+
 		// generic base case with image operands
 		template <class ...ImageOperands>
 		Instruction* genericImageOp(const spv::Op _imageOp, Instruction* _pTargetImage, Instruction* _pCoordinate, Instruction* _pDrefOrCompnent, const Flag<spv::ImageOperandsMask> _imageOperands, ImageOperands... _operands);
diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 2e77693..8bd525a 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -561,7 +561,11 @@ namespace spvgentwo
 			return error();
 		}
 
-		return makeOp(spv::Op::OpCompositeConstruct, _pResultType, InvalidId, _pFirstConstituent, _constituents...);
+		makeOp(spv::Op::OpCompositeConstruct, _pResultType, InvalidId, _pFirstConstituent, _constituents...);
+
+		checkConstituents(*type);
+
+		return this;
 	}
 
 	template<class ...IntIndices>
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index f79cfa1..31efc63 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1247,6 +1247,56 @@ spvgentwo::Instruction* spvgentwo::Instruction::opAll(Instruction* _pBoolVec)
 	return error();
 }
 
+bool spvgentwo::Instruction::checkConstituents(const Type& _resultType) const
+{
+	const bool isVector = _resultType.isVector();
+	const List<Type>& members = _resultType.getSubTypes();
+
+	unsigned int count = 0u; // constituents or, for vectors, components provided
+	unsigned int constituents = 0u;
+	auto member = members.begin();
+	bool match = members.empty() == _resultType.isStruct() || members.empty() == false;
+
+	for (auto it = getFirstActualOperand(); match && it != nullptr && it != end(); ++it)
+	{
+		++constituents;
+
+		const Type* type = it->isInstruction() && it->getInstruction() != nullptr ? it->getInstruction()->getType() : nullptr;
+
+		if (type == nullptr || member == nullptr)
+		{
+			match = false;
+		}
+		else if (isVector)
+		{
+			match = *type == *member || (type->isVector() && type->front() == *member);
+			count += type->getScalarOrVectorLength();
+		}
+		else
+		{
+			match = *type == *member;
+			++count;
+
+			if (_resultType.isStruct()) ++member; // elements of arrays and columns of matrices have the same type
+		}
+	}
+
+	if (match)
+	{
+		if (isVector) match = constituents > 1u && count == _resultType.getVectorComponentCount();
+		else if (_resultType.isMatrix()) match = count == _resultType.getMatrixColumnCount();
+		else if (_resultType.isStruct()) match = count == members.size();
+		else match = _resultType.getArrayLength() == 0u || count == _resultType.getArrayLength(); // length is 0 if it is not a known constant
+	}
+
+	if (match == false)
+	{
+		getModule()->logError("Constituents of OpCompositeConstruct don't match the result type");
+	}
+
+	return match;
+}
+
 spvgentwo::Instruction* spvgentwo::Instruction::opCompositeConstructDynamic(Instruction* _pResultType, const List<Instruction*>& _constituents)
 {
 	const Type* type = _pResultType->getType();
@@ -1265,6 +1315,8 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeConstructDynamic(Inst
 		addOperand(constituent);
 	}
 
+	checkConstituents(*type);
+
 	return this;
 }
 
-- 
2.43.0


From c5e0fac03bccf81029b3f7b554aabd06b9ac4656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:01 +0000
Subject: [PATCH 165/190] fix: reject OpArrayLength of a member other than the
 run-time array at the end of the structure

---
 lib/source/Instruction.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 31efc63..576c87a 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1173,12 +1173,18 @@ spvgentwo::Instruction* spvgentwo::Instruction::opArrayLength(Instruction* _pStr
 	if (type == nullptr) return error();
 
 
-	if (type->isPointer() == false || type->front().isStruct() == false || type->front().back().isRuntimeArray() == false)
+	if (type->isPointer() == false || type->front().isStruct() == false || type->front().getSubTypes().empty() || type->front().back().isRuntimeArray() == false)
 	{
 		getModule()->logError("Operand _pStructure of OpArrayLength must be a logical pointer to an OpTypeStruct whose last	member is a run-time array");
 		return error();
 	}
 
+	if (_ArrayMemberIndex + 1u != type->front().getSubTypes().size())
+	{
+		getModule()->logError("_ArrayMemberIndex of OpArrayLength is not the index of the last member");
+		return error();
+	}
+
 	return makeOp(spv::Op::OpArrayLength, InvalidInstr, InvalidId, _pStructure, literal_t{ _ArrayMemberIndex });
 }
 
-- 
2.43.0


From a036d3341e69aaafeec1c64878a41f867c419c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:01 +0000
Subject: [PATCH 166/190] fix: accept OpImageQuerySize of buffer images

---
 lib/source/Instruction.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 576c87a..284f16c 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1649,12 +1649,12 @@ spvgentwo::Instruction* spvgentwo::Instruction::opImageQuerySize(Instruction* _p
 		getModule()->logError("Operand of OpImageQuerySize is not of type OpTypeImage");
 		return error();
 	}
-	else if (spv::Dim d = type->getImageDimension(); d != spv::Dim::Dim1D && d != spv::Dim::Dim2D && d != spv::Dim::Dim3D && d != spv::Dim::Cube && d != spv::Dim::Rect)
+	else if (spv::Dim d = type->getImageDimension(); d != spv::Dim::Dim1D && d != spv::Dim::Dim2D && d != spv::Dim::Dim3D && d != spv::Dim::Cube && d != spv::Dim::Rect && d != spv::Dim::Buffer)
 	{
-		getModule()->logError("Dimension of OpImageQuerySize operand _pImage is not 1D, 2D, 3D, Cube or Rect");
+		getModule()->logError("Dimension of OpImageQuerySize operand _pImage is not 1D, 2D, 3D, Cube, Rect or Buffer");
 		return error();
 	}
-	else if (d != spv::Dim::Rect && type->getImageMultiSampled() == false && type->getImageSamplerAccess() == SamplerImageAccess::Sampled)
+	else if (d != spv::Dim::Rect && d != spv::Dim::Buffer && type->getImageMultiSampled() == false && type->getImageSamplerAccess() == SamplerImageAccess::Sampled)
 	{
 		// Additionally, if its Dim is 1D, 2D, 3D, or Cube, it must also have either an MS of 1 or a Sampled of 0 or 2.
 		getModule()->logError("Operand _pImage of OpImageQuerySize must have either an MS of 1 or a Sampled of 0 or 2");
-- 
2.43.0


From 7cc5b9a8d60da2cedf23875df32e18a1acd68160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:01 +0000
Subject: [PATCH 167/190] fix: accept source memory operands of OpCopyMemory in
 SPIR-V 1.4

---
 lib/include/spvgentwo/InstructionTemplate.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 8bd525a..e14f8ab 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -489,9 +489,9 @@ namespace spvgentwo
 			return; // early out
 		}
 
-		if (module->getSpvVersion() <= makeVersion(1u, 4u) && _sourceMemOperands)
+		if (module->getSpvVersion() < makeVersion(1u, 4u) && _sourceMemOperands)
 		{
-			module->logError("Operand _sourceMemOperands of OpCopyMemory not supported before SPIR-V 1.5");
+			module->logError("Operand _sourceMemOperands of OpCopyMemory not supported before SPIR-V 1.4");
 			return;
 		}
 
-- 
2.43.0


From b3d7d7984e4cdc6604aba14190a372c06eea43bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 168/190] fix: reject scalar coordinates for images that need a
 coordinate vector

---
 lib/source/Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 284f16c..a6a8b69 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1931,7 +1931,7 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 		dim += 1u;
 	}
 
-	if (dim > 1u && _pCoordType->getVectorComponentCount() < dim)
+	if (_pCoordType->getScalarOrVectorLength() < dim)
 	{
 		module->logError("Dimension of coordinates does not match image type");
 		return false;
-- 
2.43.0


From b487e63216b7d418245d456f554e3af7ed531b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 169/190] fix: reject OpImageQueryLod of images without levels
 of detail

---
 lib/include/spvgentwo/InstructionTemplate.inl | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index e14f8ab..c764715 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -743,7 +743,16 @@ namespace spvgentwo
 		case spv::Op::OpImageSampleDrefExplicitLod:		isSampled = true; isDref = true; break;
 		case spv::Op::OpImageSampleProjDrefImplicitLod: isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; isDref = true; break;
 		case spv::Op::OpImageSampleProjDrefExplicitLod: isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; isDref = true; break;
-		case spv::Op::OpImageQueryLod:					isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; coordCheckArgs |= CheckImgCoord::NoArrayLayer; break;
+		case spv::Op::OpImageQueryLod:
+			isSampled = true;
+			coordCheckArgs |= CheckImgCoord::CanBeInt;
+			coordCheckArgs |= CheckImgCoord::NoArrayLayer;
+			if (spv::Dim d = imageType->getImageDimension(); d != spv::Dim::Dim1D && d != spv::Dim::Dim2D && d != spv::Dim::Dim3D && d != spv::Dim::Cube)
+			{
+				module.logError("OpImageQueryLod requires Dim of sampled image to be 1D, 2D, 3D or Cube");
+				return error();
+			}
+			break;
 
 		default:
 			module.logError("_imageOp is not supported / implemented");
-- 
2.43.0


From 3f9fee65da2663f87d8c9e03af0f28667317844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 170/190] fix: reject Bias, Lod and MinLod operands for gather
 operations and for images without levels of detail

---
 lib/source/TypeInferenceAndValiation.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index a71e20d..e97d91a 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -83,6 +83,8 @@ namespace
 
 		const bool multiSampled = imageType->getImageMultiSampled();
 		const bool isFetch = op == spv::Op::OpImageFetch || op == spv::Op::OpImageSparseFetch;
+		const bool hasLevels = imageType->getImageDimension() == spv::Dim::Dim1D || imageType->getImageDimension() == spv::Dim::Dim2D || imageType->getImageDimension() == spv::Dim::Dim3D || imageType->getImageDimension() == spv::Dim::Cube;
+		const bool isGather = op == spv::Op::OpImageGather || op == spv::Op::OpImageDrefGather;
 		const bool isReadWrite = op == spv::Op::OpImageRead || op == spv::Op::OpImageWrite || op == spv::Op::OpImageSparseRead;
 
 		for (unsigned int i = 0u; opMask != spv::ImageOperandsMask::MaskNone && i <= (unsigned int)spv::ImageOperandsShift::ZeroExtend; ++i)
@@ -97,17 +99,17 @@ namespace
 			{
 			case spv::ImageOperandsMask::Bias:
 			case spv::ImageOperandsMask::MinLod:
-				if (isFetch || isReadWrite || multiSampled)
+				if (isFetch || isReadWrite || isGather || multiSampled || hasLevels == false)
 				{
-					module->logError("Bias and MinLod operands require a sampling operation on a single sampled image");
+					module->logError("Bias and MinLod operands require a sampling operation on a single sampled image of dimension 1D, 2D, 3D or Cube");
 					return false;
 				}
 				if (checkOperand(mask == spv::ImageOperandsMask::Bias ? "Bias" : "MinLod", spv::Op::OpTypeFloat, 0u, false) == false) return false;
 				break;
 			case spv::ImageOperandsMask::Lod:
-				if (isReadWrite || multiSampled)
+				if (isReadWrite || isGather || multiSampled || hasLevels == false)
 				{
-					module->logError("Lod operand requires a sampling or fetch operation on a single sampled image");
+					module->logError("Lod operand requires a sampling or fetch operation on a single sampled image of dimension 1D, 2D, 3D or Cube");
 					return false;
 				}
 				if (checkOperand("Lod", isFetch ? spv::Op::OpTypeInt : spv::Op::OpTypeFloat, 0u, false) == false) return false;
-- 
2.43.0


From 9a3e13983b53d57e7ba1adb6b93dbcb7ad89ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 171/190] fix: reject more than one kind of offset in the image
 operands

---
 lib/source/TypeInferenceAndValiation.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index e97d91a..d2c3b66 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -87,6 +87,21 @@ namespace
 		const bool isGather = op == spv::Op::OpImageGather || op == spv::Op::OpImageDrefGather;
 		const bool isReadWrite = op == spv::Op::OpImageRead || op == spv::Op::OpImageWrite || op == spv::Op::OpImageSparseRead;
 
+		unsigned int offsets = 0u;
+
+		constexpr spv::ImageOperandsMask offsetMasks[] = { spv::ImageOperandsMask::ConstOffset, spv::ImageOperandsMask::Offset, spv::ImageOperandsMask::ConstOffsets };
+
+		for (spv::ImageOperandsMask mask : offsetMasks)
+		{
+			if ((opMask & mask) == mask) ++offsets;
+		}
+
+		if (offsets > 1u)
+		{
+			module->logError("Image operands ConstOffset, Offset and ConstOffsets can't be used together");
+			return false;
+		}
+
 		for (unsigned int i = 0u; opMask != spv::ImageOperandsMask::MaskNone && i <= (unsigned int)spv::ImageOperandsShift::ZeroExtend; ++i)
 		{
 			spv::ImageOperandsMask mask = static_cast<spv::ImageOperandsMask>(1u << i);
-- 
2.43.0


From b46db51769bc9069cfe19c7f5816544f3ca9747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 172/190] fix: accept Bias, Lod, MinLod and Grad operands that
 are not 32 bits wide

---
 lib/source/TypeInferenceAndValiation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index d2c3b66..df2cdd4 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -68,7 +68,7 @@ namespace
 				module->logError("Image operand %s is missing or has no type", _name);
 				return false;
 			}
-			if (type->isScalarOrVectorOf(_baseType) == false || type->getScalarOrVectorLength() != (_length == 0u ? 1u : _length) || type->getBaseType().getIntWidth() != 32u)
+			if (type->isScalarOrVectorOf(_baseType) == false || type->getScalarOrVectorLength() != (_length == 0u ? 1u : _length))
 			{
 				module->logError("Image operand %s has invalid type or dimension", _name);
 				return false;
-- 
2.43.0


From e86cbf89ebb84a6e0f16f948d4e526fb3b9cbeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:43 +0000
Subject: [PATCH 173/190] fix: reject Bias, Lod, Grad and MinLod operands for
 implicit and explicit lod operations that do not support them

---
 lib/source/TypeInferenceAndValiation.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index df2cdd4..d260c5c 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -85,6 +85,7 @@ namespace
 		const bool isFetch = op == spv::Op::OpImageFetch || op == spv::Op::OpImageSparseFetch;
 		const bool hasLevels = imageType->getImageDimension() == spv::Dim::Dim1D || imageType->getImageDimension() == spv::Dim::Dim2D || imageType->getImageDimension() == spv::Dim::Dim3D || imageType->getImageDimension() == spv::Dim::Cube;
 		const bool isGather = op == spv::Op::OpImageGather || op == spv::Op::OpImageDrefGather;
+		const bool isImplicitLod = op == spv::Op::OpImageSampleImplicitLod || op == spv::Op::OpImageSampleDrefImplicitLod || op == spv::Op::OpImageSampleProjImplicitLod || op == spv::Op::OpImageSampleProjDrefImplicitLod;
 		const bool isReadWrite = op == spv::Op::OpImageRead || op == spv::Op::OpImageWrite || op == spv::Op::OpImageSparseRead;
 
 		unsigned int offsets = 0u;
@@ -114,6 +115,11 @@ namespace
 			{
 			case spv::ImageOperandsMask::Bias:
 			case spv::ImageOperandsMask::MinLod:
+				if (isImplicitLod == false && (mask == spv::ImageOperandsMask::Bias || opMask.none(spv::ImageOperandsMask::Grad)))
+				{
+					module->logError("Bias operand requires an implicit lod operation, MinLod operand requires an implicit lod operation or a Grad operand");
+					return false;
+				}
 				if (isFetch || isReadWrite || isGather || multiSampled || hasLevels == false)
 				{
 					module->logError("Bias and MinLod operands require a sampling operation on a single sampled image of dimension 1D, 2D, 3D or Cube");
@@ -122,14 +128,19 @@ namespace
 				if (checkOperand(mask == spv::ImageOperandsMask::Bias ? "Bias" : "MinLod", spv::Op::OpTypeFloat, 0u, false) == false) return false;
 				break;
 			case spv::ImageOperandsMask::Lod:
-				if (isReadWrite || isGather || multiSampled || hasLevels == false)
+				if (isReadWrite || isGather || isImplicitLod || (opMask & spv::ImageOperandsMask::Grad) || multiSampled || hasLevels == false)
 				{
-					module->logError("Lod operand requires a sampling or fetch operation on a single sampled image of dimension 1D, 2D, 3D or Cube");
+					module->logError("Lod operand requires an explicit lod operation without Grad operand or a fetch operation on a single sampled image of dimension 1D, 2D, 3D or Cube");
 					return false;
 				}
 				if (checkOperand("Lod", isFetch ? spv::Op::OpTypeInt : spv::Op::OpTypeFloat, 0u, false) == false) return false;
 				break;
 			case spv::ImageOperandsMask::Grad:
+				if (isReadWrite || isFetch || isGather || isImplicitLod)
+				{
+					module->logError("Grad operand requires an explicit lod operation");
+					return false;
+				}
 				if (checkOperand("Grad dx", spv::Op::OpTypeFloat, coordLength, false) == false) return false;
 				if (checkOperand("Grad dy", spv::Op::OpTypeFloat, coordLength, false) == false) return false;
 				break;
-- 
2.43.0


From 760da7aae733d65bfdcdaac716e7bb2a450700b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:43 +0000
Subject: [PATCH 174/190] fix: reject sampling of multi sampled images and
 access to them without Sample operand

---
 lib/include/spvgentwo/InstructionTemplate.inl | 5 +++++
 lib/source/TypeInferenceAndValiation.cpp      | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index c764715..2de138c 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -764,6 +764,11 @@ namespace spvgentwo
 			module.logError("_imageOp requires _pTargetImage operand to be of type OpTypeSampledImage");
 			return error();
 		}
+		else if (isSampled && imageType->getImageMultiSampled())
+		{
+			module.logError("_imageOp is a sampling operation and can't be used with multi sampled images");
+			return error();
+		}
 		else if (!isSampled && type->isImage() == false)
 		{
 			module.logError("_imageOp requires _pTargetImage operand to be of type OpTypeImage");
diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index d260c5c..0de6506 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -197,6 +197,12 @@ namespace
 			}
 		}
 
+		if (multiSampled && (isFetch || isReadWrite) && opMask.none(spv::ImageOperandsMask::Sample))
+		{
+			module->logError("Operations on multi sampled images require a Sample operand");
+			return false;
+		}
+
 		if (operandIt)
 		{
 			module->logError("Image operands don't match the image operand mask");
-- 
2.43.0


From 6cd968233a301c8bfbfa541042fa641fb321ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:43 +0000
Subject: [PATCH 175/190] fix: check the image operands of OpImageWrite

---
 lib/source/TypeInferenceAndValiation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 0de6506..5f06485 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -693,6 +693,7 @@ bool spvgentwo::ITypeInferenceAndVailation::validateOperands(const spvgentwo::In
 	switch (_instr.getOperation())
 	{
 	case spv::Op::OpImageRead:
+	case spv::Op::OpImageWrite:
 	case spv::Op::OpImageFetch:
 	case spv::Op::OpImageDrefGather:
 	case spv::Op::OpImageGather:
-- 
2.43.0


From 63f7a2efb677bc5f229d9259bcacbf3fa442095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:43 +0000
Subject: [PATCH 176/190] fix: report an error for conversions to integer types
 of a width that does not exist

---
 lib/source/Instruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index a6a8b69..d7a573b 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1703,7 +1703,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opUConvert(Instruction* _pUintVe
 
 	if (type == nullptr) return error();
 
-	if (Type t = *type; t.isScalarOrVectorOf(spv::Op::OpTypeInt, 0u, 0u, Sign::Unsigned) && t.getBaseType().getIntWidth() != _bitWidth)
+	if (Type t = *type; t.isScalarOrVectorOf(spv::Op::OpTypeInt, 0u, 0u, Sign::Unsigned) && t.getBaseType().getIntWidth() != _bitWidth && (_bitWidth == 8u || _bitWidth == 16u || _bitWidth == 32u || _bitWidth == 64u))
 	{
 		t.getBaseType().setIntWidth(_bitWidth);
 		return makeOp(spv::Op::OpUConvert, getModule()->addType(t), InvalidId, _pUintVec);
@@ -1720,7 +1720,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opSConvert(Instruction* _pSIntVe
 
 	if (type == nullptr) return error();
 
-	if (Type t = *type; t.isScalarOrVectorOf(spv::Op::OpTypeInt, 0u, 0u, Sign::Signed) && t.getBaseType().getIntWidth() != _bitWidth)
+	if (Type t = *type; t.isScalarOrVectorOf(spv::Op::OpTypeInt, 0u, 0u, Sign::Signed) && t.getBaseType().getIntWidth() != _bitWidth && (_bitWidth == 8u || _bitWidth == 16u || _bitWidth == 32u || _bitWidth == 64u))
 	{
 		t.getBaseType().setIntWidth(_bitWidth);
 		return makeOp(spv::Op::OpSConvert, getModule()->addType(t), InvalidId, _pSIntVec);
-- 
2.43.0


From 9bbefd22b4b54d171bcf3f1f84a90ae96b325b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:43 +0000
Subject: [PATCH 177/190] fix: reject component indices of OpVectorShuffle
 beyond the components of both vectors

---
 lib/include/spvgentwo/InstructionTemplate.inl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 2de138c..e5dc11d 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -533,6 +533,14 @@ namespace spvgentwo
 
 		if (lType->isVector() && rType->isVector() && lType->getBaseType() == rType->getBaseType())
 		{
+			const unsigned int length = lType->getVectorComponentCount() + rType->getVectorComponentCount();
+
+			if (((_components < length || _components == 0xFFFFFFFFu) && ...) == false) // 0xFFFFFFFF: component has no source
+			{
+				getModule()->logError("Component index of opVectorShuffle exceeds the number of components of both vectors");
+				return error();
+			}
+
 			Instruction* resultType = getModule()->addType(lType->getBaseType().wrapVector(componentCount));
 			return makeOp(spv::Op::OpVectorShuffle, resultType, InvalidId, _pVector1, _pVector2, literal_t{ _components }...);
 		}
-- 
2.43.0


From e23c436be46400a6fd17c4482f558f6bbb30eac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:43 +0000
Subject: [PATCH 178/190] fix: accept a refraction ratio with a width that
 differs from the vectors of the GLSL instruction Refract

---
 lib/source/GLSL450Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 71b453a..d17fecb 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -330,7 +330,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opRefract(Instruction* _pI
 
 	if (typeI == nullptr || typeN == nullptr || typeEta == nullptr) return error();
 
-	if (typeI->isScalarOrVectorOfSameLength(spv::Op::OpTypeFloat, *typeN) && typeN->getBaseType() == *typeEta)
+	if (typeI->isScalarOrVectorOfSameLength(spv::Op::OpTypeFloat, *typeN) && typeEta->isFloat())
 	{
 		return opExtInst(_pIvec->getResultTypeInstr(), ExtName, static_cast<unsigned int>(glslstd450::Op::Refract), _pIvec, _pNvec, _pEtaFloat);
 	}
-- 
2.43.0


From 8f37d4e75efc1d7b1729e185deef61cb7c7ef43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:53 +0000
Subject: [PATCH 179/190] fix: reject the ConstOffsets operand for cube images

---
 lib/source/TypeInferenceAndValiation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 5f06485..2fa7179 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -157,6 +157,11 @@ namespace
 			{
 				Instruction* offsets = nextOperand();
 				const Type* type = offsets != nullptr ? offsets->getType() : nullptr;
+				if (imageType->getImageDimension() == spv::Dim::Cube)
+				{
+					module->logError("ConstOffsets operand can't be used with cube images");
+					return false;
+				}
 				if (op != spv::Op::OpImageGather && op != spv::Op::OpImageDrefGather)
 				{
 					module->logError("ConstOffsets operand can only be used with OpImageGather or OpImageDrefGather");
-- 
2.43.0


From 453b20684070a593b3c53dcc38f4fe1ef13fbc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:53 +0000
Subject: [PATCH 180/190] fix: reject projective sampling of cube and arrayed
 images

---
 lib/include/spvgentwo/InstructionTemplate.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index e5dc11d..10914ca 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -767,6 +767,12 @@ namespace spvgentwo
 			return error();
 		}
 
+		if (spv::Dim d = imageType->getImageDimension(); coordCheckArgs.any(CheckImgCoord::IsProjective) && (imageType->getImageArray() || (d != spv::Dim::Dim1D && d != spv::Dim::Dim2D && d != spv::Dim::Dim3D && d != spv::Dim::Rect)))
+		{
+			module.logError("Projective image operation requires Dim of sampled image to be 1D, 2D, 3D or Rect and the image must not be arrayed");
+			return error();
+		}
+
 		if (isSampled && type->isSampledImage() == false)
 		{
 			module.logError("_imageOp requires _pTargetImage operand to be of type OpTypeSampledImage");
-- 
2.43.0


From 16717ac5c103ebab290b1fde03b073e31fdf4f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:51 +0000
Subject: [PATCH 181/190] fix: accept an OpInBoundsAccessChain index that is
 not a constant, reject one that is not an integer

---
 lib/include/spvgentwo/InstructionTemplate.inl | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 10914ca..c2b318a 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -311,15 +311,23 @@ namespace spvgentwo
 
 		if (_pResultType == nullptr || _pBase == nullptr || _pConstIndex == nullptr) return error();
 
-		if (_pResultType->isType() == false)
+		if (_pResultType->isType() == false || _pResultType->getType()->isPointer() == false)
 		{
-			getModule()->logError("_pResultType is not a type instruction");
+			getModule()->logError("_pResultType is not a (pointer) type instruction");
+			return error();
+		}
+
+		if (const Type* pBaseType = _pBase->getType(); pBaseType == nullptr || pBaseType->isPointer() == false)
+		{
+			getModule()->logError("_pBase of OpInBoundsAccessChain is not a pointer");
 			return error();
 		}
 
-		if (_pConstIndex->isSpecOrConstant() == false)
+		auto isIntIndex = [](const Instruction* _pIndex) { return _pIndex != nullptr && _pIndex->getType() != nullptr && _pIndex->getType()->isInt(); };
+
+		if (isIntIndex(_pConstIndex) == false || (isIntIndex(_pIndices) && ...) == false)
 		{
-			getModule()->logError("_pConstIndex is not a constant instruction");
+			getModule()->logError("Index of OpInBoundsAccessChain is not a scalar of integer type");
 			return error();
 		}
 
-- 
2.43.0


From 4cdeaddb93a32a0d26e5395395c588ca13035280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:07 +0000
Subject: [PATCH 182/190] fix: String::insert of its own text reads freed or
 moved characters

---
 lib/source/String.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 4d3fd29..b1db4a3 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -125,6 +125,12 @@ spvgentwo::String::Iterator spvgentwo::String::insert(sgt_size_t _pos, const cha
 	}
 
 	const sgt_size_t length = _length == 0u && _pCStr != nullptr ? (stringLength(_pCStr) - 1u) : _length;
+	if (length != 0u && _pCStr >= m_pData && _pCStr < m_pData + m_elements) // text of this string, it is moved by the insertion
+	{
+		const String copy(m_pAllocator, _pCStr, length);
+		return copy.empty() ? nullptr : insert(_pos, copy.data(), length);
+	}
+
 	if (reserve(m_elements + length + 1u) == false) // including the terminator
 	{
 		return nullptr;
-- 
2.43.0


From 16ffeb057fb68dd1d3705c2096d477a135777577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:07 +0000
Subject: [PATCH 183/190] fix: String::append of its own text reads freed
 memory if the string has to grow

---
 lib/source/String.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index b1db4a3..f84df7a 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -70,6 +70,12 @@ spvgentwo::String& spvgentwo::String::operator+=(const char* _pStr)
 spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _length)
 {
 	const sgt_size_t length = _length == 0u ? stringLength(_pStr) : _length;
+	if (length != 0u && _pStr >= m_pData && _pStr < m_pData + m_elements) // text of this string, it is moved if the string has to grow
+	{
+		const String copy(m_pAllocator, _pStr, length);
+		return copy.empty() ? *this : append(copy.data(), length);
+	}
+
 	if (length != 0u && reserve(m_elements + length + 1u))
 	{
 		// we only want one string terminator, overwrite the old one an append
-- 
2.43.0


From 595520dbc839d671fcc86bb44436fa8ab82c40ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:45 +0000
Subject: [PATCH 184/190] fix: TypeHelper::getTypeName lost the name of the
 struct a pointer points to

---
 common/source/TypeHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/source/TypeHelper.cpp b/common/source/TypeHelper.cpp
index daa7656..1da4611 100644
--- a/common/source/TypeHelper.cpp
+++ b/common/source/TypeHelper.cpp
@@ -134,7 +134,8 @@ namespace
 		}
 		else if (_type.isPointer())
 		{
-			insertSubType(_type.front(), 0u, op != nullptr ? op->getInstruction() : nullptr);
+			// OpTypePointer StorageClass Type
+			insertSubType(_type.front(), 0u, op != nullptr && ++op != nullptr ? op->getInstruction() : nullptr);
 			insert("*");
 
 			if (const char* name = instrName(_pOpTypeInstr); name != nullptr)
-- 
2.43.0


From 85806897896d4ed83cb8940e696dd8bda3a51f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:45 +0000
Subject: [PATCH 185/190] fix: TypeHelper::getTypeName used names of the array
 for its elements

---
 common/source/TypeHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/TypeHelper.cpp b/common/source/TypeHelper.cpp
index 1da4611..860bc00 100644
--- a/common/source/TypeHelper.cpp
+++ b/common/source/TypeHelper.cpp
@@ -146,7 +146,7 @@ namespace
 		}
 		else if (_type.isArray())
 		{
-			insertSubType(_type.front(), 0u, _pOpTypeInstr); // or pass subtype instr?
+			insertSubType(_type.front(), 0u, op != nullptr ? op->getInstruction() : nullptr);
 
 			if (const char* name = instrName(_pOpTypeInstr); name != nullptr)
 			{
-- 
2.43.0


From 7649db4af9469f0286b38c3aba98446a02f86d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:45 +0000
Subject: [PATCH 186/190] fix: TypeHelper::getTypeName used operands of the
 return type for the parameters of a function

---
 common/source/TypeHelper.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/source/TypeHelper.cpp b/common/source/TypeHelper.cpp
index 860bc00..50117cb 100644
--- a/common/source/TypeHelper.cpp
+++ b/common/source/TypeHelper.cpp
@@ -18,6 +18,13 @@ namespace
 			{
 				op = _pOpTypeInstr->getFirstActualOperand();
 			}
+			else if (*_pOpTypeInstr == spv::Op::OpFunction) // result type is the return type
+			{
+				if (const Instruction* t = _pOpTypeInstr->last()->getInstruction(); t != nullptr && t->isType())
+				{
+					op = t->getFirstActualOperand();
+				}
+			}
 			else if (_pOpTypeInstr->hasResultType())
 			{
 				op = _pOpTypeInstr->getResultTypeInstr()->getFirstActualOperand();
-- 
2.43.0


From ca9beb7ef62571bafd5750ca7e335e455e6fbb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:07 +0000
Subject: [PATCH 187/190] fix: TypeHelper::getTypeName called an unnamed
 function by the name of its return type

---
 common/source/TypeHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/TypeHelper.cpp b/common/source/TypeHelper.cpp
index 50117cb..71ede9f 100644
--- a/common/source/TypeHelper.cpp
+++ b/common/source/TypeHelper.cpp
@@ -37,7 +37,7 @@ namespace
 
 			if (_instr != nullptr)
 			{
-				if (name = _instr->getName(_memberIdx); name == nullptr && _instr->hasResultType())
+				if (name = _instr->getName(_memberIdx); name == nullptr && _instr->hasResultType() && *_instr != spv::Op::OpFunction)
 				{
 					if (const Instruction* t = _instr->getResultTypeInstr(); t != nullptr)
 					{
-- 
2.43.0


From 88a9aa873d02b4cda0d09cb2a0365e67aecbc286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:14 +0000
Subject: [PATCH 188/190] fix: GLSL450 float helpers dereferenced the missing
 type of an operand which is no value

---
 lib/source/GLSL450Instruction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index d17fecb..dfb6d6b 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -10,6 +10,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec1(glslstd4
 	if (pTypeInstr == nullptr) return error();
 
 	const Type* pType = pTypeInstr->getType();
+	if (pType == nullptr) return error();
 
 	if ((pType->isFloat() || pType->isVectorOfFloat()) && (_no64Bit ? pType->getBaseType().getFloatWidth() <= 32u : true))
 	{
-- 
2.43.0


From e01becaeb60929dc8bd98fc1a1a1d5c871eb458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:14 +0000
Subject: [PATCH 189/190] fix: opFrexpStruct dereferenced the missing type of
 an operand which is no value

---
 lib/source/GLSL450Instruction.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index dfb6d6b..289378c 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -204,8 +204,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::interpolate(glslstd450::Op
 spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opFrexpStruct(Instruction* _pFloat)
 {
 	Instruction* significantType = _pFloat->getResultTypeInstr();
-	if (significantType == nullptr) return error();
-
+	if (significantType == nullptr || significantType->getType() == nullptr) return error();
 
 	// Result Type must be an OpTypeStruct with two members. Member 0 must have the same type as the type of x.
 	// Member 0 holds the significand. Member 1 must be a scalar or vector with integer component type, with 32 - bit
-- 
2.43.0


From 4824df487433bce4124fa5d50d7268600d6c7882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:14 +0000
Subject: [PATCH 190/190] fix: opVectorInsertDynamic dereferenced the missing
 type of a component which is no value

---
 lib/source/Instruction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index d7a573b..6153456 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1403,10 +1403,11 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVectorExtractDynamic(Instructi
 spvgentwo::Instruction* spvgentwo::Instruction::opVectorInsertDynamic(Instruction* _pVector, Instruction* _pComponent, Instruction* _pIndexInt)
 {
 	const Type* pVecType = _pVector->getType();
+	const Type* componentType = _pComponent->getType();
 	const Type* indexType = _pIndexInt->getType();
-	if (pVecType == nullptr || indexType == nullptr) return error();
+	if (pVecType == nullptr || componentType == nullptr || indexType == nullptr) return error();
 
-	if (pVecType->isVector() && pVecType->front() == *_pComponent->getType() && indexType->isInt())
+	if (pVecType->isVector() && pVecType->front() == *componentType && indexType->isInt())
 	{
 		return makeOp(spv::Op::OpVectorInsertDynamic, InvalidInstr, InvalidId, _pVector, _pComponent, _pIndexInt);
 	}
-- 
2.43.0

