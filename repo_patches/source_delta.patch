From 440fc6ba9c174201bfdba1ffdb641ce131731fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 01/52] fix: MemoryPool::Reset must mark every entry of a block
 as free

Bitset::Reset(true)/Reset(false) are Reset(bit index 1/0), so entries stayed marked as occupied.
---
 include/NazaraUtils/MemoryPool.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 2503503..da1bdc0 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -230,8 +230,8 @@ namespace Nz
 				PlacementDestroy(entry);
 			}
 
-			block.freeEntries.Reset(true);
-			block.occupiedEntries.Reset(false);
+			block.freeEntries.Set(true);
+			block.occupiedEntries.Set(false);
 			block.occupiedEntryCount = 0;
 		}
 	}
-- 
2.43.0


From e940bc1470a29b6a2f92516bb8f63a885a75ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 02/52] fix: MemoryPool::Allocate must give the entry back if
 its constructor throws

---
 include/NazaraUtils/MemoryPool.inl | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index da1bdc0..c5f5124 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -93,7 +93,16 @@ namespace Nz
 	T* MemoryPool<T, Alignment>::Allocate(std::size_t& index, Args&&... args)
 	{
 		T* entry = Allocate(DeferConstruct, index);
-		PlacementNew(entry, std::forward<Args>(args)...);
+		try
+		{
+			PlacementNew(entry, std::forward<Args>(args)...);
+		}
+		catch (...)
+		{
+			// Give the entry back, it must not be seen nor destroyed as if it was constructed
+			Free(index, NoDestruction);
+			throw;
+		}
 
 		return entry;
 	}
-- 
2.43.0


From 7659144f825f2700b4b7e4c485eace52c83247ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 03/52] fix: MemoryPool move assignment must destroy the
 entries it replaces

---
 include/NazaraUtils/MemoryPool.hpp |  2 +-
 include/NazaraUtils/MemoryPool.inl | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.hpp b/include/NazaraUtils/MemoryPool.hpp
index 79a8f2a..4c9bbc7 100644
--- a/include/NazaraUtils/MemoryPool.hpp
+++ b/include/NazaraUtils/MemoryPool.hpp
@@ -63,7 +63,7 @@ namespace Nz
 			std::size_t size();
 
 			MemoryPool& operator=(const MemoryPool&) = delete;
-			MemoryPool& operator=(MemoryPool&& pool) noexcept = default;
+			MemoryPool& operator=(MemoryPool&& pool) noexcept;
 
 			static constexpr DeferConstruct_t DeferConstruct = {};
 			static constexpr std::size_t InvalidIndex = std::numeric_limits<std::size_t>::max();
diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index c5f5124..8b66db6 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -359,6 +359,28 @@ namespace Nz
 		return GetAllocatedEntryCount();
 	}
 
+	/*!
+	* \brief Moves a memory pool into this one
+	* \return A reference to this
+	*
+	* Calls the destructor of every entry allocated by this pool, the entries of the other pool remain valid
+	*
+	* \param pool Pool to move in this
+	*/
+	template<typename T, std::size_t Alignment>
+	auto MemoryPool<T, Alignment>::operator=(MemoryPool&& pool) noexcept -> MemoryPool&
+	{
+		if (this != &pool)
+		{
+			Reset();
+
+			m_blockSize = pool.m_blockSize;
+			m_blocks = std::move(pool.m_blocks);
+		}
+
+		return *this;
+	}
+
 	template<typename T, std::size_t Alignment>
 	void MemoryPool<T, Alignment>::AllocateBlock()
 	{
-- 
2.43.0


From aa7d1e6ec87761f9301f0622bb0df31ea8368805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 04/52] fix: MemoryPool must not keep an incomplete block when
 an allocation fails

---
 include/NazaraUtils/MemoryPool.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 8b66db6..0a6492b 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -384,10 +384,13 @@ namespace Nz
 	template<typename T, std::size_t Alignment>
 	void MemoryPool<T, Alignment>::AllocateBlock()
 	{
-		auto& block = m_blocks.emplace_back();
+		// Build the block before adding it, so a failing allocation can't leave an incomplete block in the pool
+		Block block;
 		block.freeEntries.Resize(m_blockSize, true);
 		block.occupiedEntries.Resize(m_blockSize, false);
 		block.memory = std::make_unique<AlignedStorage[]>(m_blockSize);
+
+		m_blocks.push_back(std::move(block));
 	}
 
 	template<typename T, std::size_t Alignment>
-- 
2.43.0


From 543038558bf51abb01da4c0af4539767656dae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 05/52] fix: MemoryPool::RetrieveEntryIndex must handle
 alignments bigger than the type size

---
 include/NazaraUtils/MemoryPool.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 0a6492b..6af5b6d 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -296,11 +296,12 @@ namespace Nz
 		for (; blockIndex < m_blocks.size(); ++blockIndex)
 		{
 			auto& block = m_blocks[blockIndex];
-			const T* startPtr = reinterpret_cast<const T*>(&block.memory[0]);
-			if (data >= startPtr && data < startPtr + m_blockSize)
+			const AlignedStorage* entryPtr = reinterpret_cast<const AlignedStorage*>(data);
+			const AlignedStorage* startPtr = &block.memory[0]; //< entries may be larger than T because of Alignment
+			if (entryPtr >= startPtr && entryPtr < startPtr + m_blockSize)
 			{
 				// Part of block
-				localIndex = SafeCast<std::size_t>(data - startPtr);
+				localIndex = SafeCast<std::size_t>(entryPtr - startPtr);
 				assert(data == reinterpret_cast<const T*>(&block.memory[localIndex]));
 
 				break;
-- 
2.43.0


From b6779aa842f398205501a815f117b5cff959ac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 06/52] fix: HybridVector::push_back must move an rvalue into
 the fallback storage

---
 include/NazaraUtils/FixedVector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 16f10ca..ac7c515 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -526,7 +526,7 @@ namespace Nz
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
+				return *Base::EmplaceBackInFallback(std::move(value));
 		}
 
 		NazaraAssert(m_size < Capacity);
-- 
2.43.0


From d9e565baaac848e078ad33cdcfbb00acb58b6003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 07/52] fix: FixedVector must stay valid when constructing or
 moving an element throws

---
 include/NazaraUtils/FixedVector.hpp |  11 +--
 include/NazaraUtils/FixedVector.inl | 107 ++++++++++++++++++----------
 2 files changed, 76 insertions(+), 42 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index 3d7489f..e9b0d63 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -49,7 +49,7 @@ namespace Nz
 			template<typename InputIt> constexpr FixedVector(InputIt first, InputIt last);
 			constexpr FixedVector(std::initializer_list<T> init);
 			constexpr FixedVector(const FixedVector& vec);
-			constexpr FixedVector(FixedVector&& vec) noexcept;
+			constexpr FixedVector(FixedVector&& vec) noexcept(std::is_nothrow_move_constructible<T>::value);
 			~FixedVector();
 
 			constexpr reference back();
@@ -94,8 +94,8 @@ namespace Nz
 
 			constexpr size_type max_size() const noexcept;
 
-			constexpr reference push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value);
-			constexpr reference push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value);
+			constexpr reference push_back(const T& value) noexcept(std::is_void<Fallback>::value && std::is_nothrow_copy_constructible<T>::value);
+			constexpr reference push_back(T&& value) noexcept(std::is_void<Fallback>::value && std::is_nothrow_move_constructible<T>::value);
 
 			constexpr void pop_back();
 
@@ -116,9 +116,12 @@ namespace Nz
 			constexpr const_reference operator[](size_type pos) const;
 
 			constexpr FixedVector& operator=(const FixedVector& vec);
-			constexpr FixedVector& operator=(FixedVector&& vec) noexcept;
+			constexpr FixedVector& operator=(FixedVector&& vec) noexcept(std::is_nothrow_move_constructible<T>::value);
 
 		private:
+			constexpr FixedVector(const Base& base, std::size_t size);
+			constexpr FixedVector(Base&& base, std::size_t size) noexcept;
+
 			constexpr bool CheckFallbackOnGrow();
 			constexpr bool IsUsingFallback() const;
 			constexpr void MoveStorageToFallback(std::size_t capacity);
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index ac7c515..40fa7e1 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -18,6 +18,18 @@ namespace Nz
 				static constexpr bool HasFallback = true;
 
 			protected:
+				void AssignFallback(T* elements, std::size_t count, std::size_t capacity)
+				{
+					// don't touch the fallback until every element has been transferred, as this may throw
+					Fallback newFallback(std::move(fallback));
+					newFallback.clear();
+					newFallback.reserve(capacity);
+					for (std::size_t i = 0; i < count; ++i)
+						newFallback.emplace_back(std::move_if_noexcept(elements[i]));
+
+					fallback = std::move(newFallback);
+				}
+
 				void ClearFallback()
 				{ 
 					fallback.clear();
@@ -104,6 +116,10 @@ namespace Nz
 				static constexpr bool HasFallback = false;
 
 			protected:
+				void AssignFallback(T* /*elements*/, std::size_t /*count*/, std::size_t /*capacity*/)
+				{
+				}
+
 				void ClearFallback()
 				{
 				}
@@ -209,30 +225,38 @@ namespace Nz
 
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(const FixedVector& vec) :
-	Base(vec)
+	FixedVector(static_cast<const Base&>(vec), (vec.IsUsingFallback()) ? FallbackInUse : 0)
 	{
 		if (!vec.IsUsingFallback())
 		{
-			m_size = 0;
 			for (size_type i = 0; i < vec.size(); ++i)
 				push_back(vec[i]);
 		}
-		else
-			m_size = FallbackInUse;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(FixedVector&& vec) noexcept :
-	Base(std::move(vec))
+	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(FixedVector&& vec) noexcept(std::is_nothrow_move_constructible<T>::value) :
+	FixedVector(static_cast<Base&&>(vec), (vec.IsUsingFallback()) ? FallbackInUse : 0)
 	{
 		if (!vec.IsUsingFallback())
 		{
-			m_size = 0;
 			for (size_type i = 0; i < vec.size(); ++i)
 				push_back(std::move(vec[i]));
 		}
-		else
-			m_size = FallbackInUse;
+	}
+
+	template<typename T, std::size_t Capacity, typename Fallback>
+	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(const Base& base, std::size_t size) :
+	Base(base),
+	m_size(size)
+	{
+	}
+
+	template<typename T, std::size_t Capacity, typename Fallback>
+	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(Base&& base, std::size_t size) noexcept :
+	Base(std::move(base)),
+	m_size(size)
+	{
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -372,19 +396,25 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		if (pos < end())
+		if (index < m_size)
 		{
-			iterator lastElement = end() - 1;
-			PlacementNew(data(m_size), std::move(*lastElement));
+			// build the new element first, it may throw or refer to an element of this vector
+			T value(std::forward<Args>(args)...);
 
-			if (data(index) < lastElement)
-				std::move_backward(data(index), data(m_size - 1), data(m_size));
+			iterator lastElement = data(m_size - 1);
+			PlacementNew(data(m_size), std::move(*lastElement));
+			m_size++;
 
-			PlacementDestroy(data(index));
+			std::move_backward(data(index), lastElement, lastElement + 1);
+			*data(index) = std::move(value);
+		}
+		else
+		{
+			PlacementNew(data(m_size), std::forward<Args>(args)...);
+			m_size++;
 		}
-		m_size++;
 
-		return PlacementNew(data(index), std::forward<Args>(args)...);
+		return iterator(data(index));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -398,7 +428,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::forward<Args>(args)...);
+		T* element = PlacementNew(data(m_size), std::forward<Args>(args)...);
+		m_size++; // only count the element once it has been constructed
+
+		return *element;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -508,7 +541,7 @@ namespace Nz
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value) -> reference
+	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(std::is_void<Fallback>::value && std::is_nothrow_copy_constructible<T>::value) -> reference
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
@@ -517,11 +550,14 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), value);
+		T* element = PlacementNew(data(m_size), value);
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value) -> reference
+	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(std::is_void<Fallback>::value && std::is_nothrow_move_constructible<T>::value) -> reference
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
@@ -530,7 +566,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::move(value));
+		T* element = PlacementNew(data(m_size), std::move(value));
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -570,10 +609,8 @@ namespace Nz
 		NazaraAssert(count <= Capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(data(i));
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(data(m_size));
 		}
 		else if (count < m_size)
 		{
@@ -605,10 +642,8 @@ namespace Nz
 		NazaraAssert(count <= Capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(data(i), value);
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(data(m_size), value);
 		}
 		else if (count < m_size)
 		{
@@ -710,7 +745,7 @@ namespace Nz
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(FixedVector&& vec) noexcept -> FixedVector&
+	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(FixedVector&& vec) noexcept(std::is_nothrow_move_constructible<T>::value) -> FixedVector&
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
@@ -765,13 +800,9 @@ namespace Nz
 	{
 		NazaraAssert(!IsUsingFallback());
 
-		Base::ReserveFallback(capacity);
-		for (std::size_t i = 0; i < m_size; ++i)
-		{
-			T* ptr = data(i);
-			Base::EmplaceBackInFallback(std::move(*ptr));
-			PlacementDestroy(ptr);
-		}
+		Base::AssignFallback(data(), m_size, capacity);
+
+		clear();
 		m_size = FallbackInUse;
 	}
 }
-- 
2.43.0


From 55296bb260cef8e3699e42733721b965353c4462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 08/52] fix: FixedVector assignment must destroy inline
 elements and support self-assignment

---
 include/NazaraUtils/FixedVector.inl | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 40fa7e1..317a4f7 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -726,18 +726,28 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(const FixedVector& vec) -> FixedVector&
 	{
+		if (this == &vec)
+			return *this;
+
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (vec.IsUsingFallback())
 			{
+				// may throw, keep our elements until it's done
 				Base::operator=(vec);
-				m_size = vec.m_size;
+				if (!IsUsingFallback())
+				{
+					clear();
+					m_size = FallbackInUse;
+				}
 				return *this;
 			}
+
+			if (IsUsingFallback())
+				Base::ReserveFallback(vec.size());
 		}
 
 		clear();
-		reserve(vec.size());
 		for (size_type i = 0; i < vec.size(); ++i)
 			push_back(vec[i]);
 
@@ -747,19 +757,19 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(FixedVector&& vec) noexcept(std::is_nothrow_move_constructible<T>::value) -> FixedVector&
 	{
+		if (this == &vec)
+			return *this;
+
+		clear();
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			// Always move fallback container to steal capacity
+			m_size = (vec.IsUsingFallback()) ? FallbackInUse : 0;
 			Base::operator=(std::move(vec));
 			if (vec.IsUsingFallback())
-			{
-				m_size = vec.m_size;
 				return *this;
-			}
 		}
 
-		clear();
-		reserve(vec.size());
 		for (size_type i = 0; i < vec.size(); ++i)
 			push_back(std::move(vec[i]));
 
-- 
2.43.0


From 18cc3283ead9de9b1667d116771410788851d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 09/52] fix: a moved-from FixedVector must not keep its
 moved-from elements

---
 include/NazaraUtils/FixedVector.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 317a4f7..453137c 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -242,6 +242,8 @@ namespace Nz
 		{
 			for (size_type i = 0; i < vec.size(); ++i)
 				push_back(std::move(vec[i]));
+
+			vec.clear();
 		}
 	}
 
@@ -773,6 +775,8 @@ namespace Nz
 		for (size_type i = 0; i < vec.size(); ++i)
 			push_back(std::move(vec[i]));
 
+		vec.clear();
+
 		return *this;
 	}
 
-- 
2.43.0


From 97fa24f858e92107d9f3ac9af940d37fd732cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 10/52] fix: HybridVector arguments may refer to its own
 elements when switching to the fallback storage

---
 include/NazaraUtils/FixedVector.hpp |  1 -
 include/NazaraUtils/FixedVector.inl | 67 ++++++++++-------------------
 2 files changed, 22 insertions(+), 46 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index e9b0d63..4f0c836 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -122,7 +122,6 @@ namespace Nz
 			constexpr FixedVector(const Base& base, std::size_t size);
 			constexpr FixedVector(Base&& base, std::size_t size) noexcept;
 
-			constexpr bool CheckFallbackOnGrow();
 			constexpr bool IsUsingFallback() const;
 			constexpr void MoveStorageToFallback(std::size_t capacity);
 
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 453137c..be76110 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -393,7 +393,15 @@ namespace Nz
 
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (!IsUsingFallback() && m_size >= Capacity)
+			{
+				// arguments may refer to an element which is about to be moved
+				T value(std::forward<Args>(args)...);
+				MoveStorageToFallback(m_size + 1);
+				return Base::EmplaceInFallback(index, std::move(value));
+			}
+
+			if (IsUsingFallback())
 				return Base::EmplaceInFallback(index, std::forward<Args>(args)...);
 		}
 
@@ -425,7 +433,15 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (!IsUsingFallback() && m_size >= Capacity)
+			{
+				// arguments may refer to an element which is about to be moved
+				T value(std::forward<Args>(args)...);
+				MoveStorageToFallback(m_size + 1);
+				return *Base::EmplaceBackInFallback(std::move(value));
+			}
+
+			if (IsUsingFallback())
 				return *Base::EmplaceBackInFallback(std::forward<Args>(args)...);
 		}
 
@@ -545,33 +561,13 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(std::is_void<Fallback>::value && std::is_nothrow_copy_constructible<T>::value) -> reference
 	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
-		}
-
-		NazaraAssert(m_size < Capacity);
-		T* element = PlacementNew(data(m_size), value);
-		m_size++;
-
-		return *element;
+		return emplace_back(value);
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(std::is_void<Fallback>::value && std::is_nothrow_move_constructible<T>::value) -> reference
 	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(std::move(value));
-		}
-
-		NazaraAssert(m_size < Capacity);
-		T* element = PlacementNew(data(m_size), std::move(value));
-		m_size++;
-
-		return *element;
+		return emplace_back(std::move(value));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -635,8 +631,9 @@ namespace Nz
 			}
 			else if (count > Capacity)
 			{
+				value_type copy(value); // may refer to an element which is about to be moved
 				MoveStorageToFallback(count);
-				Base::ResizeFallback(count, value);
+				Base::ResizeFallback(count, copy);
 				return;
 			}
 		}
@@ -780,26 +777,6 @@ namespace Nz
 		return *this;
 	}
 
-	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr bool FixedVector<T, Capacity, Fallback>::CheckFallbackOnGrow()
-	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (IsUsingFallback())
-				return true;
-
-			if (m_size >= Capacity)
-			{
-				MoveStorageToFallback(m_size + 1);
-				return true;
-			}
-			else
-				return false;
-		}
-		else
-			return false;
-	}
-
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr bool FixedVector<T, Capacity, Fallback>::IsUsingFallback() const
 	{
-- 
2.43.0


From 4e621f09e1eac86fc7879fd5106267bf3e4da331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 11/52] fix: StackVector must stay valid when constructing or
 moving an element throws

---
 include/NazaraUtils/StackVector.inl | 49 ++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 48b3502..b854d67 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -123,19 +123,25 @@ namespace Nz
 		assert(pos >= begin() && pos <= end());
 
 		std::size_t index = std::distance(cbegin(), pos);
-		if (pos < end())
+		if (index < m_size)
 		{
-			iterator lastElement = end() - 1;
-			PlacementNew(&m_ptr[m_size], std::move(*lastElement));
+			// build the new element first, it may throw or refer to an element of this vector
+			T value(std::forward<Args>(args)...);
 
-			if (&m_ptr[index] < lastElement)
-				std::move_backward(&m_ptr[index], &m_ptr[m_size - 1], &m_ptr[m_size]);
+			iterator lastElement = &m_ptr[m_size - 1];
+			PlacementNew(&m_ptr[m_size], std::move(*lastElement));
+			m_size++;
 
-			PlacementDestroy(&m_ptr[index]);
+			std::move_backward(&m_ptr[index], lastElement, lastElement + 1);
+			m_ptr[index] = std::move(value);
+		}
+		else
+		{
+			PlacementNew(&m_ptr[m_size], std::forward<Args>(args)...);
+			m_size++;
 		}
-		m_size++;
 
-		return PlacementNew(&m_ptr[index], std::forward<Args>(args)...);
+		return iterator(&m_ptr[index]);
 	}
 
 	template<typename T>
@@ -143,7 +149,10 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::emplace_back(Args&&... args)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::forward<Args>(args)...);
+		T* element = PlacementNew(&m_ptr[m_size], std::forward<Args>(args)...);
+		m_size++; // only count the element once it has been constructed
+
+		return *element;
 	}
 
 	template<typename T>
@@ -230,14 +239,20 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], value);
+		T* element = PlacementNew(&m_ptr[m_size], value);
+		m_size++; // only count the element once it has been constructed
+
+		return *element;
 	}
 
 	template<typename T>
 	typename StackVector<T>::reference StackVector<T>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::move(value));
+		T* element = PlacementNew(&m_ptr[m_size], std::move(value));
+		m_size++; // only count the element once it has been constructed
+
+		return *element;
 	}
 
 	template<typename T>
@@ -253,10 +268,8 @@ namespace Nz
 		assert(count <= m_capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(&m_ptr[i]);
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(&m_ptr[m_size]);
 		}
 		else if (count < m_size)
 		{
@@ -273,10 +286,8 @@ namespace Nz
 		assert(count <= m_capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(&m_ptr[i], value);
-
-			m_size = count;
+			for (; m_size < count; ++m_size)
+				PlacementNew(&m_ptr[m_size], value);
 		}
 		else if (count < m_size)
 		{
-- 
2.43.0


From d8369feabf21afc5d6a96a099de6a275d0e447b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 12/52] fix: moving a StackVector must transfer its size with
 its elements

---
 include/NazaraUtils/StackVector.hpp |  4 ++--
 include/NazaraUtils/StackVector.inl | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackVector.hpp b/include/NazaraUtils/StackVector.hpp
index 2bf14a7..02c3b40 100644
--- a/include/NazaraUtils/StackVector.hpp
+++ b/include/NazaraUtils/StackVector.hpp
@@ -41,7 +41,7 @@ namespace Nz
 			StackVector();
 			StackVector(T* stackMemory, std::size_t capacity);
 			StackVector(const StackVector&) = delete;
-			StackVector(StackVector&&) noexcept = default;
+			StackVector(StackVector&& vec) noexcept;
 			~StackVector();
 
 			reference back();
@@ -104,7 +104,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackVector& operator=(const StackVector&) = delete;
-			StackVector& operator=(StackVector&&) noexcept = default;
+			StackVector& operator=(StackVector&& vec) noexcept;
 
 		private:
 			std::size_t m_capacity;
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index b854d67..b628922 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -31,6 +31,14 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackVector<T>::StackVector(StackVector&& vec) noexcept :
+	m_capacity(std::exchange(vec.m_capacity, 0)),
+	m_size(std::exchange(vec.m_size, 0)),
+	m_ptr(std::move(vec.m_ptr))
+	{
+	}
+
 	template<typename T>
 	StackVector<T>::~StackVector()
 	{
@@ -341,4 +349,15 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackVector<T>& StackVector<T>::operator=(StackVector&& vec) noexcept
+	{
+		// exchange everything, vec is now responsible of our elements and storage
+		std::swap(m_capacity, vec.m_capacity);
+		std::swap(m_size, vec.m_size);
+		m_ptr = std::move(vec.m_ptr);
+
+		return *this;
+	}
 }
-- 
2.43.0


From ba5be7ef720f1d941e69bdd8487e83af4a0519d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 13/52] fix: StackArray must destroy its elements if
 constructing one of them throws

---
 include/NazaraUtils/StackArray.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index d3bd353..bef4b2c 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -24,11 +24,11 @@ namespace Nz
 
 	template<typename T>
 	StackArray<T>::StackArray(T* stackMemory, std::size_t size) :
-	m_size(size),
-	m_ptr(stackMemory)
+	StackArray(stackMemory, 0, NoInitTag{})
 	{
-		for (std::size_t i = 0; i < m_size; ++i)
-			PlacementNew(&m_ptr[i]);
+		// elements already constructed are destroyed by the destructor if one of them throws
+		for (; m_size < size; ++m_size)
+			PlacementNew(&m_ptr[m_size]);
 	}
 
 	template<typename T>
-- 
2.43.0


From 1151bbc5f9154b17e32440b0d3fb2a867e47ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 14/52] fix: moving a StackArray must transfer its size with
 its elements

---
 include/NazaraUtils/StackArray.hpp |  4 ++--
 include/NazaraUtils/StackArray.inl | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackArray.hpp b/include/NazaraUtils/StackArray.hpp
index 3654a89..d7add20 100644
--- a/include/NazaraUtils/StackArray.hpp
+++ b/include/NazaraUtils/StackArray.hpp
@@ -45,7 +45,7 @@ namespace Nz
 			StackArray(T* stackMemory, std::size_t size);
 			StackArray(T* stackMemory, std::size_t size, NoInitTag);
 			StackArray(const StackArray&) = delete;
-			StackArray(StackArray&&) = default;
+			StackArray(StackArray&& array) noexcept;
 			~StackArray();
 
 			reference back();
@@ -86,7 +86,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackArray& operator=(const StackArray&) = delete;
-			StackArray& operator=(StackArray&&) = default;
+			StackArray& operator=(StackArray&& array) noexcept;
 
 		private:
 			std::size_t m_size;
diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index bef4b2c..b788cbe 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -38,6 +38,13 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackArray<T>::StackArray(StackArray&& array) noexcept :
+	m_size(std::exchange(array.m_size, 0)),
+	m_ptr(std::move(array.m_ptr))
+	{
+	}
+
 	template<typename T>
 	StackArray<T>::~StackArray()
 	{
@@ -196,4 +203,14 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackArray<T>& StackArray<T>::operator=(StackArray&& array) noexcept
+	{
+		// exchange everything, array is now responsible of our elements and storage
+		std::swap(m_size, array.m_size);
+		m_ptr = std::move(array.m_ptr);
+
+		return *this;
+	}
 }
-- 
2.43.0


From 64e282a176d8e9ebf829e1f337fe60f0f3352859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 15/52] fix: Bitset ordering must compare the numbers the
 bitsets represent

---
 include/NazaraUtils/Bitset.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 66a8c7a..25ba235 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1536,9 +1536,9 @@ namespace Nz
 		std::size_t minBlockCount = lesser.GetBlockCount();
 
 		// If the greatest bitset has a single bit active in a block outside the lesser bitset range, then it is greater
-		for (std::size_t i = maxBlockCount; i > minBlockCount; ++i)
+		for (std::size_t i = maxBlockCount; i > minBlockCount; --i)
 		{
-			if (greater.GetBlock(i))
+			if (greater.GetBlock(i - 1))
 				return lhs.GetBlockCount() < rhs.GetBlockCount();
 		}
 
@@ -1546,8 +1546,8 @@ namespace Nz
 		for (std::size_t i = 0; i < minBlockCount; ++i)
 		{
 			std::size_t index = (minBlockCount - i - 1); // Compare from the most significant block to the less significant block
-			if (lhs.GetBlock(index) < rhs.GetBlock(index))
-				return true;
+			if (lhs.GetBlock(index) != rhs.GetBlock(index))
+				return lhs.GetBlock(index) < rhs.GetBlock(index);
 		}
 
 		return false; // They are equal
-- 
2.43.0


From 69331716d8173199cfd9af78335d26d15dc1b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 16/52] fix: Bitset::BitIterator post-increment must advance
 the iterator

---
 include/NazaraUtils/Bitset.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 25ba235..1cea9f0 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1434,7 +1434,7 @@ namespace Nz
 	constexpr auto Bitset<Block, Container>::BitIterator::operator++(int) -> BitIterator
 	{
 		BitIterator copy(*this);
-		++copy;
+		++(*this);
 		return copy;
 	}
 
-- 
2.43.0


From 9f824401224e7213d06150f4de11391a3b1b2271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 17/52] fix: Bitset::AppendBits must only append the requested
 bits and support failing allocations

---
 include/NazaraUtils/Bitset.inl | 36 +++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 1cea9f0..6fef75b 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -155,39 +155,31 @@ namespace Nz
 	template<typename T>
 	constexpr void Bitset<Block, Container>::AppendBits(T bits, std::size_t bitCount)
 	{
-		std::size_t bitShift = m_bitCount % bitsPerBlock;
+		std::size_t bitShift = GetBitIndex(m_bitCount);
+		std::size_t blockIndex = GetBlockIndex(m_bitCount);
+
+		m_blocks.resize(ComputeBlockCount(m_bitCount + bitCount), Block(0));
 		m_bitCount += bitCount;
 
 		if (bitShift != 0)
 		{
 			std::size_t remainingBits = bitsPerBlock - bitShift;
-			m_blocks.back() |= Block(bits) << bitShift;
+			m_blocks[blockIndex++] |= Block(bits) << bitShift;
 			bits = (remainingBits < BitCount<T>) ? bits >> remainingBits : T(0);
-
-			bitCount -= std::min(remainingBits, bitCount);
 		}
 
-		if (bitCount > 0)
+		for (; blockIndex < m_blocks.size(); ++blockIndex)
 		{
-			std::size_t blockCount = ComputeBlockCount(bitCount);
-			for (std::size_t block = 0; block < blockCount - 1; ++block)
-			{
-				m_blocks.push_back(static_cast<Block>(bits));
-
-				if constexpr (bitsPerBlock < BitCount<T>)
-					bits >>= bitsPerBlock;
-				else
-					bits = 0;
+			m_blocks[blockIndex] = static_cast<Block>(bits);
 
-				bitCount -= bitsPerBlock;
-			}
-
-			// For the last iteration, mask out the bits we don't want
-			std::size_t remainingBits = bitCount;
-
-			bits &= ((Block(1U) << remainingBits) - 1U);
-			m_blocks.push_back(static_cast<Block>(bits));
+			if constexpr (bitsPerBlock < BitCount<T>)
+				bits >>= bitsPerBlock;
+			else
+				bits = 0;
 		}
+
+		// Mask out the bits we don't want
+		ResetExtraBits();
 	}
 
 	/*!
-- 
2.43.0


From 7f4d314eeefa79a95310c51d95bd72002edba940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 18/52] fix: Bitset::Write of zero bits must not advance in the
 sequence

---
 include/NazaraUtils/Bitset.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 6fef75b..71621b3 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -360,10 +360,13 @@ namespace Nz
 		NazaraAssertMsg(sequence.first, "invalid pointer sequence");
 		NazaraAssertMsg(sequence.second < 8, "invalid next bit index (must be < 8)");
 
+		if (bitCount == 0)
+			return sequence;
+
 		std::size_t totalBitCount = sequence.second + bitCount;
 
 		const UInt8* u8Ptr = static_cast<const UInt8*>(sequence.first);
-		const UInt8* endPtr = u8Ptr + ((totalBitCount != 0) ? (totalBitCount - 1) / 8 : 0);
+		const UInt8* endPtr = u8Ptr + (totalBitCount - 1) / 8;
 		const UInt8* nextPtr = endPtr + ((totalBitCount % 8 != 0) ? 0 : 1);
 
 		// Read the first block apart to apply a mask on the first byte if necessary
-- 
2.43.0


From b58a193727bd050330cd56e3324b2c93cc99f95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 19/52] fix: a moved-from Bitset must be empty

---
 include/NazaraUtils/Bitset.hpp |  4 ++--
 include/NazaraUtils/Bitset.inl | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Bitset.hpp b/include/NazaraUtils/Bitset.hpp
index d547ffd..ccffcbb 100644
--- a/include/NazaraUtils/Bitset.hpp
+++ b/include/NazaraUtils/Bitset.hpp
@@ -38,7 +38,7 @@ namespace Nz
 			constexpr explicit Bitset(const std::string_view& bits);
 			constexpr explicit Bitset(const std::string& bits);
 			template<typename T> constexpr Bitset(T value);
-			constexpr Bitset(Bitset&& bitset) noexcept = default;
+			constexpr Bitset(Bitset&& bitset) noexcept;
 			~Bitset() noexcept = default;
 
 			template<typename T> constexpr void AppendBits(T bits, std::size_t bitCount);
@@ -104,7 +104,7 @@ namespace Nz
 			constexpr Bitset& operator=(const Bitset& bitset) = default;
 			constexpr Bitset& operator=(const std::string_view& bits);
 			template<typename T> constexpr Bitset& operator=(T value);
-			constexpr Bitset& operator=(Bitset&& bitset) noexcept = default;
+			constexpr Bitset& operator=(Bitset&& bitset) noexcept;
 
 			constexpr Bitset operator<<(std::size_t pos) const;
 			constexpr Bitset& operator<<=(std::size_t pos);
diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 71621b3..9c0e66c 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -137,6 +137,19 @@ namespace Nz
 		}
 	}
 
+	/*!
+	* \brief Constructs a Bitset object by moving another one, which is left empty
+	*
+	* \param bitset Bitset to move
+	*/
+	template<typename Block, typename Container>
+	constexpr Bitset<Block, Container>::Bitset(Bitset&& bitset) noexcept :
+	m_blocks(std::move(bitset.m_blocks)),
+	m_bitCount(bitset.m_bitCount)
+	{
+		bitset.Clear();
+	}
+
 	/*!
 	* \brief Appends bits to the bitset
 	*
@@ -997,6 +1010,25 @@ namespace Nz
 		return *this;
 	}
 
+	/*!
+	* \brief Moves another bitset into this one, leaving it empty
+	* \return A reference to this
+	*
+	* \param bitset Bitset to move
+	*/
+	template<typename Block, typename Container>
+	constexpr Bitset<Block, Container>& Bitset<Block, Container>::operator=(Bitset&& bitset) noexcept
+	{
+		if (this == &bitset)
+			return *this;
+
+		m_blocks = std::move(bitset.m_blocks);
+		m_bitCount = bitset.m_bitCount;
+		bitset.Clear();
+
+		return *this;
+	}
+
 	/*!
 	* \brief Shift all the bits toward the left
 	*
-- 
2.43.0


From 206e69d4f8fbe4c52215f45c5a470ee0f3e58571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 20/52] fix: assigning a moved Connection to a ConnectionGuard
 must compile

---
 include/NazaraUtils/Signal.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index f5803ee..0d6a161 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -451,7 +451,7 @@ namespace Nz
 	template<typename... Args>
 	typename Signal<Args...>::ConnectionGuard& Signal<Args...>::ConnectionGuard::operator=(Connection&& connection)
 	{
-		if (&connection != this)
+		if (&connection != &m_connection)
 		{
 			m_connection.Disconnect();
 			m_connection = std::move(connection);
-- 
2.43.0


From 8a4b90cc9ae81c22a4071fd2e111240ac6f4b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 21/52] fix: Signal emission must call every connected slot
 once when slots emit, connect or disconnect

---
 include/NazaraUtils/Signal.hpp | 31 ++++++++++++++-
 include/NazaraUtils/Signal.inl | 69 ++++++++++++++++++----------------
 2 files changed, 66 insertions(+), 34 deletions(-)

diff --git a/include/NazaraUtils/Signal.hpp b/include/NazaraUtils/Signal.hpp
index 139dde5..70edd9f 100644
--- a/include/NazaraUtils/Signal.hpp
+++ b/include/NazaraUtils/Signal.hpp
@@ -9,6 +9,7 @@
 
 #include <NazaraUtils/FixedVector.hpp>
 #include <functional>
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -70,10 +71,38 @@ namespace Nz
 				SlotListIndex index;
 			};
 
+			// An emission in progress, emissions of the same signal can be nested
+			struct Emission
+			{
+				Emission(const Signal& signal) :
+				m_signal(signal),
+				nextSlot(0),
+				previous(signal.m_emission)
+				{
+					m_signal.m_emission = this;
+				}
+
+				Emission(const Emission&) = delete;
+				Emission(Emission&&) = delete;
+
+				~Emission()
+				{
+					m_signal.m_emission = previous;
+				}
+
+				Emission& operator=(const Emission&) = delete;
+				Emission& operator=(Emission&&) = delete;
+
+				const Signal& m_signal;
+				SlotListIndex nextSlot;
+				Emission* previous;
+			};
+
 			void Disconnect(const SlotPtr& slot) noexcept;
+			void StopEmissions() noexcept;
 
 			SlotList m_slots;
-			mutable SlotListIndex m_slotIterator;
+			mutable Emission* m_emission;
 	};
 
 	template<typename... Args>
diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 0d6a161..b4d6e70 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -18,7 +18,7 @@ namespace Nz
 	*/
 	template<typename... Args>
 	Signal<Args...>::Signal() :
-	m_slotIterator(0)
+	m_emission(nullptr)
 	{
 	}
 
@@ -40,7 +40,8 @@ namespace Nz
 	*/
 
 	template<typename... Args>
-	Signal<Args...>::Signal(Signal&& signal) noexcept
+	Signal<Args...>::Signal(Signal&& signal) noexcept :
+	Signal()
 	{
 		operator=(std::move(signal));
 	}
@@ -53,7 +54,7 @@ namespace Nz
 	void Signal<Args...>::Clear()
 	{
 		m_slots.clear();
-		m_slotIterator = 0;
+		StopEmissions();
 	}
 
 	/*!
@@ -81,19 +82,12 @@ namespace Nz
 	{
 		assert((func) &&  "Invalid function");
 
-		// Since we're incrementing the slot vector size, we need to replace our iterator at the end
-		// (Except when we are iterating on the signal)
-		bool resetIt = (m_slotIterator >= m_slots.size());
-
 		auto tempPtr = std::make_shared<Slot>(this);
 		tempPtr->callback = std::move(func);
 		tempPtr->index = m_slots.size();
 
 		m_slots.emplace_back(std::move(tempPtr));
 
-		if (resetIt)
-			m_slotIterator = m_slots.size(); //< Replace the iterator to the end
-
 		return Connection(m_slots.back());
 	}
 
@@ -178,8 +172,9 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::operator()(Args... args) const
 	{
-		for (m_slotIterator = 0; m_slotIterator < m_slots.size(); ++m_slotIterator)
-			m_slots[m_slotIterator]->callback(args...);
+		Emission emission(*this);
+		while (emission.nextSlot < m_slots.size())
+			m_slots[emission.nextSlot++]->callback(args...);
 	}
 
 	/*!
@@ -204,7 +199,7 @@ namespace Nz
 	Signal<Args...>& Signal<Args...>::operator=(Signal&& signal) noexcept
 	{
 		m_slots = std::move(signal.m_slots);
-		m_slotIterator = signal.m_slotIterator;
+		StopEmissions();
 
 		// We need to update the signal pointer inside of each slot
 		for (SlotPtr& slot : m_slots)
@@ -230,34 +225,42 @@ namespace Nz
 		assert((slot->index < m_slots.size()) &&  "Invalid slot index");
 		assert((slot->signal == this) &&  "Slot is not attached to this signal");
 
-		// "Swap this slot with the last one and pop" idiom
-		// This will preserve slot indexes
+		SlotListIndex index = slot->index;
 
-		// Can we safely "remove" this slot?
-		if (m_slotIterator >= (m_slots.size() - 1) || slot->index > m_slotIterator)
+		// Can we safely reorder slots?
+		if (!m_emission)
 		{
-			// Yes we can
-			SlotPtr& newSlot = m_slots[slot->index];
+			// Yes we can, use the "swap this slot with the last one and pop" idiom
+			SlotPtr& newSlot = m_slots[index];
 			newSlot = std::move(m_slots.back());
-			newSlot->index = slot->index; //< Update the moved slot index before resizing (in case it's the last one)
+			newSlot->index = index; //< Update the moved slot index before resizing (in case it's the last one)
+
+			m_slots.pop_back();
 		}
 		else
 		{
-			// Nope, let's be tricky
-			SlotPtr& current = m_slots[m_slotIterator];
-			SlotPtr& newSlot = m_slots[slot->index];
-
-			newSlot = std::move(current);
-			newSlot->index = slot->index; //< Update the moved slot index
-
-			current = std::move(m_slots.back());
-			current->index = m_slotIterator; //< Update the moved slot index
-
-			--m_slotIterator;
+			// Nope, every emission in progress has to find the slots it didn't call yet
+			m_slots.erase(m_slots.begin() + index);
+			for (SlotListIndex i = index; i < m_slots.size(); ++i)
+				m_slots[i]->index = i;
+
+			for (Emission* emission = m_emission; emission; emission = emission->previous)
+			{
+				if (emission->nextSlot > index)
+					emission->nextSlot--;
+			}
 		}
+	}
+
+	/*!
+	* \brief Prevents emissions in progress from calling any other slot
+	*/
 
-		// Pop the last entry (from where we moved our slot)
-		m_slots.pop_back();
+	template<typename... Args>
+	void Signal<Args...>::StopEmissions() noexcept
+	{
+		for (Emission* emission = m_emission; emission; emission = emission->previous)
+			emission->nextSlot = std::numeric_limits<SlotListIndex>::max();
 	}
 
 	/*!
-- 
2.43.0


From 2e89c4025f416a11e1e46fec9e20ae41289100aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 22/52] fix: Signal must keep a running callback alive and
 report it as disconnected once it is

---
 include/NazaraUtils/Signal.inl | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index b4d6e70..78f2b10 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -53,6 +53,9 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::Clear()
 	{
+		for (SlotPtr& slot : m_slots)
+			slot->signal = nullptr; //< The slot may outlive its disconnection (if its callback is running)
+
 		m_slots.clear();
 		StopEmissions();
 	}
@@ -174,7 +177,10 @@ namespace Nz
 	{
 		Emission emission(*this);
 		while (emission.nextSlot < m_slots.size())
-			m_slots[emission.nextSlot++]->callback(args...);
+		{
+			SlotPtr slot = m_slots[emission.nextSlot++]; //< Keeps the callback alive if it gets disconnected while running
+			slot->callback(args...);
+		}
 	}
 
 	/*!
@@ -226,6 +232,7 @@ namespace Nz
 		assert((slot->signal == this) &&  "Slot is not attached to this signal");
 
 		SlotListIndex index = slot->index;
+		slot->signal = nullptr; //< The slot may outlive its disconnection (if its callback is running)
 
 		// Can we safely reorder slots?
 		if (!m_emission)
@@ -313,7 +320,7 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::Connection::Disconnect() noexcept
 	{
-		if (SlotPtr ptr = m_ptr.lock())
+		if (SlotPtr ptr = m_ptr.lock(); ptr && ptr->signal)
 			ptr->signal->Disconnect(ptr);
 	}
 
@@ -325,7 +332,8 @@ namespace Nz
 	template<typename... Args>
 	bool Signal<Args...>::Connection::IsConnected() const
 	{
-		return !m_ptr.expired();
+		SlotPtr ptr = m_ptr.lock();
+		return ptr && ptr->signal;
 	}
 
 	/*!
-- 
2.43.0


From 8a97f9b8f74ac33fb4255dda5306a7d736f1f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 23/52] fix: Result<void, E> must not move an error given as an
 lvalue

---
 include/NazaraUtils/Result.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 92dae39..1558b21 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -278,7 +278,7 @@ namespace Nz
 	template<typename E>
 	template<typename T>
 	constexpr Result<void, E>::Result(ResultError<T> error) :
-	m_error(std::move(error.value))
+	m_error(std::forward<T>(error.value))
 	{
 	}
 
-- 
2.43.0


From 6dbab293a09270390e88b156894435f27a0cb0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 24/52] fix: Result::Map must not be noexcept when storing the
 mapped value or the error can throw

---
 include/NazaraUtils/Result.hpp | 13 +++++++++----
 include/NazaraUtils/Result.inl |  8 ++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/NazaraUtils/Result.hpp b/include/NazaraUtils/Result.hpp
index 44b14f8..216d04c 100644
--- a/include/NazaraUtils/Result.hpp
+++ b/include/NazaraUtils/Result.hpp
@@ -50,6 +50,11 @@ namespace Nz
 	};
 
 
+	namespace Detail
+	{
+		template<typename V> inline constexpr bool IsNothrowResultValue = std::is_void_v<V> || std::is_nothrow_move_constructible_v<V>;
+	}
+
 	constexpr ResultValue<void> Ok();
 	template<typename V> constexpr auto Ok(V&& value);
 	template<typename E> constexpr auto Err(E&& err);
@@ -92,8 +97,8 @@ namespace Nz
 			constexpr bool IsErr() const noexcept;
 			constexpr bool IsOk() const noexcept;
 
-			template<typename F> Result<std::invoke_result_t<F, const V&>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&>);
-			template<typename F> Result<std::invoke_result_t<F, V&&>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&>);
+			template<typename F> Result<std::invoke_result_t<F, const V&>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&> && Detail::IsNothrowResultValue<std::invoke_result_t<F, const V&>> && std::is_nothrow_copy_constructible_v<E>);
+			template<typename F> Result<std::invoke_result_t<F, V&&>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&> && Detail::IsNothrowResultValue<std::invoke_result_t<F, V&&>> && std::is_nothrow_move_constructible_v<E>);
 
 			constexpr explicit operator bool() const noexcept;
 
@@ -146,8 +151,8 @@ namespace Nz
 			constexpr bool IsErr() const noexcept;
 			constexpr bool IsOk() const noexcept;
 
-			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F>);
-			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F>);
+			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F> && Detail::IsNothrowResultValue<std::invoke_result_t<F>> && std::is_nothrow_copy_constructible_v<E>);
+			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F> && Detail::IsNothrowResultValue<std::invoke_result_t<F>> && std::is_nothrow_move_constructible_v<E>);
 
 			constexpr explicit operator bool() const noexcept;
 
diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 1558b21..20457bf 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -179,7 +179,7 @@ namespace Nz
 
 	template<typename V, typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F, const V&>, E> Result<V, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&>)
+	constexpr Result<std::invoke_result_t<F, const V&>, E> Result<V, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&> && Detail::IsNothrowResultValue<std::invoke_result_t<F, const V&>> && std::is_nothrow_copy_constructible_v<E>)
 	{
 		using MappedVal = std::invoke_result_t<F, const V&>;
 		using MappedResult = Result<MappedVal, E>;
@@ -200,7 +200,7 @@ namespace Nz
 
 	template<typename V, typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F, V&&>, E> Result<V, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&>)
+	constexpr Result<std::invoke_result_t<F, V&&>, E> Result<V, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&> && Detail::IsNothrowResultValue<std::invoke_result_t<F, V&&>> && std::is_nothrow_move_constructible_v<E>)
 	{
 		using MappedVal = std::invoke_result_t<F, V&&>;
 		using MappedResult = Result<MappedVal, E>;
@@ -359,7 +359,7 @@ namespace Nz
 	
 	template<typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F>)
+	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F> && Detail::IsNothrowResultValue<std::invoke_result_t<F>> && std::is_nothrow_copy_constructible_v<E>)
 	{
 		using MappedVal = std::invoke_result_t<F>;
 		using MappedResult = Result<MappedVal, E>;
@@ -380,7 +380,7 @@ namespace Nz
 
 	template<typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F>)
+	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F> && Detail::IsNothrowResultValue<std::invoke_result_t<F>> && std::is_nothrow_move_constructible_v<E>)
 	{
 		using MappedVal = std::invoke_result_t<F>;
 		using MappedResult = Result<MappedVal, E>;
-- 
2.43.0


From d31e202901d2d0923ed13cb259f13cf96ace05c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 25/52] fix: Result<void, E> built with ErrorTag must hold an
 error whatever its arguments are

---
 include/NazaraUtils/Result.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 20457bf..07acdde 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -290,7 +290,7 @@ namespace Nz
 	template<typename E>
 	template<typename... Args>
 	constexpr Result<void, E>::Result(ErrorTag, Args&&... args) :
-	m_error(std::forward<Args>(args)...)
+	m_error(std::in_place, std::forward<Args>(args)...)
 	{
 	}
 
-- 
2.43.0


From 05789f8cfdc60f247b6f3d261733e801bbe522cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 26/52] fix: CallOnExit must not call or destroy its function
 again when it throws or is used from the function

---
 include/NazaraUtils/CallOnExit.inl | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index f8f60a3..ecf8dbd 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -27,8 +27,7 @@ namespace Nz
 	template<typename F>
 	CallOnExit<F>::~CallOnExit()
 	{
-		if (m_functor)
-			(*m_functor)();
+		CallAndReset();
 	}
 
 	/*!
@@ -39,10 +38,14 @@ namespace Nz
 	template<typename F>
 	void CallOnExit<F>::CallAndReset()
 	{
-		if (m_functor)
-			(*m_functor)();
+		if (!m_functor)
+			return;
 
+		// Forget the function before calling it, it must not be called again (nor destroyed) if it throws or uses this object
+		F functor(std::move(*m_functor));
 		m_functor.reset();
+
+		functor();
 	}
 
 	/*!
-- 
2.43.0


From 742cfafd98e2642445ed4283aff4ca529bc20b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 27/52] fix: a CallOnExit moved into another one must not call
 its function anymore

---
 include/NazaraUtils/CallOnExit.hpp |  2 +-
 include/NazaraUtils/CallOnExit.inl | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/CallOnExit.hpp b/include/NazaraUtils/CallOnExit.hpp
index d35a314..aed3e51 100644
--- a/include/NazaraUtils/CallOnExit.hpp
+++ b/include/NazaraUtils/CallOnExit.hpp
@@ -28,7 +28,7 @@ namespace Nz
 			void Reset();
 
 			CallOnExit& operator=(const CallOnExit&) = delete;
-			CallOnExit& operator=(CallOnExit&&) = default;
+			CallOnExit& operator=(CallOnExit&& callOnExit);
 
 		private:
 			std::optional<F> m_functor;
diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index ecf8dbd..b58f182 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -58,5 +58,27 @@ namespace Nz
 	{
 		m_functor.reset();
 	}
+
+	/*!
+	* \brief Moves the function of another CallOnExit object into this one (dropping the current function)
+	* \return A reference to this
+	*
+	* \param callOnExit The object to move the function from, which won't call it anymore
+	*/
+	template<typename F>
+	CallOnExit<F>& CallOnExit<F>::operator=(CallOnExit&& callOnExit)
+	{
+		if (this == &callOnExit)
+			return *this;
+
+		m_functor.reset();
+		if (callOnExit.m_functor)
+		{
+			m_functor.emplace(std::move(*callOnExit.m_functor));
+			callOnExit.m_functor.reset();
+		}
+
+		return *this;
+	}
 }
 
-- 
2.43.0


From 5a225e43481f7535dda0c1d47b16e125a084fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:09 +0000
Subject: [PATCH 28/52] fix: copy assignment of an in-place PrivateImpl must
 handle itself and failing copies

---
 include/NazaraUtils/PrivateImpl.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 849645c..e8f4066 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -91,8 +91,14 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(const PrivateImpl& pimpl) -> PrivateImpl&
 	{
-		PlacementDestroy(Get());
-		PlacementNew(Get(), *pimpl.Get());
+		if (this == &pimpl)
+			return *this;
+
+		// Don't destroy our object before having its replacement, as copying can throw
+		if constexpr (std::is_copy_assignable_v<T>)
+			*Get() = *pimpl.Get();
+		else
+			*this = PrivateImpl(pimpl);
 
 		return *this;
 	}
-- 
2.43.0


From 77b7248776dcdda7c4a66c91f403593afb767088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 29/52] fix: moving an in-place PrivateImpl into itself must
 keep its object

---
 include/NazaraUtils/PrivateImpl.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index e8f4066..bc1c72c 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -106,6 +106,9 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(PrivateImpl&& pimpl) noexcept -> PrivateImpl&
 	{
+		if (this == &pimpl)
+			return *this;
+
 		PlacementDestroy(Get());
 		PlacementNew(Get(), std::move(*pimpl.Get()));
 
-- 
2.43.0


From 524c4de98f39cbebe01dbf38236c5f4fb65f5238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 30/52] fix: copying an empty PrivateImpl must give an empty
 PrivateImpl

---
 include/NazaraUtils/PrivateImpl.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index bc1c72c..2181cb1 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -140,7 +140,8 @@ namespace Nz
 	PrivateImpl<T, 0, Alignment>::PrivateImpl(const PrivateImpl& pimpl)
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy constructor has to be called in the source file");
-		m_ptr = new T(*pimpl);
+		if (pimpl.m_ptr)
+			m_ptr = new T(*pimpl);
 	}
 
 	template<typename T, std::size_t Alignment>
@@ -234,6 +235,12 @@ namespace Nz
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy assignation operator has to be called in the source file");
 
+		if (!pimpl.m_ptr)
+		{
+			Reset();
+			return *this;
+		}
+
 		if constexpr (std::is_copy_assignable_v<T>)
 		{
 			if (m_ptr)
-- 
2.43.0


From 35f29e31026f997d16d3b1d5efb053df31b82613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 31/52] fix: PrivateImpl copy assignment must not delete a
 non-assignable object before having its copy

---
 include/NazaraUtils/PrivateImpl.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 2181cb1..ea9a484 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -250,8 +250,10 @@ namespace Nz
 		}
 		else
 		{
+			// Make the copy before deleting our object, as copying can throw (and pimpl can be this object)
+			T* copy = new T(*pimpl);
 			delete m_ptr;
-			m_ptr = new T(*pimpl);
+			m_ptr = copy;
 		}
 
 		return *this;
-- 
2.43.0


From b892edf15a6b9b1c52f8c4e56844380142c7c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 32/52] fix: binding a FunctionRef to a const object must
 compile

---
 include/NazaraUtils/FunctionRef.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index 13bdb6f..e4d136f 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -18,7 +18,7 @@ namespace Nz
 	template<typename F, typename>
 	FunctionRef<Ret(Args...)>::FunctionRef(F&& f) noexcept
 	{
-		m_functor = reinterpret_cast<void*>(std::addressof(f));
+		m_functor = (void*)(std::addressof(f)); //< C cast: f can be a function or a const object (its type is given back in the callback)
 		m_callback = [](void* functor, Args... args) -> Ret
 		{
 			return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
-- 
2.43.0


From c3c9da6de3006efd9b75d03c15e0799d8e4f35c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 33/52] fix: a FunctionRef returning void must compile with a
 callable which returns something

---
 include/NazaraUtils/FunctionRef.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index e4d136f..c0a9674 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -21,7 +21,10 @@ namespace Nz
 		m_functor = (void*)(std::addressof(f)); //< C cast: f can be a function or a const object (its type is given back in the callback)
 		m_callback = [](void* functor, Args... args) -> Ret
 		{
-			return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
+			if constexpr (std::is_void_v<Ret>)
+				std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...); //< the callable may return something, which is ignored
+			else
+				return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
 		};
 	}
 	
-- 
2.43.0


From e952abb7cec644b190f15fb718b9d93633e2c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:30 +0000
Subject: [PATCH 34/52] fix: storing an lvalue in a MovableValue or
 MovableLiteral must not move from it

---
 include/NazaraUtils/MovableValue.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MovableValue.inl b/include/NazaraUtils/MovableValue.inl
index 1093929..c84ec2f 100644
--- a/include/NazaraUtils/MovableValue.inl
+++ b/include/NazaraUtils/MovableValue.inl
@@ -66,7 +66,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableLiteral<T, DefaultValue>& MovableLiteral<T, DefaultValue>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
@@ -132,7 +132,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableValue<T>& MovableValue<T>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
-- 
2.43.0


From 9b37d9cb0119e28df76a2dba07fdf78fd5f81c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 35/52] fix: SparsePtr iterators give a modifiable reference to
 std algorithms

---
 include/NazaraUtils/SparsePtr.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index e8d3d01..e06c82c 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -472,9 +472,9 @@ namespace std
 	{
 		using difference_type = ptrdiff_t;
 		using iterator_category = random_access_iterator_tag;
-		using reference = const T&;
-		using pointer = const T*;
-		using value_type = T;
+		using reference = T&;
+		using pointer = T*;
+		using value_type = remove_cv_t<T>;
 	};
 }
 
-- 
2.43.0


From 47a24fe65886be6d0ceca609b5ef8a45b1e29fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 36/52] fix: converting a SparsePtr to one on a base class
 adjusts the address

---
 include/NazaraUtils/SparsePtr.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index e06c82c..0bb61d1 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -165,7 +165,8 @@ namespace Nz
 	{
 		static_assert(std::is_convertible<U*, T*>::value, "Source type pointer cannot be implicitly converted to target type pointer");
 
-		SetPtr(static_cast<T*>(ptr.GetPtr()));
+		// Convert from the source type first, as a base class may not be at the same address
+		SetPtr(static_cast<T*>(static_cast<U*>(ptr.GetPtr())));
 		SetStride(ptr.GetStride());
 	}
 
-- 
2.43.0


From 000db35843cf1415dd4b1a1f20592e12e116a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 37/52] fix: SparsePtr offsets use signed arithmetic as wide as
 a pointer

---
 include/NazaraUtils/SparsePtr.inl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index 0bb61d1..357b4eb 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -251,7 +251,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "index must be an integral type");
 
-		return *reinterpret_cast<T*>(m_ptr + index * m_stride);
+		return *reinterpret_cast<T*>(m_ptr + static_cast<std::ptrdiff_t>(index) * m_stride);
 	}
 
 	/*!
@@ -267,7 +267,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr + count * m_stride, m_stride);
+		return SparsePtr(m_ptr + static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -283,7 +283,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr - count * m_stride, m_stride);
+		return SparsePtr(m_ptr - static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -312,7 +312,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr += count * m_stride;
+		m_ptr += static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
@@ -322,7 +322,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr -= count * m_stride;
+		m_ptr -= static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
-- 
2.43.0


From 57cb86339c6318c26d93e35ef748f643cf5414a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 38/52] fix: EnumArray key-value iterators could not be offset

---
 include/NazaraUtils/EnumArray.hpp | 4 ++--
 include/NazaraUtils/EnumArray.inl | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 387959c..6ae3c4e 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -76,8 +76,8 @@ namespace Nz
 			constexpr EnumArrayKvIterator operator--(int) noexcept;
 			constexpr EnumArrayKvIterator& operator--() noexcept;
 
-			constexpr EnumArrayKvIterator operator+(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
+			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
 
 			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
 			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index d7bad3e..db4df3a 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -96,15 +96,15 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index + n);
+		return EnumArrayKvIterator(kv_tag{ m_array }, m_index + n);
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index - n);
+		return EnumArrayKvIterator(kv_tag{ m_array }, m_index - n);
 	}
 
 	template<typename E, typename V, bool Const>
-- 
2.43.0


From 2305cec64e9829c8531c90ae7d31dda1cc0b181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 39/52] fix: EnumArray key-value iterators return themselves
 when advanced by an offset

---
 include/NazaraUtils/EnumArray.hpp | 4 ++--
 include/NazaraUtils/EnumArray.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 6ae3c4e..5dc73ac 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -79,8 +79,8 @@ namespace Nz
 			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
 			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
 
-			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator+=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator-=(difference_type n) noexcept;
 
 			constexpr value_type operator*() const noexcept;
 			constexpr value_type operator[](difference_type n) const noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index db4df3a..c9638f0 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -108,14 +108,14 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index += n;
 		return *this;
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index -= n;
 		return *this;
-- 
2.43.0


From 6bd1250e4e5e3034c2200ceb6e9b035a2894fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:54 +0000
Subject: [PATCH 40/52] fix: make FixedVector::reserve allocate when its
 fallback lost its memory

A vector which has been moved from while using its fallback keeps using
it, with no capacity left: reserve ignored counts up to Capacity there.
---
 include/NazaraUtils/FixedVector.inl | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index be76110..8b9066b 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -658,13 +658,11 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (count <= Capacity)
-				return;
-
-			if (!IsUsingFallback())
-				MoveStorageToFallback(count);
-			else
+			// a fallback which has been moved from may have less capacity than the fixed storage
+			if (IsUsingFallback())
 				Base::ReserveFallback(count);
+			else if (count > Capacity)
+				MoveStorageToFallback(count);
 		}
 		else
 		{
-- 
2.43.0


From 7c1485e2cba775e04570567fc25b5fbff91a84f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 41/52] fix: shift Flags bits in the type of the bit field

Enumerators from 32 on were shifted as 32-bit integers.
---
 include/NazaraUtils/Flags.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index 33632b0..7fb6e27 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -283,7 +283,7 @@ namespace Nz
 	constexpr auto Flags<E>::GetFlagValue(E enumValue) -> BitField
 	{
 		if constexpr (AutoFlag)
-			return 1U << static_cast<BitField>(enumValue);
+			return BitField(BitField(1) << static_cast<BitField>(enumValue));
 		else
 			return static_cast<BitField>(enumValue);
 	}
@@ -332,7 +332,7 @@ namespace Nz
 		if constexpr (AutoFlag)
 			return static_cast<T>(bitIndex - 1);
 		else
-			return static_cast<T>(1U << ((bitIndex) - 1));
+			return static_cast<T>(BitField(1) << ((bitIndex) - 1));
 	}
 
 	/*!
-- 
2.43.0


From 7789bd10cad0f5df4b2f2e72057f67c50ad78441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 42/52] fix: compute the mask of Flags over 64 enumerators

The shift by 64 made complements and exclusive ors fail to compile.
---
 include/NazaraUtils/Flags.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index a7b773a..3c70fb3 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -97,7 +97,7 @@ namespace Nz
 
 			static constexpr BitField GetFlagValue(E enumValue);
 
-			static constexpr BitField ValueMask = BitField((UInt64(1) << (MaxValue + 1)) - 1);
+			static constexpr BitField ValueMask = BitField(~UInt64(0) >> (63 - MaxValue));
 
 		private:
 			BitField m_value;
-- 
2.43.0


From 279b80838b721f18c48a8f0ffa1f35ad0e46bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 43/52] fix: make std::hash<Flags> callable on a const object

Unordered containers rejected Flags as keys.
---
 include/NazaraUtils/Flags.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index 7fb6e27..852075a 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -451,7 +451,7 @@ namespace std
 	template<typename E>
 	struct hash<Nz::Flags<E>>
 	{
-		std::size_t operator()(const Nz::Flags<E>& flags)
+		std::size_t operator()(const Nz::Flags<E>& flags) const
 		{
 			using UnderlyingType = typename Nz::Flags<E>::BitField;
 			using Hasher = hash<UnderlyingType>;
-- 
2.43.0


From 01661d024445207cff9c099b652dd84c1b7e9ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 44/52] fix: complete the iterator types of Flags iterators

Without pointer and reference std::iterator_traits is empty in C++17 and the standard algorithms and containers reject the iterators.
---
 include/NazaraUtils/Flags.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index 3c70fb3..da8a3f4 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -112,6 +112,8 @@ namespace Nz
 			using iterator_category = std::input_iterator_tag;
 			using value_type = T;
 			using difference_type = std::ptrdiff_t;
+			using pointer = void;
+			using reference = T;
 
 			iterator(const iterator&) = default;
 			iterator(iterator&&) = default;
-- 
2.43.0


From 42c558c77791a6fa3288ecc4113412c14d1786fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 45/52] fix: complete the iterator types of Bitset::BitIterator

std::iterator_traits was empty and the standard algorithms and containers rejected the iterators.
---
 include/NazaraUtils/Bitset.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/Bitset.hpp b/include/NazaraUtils/Bitset.hpp
index ccffcbb..e81d65c 100644
--- a/include/NazaraUtils/Bitset.hpp
+++ b/include/NazaraUtils/Bitset.hpp
@@ -193,6 +193,9 @@ namespace Nz
 		public:
 			using iterator_category = std::input_iterator_tag;
 			using value_type = std::size_t;
+			using difference_type = std::ptrdiff_t;
+			using pointer = void;
+			using reference = value_type;
 
 			constexpr BitIterator(const BitIterator&) = default;
 			constexpr BitIterator(BitIterator&&) noexcept = default;
-- 
2.43.0


From a784a6d4d23669a556f09775b2ab503a98ed5a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 46/52] fix: let the standard algorithms use EnumArray
 key-value iterators

They are declared random access but had no difference, and std::iterator_traits was empty in C++17.
---
 include/NazaraUtils/EnumArray.hpp | 3 +++
 include/NazaraUtils/EnumArray.inl | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 5dc73ac..de336dd 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -62,6 +62,8 @@ namespace Nz
 			using iterator_category = std::random_access_iterator_tag;
 			using value_type = std::pair<E, std::conditional_t<Const, const V&, V&>>;
 			using difference_type = typename Array::difference_type;
+			using pointer = void;
+			using reference = value_type;
 
 			constexpr EnumArrayKvIterator(kv_tag arrayTag, difference_type index);
 			EnumArrayKvIterator(const EnumArrayKvIterator&) = default;
@@ -78,6 +80,7 @@ namespace Nz
 
 			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
 			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
+			constexpr difference_type operator-(const EnumArrayKvIterator& rhs) const noexcept;
 
 			constexpr EnumArrayKvIterator& operator+=(difference_type n) noexcept;
 			constexpr EnumArrayKvIterator& operator-=(difference_type n) noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index c9638f0..979d091 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -107,6 +107,12 @@ namespace Nz
 		return EnumArrayKvIterator(kv_tag{ m_array }, m_index - n);
 	}
 
+	template<typename E, typename V, bool Const>
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(const EnumArrayKvIterator& rhs) const noexcept -> difference_type
+	{
+		return m_index - rhs.m_index;
+	}
+
 	template<typename E, typename V, bool Const>
 	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
-- 
2.43.0


From 02a441fd4ffee0b11c18fc5bcfe1b98a722bab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 47/52] fix: let assertions stand in the branches of an if

The assertion macros were a bare if: the else of the caller's if was bound to it in builds with assertions.
---
 include/NazaraUtils/Assert.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Assert.hpp b/include/NazaraUtils/Assert.hpp
index 23c3a10..f788308 100644
--- a/include/NazaraUtils/Assert.hpp
+++ b/include/NazaraUtils/Assert.hpp
@@ -11,8 +11,8 @@
 #include <NazaraUtils/ConstantEvaluated.hpp>
 
 #if !defined(NAZARA_NO_ASSERT) && (defined(NAZARA_ENABLE_ASSERTS) || !defined(NDEBUG))
-	#define NazaraAssert(cond) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond)
-	#define NazaraAssertMsg(cond, ...) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__)
+	#define NazaraAssert(cond) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond); } while (false)
+	#define NazaraAssertMsg(cond, ...) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__); } while (false)
 #else
 	#define NazaraAssert(...) do {} while (false)
 	#define NazaraAssertMsg(...) do {} while (false)
-- 
2.43.0


From 6b0533c796c6db43f411722118cb7fb97ac85e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 48/52] fix: check SafeCast on lvalues

From is deduced as a reference for them, which made every check be skipped (SafeCaster only passes lvalues).
---
 include/NazaraUtils/Algorithm.inl | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 7430b47..e478860 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -199,24 +199,27 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 	{
 #if defined(NAZARA_DEBUG) && !defined(NDEBUG)
 
+		// From is a reference when value is a lvalue
+		using FromType = std::remove_cv_t<std::remove_reference_t<From>>;
+
 		if constexpr (std::is_integral_v<To>)
 		{
-			if constexpr (std::is_enum_v<From>)
+			if constexpr (std::is_enum_v<FromType>)
 			{
-				return SafeCast<To>(static_cast<std::underlying_type_t<From>>(value));
+				return SafeCast<To>(static_cast<std::underlying_type_t<FromType>>(value));
 			}
-			else if constexpr (std::is_floating_point_v<From>)
+			else if constexpr (std::is_floating_point_v<FromType>)
 			{
 				NazaraAssert(static_cast<long long>(value) == value);
-				NazaraAssert(value <= static_cast<From>(std::numeric_limits<To>::max()));
-				NazaraAssert(value >= static_cast<From>(std::numeric_limits<To>::lowest()));
+				NazaraAssert(value <= static_cast<FromType>(std::numeric_limits<To>::max()));
+				NazaraAssert(value >= static_cast<FromType>(std::numeric_limits<To>::lowest()));
 			}
-			else if constexpr (std::is_integral_v<From>)
+			else if constexpr (std::is_integral_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<From> && std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
+				using MaxValueType = std::conditional_t<((!std::is_signed_v<FromType> && std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
 				// Type capable of storing the smallest value between the two types
-				using MinValueType = std::conditional_t<((std::is_signed_v<From> && !std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
+				using MinValueType = std::conditional_t<((std::is_signed_v<FromType> && !std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
 
 				if constexpr (!std::is_signed_v<To>)
 					NazaraAssert(value >= 0);
@@ -231,12 +234,12 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		}
 		else if constexpr (std::is_floating_point_v<To>)
 		{
-			if constexpr (std::is_floating_point_v<From>)
+			if constexpr (std::is_floating_point_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<(sizeof(From) > sizeof(To)), From, To>;
+				using MaxValueType = std::conditional_t<(sizeof(FromType) > sizeof(To)), FromType, To>;
 				// Type capable of storing the smallest value between the two types
-				using MinValueType = std::conditional_t<(sizeof(From) > sizeof(To)), From, To>;
+				using MinValueType = std::conditional_t<(sizeof(FromType) > sizeof(To)), FromType, To>;
 
 				NazaraAssert(static_cast<MaxValueType>(value) <= static_cast<MaxValueType>(std::numeric_limits<To>::max()));
 				NazaraAssert(static_cast<MinValueType>(value) >= static_cast<MinValueType>(std::numeric_limits<To>::lowest()));
@@ -258,7 +261,7 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		}
 		else if constexpr (std::is_pointer_v<To>)
 		{
-			if constexpr (std::is_pointer_v<From>)
+			if constexpr (std::is_pointer_v<FromType>)
 			{
 				using BaseFromType = std::remove_pointer_t<std::remove_cv_t<From>>;
 				using BaseToType = std::remove_pointer_t<std::remove_cv_t<To>>;
-- 
2.43.0


From 28ce4e3574a9cffe0f07ab4e102b5aceb7261210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 49/52] fix: check SafeCast from signed to narrower unsigned
 integers

The value was converted to the target type before being compared with its maximum.
---
 include/NazaraUtils/Algorithm.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index e478860..afad442 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -217,7 +217,7 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			else if constexpr (std::is_integral_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<FromType> && std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
+				using MaxValueType = std::conditional_t<(std::numeric_limits<FromType>::digits > std::numeric_limits<To>::digits), FromType, To>;
 				// Type capable of storing the smallest value between the two types
 				using MinValueType = std::conditional_t<((std::is_signed_v<FromType> && !std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
 
-- 
2.43.0


From 8f2eec2112faf4e896aeae6b3d9d330f6ce14659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 50/52] fix: check the bounds of SafeCast from floating points

Rounding the maximum let the power of two above it pass, and unsigned values above the maximum of long long were refused.
---
 include/NazaraUtils/Algorithm.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index afad442..aa497de 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -210,9 +210,10 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			}
 			else if constexpr (std::is_floating_point_v<FromType>)
 			{
-				NazaraAssert(static_cast<long long>(value) == value);
-				NazaraAssert(value <= static_cast<FromType>(std::numeric_limits<To>::max()));
+				// The maximum may not be representable in From but it's one below a power of two, which is
+				NazaraAssert(value < static_cast<FromType>(std::numeric_limits<To>::max() / 2 + 1) * 2);
 				NazaraAssert(value >= static_cast<FromType>(std::numeric_limits<To>::lowest()));
+				NazaraAssert(static_cast<FromType>(static_cast<To>(value)) == value);
 			}
 			else if constexpr (std::is_integral_v<FromType>)
 			{
-- 
2.43.0


From 18da5de3f74cb030b15a608aa079d8b7d03ad948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 51/52] fix: check SafeCast between polymorphic classes

The relation between the classes was tested on the pointer and reference types, which never have one.
---
 include/NazaraUtils/Algorithm.inl | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index aa497de..0b2884c 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -250,13 +250,15 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		{
 			if constexpr (std::is_reference_v<From>)
 			{
-				using BaseFromType = std::remove_reference_t<std::remove_cv_t<From>>;
-				using BaseToType = std::remove_reference_t<std::remove_cv_t<To>>;
+				using BaseToType = std::remove_cv_t<std::remove_reference_t<To>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
+				if constexpr (!std::is_same_v<FromType, BaseToType> && std::is_base_of_v<FromType, BaseToType>)
 				{
-					using ToPtr = std::add_pointer_t<std::remove_reference_t<To>>;
-					NazaraAssert(dynamic_cast<ToPtr>(&value) != nullptr);
+					if constexpr (std::is_polymorphic_v<FromType>)
+					{
+						using ToPtr = std::add_pointer_t<std::remove_reference_t<To>>;
+						NazaraAssert(dynamic_cast<ToPtr>(&value) != nullptr);
+					}
 				}
 			}
 		}
@@ -264,12 +266,13 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		{
 			if constexpr (std::is_pointer_v<FromType>)
 			{
-				using BaseFromType = std::remove_pointer_t<std::remove_cv_t<From>>;
-				using BaseToType = std::remove_pointer_t<std::remove_cv_t<To>>;
+				using BaseFromType = std::remove_cv_t<std::remove_pointer_t<FromType>>;
+				using BaseToType = std::remove_cv_t<std::remove_pointer_t<To>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
+				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<BaseFromType, BaseToType>)
 				{
-					NazaraAssert(!value || dynamic_cast<To>(value) != nullptr);
+					if constexpr (std::is_polymorphic_v<BaseFromType>)
+						NazaraAssert(!value || dynamic_cast<To>(value) != nullptr);
 				}
 			}
 		}
-- 
2.43.0


From 935195c576580e7328f6b308dd0fd05c246fbdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:49 +0000
Subject: [PATCH 52/52] fix: align stack arrays and vectors of over-aligned
 types

---
 include/NazaraUtils/MemoryHelper.hpp |  6 ++++++
 include/NazaraUtils/MemoryHelper.inl | 25 +++++++++++++++++++++++++
 include/NazaraUtils/StackArray.hpp   |  4 ++--
 include/NazaraUtils/StackVector.hpp  |  2 +-
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MemoryHelper.hpp b/include/NazaraUtils/MemoryHelper.hpp
index 9752fca..8303281 100644
--- a/include/NazaraUtils/MemoryHelper.hpp
+++ b/include/NazaraUtils/MemoryHelper.hpp
@@ -35,6 +35,12 @@
 
 namespace Nz
 {
+	namespace Detail
+	{
+		template<typename T> T* AlignStackMemory(void* ptr) noexcept;
+		template<typename T> constexpr std::size_t GetStackMemorySize(std::size_t count) noexcept;
+	}
+
 	template<typename T, typename... Args>
 	constexpr T* PlacementNew(T* ptr, Args&&... args);
 
diff --git a/include/NazaraUtils/MemoryHelper.inl b/include/NazaraUtils/MemoryHelper.inl
index d0d1c40..e175180 100644
--- a/include/NazaraUtils/MemoryHelper.inl
+++ b/include/NazaraUtils/MemoryHelper.inl
@@ -3,11 +3,36 @@
 // For conditions of distribution and use, see copyright notice in Config.hpp
 
 #include <cassert>
+#include <cstdint>
 #include <new>
 #include <utility>
 
 namespace Nz
 {
+	namespace Detail
+	{
+		// alloca knows nothing about the type and only ensures the default alignment
+		template<typename T>
+		constexpr std::size_t StackMemoryPadding = (alignof(T) > alignof(std::max_align_t)) ? alignof(T) - 1 : 0;
+
+		template<typename T>
+		T* AlignStackMemory(void* ptr) noexcept
+		{
+			// advance the pointer itself (instead of converting it back from an integer) to keep its provenance
+			std::size_t misalignment = static_cast<std::size_t>(reinterpret_cast<std::uintptr_t>(ptr) % alignof(T));
+			if (StackMemoryPadding<T> > 0 && misalignment > 0)
+				ptr = static_cast<char*>(ptr) + (alignof(T) - misalignment);
+
+			return static_cast<T*>(ptr);
+		}
+
+		template<typename T>
+		constexpr std::size_t GetStackMemorySize(std::size_t count) noexcept
+		{
+			return count * sizeof(T) + StackMemoryPadding<T>;
+		}
+	}
+
 	/*!
 	* \ingroup utils
 	* \fn Nz::MemoryHelper
diff --git a/include/NazaraUtils/StackArray.hpp b/include/NazaraUtils/StackArray.hpp
index d7add20..8f6e98c 100644
--- a/include/NazaraUtils/StackArray.hpp
+++ b/include/NazaraUtils/StackArray.hpp
@@ -11,8 +11,8 @@
 #include <NazaraUtils/MovablePtr.hpp>
 
 #ifdef NAZARA_ALLOCA_SUPPORT
-	#define NazaraStackArray(T, size) Nz::StackArray<T>(static_cast<T*>(NAZARA_ALLOCA((size) * sizeof(T))), size)
-	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(static_cast<T*>(NAZARA_ALLOCA((size) * sizeof(T))), size, typename Nz::StackArray<T>::NoInitTag())
+	#define NazaraStackArray(T, size) Nz::StackArray<T>(Nz::Detail::AlignStackMemory<T>(NAZARA_ALLOCA(Nz::Detail::GetStackMemorySize<T>(size))), size)
+	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(Nz::Detail::AlignStackMemory<T>(NAZARA_ALLOCA(Nz::Detail::GetStackMemorySize<T>(size))), size, typename Nz::StackArray<T>::NoInitTag())
 #else
 	#define NazaraStackArray(T, size) Nz::StackArray<T>(static_cast<T*>(Nz::OperatorNew((size) * sizeof(T))), size)
 	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(static_cast<T*>(Nz::OperatorNew((size) * sizeof(T))), size, typename Nz::StackArray<T>::NoInitTag())
diff --git a/include/NazaraUtils/StackVector.hpp b/include/NazaraUtils/StackVector.hpp
index 02c3b40..bfda411 100644
--- a/include/NazaraUtils/StackVector.hpp
+++ b/include/NazaraUtils/StackVector.hpp
@@ -11,7 +11,7 @@
 #include <NazaraUtils/MovablePtr.hpp>
 
 #ifdef NAZARA_ALLOCA_SUPPORT
-	#define NazaraStackVector(T, capacity) Nz::StackVector<T>(static_cast<T*>(NAZARA_ALLOCA((capacity) * sizeof(T))), capacity)
+	#define NazaraStackVector(T, capacity) Nz::StackVector<T>(Nz::Detail::AlignStackMemory<T>(NAZARA_ALLOCA(Nz::Detail::GetStackMemorySize<T>(capacity))), capacity)
 #else
 	#define NazaraStackVector(T, capacity) Nz::StackVector<T>(static_cast<T*>(operator new((capacity) * sizeof(T))), capacity)
 #endif
-- 
2.43.0

