From 5e17a95f33b851a74df58e6e611f6aa55af48581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:35 +0000
Subject: [PATCH 01/14] fix: List and SortedList insertion of an element that
 lives in the list itself

Insert/Add kept a reference to the argument while the buffer was reallocated or
shifted, so inserting an own element read released or moved-from storage.
---
 Source/Collections/List.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index fb6d43b..c7f9c6a 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -120,6 +120,12 @@ Memory Management
 				free(buffer);
 			}
 
+			template<typename T>
+			bool IsInBuffer(const T* items, vint count, const T* item)
+			{
+				return items && items <= item && item < items + count;
+			}
+
 			template<typename T>
 			void ReleaseUnnecessaryBuffer(T*& items, vint& capacity, vint oldCount, vint newCount)
 			{
@@ -605,6 +611,11 @@ List
 			vint Insert(vint index, const T& item)
 			{
 				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
+				if (memory_management::IsInBuffer(this->buffer, this->count, &item))
+				{
+					T copied(item);
+					return Insert(index, std::move(copied));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
 				return index;
@@ -617,6 +628,11 @@ List
 			vint Insert(vint index, T&& item)
 			{
 				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
+				if (memory_management::IsInBuffer(this->buffer, this->count, &item))
+				{
+					T moved(std::move(item));
+					return Insert(index, std::move(moved));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallMoveCtors(&this->buffer[index], &item, 1);
 				return index;
@@ -729,6 +745,11 @@ SortedList
 			vint Insert(vint index, const T& item)
 			{
 				bool uninitialized = false;
+				if (memory_management::IsInBuffer(this->buffer, this->count, &item))
+				{
+					T copied(item);
+					return Insert(index, std::move(copied));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
 				return index;
@@ -737,6 +758,11 @@ SortedList
 			vint Insert(vint index, T&& item)
 			{
 				bool uninitialized = false;
+				if (memory_management::IsInBuffer(this->buffer, this->count, &item))
+				{
+					T moved(std::move(item));
+					return Insert(index, std::move(moved));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallMoveCtors(&this->buffer[index], &item, 1);
 				return index;
-- 
2.43.0


From 3f2313b3ea491e4e2fa083a462033cdf208f88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:35 +0000
Subject: [PATCH 02/14] fix: ListBase::RemoveRange accepts a negative count

A negative count passed the range check and moved elements outside of the buffer.
---
 Source/Collections/List.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index c7f9c6a..1409f0c 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -528,7 +528,7 @@ ListBase
 			{
 				vint previousCount = this->count;
 				CHECK_ERROR(index >= 0 && index <= this->count, L"ListBase<T>::RemoveRange(vint, vint)#Argument index not in range.");
-				CHECK_ERROR(index + _count >= 0 && index + _count <= this->count, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
+				CHECK_ERROR(_count >= 0 && _count <= this->count - index, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
 				memory_management::CallMoveAssignmentsOverlapped(&this->buffer[index], &this->buffer[index + _count], this->count - index - _count);
 				this->count -= _count;
 				memory_management::ReleaseUnnecessaryBuffer(this->buffer, this->capacity, previousCount, this->count);
-- 
2.43.0


From 3b38ad8634b7e90ad051ab012f5c8f2348f49c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:25 +0000
Subject: [PATCH 03/14] fix: ObjectString Sub and Remove accept a negative
 count

---
 Source/Strings/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.h b/Source/Strings/String.h
index 3e0f206..19d0843 100644
--- a/Source/Strings/String.h
+++ b/Source/Strings/String.h
@@ -462,7 +462,7 @@ namespace vl
 		ObjectString<T> Sub(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<=length, L"ObjectString<T>::Sub(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
 			return SubUnsafe(index, count);
 		}
 
@@ -480,7 +480,7 @@ namespace vl
 		ObjectString<T> Remove(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<length, L"ObjectString<T>::Remove(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
 			return ReplaceUnsafe(ObjectString<T>(), index, count);
 		}
 
-- 
2.43.0


From cefd1bc59a35e17517c262c007d98832922cbcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 04/14] fix: assigning a Ptr or ComPtr stored in the object it
 releases reads freed memory

---
 Source/Primitives/Pointer.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 2e0e034..d9f48cb 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -242,12 +242,9 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
-				counter = pointer.counter;
-				reference = pointer.reference;
-				originalReference = pointer.originalReference;
-				originalDestructor = pointer.originalDestructor;
-				Inc();
+				// pointer could be stored in the object that is released by Dec
+				Ptr<T> copied(pointer);
+				*this = std::move(copied);
 			}
 			return *this;
 		}
@@ -259,12 +256,14 @@ Ptr
 		{
 			if (this != &pointer)
 			{
+				// pointer could be stored in the object that is released by Dec
+				Ptr<T> moved(std::move(pointer));
 				Dec();
-				counter = pointer.counter;
-				reference = pointer.reference;
-				originalReference = pointer.originalReference;
-				originalDestructor = pointer.originalDestructor;
-				pointer.SetEmptyNoIncDec();
+				counter = moved.counter;
+				reference = moved.reference;
+				originalReference = moved.originalReference;
+				originalDestructor = moved.originalDestructor;
+				moved.SetEmptyNoIncDec();
 			}
 			return *this;
 		}
@@ -426,10 +425,9 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
-				counter = pointer.counter;
-				reference = pointer.reference;
-				Inc();
+				// pointer could be stored in the object that is released by Dec
+				ComPtr<T> copied(pointer);
+				*this = std::move(copied);
 			}
 			return *this;
 		}
@@ -438,10 +436,12 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
+				// pointer could be stored in the object that is released by Dec
+				ComPtr<T> moved(std::move(pointer));
 				Dec();
-				counter = pointer.counter;
-				reference = pointer.reference;
-				pointer.SetEmpty();
+				counter = moved.counter;
+				reference = moved.reference;
+				moved.SetEmpty();
 			}
 			return *this;
 		}
-- 
2.43.0


From 3f25308f82a0ce5065f9114342b6d2474baa4b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:59 +0000
Subject: [PATCH 05/14] fix: Ptr::Detach keeps owning an object that is still
 shared

---
 Source/Primitives/Pointer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index d9f48cb..aed1f0a 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -212,6 +212,7 @@ Ptr
 		{
 			auto detached = reference;
 			Dec(false);
+			SetEmptyNoIncDec();
 			return detached;
 		}
 
-- 
2.43.0


From a265c172d090c3183cd530b49c4047b92959ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:54 +0000
Subject: [PATCH 06/14] fix: Reset and Clone of Dictionary and Group
 enumerators

---
 Source/Collections/Dictionary.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 11cac3b..d0f8c44 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -35,7 +35,7 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if(index<container->Count())
+					if(0<=index && index<container->Count())
 					{
 						current = { container->Keys().Get(index),container->Values().Get(index) };
 					}
@@ -45,6 +45,7 @@ namespace vl
 				{
 					container=_container;
 					index=_index;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
@@ -288,10 +289,10 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if (keyIndex < container->Count())
+					if (0 <= keyIndex && keyIndex < container->Count())
 					{
 						const ValueContainer& values = container->GetByIndex(keyIndex);
-						if (valueIndex < values.Count())
+						if (0 <= valueIndex && valueIndex < values.Count())
 						{
 							current = { container->Keys().Get(keyIndex) ,values.Get(valueIndex) };
 						}
@@ -303,6 +304,7 @@ namespace vl
 					container=_container;
 					keyIndex=_keyIndex;
 					valueIndex=_valueIndex;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
-- 
2.43.0


From c4ead9b873f06e1f424ba53ef41af16486a2b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:54 +0000
Subject: [PATCH 07/14] fix: Group::Remove reports true for a value that is not
 in the group

---
 Source/Collections/Dictionary.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index d0f8c44..bdd30e1 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -580,7 +580,10 @@ namespace vl
 				if(index!=-1)
 				{
 					auto target=values[index];
-					target->Remove(value);
+					if(!target->Remove(value))
+					{
+						return false;
+					}
 					if(target->Count()==0)
 					{
 						keys.RemoveAt(index);
-- 
2.43.0


From 018a18a2d8f9f23892b885834123544ecbb6a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:52 +0000
Subject: [PATCH 08/14] fix: Nullable assigned from its own value read a
 destroyed object when T is not assignable

---
 Source/Primitives/Nullable.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Source/Primitives/Nullable.h b/Source/Primitives/Nullable.h
index 1147677..6a9bf36 100644
--- a/Source/Primitives/Nullable.h
+++ b/Source/Primitives/Nullable.h
@@ -105,6 +105,8 @@ namespace vl
 				}
 			}
 
+			// the only value that Reset would destroy before it is read
+			if (&value == &object) return *this;
 			Reset();
 			new (&object)T(value);
 			initialized = true;
@@ -125,6 +127,8 @@ namespace vl
 				}
 			}
 
+			// the only value that Reset would destroy before it is read
+			if (&value == &object) return *this;
 			Reset();
 			new (&object)T(std::move(value));
 			initialized = true;
-- 
2.43.0


From dd0275f6b4beb9508cc3f270fd04ae00852b29be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:43 +0000
Subject: [PATCH 09/14] fix: Event moved an rvalue argument into its first
 handler, the other handlers received a moved-from value

---
 Source/Primitives/Event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index 7dfc3ed..caaf7ea 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -98,7 +98,7 @@ namespace vl
 		{
 			for(vint i = 0; i < handlers.Count(); i++)
 			{
-				handlers[i]->function(std::forward<TArgs2&&>(args)...);
+				handlers[i]->function(args...);
 			}
 		}
 	};
-- 
2.43.0


From e85d2943afadc3d3134323f29ba31146c091c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:13 +0000
Subject: [PATCH 10/14] fix: UTF-8 decoding accepted malformed sequences

Continuation bytes were not checked, lone continuation bytes, 0xFE and 0xFF were taken
as the beginning of a sequence, overlong encodings were accepted, and the check for
surrogates was never reached: text was silently decoded to other characters.
---
 Source/Strings/Conversion.cpp | 36 ++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/Source/Strings/Conversion.cpp b/Source/Strings/Conversion.cpp
index 7675ad1..31ee556 100644
--- a/Source/Strings/Conversion.cpp
+++ b/Source/Strings/Conversion.cpp
@@ -121,17 +121,25 @@ UtfConversion<char8_t>
 			vuint32_t& d = reinterpret_cast<vuint32_t&>(dest);
 			if (sourceLength <= 0) return -1;
 
+			vint size = 0;
+			vuint32_t minimum = 0;
 			if (cs[0] < 0b10000000U)
 			{
 				d = cs[0];
 				return 1;
 			}
+			else if (cs[0] < 0b11000000U)
+			{
+				// a continuation byte cannot begin a sequence
+				return -1;
+			}
 			else if (cs[0] < 0b11100000U)
 			{
 				if (sourceLength < 2) return -1;
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00011111U) << 6) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U));
-				return 2;
+				size = 2;
+				minimum = 0x00000080UL;
 			}
 			else if (cs[0] < 0b11110000U)
 			{
@@ -139,7 +147,8 @@ UtfConversion<char8_t>
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00001111U) << 12) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U));
-				return 3;
+				size = 3;
+				minimum = 0x00000800UL;
 			}
 			else if (cs[0] < 0b11111000U)
 			{
@@ -148,7 +157,8 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U));
-				return 4;
+				size = 4;
+				minimum = 0x00010000UL;
 			}
 			else if (cs[0] < 0b11111100U)
 			{
@@ -158,9 +168,10 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U));
-				return 5;
+				size = 5;
+				minimum = 0x00200000UL;
 			}
-			else
+			else if (cs[0] < 0b11111110U)
 			{
 				if (sourceLength < 6) return -1;
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00000001U) << 30) |
@@ -169,10 +180,21 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[5]) & 0b00111111U));
-				return 6;
+				size = 6;
+				minimum = 0x04000000UL;
 			}
+			else
+			{
+				return -1;
+			}
+
+			for (vint i = 1; i < size; i++)
+			{
+				if ((cs[i] & 0b11000000U) != 0b10000000U) return -1;
+			}
+			if (d < minimum) return -1;
 			if (IsInvalid(dest)) return -1;
-			return 1;
+			return size;
 		}
 
 /***********************************************************************
-- 
2.43.0


From e6f7f60c4323aa0edc019a79739c5c8db51e113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:13 +0000
Subject: [PATCH 11/14] fix: UTF-16BE conversion read uninitialised units

---
 Source/Strings/Conversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/Conversion.cpp b/Source/Strings/Conversion.cpp
index 31ee556..575eeaa 100644
--- a/Source/Strings/Conversion.cpp
+++ b/Source/Strings/Conversion.cpp
@@ -274,7 +274,7 @@ UtfConversion<char16be_t>
 
 		vint UtfConversion<char16be_t>::From32(char32_t source, char16be_t(&dest)[BufferLength])
 		{
-			char16_t destle[BufferLength];
+			char16_t destle[BufferLength] = { 0,0 };
 			vint result = UtfConversion<char16_t>::From32(source, destle);
 			SwapByteForUtf16BE(destle[0]);
 			SwapByteForUtf16BE(destle[1]);
@@ -285,7 +285,7 @@ UtfConversion<char16be_t>
 
 		vint UtfConversion<char16be_t>::To32(const char16be_t* source, vint sourceLength, char32_t& dest)
 		{
-			char16_t destle[BufferLength];
+			char16_t destle[BufferLength] = { 0,0 };
 			if (sourceLength >= 1) destle[0] = source[0].value;
 			if (sourceLength >= 2) destle[1] = source[1].value;
 			SwapByteForUtf16BE(destle[0]);
-- 
2.43.0


From 7b8c2b3abbecb64316568dded0bf0e04a73a5fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 12/14] fix: Skip reported a wrong index before the first
 element and for a negative count

Take asks its source for the index, so Skip(n).Take(0) gave one element and
Skip(-n).Take(m) lost n elements.
---
 Source/Collections/OperationSequence.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index b0a1b4b..dac196f 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -83,7 +83,7 @@ Skip
 		public:
 			SkipEnumerator(IEnumerator<T>* _enumerator, vint _count, bool _skipped=false)
 				:enumerator(_enumerator)
-				,count(_count)
+				,count(_count<0?0:_count)
 				,skipped(_skipped)
 			{
 			}
@@ -105,7 +105,7 @@ Skip
 
 			vint Index()const override
 			{
-				return enumerator->Index()-count;
+				return skipped?enumerator->Index()-count:-1;
 			}
 
 			bool Next()override
-- 
2.43.0


From 06d0218d0a415bd7e71f4b33da6bd3a06fd037d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:50 +0000
Subject: [PATCH 13/14] fix: wlower and wupper truncated wide characters to
 char

---
 Source/Strings/String.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index f1f7204..7f984cd 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -84,7 +84,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)tolower(*buffer);
+			*buffer=(char)tolower((unsigned char)*buffer);
 			buffer++;
 		}
 	}
@@ -93,7 +93,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)toupper(*buffer);
+			*buffer=(char)toupper((unsigned char)*buffer);
 			buffer++;
 		}
 	}
@@ -102,7 +102,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towlower(*buffer);
+			*buffer=(wchar_t)towlower(*buffer);
 			buffer++;
 		}
 	}
@@ -111,7 +111,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towupper(*buffer);
+			*buffer=(wchar_t)towupper(*buffer);
 			buffer++;
 		}
 	}
-- 
2.43.0


From f61da029725397db2ccd2fab1b5c93d1d6e3fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:42 +0000
Subject: [PATCH 14/14] fix: UTC conversions were off by the daylight saving
 offset

---
 Source/Primitives/DateTime.Linux.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index 8cd4277..9cfd310 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -98,6 +98,7 @@ DateTime
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
 			tm* timeinfo = gmtime(&tv.tv_sec);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
 		}
 
@@ -108,6 +109,7 @@ DateTime
 			OSInternalToTime(osInternal, timer, milliseconds);
 
 			tm* timeinfo = gmtime(&timer);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, milliseconds);
 		}
 
@@ -118,7 +120,9 @@ DateTime
 			OSInternalToTime(osInternal, timer, milliseconds);
 
 			time_t localTimer = mktime(localtime(&timer));
-			time_t utcTimer = mktime(gmtime(&timer));
+			tm* utcinfo = gmtime(&timer);
+			utcinfo->tm_isdst = -1;
+			time_t utcTimer = mktime(utcinfo);
 			timer += localTimer - utcTimer;
 
 			TimeToOSInternal(timer, milliseconds, osInternal);
-- 
2.43.0

