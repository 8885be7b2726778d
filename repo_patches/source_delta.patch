From b370a40528b252cb553b666c94effb9b43e05899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:37 +0000
Subject: [PATCH 01/52] fix: owning C string keeps its text on self assignment
 and survives moves

---
 src/Xsmp/cstring.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/Xsmp/cstring.cpp b/src/Xsmp/cstring.cpp
index d882fda..fb5367f 100644
--- a/src/Xsmp/cstring.cpp
+++ b/src/Xsmp/cstring.cpp
@@ -26,6 +26,10 @@ const char *copy(const char *value, std::size_t size) {
   return copy;
 }
 const char *copy(const char *value) {
+  if (!value) {
+    // value of a moved-from string
+    return nullptr;
+  }
   return copy(value, std::char_traits<char>::length(value));
 }
 } // namespace
@@ -39,19 +43,17 @@ cstring::cstring(const char *value)
 cstring::cstring(std::string_view value)
     : _value{copy(value.data(), value.size())} {}
 
-cstring::cstring(const cstring &other) : cstring(other.c_str()) {}
+cstring::cstring(const cstring &other) : _value{copy(other.c_str())} {}
 
 cstring &cstring::operator=(const cstring &other) {
-  if (this != &other) {
-    delete[] _value;
-    _value = copy(other.c_str());
-  }
-  return *this;
+  return *this = other.c_str();
 }
 
 cstring &cstring::operator=(const char *value) {
+  // duplicate first: value may be (a part of) the current string
+  const auto *newValue = copy(value);
   delete[] _value;
-  _value = copy(value);
+  _value = newValue;
   return *this;
 }
 
@@ -61,9 +63,11 @@ cstring::cstring(cstring &&other) noexcept : _value{other._value} {
   other._value = nullptr;
 }
 cstring &cstring::operator=(cstring &&other) noexcept {
-  delete[] _value;
-  _value = other._value;
-  other._value = nullptr;
+  if (this != &other) {
+    delete[] _value;
+    _value = other._value;
+    other._value = nullptr;
+  }
   return *this;
 }
 } // namespace Xsmp
-- 
2.43.0


From 58901494d54dbb38038a846259eac86c36c575e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 02/52] fix: String::remove_prefix longer than the content
 empties the string

---
 include/Xsmp/String.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 2f3397a..557b5f6 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -168,6 +168,7 @@ template <std::size_t Nm> struct String {
 
   constexpr void remove_prefix(size_t length) {
     auto newLength = this->length();
+    length = std::min(length, newLength);
     std::copy(internalString + length, internalString + newLength,
               internalString);
     newLength -= length;
-- 
2.43.0


From f174c494677f46992a1755a41aa9edec6ad011e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 03/52] fix: String::assign accepts a part of the string itself

---
 include/Xsmp/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 557b5f6..3f256c8 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -320,7 +320,7 @@ template <std::size_t Nm> struct String {
   }
   constexpr String &assign(std::string_view str) {
     const size_t length = std::min(str.length(), Nm);
-    traits_type::copy(internalString, str.data(), length);
+    traits_type::move(internalString, str.data(), length);
     internalString[length] = '\0';
     return *this;
   }
-- 
2.43.0


From a60c54433326c9b67fa9d78116c9b4d9434bdaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 04/52] fix: AnySimple integer to floating-point range check
 without out-of-range cast

The nearest floating-point value of an integer close to the maximum of its
type can be one above that maximum; casting it back to the integral type was
undefined behaviour, so the outcome of the check was too.
---
 src/Smp/AnySimple.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index c19afe7..72695b0 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -20,6 +20,7 @@
 #include <cmath>
 #include <limits>
 #include <string>
+#include <type_traits>
 
 namespace Smp {
 
@@ -100,11 +101,20 @@ template <typename T, typename U>
 T convertFloat(U newValue, ::Smp::PrimitiveTypeKind kind,
                ::Smp::PrimitiveTypeKind expected) {
 
-  if (std::fabs(newValue - static_cast<U>(static_cast<T>(newValue))) >
-      std::numeric_limits<U>::epsilon()) {
+  const auto converted = static_cast<T>(newValue);
+  if constexpr (std::is_integral_v<U>) {
+    // the nearest floating-point value can be one above the maximum of the
+    // integral type, in which case it cannot be converted back
+    constexpr T limit = T{2} * (std::numeric_limits<U>::max() / 2 + 1);
+    if (converted >= limit ||
+        static_cast<U>(converted) != newValue) {
+      ::Xsmp::Exception::throwInvalidAnyType(nullptr, expected, kind);
+    }
+  } else if (std::fabs(newValue - static_cast<U>(converted)) >
+             std::numeric_limits<U>::epsilon()) {
     ::Xsmp::Exception::throwInvalidAnyType(nullptr, expected, kind);
   }
-  return static_cast<T>(newValue);
+  return converted;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Bool newValue) {
-- 
2.43.0


From 435326d593e699b86a633827f884b1538adb702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 05/52] fix: AnySimple duplicates a text before releasing the
 current one

SetValue with the variant's own text read released memory, and a failed
allocation left a variant typed String8 with a stale pointer (copy assignment)
or without its text.
---
 src/Smp/AnySimple.cpp | 45 +++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index 72695b0..8771079 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -31,6 +31,14 @@ inline void _releaseContent(::Smp::AnySimple *any) {
     any->value.string8Value = nullptr;
   }
 }
+
+inline ::Smp::Char8 *_duplicate(::Smp::String8 text) {
+  if (!text) {
+    return nullptr;
+  }
+  const auto size = std::char_traits<char>::length(text) + 1;
+  return std::char_traits<char>::copy(new ::Smp::Char8[size], text, size);
+}
 } // namespace
 
 AnySimple::AnySimple() : AnySimple(PrimitiveTypeKind::PTK_None) {}
@@ -52,22 +60,14 @@ AnySimple::AnySimple(::Smp::AnySimple &&other)
 AnySimple &AnySimple::operator=(const ::Smp::AnySimple &other) {
 
   if (this != &other) {
-    _releaseContent(this);
-    type = other.type;
-
+    // duplicate the text first: the allocation may fail
+    auto newValue = other.value;
     if (other.type == PrimitiveTypeKind::PTK_String8) {
-      if (other.value.string8Value) {
-        auto size =
-            std::char_traits<char>::length(other.value.string8Value) + 1;
-        auto *dest = new ::Smp::Char8[size];
-        this->value.string8Value = dest;
-        std::char_traits<char>::copy(dest, other.value.string8Value, size);
-      } else {
-        value.string8Value = nullptr;
-      }
-    } else {
-      value = other.value;
+      newValue.string8Value = _duplicate(other.value.string8Value);
     }
+    _releaseContent(this);
+    type = other.type;
+    value = newValue;
   }
 
   return *this;
@@ -146,20 +146,15 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Char8 newValue) {
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
                          ::Smp::String8 newValue) {
 
-  _releaseContent(this);
-
   if (kind == PrimitiveTypeKind::PTK_String8) {
-    if (newValue) {
-      auto size = std::char_traits<char>::length(newValue) + 1;
-      auto *dest = new ::Smp::Char8[size];
-      this->value.string8Value = dest;
-      std::char_traits<char>::copy(dest, newValue, size);
-    } else {
-      this->value.string8Value = nullptr;
-    }
+    // duplicate the text first: the allocation may fail, and the new text may
+    // be (a part of) the current one
+    auto *dest = _duplicate(newValue);
+    _releaseContent(this);
+    this->value.string8Value = dest;
     type = kind;
   } else {
-
+    _releaseContent(this);
     ::Xsmp::Exception::throwInvalidAnyType(nullptr, kind,
                                            PrimitiveTypeKind::PTK_String8);
   }
-- 
2.43.0


From 565609982a88e9f6b2ae848b975497a5a9728052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 06/52] fix: AnySimple equality of empty variants and of
 infinities

An empty variant compared equal to any other variant, and two equal infinities
compared different.
---
 src/Smp/AnySimple.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index 8771079..5758b59 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -32,6 +32,12 @@ inline void _releaseContent(::Smp::AnySimple *any) {
   }
 }
 
+template <typename T> bool almostEqual(T left, T right) {
+  // exact equality covers the infinities, whose difference is not a number
+  return left == right ||
+         std::fabs(left - right) <= std::numeric_limits<T>::epsilon();
+}
+
 inline ::Smp::Char8 *_duplicate(::Smp::String8 text) {
   if (!text) {
     return nullptr;
@@ -1049,7 +1055,7 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
   try {
     switch (type) {
     case PrimitiveTypeKind::PTK_None:
-      return true;
+      return other.type == PrimitiveTypeKind::PTK_None;
     case PrimitiveTypeKind::PTK_Bool:
       return value.boolValue == static_cast<::Smp::Bool>(other);
     case PrimitiveTypeKind::PTK_UInt8:
@@ -1073,13 +1079,11 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
     case PrimitiveTypeKind::PTK_DateTime:
       return value.dateTimeValue == static_cast<::Smp::DateTime>(other);
     case PrimitiveTypeKind::PTK_Float32:
-      return std::fabs(value.float32Value -
-                       static_cast<::Smp::Float32>(other)) <=
-             std::numeric_limits<Float32>::epsilon();
+      return almostEqual(value.float32Value,
+                         static_cast<::Smp::Float32>(other));
     case PrimitiveTypeKind::PTK_Float64:
-      return std::fabs(value.float64Value -
-                       static_cast<::Smp::Float64>(other)) <=
-             std::numeric_limits<Float64>::epsilon();
+      return almostEqual(value.float64Value,
+                         static_cast<::Smp::Float64>(other));
     case PrimitiveTypeKind::PTK_Char8:
       return value.char8Value == static_cast<::Smp::Char8>(other);
     case PrimitiveTypeKind::PTK_String8:
-- 
2.43.0


From 66f01f6d2d85d93c3ac86476e7ae67aa29e118bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 07/52] fix: DateTime assignment from a chrono duration

The operator called a convert() overload that does not exist, so it did not
compile when used; count from MJD2000+0.5 like the constructor does.
---
 include/Xsmp/DateTime.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Xsmp/DateTime.h b/include/Xsmp/DateTime.h
index 78a4d43..66ef677 100644
--- a/include/Xsmp/DateTime.h
+++ b/include/Xsmp/DateTime.h
@@ -121,7 +121,8 @@ struct DateTime final {
   template <class Rep, class Period>
   constexpr DateTime &
   operator=(const std::chrono::duration<Rep, Period> &dateTime) {
-    _value = convert(dateTime);
+    _value =
+        std::chrono::duration_cast<std::chrono::nanoseconds>(dateTime).count();
     return *this;
   }
   constexpr DateTime &operator=(Smp::DateTime dateTime) {
-- 
2.43.0


From 340e6c176c9dfab8ab48f74c707ef1a32e439200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 08/52] fix: a path that goes up from a field keeps its next
 segment

---
 src/Xsmp/Helper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index dc323b5..37479dd 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -220,9 +220,6 @@ inline ::Smp::IObject *Resolve(::Smp::IObject *object, ::Smp::String8 name,
     }
   }
 
-  if (auto *field = dynamic_cast<::Smp::IField *>(object)) {
-    return ::Xsmp::Helper::Resolve(field, path);
-  }
   return nullptr;
 }
 
@@ -383,6 +380,9 @@ std::string GetPath(const ::Smp::IObject *obj) {
   if (path[0] == '\0' || !parent) {
     return parent;
   }
+  if (auto *field = dynamic_cast<::Smp::IField *>(parent)) {
+    return Resolve(field, path);
+  }
   ::Smp::Char8 separator = '\0';
   auto segment = GetNextSegment(&path, &separator);
 
-- 
2.43.0


From e9b7f55e7f2dbcdde07344b365a65f7035166ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 09/52] fix: a component can be added to a published parent

---
 src/Xsmp/Container.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Container.cpp b/src/Xsmp/Container.cpp
index 51c9a11..85605d7 100644
--- a/src/Xsmp/Container.cpp
+++ b/src/Xsmp/Container.cpp
@@ -21,6 +21,7 @@
 #include <Smp/IEventConsumer.h>
 #include <Smp/IEventProvider.h>
 #include <Smp/IFallibleModel.h>
+#include <Smp/IField.h>
 #include <Smp/PrimitiveTypes.h>
 #include <Xsmp/Composite.h>
 #include <Xsmp/Container.h>
@@ -107,7 +108,7 @@ inline void CheckComposite(::Smp::IContainer const *container,
 
 inline void CheckComponent(::Smp::IContainer const *container,
                            ::Smp::IComponent const *cmp, ::Smp::String8 name) {
-  if (cmp->GetField(name)) {
+  if (auto const *fields = cmp->GetFields(); fields && fields->at(name)) {
     ::Xsmp::Exception::throwDuplicateName(container, name,
                                           container->GetComponents());
   }
-- 
2.43.0


From 31258820d9eb67c9f824af3b86259289d01ada4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 10/52] fix: DoConfigure runs once and may have any documented
 signature

---
 include/Xsmp/ComponentHelper.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/Xsmp/ComponentHelper.h b/include/Xsmp/ComponentHelper.h
index 76538a2..28c94d5 100644
--- a/include/Xsmp/ComponentHelper.h
+++ b/include/Xsmp/ComponentHelper.h
@@ -40,7 +40,7 @@ public:
       }
       static_assert(std::is_invocable_v<decltype(&T::DoPublish), T *,
                                         ::Smp::IPublication *> ||
-                        std::is_invocable_v<decltype(&T::DoConnect), T *>,
+                        std::is_invocable_v<decltype(&T::DoPublish), T *>,
                     "DoPublish has an invalid signature. Expecting 'void "
                     "DoPublish(Smp::IPublication*)' or 'void DoPublish()'.");
     }
@@ -50,8 +50,6 @@ public:
                         ::Smp::Services::ILinkRegistry *linkRegistry) {
     static_assert(std::is_base_of_v<U, T>);
     if constexpr (hasDoConfigure<T>::value) {
-      static_cast<T *>(cmp)->DoConfigure(logger, linkRegistry);
-
       if constexpr (std::is_invocable_v<decltype(&T::DoConfigure), T *,
                                         ::Smp::Services::ILogger *,
                                         ::Smp::Services::ILinkRegistry *>) {
-- 
2.43.0


From de70f319c2673de8a1fb4486b04ded8b57a65547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 11/52] fix: an event sink may unsubscribe while it is notified

---
 src/Xsmp/EventSource.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/EventSource.cpp b/src/Xsmp/EventSource.cpp
index 7124dad..de9415c 100644
--- a/src/Xsmp/EventSource.cpp
+++ b/src/Xsmp/EventSource.cpp
@@ -79,8 +79,12 @@ void AbstractEventSource::RemoveLinks(
 }
 void AbstractEventSource::DoEmit(::Smp::IObject *sender,
                                  const ::Smp::AnySimple &value) const {
-  for (const auto &sink : _event_sinks) {
+  // a sink may subscribe or unsubscribe event sinks while it is notified: do
+  // not keep an iterator during the notification
+  for (auto it = _event_sinks.begin(); it != _event_sinks.end();) {
+    auto *sink = *it;
     sink->Notify(sender, value);
+    it = _event_sinks.upper_bound(sink);
   }
 }
 
-- 
2.43.0


From 0bb91c7814cb57b1319634b6e7ae2ee2bfee8ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 12/52] fix: a refused force keeps the field forced

---
 src/Xsmp/Field.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Field.cpp b/src/Xsmp/Field.cpp
index adc3c47..4b0d754 100644
--- a/src/Xsmp/Field.cpp
+++ b/src/Xsmp/Field.cpp
@@ -541,8 +541,15 @@ void AbstractForcibleField::Store(::Smp::IStorageWriter *writer) {
 ::Smp::Bool AbstractForcibleField::IsForced() { return _forced; }
 
 void AbstractForcibleField::Force(::Smp::AnySimple value) {
+  const bool forced = _forced;
   _forced = false;
-  this->SetValue(std::move(value));
+  try {
+    this->SetValue(std::move(value));
+  } catch (...) {
+    // the value is refused: keep the current state
+    _forced = forced;
+    throw;
+  }
   _forced = true;
 }
 
-- 
2.43.0


From cc197476beff377545532897cfe58cb5e4c9afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 13/52] fix: removing the links of a component removes every
 field link

---
 src/Xsmp/Component.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Component.cpp b/src/Xsmp/Component.cpp
index 5957815..630569b 100644
--- a/src/Xsmp/Component.cpp
+++ b/src/Xsmp/Component.cpp
@@ -156,7 +156,9 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
   if (auto *dataflowField =
           dynamic_cast<::Xsmp::detail::IDataflowFieldExtension *>(field)) {
     if (const auto *inputFields = dataflowField->GetInputFields()) {
-      for (const auto *inputField : *inputFields) {
+      // iterate backwards: Disconnect removes the input from the collection
+      for (auto i = inputFields->size(); i-- > 0;) {
+        const auto *inputField = inputFields->at(i);
         if (::Xsmp::Helper::IsAncestor(target, inputField)) {
           dataflowField->Disconnect(inputField);
         }
@@ -164,8 +166,8 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
     }
   }
   // recursively disconnect subfields of a structure field
-  else if (const auto *structureField =
-               dynamic_cast<::Smp::IStructureField *>(field)) {
+  if (const auto *structureField =
+          dynamic_cast<::Smp::IStructureField *>(field)) {
     if (const auto *fields = structureField->GetFields()) {
       for (auto *subField : *fields) {
         RemoveFieldLinks(subField, target);
-- 
2.43.0


From 880e0741143dab01064e0b6ace3c7071ffdf61ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 14/52] fix: simple array fields are equivalent when their
 items are

---
 src/Xsmp/Helper.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index 37479dd..3479504 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -32,6 +32,7 @@
 #include <Smp/ISimulator.h>
 #include <Smp/IStructureField.h>
 #include <Smp/PrimitiveTypes.h>
+#include <Smp/Publication/IArrayType.h>
 #include <Smp/Publication/IType.h>
 #include <Smp/Services/ILogger.h>
 #include <Xsmp/Exception.h>
@@ -246,11 +247,22 @@ inline bool AreEquivalent(const ::Smp::ISimpleField *source,
   return target->GetPrimitiveTypeKind() == source->GetPrimitiveTypeKind();
 }
 
+// the type of a simple array field is either an array type or, for an anonymous
+// array, the type of its items
+inline ::Smp::PrimitiveTypeKind
+GetItemKind(const ::Smp::ISimpleArrayField *field) {
+  const auto *type = field->GetType();
+  if (const auto *arrayType =
+          dynamic_cast<const ::Smp::Publication::IArrayType *>(type)) {
+    type = arrayType->GetItemType();
+  }
+  return type->GetPrimitiveTypeKind();
+}
+
 inline bool AreEquivalent(const ::Smp::ISimpleArrayField *source,
                           const ::Smp::ISimpleArrayField *target) {
   return target->GetSize() == source->GetSize() &&
-         target->GetType()->GetPrimitiveTypeKind() ==
-             source->GetType()->GetPrimitiveTypeKind();
+         GetItemKind(target) == GetItemKind(source);
 }
 inline bool AreEquivalent(const ::Smp::IArrayField *source,
                           const ::Smp::IArrayField *target) {
-- 
2.43.0


From c70c3d3f09250bf88a46874028132a974fe950d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 15/52] fix: links of published output fields are removed with
 their target

---
 src/Xsmp/Publication/Field.cpp | 16 ++++++++++++++--
 src/Xsmp/Publication/Field.h   | 13 +++++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 5a42353..6acb842 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -140,19 +140,31 @@ std::unique_ptr<Field> Field::Create(::Smp::String8 name,
   ::Xsmp::Exception::throwInvalidFieldType(parent, type);
 }
 
+DataflowField::DataflowField()
+    : _targets{"InputFields", "Collection of connected input Fields", this} {}
+
 void DataflowField::Connect(::Smp::IField *target) {
-  if (_targets.find(target) != _targets.end()) {
+  // contains returns true when the field is not yet connected
+  if (!_targets.contains(target)) {
     ::Xsmp::Exception::throwFieldAlreadyConnected(this, this, target);
   }
   if (!this->IsOutput() || !target->IsInput() || target == this ||
       !::Xsmp::Helper::AreEquivalent(this, target)) {
     ::Xsmp::Exception::throwInvalidTarget(this, this, target);
   }
-  _targets.emplace(target);
+  _targets.add(target);
   // push the current value
   Push(this, target);
 }
 
+void DataflowField::Disconnect(const ::Smp::IField *target) {
+  _targets.remove(target);
+}
+
+const ::Smp::FieldCollection *DataflowField::GetInputFields() const {
+  return &_targets;
+}
+
 void DataflowField::Push(::Smp::IField *source, ::Smp::IField *target) {
 
   // push a simple field
diff --git a/src/Xsmp/Publication/Field.h b/src/Xsmp/Publication/Field.h
index 9f8f78b..5f8a91e 100644
--- a/src/Xsmp/Publication/Field.h
+++ b/src/Xsmp/Publication/Field.h
@@ -17,7 +17,6 @@
 
 #include <Smp/AnySimpleArray.h>
 #include <Smp/IArrayField.h>
-#include <Smp/IDataflowField.h>
 #include <Smp/IField.h>
 #include <Smp/ISimpleArrayField.h>
 #include <Smp/ISimpleField.h>
@@ -25,10 +24,10 @@
 #include <Smp/PrimitiveTypes.h>
 #include <Smp/ViewKind.h>
 #include <Xsmp/Collection.h>
+#include <Xsmp/Field.h>
 #include <Xsmp/Publication/Publication.h>
 #include <Xsmp/cstring.h>
 #include <memory>
-#include <set>
 #include <vector>
 
 namespace Smp {
@@ -99,16 +98,22 @@ private:
   ::Smp::Bool _output;
 };
 
-class DataflowField : public virtual ::Smp::IDataflowField {
+class DataflowField : public virtual ::Xsmp::detail::IDataflowFieldExtension {
 public:
+  DataflowField();
+
   void Connect(::Smp::IField *target) final;
 
+  void Disconnect(const ::Smp::IField *target) final;
+
+  const ::Smp::FieldCollection *GetInputFields() const final;
+
   /// Push the current field value to all connected target fields.
   void Push() final;
 
 private:
   void Push(::Smp::IField *source, ::Smp::IField *target);
-  std::set<::Smp::IField *> _targets;
+  ::Xsmp::detail::InputFieldCollection _targets;
 };
 
 class AnonymousArrayField final : public Field,
-- 
2.43.0


From 201565c6326dc7ccb48ca98875516384c0265f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 16/52] fix: an enumeration array refuses unknown literals

---
 src/Xsmp/Publication/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 6acb842..d09bdbf 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -576,7 +576,7 @@ void SimpleArrayField::SetValue(::Smp::UInt64 index, ::Smp::AnySimple value) {
     *static_cast<::Smp::Int16 *>(address) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Int32:
-    if (isInvalidEnumerationValue(GetType(), value)) {
+    if (isInvalidEnumerationValue(_itemType, value)) {
       ::Xsmp::Exception::throwInvalidArrayValue(this, index, value);
     }
     *static_cast<::Smp::Int32 *>(address) = value;
-- 
2.43.0


From b9960e11b71852769f3f90dae944ca0b80f8eca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 17/52] fix: a text of wide characters is stored whole

---
 include/Xsmp/Persist/StdString.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Persist/StdString.h b/include/Xsmp/Persist/StdString.h
index b1b798d..8003a32 100644
--- a/include/Xsmp/Persist/StdString.h
+++ b/include/Xsmp/Persist/StdString.h
@@ -31,7 +31,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Store(simulator, writer, size);
     if (size) {
       type v = value;
-      writer->Store(v.data(), size);
+      writer->Store(v.data(), size * sizeof(CharT));
     }
   }
 
@@ -41,7 +41,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Restore(simulator, reader, size);
     value.resize(size);
     if (size)
-      reader->Restore(value.data(), size);
+      reader->Restore(value.data(), size * sizeof(CharT));
   }
 };
 
-- 
2.43.0


From 806e76b0ed122d82ab76829e697e6d16a74c0c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 18/52] fix: a refused type is not the sender of its refusal

---
 src/Xsmp/Publication/Type.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Xsmp/Publication/Type.cpp b/src/Xsmp/Publication/Type.cpp
index 9f4c75a..4e4040e 100644
--- a/src/Xsmp/Publication/Type.cpp
+++ b/src/Xsmp/Publication/Type.cpp
@@ -63,12 +63,12 @@ ArrayType::ArrayType(::Smp::String8 name, ::Smp::String8 description,
       _simpleArray(simpleArray) {
 
   if (!_itemType) {
-    ::Xsmp::Exception::throwTypeNotRegistered(this, itemTypeUuid);
+    ::Xsmp::Exception::throwTypeNotRegistered(typeRegistry, itemTypeUuid);
   }
   if (itemTypeUuid == ::Smp::Uuids::Uuid_String8 ||
       itemTypeUuid == ::Smp::Uuids::Uuid_Void) {
     ::Xsmp::Exception::throwIncompatibleType(
-        this, itemTypeUuid,
+        typeRegistry, itemTypeUuid,
         "ArrayType does not support String8 and Void item type.");
   }
 }
@@ -207,16 +207,16 @@ ClassType::ClassType(::Smp::String8 name, ::Smp::String8 description,
   }
   if (baseClassUuid == typeUuid) {
     ::Xsmp::Exception::throwIncompatibleType(
-        this, baseClassUuid,
+        typeRegistry, baseClassUuid,
         "The base class must be different from the current class.");
   }
   auto *baseClass = typeRegistry->GetType(baseClassUuid);
   if (!baseClass) {
-    ::Xsmp::Exception::throwTypeNotRegistered(this, baseClassUuid);
+    ::Xsmp::Exception::throwTypeNotRegistered(typeRegistry, baseClassUuid);
   }
   if (!dynamic_cast<::Smp::Publication::IClassType *>(baseClass)) {
     ::Xsmp::Exception::throwIncompatibleType(
-        this, baseClassUuid, "A base class must be void or a class type.");
+        typeRegistry, baseClassUuid, "A base class must be void or a class type.");
   }
 }
 
-- 
2.43.0


From 28b124ae02d602b97b72dea11cb6a39e6c9915a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 19/52] fix: a refused value tells the expected kind

---
 src/Xsmp/Publication/Request.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 17f8046..131b0df 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -35,8 +35,8 @@ bool Request::isValid(const ::Smp::IObject *sender,
                       const ::Smp::Publication::IType *type,
                       const ::Smp::AnySimple &value) {
   if (type->GetPrimitiveTypeKind() != value.type) {
-    ::Xsmp::Exception::throwInvalidAnyType(sender, value.type,
-                                           type->GetPrimitiveTypeKind());
+    ::Xsmp::Exception::throwInvalidAnyType(sender, type->GetPrimitiveTypeKind(),
+                                           value.type);
   }
   // integer types
   if (const auto *integerType = dynamic_cast<const IntegerType *>(type)) {
-- 
2.43.0


From 56bc862b4d6905c1a83dfe43b49ef18865dc7f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:23 +0000
Subject: [PATCH 20/52] fix: a value wider than its range is an invalid value

---
 src/Xsmp/Publication/Request.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 131b0df..a3309fe 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -25,6 +25,7 @@
 #include <Xsmp/cstring.h>
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 #include <map>
 #include <string>
 #include <utility>
@@ -40,6 +41,13 @@ bool Request::isValid(const ::Smp::IObject *sender,
   }
   // integer types
   if (const auto *integerType = dynamic_cast<const IntegerType *>(type)) {
+    // the maximum is an Int64: a greater UInt64 is out of any range
+    if (value.type == ::Smp::PrimitiveTypeKind::PTK_UInt64 &&
+        value.value.uInt64Value >
+            static_cast<::Smp::UInt64>(
+                std::numeric_limits<::Smp::Int64>::max())) {
+      return false;
+    }
     auto intValue = static_cast<::Smp::Int64>(value);
     if (intValue < integerType->getMinimum() ||
         intValue > integerType->getMaximum()) {
@@ -68,8 +76,10 @@ bool Request::isValid(const ::Smp::IObject *sender,
   // enumeration types
   else if (const auto *enumType = dynamic_cast<const EnumerationType *>(type)) {
     // check that a literal with the correct value exist
-    if (enumType->GetLiterals().find(static_cast<::Smp::Int32>(value)) ==
-        enumType->GetLiterals().end()) {
+    auto enumValue = static_cast<::Smp::Int64>(value);
+    auto literal = static_cast<::Smp::Int32>(enumValue);
+    if (literal != enumValue || enumType->GetLiterals().find(literal) ==
+                                    enumType->GetLiterals().end()) {
       return false;
     }
   }
-- 
2.43.0


From cd11d375ac1b9fa9e0efb44b3a61be9d1f209af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 21/52] fix: the setter of a property has one parameter

---
 src/Xsmp/Publication/Property.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Property.cpp b/src/Xsmp/Publication/Property.cpp
index e0493d5..280687d 100644
--- a/src/Xsmp/Publication/Property.cpp
+++ b/src/Xsmp/Publication/Property.cpp
@@ -102,7 +102,7 @@ public:
 
   void SetParameterValue(::Smp::Int32 index, ::Smp::AnySimple value) override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     if (!::Xsmp::Publication::Request::isValid(_property, _property->GetType(),
                                                value)) {
@@ -115,7 +115,7 @@ public:
   [[nodiscard]] ::Smp::AnySimple
   GetParameterValue(::Smp::Int32 index) const override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     return _value;
   }
-- 
2.43.0


From e1a3296a325b864822468378d7c77adce99c8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 22/52] fix: an operation with a return value has no parameter
 without a name

---
 src/Xsmp/Publication/Operation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Operation.cpp b/src/Xsmp/Publication/Operation.cpp
index ff5cdd4..85bc2f5 100644
--- a/src/Xsmp/Publication/Operation.cpp
+++ b/src/Xsmp/Publication/Operation.cpp
@@ -96,7 +96,7 @@ void Operation::PublishParameter(
         std::make_unique<Parameter>(name, description, this, type, direction);
   } else {
     // check do duplicate parameter name
-    if (_returnParameter &&
+    if (name && _returnParameter &&
         std::strcmp(_returnParameter->GetName(), name) == 0) {
       ::Xsmp::Exception::throwDuplicateName(this, name, &_parameters);
     }
@@ -113,7 +113,8 @@ const ::Smp::ParameterCollection *Operation::GetParameters() const {
   if (auto *parameter = _parameters.at(name)) {
     return parameter;
   }
-  if (_returnParameter && std::strcmp(_returnParameter->GetName(), name) == 0) {
+  if (name && _returnParameter &&
+      std::strcmp(_returnParameter->GetName(), name) == 0) {
     return _returnParameter.get();
   }
   return nullptr;
-- 
2.43.0


From fb6412bff8911635e99f96d7b53ed7b8f66c22dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 23/52] fix: the state vector contains the components of the
 simulation

---
 src/Xsmp/Simulator.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 550c0aa..a64a1ce 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -384,7 +384,11 @@ void Store(::Smp::IObject *obj, ::Smp::IStorageWriter *writer) {
     if (composite->GetContainers()) {
       for (auto *container : *composite->GetContainers()) {
         writer->Store(&kind, sizeof(PersistKind));
-        Store(container, writer);
+        if (const auto *components = container->GetComponents()) {
+          for (auto *component : *components) {
+            Store(component, writer);
+          }
+        }
       }
     }
   }
@@ -449,7 +453,11 @@ void Restore(::Smp::IObject *obj, ::Smp::IStorageReader *reader) {
     if (composite->GetContainers()) {
       for (auto *container : *composite->GetContainers()) {
         check(obj, reader, PersistKind::CONTAINER);
-        Restore(container, reader);
+        if (const auto *components = container->GetComponents()) {
+          for (auto *component : *components) {
+            Restore(component, reader);
+          }
+        }
       }
     }
   }
-- 
2.43.0


From eb93e620fe16d2af06ec04362af02437e42870e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 24/52] fix: leaving the Reconnecting state is announced

---
 src/Xsmp/Simulator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index a64a1ce..f111d70 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -520,6 +520,7 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
       }
     });
   }
+  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveReconnectingId);
   _state = ::Smp::SimulatorStateKind::SSK_Standby;
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
-- 
2.43.0


From 4e58b2bbfaabaf919fcdb3adee36dab9623ee457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 25/52] fix: a pending hold is requested once and ends with the
 run

---
 src/Xsmp/Simulator.cpp | 17 ++++++++++-------
 src/Xsmp/Simulator.h   |  2 ++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index f111d70..58cfb84 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -65,12 +65,7 @@ Simulator::Simulator(::Smp::String8 name, ::Smp::String8 description)
       // Hold Immediately Entry Point
       _holdImmediately{
           "HoldImmediately", "", this,
-          [this] {
-            this->_eventManager->Unsubscribe(
-                ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
-                &_holdImmediately);
-            this->Hold(true);
-          }},
+          [this] { this->Hold(true); }},
       // initialize the Type Registry
       _typeRegistry{this} {}
 
@@ -343,6 +338,13 @@ void Simulator::Hold(::Smp::Bool immediate) {
   }
 
   if (immediate) {
+    // this hold also satisfies a pending one
+    if (_holdRequested) {
+      _holdRequested = false;
+      _eventManager->Unsubscribe(
+          ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
+          &_holdImmediately);
+    }
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
 
@@ -350,10 +352,11 @@ void Simulator::Hold(::Smp::Bool immediate) {
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
   } else {
-    if (_eventManager) {
+    if (_eventManager && !_holdRequested) {
       _eventManager->Subscribe(
           ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
           &_holdImmediately);
+      _holdRequested = true;
     }
   }
 }
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 689db34..45d84fe 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -392,6 +392,8 @@ private:
   FactoryCollection _factories;
 
   ::Xsmp::EntryPoint _holdImmediately;
+  // true while _holdImmediately is subscribed
+  bool _holdRequested = false;
 
   // standard services
   ::Smp::Services::ILinkRegistry *_linkRegistry = nullptr;
-- 
2.43.0


From 5f8be1f222e20f1215b11742a026e69d61e83710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 26/52] fix: aborting is final, also from within a transition

---
 src/Xsmp/Simulator.cpp | 66 +++++++++++++++++++++++++++---------------
 src/Xsmp/Simulator.h   |  5 ++++
 2 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 58cfb84..bd0267b 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -209,7 +209,7 @@ void Simulator::Connect() {
     }
     return;
   }
-  _state = ::Smp::SimulatorStateKind::SSK_Connecting;
+  SetState(::Smp::SimulatorStateKind::SSK_Connecting);
 
   recursive_action(this, [this](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
@@ -225,22 +225,41 @@ void Simulator::Connect() {
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveConnectingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
+  SetState(::Smp::SimulatorStateKind::SSK_Initialising);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
+  ExecuteInitEntryPoints();
+
+  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
+
+  SetState(::Smp::SimulatorStateKind::SSK_Standby);
+  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+}
+
+void Simulator::SetState(::Smp::SimulatorStateKind state) {
+  if (_state != ::Smp::SimulatorStateKind::SSK_Aborting) {
+    _state = state;
+  }
+}
+
+void Simulator::ExecuteInitEntryPoints() {
   std::vector<::Smp::IEntryPoint *> entryPoints;
   entryPoints.swap(_initEntryPoints);
   for (auto const *entryPoint : entryPoints) {
+    // the simulation may be aborted by an event handler or an entry point
+    if (_state == ::Smp::SimulatorStateKind::SSK_Aborting) {
+      return;
+    }
     entryPoint->Execute();
   }
-
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
-
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
 void Simulator::EmitGlobalEvent(::Smp::Services::EventId eventId) {
+  // an aborted simulation does not go through the rest of a transition
+  if (_state == ::Smp::SimulatorStateKind::SSK_Aborting &&
+      eventId != ::Smp::Services::IEventManager::SMP_EnterAbortingId) {
+    return;
+  }
   _lastGlobalEventId = eventId;
   if (_eventManager) {
     _eventManager->Emit(eventId);
@@ -263,17 +282,13 @@ void Simulator::Initialise() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
+  SetState(::Smp::SimulatorStateKind::SSK_Initialising);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
-  std::vector<::Smp::IEntryPoint *> entryPoints;
-  entryPoints.swap(_initEntryPoints);
-  for (auto const *entryPoint : entryPoints) {
-    entryPoint->Execute();
-  }
+  ExecuteInitEntryPoints();
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  SetState(::Smp::SimulatorStateKind::SSK_Standby);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 void Simulator::Run() {
@@ -293,7 +308,7 @@ void Simulator::Run() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Executing;
+  SetState(::Smp::SimulatorStateKind::SSK_Executing);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExecutingId);
 }
@@ -348,7 +363,7 @@ void Simulator::Hold(::Smp::Bool immediate) {
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
 
-    _state = ::Smp::SimulatorStateKind::SSK_Standby;
+    SetState(::Smp::SimulatorStateKind::SSK_Standby);
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
   } else {
@@ -413,7 +428,7 @@ void Simulator::Store(::Smp::String8 filename) {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Storing;
+  SetState(::Smp::SimulatorStateKind::SSK_Storing);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStoringId);
 
@@ -422,7 +437,7 @@ void Simulator::Store(::Smp::String8 filename) {
   ::Xsmp::Store(this, &writer);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  SetState(::Smp::SimulatorStateKind::SSK_Standby);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
@@ -481,14 +496,14 @@ void Simulator::Restore(::Smp::String8 filename) {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Restoring;
+  SetState(::Smp::SimulatorStateKind::SSK_Restoring);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterRestoringId);
   StorageReader reader{filename, PERSIST_FILENAME, this};
 
   ::Xsmp::Restore(this, &reader);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  SetState(::Smp::SimulatorStateKind::SSK_Standby);
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
@@ -507,7 +522,7 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
     return;
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Reconnecting;
+  SetState(::Smp::SimulatorStateKind::SSK_Reconnecting);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterReconnectingId);
 
   if (auto const *composite = dynamic_cast<::Smp::IComposite *>(root)) {
@@ -524,7 +539,7 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
     });
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveReconnectingId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+  SetState(::Smp::SimulatorStateKind::SSK_Standby);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
@@ -543,7 +558,7 @@ void Simulator::Exit() {
   }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Exiting;
+  SetState(::Smp::SimulatorStateKind::SSK_Exiting);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExitingId);
 
   // Disconnect all components properly
@@ -556,8 +571,11 @@ void Simulator::Exit() {
 
 void Simulator::Abort() {
 
+  if (_state == ::Smp::SimulatorStateKind::SSK_Aborting) {
+    return;
+  }
+  SetState(::Smp::SimulatorStateKind::SSK_Aborting);
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterAbortingId);
-  _state = ::Smp::SimulatorStateKind::SSK_Aborting;
 }
 
 ::Smp::SimulatorStateKind Simulator::GetState() const { return _state; }
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 45d84fe..5c69c19 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -372,6 +372,11 @@ public:
 private:
   void EmitGlobalEvent(::Smp::Services::EventId eventId);
 
+  // change the state, except in Aborting state, which is final
+  void SetState(::Smp::SimulatorStateKind state);
+
+  void ExecuteInitEntryPoints();
+
   [[nodiscard]] ::Xsmp::Publication::Publication *
   CreatePublication(::Smp::IComponent *component);
 
-- 
2.43.0


From f271099f8d33c13a584a8792b6a42fbbf55f568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 27/52] fix: the hold scheduled by a timed run outlives the
 call

---
 src/Xsmp/Simulator.cpp | 9 +++++----
 src/Xsmp/Simulator.h   | 3 +++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index bd0267b..7822a64 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -66,6 +66,10 @@ Simulator::Simulator(::Smp::String8 name, ::Smp::String8 description)
       _holdImmediately{
           "HoldImmediately", "", this,
           [this] { this->Hold(true); }},
+      // Hold after a given duration Entry Point
+      _holdAfterDuration{"hold",
+                         "call simulator hold after the specified duration",
+                         this, [this] { this->Hold(false); }},
       // initialize the Type Registry
       _typeRegistry{this} {}
 
@@ -329,11 +333,8 @@ void Simulator::Run(::Smp::Duration duration) {
     return;
   }
 
-  ::Xsmp::EntryPoint hold{"hold",
-                          "call simulator hold after the specified duration",
-                          this, [this] { this->Hold(false); }};
   if (_scheduler) {
-    _scheduler->AddSimulationTimeEvent(&hold, duration);
+    _scheduler->AddSimulationTimeEvent(&_holdAfterDuration, duration);
   }
   Run();
 }
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 5c69c19..d79db26 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -397,6 +397,9 @@ private:
   FactoryCollection _factories;
 
   ::Xsmp::EntryPoint _holdImmediately;
+  // scheduled by Run(duration)
+  ::Xsmp::EntryPoint _holdAfterDuration;
+
   // true while _holdImmediately is subscribed
   bool _holdRequested = false;
 
-- 
2.43.0


From 69c5ec929c076640362b9c2d87d7bbbb04bc3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 28/52] fix: the state of the simulator may be read while
 another thread changes it

---
 src/Xsmp/Simulator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index d79db26..9dcbd84 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -29,6 +29,7 @@
 #include <Xsmp/Publication/Publication.h>
 #include <Xsmp/Publication/TypeRegistry.h>
 #include <Xsmp/cstring.h>
+#include <atomic>
 #include <list>
 #include <utility>
 #include <vector>
@@ -385,7 +386,7 @@ private:
 
   std::vector<std::pair<std::string, void *>> _libraries;
 
-  ::Smp::Services::EventId _lastGlobalEventId = -1;
+  std::atomic<::Smp::Services::EventId> _lastGlobalEventId{-1};
 
   Container<::Smp::IService> _services;
   Container<::Smp::IModel> _models;
@@ -401,7 +402,7 @@ private:
   ::Xsmp::EntryPoint _holdAfterDuration;
 
   // true while _holdImmediately is subscribed
-  bool _holdRequested = false;
+  std::atomic_bool _holdRequested{false};
 
   // standard services
   ::Smp::Services::ILinkRegistry *_linkRegistry = nullptr;
@@ -412,7 +413,8 @@ private:
   ::Smp::Services::ILogger *_logger = nullptr;
 
   mutable ::Xsmp::Publication::TypeRegistry _typeRegistry;
-  ::Smp::SimulatorStateKind _state = ::Smp::SimulatorStateKind::SSK_Building;
+  std::atomic<::Smp::SimulatorStateKind> _state{
+      ::Smp::SimulatorStateKind::SSK_Building};
 };
 
 } // namespace Xsmp
-- 
2.43.0


From 42b270b3962ac5c02220f051e699b7a1e303ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 29/52] fix: internal events cannot be changed or removed

---
 src/Xsmp/Services/XsmpScheduler.cpp | 35 ++++++++++++++---------------
 src/Xsmp/Services/XsmpScheduler.h   |  5 +++++
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 0bf6670..a63d441 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -231,15 +231,25 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
   return eventId;
 }
 
+std::map<::Smp::Services::EventId, XsmpScheduler::Event>::iterator
+XsmpScheduler::FindEvent(::Smp::Services::EventId eventId) {
+  // negative ids are reserved for internal events
+  auto it = eventId < 0 ? _events.end() : _events.find(eventId);
+  if (it == _events.end()) {
+    ::Xsmp::Exception::throwInvalidEventId(this, eventId);
+  }
+  return it;
+}
+
 void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
                                  ::Smp::Duration simulationTime,
                                  ::Smp::Duration time,
                                  ::Smp::Services::TimeKind kind) {
 
   const std::scoped_lock lck{_eventsMutex};
-  auto it = _events.find(eventId);
+  auto it = FindEvent(eventId);
 
-  if (it == _events.end() || it->second.kind != kind) {
+  if (it->second.kind != kind) {
     ::Xsmp::Exception::throwInvalidEventId(this, eventId);
   }
   auto &events = _events_table[it->second.nextScheduleSimulationTime];
@@ -291,10 +301,9 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
   {
     auto currentZulu = GetSimulator()->GetTimeKeeper()->GetZuluTime();
     const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
-    auto it = _events.find(event);
+    auto it = FindEvent(event);
 
-    if (it == _events.end() ||
-        it->second.kind != ::Smp::Services::TimeKind::TK_ZuluTime) {
+    if (it->second.kind != ::Smp::Services::TimeKind::TK_ZuluTime) {
       ::Xsmp::Exception::throwInvalidEventId(this, event);
     }
     auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
@@ -317,10 +326,7 @@ void XsmpScheduler::SetEventCycleTime(::Smp::Services::EventId event,
                                       ::Smp::Duration cycleTime) {
 
   const std::scoped_lock lck{_eventsMutex};
-  auto it = _events.find(event);
-  if (it == _events.end()) {
-    ::Xsmp::Exception::throwInvalidEventId(this, event);
-  }
+  auto it = FindEvent(event);
   if (it->second.repeat > 0 && cycleTime <= 0) {
     ::Xsmp::Exception::throwInvalidCycleTime(this, cycleTime);
   }
@@ -331,11 +337,7 @@ void XsmpScheduler::SetEventRepeat(::Smp::Services::EventId event,
                                    ::Smp::Int64 repeat) {
 
   const std::scoped_lock lck{_eventsMutex};
-  auto it = _events.find(event);
-
-  if (it == _events.end()) {
-    ::Xsmp::Exception::throwInvalidEventId(this, event);
-  }
+  auto it = FindEvent(event);
   if (repeat != 0 && it->second.cycleTime <= 0) {
     ::Xsmp::Exception::throwInvalidCycleTime(this, it->second.cycleTime);
   }
@@ -345,10 +347,7 @@ void XsmpScheduler::SetEventRepeat(::Smp::Services::EventId event,
 void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
 
   const std::scoped_lock lck{_eventsMutex};
-  auto it = _events.find(event);
-  if (it == _events.end()) {
-    ::Xsmp::Exception::throwInvalidEventId(this, event);
-  }
+  auto it = FindEvent(event);
   if (_currentEventId == event) {
     it->second.repeat = 0;
     return;
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 45db1f6..95e1090 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -452,6 +452,11 @@ private:
                     ::Smp::Duration simulationTime, ::Smp::Duration time,
                     ::Smp::Services::TimeKind kind);
 
+  /// Find the event with a given id
+  /// @throws Smp::Services::InvalidEventId if there is no such event
+  std::map<::Smp::Services::EventId, Event>::iterator
+  FindEvent(::Smp::Services::EventId eventId);
+
   /// Execute a specific event
   /// @param eventId the event id to execute
   void Execute(::Smp::Services::EventId eventId);
-- 
2.43.0


From e320176be5678433a4b9365c0e983309ff3c0d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 30/52] fix: an event repeated without end needs a positive
 cycle time

---
 src/Xsmp/Services/XsmpScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index a63d441..0f0677b 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -327,7 +327,7 @@ void XsmpScheduler::SetEventCycleTime(::Smp::Services::EventId event,
 
   const std::scoped_lock lck{_eventsMutex};
   auto it = FindEvent(event);
-  if (it->second.repeat > 0 && cycleTime <= 0) {
+  if (it->second.repeat != 0 && cycleTime <= 0) {
     ::Xsmp::Exception::throwInvalidCycleTime(this, cycleTime);
   }
   it->second.cycleTime = cycleTime;
-- 
2.43.0


From a792d7665d3df5ae3eca1e7d417973ad56735ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 31/52] fix: aborting the simulation ends the run

---
 src/Xsmp/Services/XsmpScheduler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 0f0677b..27babfe 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -91,6 +91,9 @@ void XsmpScheduler::DoConnect(const ::Smp::ISimulator *simulator) {
       ::Smp::Services::IEventManager::SMP_EnterExecutingId, &EnterExecuting);
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_LeaveExecutingId, &LeaveExecuting);
+  // an aborted simulation executes no more event
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_EnterAbortingId, &LeaveExecuting);
 
   _zuluThread = std::thread(&XsmpScheduler::InternalZuluRun, this);
 }
-- 
2.43.0


From 7e50d48fd7f9e3c5632ef7265696c3fa58e08ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 32/52] fix: zulu events are scheduled again after a restore

---
 src/Xsmp/Services/XsmpScheduler.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 27babfe..0ab10eb 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -572,9 +572,20 @@ void XsmpScheduler::InternalZuluRun() {
 }
 
 void XsmpScheduler::Restore(::Smp::IStorageReader *reader) {
-  const std::scoped_lock lck{_eventsMutex};
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events, _events_table,
-                           _immediate_events, _lastEventId);
+  {
+    const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
+    ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events,
+                             _events_table, _immediate_events, _lastEventId);
+    // the zulu events are the ones of the restored events
+    _zulu_events_table.clear();
+    for (const auto &[eventId, event] : _events) {
+      if (event.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
+        _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
+            .first->second.emplace(eventId);
+      }
+    }
+  }
+  _zuluCv.notify_one();
 }
 
 void XsmpScheduler::Store(::Smp::IStorageWriter *writer) {
-- 
2.43.0


From 699499b6b8b34aba3f96c5f5f1ceb382d11d0160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:32 +0000
Subject: [PATCH 33/52] fix: a run without end at a low speed does not overflow
 the delay

---
 src/Xsmp/Services/XsmpScheduler.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 0ab10eb..aac55b0 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -602,6 +602,18 @@ void XsmpScheduler::_LeaveExecuting() {
   _holdCv.notify_one();
 }
 
+namespace {
+// zulu duration of a simulation duration, limited to a duration that can be
+// waited for
+::Smp::Duration GetZuluDuration(::Smp::Duration duration, double speed) {
+  static constexpr ::Smp::Duration limit = MaxDuration / 4;
+  const auto result = static_cast<double>(duration) / speed;
+  return result < static_cast<double>(limit)
+             ? static_cast<::Smp::Duration>(result)
+             : limit;
+}
+} // namespace
+
 void XsmpScheduler::_EnterExecuting() {
 
   auto *timeKeeper = GetSimulator()->GetTimeKeeper();
@@ -634,8 +646,7 @@ void XsmpScheduler::_EnterExecuting() {
       return; // exit immediately if hold is requested
     }
     auto duration = it->first - timeKeeper->GetSimulationTime();
-    delay += static_cast<::Smp::Duration>(static_cast<double>(duration) /
-                                          _targetSpeed) -
+    delay += GetZuluDuration(duration, _targetSpeed) -
              (timeKeeper->GetZuluTime() - startZuluTime);
 
     auto endZuluTime = timeKeeper->GetZuluTime();
-- 
2.43.0


From e3b3337a5038142bbe48537ba340133136616e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 34/52] fix: events run in order, once, whoever changes the
 schedule meanwhile

The run loop and the zulu thread kept iterators and references into the
tables while events and handlers changed them: events added, moved or
removed during a run were lost, run twice or used after being freed.
They also took the execution mutex while holding the table mutex, which
could dead-lock, read the tables without protection, let an earlier event
be added by another thread behind the simulation time, and left the zulu
thread waiting for the wrong event when the next one changed.
The next event is now looked up before each execution.
---
 src/Xsmp/Services/XsmpScheduler.cpp | 304 ++++++++++++++--------------
 src/Xsmp/Services/XsmpScheduler.h   |  40 ++--
 2 files changed, 180 insertions(+), 164 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index aac55b0..7f253b4 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -145,6 +145,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
                         ::Smp::Duration cycleTime, ::Smp::Int64 repeat,
                         ::Smp::Services::TimeKind kind) {
 
+  const std::scoped_lock lck{_eventsMutex};
   if (auto currentSimulationTime =
           GetSimulator()->GetTimeKeeper()->GetSimulationTime();
       simulationTime < currentSimulationTime) {
@@ -154,7 +155,6 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
   if (repeat != 0 && cycleTime <= 0) {
     ::Xsmp::Exception::throwInvalidCycleTime(this, cycleTime);
   }
-  const std::scoped_lock lck{_eventsMutex};
 
   ++_lastEventId;
   _events.try_emplace(_lastEventId, Event{entryPoint, simulationTime, time,
@@ -171,7 +171,8 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
 ::Smp::Services::EventId XsmpScheduler::AddSimulationTimeEvent(
     const ::Smp::IEntryPoint *entryPoint, ::Smp::Duration simulationTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
-
+  // the simulation time does not change until the event is scheduled
+  const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration time =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() +
       simulationTime; // TODO check overflow
@@ -182,7 +183,8 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
 ::Smp::Services::EventId XsmpScheduler::AddMissionTimeEvent(
     const ::Smp::IEntryPoint *entryPoint, ::Smp::Duration missionTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
-
+  // the simulation time does not change until the event is scheduled
+  const std::scoped_lock lck{_eventsMutex};
   auto simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + missionTime -
       GetSimulator()->GetTimeKeeper()->GetMissionTime(); // TODO check overflow
@@ -194,7 +196,8 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
 ::Smp::Services::EventId XsmpScheduler::AddEpochTimeEvent(
     const ::Smp::IEntryPoint *entryPoint, ::Smp::DateTime epochTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
-
+  // the simulation time does not change until the event is scheduled
+  const std::scoped_lock lck{_eventsMutex};
   auto simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + epochTime -
       GetSimulator()->GetTimeKeeper()->GetEpochTime(); // TODO check overflow
@@ -255,13 +258,7 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   if (it->second.kind != kind) {
     ::Xsmp::Exception::throwInvalidEventId(this, eventId);
   }
-  auto &events = _events_table[it->second.nextScheduleSimulationTime];
-
-  events.erase(eventId);
-
-  if (events.empty()) {
-    _events_table.erase(it->second.nextScheduleSimulationTime);
-  }
+  Unschedule(eventId, it->second);
   if (simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime()) {
     _events.erase(it);
     return;
@@ -275,7 +272,8 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
 
 void XsmpScheduler::SetEventSimulationTime(::Smp::Services::EventId event,
                                            ::Smp::Duration simulationTime) {
-
+  // the simulation time does not change until the event is scheduled
+  const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration time =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + simulationTime;
   SetEventTime(event, time, time, ::Smp::Services::TimeKind::TK_SimulationTime);
@@ -283,6 +281,8 @@ void XsmpScheduler::SetEventSimulationTime(::Smp::Services::EventId event,
 
 void XsmpScheduler::SetEventMissionTime(::Smp::Services::EventId event,
                                         ::Smp::Duration missionTime) {
+  // the simulation time does not change until the event is scheduled
+  const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + missionTime -
       GetSimulator()->GetTimeKeeper()->GetMissionTime();
@@ -292,6 +292,8 @@ void XsmpScheduler::SetEventMissionTime(::Smp::Services::EventId event,
 
 void XsmpScheduler::SetEventEpochTime(::Smp::Services::EventId event,
                                       ::Smp::DateTime epochTime) {
+  // the simulation time does not change until the event is scheduled
+  const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + epochTime -
       GetSimulator()->GetTimeKeeper()->GetEpochTime();
@@ -309,10 +311,7 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
     if (it->second.kind != ::Smp::Services::TimeKind::TK_ZuluTime) {
       ::Xsmp::Exception::throwInvalidEventId(this, event);
     }
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
+    Unschedule(event, it->second);
     if (zuluTime < currentZulu) {
       _events.erase(it);
       // TODO log warning
@@ -320,6 +319,7 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
     }
 
     it->second.nextScheduleSimulationTime = zuluTime;
+    it->second.time = zuluTime;
     _zulu_events_table.try_emplace(zuluTime).first->second.emplace(event);
   }
   _zuluCv.notify_one();
@@ -351,31 +351,8 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
 
   const std::scoped_lock lck{_eventsMutex};
   auto it = FindEvent(event);
-  if (_currentEventId == event) {
-    it->second.repeat = 0;
-    return;
-  }
-
-  if (it->second.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
-    const std::scoped_lock lckZulu{_zuluEventsTableMutex};
-
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
-    }
-  } else {
-
-    auto &events = _events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
-    }
-  }
+  const std::scoped_lock lckZulu{_zuluEventsTableMutex};
+  Unschedule(event, it->second);
   _events.erase(it);
 }
 
@@ -392,11 +369,62 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
   return std::numeric_limits<::Smp::Duration>::max();
 }
 
-void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
+bool XsmpScheduler::IsScheduled(::Smp::Services::EventId eventId,
+                                const Event &event) const {
+  if (_immediate_events.count(eventId)) {
+    return true;
+  }
+  const auto &table = event.kind == ::Smp::Services::TimeKind::TK_ZuluTime
+                          ? _zulu_events_table
+                          : _events_table;
+  auto it = table.find(event.nextScheduleSimulationTime);
+  return it != table.end() && it->second.count(eventId);
+}
+
+void XsmpScheduler::Unschedule(::Smp::Services::EventId eventId,
+                               const Event &event) {
+  if (_immediate_events.erase(eventId)) {
+    return;
+  }
+  auto &table = event.kind == ::Smp::Services::TimeKind::TK_ZuluTime
+                    ? _zulu_events_table
+                    : _events_table;
+  if (auto it = table.find(event.nextScheduleSimulationTime);
+      it != table.end()) {
+    it->second.erase(eventId);
+    if (it->second.empty()) {
+      table.erase(it);
+    }
+  }
+}
 
+::Smp::Services::EventId
+XsmpScheduler::PopFirst(std::map<::Smp::Duration, EventList> &table) {
+  auto it = table.begin();
+  auto eventId = *it->second.begin();
+  it->second.erase(it->second.begin());
+  if (it->second.empty()) {
+    table.erase(it);
+  }
+  return eventId;
+}
+
+bool XsmpScheduler::ExecuteNextEvent(::Smp::Duration time) {
+
+  const std::scoped_lock execLck{_execMutex};
   std::unique_lock lck{_eventsMutex};
 
-  auto &event = _events.at(eventId);
+  // take the next event: first the immediate ones, then the due ones
+  ::Smp::Services::EventId eventId = -1;
+  if (!_immediate_events.empty()) {
+    eventId = *_immediate_events.begin();
+    _immediate_events.erase(_immediate_events.begin());
+  } else if (!_events_table.empty() && _events_table.begin()->first <= time) {
+    eventId = PopFirst(_events_table);
+  } else {
+    return false;
+  }
+  const auto &event = _events.at(eventId);
 
   // skip event if epoch/mission time has changed and event is in the past
   bool skip = false;
@@ -412,102 +440,89 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
   }
 
   if (!skip) {
-    const std::scoped_lock lck2(_execMutex);
+    const auto *entryPoint = event.entryPoint;
     _currentEventId = eventId;
     lck.unlock();
-    ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
+    ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
     lck.lock();
     _currentEventId = -1;
   }
-
-  if (event.repeat == 0) {
-    // remove the event
-    _events.erase(_events.find(eventId));
-  } else {
-    // decrement the repeat
-    if (event.repeat > 0) {
-      event.repeat--;
-    }
-    // compute the next time the event will be executed
-    event.nextScheduleSimulationTime += event.cycleTime;
-    event.time += event.cycleTime;
-
-    // post the event in the table
-    _events_table.try_emplace(event.nextScheduleSimulationTime)
-        .first->second.emplace(eventId);
-  }
+  Reschedule(eventId);
+  return true;
 }
 
-void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
+bool XsmpScheduler::ExecuteNextZuluEvent() {
 
+  const std::scoped_lock execLck{_execMutex};
   std::unique_lock lck(_eventsMutex);
 
-  auto &event = _events.at(eventId);
+  ::Smp::Services::EventId eventId = -1;
+  {
+    const std::scoped_lock lckZulu{_zuluEventsTableMutex};
+    if (_terminate || _zulu_events_table.empty() ||
+        _zulu_events_table.begin()->first >
+            GetSimulator()->GetTimeKeeper()->GetZuluTime()) {
+      return false;
+    }
+    eventId = PopFirst(_zulu_events_table);
+  }
 
   // execute the event only in executing and standby states
   if (auto state = GetSimulator()->GetState();
       state == ::Smp::SimulatorStateKind::SSK_Executing ||
       state == ::Smp::SimulatorStateKind::SSK_Standby) {
 
-    const std::scoped_lock lck2(_execMutex);
+    const auto *entryPoint = _events.at(eventId).entryPoint;
     _currentEventId = eventId;
     lck.unlock();
-    ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
+    ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
     lck.lock();
     _currentEventId = -1;
   }
 
+  const std::scoped_lock lckZulu{_zuluEventsTableMutex};
+  Reschedule(eventId);
+  return true;
+}
+
+void XsmpScheduler::Reschedule(::Smp::Services::EventId eventId) {
+
+  auto it = _events.find(eventId);
+  // the event may have been removed or scheduled again by its own entry point
+  if (it == _events.end()) {
+    return;
+  }
+  auto &event = it->second;
+  const bool scheduled = IsScheduled(eventId, event);
   if (event.repeat == 0) {
     // remove the event
-    _events.erase(_events.find(eventId));
-  } else {
-    // decrement the repeat
-    if (event.repeat > 0) {
-      event.repeat--;
+    if (!scheduled) {
+      _events.erase(it);
     }
+    return;
+  }
+  // decrement the repeat
+  if (event.repeat > 0) {
+    event.repeat--;
+  }
+  if (!scheduled) {
     // compute the next time the event will be executed
     event.nextScheduleSimulationTime += event.cycleTime;
+    event.time += event.cycleTime;
+
     // post the event in the table
-    const std::scoped_lock lckZulu{_zuluEventsTableMutex};
-    _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
+    auto &table = event.kind == ::Smp::Services::TimeKind::TK_ZuluTime
+                      ? _zulu_events_table
+                      : _events_table;
+    table.try_emplace(event.nextScheduleSimulationTime)
         .first->second.emplace(eventId);
   }
 }
 
-bool XsmpScheduler::ExecuteEvents(EventList &events) {
-
-  // execute all events
-  while (!events.empty()) {
-    // swap the current list of events
-    EventList current;
-    current.swap(events);
-    for (auto it = current.begin(); it != current.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
-        // store un-executed events and exit
-        events.insert(++it, current.end());
-        return false;
-      }
-    }
-  }
-  return true;
-}
-bool XsmpScheduler::ExecuteImmediateEvents() {
-  // execute all events
-  while (!_immediate_events.empty()) {
-    // swap  the current list of events
-    EventList events;
-    events.swap(_immediate_events);
-
-    for (auto it = events.begin(); it != events.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold) {
-        // store un-executed events and exit
-        _immediate_events.insert(++it, events.end());
-        return false;
-      }
+bool XsmpScheduler::ExecuteEvents(::Smp::Duration time) {
+  while (ExecuteNextEvent(time)) {
+    if (_simulationStatus == Status::Hold) {
+      return false;
     }
   }
   return true;
@@ -520,32 +535,10 @@ void XsmpScheduler::InternalZuluRun() {
   while (!_terminate) {
 
     // execute all events with time <= current zulu time
-    for (auto it = _zulu_events_table.begin();
-         it != _zulu_events_table.end() &&
-         it->first <= GetSimulator()->GetTimeKeeper()->GetZuluTime();) {
-
-      // execute all events
-      while (!it->second.empty()) {
-        // swap the event list
-        EventList events;
-        events.swap(it->second);
-
-        // if _zulu_events_table is modified while executing the events,
-        // the implementation guarantee that "it" remains valid and only element
-        // after "it" could be appended
-        for (auto eventId : events) {
-          lck.unlock();
-          ExecuteZulu(eventId);
-          lck.lock();
-          // stop here if terminate signal received during event execution
-          if (_terminate) {
-            return;
-          }
-        }
-      }
-      _zulu_events_table.erase(it);
-      it = _zulu_events_table.begin();
+    lck.unlock();
+    while (ExecuteNextZuluEvent()) {
     }
+    lck.lock();
 
     // wait until next event
     if (_zulu_events_table.empty()) {
@@ -555,17 +548,17 @@ void XsmpScheduler::InternalZuluRun() {
       _zuluCv.wait(
           lck, [this]() { return _terminate || !_zulu_events_table.empty(); });
     } else {
+      const auto next = _zulu_events_table.begin()->first;
       _zuluCv.wait_for(
           lck,
           std::chrono::nanoseconds{
               std::max(static_cast<::Smp::Duration>(0),
-                       _zulu_events_table.begin()->first -
-                           GetSimulator()->GetTimeKeeper()->GetZuluTime())},
-          [this] {
-            return _terminate ||
-                   (!_zulu_events_table.empty() &&
-                    _zulu_events_table.begin()->first <=
-                        GetSimulator()->GetTimeKeeper()->GetZuluTime());
+                       next - GetSimulator()->GetTimeKeeper()->GetZuluTime())},
+          [this, next] {
+            // also exit when another event becomes the next one
+            return _terminate || _zulu_events_table.empty() ||
+                   _zulu_events_table.begin()->first != next ||
+                   next <= GetSimulator()->GetTimeKeeper()->GetZuluTime();
           });
     }
   }
@@ -627,16 +620,13 @@ void XsmpScheduler::_EnterExecuting() {
   ::Smp::Duration delay = 0;
 
   // process all immediate events
-  if (!ExecuteImmediateEvents()) {
+  if (!ExecuteEvents(-1)) {
     return; // exit immediately in case of hold
   }
   auto *eventManager = GetSimulator()->GetEventManager();
 
-  std::unique_lock lck(_eventsMutex);
   // execute all events
-  for (auto it = _events_table.begin(); it != _events_table.end();
-       it = _events_table.erase(it)) {
-    lck.unlock();
+  while (true) {
 
     // notify that simulation time will be changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
@@ -645,7 +635,15 @@ void XsmpScheduler::_EnterExecuting() {
     if (_simulationStatus == Status::Hold) {
       return; // exit immediately if hold is requested
     }
-    auto duration = it->first - timeKeeper->GetSimulationTime();
+    {
+      const std::scoped_lock lck{_eventsMutex};
+      if (_events_table.empty()) {
+        break;
+      }
+    }
+    // the handlers of SMP_PreSimTimeChange may have added or removed events
+    auto time = GetNextScheduledEventTime();
+    auto duration = time - timeKeeper->GetSimulationTime();
     delay += GetZuluDuration(duration, _targetSpeed) -
              (timeKeeper->GetZuluTime() - startZuluTime);
 
@@ -670,18 +668,26 @@ void XsmpScheduler::_EnterExecuting() {
       }
     }
 
-    // change the simulation time
-    timeKeeper->SetSimulationTime(it->first);
+    {
+      const std::scoped_lock lck{_eventsMutex};
+      // another thread may have added an earlier event meanwhile
+      if (!_events_table.empty() && _events_table.begin()->first < time) {
+        delay -= GetZuluDuration(time - _events_table.begin()->first,
+                                 _targetSpeed);
+        time = _events_table.begin()->first;
+      }
+      // change the simulation time
+      timeKeeper->SetSimulationTime(time);
+    }
 
     // notify that simulation time has changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
 
     // process all events (check for eventually events added by
     // SMP_PostSimTimeChangeId )
-    if (!ExecuteImmediateEvents() || !ExecuteEvents(it->second)) {
+    if (!ExecuteEvents(time)) {
       return; // exit immediately in case of hold
     }
-    lck.lock();
   }
 
   _load.clear();
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 95e1090..7b0796f 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -395,8 +395,9 @@ private:
   std::map<::Smp::Duration, EventList> _zulu_events_table;
 
   // Mapping between an EventId and internal data
-  mutable std::mutex _eventsMutex; // protection for _events, _immediate_events,
-                                   // _events_table and _lastEventId
+  // protection for _events, _immediate_events, _events_table, _lastEventId and
+  // _currentEventId
+  mutable std::recursive_mutex _eventsMutex;
   // scheduling table for simu/epoch/mission time events
   std::map<::Smp::Duration, EventList> _events_table;
 
@@ -457,24 +458,33 @@ private:
   std::map<::Smp::Services::EventId, Event>::iterator
   FindEvent(::Smp::Services::EventId eventId);
 
-  /// Execute a specific event
-  /// @param eventId the event id to execute
-  void Execute(::Smp::Services::EventId eventId);
+  /// Return true if an event is in one of the scheduling tables
+  bool IsScheduled(::Smp::Services::EventId eventId, const Event &event) const;
 
-  /// Execute a specific event
-  /// @param eventId the event id to execute
-  void ExecuteZulu(::Smp::Services::EventId eventId);
+  /// Remove an event from the scheduling table it is in, if any
+  void Unschedule(::Smp::Services::EventId eventId, const Event &event);
 
-  /// Execute a list of events
-  /// @param events the vector of events to execute
-  /// @return true if all events have been executed, false if hold immediate is
-  /// requested and we have to exit
-  bool ExecuteEvents(EventList &events);
+  /// Remove and return the first event of a (not empty) scheduling table
+  static ::Smp::Services::EventId
+  PopFirst(std::map<::Smp::Duration, EventList> &table);
+
+  /// Post an event that has been executed again, or remove it
+  void Reschedule(::Smp::Services::EventId eventId);
+
+  /// Execute the next event: an immediate one, or one due at a given time
+  /// @param time the time
+  /// @return false if there is no such event
+  bool ExecuteNextEvent(::Smp::Duration time);
+
+  /// Execute the next zulu event that is due
+  /// @return false if there is no such event
+  bool ExecuteNextZuluEvent();
 
-  /// Execute all immediate events
+  /// Execute all the immediate events and the events due at a given time
+  /// @param time the time
   /// @return true if all events have been executed, false if hold immediate is
   /// requested and we have to exit
-  bool ExecuteImmediateEvents();
+  bool ExecuteEvents(::Smp::Duration time);
 
   void DoConnect(const ::Smp::ISimulator *simulator);
   void DoDisconnect();
-- 
2.43.0


From 0eb2c986787bc63bfafe81f777dd77c503f10439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 35/52] fix: simulation time cannot be set any more after a run
 that was held

---
 src/Xsmp/Services/XsmpScheduler.cpp  | 3 +++
 src/Xsmp/Services/XsmpTimeKeeper.cpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 7f253b4..8c9d26d 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -679,6 +679,9 @@ void XsmpScheduler::_EnterExecuting() {
       // change the simulation time
       timeKeeper->SetSimulationTime(time);
     }
+    if (_simulationStatus == Status::Hold) {
+      return; // hold requested meanwhile, the time may not have been changed
+    }
 
     // notify that simulation time has changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
diff --git a/src/Xsmp/Services/XsmpTimeKeeper.cpp b/src/Xsmp/Services/XsmpTimeKeeper.cpp
index 2694531..08c8e0c 100644
--- a/src/Xsmp/Services/XsmpTimeKeeper.cpp
+++ b/src/Xsmp/Services/XsmpTimeKeeper.cpp
@@ -36,6 +36,10 @@ void XsmpTimeKeeper::DoConnect(const ::Smp::ISimulator *simulator) const {
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_PostSimTimeChangeId,
       &PostSimTimeChange);
+
+  // a run may be held before the simulation time is changed
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_EnterStandbyId, &PostSimTimeChange);
 }
 ::Smp::Duration XsmpTimeKeeper::GetSimulationTime() const {
   return _simulationTime.read().get();
-- 
2.43.0


From c942b2ae76c7e7d02a6a158697c2c5c47046c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:34 +0000
Subject: [PATCH 36/52] fix: a link added while the last one is removed keeps
 its source

---
 src/Xsmp/Services/XsmpLinkRegistry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.cpp b/src/Xsmp/Services/XsmpLinkRegistry.cpp
index f808d0d..b48e50b 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.cpp
+++ b/src/Xsmp/Services/XsmpLinkRegistry.cpp
@@ -61,7 +61,7 @@ XsmpLinkRegistry::GetLinkCount(const ::Smp::IComponent *source,
   it->second--;
   if (it->second == 0) {
     linksAccess.get().erase(it);
-    linksAccess.unlock();
+    // keep the links locked: they have to match the targets
     auto targetsAccess = _targets.write();
     auto it2 = targetsAccess.get().find(target);
     if (it2 != targetsAccess.get().end()) {
-- 
2.43.0


From 3dfd9059c3481f6d9bc2e689e359f74a7805e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:34 +0000
Subject: [PATCH 37/52] fix: components with the same name can link to the same
 target

---
 src/Xsmp/Services/XsmpLinkRegistry.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.h b/src/Xsmp/Services/XsmpLinkRegistry.h
index 0650728..51ffdee 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.h
+++ b/src/Xsmp/Services/XsmpLinkRegistry.h
@@ -128,8 +128,9 @@ private:
                ::Smp::UInt32>>
       _links;
 
-  mutable Xsmp::ThreadSafeData<std::map<const ::Smp::IComponent *,
-                                        ::Xsmp::Collection<::Smp::IComponent>>>
+  // sources of different parents may have the same name
+  using Sources = ::Xsmp::Collection<::Smp::IComponent, true>;
+  mutable Xsmp::ThreadSafeData<std::map<const ::Smp::IComponent *, Sources>>
       _targets;
 };
 } // namespace Xsmp::Services
-- 
2.43.0


From 213789062550288140bd69fd840fe63270d32c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:34 +0000
Subject: [PATCH 38/52] fix: every source is asked to remove its links

---
 src/Xsmp/Services/XsmpLinkRegistry.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.cpp b/src/Xsmp/Services/XsmpLinkRegistry.cpp
index b48e50b..745fa5d 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.cpp
+++ b/src/Xsmp/Services/XsmpLinkRegistry.cpp
@@ -18,6 +18,7 @@
 #include <Xsmp/Services/XsmpLinkRegistry.h>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 namespace Xsmp::Services {
 
@@ -106,17 +107,26 @@ XsmpLinkRegistry::GetLinkSources(const ::Smp::IComponent *target) const {
 }
 
 void XsmpLinkRegistry::RemoveLinks(const ::Smp::IComponent *target) {
-  auto targetAccess = _targets.read();
-  if (auto it = targetAccess.get().find(target);
-      it != targetAccess.get().end()) {
-    for (auto *source : it->second) {
-      if (auto *cmp = dynamic_cast<::Smp::ILinkingComponent *>(source)) {
-        targetAccess.unlock();
-        cmp->RemoveLinks(target);
-        targetAccess.lock();
+  // the sources change while the links are removed
+  std::vector<::Smp::IComponent *> sources;
+  {
+    auto targetAccess = _targets.read();
+    if (auto it = targetAccess.get().find(target);
+        it != targetAccess.get().end()) {
+      for (auto *source : it->second) {
+        sources.push_back(source);
       }
     }
   }
+  for (auto *source : sources) {
+    // a source may have been removed by another one
+    if (GetLinkCount(source, target) == 0) {
+      continue;
+    }
+    if (auto *cmp = dynamic_cast<::Smp::ILinkingComponent *>(source)) {
+      cmp->RemoveLinks(target);
+    }
+  }
 }
 
 } // namespace Xsmp::Services
-- 
2.43.0


From a959a593fa426f008215428976bdabee475c697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:32 +0000
Subject: [PATCH 39/52] fix: a new event identifier can be used as soon as it
 is known

---
 src/Xsmp/Services/XsmpEventManager.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index e6f8c1d..713f6fd 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -107,7 +107,7 @@ XsmpEventManager::QueryEventId(::Smp::String8 eventName) {
 
   const auto &name =
       eventsAccess.get().try_emplace(eventName, eventId).first->first;
-  eventsAccess.unlock();
+  // keep the events locked: the identifier is known once it can be used
   _ids.write().get().try_emplace(eventId, name);
   return eventId;
 }
@@ -199,12 +199,13 @@ void XsmpEventManager::Emit(::Smp::Services::EventId event,
 }
 
 void XsmpEventManager::Restore(::Smp::IStorageReader *reader) {
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events.write().get(),
+  auto eventsAccess = _events.write();
+  auto idsAccess = _ids.write();
+  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, eventsAccess.get(),
                            _subscriptions.write().get());
   // rebuild _ids map from _events
-  auto idsAccess = _ids.write();
   idsAccess.get().clear();
-  for (const auto &[name, id] : _events.read().get()) {
+  for (const auto &[name, id] : eventsAccess.get()) {
     idsAccess.get().try_emplace(id, name);
   }
 }
-- 
2.43.0


From 8d1333c8f9babc548bb07d549286b508dc93f323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:32 +0000
Subject: [PATCH 40/52] fix: an entry point can be executed without a logger

---
 src/Xsmp/Helper.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index 3479504..ae35015 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -57,37 +57,40 @@ void SafeExecute(::Smp::ISimulator *simulator,
                  const ::Smp::IEntryPoint *entryPoint) {
 
   if (simulator) {
+    // the simulator may have no logger
+    auto log = [simulator](const ::Smp::IObject *sender,
+                           ::Smp::String8 message,
+                           ::Smp::Services::LogMessageKind kind) {
+      if (auto *logger = simulator->GetLogger()) {
+        logger->Log(sender, message, kind);
+      }
+    };
     try {
-      simulator->GetLogger()->Log(entryPoint, "Execute()",
-                                  ::Smp::Services::ILogger::LMK_Debug);
+      log(entryPoint, "Execute()", ::Smp::Services::ILogger::LMK_Debug);
 
       entryPoint->Execute();
 
-      simulator->GetLogger()->Log(entryPoint, "return from Execute()",
-                                  ::Smp::Services::ILogger::LMK_Debug);
+      log(entryPoint, "return from Execute()",
+          ::Smp::Services::ILogger::LMK_Debug);
     }
     // SMP Exception
     catch (const ::Smp::Exception &e) {
       auto msg =
           std::string("Exception ") + e.GetName() + " thrown during execution.";
-      simulator->GetLogger()->Log(entryPoint, msg.c_str(),
-                                  ::Smp::Services::ILogger::LMK_Error);
-      simulator->GetLogger()->Log(e.GetSender(), e.what(),
-                                  ::Smp::Services::ILogger::LMK_Error);
+      log(entryPoint, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
+      log(e.GetSender(), e.what(), ::Smp::Services::ILogger::LMK_Error);
       simulator->Abort();
     }
     // standard c++ exception
     catch (const std::exception &e) {
 
       auto msg = std::string("Exception thrown during execution: ") + e.what();
-      simulator->GetLogger()->Log(entryPoint, msg.c_str(),
-                                  ::Smp::Services::ILogger::LMK_Error);
+      log(entryPoint, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
       simulator->Abort();
     }
     // other exceptions
     catch (...) {
-      simulator->GetLogger()->Log(
-          entryPoint, "Unexpected exception thrown during execution.",
+      log(entryPoint, "Unexpected exception thrown during execution.",
           ::Smp::Services::ILogger::LMK_Error);
       simulator->Abort();
     }
-- 
2.43.0


From 6ded41bb64c2eae5ac67e6733aae008b083d1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 41/52] fix: events can be scheduled without a logger

---
 src/Xsmp/Services/XsmpScheduler.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 8c9d26d..e0924b1 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -162,8 +162,10 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
 
   _events_table.try_emplace(simulationTime).first->second.emplace(_lastEventId);
 
-  GetSimulator()->GetLogger()->Log(entryPoint, "Event posted",
-                                   ::Smp::Services::ILogger::LMK_Debug);
+  if (auto *logger = GetSimulator()->GetLogger()) {
+    logger->Log(entryPoint, "Event posted",
+                ::Smp::Services::ILogger::LMK_Debug);
+  }
 
   return _lastEventId;
 }
@@ -232,8 +234,10 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
   }
   _zuluCv.notify_one();
 
-  GetSimulator()->GetLogger()->Log(entryPoint, "Event posted",
-                                   ::Smp::Services::ILogger::LMK_Debug);
+  if (auto *logger = GetSimulator()->GetLogger()) {
+    logger->Log(entryPoint, "Event posted",
+                ::Smp::Services::ILogger::LMK_Debug);
+  }
   return eventId;
 }
 
-- 
2.43.0


From 7cdaf508ec846d367bfff87065b77ac3bac932d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 42/52] fix: a factory registered twice is refused but not
 deleted

---
 src/Xsmp/FactoryCollection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Xsmp/FactoryCollection.cpp b/src/Xsmp/FactoryCollection.cpp
index 1ab8aa5..3d2fbd2 100644
--- a/src/Xsmp/FactoryCollection.cpp
+++ b/src/Xsmp/FactoryCollection.cpp
@@ -59,6 +59,10 @@ void FactoryCollection::Add(::Smp::IFactory *factory) {
 
   auto factoryPointer = std::unique_ptr<::Smp::IFactory>(factory);
   if (auto it = _uuid_map.find(factory->GetUuid()); it != _uuid_map.end()) {
+    // the factory is still registered: do not delete it
+    if (it->second.get() == factory) {
+      static_cast<void>(factoryPointer.release());
+    }
     ::Xsmp::Exception::throwDuplicateUuid(this, it->second.get(),
                                           factory->GetName());
   }
-- 
2.43.0


From 99beea35dece5d41cab112fd009de1c95c7a3959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:47 +0000
Subject: [PATCH 43/52] fix: a state vector is stored without path, and every
 failure to store it is reported

---
 src/Xsmp/Simulator.cpp     |  3 +++
 src/Xsmp/StorageWriter.cpp | 22 +++++++++++++++++++---
 src/Xsmp/StorageWriter.h   |  4 ++++
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 7822a64..c448cd3 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -437,6 +437,9 @@ void Simulator::Store(::Smp::String8 filename) {
 
   ::Xsmp::Store(this, &writer);
 
+  // report data that could not be written
+  writer.Flush();
+
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
   SetState(::Smp::SimulatorStateKind::SSK_Standby);
 
diff --git a/src/Xsmp/StorageWriter.cpp b/src/Xsmp/StorageWriter.cpp
index ba55a33..41f0b1d 100644
--- a/src/Xsmp/StorageWriter.cpp
+++ b/src/Xsmp/StorageWriter.cpp
@@ -17,6 +17,7 @@
 #include <Xsmp/StorageWriter.h>
 #include <fstream>
 #include <iostream>
+#include <system_error>
 
 #if !defined(__clang__) && defined(__GNUC__) && __GNUC__ <= 7
 #include <experimental/filesystem>
@@ -31,10 +32,17 @@ namespace Xsmp {
 namespace {
 std::ofstream createOutputStream(::Smp::String8 path, ::Smp::String8 filename,
                                  const ::Smp::IObject *object) {
-  if (!fs::is_directory(path ? path : "")) {
-    fs::create_directories(path ? path : "");
+  // an empty path is the current directory
+  auto directory = fs::path(path ? path : "");
+  if (!directory.empty() && !fs::is_directory(directory)) {
+    std::error_code error;
+    fs::create_directories(directory, error);
+    if (error) {
+      ::Xsmp::Exception::throwCannotStore(
+          object, "Cannot create directory: " + directory.string());
+    }
   }
-  auto fullPath = fs::path(path ? path : "") / (filename ? filename : "");
+  auto fullPath = directory / (filename ? filename : "");
   std::ofstream outputStream{fullPath, std::ios::binary};
 
   if (!outputStream.good()) {
@@ -62,6 +70,14 @@ void StorageWriter::Store(void *address, ::Smp::UInt64 size) {
   }
 }
 
+void StorageWriter::Flush() {
+  _os.flush();
+  if (!_os.good()) {
+    ::Xsmp::Exception::throwCannotStore(_object,
+                                        "Writing error on output operation");
+  }
+}
+
 ::Smp::String8 StorageWriter::GetStateVectorFileName() const {
   return _filename.c_str();
 }
diff --git a/src/Xsmp/StorageWriter.h b/src/Xsmp/StorageWriter.h
index 56358ec..e1f5e3f 100644
--- a/src/Xsmp/StorageWriter.h
+++ b/src/Xsmp/StorageWriter.h
@@ -42,6 +42,10 @@ public:
   /// @param   size Size of memory block.
   void Store(void *address, ::Smp::UInt64 size) override;
 
+  /// Write the data stored so far to the file.
+  /// @throws ::Smp::CannotStore if some data could not be written.
+  void Flush();
+
   /// Get the state vector file name.
   /// This method returns a full file name, including the path to the
   /// file.
-- 
2.43.0


From 8d0c5cd103d366f30f159e240584b937ce051c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:15 +0000
Subject: [PATCH 44/52] fix: an incomplete layout pattern of the logger is not
 read past its end

---
 src/Xsmp/Services/XsmpLogger.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index 6bf3ea8..c6493f0 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -199,9 +199,9 @@ public:
   void Append(std::ostream &stream, const LogEntry &entry) const override {
     using namespace std::chrono;
 
-    auto format = [&stream](std::string::const_iterator &it,
-                            const auto &value) {
-      if (auto fmt = GetFormatting(it); fmt.empty()) {
+    auto format = [this, &stream](std::string::const_iterator &it,
+                                  const auto &value) {
+      if (auto fmt = GetFormatting(it, _pattern.end()); fmt.empty()) {
         stream << static_cast<::Smp::Int64>(value);
       } else {
         value.to_stream(stream, fmt);
@@ -212,6 +212,11 @@ public:
     while (it != _pattern.end()) {
       if (*it == '%') {
         ++it;
+        // the pattern ends with a single %
+        if (it == _pattern.end()) {
+          stream << '%';
+          break;
+        }
         switch (*it) {
         case 'p':
           stream << entry.sender;
@@ -284,16 +289,16 @@ private:
     // use default pattern
     return "%d{%F %T}%t%S%t%p%t%k%t%m%n";
   }
-  static std::string GetFormatting(std::string::const_iterator &it) noexcept {
-    std::string formatting;
-    if (it[1] == '{') {
-      it += 2;
-      while (*it != '}') {
-        formatting.push_back(*it);
-        ++it;
+  static std::string GetFormatting(std::string::const_iterator &it,
+                                   std::string::const_iterator end) {
+    // a format is enclosed between braces
+    if (auto open = std::next(it); open != end && *open == '{') {
+      if (auto close = std::find(open, end, '}'); close != end) {
+        it = close;
+        return {std::next(open), close};
       }
     }
-    return formatting;
+    return {};
   }
 };
 class Appender {
-- 
2.43.0


From fb7869c5ae064dd0790681af5bf50abbd2c3ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:15 +0000
Subject: [PATCH 45/52] fix: an appender with an unknown layout uses the
 default one

---
 src/Xsmp/Services/XsmpLogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index c6493f0..38b21dc 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -320,7 +320,7 @@ public:
       }
     }
     // create a PatternLayout by default
-    else {
+    if (!_layout) {
       _layout = std::make_unique<PatternLayout>(key, properties);
     }
     if (auto levels = properties.find(path + ".levels");
-- 
2.43.0


From 3e5113eec3bfdfbba751bac4b0cdf4fbfed37a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:15 +0000
Subject: [PATCH 46/52] fix: a message without text can be logged

---
 src/Xsmp/Services/XsmpLogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index 38b21dc..735473d 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -461,7 +461,7 @@ private:
             ::Smp::Duration simulationTime, ::Smp::DateTime epochTime,
             ::Smp::Duration missionTime) {
     const std::scoped_lock lck(_mutex);
-    _logs.push({::Xsmp::Helper::GetPath(sender), msg, kind,
+    _logs.push({::Xsmp::Helper::GetPath(sender), msg ? msg : "", kind,
                 Xsmp::DateTime{zuluTime}, Xsmp::Duration{simulationTime},
                 Xsmp::DateTime{epochTime}, Xsmp::Duration{missionTime}});
   }
-- 
2.43.0


From 7fe65fa1805c2b2a6d3fdb912c2da846d873cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:13 +0000
Subject: [PATCH 47/52] fix: writing a variant or a UUID keeps the settings of
 the stream and the right text

---
 src/Smp/StreamOperators.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/Smp/StreamOperators.cpp b/src/Smp/StreamOperators.cpp
index d9d45ef..d90a83f 100644
--- a/src/Smp/StreamOperators.cpp
+++ b/src/Smp/StreamOperators.cpp
@@ -208,14 +208,23 @@ std::ostream &operator<<(std::ostream &os, const AnySimple &obj) {
       if (obj.value.char8Value >= ' ' && obj.value.char8Value <= '~') {
         return os << "'" << obj.value.char8Value << "'";
       } else {
-        return os << "'\\" << std::oct
-                  << static_cast<unsigned int>(obj.value.char8Value) << std::dec
-                  << "'";
+        const auto flags =
+            os.setf(std::ios_base::oct, std::ios_base::basefield);
+        os << "'\\"
+           << static_cast<unsigned int>(
+                  static_cast<unsigned char>(obj.value.char8Value))
+           << "'";
+        os.flags(flags);
+        return os;
       }
     }
   }
-  case PrimitiveTypeKind::PTK_Bool:
-    return os << std::boolalpha << obj.value.boolValue << std::noboolalpha;
+  case PrimitiveTypeKind::PTK_Bool: {
+    const auto flags = os.setf(std::ios_base::boolalpha);
+    os << obj.value.boolValue;
+    os.flags(flags);
+    return os;
+  }
   case PrimitiveTypeKind::PTK_Int8:
     return os << static_cast<int>(obj.value.int8Value) << "i8";
   case PrimitiveTypeKind::PTK_UInt8:
@@ -249,7 +258,11 @@ std::ostream &operator<<(std::ostream &os, const AnySimple &obj) {
 
 std::ostream &operator<<(std::ostream &ostream, const ::Smp::Uuid &uuid) {
 
-  ostream << std::hex << std::setw(8) << std::setfill('0') << uuid.Data1;
+  const auto flags =
+      ostream.flags(std::ios_base::hex | std::ios_base::right);
+  const auto fill = ostream.fill('0');
+
+  ostream << std::setw(8) << uuid.Data1;
 
   ostream << "-" << std::setw(4) << uuid.Data2[0];
   ostream << "-" << std::setw(4) << uuid.Data2[1];
@@ -260,7 +273,8 @@ std::ostream &operator<<(std::ostream &ostream, const ::Smp::Uuid &uuid) {
   for (const std::uint16_t data : uuid.Data3) {
     ostream << std::setw(2) << data;
   }
-  ostream << std::setfill(' ') << std::dec;
+  ostream.fill(fill);
+  ostream.flags(flags);
 
   return ostream;
 }
-- 
2.43.0


From 50dcbd8b026996bbbbcca248382f79a91d20dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:13 +0000
Subject: [PATCH 48/52] fix: writing a variant with a null text does not break
 the stream

---
 src/Smp/StreamOperators.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Smp/StreamOperators.cpp b/src/Smp/StreamOperators.cpp
index d90a83f..a4f2380 100644
--- a/src/Smp/StreamOperators.cpp
+++ b/src/Smp/StreamOperators.cpp
@@ -250,7 +250,8 @@ std::ostream &operator<<(std::ostream &os, const AnySimple &obj) {
   case PrimitiveTypeKind::PTK_DateTime:
     return os << "\"" << ::Xsmp::DateTime(obj.value.dateTimeValue) << "\"";
   case PrimitiveTypeKind::PTK_String8:
-    return os << "\"" << obj.value.string8Value << "\"";
+    return os << "\""
+              << (obj.value.string8Value ? obj.value.string8Value : "") << "\"";
   }
   return os << "<invalid AnySimple type=\""
             << static_cast<::Smp::Int32>(obj.type) << "\">";
-- 
2.43.0


From 0587bc0e805517e6ead5f57591a0b966879f8bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:13 +0000
Subject: [PATCH 49/52] fix: a duration read from an invalid text is not
 indeterminate

---
 src/Xsmp/Duration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Duration.cpp b/src/Xsmp/Duration.cpp
index c3d1a82..2ae859b 100644
--- a/src/Xsmp/Duration.cpp
+++ b/src/Xsmp/Duration.cpp
@@ -30,7 +30,7 @@ static_assert(std::is_standard_layout_v<::Xsmp::Duration>,
 
 namespace {
 ::Smp::Duration from(std::istream &inputStream, const char *fmt) {
-  std::chrono::nanoseconds timePoint;
+  std::chrono::nanoseconds timePoint{};
   inputStream >> date::parse(fmt, timePoint);
   return timePoint.count();
 }
-- 
2.43.0


From 09d347c5ed13f57994e0fae1596275299d1200ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:48 +0000
Subject: [PATCH 50/52] fix: loading a library without a name is refused with a
 logger too

---
 src/Xsmp/Simulator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index c448cd3..9cb747d 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -702,7 +702,9 @@ void Simulator::LoadLibrary(::Smp::String8 libraryPath) {
   if (_logger) {
     _logger->Log(
         this,
-        ("Loading '" + std::string(libraryPath) + "' library ...").c_str(),
+        ("Loading '" + std::string(libraryPath ? libraryPath : "<null>") +
+         "' library ...")
+            .c_str(),
         ::Smp::Services::ILogger::LMK_Debug);
   }
   void *handle = ::Xsmp::LoadLibrary(libraryPath);
-- 
2.43.0


From 5016f46b6464bd0759286edb1d45338615edac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:14 +0000
Subject: [PATCH 51/52] fix: the expected and the invalid type of a rejected
 value are not exchanged

---
 src/Smp/AnySimple.cpp  | 56 +++++++++++++++++++++---------------------
 src/Xsmp/EventSink.cpp |  4 +--
 2 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index 5758b59..0800105 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -678,23 +678,23 @@ AnySimple::operator ::Smp::Bool() const {
   case PrimitiveTypeKind::PTK_String8:
     return this->value.string8Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Bool);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Bool,
+                                           type);
   }
 }
 
 AnySimple::operator ::Smp::Char8() const {
   if (type != PrimitiveTypeKind::PTK_Char8) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Char8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Char8,
+                                           type);
   }
   return this->value.char8Value;
 }
 
 AnySimple::operator ::Smp::String8() const {
   if (type != PrimitiveTypeKind::PTK_String8) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_String8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_String8,
+                                           type);
   }
   return this->value.string8Value;
 }
@@ -731,8 +731,8 @@ AnySimple::operator ::Smp::UInt8() const {
     return convertIntegral<::Smp::UInt8>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_UInt8);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_UInt8,
+                                           type);
   }
 }
 
@@ -767,8 +767,8 @@ AnySimple::operator ::Smp::UInt16() const {
     return convertIntegral<::Smp::UInt16>(value.uInt64Value, type,
                                           PrimitiveTypeKind::PTK_UInt16);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt16);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_UInt16,
+                                           type);
   }
 }
 
@@ -802,8 +802,8 @@ AnySimple::operator ::Smp::UInt32() const {
     return convertIntegral<::Smp::UInt32>(value.uInt64Value, type,
                                           PrimitiveTypeKind::PTK_UInt32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt32);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_UInt32,
+                                           type);
   }
 }
 
@@ -836,8 +836,8 @@ AnySimple::operator ::Smp::UInt64() const {
   case PrimitiveTypeKind::PTK_UInt64:
     return this->value.uInt64Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt64);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_UInt64,
+                                           type);
   }
 }
 
@@ -873,8 +873,8 @@ AnySimple::operator ::Smp::Int8() const {
     return convertIntegral<::Smp::Int8>(value.uInt64Value, type,
                                         PrimitiveTypeKind::PTK_Int8);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Int8,
+                                           type);
   }
 }
 
@@ -908,8 +908,8 @@ AnySimple::operator ::Smp::Int16() const {
     return convertIntegral<::Smp::Int16>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int16);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int16);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Int16,
+                                           type);
   }
 }
 
@@ -941,8 +941,8 @@ AnySimple::operator ::Smp::Int32() const {
     return convertIntegral<::Smp::Int32>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int32);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Int32,
+                                           type);
   }
 }
 
@@ -970,8 +970,8 @@ AnySimple::operator ::Smp::Int64() const {
     return convertIntegral<::Smp::Int64>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int64);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int64);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Int64,
+                                           type);
   }
 }
 
@@ -1004,8 +1004,8 @@ AnySimple::operator ::Smp::Float32() const {
     return convertFloat<::Smp::Float32>(value.float64Value, type,
                                         PrimitiveTypeKind::PTK_Float32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Float32);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Float32,
+                                           type);
   }
 }
 
@@ -1034,8 +1034,8 @@ AnySimple::operator ::Smp::Float64() const {
   case PrimitiveTypeKind::PTK_Float64:
     return this->value.float64Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Float64);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Float64,
+                                           type);
   }
 }
 
@@ -1045,8 +1045,8 @@ AnySimple::operator ::Smp::Float64() const {
     this->value.string8Value = nullptr;
     return result;
   }
-  ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                         PrimitiveTypeKind::PTK_String8);
+  ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_String8,
+                                           type);
 }
 
 ::Smp::PrimitiveTypeKind AnySimple::GetType() const noexcept { return type; }
diff --git a/src/Xsmp/EventSink.cpp b/src/Xsmp/EventSink.cpp
index 7145388..fe0ac84 100644
--- a/src/Xsmp/EventSink.cpp
+++ b/src/Xsmp/EventSink.cpp
@@ -59,8 +59,8 @@ EventSink<void>::EventSink(::Smp::String8 name, ::Smp::String8 description,
 
 void EventSink<void>::Notify(::Smp::IObject *sender, ::Smp::AnySimple value) {
   if (value.GetType() != GetEventArgType()) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, value.GetType(),
-                                           GetEventArgType());
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, GetEventArgType(),
+                                           value.GetType());
   }
   _callback(sender);
 }
-- 
2.43.0


From 07e80a0c33cb782827c829026548776d0c2f3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:37 +0000
Subject: [PATCH 52/52] fix: refuse a published field whose name is borne by a
 field published by reference

---
 src/Xsmp/Publication/Publication.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Xsmp/Publication/Publication.cpp b/src/Xsmp/Publication/Publication.cpp
index 759905a..ddad4f1 100644
--- a/src/Xsmp/Publication/Publication.cpp
+++ b/src/Xsmp/Publication/Publication.cpp
@@ -34,6 +34,17 @@
 
 namespace Xsmp::Publication {
 
+namespace {
+// the name of a field is unique in the publication, whatever the way its fields
+// are published
+void checkDuplicateField(const ::Smp::FieldCollection &fields,
+                         ::Smp::String8 name) {
+  if (fields.at(name)) {
+    ::Xsmp::Exception::throwDuplicateName(&fields, name, &fields);
+  }
+}
+} // namespace
+
 Publication::Publication(::Smp::IObject *parent,
                          ::Smp::Publication::ITypeRegistry *typeRegistry)
     : _parent(parent), _typeRegistry{typeRegistry},
@@ -146,6 +157,7 @@ void Publication::PublishField(::Smp::String8 name, ::Smp::String8 description,
                                ::Smp::ViewKind view, ::Smp::Bool state,
                                ::Smp::Bool input, ::Smp::Bool output) {
   if (auto const *type = _typeRegistry->GetType(typeUuid)) {
+    checkDuplicateField(_allFields, name);
     _fields.Add(Field::Create(name, description, _parent, address, type, view,
                               state, input, output));
   } else {
@@ -160,6 +172,7 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                ::Smp::PrimitiveTypeKind type,
                                ::Smp::ViewKind view, ::Smp::Bool state,
                                ::Smp::Bool input, ::Smp::Bool output) {
+  checkDuplicateField(_allFields, name);
   if (output) {
     _fields.Add<AnonymousSimpleArrayDataflowField>(
         name, description, _parent, count, address,
@@ -175,6 +188,7 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                                ::Smp::String8 description,
                                                ::Smp::ViewKind view,
                                                ::Smp::Bool state) {
+  checkDuplicateField(_allFields, name);
   return _fields.Add<AnonymousArrayField>(name, description, _parent,
                                           _typeRegistry, view, state);
 }
@@ -183,6 +197,7 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                                    ::Smp::String8 description,
                                                    ::Smp::ViewKind view,
                                                    ::Smp::Bool state) {
+  checkDuplicateField(_allFields, name);
   return _fields.Add<AnonymousStructureField>(name, description, _parent,
                                               _typeRegistry, view, state);
 }
-- 
2.43.0

