From 9154076d0f242f0e22c3a4bcc2827dca6e9d7045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 1/9] fix: division and modulus of the most negative integer by
 -1 must not trap

---
 src/expr/calc/arithmetic.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/expr/calc/arithmetic.h b/src/expr/calc/arithmetic.h
index 5d26385..90ff117 100644
--- a/src/expr/calc/arithmetic.h
+++ b/src/expr/calc/arithmetic.h
@@ -15,6 +15,8 @@
 #ifndef _EXPR_CALC_ARITHMETIC_H_
 #define _EXPR_CALC_ARITHMETIC_H_
 
+#include <type_traits>
+
 #include "../operand.h"
 
 namespace dingodb::expr::calc {
@@ -47,6 +49,12 @@ T Mul(T v0, T v1) {
 template <typename T>
 Operand Div(T v0, T v1) {
   if (v1 != 0) {
+    if constexpr (std::is_integral_v<T>) {
+      // The quotient of the most negative value and -1 wraps instead of trapping.
+      if (v1 == -1) {
+        return static_cast<T>(-static_cast<std::make_unsigned_t<T>>(v0));
+      }
+    }
     return v0 / v1;
   }
   return nullptr;
@@ -55,6 +63,10 @@ Operand Div(T v0, T v1) {
 template <typename T>
 Operand Mod(T v0, T v1) {
   if (v1 != 0) {
+    if (v1 == -1) {
+      // Avoid the trap for the most negative value.
+      return static_cast<T>(0);
+    }
     return v0 % v1;
   }
   return nullptr;
-- 
2.43.0


From e6512b608720908922ebf03b9c7847e177e3e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 2/9] fix: reject type nibbles outside the operator tables when
 decoding

---
 src/expr/operator_vector.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index d369f69..b72b20a 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -374,6 +374,9 @@ eoe:
 }
 
 bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
+  if (type >= TYPE_NUM) {
+    return false;
+  }
   const auto *op = ops[type];
   if (op != nullptr) {
     Add(op);
@@ -385,8 +388,12 @@ bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
 bool OperatorVector::AddCastOperator(const Operator *const ops[][TYPE_NUM], Byte b) {
   Byte dst = (Byte)(b >> 4);
   Byte src = (Byte)(b & 0x0F);
+  if (dst >= TYPE_NUM || src >= TYPE_NUM) {
+    return false;
+  }
   if (dst == src) {
-    return true;
+    // Casting to the same type is a no-op, but only for the types supported.
+    return OP_NULL[dst] != nullptr;
   }
   const auto *op = ops[dst][src];
   if (op != nullptr) {
-- 
2.43.0


From a3d6757f52f24e7fef916a20c8110e3fda1c4b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 3/9] fix: reject DECIMAL constants instead of silently
 dropping them

---
 src/expr/operator_vector.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index b72b20a..8016d81 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -152,11 +152,10 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
-    case CONST_DECIMAL: {
-      ++p;
-      // TODO
+    case CONST_DECIMAL:
+      // Not supported yet.
+      successful = false;
       break;
-    }
     case CONST_STRING: {
       ++p;
       String v;
-- 
2.43.0


From 0fe4a0b384a0271cd1dda14648dec3561be6c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 4/9] fix: raise an error on operand stack underflow instead of
 reading out of the stack

---
 src/expr/operand_stack.h   | 8 ++++++++
 src/expr/operator_vector.h | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/expr/operand_stack.h b/src/expr/operand_stack.h
index 0a80ff1..7d63edc 100644
--- a/src/expr/operand_stack.h
+++ b/src/expr/operand_stack.h
@@ -30,10 +30,12 @@ class OperandStack {
   virtual ~OperandStack() = default;
 
   void Pop() {
+    CheckNotEmpty();
     m_stack.pop_back();
   }
 
   Operand Get() const {
+    CheckNotEmpty();
     return m_stack.back();
   }
 
@@ -82,6 +84,12 @@ class OperandStack {
   }
 
  private:
+  void CheckNotEmpty() const {
+    if (m_stack.empty()) {
+      throw std::runtime_error("Operand stack underflow.");
+    }
+  }
+
   std::deque<Operand> m_stack;
   const Tuple *m_tuple;
 };
diff --git a/src/expr/operator_vector.h b/src/expr/operator_vector.h
index 382df2c..3526182 100644
--- a/src/expr/operator_vector.h
+++ b/src/expr/operator_vector.h
@@ -32,7 +32,7 @@ class OperatorVector {
   const Byte *Decode(const Byte code[], size_t len);
 
   Byte GetType() const {
-    return m_vector.back()->GetType();
+    return !m_vector.empty() ? m_vector.back()->GetType() : TYPE_NULL;
   }
 
   auto begin() const  // NOLINT(readability-identifier-naming)
-- 
2.43.0


From 58ce1dab26e15f3ee97e2bb5fba3769578630410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 5/9] fix: SUBSTR yields the empty string for empty or
 out-of-range requests

---
 src/expr/calc/string_fun.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr/calc/string_fun.cc b/src/expr/calc/string_fun.cc
index 9337ee4..08e0424 100644
--- a/src/expr/calc/string_fun.cc
+++ b/src/expr/calc/string_fun.cc
@@ -93,6 +93,9 @@ String Substr(String v0, int32_t v1, int32_t v2) {
   if (v1 < 0) {
     v1 = 0;
   }
+  if (v1 >= len || v2 <= v1) {
+    return String();
+  }
   if (v1 == 0) {
     if (v2 >= len) {
       return v0;
@@ -113,6 +116,9 @@ String Substr(String v0, int32_t v1) {
   if (v1 < 0) {
     v1 = 0;
   }
+  if (v1 >= len) {
+    return String();
+  }
   if (v1 == 0) {
     return v0;
   } else {
-- 
2.43.0


From 765556bf56f730117c40d515d3379e476af058a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 6/9] fix: never read past the end of the code buffer when
 decoding

---
 src/expr/codec.cc           | 62 +++++++++++++++++++++++++------------
 src/expr/codec.h            | 28 +++++++++--------
 src/expr/exception.h        |  6 ++++
 src/expr/operator_vector.cc | 33 +++++++++++---------
 src/rel/rel_runner.cc       | 53 +++++++++++++++----------------
 src/rel/rel_runner.h        |  8 ++---
 6 files changed, 113 insertions(+), 77 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 014bb00..1b13297 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -24,67 +24,89 @@
 
 namespace dingodb::expr {
 
+// A VarInt has 10 bytes at most, in which the bits beyond the width of the type are dropped.
+static const int MAX_VARINT_SHIFT = 63;
+
 template <typename T>
-static const Byte *DecodeVarint(T &value, const Byte *data) {
+static const Byte *DecodeVarint(T &value, const Byte *data, const Byte *end) {
   value = 0;
   const Byte *p;
   int shift = 0;
-  for (p = data; ((*p) & 0x80) != 0; ++p) {
-    value |= ((T)(*p & 0x7F) << shift);
+  for (p = data; p < end && ((*p) & 0x80) != 0; ++p) {
+    if (shift >= MAX_VARINT_SHIFT) {
+      throw TruncatedCode();
+    }
+    if (shift < (int)sizeof(T) * 8) {
+      value |= ((T)(*p & 0x7F) << shift);
+    }
     shift += 7;
   }
-  value |= ((T)(*p) << shift);
+  if (p >= end) {
+    throw TruncatedCode();
+  }
+  if (shift < (int)sizeof(T) * 8) {
+    value |= ((T)(*p) << shift);
+  }
   return p + 1;
 }
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data) {
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end) {
+  if (end - data < 4) {
+    throw TruncatedCode();
+  }
   uint32_t l = be32toh(*(uint32_t *)data);
   value = *(float *)&l;
   return data + 4;
 }
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data) {
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end) {
+  if (end - data < 8) {
+    throw TruncatedCode();
+  }
   uint64_t l = be64toh(*(uint64_t *)data);
   value = *(double *)&l;
   return data + 8;
 }
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data) {
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end) {
   uint32_t len;
-  const Byte *p = DecodeValue(len, data);
+  const Byte *p = DecodeValue(len, data, end);
+  if (end - p < len) {
+    throw TruncatedCode();
+  }
   value = String(reinterpret_cast<const char *>(p), len);
   return p + len;
 }
diff --git a/src/expr/codec.h b/src/expr/codec.h
index d33bad7..d2cef7b 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -29,44 +29,46 @@ namespace dingodb::expr {
  * @tparam T type of the value
  * @param value reference to the value
  * @param data code buffer
+ * @param end the end of the code buffer, which must not be read
  * @return const Byte* point to the next byte of the bytes used
+ * @throw TruncatedCode if the encoding is not complete or too long
  */
 template <typename T>
-const Byte *DecodeValue(T &value, const Byte *data);
+const Byte *DecodeValue(T &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data);
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data);
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data);
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end);
 
 template <typename T>
 const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t len) {
   const Byte *p = code;
   int i;
   for (i = 0; i < count && p < code + len; ++i) {
-    p = DecodeValue(container[i], p);
+    p = DecodeValue(container[i], p, code + len);
   }
   if (i < count) {
     throw MoreElementsRequired(count, i);
@@ -77,7 +79,7 @@ const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t
 template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
   arr = new T[count];
   return DecodeElements(arr, count, p, code + len - p);
 }
@@ -86,7 +88,7 @@ template <typename T>
 const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
   vec = new std::vector<T>(count);
   return DecodeElements(*vec, count, p, code + len - p);
 }
diff --git a/src/expr/exception.h b/src/expr/exception.h
index e66b7d5..89ef5e2 100644
--- a/src/expr/exception.h
+++ b/src/expr/exception.h
@@ -46,6 +46,12 @@ class UnknownCode : public ExprError {
   }
 };
 
+class TruncatedCode : public ExprError {
+ public:
+  TruncatedCode() : ExprError("Truncated or overlong immediate value in expression.") {
+  }
+};
+
 class MoreElementsRequired : public ExprError {
  public:
   MoreElementsRequired(int required, int actual)
diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index 8016d81..1e6bcad 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -95,6 +95,11 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
   const Byte *b;
   while (successful && p < code + len) {
     b = p;
+    if ((*p & 0x80) != 0 && code + len - p < 2) {
+      // The second byte is missing.
+      successful = false;
+      break;
+    }
     switch (*p) {
     case NULL_INT32:
       ++p;
@@ -123,14 +128,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(v));
       break;
     }
     case CONST_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(v));
       break;
     }
@@ -141,14 +146,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_FLOAT: {
       ++p;
       float v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_FLOAT>(v));
       break;
     }
     case CONST_DOUBLE: {
       ++p;
       double v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
@@ -159,21 +164,21 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_STRING: {
       ++p;
       String v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_STRING>(v));
       break;
     }
     case CONST_N_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT32>(-v));
       break;
     }
     case CONST_N_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new ConstOperator<TYPE_INT64>(-v));
       break;
     }
@@ -184,49 +189,49 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case VAR_I_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT32>(v));
       break;
     }
     case VAR_I_INT64: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_INT64>(v));
       break;
     }
     case VAR_I_BOOL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_BOOL>(v));
       break;
     }
     case VAR_I_FLOAT: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_FLOAT>(v));
       break;
     }
     case VAR_I_DOUBLE: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DOUBLE>(v));
       break;
     }
     case VAR_I_DECIMAL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_DECIMAL>(v));
       break;
     }
     case VAR_I_STRING: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, code + len);
       AddRelease(new IndexedVarOperator<TYPE_STRING>(v));
       break;
     }
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 96bfe85..bbb50f2 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,8 +14,6 @@
 
 #include "rel_runner.h"
 
-#include <cassert>
-
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -71,7 +69,10 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     }
     case GROUPED_AGGREGATE: {
       ++p;
-      assert(*p == ARRAY_INT32);
+      if (p >= code + len || *p != ARRAY_INT32) {
+        successful = false;
+        break;
+      }
       ++p;
       int32_t *groupe_indices;
       size_t count;
@@ -120,7 +121,7 @@ void RelRunner::AppendOp(RelOp *op) {
 namespace dingodb::expr {
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data, [[maybe_unused]] const Byte *end) {
   const expr::Byte *p = data;
   ++p;
   agg = new rel::op::CountAllAgg();
@@ -128,71 +129,71 @@ const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte
 }
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data) {
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end) {
   const Byte *p = data;
   switch (*p) {
   case rel::AGG_COUNT_ALL:
-    p = DecodeAgg<rel::op::CountAllAgg>(value, p);
+    p = DecodeAgg<rel::op::CountAllAgg>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT32:
-    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT64:
-    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_BOOL:
-    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::CountAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<float>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::CountAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<double>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_STRING:
-    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT32:
-    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT64:
-    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::SumAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<float>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::SumAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT32:
-    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT64:
-    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_STRING:
-    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT32:
-    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT64:
-    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MinAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<float>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MinAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<double>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_STRING:
-    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p, end);
     break;
   default:
     throw ExprError("Unknown aggregation type: " + HexOfBytes(data, 1));
diff --git a/src/rel/rel_runner.h b/src/rel/rel_runner.h
index a505af9..aade21a 100644
--- a/src/rel/rel_runner.h
+++ b/src/rel/rel_runner.h
@@ -49,20 +49,20 @@ class RelRunner {
 namespace dingodb::expr {
 
 template <class AGG>
-const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data, const Byte *end) {
   const Byte *p = data;
   ++p;
   int32_t index;
-  p = DecodeValue(index, p);
+  p = DecodeValue(index, p, end);
   agg = new AGG(index);
   return p;
 }
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data);
+const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data);
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end);
 
 }  // namespace dingodb::expr
 
-- 
2.43.0


From c0e64047ad57398ef24040983f6160100abb5a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 7/9] fix: release everything allocated when decoding a
 relational program fails, and reject oversized counts

---
 src/expr/codec.h      | 29 +++++++++++++++++++++++++++--
 src/rel/rel_runner.cc | 13 ++++++++-----
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/expr/codec.h b/src/expr/codec.h
index d2cef7b..6717115 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -16,6 +16,7 @@
 #define _EXPR_CODEC_H_
 
 #include <cstddef>
+#include <type_traits>
 #include <vector>
 
 #include "exception.h"
@@ -63,6 +64,13 @@ const Byte *DecodeValue(double &value, const Byte *data, const Byte *end);
 template <>
 const Byte *DecodeValue(String &value, const Byte *data, const Byte *end);
 
+// Each element takes one byte at least, so do not allocate for more elements than the bytes left.
+inline void CheckCount(size_t count, size_t len) {
+  if (count > len) {
+    throw MoreElementsRequired(count, len);
+  }
+}
+
 template <typename T>
 const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t len) {
   const Byte *p = code;
@@ -80,8 +88,14 @@ template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
   p = DecodeValue(count, p, code + len);
+  CheckCount(count, code + len - p);
   arr = new T[count];
-  return DecodeElements(arr, count, p, code + len - p);
+  try {
+    return DecodeElements(arr, count, p, code + len - p);
+  } catch (...) {
+    delete[] arr;
+    throw;
+  }
 }
 
 template <typename T>
@@ -89,8 +103,19 @@ const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
   p = DecodeValue(count, p, code + len);
+  CheckCount(count, code + len - p);
   vec = new std::vector<T>(count);
-  return DecodeElements(*vec, count, p, code + len - p);
+  try {
+    return DecodeElements(*vec, count, p, code + len - p);
+  } catch (...) {
+    if constexpr (std::is_pointer_v<T>) {
+      for (auto e : *vec) {
+        delete e;
+      }
+    }
+    delete vec;
+    throw;
+  }
 }
 
 }  // namespace dingodb::expr
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index bbb50f2..46b8dfd 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,6 +14,8 @@
 
 #include "rel_runner.h"
 
+#include <memory>
+
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -55,16 +57,16 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     switch (*p) {
     case FILTER_OP: {
       ++p;
-      auto *filter = new expr::Runner();
+      auto filter = std::make_unique<expr::Runner>();
       p = filter->Decode(p, code + len - p);
-      AppendOp(new op::FilterOp(filter));
+      AppendOp(new op::FilterOp(filter.release()));
       break;
     }
     case PROJECT_OP: {
       ++p;
-      auto *projects = new expr::Runner();
+      auto projects = std::make_unique<expr::Runner>();
       p = projects->Decode(p, code + len - p);
-      AppendOp(new op::ProjectOp(projects));
+      AppendOp(new op::ProjectOp(projects.release()));
       break;
     }
     case GROUPED_AGGREGATE: {
@@ -77,9 +79,10 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       int32_t *groupe_indices;
       size_t count;
       p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
+      std::unique_ptr<int32_t[]> indices(groupe_indices);
       std::vector<const op::Agg *> *aggs;
       p = expr::DecodeVector(aggs, p, code + len - p);
-      AppendOp(new op::GroupedAggOp(groupe_indices, count, aggs));
+      AppendOp(new op::GroupedAggOp(indices.release(), count, aggs));
       break;
     }
     case UNGROUPED_AGGREGATE: {
-- 
2.43.0


From a5e806d63bd8896c879f47f884da7b95cd4e158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:45 +0000
Subject: [PATCH 8/9] fix: release the tuple put in also when evaluating it
 raises an error

---
 src/rel/op/agg_op.cc     | 4 +++-
 src/rel/op/filter_op.cc  | 6 ++++--
 src/rel/op/project_op.cc | 4 +++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rel/op/agg_op.cc b/src/rel/op/agg_op.cc
index 3e827d9..81b3eeb 100644
--- a/src/rel/op/agg_op.cc
+++ b/src/rel/op/agg_op.cc
@@ -12,6 +12,8 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <memory>
+
 #include "ungrouped_agg_op.h"
 
 namespace dingodb::rel::op {
@@ -27,13 +29,13 @@ AggOp::~AggOp() {
 }
 
 void AggOp::AddToCache(expr::Tuple *&cache, const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> guard(tuple);
   if (cache == nullptr) {
     cache = new expr::Tuple(m_aggs->size());
   }
   for (int i = 0; i < m_aggs->size(); ++i) {
     (*cache)[i] = (*m_aggs)[i]->Add((*cache)[i], tuple);
   }
-  delete tuple;
 }
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/op/filter_op.cc b/src/rel/op/filter_op.cc
index 488a978..a984264 100644
--- a/src/rel/op/filter_op.cc
+++ b/src/rel/op/filter_op.cc
@@ -14,6 +14,8 @@
 
 #include "filter_op.h"
 
+#include <memory>
+
 #include "../../expr/calc/special.h"
 #include "../../expr/runner.h"
 
@@ -27,13 +29,13 @@ FilterOp::~FilterOp() {
 }
 
 const expr::Tuple *FilterOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> guard(tuple);
   m_filter->BindTuple(tuple);
   m_filter->Run();
   auto v = m_filter->Get();
   if (expr::calc::IsTrue<bool>(v)) {
-    return tuple;
+    return guard.release();
   }
-  delete tuple;
   return nullptr;
 }
 
diff --git a/src/rel/op/project_op.cc b/src/rel/op/project_op.cc
index ba9f33e..84fbf6e 100644
--- a/src/rel/op/project_op.cc
+++ b/src/rel/op/project_op.cc
@@ -14,6 +14,8 @@
 
 #include "project_op.h"
 
+#include <memory>
+
 #include "../../expr/runner.h"
 
 namespace dingodb::rel::op {
@@ -26,9 +28,9 @@ ProjectOp::~ProjectOp() {
 }
 
 const expr::Tuple *ProjectOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> guard(tuple);
   m_projects->BindTuple(tuple);
   m_projects->Run();
-  delete tuple;
   return m_projects->GetAll();
 }
 
-- 
2.43.0


From 0174937948da90fbd6c73b062e093593fcfa26c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 9/9] fix: an empty relational program passes rows through
 instead of dereferencing null

---
 src/rel/rel_runner.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 46b8dfd..1979987 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -104,11 +104,11 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
 }
 
 const expr::Tuple *RelRunner::Put(const expr::Tuple *tuple) const {
-  return m_op->Put(tuple);
+  return m_op != nullptr ? m_op->Put(tuple) : tuple;
 }
 
 const expr::Tuple *RelRunner::Get() const {
-  return m_op->Get();
+  return m_op != nullptr ? m_op->Get() : nullptr;
 }
 
 void RelRunner::AppendOp(RelOp *op) {
-- 
2.43.0

