From 359eda305c5ae5da404a9273638cee8753ff7815 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 001/119] fix: tokenizer rejects block comment at the end of
 the file with an assertion

---
 src/bms/tokenization/tokenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 3f5cda4..7652100 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -187,7 +187,7 @@ struct Tokenizer {
 
     void advance_position_by(Size length)
     {
-        BIT_MANIPULATION_ASSERT(pos.begin + length < m_source.length());
+        BIT_MANIPULATION_ASSERT(pos.begin + length <= m_source.length());
         for (Size i = 0; i < length; ++i) {
             switch (m_source[pos.begin]) {
             case '\t': pos.column += 4; break;
-- 
2.43.0


From 0b896826f5d672d94cdc3c43de56b7752f686981 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 002/119] fix: wrong lengths of the tokens '!' and '&&'

---
 src/bms/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index 187a841..ca431c1 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -228,6 +228,7 @@ namespace bit_manipulation::bms {
     case bitwise_or:
     case bitwise_not:
     case bitwise_xor:
+    case logical_not:
     case dot:
     case colon:
     case comma:
@@ -240,14 +241,13 @@ namespace bit_manipulation::bms {
     case greater_or_equal:
     case shift_left:
     case shift_right:
+    case logical_and:
     case logical_or:
     case right_arrow:
     case double_right_arrow:
     case keyword_as:
     case keyword_if: return 2;
 
-    case logical_and:
-    case logical_not:
     case keyword_let:
     case keyword_int: return 3;
 
-- 
2.43.0


From e368d6774a0779d0024e8a7c0dde901318199f3b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 003/119] fix: token_type_code_name lacks parentheses and '@'

---
 src/bms/util.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index ca431c1..8326765 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -145,6 +145,8 @@ namespace bit_manipulation::bms {
     using enum Token_Type;
 
     switch (type) {
+    case left_parenthesis: return "(";
+    case right_parenthesis: return ")";
     case left_brace: return "{";
     case right_brace: return "}";
     case block_comment: return "/*";
@@ -175,6 +177,7 @@ namespace bit_manipulation::bms {
     case dot: return ".";
     case colon: return ":";
     case comma: return ",";
+    case at: return "@";
     case semicolon: return ";";
     case keyword_as: return "as";
     case keyword_let: return "let";
-- 
2.43.0


From c0465867a6f64fdbf5658e52fc43471c079dff0c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 004/119] fix: overflow of too large integer literals goes
 undetected

---
 src/common/parse.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index c6623f4..96c0b5d 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -13,9 +13,11 @@ static_assert(are_hex_digits_ascii);
 
 constexpr bool safe_mul(Big_Uint& x, Big_Uint y)
 {
-    auto old = x;
+    if (y != 0 && x > Big_Uint(-1) / y) {
+        return false;
+    }
     x *= y;
-    return x >= old;
+    return true;
 }
 
 constexpr bool safe_add(Big_Uint& x, Big_Uint y)
-- 
2.43.0


From bfdd40ac43d3344cd9ac09ee859bc9c4fd62342c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 005/119] fix: uppercase hexadecimal digits are matched but
 cannot be parsed

---
 src/common/parse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index 96c0b5d..ad45039 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -74,6 +74,11 @@ constexpr std::optional<Big_Uint> parse_uinteger_digits(std::string_view str, Bi
                 return {};
             }
         }
+        else if (c >= 'A' && c <= 'F') {
+            if (!safe_add(result, Big_Uint(10 + c - 'A'))) {
+                return {};
+            }
+        }
         else {
             return {};
         }
-- 
2.43.0


From c600e6355cbf0874135d0751c52116eee788c8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 006/119] fix: digits which don't belong to the base are
 accepted in literals

---
 src/common/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index ad45039..580fb27 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -46,7 +46,7 @@ constexpr std::optional<Big_Uint> parse_uinteger_digits(std::string_view str, Bi
 
     if (base <= 10) {
         for (char c : str) {
-            if (c < '0' || c > '9') {
+            if (c < '0' || Big_Uint(c - '0') >= base) {
                 return {};
             }
             if (!safe_mul(result, base)) {
-- 
2.43.0


From ce6af80490ed6df49499ad9451b361bd0a15be7d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 007/119] fix: literals which are not representable as Big_Int
 wrap to negative values

---
 src/common/parse.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index 580fb27..a1810f8 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -210,17 +210,21 @@ std::optional<Big_Uint> parse_uinteger_literal(std::string_view str) noexcept
 
 std::optional<Big_Int> parse_integer_literal(std::string_view str) noexcept
 {
+    // The magnitude of the least representable Big_Int.
+    constexpr Big_Uint sign_bit = (Big_Uint(-1) >> 1) + 1;
+
     if (str.empty()) {
         return std::nullopt;
     }
     if (str.starts_with("-")) {
-        if (auto positive = parse_uinteger_literal(str.substr(1))) {
+        if (auto positive = parse_uinteger_literal(str.substr(1));
+            positive && *positive <= sign_bit) {
             // Negating as Uint is intentional and prevents overflow.
             return static_cast<Big_Int>(-*positive);
         }
         return std::nullopt;
     }
-    if (auto result = parse_uinteger_literal(str)) {
+    if (auto result = parse_uinteger_literal(str); result && *result < sign_bit) {
         return static_cast<Big_Int>(*result);
     }
     return std::nullopt;
-- 
2.43.0


From 967dabd1bbda78a4f7b605011cc404c44021327b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 008/119] fix: wrong source positions of tokens after
 multi-line string literals

---
 src/bms/tokenization/tokenize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 7652100..fc51837 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -226,7 +226,8 @@ Result<void, Tokenize_Error> Tokenizer::tokenize(std::pmr::vector<Token>& out)
         pos.length = result->length;
         out.push_back({ pos, result->type });
 
-        if (result->type != Token_Type::block_comment) {
+        if (result->type != Token_Type::block_comment
+            && result->type != Token_Type::string_literal) {
             // Special case for all tokens that aren't multi-line.
             // We could just advance the position as usual, but it is much cheaper if we know
             // that there are no newline characters anyway.
-- 
2.43.0


From 8f667ddceb3187f49547c632b89e8ffd64c07b5b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 009/119] fix: every expression with '>=' fails with an
 assertion

---
 src/bms/ast.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/ast.cpp b/src/bms/ast.cpp
index 35c9fba..27f3c3f 100644
--- a/src/bms/ast.cpp
+++ b/src/bms/ast.cpp
@@ -25,6 +25,7 @@ namespace {
     case less_than: return Expression_Type::less_than;
     case greater_than: return Expression_Type::greater_than;
     case less_or_equal: return Expression_Type::less_or_equal;
+    case greater_or_equal: return Expression_Type::greater_or_equal;
     case plus: return Expression_Type::binary_plus;
     case minus: return Expression_Type::binary_minus;
     case multiplication: return Expression_Type::multiplication;
-- 
2.43.0


From ed39f6f1fc16c92ce04ba00cda80108ed006b5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 010/119] fix: Uint(128) and Uint(1) are documented as valid
 types but rejected or miscomputed

---
 src/bms/concrete_type.hpp  | 6 +++---
 src/bms/concrete_value.hpp | 5 ++---
 src/bms/value.hpp          | 4 ++--
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/bms/concrete_type.hpp b/src/bms/concrete_type.hpp
index fcbcd48..10285d0 100644
--- a/src/bms/concrete_type.hpp
+++ b/src/bms/concrete_type.hpp
@@ -45,7 +45,7 @@ struct Concrete_Type {
     [[nodiscard]] static constexpr Concrete_Type Uint(int width)
     {
         BIT_MANIPULATION_ASSERT(width <= uint_max_width);
-        BIT_MANIPULATION_ASSERT(width > 1);
+        BIT_MANIPULATION_ASSERT(width > 0);
         return Concrete_Type { Type_Type::Uint, width };
     }
 
@@ -59,7 +59,7 @@ public:
         , m_width(width)
     {
         BIT_MANIPULATION_ASSERT(type == Type_Type::Uint || width == 0);
-        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width < uint_max_width));
+        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width <= uint_max_width));
     }
 
     [[nodiscard]] friend constexpr bool operator<=>(Concrete_Type, Concrete_Type) = default;
@@ -97,7 +97,7 @@ public:
         case Type_Type::Int: return Big_Uint(-1);
         case Type_Type::Uint:
             return m_width == std::numeric_limits<Big_Uint>::digits
-                ? 0
+                ? Big_Uint(-1)
                 : Big_Uint(Big_Uint(1) << m_width) - 1;
         }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unknown type.");
diff --git a/src/bms/concrete_value.hpp b/src/bms/concrete_value.hpp
index 9849edd..dc9bb16 100644
--- a/src/bms/concrete_value.hpp
+++ b/src/bms/concrete_value.hpp
@@ -51,7 +51,7 @@ public:
         if (other.is_uint()) {
             const auto truncated = Big_Uint(int_value) & other.get_mask();
             if (conversion == Conversion_Type::lossless_numeric
-                && truncated != Big_Uint(int_value)) {
+                && (int_value < 0 || truncated != Big_Uint(int_value))) {
                 return Evaluation_Error_Code::int_to_uint_range_error;
             }
             return Concrete_Value { other, Big_Int(truncated) };
@@ -62,8 +62,7 @@ public:
     constexpr Concrete_Value transform_uint(Big_Uint f(Big_Uint)) const
     {
         BIT_MANIPULATION_ASSERT(type.is_uint());
-        const auto mask = Big_Uint(Big_Uint(1) << type.width()) - 1;
-        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & mask) };
+        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & type.get_mask()) };
     }
 };
 
diff --git a/src/bms/value.hpp b/src/bms/value.hpp
index 73d9238..f9e72df 100644
--- a/src/bms/value.hpp
+++ b/src/bms/value.hpp
@@ -103,8 +103,8 @@ public:
     constexpr Value and_then_uint(F f) const
     {
         if (is_known()) {
-            const auto mask = Big_Uint(Big_Uint(1) << m_type.width()) - 1;
-            return Value { m_type, Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & mask) };
+            return Value { m_type,
+                           Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & m_type.get_mask()) };
         }
         return *this;
     }
-- 
2.43.0


From 148a4f7500494c4c60061f470d25663692c89941 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 011/119] fix: Uint(128) division and remainder are computed as
 signed

---
 src/bms/evaluation/operations.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 4013e27..20273ea 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -375,6 +375,11 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
             if (rhs.int_value == 0) {
                 return Evaluation_Error_Code::division_by_zero;
             }
+            if (lhs.type.is_uint()) {
+                return op == Expression_Type::division
+                    ? transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x / y; })
+                    : transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x % y; });
+            }
             return op == Expression_Type::division
                 ? Concrete_Value { lhs.type, lhs.int_value / rhs.int_value }
                 : Concrete_Value { lhs.type, lhs.int_value % rhs.int_value };
-- 
2.43.0


From 9747a99b0aa888529f7149eb881b00e2665998f9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 012/119] fix: equality comparison of Bool values fails with an
 assertion

---
 src/bms/evaluation/operations.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 20273ea..68af102 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -397,6 +397,12 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
     switch (lhs.type.type()) {
         using enum Expression_Type;
     case Type_Type::Bool: {
+        if (op == equals) {
+            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value == rhs.int_value) };
+        }
+        if (op == not_equals) {
+            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value != rhs.int_value) };
+        }
         if (op == logical_and) {
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value && rhs.int_value) };
         }
-- 
2.43.0


From e9ce1466b60f45f929c392d4e1de73c88b0f8888 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 013/119] fix: shift by operand size or more goes undetected
 when both operands are known

---
 src/bms/evaluation/operations.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 68af102..7874c4c 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -457,9 +457,14 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
         case bitwise_xor: //
             return transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x ^ y; });
         case shift_left:
-            return transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x << y; });
         case shift_right:
-            return transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x >> y; });
+            if (Big_Uint(rhs.int_value) >= Big_Uint(lhs.type.width())) {
+                return Evaluation_Error_Code::shift_too_much;
+            }
+            if (op == shift_right) {
+                return transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x >> y; });
+            }
+            return transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x << y; });
         default:
             BIT_MANIPULATION_ASSERT_UNREACHABLE(
                 "Unsupported Uint operation not caught by type-check.");
-- 
2.43.0


From 27d8a4ac8fec476dcef9f8fe64f651a7e5731536 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 014/119] fix: division and shift of an unknown Uint by a known
 value fail with an assertion

---
 src/bms/evaluation/operations.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 7874c4c..c1f8a9e 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -537,11 +537,12 @@ evaluate_binary_operator(Value lhs, Expression_Type op, Value rhs)
     // illegal no matter what the other operand is, such as division by zero.
     if (rhs) {
         using enum Expression_Type;
-        if ((op == division || op == remainder) && rhs.as_int() == 0) {
+        const Concrete_Value rhs_value = rhs.concrete_value();
+        if ((op == division || op == remainder) && rhs_value.int_value == 0) {
             return Evaluation_Error_Code::division_by_zero;
         }
         if ((op == shift_left || op == shift_right)
-            && (rhs.as_int() < 0 || rhs.as_int() >= lhs.get_type().width())) {
+            && Big_Uint(rhs_value.int_value) >= Big_Uint(lhs.get_type().width())) {
             return Evaluation_Error_Code::shift_too_much;
         }
     }
-- 
2.43.0


From 7cccf57a9af6cc8988cd8fce30c09daaeb568b69 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 015/119] fix: overflow of Int operations goes undetected and
 yields wrong values

---
 src/bms/evaluation/evaluation_error.hpp |  5 ++++-
 src/bms/evaluation/operations.cpp       | 29 +++++++++++++++++++------
 src/common/diagnostics.cpp              |  2 ++
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/bms/evaluation/evaluation_error.hpp b/src/bms/evaluation/evaluation_error.hpp
index aaf807f..f7c6a3c 100644
--- a/src/bms/evaluation/evaluation_error.hpp
+++ b/src/bms/evaluation/evaluation_error.hpp
@@ -17,7 +17,9 @@ enum struct Evaluation_Error_Code : Default_Underlying {
     /// @brief An assertion failed.
     assertion_fail,
     /// @brief Conversion from Int to Uint would lose information.
-    int_to_uint_range_error
+    int_to_uint_range_error,
+    /// @brief The result of an operation on Int cannot be represented internally.
+    int_overflow
 };
 
 constexpr std::string_view evaluation_error_code_name(Evaluation_Error_Code code)
@@ -29,6 +31,7 @@ constexpr std::string_view evaluation_error_code_name(Evaluation_Error_Code code
         BIT_MANIPULATION_ENUM_STRING_CASE(shift_too_much);
         BIT_MANIPULATION_ENUM_STRING_CASE(assertion_fail);
         BIT_MANIPULATION_ENUM_STRING_CASE(int_to_uint_range_error);
+        BIT_MANIPULATION_ENUM_STRING_CASE(int_overflow);
     };
     BIT_MANIPULATION_ASSERT_UNREACHABLE();
 }
diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index c1f8a9e..e5c8ca4 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -318,7 +318,11 @@ evaluate_unary_operator(Expression_Type op, Concrete_Value value)
             return value;
         }
         if (op == Expression_Type::unary_minus) {
-            return Concrete_Value { Concrete_Type::Int, -value.int_value };
+            Big_Int result;
+            if (__builtin_sub_overflow(Big_Int(0), value.int_value, &result)) {
+                return Evaluation_Error_Code::int_overflow;
+            }
+            return Concrete_Value { Concrete_Type::Int, result };
         }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unsupported Int operation not caught by type-check.");
     }
@@ -380,6 +384,9 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
                     ? transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x / y; })
                     : transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x % y; });
             }
+            if (rhs.int_value == -1 && lhs.int_value == std::numeric_limits<Big_Int>::min()) {
+                return Evaluation_Error_Code::int_overflow;
+            }
             return op == Expression_Type::division
                 ? Concrete_Value { lhs.type, lhs.int_value / rhs.int_value }
                 : Concrete_Value { lhs.type, lhs.int_value % rhs.int_value };
@@ -422,12 +429,20 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value <= rhs.int_value) };
         case greater_or_equal: //
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value >= rhs.int_value) };
-        case binary_plus: //
-            return Concrete_Value { Concrete_Type::Int, Big_Int(lhs.int_value + rhs.int_value) };
-        case binary_minus: //
-            return Concrete_Value { Concrete_Type::Int, Big_Int(lhs.int_value - rhs.int_value) };
-        case multiplication: //
-            return Concrete_Value { Concrete_Type::Int, Big_Int(lhs.int_value * rhs.int_value) };
+        case binary_plus:
+        case binary_minus:
+        case multiplication: {
+            Big_Int result;
+            const bool overflow = op == binary_plus
+                ? __builtin_add_overflow(lhs.int_value, rhs.int_value, &result)
+                : op == binary_minus
+                ? __builtin_sub_overflow(lhs.int_value, rhs.int_value, &result)
+                : __builtin_mul_overflow(lhs.int_value, rhs.int_value, &result);
+            if (overflow) {
+                return Evaluation_Error_Code::int_overflow;
+            }
+            return Concrete_Value { Concrete_Type::Int, result };
+        }
         default:
             BIT_MANIPULATION_ASSERT_UNREACHABLE(
                 "Unsupported Int operation not caught by type-check.");
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index d4923f9..73e352f 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -236,6 +236,8 @@ std::string_view to_prose(bms::Evaluation_Error_Code e)
         return "Assertion failed.";
     case int_to_uint_range_error: //
         return "Conversion from Int to Uint would lose information.";
+    case int_overflow: //
+        return "The result of an operation on Int is too large to be represented.";
     }
     BIT_MANIPULATION_ASSERT_UNREACHABLE("invalid error code");
 }
-- 
2.43.0


From df6affe24abad45f0d8f00c9fc552ba57ea0c027 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 016/119] fix: Int values stored in Uint variables are not
 converted to the variable's type

---
 src/bms/vm/codegen.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 90a5e43..9712aa6 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -144,6 +144,11 @@ private:
         if (!init) {
             return init;
         }
+        const Concrete_Type initializer_type
+            = get_const_value(*node.get_initializer_node()).value().get_type();
+        if (initializer_type != node.const_value()->get_type()) {
+            out.push_back(ins::Convert { { h }, node.const_value()->get_type() });
+        }
         out.push_back(ins::Store { { h }, h });
         return init;
     }
@@ -288,6 +293,11 @@ private:
         if (!result) {
             return result;
         }
+        const Concrete_Type expression_type
+            = get_const_value(*node.get_expression_node()).value().get_type();
+        if (expression_type != node.const_value()->get_type()) {
+            out.push_back(ins::Convert { { h }, node.const_value()->get_type() });
+        }
         out.push_back(ins::Store { { h }, to_target(node.lookup_result.value()) });
         return {};
     }
-- 
2.43.0


From 12acb7aca93078ba4439b4150862806c11d75ffd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 017/119] fix: operands of if-expressions are not converted to
 their common type

---
 src/bms/vm/codegen.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 9712aa6..01a206b 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -336,6 +336,15 @@ private:
         return {};
     }
 
+    void push_conversion_if_needed(const ast::Some_Node* h,
+                                   const ast::Some_Node& expression,
+                                   Concrete_Type target_type)
+    {
+        if (get_const_value(expression).value().get_type() != target_type) {
+            out.push_back(ins::Convert { { h }, target_type });
+        }
+    }
+
     Result<void, Analysis_Error> generate_code(const ast::Some_Node* h,
                                                const ast::If_Expression& node)
     {
@@ -362,6 +371,7 @@ private:
             restore();
             return left;
         }
+        push_conversion_if_needed(h, *node.get_left_node(), node.const_value()->get_type());
         get<ins::Relative_Jump_If>(out[blank_jump_to_right_index]).offset
             = Signed_Size(out.size() - size_before_left + 1);
 
@@ -373,6 +383,7 @@ private:
             restore();
             return right;
         }
+        push_conversion_if_needed(h, *node.get_right_node(), node.const_value()->get_type());
         get<ins::Relative_Jump>(out[blank_jump_past_right_index]).offset
             = Signed_Size(out.size() - size_before_right);
 
-- 
2.43.0


From 595ad3c1d7df10aabe240174f17091a71dbf2b1b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 018/119] fix: flowing off the end of a non-void function
 executes unrelated code

---
 src/bms/vm/codegen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 01a206b..26f7e9d 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -98,6 +98,10 @@ private:
         }
 
         if (return_type.get_type() != Type_Type::Void) {
+            // If control flows off the end of the function, there is no value to return.
+            // Nothing is ever stored for the function node, so loading it halts execution instead
+            // of running into the code of whatever function comes next.
+            out.push_back(ins::Load { { h }, h });
             return {};
         }
 
-- 
2.43.0


From b2f590467cbc0d9be66d7c4e70ab105200df2f67 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 019/119] fix: execution error code is lost when turned into an
 analysis error

---
 src/bms/analysis_error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analysis_error.hpp b/src/bms/analysis_error.hpp
index d532806..88b7c3e 100644
--- a/src/bms/analysis_error.hpp
+++ b/src/bms/analysis_error.hpp
@@ -332,7 +332,7 @@ public:
             m_code.evaluation = error.evaluation_error;
         }
         else {
-            m_code = Analysis_Error_Code::execution_error;
+            m_code = error.code;
         }
         if (error.comparison_failure) {
             m_extras = *error.comparison_failure;
-- 
2.43.0


From 31489c42152ab46455d676146b97a37c6634c934 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 020/119] fix: instantiation crashes on nodes with optional
 children

---
 src/bms/instantiate.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index e8b3ec4..f7c7978 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -153,8 +153,10 @@ private:
         ast::Some_Node* result = m_program.insert(*h);
         m_remap.emplace(h, result);
         for (ast::Some_Node*& child : get_children(*result)) {
-            child = deep_copy_for_instantiation(child);
-            set_parent(*child, *result);
+            if (child != nullptr) {
+                child = deep_copy_for_instantiation(child);
+                set_parent(*child, *result);
+            }
         }
         return result;
     }
-- 
2.43.0


From 97cdf5a47568325f3bf83db3c38c92638ad671c8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 021/119] fix: instantiation of functions which use global
 entities throws

---
 src/bms/instantiate.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index f7c7978..6e1b86f 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -190,7 +190,12 @@ private:
 
         void operator()(const ast::Some_Node* looked_up_node)
         {
-            target = self.m_remap.at(looked_up_node);
+            // Anything outside of the instantiated function (global constants, other functions)
+            // hasn't been copied and remains the same.
+            const auto it = self.m_remap.find(looked_up_node);
+            if (it != self.m_remap.end()) {
+                target = it->second;
+            }
         }
 
         void operator()(const Parameter* looked_up_parameter)
-- 
2.43.0


From bd47a42059bc3f5d034e400926045aba5e00fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 022/119] fix: recursive calls in bit-generic functions cannot
 deduce different widths

---
 src/bms/instantiate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index 6e1b86f..9b74967 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -125,8 +125,9 @@ private:
         }
 
         if (const auto* old_function = get_if<ast::Function>(h)) {
+            // The function itself is not remapped because recursive calls refer to the generic
+            // function and may deduce different widths.
             ast::Some_Node* result = m_program.insert(old_function->copy_for_instantiation());
-            m_remap.emplace(h, result);
 
             auto& instance = get<ast::Function>(*result);
             deep_copy_parameters(*old_function, instance, result);
-- 
2.43.0


From 886501f9a70b432e53e05ee32d7e7ebb14ce9626 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 023/119] fix: failing conversions in constant expressions run
 into assertions

---
 src/bms/analyze.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index d969bfc..4d4e10a 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -605,6 +605,12 @@ private:
 
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_conversion(*expression_value, *type);
+        if (!eval_result && context == Expression_Context::constant) {
+            return Analysis_Error_Builder { eval_result.error() }
+                .fail(handle)
+                .cause(node.get_target_type_node())
+                .build();
+        }
 
         node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type);
         return {};
@@ -657,8 +663,10 @@ private:
             = evaluate_if_expression(*left_value, *condition_value, *right_value);
 
         // Type analysis has already succeeded, and for context expressions, the condition is known.
-        // Therefore, it should be impossible for an evaluation to fail.
-        BIT_MANIPULATION_ASSERT(context != Expression_Context::constant || eval_result.has_value());
+        // However, the conversion of the selected value to the common type may still fail.
+        if (!eval_result && context == Expression_Context::constant) {
+            return Analysis_Error_Builder { eval_result.error() }.fail(handle).build();
+        }
 
         node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type_result);
         return {};
-- 
2.43.0


From 91964b022740b4e5a7fd3b83bf01f9434142b82a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 024/119] fix: short-circuited constant expressions with
 unknown right operand run into assertions

---
 src/bms/analyze.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 4d4e10a..20389bc 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -684,6 +684,7 @@ private:
         const auto& left_value = get_const_value(*node.get_left_node());
         BIT_MANIPULATION_ASSERT(context != Expression_Context::constant
                                 || (left_value && left_value->is_known()));
+        bool is_short_circuited = false;
 
         {
             // For short-circuiting operators like && and ||, if we are in a constant expression,
@@ -706,6 +707,7 @@ private:
                 const bool circuit_breaker = node.get_op() == Token_Type::logical_or;
                 if (left_value->as_bool() == circuit_breaker) {
                     context = Expression_Context::normal;
+                    is_short_circuited = true;
                 }
             }
         }
@@ -723,6 +725,11 @@ private:
             return Analysis_Error_Builder { type_result.error() }.fail(handle).build();
         }
 
+        if (is_short_circuited) {
+            // The right operand isn't evaluated, so its value is irrelevant and possibly unknown.
+            node.const_value() = *left_value;
+            return {};
+        }
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_binary_operator(*left_value, node.get_expression_type(), *right_value);
         if (!eval_result && context == Expression_Context::constant) {
-- 
2.43.0


From a46f5ee7ee38f03294409c58bad63af93c81cfea Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 025/119] fix: assertions in code that is never executed fail
 during analysis

---
 src/bms/analyze.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 20389bc..8bd8d36 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -798,15 +798,13 @@ private:
                     .build();
             }
             auto eval_result = evaluate_builtin_function(*builtin, arg_values);
-            if (!eval_result) {
+            if (!eval_result && context == Expression_Context::constant) {
                 return Analysis_Error_Builder { eval_result.error() }
                     .fail(handle)
                     .cause(*builtin)
                     .build();
             }
-            BIT_MANIPULATION_ASSERT(context != Expression_Context::constant
-                                    || eval_result.has_value());
-            node.const_value() = *eval_result;
+            node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type_result);
             return {};
         }
 
-- 
2.43.0


From 021b4b5e8d6fa240a883ff09f95fc10c3f3d3f00 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 026/119] fix: null pointer is dereferenced when a parameter is
 called

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 8bd8d36..96b5c74 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -816,7 +816,7 @@ private:
         if (!function) {
             return Analysis_Error_Builder { Analysis_Error_Code::call_non_function }
                 .fail(handle)
-                .cause(*looked_up_node)
+                .cause(*node.lookup_result)
                 .build();
         }
 
-- 
2.43.0


From 1436138ff13f5ac50b736cb72aa832275d6897c5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 027/119] fix: using builtin functions as variables throws

---
 src/bms/analyze.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 96b5c74..299ebaa 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -519,6 +519,12 @@ private:
                 .cause(*node.lookup_result)
                 .build();
         }
+        if (holds_alternative<Builtin_Function>(node.lookup_result)) {
+            return Analysis_Error_Builder { Analysis_Error_Code::assigning_function }
+                .fail(handle)
+                .cause(*node.lookup_result)
+                .build();
+        }
         ast::Some_Node* looked_up_node = get<ast::Some_Node*>(node.lookup_result);
         if (holds_alternative<ast::Function>(*looked_up_node)) {
             return Analysis_Error_Builder { Analysis_Error_Code::assigning_function }
@@ -1015,6 +1021,12 @@ private:
             node.const_value() = (*parameter)->get_type().const_value();
             return {};
         }
+        if (holds_alternative<Builtin_Function>(node.lookup_result)) {
+            return Analysis_Error_Builder { Analysis_Error_Code::function_in_expression }
+                .fail(handle)
+                .cause(*node.lookup_result)
+                .build();
+        }
         auto looked_up_node = get<ast::Some_Node*>(node.lookup_result);
         return analyze_types_for_id_looking_up_node(handle, node, looked_up_node, level, context);
     }
-- 
2.43.0


From cd9533cae76f9acfdb0847dd51a39eed72f94271 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 028/119] fix: widths of type Uint run into assertions

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 299ebaa..5dabaff 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -225,7 +225,7 @@ private:
                 .fail(node.get_width_node())
                 .build();
         }
-        const Big_Int folded_width = width->as_int();
+        const Big_Int folded_width = width->concrete_value().int_value;
         if (folded_width <= 0 || folded_width > uint_max_width) {
             return Analysis_Error_Builder { Analysis_Error_Code::width_invalid }
                 .fail(node.get_width_node())
-- 
2.43.0


From 0890dda3f1c9f93a70c5ed3bf197a46e640f0e27 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 029/119] fix: instances of bit-generic functions that are only
 called later are not analyzed

---
 src/bms/analyze.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 5dabaff..b5d0958 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -92,16 +92,33 @@ private:
                                                                       Expression_Context)
     {
         BIT_MANIPULATION_ASSERT(&get<ast::Program>(*handle) == &node);
-        for (ast::Some_Node* h : node.get_children()) {
-            auto r = analyze_types(h, level, Expression_Context::normal);
-            if (!r) {
-                return r;
+        // The analysis of one declaration may instantiate bit-generic functions which appeared
+        // earlier, so instances have to be revisited until there are no new ones.
+        Size old_instance_count;
+        do {
+            old_instance_count = count_instances(node);
+            for (ast::Some_Node* h : node.get_children()) {
+                auto r = analyze_types(h, level, Expression_Context::normal);
+                if (!r) {
+                    return r;
+                }
             }
-        }
+        } while (count_instances(node) != old_instance_count);
         node.const_value() = Value::Void;
         return {};
     }
 
+    [[nodiscard]] static Size count_instances(const ast::Program& program)
+    {
+        Size result = 0;
+        for (const ast::Some_Node* h : program.get_children()) {
+            if (const auto* const function = get_if<ast::Function>(h)) {
+                result += function->instances.size();
+            }
+        }
+        return result;
+    }
+
     Result<void, Analysis_Error> analyze_types(ast::Some_Node* handle,
                                                ast::Function& node,
                                                Analysis_Level level,
-- 
2.43.0


From a226a3a281f4286842e1c3a50af27fa5ad74d3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 030/119] fix: instances are iterated over while possibly being
 reallocated

---
 src/bms/analyze.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index b5d0958..f211ef1 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -134,8 +134,10 @@ private:
         // new implicit instantiations may have been generated in the meantime.
         // For concrete functions, we can memoize the result of type analysis.
         if (node.is_generic) {
-            for (const ast::Function::Instance& instance : node.instances) {
-                auto r = analyze_types(instance.handle, level, Expression_Context::normal);
+            // Note that new instances may be added while iterating.
+            for (Size i = 0; i < node.instances.size(); ++i) {
+                ast::Some_Node* const instance = node.instances[i].handle;
+                auto r = analyze_types(instance, level, Expression_Context::normal);
                 if (!r) {
                     return r;
                 }
-- 
2.43.0


From 0f22794021a32316b51dd5e2bf47420ed9d19dbe Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 031/119] fix: function call arguments without separating comma
 are accepted

---
 src/bms/parsing/parse.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 39485bd..c5c5771 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1427,16 +1427,18 @@ private:
         }
 
         std::pmr::vector<astp::Handle> arguments(m_program.get_memory());
-        for (bool demand_expression = false; true;) {
-            if (!demand_expression && expect(Token_Type::right_parenthesis)) {
-                break;
-            }
-            auto arg = match_expression();
-            if (!arg) {
-                return arg;
+        if (!expect(Token_Type::right_parenthesis)) {
+            do {
+                auto arg = match_expression();
+                if (!arg) {
+                    return arg;
+                }
+                arguments.push_back(m_program.push_node(std::move(*arg)));
+            } while (expect(Token_Type::comma));
+
+            if (!expect(Token_Type::right_parenthesis)) {
+                return Rule_Error { this_rule, const_array_one_v<Token_Type::right_parenthesis> };
             }
-            arguments.push_back(m_program.push_node(std::move(*arg)));
-            demand_expression = expect(Token_Type::comma);
         }
 
         auto annotations
-- 
2.43.0


From 556248727e03efa3a4f768ea5e9cb4e1b1fef883 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 032/119] fix: malformed annotation arguments cause access to
 an empty result

---
 src/bms/parsing/parse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index c5c5771..8062898 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -859,6 +859,9 @@ private:
             }
             return r;
         }();
+        if (!arguments) {
+            return arguments.error();
+        }
         return astp::Some_Node { astp::Annotation { at->pos, m_program.extract(id->pos),
                                                     std::move(*arguments) } };
     }
-- 
2.43.0


From 767a3c4cd6c0fddd964dafcfcdcbede88f8eb70b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 033/119] fix: string literals are accepted as expressions and
 fail later with an assertion

---
 src/bms/parsing/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 8062898..013d46f 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1464,7 +1464,7 @@ private:
                 Token_Type::decimal_literal, Token_Type::hexadecimal_literal,
                 Token_Type::identifier,      Token_Type::left_parenthesis };
 
-        if (const Token* t = expect(is_literal)) {
+        if (const Token* t = peek(Token_Type::string_literal) ? nullptr : expect(is_literal)) {
             return astp::Some_Node { astp::Literal { t->pos, m_program.extract(t->pos), t->type } };
         }
         if (const Token* t = expect(Token_Type::identifier)) {
-- 
2.43.0


From 4ac9e7e6eaef5863fb9cbaf5181ccc90391f8216 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 034/119] fix: valid expressions are rejected because of
 lookahead past their end

Whether an expression is a comparison was decided by scanning for a comparison
operator up to the end of the statement, so f(a, b == c) or a list of arguments
followed by a comparison was rejected.
---
 src/bms/parsing/parse.cpp | 95 +++++++++++----------------------------
 1 file changed, 25 insertions(+), 70 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 013d46f..2cb904f 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1234,11 +1234,6 @@ private:
 
     Rule_Result match_binary_expression()
     {
-        // FIXME: use a similar roll_back_after approach to match_conversion_expression
-        if (should_binary_expression_commit_to_comparison_expression()) {
-            return match_comparison_expression();
-        }
-
         auto left = match_prefix_expression();
         if (!left) {
             return left;
@@ -1247,13 +1242,36 @@ private:
         if (!op) {
             return left;
         }
+        if (is_comparison_operator(op->type)) {
+            return match_comparison_expression_rhs(*left, *op);
+        }
         auto right = match_prefix_expression();
         if (!right) {
             return right;
         }
-        return astp::Some_Node { astp::Binary_Expression {
+        astp::Some_Node result = astp::Binary_Expression {
             op->pos, m_program.push_node(std::move(*left)), m_program.push_node(std::move(*right)),
-            op->type } };
+            op->type
+        };
+        // Arithmetic expressions (only) can be operands of a comparison without parentheses.
+        if (is_arithmetic_operator(op->type)) {
+            if (const Token* comparison = expect(is_comparison_operator)) {
+                return match_comparison_expression_rhs(result, *comparison);
+            }
+        }
+        return result;
+    }
+
+    /// @brief Matches the remainder of a comparison expression, following the operator.
+    Rule_Result match_comparison_expression_rhs(astp::Some_Node& left, const Token& op)
+    {
+        auto right = match_arithmetic_expression();
+        if (!right) {
+            return right;
+        }
+        return astp::Some_Node { astp::Binary_Expression {
+            op.pos, m_program.push_node(std::move(left)), m_program.push_node(std::move(*right)),
+            op.type } };
     }
 
 #if BIT_MANIPULATION_ENABLE_EXPERIMENTAL_PARSING
@@ -1312,69 +1330,6 @@ private:
     }
 #endif
 
-    /// @brief An arbitrary look-ahead member function which tells us whether we should commit
-    /// to matching a comparison expression when matching a binary expression.
-    ///
-    /// Consider for example that if we are parsing `(0) == 3`, we can already tell that this
-    /// needs to be a comparison expression based on the following `==`.
-    /// However, identifying this situation is not as simple as looking at the next token due to
-    /// arbitrary amounts of parentheses.
-    ///
-    /// This approach is a bit unusual, but makes sense for BMS specifically.
-    /// Thanks to this test, our parser is completely deterministic and we can avoid more complex
-    /// expression parsing approach.
-    /// @return `true` if we should commit, `false` otherwise.
-    bool should_binary_expression_commit_to_comparison_expression() const
-    {
-        Size parenthesis_level = 0;
-        for (Size i = m_pos; i < m_tokens.size(); ++i) {
-            switch (m_tokens[i].type) {
-            case Token_Type::left_brace:
-            case Token_Type::right_brace:
-            case Token_Type::semicolon: return false;
-
-            case Token_Type::left_parenthesis: ++parenthesis_level; break;
-            case Token_Type::right_parenthesis: --parenthesis_level; break;
-
-            default:
-                if (parenthesis_level != 0) {
-                    continue;
-                }
-                if (m_tokens[i].type == Token_Type::keyword_if) {
-                    return false;
-                }
-                if (is_comparison_operator(m_tokens[i].type)) {
-                    return true;
-                }
-            }
-        }
-        return false;
-    }
-
-    Rule_Result match_comparison_expression()
-    {
-        constexpr auto this_rule = Grammar_Rule::comparison_expression;
-        static constexpr Token_Type expected[]
-            = { Token_Type::equals,       Token_Type::not_equals,    Token_Type::less_than,
-                Token_Type::greater_than, Token_Type::less_or_equal, Token_Type::greater_or_equal };
-
-        auto left = match_arithmetic_expression();
-        if (!left) {
-            return left;
-        }
-        const Token* op = expect(is_comparison_operator);
-        if (!op) {
-            return Rule_Error { this_rule, expected };
-        }
-        auto right = match_arithmetic_expression();
-        if (!right) {
-            return right;
-        }
-        return astp::Some_Node { astp::Binary_Expression {
-            op->pos, m_program.push_node(std::move(*left)), m_program.push_node(std::move(*right)),
-            op->type } };
-    }
-
     Rule_Result match_arithmetic_expression()
     {
         auto left = match_prefix_expression();
-- 
2.43.0


From 939baca0c93c2922c0ec319f46c45d420a8391b7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 035/119] fix: parsing nested parentheses takes exponential
 time

---
 src/bms/parsing/parse.cpp | 46 ++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 2cb904f..1b09427 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1181,22 +1181,18 @@ private:
 
     Rule_Result match_expression()
     {
-        bool is_conversion_expression = [&]() {
-            Scoped_Attempt always_roll_back = start_attempt();
-            return match_prefix_expression() && peek(Token_Type::keyword_as);
-        }();
-
-        return is_conversion_expression ? match_conversion_expression() //
-                                        : match_if_expression();
+        auto first = match_prefix_expression();
+        if (!first) {
+            return first;
+        }
+        return peek(Token_Type::keyword_as) ? match_conversion_expression_rhs(*first)
+                                            : match_if_expression_rhs(*first);
     }
 
-    Rule_Result match_conversion_expression()
+    /// @brief Matches the remainder of a conversion expression, following its operand.
+    Rule_Result match_conversion_expression_rhs(astp::Some_Node& expression)
     {
         constexpr auto this_rule = Grammar_Rule::conversion_expression;
-        auto expression = match_prefix_expression();
-        if (!expression) {
-            return expression;
-        }
         if (!expect(Token_Type::keyword_as)) {
             return Rule_Error { this_rule, const_array_one_v<Token_Type::keyword_as> };
         }
@@ -1205,14 +1201,24 @@ private:
             return type;
         }
         return astp::Some_Node { astp::Conversion_Expression {
-            get_source_position(*expression), m_program.push_node(std::move(*expression)),
+            get_source_position(expression), m_program.push_node(std::move(expression)),
             m_program.push_node(std::move(*type)) } };
     }
 
     Rule_Result match_if_expression()
+    {
+        auto first = match_prefix_expression();
+        if (!first) {
+            return first;
+        }
+        return match_if_expression_rhs(*first);
+    }
+
+    /// @brief Matches the remainder of an if-expression, following its first prefix expression.
+    Rule_Result match_if_expression_rhs(astp::Some_Node& first)
     {
         constexpr auto this_rule = Grammar_Rule::if_expression;
-        auto left = match_binary_expression();
+        auto left = match_binary_expression_rhs(first);
         if (!left || !expect(Token_Type::keyword_if)) {
             return left;
         }
@@ -1238,19 +1244,25 @@ private:
         if (!left) {
             return left;
         }
+        return match_binary_expression_rhs(*left);
+    }
+
+    /// @brief Matches the remainder of a binary expression, following its first operand.
+    Rule_Result match_binary_expression_rhs(astp::Some_Node& left)
+    {
         const Token* op = expect(is_binary_operator);
         if (!op) {
-            return left;
+            return Rule_Result { std::move(left) };
         }
         if (is_comparison_operator(op->type)) {
-            return match_comparison_expression_rhs(*left, *op);
+            return match_comparison_expression_rhs(left, *op);
         }
         auto right = match_prefix_expression();
         if (!right) {
             return right;
         }
         astp::Some_Node result = astp::Binary_Expression {
-            op->pos, m_program.push_node(std::move(*left)), m_program.push_node(std::move(*right)),
+            op->pos, m_program.push_node(std::move(left)), m_program.push_node(std::move(*right)),
             op->type
         };
         // Arithmetic expressions (only) can be operands of a comparison without parentheses.
-- 
2.43.0


From cb0bcd7b424528e5fbf101eb5377e1926ca3fabf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:47:11 +0000
Subject: [PATCH 036/119] fix: do not read the types of builtin arguments
 through dangling references

---
 src/bms/evaluation/operations.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index e5c8ca4..5520146 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -121,8 +121,9 @@ unsafe_evaluate_builtin_function_impl(Builtin_Function f, Iter begin, Iter end)
     static_assert(std::random_access_iterator<Iter>);
     static_assert(std::same_as<std::iter_value_t<Iter>, Concrete_Value>);
 
-    const auto types
-        = std::ranges::subrange(begin, end) | std::views::transform(&Concrete_Value::type);
+    // Dereferencing Iter may yield a temporary value, so the type must not be projected by reference.
+    const auto types = std::ranges::subrange(begin, end)
+        | std::views::transform([](const Concrete_Value& v) -> Concrete_Type { return v.type; });
 
     Result<Concrete_Type, Analysis_Error_Code> type_result = check_builtin_function_impl(f, types);
     if (!type_result) {
-- 
2.43.0


From 9882225dd17bb9812022abc73e09e1c20df4baac Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:47:11 +0000
Subject: [PATCH 037/119] fix: diagnose assignments to the width of a
 bit-generic parameter instead of failing internally

---
 src/bms/analyze.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index f211ef1..87cdec7 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -552,7 +552,9 @@ private:
                 .build();
         }
 
-        if (holds_alternative<ast::Const>(*looked_up_node)) {
+        // Generic widths (looked up as ID expressions) are constants, just like Const nodes.
+        if (holds_alternative<ast::Const>(*looked_up_node)
+            || holds_alternative<ast::Id_Expression>(*looked_up_node)) {
             return Analysis_Error_Builder { Analysis_Error_Code::assigning_const }
                 .fail(handle)
                 .cause(looked_up_node)
-- 
2.43.0


From 64ab26d6f622199bd4931ac276541c08d99fd993 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:47:11 +0000
Subject: [PATCH 038/119] fix: diagnose types in a function signature which
 call that function instead of recursing endlessly

---
 src/bms/analyze.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 87cdec7..19ca297 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -145,6 +145,8 @@ private:
             return {};
         }
         BIT_MANIPULATION_ASSERT(node.instances.empty());
+        // The parameter types and return type may contain calls to the function itself.
+        auto scope = push_function(&node);
 
         for (Parameter& parameter : node.get_parameters()) {
             auto r = analyze_types(parameter.get_type_node(), parameter.get_type(), level,
@@ -158,7 +160,6 @@ private:
             !r) {
             return r;
         }
-        auto scope = push_function(&node);
 
         if (node.get_requires_clause_node() != nullptr) {
             auto& expr_const_value = get_const_value(*node.get_requires_clause_node());
-- 
2.43.0


From 7c7ba0a1c8c45e3fd1b907f64d87177d381a0ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:47:11 +0000
Subject: [PATCH 039/119] fix: diagnose undefined names in the width of a
 parameter instead of failing internally

---
 src/bms/analyze_name_lookup.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bms/analyze_name_lookup.cpp b/src/bms/analyze_name_lookup.cpp
index 37ca9ff..d712379 100644
--- a/src/bms/analyze_name_lookup.cpp
+++ b/src/bms/analyze_name_lookup.cpp
@@ -203,8 +203,6 @@ private:
             return {};
         }
         if (auto r = analyze_symbols_local(g, table); !r) {
-            BIT_MANIPULATION_ASSERT(r.error().code()
-                                    == Analysis_Error_Code::reference_to_undefined_variable);
             if (auto* id = get_if<ast::Id_Expression>(g)) {
                 // TODO: now that lookup results can be more than just an AST node,
                 //       we can get rid of this dirty hack and properly emplace a lookup result
-- 
2.43.0


From 26a08119de0c2cf657ffe0ec6285d5095b6510dc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 040/119] fix: make variables declared without an initializer
 uninitialized each time their declaration is reached

---
 src/bms/vm/codegen.cpp          |  3 +++
 src/bms/vm/instructions.cpp     |  9 +++++++++
 src/bms/vm/instructions.hpp     | 10 +++++++++-
 src/bms/vm/linear_map_stack.hpp |  8 ++++++++
 src/bms/vm/vm.cpp               |  7 +++++++
 5 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 26f7e9d..9d65404 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -142,6 +142,9 @@ private:
     {
         BIT_MANIPULATION_ASSERT(node.const_value());
         if (!node.get_initializer_node()) {
+            // The declaration may be reached repeatedly within a loop, and the variable must not
+            // keep its value from the previous iteration.
+            out.push_back(ins::Undefine { { h }, h });
             return {};
         }
         auto init = generate_code(node.get_initializer_node());
diff --git a/src/bms/vm/instructions.cpp b/src/bms/vm/instructions.cpp
index 284d444..007d303 100644
--- a/src/bms/vm/instructions.cpp
+++ b/src/bms/vm/instructions.cpp
@@ -53,6 +53,15 @@ std::ostream& operator<<(std::ostream& out, const Store& i)
     return out;
 }
 
+std::ostream& operator<<(std::ostream& out, const Undefine& i)
+{
+    out << std::left << std::setw(name_column_width) << "undefine " << i.target;
+    if (!i.debug_info.name.empty()) {
+        out << "    ; " << i.debug_info.name;
+    }
+    return out;
+}
+
 std::ostream& operator<<(std::ostream& out, const Push& i)
 {
     return out << std::left << std::setw(name_column_width) << "push " << i.value;
diff --git a/src/bms/vm/instructions.hpp b/src/bms/vm/instructions.hpp
index 56569ad..84cc91a 100644
--- a/src/bms/vm/instructions.hpp
+++ b/src/bms/vm/instructions.hpp
@@ -34,6 +34,13 @@ struct Store : detail::Base {
 
 std::ostream& operator<<(std::ostream& out, const Store&);
 
+/// @brief Discards the value stored in `target`, if any, making it uninitialized.
+struct Undefine : detail::Base {
+    const void* target;
+};
+
+std::ostream& operator<<(std::ostream& out, const Undefine&);
+
 /// @brief Pushes `value` onto the stack.
 struct Push : detail::Base {
     Concrete_Value value;
@@ -131,7 +138,8 @@ using Instruction_Variant = Variant<ins::Load,
                                     ins::Unary_Operate,
                                     ins::Binary_Operate,
                                     ins::Call,
-                                    ins::Builtin_Call>;
+                                    ins::Builtin_Call,
+                                    ins::Undefine>;
 
 struct Instruction : Instruction_Variant {
     using Variant::Variant;
diff --git a/src/bms/vm/linear_map_stack.hpp b/src/bms/vm/linear_map_stack.hpp
index aa42d8c..1f16492 100644
--- a/src/bms/vm/linear_map_stack.hpp
+++ b/src/bms/vm/linear_map_stack.hpp
@@ -74,6 +74,14 @@ public:
         return m_data.emplace_back(key, value);
     }
 
+    /// @brief Removes the entry with the given key from the topmost frame, if there is one.
+    void erase(Key key)
+    {
+        if (Entry* const existing = find(key)) {
+            m_data.erase(m_data.begin() + (existing - m_data.data()));
+        }
+    }
+
     Entry& push_frame(Concrete_Value sentinel_value)
     {
         return m_data.emplace_back(sentinel_key, sentinel_value);
diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index d8c66c3..a4ed3b1 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -40,6 +40,13 @@ struct Cycle_Impl {
         return {};
     }
 
+    Result<void, Execution_Error> operator()(const ins::Undefine& undefine)
+    {
+        self.m_function_frame_stack.erase(undefine.target);
+        ++self.m_instruction_counter;
+        return {};
+    }
+
     Result<void, Execution_Error> operator()(const ins::Push& push)
     {
         self.m_stack.push_back(push.value);
-- 
2.43.0


From 61d369026b5c7d94186a901dd25c1286c8bdc344 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 041/119] fix: give recursive calls the return type of the
 called function, even while it is being analyzed

---
 src/bms/analyze.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 19ca297..b153d4a 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -951,7 +951,8 @@ private:
         }
 
         BIT_MANIPULATION_ASSERT(function->analysis_so_far >= inner_level);
-        Concrete_Type return_type = function->const_value()->get_type();
+        // The function may still be under analysis (recursion), so only its signature is reliable.
+        Concrete_Type return_type = function->get_return_type().concrete_type().value();
 
         // 6. Check whether the function can be called with the given arguments and obtain
         //    concrete values for the parameters if need be.
-- 
2.43.0


From a5603d1465469bb2cffc7bbd07070f42695b4ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 042/119] fix: allow bit-generic functions to have parameters
 without a width

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index b153d4a..65b0e23 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -874,7 +874,7 @@ private:
                 const ast::Type& type = possibly_generic_params[i].get_type();
                 // If this function is generic, parameter types wouldn't have undergone analysis.
                 BIT_MANIPULATION_ASSERT(!type.const_value());
-                if (type.concrete_width) {
+                if (type.concrete_width || type.get_width_node() == nullptr) {
                     continue;
                 }
                 const auto* gen_expr = get_if<ast::Id_Expression>(type.get_width_node());
-- 
2.43.0


From cf7c8baf7739b0d93f6735790d61c1a1b85fecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:01:11 +0000
Subject: [PATCH 043/119] fix: recognize the @inline annotation by its
 documented name

---
 src/bms/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index 8326765..86a0130 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -512,7 +512,7 @@ namespace bit_manipulation::bms {
     using enum Annotation_Type;
     switch (type) {
         BIT_MANIPULATION_ENUM_STRING_CASE(immutable);
-        BIT_MANIPULATION_ENUM_STRING_CASE(inline_);
+    case inline_: return "inline";
         BIT_MANIPULATION_ENUM_STRING_CASE(loop_variable);
         BIT_MANIPULATION_ENUM_STRING_CASE(loop_step);
         BIT_MANIPULATION_ENUM_STRING_CASE(unroll);
-- 
2.43.0


From d9e92577f0ecded774f0abe78eaf20cdc4526330 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:33:46 +0000
Subject: [PATCH 044/119] fix: out-of-range jumps and calls of the virtual
 machine are not detected

Negative targets and calls to one past the last instruction were not reported,
and a conditional jump which is not taken was.
---
 src/bms/vm/vm.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index a4ed3b1..8ec253f 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -17,6 +17,16 @@ static_assert(std::is_trivially_copyable_v<Instruction>);
 struct Cycle_Impl {
     Virtual_Machine& self;
 
+    bool jump(Signed_Size offset)
+    {
+        const auto target = Signed_Size(self.m_instruction_counter) + offset + 1;
+        if (target < 0 || target >= Signed_Size(self.m_instructions.size())) {
+            return false;
+        }
+        self.m_instruction_counter = Size(target);
+        return true;
+    }
+
     Result<void, Execution_Error> operator()(const ins::Load& load)
     {
         auto pos = self.m_function_frame_stack.find(load.source);
@@ -66,12 +76,9 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Relative_Jump& jump)
     {
-        if (Signed_Size(self.m_instruction_counter) + jump.offset + 1
-            >= Signed_Size(self.m_instructions.size())) {
+        if (!this->jump(jump.offset)) {
             return Execution_Error { Execution_Error_Code::jump_out_of_program, jump.debug_info };
         }
-        self.m_instruction_counter
-            = Size(Signed_Size(self.m_instruction_counter) + jump.offset + 1);
         return {};
     }
 
@@ -85,14 +92,14 @@ struct Cycle_Impl {
         if (actual.type != Concrete_Type::Bool) {
             return Execution_Error { Execution_Error_Code::jump_if_not_bool, jump_if.debug_info };
         }
-        if (Signed_Size(self.m_instruction_counter) + jump_if.offset + 1
-            >= Signed_Size(self.m_instructions.size())) {
+        if (jump_if.expected != bool(actual.int_value)) {
+            ++self.m_instruction_counter;
+            return {};
+        }
+        if (!jump(jump_if.offset)) {
             return Execution_Error { Execution_Error_Code::jump_out_of_program,
                                      jump_if.debug_info };
         }
-        self.m_instruction_counter
-            = Size(Signed_Size(self.m_instruction_counter + 1)
-                   + (jump_if.expected == bool(actual.int_value) ? jump_if.offset : 0));
         return {};
     }
 
@@ -169,7 +176,7 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Call& call)
     {
-        if (call.address > self.m_instructions.size()) {
+        if (call.address >= self.m_instructions.size()) {
             return Execution_Error { Execution_Error_Code::call_out_of_program, call.debug_info };
         }
         const auto return_address = Concrete_Value::Int(Big_Int(self.m_instruction_counter + 1));
-- 
2.43.0


From 3002290893ddb4a82269d53e0bc1076f1b6142aa Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:33:46 +0000
Subject: [PATCH 045/119] fix: failed assertions are reported with the operands
 of an earlier, unrelated comparison

---
 src/bms/vm/vm.cpp | 7 +++++--
 src/bms/vm/vm.hpp | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index 8ec253f..cee0a80 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -1,4 +1,5 @@
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 #include "common/assert.hpp"
@@ -187,6 +188,8 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Builtin_Call& call)
     {
+        // The comparison belongs to this call only. It must not be attributed to a later assertion.
+        const auto comparison_failure = std::exchange(self.m_comparison_failure_for_assert, {});
         const Size params = builtin_parameter_count(call.function);
         if (params > self.m_stack.size()) {
             return Execution_Error { Execution_Error_Code::pop, call.debug_info };
@@ -196,10 +199,10 @@ struct Cycle_Impl {
         if (!result) {
             Execution_Error error { result.error(), call.debug_info };
             if (call.function != bms::Builtin_Function::assert
-                || !self.m_comparison_failure_for_assert) {
+                || !comparison_failure) {
                 return error;
             }
-            error.comparison_failure = self.m_comparison_failure_for_assert;
+            error.comparison_failure = comparison_failure;
             return error;
         }
         self.m_stack.resize(self.m_stack.size() - params);
diff --git a/src/bms/vm/vm.hpp b/src/bms/vm/vm.hpp
index 9b01e80..2497b6f 100644
--- a/src/bms/vm/vm.hpp
+++ b/src/bms/vm/vm.hpp
@@ -97,6 +97,7 @@ public:
         m_function_frame_stack.clear();
         m_stack.clear();
         m_instruction_counter = 0;
+        m_comparison_failure_for_assert.reset();
     }
 
     void clear()
-- 
2.43.0


From 4e5c92ba2ebffcf52a342c91f88dbbb846da4480 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:39:26 +0000
Subject: [PATCH 046/119] fix: errors at the end of the source or of a line
 fail with an assertion or show the wrong line

---
 src/common/diagnostics.cpp | 7 ++++---
 src/common/diagnostics.hpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 73e352f..d5bc39d 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -620,12 +620,13 @@ std::ostream& print_file_position(std::ostream& out,
 
 std::string_view find_line(std::string_view source, Size index)
 {
-    BIT_MANIPULATION_ASSERT(index < source.size());
+    BIT_MANIPULATION_ASSERT(index <= source.size());
 
-    Size begin = source.rfind('\n', index);
+    // A line feed belongs to the line which it terminates.
+    Size begin = index == 0 ? std::string_view::npos : source.rfind('\n', index - 1);
     begin = begin != std::string_view::npos ? begin + 1 : 0;
 
-    Size end = std::min(source.find('\n', index + 1), source.size());
+    Size end = std::min(source.find('\n', index), source.size());
 
     return source.substr(begin, end - begin);
 }
diff --git a/src/common/diagnostics.hpp b/src/common/diagnostics.hpp
index 92868f9..c567536 100644
--- a/src/common/diagnostics.hpp
+++ b/src/common/diagnostics.hpp
@@ -18,7 +18,7 @@ namespace bit_manipulation {
 
 /// @brief Returns the line that contains the given index.
 /// @param source the source string
-/// @param index the index within the source string, in range `[0, source.size())`
+/// @param index the index within the source string, in range `[0, source.size()]`
 /// @return A line which contains the given `index`.
 std::string_view find_line(std::string_view source, Size index);
 
-- 
2.43.0


From be2b53d1e4aec6e5ed77b52e1f83dcd18f7a7e8e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:39:26 +0000
Subject: [PATCH 047/119] fix: syntax errors at the end of the file are
 reported as an unexpected '&' at its beginning

---
 src/bms/parsing/parse.cpp  | 28 +++++++++++++++++++++++++++-
 src/common/diagnostics.cpp |  9 +++++++--
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 1b09427..1c9323a 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <functional>
 #include <memory_resource>
 #include <optional>
@@ -399,13 +400,38 @@ public:
             return {};
         }
         else {
-            const auto fail_token = m_pos < m_tokens.size() ? m_tokens[m_pos] : Token {};
+            const auto fail_token = m_pos < m_tokens.size() ? m_tokens[m_pos] : end_of_file();
             const auto [fail_rule, expected_tokens] = program.error();
             return Parse_Error { fail_rule, expected_tokens, fail_token };
         }
     }
 
 private:
+    /// @brief Returns an empty token which is located right after the last token that isn't a
+    /// comment.
+    [[nodiscard]] Token end_of_file() const
+    {
+        const auto last = std::ranges::find_if(
+            m_tokens.rbegin(), m_tokens.rend(), [](const Token& t) { return !is_comment(t.type); });
+        if (last == m_tokens.rend()) {
+            return {};
+        }
+        const auto text = m_program.get_source().substr(last->pos.begin, last->pos.length);
+        Local_Source_Position pos = last->pos;
+        for (const char c : text) {
+            switch (++pos.begin; c) {
+            case '\t': pos.column += 4; break;
+            case '\r': pos.column = 0; break;
+            case '\n':
+                pos.column = 0;
+                pos.line += 1;
+                break;
+            default: pos.column += 1;
+            }
+        }
+        return Token { Local_Source_Span { pos, 0 }, Token_Type {} };
+    }
+
     /// @brief Checks whether the parser is at the end of the file, in a way that respects comments.
     /// @return `true` if the parser has no more tokens to examine.
     [[nodiscard]] bool eof() noexcept
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index d5bc39d..1b77839 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -691,8 +691,13 @@ std::ostream& print_parse_error(std::ostream& out,
                                 bool colors)
 {
     print_file_position(out, file, error.fail_token.pos, colors) << ": " << error_prefix;
-    out << "unexpected token " << token_type_readable_name(error.fail_token.type)
-        << " while matching '" << grammar_rule_name(error.fail_rule) << "'\n";
+    if (error.fail_token.pos.length == 0) {
+        out << "unexpected end of file";
+    }
+    else {
+        out << "unexpected token " << token_type_readable_name(error.fail_token.type);
+    }
+    out << " while matching '" << grammar_rule_name(error.fail_rule) << "'\n";
 
     print_file_position(out, file, error.fail_token.pos, colors)
         << ": " << note_prefix << "expected ";
-- 
2.43.0


From 0c1fc14f9f9ca6542cd7a4ff8c0f2fb5dd00a075 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:39:26 +0000
Subject: [PATCH 048/119] fix: diagnostics contain color codes even if no
 colors are requested

---
 src/common/diagnostics.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 1b77839..c471369 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -87,8 +87,15 @@ struct Printable_Error {
             && error.evaluation_error() == bms::Evaluation_Error_Code::type_error);
 }
 
-const std::string error_prefix = std::string(ansi::h_red) + "error: " + std::string(ansi::reset);
-const std::string note_prefix = std::string(ansi::h_white) + "note: " + std::string(ansi::reset);
+std::string error_prefix(bool colors)
+{
+    return colors ? std::string(ansi::h_red) + "error: " + std::string(ansi::reset) : "error: ";
+}
+
+std::string note_prefix(bool colors)
+{
+    return colors ? std::string(ansi::h_white) + "note: " + std::string(ansi::reset) : "note: ";
+}
 
 std::string_view to_prose(bms::Tokenize_Error_Code e)
 {
@@ -576,8 +583,8 @@ std::ostream& print_printable_error(std::ostream& out, const Printable_Error& er
     for (const Error_Line& line : error.lines) {
         print_source_position(out, line.pos, colors) << ": ";
         switch (line.type) {
-        case Error_Line_Type::error: out << error_prefix; break;
-        case Error_Line_Type::note: out << note_prefix; break;
+        case Error_Line_Type::error: out << error_prefix(colors); break;
+        case Error_Line_Type::note: out << note_prefix(colors); break;
         }
         out << line.message;
 
@@ -679,7 +686,7 @@ std::ostream& print_tokenize_error(std::ostream& out,
                                    bool colors)
 {
     print_file_position(out, file, e.pos, colors);
-    out << ": " << error_prefix << to_prose(e.code) << '\n';
+    out << ": " << error_prefix(colors) << to_prose(e.code) << '\n';
     print_affected_line(out, source, e.pos, colors);
     return out;
 }
@@ -690,7 +697,7 @@ std::ostream& print_parse_error(std::ostream& out,
                                 const bms::Parse_Error& error,
                                 bool colors)
 {
-    print_file_position(out, file, error.fail_token.pos, colors) << ": " << error_prefix;
+    print_file_position(out, file, error.fail_token.pos, colors) << ": " << error_prefix(colors);
     if (error.fail_token.pos.length == 0) {
         out << "unexpected end of file";
     }
@@ -700,7 +707,7 @@ std::ostream& print_parse_error(std::ostream& out,
     out << " while matching '" << grammar_rule_name(error.fail_rule) << "'\n";
 
     print_file_position(out, file, error.fail_token.pos, colors)
-        << ": " << note_prefix << "expected ";
+        << ": " << note_prefix(colors) << "expected ";
 
     const std::span<const bms::Token_Type> expected = error.expected_tokens;
     if (expected.size() == 0) {
@@ -726,7 +733,7 @@ std::ostream& print_parse_error(std::ostream& out,
                                 const bmd::Parse_Error& error,
                                 bool colors)
 {
-    print_file_position(out, file, error.pos, colors) << ": " << error_prefix;
+    print_file_position(out, file, error.pos, colors) << ": " << error_prefix(colors);
 
     if (error.code == bmd::Parse_Error_Code::unexpected_character) {
         out << "unexpected character '" << source[error.pos.begin] << "' while matching '"
@@ -760,7 +767,7 @@ std::ostream& print_document_error(std::ostream& out,
                                    bool colors)
 {
     print_file_position(out, file, error.pos, colors)
-        << ": " << error_prefix << to_prose(error.code) << '\n';
+        << ": " << error_prefix(colors) << to_prose(error.code) << '\n';
 
     print_affected_line(out, source, error.pos, colors);
     if (error.code == bmd::Document_Error_Code::writer_misuse) {
-- 
2.43.0


From 2b5913f65dece78549141bf0243ce8d7296aeb85 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 049/119] fix: unterminated string literals and missing digits
 cannot be diagnosed

---
 src/common/diagnostics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index c471369..0943311 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -106,6 +106,10 @@ std::string_view to_prose(bms::Tokenize_Error_Code e)
         return "Suffix after integer literal is not allowed";
     case bms::Tokenize_Error_Code::unterminated_comment: //
         return "Unterminated block comment found. '/*' must have a matching '*/'";
+    case bms::Tokenize_Error_Code::no_digits_following_integer_prefix: //
+        return "Integer prefix must be followed by at least one digit";
+    case bms::Tokenize_Error_Code::unterminated_string: //
+        return "Unterminated string literal found. '\"' must have a matching '\"'";
     default: //
         BIT_MANIPULATION_ASSERT_UNREACHABLE("invalid error code");
     }
-- 
2.43.0


From 9b1095e4afbddf62e26e1544b341ecda94019a4c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 050/119] fix: returning a value of incompatible type cannot be
 diagnosed

---
 src/bms/analyze.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 65b0e23..ee49649 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -517,6 +517,7 @@ private:
             return Analysis_Error_Builder { Analysis_Error_Code::incompatible_types }
                 .fail(handle)
                 .cause(function->get_return_type_node())
+                .type(return_type)
                 .build();
         }
         const Result<Value, Evaluation_Error_Code> eval_result
-- 
2.43.0


From f5d6187122c0c94b70be5c9e3e28e012a010834e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 051/119] fix: reading an uninitialized variable in a constant
 expression is reported as an internal error

---
 src/common/diagnostics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 0943311..f1c939b 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -79,10 +79,11 @@ struct Printable_Error {
 // For example, an evaluation error can fail as a type error, but that can only happen
 // if prior analysis didn't spot the type error in the first place.
 // Similarly, VM execution errors are also "clean errors", but only end up here as the result
-// of faulty codegen.
+// of faulty codegen, except that any program may read uninitialized variables.
 [[nodiscard]] bool is_internal(const bms::Analysis_Error& error)
 {
-    return error.code() == bms::Analysis_Error_Code::execution_error
+    return (error.code() == bms::Analysis_Error_Code::execution_error
+            && error.execution_error() != bms::Execution_Error_Code::load_uninitialized)
         || (error.code() == bms::Analysis_Error_Code::evaluation_error
             && error.evaluation_error() == bms::Evaluation_Error_Code::type_error);
 }
-- 
2.43.0


From 88df61f01a6c5c8eba110463529661e9382de164 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 052/119] fix: printing the AST of annotations with multiple
 arguments reads out of bounds

---
 src/bms/parsing/astp.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bms/parsing/astp.hpp b/src/bms/parsing/astp.hpp
index 22258ab..d0e7ea0 100644
--- a/src/bms/parsing/astp.hpp
+++ b/src/bms/parsing/astp.hpp
@@ -252,7 +252,6 @@ struct Annotation_List final : detail::Node_Base {
 
 struct Annotation final : detail::Node_Base {
     static inline constexpr std::string_view self_name = "Attribute";
-    static inline constexpr std::string_view child_names[] = { "type" };
 
     std::string_view name;
     std::pmr::vector<Handle> arguments;
-- 
2.43.0


From c7b85cf625e299fd3f9acb93760c58a28f092ebf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 053/119] fix: type and initializer of parsed constants are the
 annotations and the type

---
 src/bms/parsing/astp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bms/parsing/astp.hpp b/src/bms/parsing/astp.hpp
index d0e7ea0..4395b27 100644
--- a/src/bms/parsing/astp.hpp
+++ b/src/bms/parsing/astp.hpp
@@ -181,11 +181,11 @@ struct Const final : detail::Node_Base, detail::Parent<3> {
     }
     Handle get_type() const
     {
-        return children[0];
+        return children[1];
     }
     Handle get_initializer() const
     {
-        return children[1];
+        return children[2];
     }
 };
 
-- 
2.43.0


From 47c5ab60ac102f232a283fd46baec9c181919825 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:53:45 +0000
Subject: [PATCH 054/119] fix: I/O errors are printed to the standard output
 instead of the given stream

---
 src/common/diagnostics.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index f1c939b..9bf43b6 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -817,8 +817,7 @@ std::ostream& print_assertion_error(std::ostream& out, const Assertion_Error& er
 std::ostream&
 print_io_error(std::ostream& out, std::string_view file, IO_Error_Code error, bool colors)
 {
-    print_location_of_file(std::cout, file, colors) << ": " << to_prose(error) << '\n';
-    return out;
+    return print_location_of_file(out, file, colors) << ": " << to_prose(error) << '\n';
 }
 
 std::ostream&
-- 
2.43.0


From ddc64bb51fa47773d2c5c766a4868d256334763b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:53:45 +0000
Subject: [PATCH 055/119] fix: failed assertions are reported one line and
 column too far

---
 src/common/diagnostics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 9bf43b6..b58ff27 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -798,8 +798,9 @@ std::ostream& print_assertion_error(std::ostream& out, const Assertion_Error& er
         out << "Code which must be unreachable has been reached.\n\n";
     }
 
-    Local_Source_Position pos { .line = error.location.line(),
-                                .column = error.location.column(),
+    // Unlike Local_Source_Position, std::source_location counts lines and columns from one.
+    Local_Source_Position pos { .line = error.location.line() - 1,
+                                .column = error.location.column() - 1,
                                 .begin = {} };
     print_file_position(out, error.location.file_name(), pos, colors);
     out << ": ";
-- 
2.43.0


From 32788b2c5fa4a81c6ee8f67b1713681367750a2f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:53:45 +0000
Subject: [PATCH 056/119] fix: the AST of documents is printed with color codes
 even if no colors are requested

---
 src/common/diagnostics.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index b58ff27..c41c4b5 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -929,18 +929,18 @@ struct BMD_AST_Printer {
         const auto* const directive = get_if<bmd::ast::Directive>(node);
 
         if (directive) {
-            out << ansi::h_green << '\\' << directive->get_identifier();
+            out << color(ansi::h_green) << '\\' << directive->get_identifier();
         }
         else {
-            out << ansi::h_magenta << node_name;
+            out << color(ansi::h_magenta) << node_name;
         }
-        out << ansi::h_black << "(" << ansi::reset;
+        out << color(ansi::h_black) << "(" << color(ansi::reset);
         print_cut_off(out, extracted);
-        out << ansi::h_black << ")\n" << ansi::reset;
+        out << color(ansi::h_black) << ")\n" << color(ansi::reset);
 
         if (directive) {
             for (const auto& [key, val] : directive->m_arguments) {
-                out << indent << ansi::h_blue << key << ": " << ansi::reset
+                out << indent << color(ansi::h_blue) << key << ": " << color(ansi::reset)
                     << program.extract(get_source_span(val)) << '\n';
             }
         }
-- 
2.43.0


From 58a55b6d322a5ad10923289b435a3e0312016d38 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 057/119] fix: zeros are lost when printing integers beyond 64
 bits

---
 src/common/diagnostics.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index c41c4b5..5775df4 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -32,8 +32,12 @@ std::string to_string(Uint128 x)
     /// The greatest power of 10 that fits into a 64-bit integer.
     constexpr Uint128 exp10_19 = 10000000000000000000ull;
 
-    return x <= std::uint64_t(-1) ? std::to_string(Uint64(x))
-                                  : to_string(x / exp10_19) + std::to_string(Uint64(x % exp10_19));
+    if (x <= std::uint64_t(-1)) {
+        return std::to_string(Uint64(x));
+    }
+    const std::string low = std::to_string(Uint64(x % exp10_19));
+    // Lower digits need to be padded with zeros so that the upper digits have the right place.
+    return to_string(x / exp10_19) + std::string(19 - low.length(), '0') + low;
 }
 
 std::string to_string(Int128 x)
-- 
2.43.0


From 569bea8e5d35ad3fcd310d42392b1be87375a0eb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 058/119] fix: errors inside of parentheses are reported as a
 missing primary expression

---
 src/bms/parsing/parse.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 1c9323a..3cb7cf6 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1450,11 +1450,11 @@ private:
 
     Rule_Result match_primary_expression()
     {
-        // FIXME: boolean literals don't appear to be supported, but should be matched here
         constexpr auto this_rule = Grammar_Rule::primary_expression;
         static constexpr Token_Type expected[]
             = { Token_Type::binary_literal,  Token_Type::octal_literal,
                 Token_Type::decimal_literal, Token_Type::hexadecimal_literal,
+                Token_Type::keyword_true,    Token_Type::keyword_false,
                 Token_Type::identifier,      Token_Type::left_parenthesis };
 
         if (const Token* t = peek(Token_Type::string_literal) ? nullptr : expect(is_literal)) {
@@ -1463,11 +1463,10 @@ private:
         if (const Token* t = expect(Token_Type::identifier)) {
             return astp::Some_Node { astp::Id_Expression { t->pos, m_program.extract(t->pos) } };
         }
-        if (auto e = match_parenthesized_expression()) {
-            return e;
+        if (peek(Token_Type::left_parenthesis)) {
+            return match_parenthesized_expression();
         }
-        // Intentionally forget about the e error to not falsely suggest that parentheses are
-        // required for a primary expression, but give feedback about the whole union.
+        // Give feedback about the whole union instead of suggesting that parentheses are required.
         return Rule_Error { this_rule, expected };
     }
 
-- 
2.43.0


From c17e18f03ea4f5795b6d7516e487eb39f9f1a231 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 059/119] fix: symbols of an outer scope are found in place of
 those which shadow them

---
 src/bms/symbol_table.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bms/symbol_table.hpp b/src/bms/symbol_table.hpp
index d98de45..a2d2f39 100644
--- a/src/bms/symbol_table.hpp
+++ b/src/bms/symbol_table.hpp
@@ -82,14 +82,12 @@ public:
 
     Optional_Lookup_Result find(key_type symbol) const
     {
-        if (m_parent != nullptr) {
-            if (auto parent_result = m_parent->find(symbol)) {
-                return parent_result;
-            }
-        }
         if (auto iter = m_symbols.find(symbol); iter != m_symbols.end()) {
             return iter->second;
         }
+        if (m_parent != nullptr) {
+            return m_parent->find(symbol);
+        }
         return {};
     }
 };
-- 
2.43.0


From a7c3175daf6d8ce966e305d1a66844c51086f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 060/119] fix: move assignment of Result does not return
 anything

---
 src/common/result.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/result.hpp b/src/common/result.hpp
index 582e735..278312f 100644
--- a/src/common/result.hpp
+++ b/src/common/result.hpp
@@ -153,6 +153,7 @@ public:
             std::construct_at(std::addressof(m_value), std::move(other.m_value));
             m_has_value = true;
         }
+        return *this;
     }
 
     constexpr ~Result() noexcept(std::is_nothrow_destructible_v<T>
-- 
2.43.0


From ae9e97f10e9fd35b8a6914054bcbb5efd7ef9914 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 061/119] fix: exceptions while copying into a Variant
 terminate the program

---
 src/common/variant.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/variant.hpp b/src/common/variant.hpp
index 18c4085..f9af8f4 100644
--- a/src/common/variant.hpp
+++ b/src/common/variant.hpp
@@ -231,7 +231,7 @@ public:
     }
 
     template <typename T>
-    Variant(T&& other) noexcept(noexcept(T(std::forward<T>(other))))
+    Variant(T&& other) noexcept(std::is_nothrow_constructible_v<std::remove_cvref_t<T>, T&&>)
         requires has_alternative_v<Variant, std::remove_cvref_t<T>>
         : m_index(pack_first_index_of_v<std::remove_cvref_t<T>, Ts...>)
     {
@@ -360,7 +360,7 @@ public:
 
     template <typename T>
         requires has_alternative_v<Variant, std::remove_cvref_t<T>>
-    Variant(T&& other) noexcept(noexcept(T(std::forward<T>(other))))
+    Variant(T&& other) noexcept(std::is_nothrow_constructible_v<std::remove_cvref_t<T>, T&&>)
         : m_index(pack_first_index_of_v<std::remove_cvref_t<T>, Ts...>)
     {
         std::construct_at(reinterpret_cast<std::remove_reference_t<T>*>(m_storage),
-- 
2.43.0


From 1fdb9ed9ae0f2437c5479fd069b01a27bd1dbe14 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 062/119] fix: failure to read a file is reported as an
 internal error

---
 src/common/io.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/io.cpp b/src/common/io.cpp
index 0b23eb2..2f7fcc3 100644
--- a/src/common/io.cpp
+++ b/src/common/io.cpp
@@ -9,8 +9,7 @@ Result<std::pmr::string, IO_Error_Code> file_to_string(std::string_view path,
                                                        std::pmr::memory_resource* memory)
 {
     constexpr auto read_size = std::size_t(4096);
-    auto stream = std::ifstream(path.data());
-    stream.exceptions(std::ios_base::badbit);
+    auto stream = std::ifstream(std::string(path));
 
     if (!stream) {
         return IO_Error_Code::cannot_open;
@@ -23,6 +22,9 @@ Result<std::pmr::string, IO_Error_Code> file_to_string(std::string_view path,
         out.append(buf, 0, static_cast<Size>(stream.gcount()));
     }
     out.append(buf, 0, static_cast<Size>(stream.gcount()));
+    if (stream.bad()) {
+        return IO_Error_Code::read_error;
+    }
     return out;
 }
 
-- 
2.43.0


From 650ef68ac15332f018eb2b0462540651627b7c6f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 063/119] fix: the language name 'typescript' is not recognized

---
 src/cli/glue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cli/glue.cpp b/src/cli/glue.cpp
index b5f0403..fe0897c 100644
--- a/src/cli/glue.cpp
+++ b/src/cli/glue.cpp
@@ -96,6 +96,7 @@ std::optional<bmd::Code_Language> code_language_by_name(std::string_view name)
         { "JavaScript", javascript },
         { "ts", typescript },
         { "TS", typescript },
+        { "typescript", typescript },
         { "TypeScript", typescript },
     };
     // clang-format on
-- 
2.43.0


From 4be2330dedebc1e2002d7e5e47cb5ba80ab9c57f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 064/119] fix: failure to write the output is not reported

---
 src/cli/main.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index 0ee87a0..a9f3152 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -91,12 +91,16 @@ int to_html(std::string_view file,
         else {
             std::ofstream out { std::string(*out_file) };
             if (!out) {
-                print_io_error(out, *out_file, IO_Error_Code::cannot_open, colors);
+                print_io_error(std::cout, *out_file, IO_Error_Code::cannot_open, colors);
                 return 1;
             }
 
             Simple_HTML_Consumer consumer { out };
             result = write_html(consumer, program, memory);
+            if (result && !out.flush()) {
+                print_io_error(std::cout, *out_file, IO_Error_Code::write_error, colors);
+                return 1;
+            }
         }
 
         if (!result) {
@@ -243,5 +247,7 @@ try {
 
 int main(int argc, const char** argv)
 {
-    return bit_manipulation::main(argc, argv);
+    const int result = bit_manipulation::main(argc, argv);
+    // It would be misleading to report success if the output could not be written.
+    return result == 0 && !std::cout.flush() ? 1 : result;
 }
-- 
2.43.0


From cf06e558bfd79f250e454116208a948588c28299 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 065/119] fix: look up unknown directive names without reading
 past the table

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 32e8f24..b94796f 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -190,7 +190,7 @@ std::optional<Directive_Type> directive_type_by_id(std::string_view directive_id
     static_assert(std::ranges::is_sorted(lookup, {}, &Pair::id));
 
     const auto it = std::ranges::lower_bound(lookup, directive_id, {}, &Pair::id);
-    if (it->id != directive_id) {
+    if (it == std::end(lookup) || it->id != directive_id) {
         return {};
     }
     return it->type;
-- 
2.43.0


From 2570d0e8c53c5e006fd55ec764e1d8bde7122670 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 066/119] fix: translate \sup to a superscript tag

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index b94796f..32c1f4c 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -216,7 +216,7 @@ std::string_view directive_type_tag(Directive_Type type)
     case quoted: return "q";
     case strikethrough: return "s";
     case subscript: return "sub";
-    case superscript: return "sub";
+    case superscript: return "sup";
     case teletype: return "tt";
     case underlined: return "u";
     case unordered_list: return "ul";
-- 
2.43.0


From 0088ce0a2340d59255c925f2751e21a771858186 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 067/119] fix: match text at the very end of BMD documents

---
 src/bmd/parsing/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 6bf8184..0d3a1bc 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -132,7 +132,7 @@ private:
 
     void advance_position_by(Size length)
     {
-        BIT_MANIPULATION_ASSERT(m_pos.begin + length < m_source.length());
+        BIT_MANIPULATION_ASSERT(m_pos.begin + length <= m_source.length());
         for (Size i = 0; i < length; ++i) {
             advance_position_based_on(m_source[m_pos.begin]);
         }
-- 
2.43.0


From d6d040974b3b920eba25284860bccc79f2b06e89 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 068/119] fix: accept BMD line comments which end with the
 document

---
 src/bmd/parsing/parse.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 0d3a1bc..acd4377 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -745,11 +745,7 @@ private:
             // Parse C99-style line comments.
             // Braces inside line comments don't contribute to brace matching.
             if (c == '/' && expect('/')) {
-                while (true) {
-                    if (eof()) {
-                        return Rule_Error { Parse_Error_Code::unterminated_comment,
-                                            Grammar_Rule::raw_content };
-                    }
+                while (!eof()) {
                     const char c = pop();
                     if (c == '\n') {
                         break;
@@ -809,10 +805,7 @@ private:
             // Parse C99-style line comments.
             if (expect("//")) {
                 newline_count = 0;
-                while (true) {
-                    if (eof()) {
-                        return Parse_Error_Code::unterminated_comment;
-                    }
+                while (!eof()) {
                     const char c = pop();
                     if (c == '\n') {
                         newline_count = 1;
-- 
2.43.0


From ed45972ca7c600ac29f578ed163bf56cf199267f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:18:15 +0000
Subject: [PATCH 069/119] fix: accept empty blocks of directives that must be
 empty

---
 src/bmd/parsing/parse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index acd4377..cf4baaf 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -579,6 +579,9 @@ private:
 
     Result<ast::Some_Node*, Rule_Error> match_empty_block()
     {
+        if (auto r = expect('{'); !r) {
+            return Rule_Error { r.error(), Grammar_Rule::block };
+        }
         if (auto r = match_blank(); !r) {
             return Rule_Error { Parse_Error_Code::unterminated_comment, Grammar_Rule::block };
         }
-- 
2.43.0


From 4ff0b2d38f2e20c4b89650f239ca75e9b35831da Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:18:15 +0000
Subject: [PATCH 070/119] fix: accept empty blocks of BMD directives

---
 src/bmd/parsing/parse.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index cf4baaf..ef5e8ab 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -60,7 +60,6 @@ Raw::Raw(const Local_Source_Span& pos, std::string_view value)
     : detail::Base { pos }
     , m_value(value)
 {
-    BIT_MANIPULATION_ASSERT(!value.empty());
 }
 
 } // namespace ast
@@ -702,13 +701,16 @@ private:
 
     /// @brief Matches a "raw block", which is of the form `{`, text, `}`.
     /// Basically, it matches any brace-enclosed content.
-    /// @return `ast::Text` which excludes the enclosing braces.
+    /// @return `ast::Text` which excludes the enclosing braces, or `nullptr` if there is no text.
     Result<ast::Some_Node*, Rule_Error> match_raw_block()
     {
         Result<ast::Raw, Rule_Error> raw = match_raw_block_impl();
         if (!raw) {
             return raw.error();
         }
+        if (raw->get_value().empty()) {
+            return nullptr;
+        }
         return alloc_node<ast::Text>(raw->get_source_position(), raw->get_value());
     }
 
-- 
2.43.0


From a7d7932295222afd3a8296bc2eb4c3feaa6a2b47 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 071/119] fix: parse comments and trailing blanks inside spans

---
 src/bmd/parsing/parse.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index ef5e8ab..88caa06 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -213,6 +213,12 @@ private:
             && (rest.length() <= 1 || !is_escapeable(rest[1]));
     }
 
+    /// @brief Checks whether the parser is at the start of whitespace or of a comment.
+    bool peek_blank() const
+    {
+        return peek(is_space) || peek("//") || peek("/*");
+    }
+
     /// @brief Checks whether the next character satisfies a predicate without advancing
     /// the parser.
     /// @param predicate the predicate to test
@@ -380,7 +386,7 @@ private:
         const auto initial_pos = m_pos;
         std::pmr::vector<ast::Some_Node*> elements(m_memory);
         while (!eof()) {
-            if (peek(is_space)) {
+            if (peek_blank()) {
                 Result<Blank, Rule_Error> blank = match_blank(Grammar_Rule::blank);
                 if (!blank) {
                     return blank.error();
@@ -390,6 +396,7 @@ private:
                 if (blank->length == 0) {
                     break;
                 }
+                continue;
             }
             ast::Some_Node* text = match_text();
             if (text) {
@@ -605,15 +612,21 @@ private:
         if (!result) {
             return result;
         }
-        if (peek(is_space)) {
-            // Text already consumes trailing space, so it only would have failed to consume
-            // all if the trailing space is a paragraph break.
+        auto trailing_blank = match_blank(Grammar_Rule::blank);
+        if (!trailing_blank) {
+            return Rule_Error { Parse_Error_Code::unterminated_comment, Grammar_Rule::block };
+        }
+        if (trailing_blank->is_paragraph_break) {
             return Rule_Error { Parse_Error_Code::paragraph_break_in_span, Grammar_Rule::block };
         }
-        if (!directives_allowed && peek_possible_directive()) {
+        if (eof()) {
+            return result;
+        }
+        if (peek_possible_directive()) {
             return Rule_Error { Parse_Error_Code::directive_in_text_span, Grammar_Rule::block };
         }
-        return result;
+        // Text spans consist of a single piece of text, so they cannot continue after a comment.
+        return Rule_Error { Parse_Error_Code::unexpected_character, Grammar_Rule::block };
     }
 
     Result<ast::Some_Node*, Rule_Error> match_block_inside_raw_block(Directive_Content_Type type)
-- 
2.43.0


From 3a19b81dcde3b594d6113d111dd5489a58023030 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 072/119] fix: accept empty directive argument lists and
 trailing commas

---
 src/bmd/parsing/parse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 88caa06..a963701 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -472,6 +472,10 @@ private:
             if (auto r = match_blank(Grammar_Rule::blank); !r) {
                 return r.error();
             }
+            // The list may be empty or end with a comma.
+            if (peek(']')) {
+                break;
+            }
             // restoration is solely for diagnostics quality
             auto restore_pos = m_pos;
 
-- 
2.43.0


From bb706ed01844842c42f783f8a37ac12700ce4e0d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 073/119] fix: reject directive arguments which do not fit into
 Int64

---
 src/bmd/parsing/parse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index a963701..99484f9 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -1,3 +1,4 @@
+#include <limits>
 #include <optional>
 
 #include "common/assert.hpp"
@@ -908,7 +909,7 @@ private:
         }
 
         std::optional<Big_Int> value = parse_integer_literal(s.substr(0, literal_match.length));
-        if (!value) {
+        if (!value || *value > std::numeric_limits<Int64>::max()) {
             return Rule_Error { Parse_Error_Code::invalid_integer_literal,
                                 Grammar_Rule::decimal_literal };
         }
-- 
2.43.0


From b9967c79a83eeac4b7ed649e5048ced3c789afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 074/119] fix: take the contents of \c literally, as the
 conversion to HTML expects

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 32c1f4c..0701a68 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -77,7 +77,6 @@ Directive_Content_Type directive_type_content_type(Directive_Type type)
     case title: return Directive_Content_Type::text_span;
 
     case bold:
-    case code:
     case deleted:
     case heading1:
     case heading2:
@@ -95,6 +94,7 @@ Directive_Content_Type directive_type_content_type(Directive_Type type)
     case teletype:
     case underlined: return Directive_Content_Type::span;
 
+    case code:
     case code_block: return Directive_Content_Type::raw;
 
     case note: return Directive_Content_Type::block;
-- 
2.43.0


From 320010e8ad94518636486e117b8b9ef4cc8e3286 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 075/119] fix: convert directives without a block to balanced
 tags

---
 src/bmd/html/doc_to_html.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 60f43bc..37bed96 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -262,12 +262,17 @@ struct HTML_Converter {
         const Tag_Properties tag { directive_type_tag(directive.get_type()),
                                    directive_type_formatting_style(directive.get_type()) };
 
-        BIT_MANIPULATION_ASSERT(directive.get_block() != nullptr
-                                || !directive_type_must_be_empty(directive.get_type()));
+        const bool is_empty = directive_type_must_be_empty(directive.get_type());
+        BIT_MANIPULATION_ASSERT(directive.get_block() == nullptr || !is_empty);
 
-        if (directive.get_block() == nullptr && directive.m_arguments.empty()) {
+        if (is_empty && directive.m_arguments.empty()) {
             m_writer.write_empty_tag(tag);
         }
+        else if (is_empty) {
+            auto attribute_writer = m_writer.begin_tag_with_attributes(tag);
+            pass_through_attributes(directive, attribute_writer);
+            attribute_writer.end_empty();
+        }
         else {
             begin_tag_with_passed_through_attributes(directive, tag);
 
@@ -290,6 +295,7 @@ struct HTML_Converter {
 
         auto attribute_writer = m_writer.begin_tag_with_attributes(properties);
         pass_through_attributes(directive, attribute_writer);
+        attribute_writer.end();
     }
 
     void pass_through_attributes(const ast::Directive& directive,
@@ -306,12 +312,6 @@ struct HTML_Converter {
             }
             BIT_MANIPULATION_ASSERT_UNREACHABLE("Unknown attribute value type.");
         }
-        if (directive.get_block() == nullptr) {
-            attribute_writer.end_empty();
-        }
-        else {
-            attribute_writer.end();
-        }
     }
 
     [[nodiscard]] Result<void, Document_Error>
-- 
2.43.0


From 3c694ebc654b90b3faa3dbdbd18758763930ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:20:10 +0000
Subject: [PATCH 076/119] fix: convert paragraphs in which comments separate
 text

---
 src/bmd/html/doc_to_html.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 37bed96..f579b61 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -191,15 +191,12 @@ struct HTML_Converter {
                 if (i + 1 >= children.size()) {
                     continue;
                 }
-                // get is appropriate here because there cannot be two consecutive Text
-                // elements
-                const auto& d = get<ast::Directive>(*children[i + 1]);
+                const Local_Source_Span next_pos = get_source_span(*children[i + 1]);
 
-                if (current_pos.end() == d.get_source_position().begin) {
+                if (current_pos.end() == next_pos.begin) {
                     continue;
                 }
-                const bool separate_lines
-                    = d.get_source_position().line + 1 > current_pos.line + *lines_written;
+                const bool separate_lines = next_pos.line + 1 > current_pos.line + *lines_written;
                 m_writer.write_whitespace(separate_lines ? '\n' : ' ', 1);
                 // TODO: this approach isn't perfect because it doesn't handle line breaks
                 // after directives properly. It would be best if directives stored what type
-- 
2.43.0


From c5d0bbcaff8812511cee831b618c9ad7626288d6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:20:10 +0000
Subject: [PATCH 077/119] fix: escape ampersands in HTML text

---
 src/bmd/html/html_writer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 0e01596..72e1d8e 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -37,12 +37,15 @@ void HTML_Writer::write_escaped_text(std::string_view text)
     BIT_MANIPULATION_ASSERT(m_state == State::new_line || m_state == State::normal);
 
     while (!text.empty()) {
-        const Size bracket_pos = text.find_first_of("<>");
+        const Size bracket_pos = text.find_first_of("<>&");
         const std::string_view snippet = text.substr(0, std::min(text.length(), bracket_pos));
         m_out.write(snippet, HTML_Token_Type::inner_text);
         if (bracket_pos == std::string_view::npos) {
             break;
         }
+        else if (text[bracket_pos] == '&') {
+            m_out.write("&amp;", HTML_Token_Type::inner_text);
+        }
         else if (text[bracket_pos] == '<') {
             m_out.write("&lt;", HTML_Token_Type::inner_text);
         }
-- 
2.43.0


From b6922b4399ac65772f4bae7480246274974c4eca Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:20:10 +0000
Subject: [PATCH 078/119] fix: quote and escape HTML attribute values

---
 src/bmd/html/html_writer.cpp | 11 ++++++++++-
 src/bmd/html/html_writer.hpp |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 72e1d8e..6d25c28 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -212,7 +212,16 @@ auto HTML_Writer::write_attribute(std::string_view key, std::string_view value)
         m_out.write('=', HTML_Token_Type::attribute_equal);
         if (requires_quotes_in_attribute(value)) {
             m_out.write('"', HTML_Token_Type::attribute_quote);
-            m_out.write(value, HTML_Token_Type::attribute_value);
+            while (true) {
+                const Size special_pos = value.find_first_of("\"&");
+                m_out.write(value.substr(0, special_pos), HTML_Token_Type::attribute_value);
+                if (special_pos == std::string_view::npos) {
+                    break;
+                }
+                m_out.write(value[special_pos] == '"' ? "&quot;" : "&amp;",
+                            HTML_Token_Type::attribute_value);
+                value = value.substr(special_pos + 1);
+            }
             m_out.write('"', HTML_Token_Type::attribute_quote);
         }
         else {
diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 7091eab..0284139 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -14,7 +14,7 @@ namespace bit_manipulation::bmd {
 /// no wrapping, but `id="<x>"` requires `<x>` to be surrounded by quotes.
 inline bool requires_quotes_in_attribute(std::string_view value)
 {
-    return value.find_first_of("\"/'`=<> ") != std::string_view::npos;
+    return value.find_first_of("\"/'`=<>& \t\n\r\f") != std::string_view::npos;
 }
 
 /// @brief The formatting style of an HTML tag.
-- 
2.43.0


From da34e4bebf44ea716b1d73abd5101e7adf744ede Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:20:10 +0000
Subject: [PATCH 079/119] fix: keep the slash of empty tags out of unquoted
 attribute values

---
 src/bmd/html/html_writer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 6d25c28..8dedb0f 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -257,7 +257,8 @@ auto HTML_Writer::end_empty_tag_attributes(Formatting_Style style) -> Self&
 {
     BIT_MANIPULATION_ASSERT(m_state == State::attributes);
 
-    m_out.write("/>", HTML_Token_Type::tag_bracket);
+    // The space prevents the slash from becoming part of an unquoted attribute value.
+    m_out.write(" />", HTML_Token_Type::tag_bracket);
     m_state = State::normal;
 
     if (is_block_like(style)) {
-- 
2.43.0


From 982ae119b62527b0210a60b7e59d18f16b525011 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:20:10 +0000
Subject: [PATCH 080/119] fix: token type of tags with attributes

---
 src/bmd/html/html_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 8dedb0f..7584949 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -126,7 +126,7 @@ Attribute_Writer HTML_Writer::begin_tag_with_attributes(Tag_Properties propertie
 
     indent(properties.style);
     m_out.write('<', HTML_Token_Type::tag_bracket);
-    m_out.write(properties.id, HTML_Token_Type::tag_bracket);
+    m_out.write(properties.id, HTML_Token_Type::tag_identifier);
 
     m_state = State::attributes;
 
-- 
2.43.0


From 8a53d81540389f47e8351f4390637addd8805186 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:20:10 +0000
Subject: [PATCH 081/119] fix: unfinished HTML documents are not done

---
 src/bmd/html/html_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 0284139..90e2740 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -143,7 +143,7 @@ public:
     /// complete, `false` otherwise.
     bool is_done() const
     {
-        return (m_state != State::normal || m_state == State::new_line) && m_depth == 0
+        return (m_state == State::normal || m_state == State::new_line) && m_depth == 0
             && m_indent_depth == 0;
     }
 
-- 
2.43.0


From fb2d36e76c7df1bc8ceb6408c6eeabc4a96a1257 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:20:10 +0000
Subject: [PATCH 082/119] fix: HTML comments cannot precede the preamble

---
 src/bmd/html/html_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 7584949..3705fcb 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -157,7 +157,7 @@ auto HTML_Writer::end_tag(Tag_Properties properties) -> Self&
 
 auto HTML_Writer::write_comment_tag(std::string_view comment, Formatting_Style style) -> Self&
 {
-    BIT_MANIPULATION_ASSERT(m_state != State::attributes);
+    BIT_MANIPULATION_ASSERT(m_state == State::normal || m_state == State::new_line);
     BIT_MANIPULATION_ASSERT(comment.find("-->") == std::string_view::npos);
 
     indent(style);
-- 
2.43.0


From 9133dbe7bde87225ca75979b45ac6eb764bbcc65 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:20:10 +0000
Subject: [PATCH 083/119] fix: preserve the whitespace between BMS tokens in
 HTML

---
 src/bmd/html/bms_to_html.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/bms_to_html.cpp b/src/bmd/html/bms_to_html.cpp
index 3e773a0..f51697f 100644
--- a/src/bmd/html/bms_to_html.cpp
+++ b/src/bmd/html/bms_to_html.cpp
@@ -91,7 +91,9 @@ void tokens_to_html(HTML_Writer& out, std::span<const bms::Token> tokens, std::s
 {
     for (Size i = 0; i < tokens.size(); ++i) {
         if (i != 0) {
-            out.write_source_gap(tokens[i - 1].pos, tokens[i].pos, Formatting_Style::pre);
+            const Size gap_begin = tokens[i - 1].pos.end();
+            const Size gap_length = tokens[i].pos.begin - gap_begin;
+            out.write_inner_text(code.substr(gap_begin, gap_length), Formatting_Style::pre);
         }
 
         const Code_Span_Type category = categorize_token_type(tokens[i].type);
-- 
2.43.0


From 882e957adc3d3148e901383c77cbe4a1f18c1b8c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:20:10 +0000
Subject: [PATCH 084/119] fix: convert code in languages without highlighting
 to HTML

---
 src/bmd/html/doc_to_html.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index f579b61..d50e3e1 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -404,8 +404,9 @@ struct HTML_Converter {
             break;
         }
         default:
-            BIT_MANIPULATION_ASSERT_UNREACHABLE(
-                "Only bms and plaintext highlighting is implemented.");
+            // Highlighting of other languages is not implemented.
+            m_writer.write_inner_text(code_text->get_text(), Formatting_Style::pre);
+            break;
         }
 
         return {};
-- 
2.43.0


From 7aaac09e4ed23fa1b894edb7ac49611d9c42e80d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:20:10 +0000
Subject: [PATCH 085/119] fix: convert instructions with no text or an invalid
 extension

---
 src/bmd/html/doc_to_html.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index d50e3e1..bf5e43e 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -442,14 +442,19 @@ struct HTML_Converter {
         static constexpr Tag_Properties hyperlink { "a", Formatting_Style::in_line };
         static constexpr Tag_Properties code { "code", Formatting_Style::in_line };
 
-        // TODO: deal with potentially empty text (null block)
-        const ast::Text& text = get<ast::Text>(*directive.get_block());
+        if (!extension) {
+            return extension.error();
+        }
+
+        const std::string_view text = directive.get_block() == nullptr
+            ? std::string_view {}
+            : get<ast::Text>(*directive.get_block()).get_text();
 
         std::string_view link_prefix = architecture_link_prefix(*arch);
 
         if (!link_prefix.empty()) {
             std::pmr::string link(link_prefix, m_memory);
-            link += text.get_text();
+            link += text;
 
             m_writer
                 .begin_tag_with_attributes(hyperlink) //
@@ -457,7 +462,7 @@ struct HTML_Converter {
                 .end();
         }
         m_writer.begin_tag(code);
-        m_writer.write_inner_text(text.get_text(), Formatting_Style::in_line);
+        m_writer.write_inner_text(text, Formatting_Style::in_line);
         m_writer.end_tag(code);
 
         if (!link_prefix.empty()) {
-- 
2.43.0


From c7a067cc06ea9b4d9d21cb79eec3e05fe876a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:21:15 +0000
Subject: [PATCH 086/119] fix: replace escape sequences when converting text to
 HTML

---
 src/bmd/html/doc_to_html.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index bf5e43e..a03077a 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -87,6 +87,21 @@ std::string_view architecture_link_prefix(Architecture arch)
     }
 }
 
+/// @brief Replaces the escape sequences `\\`, `\{`, and `\}` with the escaped characters.
+/// @param text the text, as written in the document
+/// @param memory a source of memory for the result
+/// @return The text that was meant.
+std::pmr::string unescape(std::string_view text, std::pmr::memory_resource* memory)
+{
+    std::pmr::string result(memory);
+    for (Size i = 0; i < text.length(); ++i) {
+        const bool is_escape = text[i] == '\\' && i + 1 < text.length()
+            && std::string_view("\\{}").find(text[i + 1]) != std::string_view::npos;
+        result += text[is_escape ? ++i : i];
+    }
+    return result;
+}
+
 template <typename E>
 std::optional<E> attribute_enum_by_name(std::string_view name)
 {
@@ -228,7 +243,7 @@ struct HTML_Converter {
                                                             Formatting_Style inherited_style)
     {
         m_at_start_of_file = false;
-        return m_writer.write_inner_text(text.get_text(), inherited_style);
+        return m_writer.write_inner_text(unescape(text.get_text(), m_memory), inherited_style);
     }
 
     [[nodiscard]] Result<void, Document_Error> convert_directive(const ast::Directive& directive)
@@ -346,7 +361,7 @@ struct HTML_Converter {
         if (title_directive != nullptr) {
             const Tag_Properties heading { "h1", Formatting_Style::in_line };
             begin_tag_with_passed_through_attributes(*title_directive, heading);
-            m_writer.write_inner_text(m_meta.title, heading.style);
+            m_writer.write_inner_text(unescape(m_meta.title, m_memory), heading.style);
             m_writer.end_tag(heading);
         }
 
@@ -446,9 +461,9 @@ struct HTML_Converter {
             return extension.error();
         }
 
-        const std::string_view text = directive.get_block() == nullptr
-            ? std::string_view {}
-            : get<ast::Text>(*directive.get_block()).get_text();
+        const std::pmr::string text = directive.get_block() == nullptr
+            ? std::pmr::string(m_memory)
+            : unescape(get<ast::Text>(*directive.get_block()).get_text(), m_memory);
 
         std::string_view link_prefix = architecture_link_prefix(*arch);
 
-- 
2.43.0


From a842c30c3e8174e41b361b319b86f3b79fac19c5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:21:15 +0000
Subject: [PATCH 087/119] fix: convert list items and notes to HTML

---
 src/bmd/directive_type.hpp | 4 +++-
 src/bmd/enums.cpp          | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bmd/directive_type.hpp b/src/bmd/directive_type.hpp
index 5c286ca..16aa644 100644
--- a/src/bmd/directive_type.hpp
+++ b/src/bmd/directive_type.hpp
@@ -150,7 +150,9 @@ std::string_view directive_type_tag(Directive_Type type);
 /// into an HTML tag. For example, `\b{...}` directly translates into `<b>...</b>`.
 inline bool directive_type_is_html_passthrough(Directive_Type type)
 {
-    return type <= Directive_Type::unordered_list;
+    return type <= Directive_Type::unordered_list //
+        || type == Directive_Type::item //
+        || type == Directive_Type::note;
 }
 
 } // namespace bit_manipulation::bmd
diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 0701a68..5557d17 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -223,13 +223,13 @@ std::string_view directive_type_tag(Directive_Type type)
     case code: return "code";
     case code_block: return "div";
     case instruction: return "span";
+    case item: return "li";
     case note: return "div";
     case meta: return "head";
     case title: return "title";
 
     case bms_function:
-    case c_equivalent:
-    case item: return "";
+    case c_equivalent: return "";
     }
     BIT_MANIPULATION_ASSERT_UNREACHABLE("Invalid directive type.");
 }
-- 
2.43.0


From 6f4dcb03a4c53def7c47f31e5a179011bd558ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:21:15 +0000
Subject: [PATCH 088/119] fix: diagnose all duplicate entries of \meta

---
 src/bmd/html/doc_to_html.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index a03077a..c6dd759 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -342,18 +342,22 @@ struct HTML_Converter {
         }
 
         const ast::Directive* title_directive = nullptr;
-        for (const ast::Some_Node* const p :
-             get<ast::List>(*directive.get_block()).get_children()) {
+        const auto& entries = get<ast::List>(*directive.get_block());
+        for (const ast::Some_Node* const p : entries.get_children()) {
             const auto& child = get<ast::Directive>(*p);
+            for (const ast::Some_Node* const q : entries.get_children()) {
+                if (p == q) {
+                    break;
+                }
+                if (get<ast::Directive>(*q).get_type() == child.get_type()) {
+                    return Document_Error { Document_Error_Code::duplicate_meta_entry,
+                                            child.get_source_position() };
+                }
+            }
             if (auto r = update_metadata_from_directive(child); !r) {
                 return r;
             }
             if (child.get_type() == Directive_Type::title) {
-                if (title_directive != nullptr) {
-                    // TODO: check this for other entries as well
-                    return Document_Error { Document_Error_Code::duplicate_meta_entry,
-                                            child.get_source_position() };
-                }
                 title_directive = &child;
             }
         }
-- 
2.43.0


From 1cc8c63409261c1d9ff4d79b48bbd77f89f2f301 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:22:54 +0000
Subject: [PATCH 089/119] fix: source spans of paragraphs next to other content

---
 src/bmd/parsing/parse.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 99484f9..cf02832 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -317,17 +317,16 @@ private:
         /// If `!paragraph_elements.empty()`, creates a new paragraph containing the elements
         /// and appends it to `elements`.
         /// Other state is update to make subsequent calls possible.
-        auto break_paragraph =
-            [this, &elements, &paragraph_elements, pos_before_paragraph = initial_pos]() mutable //
+        auto break_paragraph = [this, &elements, &paragraph_elements]() //
         {
             if (paragraph_elements.empty()) {
                 return;
             }
-            elements.push_back(alloc_node<ast::List>(
-                { pos_before_paragraph, m_pos.begin - pos_before_paragraph.begin },
-                std::vector(paragraph_elements)));
+            const Local_Source_Span first = get_source_span(*paragraph_elements.front());
+            const Local_Source_Span last = get_source_span(*paragraph_elements.back());
+            elements.push_back(alloc_node<ast::List>({ first, last.end() - first.begin },
+                                                     std::vector(paragraph_elements)));
             paragraph_elements.clear();
-            pos_before_paragraph = m_pos;
         };
 
         while (!eof()) {
-- 
2.43.0


From 650f0fc4c4b0bbede0eddc42748e5802be2af435 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 090/119] fix: attributes of block tags with content

---
 src/bmd/html/html_writer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 3705fcb..66d21f1 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -237,6 +237,7 @@ auto HTML_Writer::end_attributes(Formatting_Style style) -> Self&
     BIT_MANIPULATION_ASSERT(m_state == State::attributes);
 
     m_out.write('>', HTML_Token_Type::tag_bracket);
+    m_state = State::normal;
 
     if (is_block_like(style)) {
         break_line();
@@ -244,9 +245,6 @@ auto HTML_Writer::end_attributes(Formatting_Style style) -> Self&
             ++m_indent_depth;
         }
     }
-    else {
-        m_state = State::normal;
-    }
 
     ++m_depth;
 
-- 
2.43.0


From d8c436f53f1db822b69b1c9d1a96b9245ffce48f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 091/119] fix: diagnose unexpected line breaks on a single line

---
 src/common/diagnostics.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 5775df4..9ba60c3 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -745,8 +745,14 @@ std::ostream& print_parse_error(std::ostream& out,
     print_file_position(out, file, error.pos, colors) << ": " << error_prefix(colors);
 
     if (error.code == bmd::Parse_Error_Code::unexpected_character) {
-        out << "unexpected character '" << source[error.pos.begin] << "' while matching '"
-            << grammar_rule_name(error.rule) << "'\n";
+        out << "unexpected character '";
+        // A line break would otherwise tear the diagnostic line apart.
+        switch (const char c = source[error.pos.begin]) {
+        case '\n': out << "\\n"; break;
+        case '\r': out << "\\r"; break;
+        default: out << c;
+        }
+        out << "' while matching '" << grammar_rule_name(error.rule) << "'\n";
         // TODO: diagnose expected character perhaps
     }
     else {
-- 
2.43.0


From 017c144d1c589f09fb5e780853d3bf05b2201e5c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:11:46 +0000
Subject: [PATCH 092/119] fix: report failure for unsupported conversions

---
 src/cli/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index a9f3152..dded84d 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -73,7 +73,7 @@ int to_html(std::string_view file,
 
     if (file.ends_with(".bms")) {
         std::cout << "Converting BMS files to HTML is not supported yet\n";
-        return 0;
+        return 1;
     }
     if (file.ends_with(".bmd")) {
         const bmd::Parsed_Document program = parse_bmd_file(source, file, memory);
-- 
2.43.0


From b5ba0bf5fe244e1dc5593e0faf478a47829e3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:11:46 +0000
Subject: [PATCH 093/119] fix: keep requires clauses in generated BMS code

---
 src/bmd/codegen/codegen_bms.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index f88ce1e..9b473d9 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -174,6 +174,13 @@ struct Bms_Code_Generator::Visitor {
             return r;
         }
 
+        if (const Some_Node* requires_clause = function.get_requires_clause_node()) {
+            self.write_infix_keyword(bms::Token_Type::keyword_requires);
+            if (auto r = self.generate_code(requires_clause); !r) {
+                return r;
+            }
+        }
+
         self.separate_after_function();
         if (auto r = Visitor { self, function.get_body_node() }(function.get_body()); !r) {
             return r;
-- 
2.43.0


From b9d70b463a1f5e4a417e64d440db2292b6ffaabb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:12:07 +0000
Subject: [PATCH 094/119] fix: highlight boolean literals in generated BMS code
 as such

---
 src/bmd/codegen/codegen_bms.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 9b473d9..6e4a67f 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -505,7 +505,10 @@ struct Bms_Code_Generator::Visitor {
 
     [[nodiscard]] Result<void, Generator_Error> operator()(const Literal& literal)
     {
-        self.m_out.append(literal.get_literal(), Code_Span_Type::number);
+        const bool is_boolean = literal.get_type() == bms::Token_Type::keyword_true
+            || literal.get_type() == bms::Token_Type::keyword_false;
+        self.m_out.append(literal.get_literal(),
+                          is_boolean ? Code_Span_Type::boolean_literal : Code_Span_Type::number);
         return {};
     }
 };
-- 
2.43.0


From ce75ea044af064dbe1447209843837c94eb4a649 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:12:07 +0000
Subject: [PATCH 095/119] fix: write else before else blocks in generated BMS
 code

---
 src/bmd/codegen/codegen_bms.cpp    |  6 ++++--
 src/bmd/codegen/generator_base.hpp | 10 ++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 6e4a67f..61481a2 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -304,15 +304,17 @@ struct Bms_Code_Generator::Visitor {
         }
 
         if (const Some_Node* else_node = statement.get_else_node()) {
+            self.separate_before_else();
+            self.write_indent();
+            self.write_keyword(bms::Token_Type::keyword_else);
             if (const If_Statement* else_if = get_if<If_Statement>(else_node)) {
-                self.write_indent();
-                self.write_keyword(bms::Token_Type::keyword_else);
                 self.m_out.append(' ');
                 if (auto r = Visitor { self, else_node }(*else_if); !r) {
                     return r;
                 }
             }
             else if (const Block_Statement* else_block = get_if<Block_Statement>(else_node)) {
+                self.separate_after_if();
                 if (auto r = Visitor { self, else_node }(*else_block); !r) {
                     return r;
                 }
diff --git a/src/bmd/codegen/generator_base.hpp b/src/bmd/codegen/generator_base.hpp
index 293b0f0..2adbd89 100644
--- a/src/bmd/codegen/generator_base.hpp
+++ b/src/bmd/codegen/generator_base.hpp
@@ -154,6 +154,16 @@ protected:
         }
     }
 
+    void separate_before_else()
+    {
+        if (m_options.brace_style == Brace_Style::k_and_r) {
+            m_out.append(' ');
+        }
+        else {
+            end_line();
+        }
+    }
+
     void write_line(std::string_view text)
     {
         BIT_MANIPULATION_ASSERT(m_start_of_line);
-- 
2.43.0


From 2621268a039e3addb1105b662a0d8b5f24bb39b0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:12:07 +0000
Subject: [PATCH 096/119] fix: indent opening braces in generated BMS code

---
 src/bmd/codegen/codegen_bms.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 61481a2..12b682f 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -390,6 +390,7 @@ struct Bms_Code_Generator::Visitor {
     {
         Scoped_Attempt attempt = self.start_attempt();
 
+        self.write_indent();
         self.m_out.append("{", Code_Span_Type::bracket);
         self.end_line();
         {
-- 
2.43.0


From 0cfeebdd802db9f9013361a4997778f76581cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:12:07 +0000
Subject: [PATCH 097/119] fix: terminate call statements in generated BMS code

---
 src/bmd/codegen/codegen_bms.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 12b682f..7d458b0 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -495,6 +495,9 @@ struct Bms_Code_Generator::Visitor {
                 first = false;
             }
         }
+        if (call.is_statement()) {
+            self.write_semicolon();
+        }
 
         attempt.commit();
         return {};
-- 
2.43.0


From d6796c5454fa1bb232b5a1c62dbfc7bc953190c4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 098/119] fix: parenthesize operands of conversions in
 generated BMS code

---
 src/bmd/codegen/codegen_bms.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 7d458b0..53c23b2 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -106,6 +106,10 @@ private:
                                          const Some_Node& inner) const final
     {
         const bms::Expression_Type inner_type = bms::ast::get_expression_type(inner);
+        // "as" binds weakly, but its left side can only be a prefix expression.
+        if (outer_type == bms::Expression_Type::conversion && bms::is_binary(inner_type)) {
+            return true;
+        }
         return !std::is_lteq(bms::compare_precedence(outer_type, inner_type));
     }
 
-- 
2.43.0


From f86f7a7fd484b427be6ee22ea2dbb45b54521b7a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 099/119] fix: declare parameters in generated C code as C does

---
 src/bmd/codegen/codegen_c_cpp.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index ba39b75..770a170 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -341,13 +341,12 @@ struct C_Cpp_Code_Generator::Visitor {
                     self.write_separating_comma();
                 }
                 first = false;
-                self.m_out.append(parameter.get_name(), Code_Span_Type::identifier);
-                self.m_out.append(':', Code_Span_Type::punctuation);
-                self.m_out.append(' ');
                 auto v = Visitor { self, parameter.get_type_node() };
                 if (auto r = v(parameter.get_type()); !r) {
                     return r;
                 }
+                self.m_out.append(' ');
+                self.m_out.append(parameter.get_name(), Code_Span_Type::identifier);
             }
             if (first) {
                 self.write_keyword("void");
-- 
2.43.0


From de045b3af7bc15359419df9dd52bdb9b788c6530 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 100/119] fix: write else before else blocks in generated C
 code

---
 src/bmd/codegen/codegen_c_cpp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 770a170..03588c5 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -442,15 +442,17 @@ struct C_Cpp_Code_Generator::Visitor {
         }
 
         if (const Some_Node* else_node = statement.get_else_node()) {
+            self.separate_before_else();
+            self.write_indent();
+            self.m_out.append("else", Code_Span_Type::keyword);
             if (const If_Statement* else_if = get_if<If_Statement>(else_node)) {
-                self.write_indent();
-                self.m_out.append("else", Code_Span_Type::keyword);
                 self.m_out.append(' ');
                 if (auto r = Visitor { self, else_node }(*else_if); !r) {
                     return r;
                 }
             }
             else if (const Block_Statement* else_block = get_if<Block_Statement>(else_node)) {
+                self.separate_after_if();
                 if (auto r = Visitor { self, else_node }(*else_block); !r) {
                     return r;
                 }
-- 
2.43.0


From 65c0b276e4873a61acaa807c6dc1be169353c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 101/119] fix: indent opening braces in generated C code

---
 src/bmd/codegen/codegen_c_cpp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 03588c5..bd595fc 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -531,6 +531,7 @@ struct C_Cpp_Code_Generator::Visitor {
     {
         Scoped_Attempt attempt = self.start_attempt();
 
+        self.write_indent();
         self.m_out.append("{", Code_Span_Type::bracket);
         self.end_line();
         {
-- 
2.43.0


From 6dcd07e51ef5c3cdec8dedc8c0160bfd9a941091 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 102/119] fix: terminate call statements in generated C code

---
 src/bmd/codegen/codegen_c_cpp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index bd595fc..486f1ce 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -651,6 +651,9 @@ struct C_Cpp_Code_Generator::Visitor {
                 first = false;
             }
         }
+        if (call.is_statement()) {
+            self.write_semicolon();
+        }
 
         attempt.commit();
         return {};
-- 
2.43.0


From ff113f1f77cd9af05ff2f6b78cf4589ed4e22860 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 103/119] fix: balance parentheses of conditional expressions
 in generated C code

---
 src/bmd/codegen/codegen_c_cpp.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 486f1ce..2dc3ca5 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -577,13 +577,6 @@ struct C_Cpp_Code_Generator::Visitor {
         constexpr auto outer_type = bms::Expression_Type::if_expression;
         Scoped_Attempt attempt = self.start_attempt();
 
-        const Some_Node& parent = *expression.get_parent();
-        const bool parenthesize = is_expression(parent);
-
-        if (parenthesize) {
-            self.m_out.append('(', Code_Span_Type::bracket);
-        }
-
         if (auto r = self.generate_subexpression(outer_type, expression.get_condition_node()); !r) {
             return r;
         }
@@ -596,10 +589,6 @@ struct C_Cpp_Code_Generator::Visitor {
             return r;
         }
 
-        if (!parenthesize) {
-            self.m_out.append(')', Code_Span_Type::bracket);
-        }
-
         attempt.commit();
         return {};
     }
-- 
2.43.0


From 7f207f29dd677c984c8f895fc3c5820c0f708d4a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 104/119] fix: parenthesize operands of equal precedence in
 generated C code

---
 src/bmd/codegen/codegen_c_cpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 2dc3ca5..455ccaa 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -285,7 +285,8 @@ private:
     {
         const C_Cpp_Precedence_Group outer_group = precedence_group_of(outer_type);
         const C_Cpp_Precedence_Group inner_group = precedence_group_of(get_expression_type(inner));
-        return !std::is_lteq(compare_readably(outer_group, inner_group));
+        // Operators of the same group would be regrouped (a - (b - c)) or merged (-(-a)).
+        return !std::is_lt(compare_readably(outer_group, inner_group));
     }
 
     struct Visitor;
-- 
2.43.0


From dc7f9fb93bdf1cfe5b03dbbf460a2be8f54e1c95 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 105/119] fix: separate declarations in generated C code by
 empty lines

---
 src/bmd/codegen/codegen_c_cpp.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 455ccaa..5cd6db9 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -302,12 +302,14 @@ struct C_Cpp_Code_Generator::Visitor {
 
         bool first = true;
         for (const Some_Node* declaration : program.get_children()) {
+            Scoped_Attempt newline_attempt = self.start_attempt();
+            if (!first) {
+                self.end_line();
+            }
             if (auto r = self.generate_code(declaration)) {
-                if (!first) {
-                    self.end_line();
-                }
-                first = false;
                 self.end_line();
+                first = false;
+                newline_attempt.commit();
             }
             else if (r.error().code != Generator_Error_Code::empty) {
                 return r;
-- 
2.43.0


From b1e539d041d22f8086ef4ba255287d4a38447f6d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 106/119] fix: name constants in generated C23 code

---
 src/bmd/codegen/codegen_c_cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 5cd6db9..7e9e594 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -659,8 +659,8 @@ struct C_Cpp_Code_Generator::Visitor {
                 // Therefore, we are forced to inline these whenever used.
                 if (!self.m_options.c_23) {
                     append_value(self.m_out, constant->const_value()->concrete_value());
+                    return {};
                 }
-                return {};
             }
         }
 
-- 
2.43.0


From c22d45e5d03956b336cfb2963564e01402102507 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 107/119] fix: keep value and type of constants in generated C
 code

---
 src/bmd/codegen/codegen_c_cpp.cpp | 98 ++++++++++++++++++++++---------
 1 file changed, 71 insertions(+), 27 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 7e9e594..4df49dc 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -1,4 +1,7 @@
+#include <cstdint>
+#include <limits>
 #include <optional>
+#include <string>
 
 #include "common/assert.hpp"
 #include "common/result.hpp"
@@ -142,28 +145,6 @@ struct C_Cpp_Type {
     int width = 0;
 };
 
-void append_value(Code_String& out, const bms::Concrete_Value& v)
-{
-    switch (v.type.type()) {
-    case bms::Type_Type::Void: //
-        out.append('(', Code_Span_Type::bracket);
-        out.append("void", Code_Span_Type::keyword);
-        out.append(')', Code_Span_Type::bracket);
-        out.append('0', Code_Span_Type::number);
-        break;
-    case bms::Type_Type::Bool:
-        out.append(v.int_value ? "true" : "false", Code_Span_Type::boolean_literal);
-        break;
-    case bms::Type_Type::Int: //
-        out.append(to_string(v.int_value), Code_Span_Type::number);
-        break;
-    case bms::Type_Type::Uint: //
-        out.append(to_string(Big_Uint(v.int_value)), Code_Span_Type::number);
-        break;
-    default: BIT_MANIPULATION_ASSERT_UNREACHABLE("Invalid type");
-    }
-}
-
 void append_type(Code_String& out, C_Cpp_Type type, C_Cpp_Dialect dialect)
 {
     const auto prepend_std = [&]() {
@@ -250,6 +231,22 @@ to_c_type(const bms::Concrete_Type& type, const Code_Options& options, C_Cpp_Dia
     BIT_MANIPULATION_ASSERT_UNREACHABLE("BMS types should always have a C equivalent");
 }
 
+/// @brief Appends the digits of an integer, with a suffix if the literal would otherwise be too
+/// large for a signed integer.
+void append_integer(Code_String& out, Big_Uint value)
+{
+    constexpr Big_Uint max_signed = std::numeric_limits<std::int32_t>::max();
+    constexpr Big_Uint max_unsigned = std::numeric_limits<std::uint64_t>::max();
+    std::string text = to_string(value);
+    if (value > max_unsigned) {
+        text += "uwb";
+    }
+    else if (value > max_signed) {
+        text += 'u';
+    }
+    out.append(text, Code_Span_Type::number);
+}
+
 using namespace bms::ast;
 
 struct C_Cpp_Code_Generator final : Code_Generator_Base {
@@ -280,6 +277,53 @@ private:
         return {};
     }
 
+    /// @brief Appends an expression which has the given value.
+    /// Integers which have a width are converted to their type because the type of an integer
+    /// literal depends only on its value.
+    [[nodiscard]] Result<void, Generator_Error> generate_value(const Some_Node* node,
+                                                               const bms::Concrete_Value& v)
+    {
+        switch (v.type.type()) {
+        case bms::Type_Type::Void: //
+            m_out.append('(', Code_Span_Type::bracket);
+            m_out.append("void", Code_Span_Type::keyword);
+            m_out.append(')', Code_Span_Type::bracket);
+            m_out.append('0', Code_Span_Type::number);
+            return {};
+        case bms::Type_Type::Bool:
+            m_out.append(v.int_value ? "true" : "false", Code_Span_Type::boolean_literal);
+            return {};
+        case bms::Type_Type::Int: //
+            if (v.int_value >= 0) {
+                append_integer(m_out, Big_Uint(v.int_value));
+            }
+            else {
+                Scoped_Parenthesization p = parenthesize();
+                m_out.append('-', Code_Span_Type::operation);
+                m_out.append(to_string(-Big_Uint(v.int_value)), Code_Span_Type::number);
+            }
+            return {};
+        case bms::Type_Type::Uint: {
+            Scoped_Attempt attempt = start_attempt();
+            if (auto r = generate_cast(node, v.type); !r) {
+                return r;
+            }
+            append_integer(m_out, Big_Uint(v.int_value));
+            attempt.commit();
+            return {};
+        }
+        }
+        BIT_MANIPULATION_ASSERT_UNREACHABLE("Invalid type");
+    }
+
+    /// @brief Appends `(T)`, where `T` is the C equivalent of the given type.
+    [[nodiscard]] Result<void, Generator_Error> generate_cast(const Some_Node* node,
+                                                              const bms::Concrete_Type& type)
+    {
+        Scoped_Parenthesization p = parenthesize();
+        return generate_type(node, type);
+    }
+
     [[nodiscard]] bool needs_parentheses(bms::Expression_Type outer_type,
                                          const Some_Node& inner) const final
     {
@@ -389,7 +433,9 @@ struct C_Cpp_Code_Generator::Visitor {
         self.m_out.append(constant.get_name(), Code_Span_Type::identifier);
 
         self.write_infix_operator("=");
-        append_value(self.m_out, constant.const_value()->concrete_value());
+        if (auto r = self.generate_value(node, constant.const_value()->concrete_value()); !r) {
+            return r;
+        }
 
         self.m_out.append(';', Code_Span_Type::punctuation);
 
@@ -658,8 +704,7 @@ struct C_Cpp_Code_Generator::Visitor {
                 // Only C23 supports constexpr; there are no "true constants" prior to that.
                 // Therefore, we are forced to inline these whenever used.
                 if (!self.m_options.c_23) {
-                    append_value(self.m_out, constant->const_value()->concrete_value());
-                    return {};
+                    return self.generate_value(node, constant->const_value()->concrete_value());
                 }
             }
         }
@@ -671,8 +716,7 @@ struct C_Cpp_Code_Generator::Visitor {
     [[nodiscard]] Result<void, Generator_Error> operator()(const Literal& literal)
     {
         // TODO: preserve original style (hex vs. decimal literal etc.)
-        append_value(self.m_out, literal.const_value()->concrete_value());
-        return {};
+        return self.generate_value(node, literal.const_value()->concrete_value());
     }
 };
 
-- 
2.43.0


From 96240092d63003243c0cc40676e8bea224471fae Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 108/119] fix: compute with the width of operands in generated
 C code

---
 src/bmd/codegen/codegen_c_cpp.cpp | 106 +++++++++++++++++++++++++++---
 1 file changed, 98 insertions(+), 8 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 4df49dc..50cf78d 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -324,6 +324,63 @@ private:
         return generate_type(node, type);
     }
 
+    /// @brief Returns `true` if C computes with `int` instead of the C equivalent of `type`.
+    [[nodiscard]] bool is_promoted(const bms::Concrete_Type& type) const
+    {
+        if (!type.is_uint()) {
+            return false;
+        }
+        const auto c_type = to_c_type(type, m_options, m_dialect);
+        return c_type
+            && (c_type->type == C_Cpp_Type_Type::uint8 || c_type->type == C_Cpp_Type_Type::uint16);
+    }
+
+    /// @brief Returns `true` if the C equivalent of `type` is a bit-precise integer.
+    [[nodiscard]] bool is_bit_precise(const bms::Concrete_Type& type) const
+    {
+        if (!type.is_uint()) {
+            return false;
+        }
+        const auto c_type = to_c_type(type, m_options, m_dialect);
+        return c_type && c_type->type == C_Cpp_Type_Type::bituint;
+    }
+
+    /// @brief Like `generate_subexpression`, but explicitly converts `inner` to `type`.
+    [[nodiscard]] Result<void, Generator_Error>
+    generate_converted_subexpression(const Some_Node* inner, const bms::Concrete_Type& type)
+    {
+        Scoped_Attempt attempt = start_attempt();
+        if (auto r = generate_cast(inner, type); !r) {
+            return r;
+        }
+        if (auto r = generate_subexpression(bms::Expression_Type::conversion, inner); !r) {
+            return r;
+        }
+        attempt.commit();
+        return {};
+    }
+
+    /// @brief Generates one operand of an operation with result `type`.
+    /// Integers without a width have type `int`, so they have to be converted explicitly wherever
+    /// C would then compute with `int`.
+    [[nodiscard]] Result<void, Generator_Error> generate_operand(bms::Expression_Type outer_type,
+                                                                 const Some_Node* inner,
+                                                                 const bms::Concrete_Type& type,
+                                                                 bool is_left)
+    {
+        using enum bms::Expression_Type;
+        const bool is_int = get_const_value(*inner)->get_type() == bms::Concrete_Type::Int;
+        const bool is_shifted = is_left && (outer_type == shift_left || outer_type == shift_right);
+        if (type.is_uint() && is_int && (is_shifted || is_bit_precise(type))) {
+            return generate_converted_subexpression(inner, type);
+        }
+        // The product of two 16-bit integers does not always fit into int.
+        if (is_left && outer_type == multiplication && is_promoted(type) && type.width() > 8) {
+            return generate_converted_subexpression(inner, bms::Concrete_Type::Uint(32));
+        }
+        return generate_subexpression(outer_type, inner);
+    }
+
     [[nodiscard]] bool needs_parentheses(bms::Expression_Type outer_type,
                                          const Some_Node& inner) const final
     {
@@ -630,11 +687,14 @@ struct C_Cpp_Code_Generator::Visitor {
             return r;
         }
         self.write_infix_operator("?");
-        if (auto r = self.generate_subexpression(outer_type, expression.get_left_node()); !r) {
+        const bms::Concrete_Type type = expression.const_value()->get_type();
+        if (auto r = self.generate_operand(outer_type, expression.get_left_node(), type, true);
+            !r) {
             return r;
         }
         self.write_infix_operator(":");
-        if (auto r = self.generate_subexpression(outer_type, expression.get_right_node()); !r) {
+        if (auto r = self.generate_operand(outer_type, expression.get_right_node(), type, false);
+            !r) {
             return r;
         }
 
@@ -644,17 +704,33 @@ struct C_Cpp_Code_Generator::Visitor {
 
     [[nodiscard]] Result<void, Generator_Error> operator()(const Binary_Expression& expression)
     {
+        using enum bms::Expression_Type;
         const auto outer_type = expression.get_expression_type();
+        const bms::Concrete_Type type = expression.const_value()->get_type();
+        const bool exceeds_operands = outer_type == binary_plus || outer_type == binary_minus
+            || outer_type == multiplication || outer_type == shift_left;
+        const bool truncate = exceeds_operands && self.is_promoted(type);
         Scoped_Attempt attempt = self.start_attempt();
 
-        if (auto r = self.generate_subexpression(outer_type, expression.get_left_node()); !r) {
-            return r;
+        if (truncate) {
+            if (auto r = self.generate_cast(node, type); !r) {
+                return r;
+            }
         }
+        {
+            Scoped_Parenthesization p = self.parenthesize_if(truncate);
+            if (auto r = self.generate_operand(outer_type, expression.get_left_node(), type, true);
+                !r) {
+                return r;
+            }
 
-        self.write_infix_operator(token_type_code_name(expression.get_op()));
+            self.write_infix_operator(token_type_code_name(expression.get_op()));
 
-        if (auto r = self.generate_subexpression(outer_type, expression.get_right_node()); !r) {
-            return r;
+            if (auto r
+                = self.generate_operand(outer_type, expression.get_right_node(), type, false);
+                !r) {
+                return r;
+            }
         }
 
         attempt.commit();
@@ -663,9 +739,23 @@ struct C_Cpp_Code_Generator::Visitor {
 
     [[nodiscard]] Result<void, Generator_Error> operator()(const Prefix_Expression& expression)
     {
+        using enum bms::Expression_Type;
         const auto outer_type = expression.get_expression_type();
+        const bms::Concrete_Type type = expression.const_value()->get_type();
+        Scoped_Attempt attempt = self.start_attempt();
+
+        if ((outer_type == unary_minus || outer_type == bitwise_not) && self.is_promoted(type)) {
+            if (auto r = self.generate_cast(node, type); !r) {
+                return r;
+            }
+        }
         self.m_out.append(token_type_code_name(expression.get_op()), Code_Span_Type::operation);
-        return self.generate_subexpression(outer_type, expression.get_expression_node());
+        if (auto r = self.generate_subexpression(outer_type, expression.get_expression_node()); !r) {
+            return r;
+        }
+
+        attempt.commit();
+        return {};
     }
 
     Result<void, Generator_Error> operator()(const Function_Call_Expression& call)
-- 
2.43.0


From ce232fd31a8f424ba119b42222ec98a268891777 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 109/119] fix: omit constants of type Void in generated C23
 code

---
 src/bmd/codegen/codegen_c_cpp.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 50cf78d..31ba79b 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -1,7 +1,9 @@
+#include <algorithm>
 #include <cstdint>
 #include <limits>
 #include <optional>
 #include <string>
+#include <vector>
 
 #include "common/assert.hpp"
 #include "common/result.hpp"
@@ -473,7 +475,8 @@ struct C_Cpp_Code_Generator::Visitor {
 
     [[nodiscard]] Result<void, Generator_Error> operator()(const Const& constant)
     {
-        if (!self.m_options.c_23) {
+        if (!self.m_options.c_23
+            || constant.const_value()->get_type() == bms::Concrete_Type::Void) {
             return Generator_Error { Generator_Error_Code::empty, node };
         }
         Scoped_Attempt attempt = self.start_attempt();
@@ -793,7 +796,8 @@ struct C_Cpp_Code_Generator::Visitor {
             if (const auto* constant = get_if<Const>(*looked_up_node)) {
                 // Only C23 supports constexpr; there are no "true constants" prior to that.
                 // Therefore, we are forced to inline these whenever used.
-                if (!self.m_options.c_23) {
+                if (!self.m_options.c_23
+                    || constant->const_value()->get_type() == bms::Concrete_Type::Void) {
                     return self.generate_value(node, constant->const_value()->concrete_value());
                 }
             }
-- 
2.43.0


From 0f60b9b3fb42a9311e2ab3e57bdf45d61103d176 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 110/119] fix: declare functions before they are called in
 generated C code

---
 src/bmd/codegen/codegen_c_cpp.cpp | 64 ++++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 5 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 31ba79b..5c19a93 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -254,6 +254,8 @@ using namespace bms::ast;
 struct C_Cpp_Code_Generator final : Code_Generator_Base {
 private:
     const C_Cpp_Dialect m_dialect;
+    /// @brief The functions which can be called.
+    std::vector<const Function*> m_functions;
 
 public:
     C_Cpp_Code_Generator(Code_String& out,
@@ -430,6 +432,63 @@ struct C_Cpp_Code_Generator::Visitor {
         }
         Scoped_Attempt attempt = self.start_attempt();
 
+        self.m_functions.push_back(&function);
+        if (auto r = declare_callees(*function.get_body_node()); !r) {
+            return r;
+        }
+        if (auto r = generate_header(function); !r) {
+            return r;
+        }
+
+        self.separate_after_function();
+        if (auto r = Visitor { self, function.get_body_node() }(function.get_body()); !r) {
+            return r;
+        }
+
+        attempt.commit();
+        return {};
+    }
+
+    /// @brief Declares the functions which are called within `parent`, but only defined later.
+    [[nodiscard]] Result<void, Generator_Error> declare_callees(const Some_Node& parent)
+    {
+        if (holds_alternative<Const>(parent) || holds_alternative<Static_Assert>(parent)
+            || holds_alternative<Type>(parent)) {
+            return {};
+        }
+        for (const Some_Node* child : get_children(parent)) {
+            if (child != nullptr) {
+                if (auto r = declare_callees(*child); !r) {
+                    return r;
+                }
+            }
+        }
+        const auto* call = get_if<Function_Call_Expression>(&parent);
+        const auto* callee_node = call ? get_if<Some_Node*>(&call->lookup_result) : nullptr;
+        const auto* callee = callee_node ? get_if<Function>(*callee_node) : nullptr;
+        if (callee == nullptr
+            || std::ranges::find(self.m_functions, callee) != self.m_functions.end()) {
+            return {};
+        }
+        const auto declarations = get_children(*self.m_program.get_root());
+        if (std::ranges::find(declarations, *callee_node) == declarations.end()) {
+            // Instances of generic functions are not generated.
+            return Generator_Error { Generator_Error_Code::error, &parent };
+        }
+        if (auto r = generate_header(*callee); !r) {
+            return r;
+        }
+        self.write_semicolon();
+        self.end_line();
+        self.end_line();
+        self.m_functions.push_back(callee);
+        return {};
+    }
+
+    [[nodiscard]] Result<void, Generator_Error> generate_header(const Function& function)
+    {
+        Scoped_Attempt attempt = self.start_attempt();
+
         self.write_indent();
         if (auto r = Visitor { self, function.get_return_type_node() }(function.get_return_type());
             !r) {
@@ -459,11 +518,6 @@ struct C_Cpp_Code_Generator::Visitor {
             }
         }
 
-        self.separate_after_function();
-        if (auto r = Visitor { self, function.get_body_node() }(function.get_body()); !r) {
-            return r;
-        }
-
         attempt.commit();
         return {};
     }
-- 
2.43.0


From 469a3f6e9a4405bd5512fab817c2fd2babde3028 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 111/119] fix: highlight widths of bit-precise integers in
 generated C code

---
 src/bmd/codegen/codegen_c_cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 5c19a93..7596e75 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -193,7 +193,7 @@ void append_type(Code_String& out, C_Cpp_Type type, C_Cpp_Dialect dialect)
         out.append("_BitInt", Code_Span_Type::keyword);
         out.append('(', Code_Span_Type::bracket);
         // TODO: using allocations here is really dirty; better avoid
-        out.append(std::to_string(type.width));
+        out.append(std::to_string(type.width), Code_Span_Type::number);
         out.append(')', Code_Span_Type::bracket);
         return;
     }
-- 
2.43.0


From 08de892f29f68b4f155e022f5d68d31138460640 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 02:09:12 +0000
Subject: [PATCH 112/119] fix: directives followed by carriage returns fail an
 assertion

---
 src/bmd/html/html_writer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 66d21f1..bafea8f 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -271,8 +271,8 @@ auto HTML_Writer::write_source_gap(const Local_Source_Span& first,
                                    Formatting_Style style) -> Self&
 {
     BIT_MANIPULATION_ASSERT(m_state != State::attributes && m_state != State::initial);
-    BIT_MANIPULATION_ASSERT(first.line < second.line
-                            || (first.line == second.line && first.column <= second.column));
+    // Carriage returns reset the column, so columns don't tell what comes first.
+    BIT_MANIPULATION_ASSERT(first.begin <= second.begin);
 
     if (style == Formatting_Style::pre) {
         if (first.line != second.line) {
@@ -282,6 +282,7 @@ auto HTML_Writer::write_source_gap(const Local_Source_Span& first,
             }
         }
         else if (first.column != second.column) {
+            BIT_MANIPULATION_ASSERT(first.end_column() <= second.column);
             m_out.write(' ', second.column - first.end_column(), HTML_Token_Type::whitespace);
         }
     }
-- 
2.43.0


From 0cdb27023db7e068c24a5178e938e2b0845ea828 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 03:13:01 +0000
Subject: [PATCH 113/119] fix: endless loops in constant evaluation make
 analysis hang

---
 src/bms/analyze.cpp        | 13 ++++++++++++-
 src/common/diagnostics.cpp |  5 +++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index ee49649..fa348f9 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -20,6 +20,10 @@ namespace {
 
 constexpr bool debug_dump_generated_programs = false;
 
+// Functions may loop or recurse endlessly, so the number of instructions that are executed by one
+// constant evaluation has to be limited.
+constexpr Size max_constant_evaluation_cycles = Size(1) << 22;
+
 [[nodiscard]] Concrete_Value concrete_value_of(const ast::Some_Node& node)
 {
     return get_const_value(node).value().concrete_value();
@@ -995,7 +999,14 @@ private:
 
         if (context == Expression_Context::constant) {
             Result<void, Execution_Error> cycle_result;
-            while ((cycle_result = constant_evaluation_machine.cycle())) { }
+            Size cycle_count = 0;
+            while ((cycle_result = constant_evaluation_machine.cycle())) {
+                if (++cycle_count == max_constant_evaluation_cycles) {
+                    cycle_result = Execution_Error { Execution_Error_Code::infinite_loop,
+                                                     function->get_debug_info() };
+                    break;
+                }
+            }
             // Normally, the VM will push and pop function return addresses as frames
             // as part of execution function calls and returns.
             // However, we artificially jump directly to the start of the function without doing so,
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 9ba60c3..f055db0 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -83,11 +83,12 @@ struct Printable_Error {
 // For example, an evaluation error can fail as a type error, but that can only happen
 // if prior analysis didn't spot the type error in the first place.
 // Similarly, VM execution errors are also "clean errors", but only end up here as the result
-// of faulty codegen, except that any program may read uninitialized variables.
+// of faulty codegen, except that any program may read uninitialized variables or never terminate.
 [[nodiscard]] bool is_internal(const bms::Analysis_Error& error)
 {
     return (error.code() == bms::Analysis_Error_Code::execution_error
-            && error.execution_error() != bms::Execution_Error_Code::load_uninitialized)
+            && error.execution_error() != bms::Execution_Error_Code::load_uninitialized
+            && error.execution_error() != bms::Execution_Error_Code::infinite_loop)
         || (error.code() == bms::Analysis_Error_Code::evaluation_error
             && error.evaluation_error() == bms::Evaluation_Error_Code::type_error);
 }
-- 
2.43.0


From 5fe6093917817e59de32b81fdb9d21e49c8f76a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:18 +0000
Subject: [PATCH 114/119] fix: paragraphs of documents lose memory

---
 src/bmd/parsing/parse.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index cf02832..97543b3 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -324,8 +324,9 @@ private:
             }
             const Local_Source_Span first = get_source_span(*paragraph_elements.front());
             const Local_Source_Span last = get_source_span(*paragraph_elements.back());
-            elements.push_back(alloc_node<ast::List>({ first, last.end() - first.begin },
-                                                     std::vector(paragraph_elements)));
+            elements.push_back(
+                alloc_node<ast::List>({ first, last.end() - first.begin },
+                                      std::pmr::vector<ast::Some_Node*>(paragraph_elements, m_memory)));
             paragraph_elements.clear();
         };
 
-- 
2.43.0


From 89b852a12e18eadafb45c6993c6feca0e5665c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:36 +0000
Subject: [PATCH 115/119] fix: note about deduction from a non-Uint says that
 the width is not a Uint

---
 src/common/diagnostics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index f055db0..1afef75 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -377,7 +377,7 @@ std::string_view cause_to_prose(bms::Analysis_Error_Code e)
     case codegen_call_to_unanalyzed: //
         return "The following function was called:";
     case width_deduction_from_non_uint: //
-        return "The following expression is not of type 'Uint':";
+        return "The width would have to be deduced for the following parameter width:";
     case static_assert_expression_not_bool: //
         return "The following expression must be of type 'Bool':";
     case static_assertion_failed: //
-- 
2.43.0


From 7921b31e413cea4b472392778dc0105a19ef1558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:37 +0000
Subject: [PATCH 116/119] fix: programs moved by assignment are returned to
 memory they were not taken from

---
 src/bms/ast.cpp           | 1 +
 src/bms/parsing/parse.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bms/ast.cpp b/src/bms/ast.cpp
index 27f3c3f..af08ba8 100644
--- a/src/bms/ast.cpp
+++ b/src/bms/ast.cpp
@@ -540,6 +540,7 @@ Analyzed_Program& Analyzed_Program::operator=(Analyzed_Program&& other) noexcept
     if (old) {
         allocator().delete_object(old);
     }
+    m_memory = other.m_memory;
     return *this;
 }
 
diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 3cb7cf6..bfef8eb 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -47,6 +47,7 @@ Parsed_Program& Parsed_Program::operator=(Parsed_Program&& other) noexcept
     if (old) {
         allocator().delete_object(old);
     }
+    m_memory = other.m_memory;
     return *this;
 }
 
-- 
2.43.0


From a0e15deb56eada95db4df7da0ac04a0703103e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:37 +0000
Subject: [PATCH 117/119] fix: instantiate_all fails in programs with functions
 that are not bit-generic

---
 src/bms/instantiate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index 9b74967..88b37ed 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -40,7 +40,7 @@ public:
     Result<void, Analysis_Error> instantiate_all(const Widths& w)
     {
         for (ast::Some_Node* decl : get_children(*m_program.get_root())) {
-            if (auto* f = get_if<ast::Function>(decl)) {
+            if (auto* f = get_if<ast::Function>(decl); f && f->is_generic) {
                 auto r = instantiate_function(decl, *f, w);
                 if (!r) {
                     return r.error();
-- 
2.43.0


From 3fd73af9841ae9368345b7ef6feec88820bcc4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:37 +0000
Subject: [PATCH 118/119] fix: conversion is accepted as a binary operator

---
 src/bms/evaluation/operations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 5520146..a401cd8 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -202,7 +202,7 @@ unsafe_evaluate_builtin_function_impl(Builtin_Function f, const R& args)
 [[nodiscard]] Result<Concrete_Type, Analysis_Error_Code>
 check_binary_operator(Concrete_Type lhs, Expression_Type op, Concrete_Type rhs)
 {
-    if (!is_binary(op)) {
+    if (!is_binary(op) || op == Expression_Type::conversion) {
         return Analysis_Error_Code::invalid_operator;
     }
     if (lhs.type() == Type_Type::Void || rhs.type() == Type_Type::Void) {
-- 
2.43.0


From a33b607cbcd77874ba2f748a9d44dcc9bc8048ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:37 +0000
Subject: [PATCH 119/119] fix: names of comment and string literal tokens

---
 src/bms/util.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index 86a0130..3c73908 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -85,11 +85,11 @@ namespace bit_manipulation::bms {
     case octal_literal: return "octal literal";
     case hexadecimal_literal: return "hexadecimal literal";
     case binary_literal: return "binary literal";
-    case string_literal: return "string_literal";
+    case string_literal: return "string literal";
     case left_brace: return "'{'";
     case right_brace: return "'}'";
-    case block_comment: return "'/*'";
-    case line_comment: return "'//'";
+    case block_comment: return "block comment";
+    case line_comment: return "line comment";
     case assign: return "'='";
     case equals: return "'=='";
     case not_equals: return "'!='";
@@ -149,8 +149,6 @@ namespace bit_manipulation::bms {
     case right_parenthesis: return ")";
     case left_brace: return "{";
     case right_brace: return "}";
-    case block_comment: return "/*";
-    case line_comment: return "//";
     case assign: return "=";
     case equals: return "==";
     case not_equals: return "!=";
-- 
2.43.0

