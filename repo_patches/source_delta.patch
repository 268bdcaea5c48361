From 4c909f3361edfad3772484aae3fe7bcd6df0de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 01/10] fix: json_encode: do not escape bytes above 0x7f as
 negative numbers

---
 src/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 57eb5a1..eab3723 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -54,10 +54,10 @@ std::string url_encode(const std::string &str) {
  */
 std::string json_encode(const std::string &str) {
     auto ret = std::string{};
-    std::for_each(str.begin(), str.end(), [&ret](char c) {
+    std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
         ret += (c == '"' || c == '\\' || c <= '\x1f')
-            ? fmt::format("\\u{:04X}", static_cast<int>(c))
-            : std::string{ c };
+            ? fmt::format("\\u{:04X}", static_cast<unsigned int>(c))
+            : std::string{ static_cast<char>(c) };
     });
     return ret;
 }
-- 
2.43.0


From 521303af964b492962a1126d98d7b26e2730dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 02/10] fix: parse version components as 64-bit integers

Version components are int64, but were parsed with std::stoi, so a component above
2^31-1 was rejected and a version did not survive being printed and parsed again.
---
 src/version.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/version.cpp b/src/version.cpp
index 72c09eb..3c14d2b 100644
--- a/src/version.cpp
+++ b/src/version.cpp
@@ -21,10 +21,10 @@ Version::Version(const std::string& version) {
     size_t next = 0;
     size_t last = 0;
     while ((next = version.find('.', last)) != std::string::npos) {
-        push_back(std::stoi(version.substr(last, next - last)));
+        push_back(std::stoll(version.substr(last, next - last)));
         last = next + 1;
     }
-    push_back(std::stoi(version.substr(last)));
+    push_back(std::stoll(version.substr(last)));
     for (auto component : *this) {
         if (component < 0) {
             throw std::invalid_argument("version component below zero");
-- 
2.43.0


From 242a2b641553f57a05f6d4b30fb8d02c40954863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:23 +0000
Subject: [PATCH 03/10] fix: report constant integer division and modulo by
 zero as analysis errors

A program such as 'Rx(1 / 0) q' made the analyzer stop with SIGFPE, as did
dividing the smallest integer by -1.
---
 .../v3x/register_consteval_core_functions.hpp   | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/libqasm/v3x/register_consteval_core_functions.hpp b/include/libqasm/v3x/register_consteval_core_functions.hpp
index 9845d22..6e3fbc9 100644
--- a/include/libqasm/v3x/register_consteval_core_functions.hpp
+++ b/include/libqasm/v3x/register_consteval_core_functions.hpp
@@ -4,6 +4,7 @@
 #include <functional>
 #include <numeric>
 
+#include "libqasm/error.hpp"
 #include "libqasm/v3x/analyzer.hpp"
 #include "libqasm/v3x/primitives.hpp"
 
@@ -83,8 +84,20 @@ constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, std::minus{
 constexpr auto op_mul_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::multiplies{}>{};
 constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, std::multiplies{}>{};
 constexpr auto op_div_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::divides{}>{};
-constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, std::divides{}>{};
-constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, std::modulus{}>{};
+inline constexpr auto div = [](primitives::Int a, primitives::Int b) {
+    if (b == 0) {
+        throw error::AnalysisError{ "division by zero" };
+    }
+    return b == -1 ? std::negate{}(a) : a / b;
+};
+constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, div>{};
+inline constexpr auto mod = [](primitives::Int a, primitives::Int b) {
+    if (b == 0) {
+        throw error::AnalysisError{ "modulo by zero" };
+    }
+    return b == -1 ? primitives::Int{ 0 } : a % b;
+};
+constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, mod>{};
 
 inline constexpr auto pow = [](auto base, auto exp) { return std::pow(base, exp); };
 constexpr auto op_pow_ff = bf_cp<values::ConstFloat, values::ConstFloat, pow>{};
-- 
2.43.0


From 8273c2c043e9f955443692c12ee1c64da193c482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:23 +0000
Subject: [PATCH 04/10] fix: report constant shifts by an out-of-range count as
 analysis errors

Shifting by a negative count, or by 64 or more, is undefined and gave, e.g., 1 for 1 << 64.
---
 .../v3x/register_consteval_core_functions.hpp   | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/libqasm/v3x/register_consteval_core_functions.hpp b/include/libqasm/v3x/register_consteval_core_functions.hpp
index 6e3fbc9..3bf7ca5 100644
--- a/include/libqasm/v3x/register_consteval_core_functions.hpp
+++ b/include/libqasm/v3x/register_consteval_core_functions.hpp
@@ -2,7 +2,9 @@
 
 #include <cmath>
 #include <functional>
+#include <limits>
 #include <numeric>
+#include <type_traits>  // make_unsigned_t
 
 #include "libqasm/error.hpp"
 #include "libqasm/v3x/analyzer.hpp"
@@ -128,9 +130,20 @@ constexpr auto op_band_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_a
 constexpr auto op_bxor_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_xor{}>{};
 constexpr auto op_bor_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_or{}>{};
 
-inline constexpr auto shl = [](primitives::Int a, primitives::Int b) { return a << b; };
+inline void check_shift_count(primitives::Int count) {
+    if (count < 0 || count >= std::numeric_limits<std::make_unsigned_t<primitives::Int>>::digits) {
+        throw error::AnalysisError{ "shift count out of range" };
+    }
+}
+inline constexpr auto shl = [](primitives::Int a, primitives::Int b) {
+    check_shift_count(b);
+    return a << b;
+};
 constexpr auto op_shl_ii = bf_cp<values::ConstInt, values::ConstInt, shl>{};
-inline constexpr auto shr = [](primitives::Int a, primitives::Int b) { return a >> b; };
+inline constexpr auto shr = [](primitives::Int a, primitives::Int b) {
+    check_shift_count(b);
+    return a >> b;
+};
 constexpr auto op_shr_ii = bf_cp<values::ConstInt, values::ConstInt, shr>{};
 
 constexpr auto op_linv_b = uf_cp<values::ConstBool, values::ConstBool, std::logical_not{}>{};
-- 
2.43.0


From cbda1d088813b6be763852a6c568df5c14058f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:23 +0000
Subject: [PATCH 05/10] fix: wrap constant integer arithmetic around instead of
 overflowing

Signed overflow in +, -, *, unary - and abs on constants is undefined behaviour.
---
 .../v3x/register_consteval_core_functions.hpp | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/libqasm/v3x/register_consteval_core_functions.hpp b/include/libqasm/v3x/register_consteval_core_functions.hpp
index 3bf7ca5..70c35f1 100644
--- a/include/libqasm/v3x/register_consteval_core_functions.hpp
+++ b/include/libqasm/v3x/register_consteval_core_functions.hpp
@@ -75,22 +75,37 @@ struct tf_cp : public f_cp<ParamValue, ParamValue, F> {
     }
 };
 
+/**
+ * Integer arithmetic is done modulo 2^64, since overflowing a signed integer is undefined
+ */
+using UInt = std::make_unsigned_t<primitives::Int>;
+inline constexpr auto neg = [](primitives::Int a) { return static_cast<primitives::Int>(UInt{ 0 } - static_cast<UInt>(a)); };
+inline constexpr auto add = [](primitives::Int a, primitives::Int b) {
+    return static_cast<primitives::Int>(static_cast<UInt>(a) + static_cast<UInt>(b));
+};
+inline constexpr auto sub = [](primitives::Int a, primitives::Int b) {
+    return static_cast<primitives::Int>(static_cast<UInt>(a) - static_cast<UInt>(b));
+};
+inline constexpr auto mul = [](primitives::Int a, primitives::Int b) {
+    return static_cast<primitives::Int>(static_cast<UInt>(a) * static_cast<UInt>(b));
+};
+
 constexpr auto op_neg_f = uf_cp<values::ConstFloat, values::ConstFloat, std::negate<double>{}>{};
-constexpr auto op_neg_i = uf_cp<values::ConstInt, values::ConstInt, std::negate{}>{};
+constexpr auto op_neg_i = uf_cp<values::ConstInt, values::ConstInt, neg>{};
 
 constexpr auto op_add_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::plus{}>{};
-constexpr auto op_add_ii = bf_cp<values::ConstInt, values::ConstInt, std::plus{}>{};
+constexpr auto op_add_ii = bf_cp<values::ConstInt, values::ConstInt, add>{};
 constexpr auto op_sub_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::minus{}>{};
-constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, std::minus{}>{};
+constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, sub>{};
 
 constexpr auto op_mul_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::multiplies{}>{};
-constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, std::multiplies{}>{};
+constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, mul>{};
 constexpr auto op_div_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::divides{}>{};
 inline constexpr auto div = [](primitives::Int a, primitives::Int b) {
     if (b == 0) {
         throw error::AnalysisError{ "division by zero" };
     }
-    return b == -1 ? std::negate{}(a) : a / b;
+    return b == -1 ? neg(a) : a / b;
 };
 constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, div>{};
 inline constexpr auto mod = [](primitives::Int a, primitives::Int b) {
@@ -131,7 +146,7 @@ constexpr auto op_bxor_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_x
 constexpr auto op_bor_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_or{}>{};
 
 inline void check_shift_count(primitives::Int count) {
-    if (count < 0 || count >= std::numeric_limits<std::make_unsigned_t<primitives::Int>>::digits) {
+    if (count < 0 || count >= std::numeric_limits<UInt>::digits) {
         throw error::AnalysisError{ "shift count out of range" };
     }
 }
@@ -189,7 +204,8 @@ inline constexpr auto atanh = [](auto num) { return std::atanh(num); };
 constexpr auto fn_atanh_f = uf_cp<values::ConstFloat, values::ConstFloat, atanh>{};
 inline constexpr auto abs = [](auto num) { return std::abs(num); };
 constexpr auto fn_abs_f = uf_cp<values::ConstFloat, values::ConstFloat, abs>{};
-constexpr auto fn_abs_i = uf_cp<values::ConstInt, values::ConstInt, abs>{};
+inline constexpr auto abs_i = [](primitives::Int num) { return num < 0 ? neg(num) : num; };
+constexpr auto fn_abs_i = uf_cp<values::ConstInt, values::ConstInt, abs_i>{};
 
 /**
  * Registers a bunch of consteval core functions.
-- 
2.43.0


From 053332e583ccab385156a0f8d4ebd3841ad49232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:09 +0000
Subject: [PATCH 06/10] fix: report indexing something that is not a variable
 as an analysis error

'X pi[0]' dereferenced a null pointer.
---
 src/v3x/semantic_analyzer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index 5645992..72baa18 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -578,6 +578,10 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
     try {
         auto expression = std::any_cast<values::Value>(visit_expression(*node.expr));
         auto variable_ref_ptr = expression->as_variable_ref();
+        if (variable_ref_ptr == nullptr) {
+            throw error::AnalysisError{ fmt::format(
+                "indexation is not supported for value of type '{}'", values::type_of(expression)) };
+        }
         const auto variable_link = variable_ref_ptr->variable;
         const auto variable_type = variable_link->typ;
         if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
-- 
2.43.0


From dc2424e3a82542e7873f49e94aa6da6afd56ac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:09 +0000
Subject: [PATCH 07/10] fix: do not list a variable whose declaration is
 rejected

A redeclared variable was reported as an error, but still added to the variables of the scope.
---
 src/v3x/semantic_analyzer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index 72baa18..d0f7516 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -108,11 +108,11 @@ std::any SemanticAnalyzer::visit_variable(syntactic::Variable& node) {
         ret->annotations = std::any_cast<tree::Any<semantic::AnnotationData>>(visit_annotated(*node.as_annotated()));
         ret->copy_annotation<parser::SourceLocation>(*identifier);
 
-        // Add the variable to the current scope
-        analyzer_.add_variable_to_current_scope(ret);
-
         // Register the variable
         analyzer_.register_variable(identifier->name, tree::make<values::VariableRef>(ret));
+
+        // Add the variable to the current scope
+        analyzer_.add_variable_to_current_scope(ret);
     } catch (error::AnalysisError& err) {
         err.context(node);
         result_.errors.push_back(std::move(err));
-- 
2.43.0


From 15652db6494418acc16f5c9c63b9acd3c8b8d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:13 +0000
Subject: [PATCH 08/10] fix: report an out of range index range before
 expanding it

Analyzing q[0:9223372036854775807] expanded the range before checking it
against the size of the array: it ran out of memory, and overflowed when
the range ends at the largest integer.
---
 include/libqasm/v3x/semantic_analyzer.hpp |  6 ++++++
 src/v3x/semantic_analyzer.cpp             | 18 +++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/libqasm/v3x/semantic_analyzer.hpp b/include/libqasm/v3x/semantic_analyzer.hpp
index 0260b4c..bdc1215 100644
--- a/include/libqasm/v3x/semantic_analyzer.hpp
+++ b/include/libqasm/v3x/semantic_analyzer.hpp
@@ -150,6 +150,12 @@ private:
      * Shorthand for parsing an expression to a constant integer
      */
     primitives::Int visit_const_int(syntactic::Expression& expression);
+
+    /**
+     * Check out of range accesses from the ends of any index range in an input list to an array of a given size,
+     * before the index ranges are expanded
+     */
+    void check_index_ranges(syntactic::IndexList& index_list_ast, primitives::Int size);
 };
 
 }  // namespace cqasm::v3x::analyzer
diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index d0f7516..2f31971 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -1,6 +1,6 @@
 #include "libqasm/v3x/semantic_analyzer.hpp"
 
-#include <algorithm>  // any_of, for_each, transform
+#include <algorithm>  // any_of, for_each, min, transform
 #include <any>
 #include <iterator>  // back_inserter
 
@@ -574,6 +574,21 @@ void check_out_of_range(const IndexListT& indices, primitives::Int size) {
     }
 }
 
+void SemanticAnalyzer::check_index_ranges(syntactic::IndexList& index_list_ast, primitives::Int size) {
+    for (const auto& index_entry : index_list_ast.items) {
+        if (auto index_range = index_entry->as_index_range()) {
+            const auto first = visit_const_int(*index_range->first);
+            const auto last = visit_const_int(*index_range->last);
+            if (first <= last) {
+                IndexListT ends{};
+                ends.add(tree::make<IndexT>(first));
+                ends.add(tree::make<IndexT>(std::min(last, size)));
+                check_out_of_range(ends, size);
+            }
+        }
+    }
+}
+
 std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
     try {
         auto expression = std::any_cast<values::Value>(visit_expression(*node.expr));
@@ -585,6 +600,7 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
         const auto variable_link = variable_ref_ptr->variable;
         const auto variable_type = variable_link->typ;
         if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
+            check_index_ranges(*node.indices, types::size_of(variable_type));
             auto indices = std::any_cast<IndexListT>(visit_index_list(*node.indices));
             check_out_of_range(indices, types::size_of(variable_type));
             auto ret = tree::make<values::IndexRef>(variable_link, indices);
-- 
2.43.0


From d32b1f4329b72479dc32d0919a131ff3a3af0a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:40 +0000
Subject: [PATCH 09/10] fix: keep the analysis of one program out of the next
 one

---
 src/v3x/analyzer.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/v3x/analyzer.cpp b/src/v3x/analyzer.cpp
index 74a1371..bcd50c1 100644
--- a/src/v3x/analyzer.cpp
+++ b/src/v3x/analyzer.cpp
@@ -85,8 +85,24 @@ void Analyzer::register_default_instructions() {
  * Analyzes the given AST.
  */
 AnalysisResult Analyzer::analyze(syntactic::Program& ast) {
-    auto analyze_visitor_up = std::make_unique<SemanticAnalyzer>(*this);
-    auto result = std::any_cast<AnalysisResult>(analyze_visitor_up->visit_program(ast));
+    // The analysis adds names, variables and statements to the current scope.
+    // Let it work on a block of its own, and restore the scopes afterwards.
+    const auto scope_stack = scope_stack_;
+    auto block = tree::make<semantic::Block>();
+    block->statements = current_block()->statements;
+    if (auto block_sl = current_block()->get_annotation_ptr<parser::SourceLocation>()) {
+        block->set_annotation<parser::SourceLocation>(*block_sl);
+    }
+    current_scope().block = block;
+    AnalysisResult result;
+    try {
+        auto analyze_visitor_up = std::make_unique<SemanticAnalyzer>(*this);
+        result = std::any_cast<AnalysisResult>(analyze_visitor_up->visit_program(ast));
+    } catch (...) {
+        scope_stack_ = scope_stack;
+        throw;
+    }
+    scope_stack_ = scope_stack;
     if (result.errors.empty()) {
         try {
             result.root.check_well_formed();
-- 
2.43.0


From c0905e3ebd3bb6d7c5b55d3ea98828011c1bf7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:08 +0000
Subject: [PATCH 10/10] fix: read instruction references under the keys they
 are written with

The library serializes an instruction reference under the keys 'name' and
'operand_types'; the Python package looked for 'n' and 't', and made every
reference an unresolved one.
---
 python/module/cqasm/v3x/primitives.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/module/cqasm/v3x/primitives.py b/python/module/cqasm/v3x/primitives.py
index 8e38071..879d11f 100644
--- a/python/module/cqasm/v3x/primitives.py
+++ b/python/module/cqasm/v3x/primitives.py
@@ -35,8 +35,8 @@ def serialize(typ, val):
             return {}
         else:
             return {
-                'n': val.data.name,
-                't': [x.serialize() for x in val.data.types]
+                'name': val.data.name,
+                'operand_types': [x.serialize() for x in val.data.types]
             }
     else:
         assert False
@@ -61,10 +61,10 @@ def deserialize(typ, val):
     elif typ is Version:
         return Version(val['x'])
     elif typ is cqasm.v3x.instruction.InstructionRef:
-        if 'n' in val:
+        if 'name' in val:
             return cqasm.v3x.instruction.InstructionRef(
-                val['n'],
-                [cqasm.v3x.types.Node.deserialize(x) for x in val['t']]
+                val['name'],
+                [cqasm.v3x.types.Node.deserialize(x) for x in val['operand_types']]
             )
         else:
             return cqasm.v3x.instruction.InstructionRef()
-- 
2.43.0

