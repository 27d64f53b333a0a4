From b94ba9aa8b9f6e6a88861867aef3d1ee4da89ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:08 +0000
Subject: [PATCH 01/89] fix: SLA/SLL/SRA/SRL by 0 return the shifted value, SRA
 by 32 or more fills with the sign

---
 .../expressions/conditional_assembly/ca_operator_binary.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index 55b8056..08b8cc5 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -103,7 +103,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
 {
     auto shift_part = rhs & 0x3f; // first 6 bits
     if (shift_part == 0)
-        return rhs;
+        return lhs;
 
     std::uint32_t unsigned_lhs = lhs;
     auto sign_bit = unsigned_lhs & (1U << 31);
@@ -118,7 +118,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
                 result = sign_bit;
                 break;
             case ca_expr_ops::SRA:
-                result = ~0U;
+                result = sign_bit ? ~0U : 0U;
                 break;
             default:
                 result = 0;
-- 
2.43.0


From d6000198a77d53047a9d4c477fb785a42a82bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:08 +0000
Subject: [PATCH 02/89] fix: arithmetic relations do not overflow on distant
 operands

---
 .../expressions/conditional_assembly/ca_operator_binary.cpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index 08b8cc5..05add68 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -233,7 +233,8 @@ int ca_function_binary_operator::compare_relational(
     switch (type)
     {
         case context::SET_t_enum::A_TYPE:
-            return lhs.access_a() - rhs.access_a();
+            // the difference of the operands may not fit
+            return lhs.access_a() < rhs.access_a() ? -1 : lhs.access_a() > rhs.access_a();
         case context::SET_t_enum::C_TYPE:
             return compare_string(lhs.access_c(), rhs.access_c());
         default:
-- 
2.43.0


From d035783d1578d760dc41743e9377986a9dff8afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:08 +0000
Subject: [PATCH 03/89] fix: negating the lowest SETA value is an overflow, not
 undefined behaviour

---
 .../expressions/conditional_assembly/ca_operator_unary.cpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
index 92c7a09..885e698 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 
+#include "ca_operator_binary.h"
 #include "ebcdic_encoding.h"
 #include "expressions/evaluation_context.h"
 #include "terms/ca_function.h"
@@ -112,9 +113,9 @@ ca_minus_operator::ca_minus_operator(ca_expr_ptr expr, range expr_range)
     : ca_unary_operator(std::move(expr), context::SET_t_enum::A_TYPE, std::move(expr_range))
 {}
 
-context::SET_t ca_minus_operator::operation(context::SET_t operand, const evaluation_context&) const
+context::SET_t ca_minus_operator::operation(context::SET_t operand, const evaluation_context& eval_ctx) const
 {
-    return -operand.access_a();
+    return ca_sub::operation(0, operand, expr_range, eval_ctx);
 }
 
 ca_par_operator::ca_par_operator(ca_expr_ptr expr, range expr_range)
-- 
2.43.0


From ea31e5e3d30888a6f9931bde292d3b015c2fe47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:08 +0000
Subject: [PATCH 04/89] fix: substituting the lowest SETA value into a string

---
 parser_library/src/semantics/concatenation_term.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/semantics/concatenation_term.cpp b/parser_library/src/semantics/concatenation_term.cpp
index 719d454..d30c5a3 100644
--- a/parser_library/src/semantics/concatenation_term.cpp
+++ b/parser_library/src/semantics/concatenation_term.cpp
@@ -43,7 +43,7 @@ std::string var_sym_conc::evaluate(context::SET_t varsym_value)
     switch (varsym_value.type)
     {
         case context::SET_t_enum::A_TYPE:
-            return std::to_string(std::abs(varsym_value.access_a()));
+            return std::to_string(std::abs((std::int64_t)varsym_value.access_a()));
         case context::SET_t_enum::B_TYPE:
             return varsym_value.access_b() ? "1" : "0";
         case context::SET_t_enum::C_TYPE:
-- 
2.43.0


From c284045a6ebad052661321811dbdae703ab24d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:08 +0000
Subject: [PATCH 05/89] fix: substring start far below zero overflowed the
 computed length

---
 .../conditional_assembly/terms/ca_string.cpp           | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp
index 705d98b..5c02b8a 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp
@@ -14,6 +14,8 @@
 
 #include "ca_string.h"
 
+#include <cstdint>
+
 #include "expressions/conditional_assembly/ca_expr_visitor.h"
 #include "expressions/evaluation_context.h"
 
@@ -77,16 +79,16 @@ context::SET_t ca_string::evaluate(const evaluation_context& eval_ctx) const
 
     if (substring.start)
     {
-        auto start = substring.start->evaluate(eval_ctx).access_a();
-        auto count =
-            substring.count ? substring.count->evaluate(eval_ctx).access_a() : (context::A_t)str.size() - start + 1;
+        std::int64_t start = substring.start->evaluate(eval_ctx).access_a();
+        std::int64_t count = substring.count ? (std::int64_t)substring.count->evaluate(eval_ctx).access_a()
+                                             : (std::int64_t)str.size() - start + 1;
 
         if (start < 0 || count < 0 || (start == 0 && count > 0))
         {
             eval_ctx.add_diagnostic(diagnostic_op::error_CE008(substring.substring_range));
             return context::object_traits<context::C_t>::default_v();
         }
-        if (start > (context::A_t)str.size())
+        if (start > (std::int64_t)str.size())
         {
             eval_ctx.add_diagnostic(diagnostic_op::error_CE009(substring.start->expr_range));
             return context::object_traits<context::C_t>::default_v();
-- 
2.43.0


From 93cca1f968dd8869667572ce2f83bf44c6946b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:08 +0000
Subject: [PATCH 06/89] fix: X2C reports a non-hexadecimal second digit

---
 .../src/expressions/conditional_assembly/terms/ca_function.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
index 5502b8b..175908c 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
@@ -667,7 +667,7 @@ context::SET_t ca_function::X2C(const context::C_t& param, diagnostic_adder& add
     for (auto c = new_string.c_str(); c != new_string.c_str() + new_string.size(); c += 2)
     {
         unsigned char value = 0;
-        if (std::isxdigit(*c))
+        if (std::isxdigit((unsigned char)c[0]) && std::isxdigit((unsigned char)c[1]))
             std::from_chars(c, c + 2, value, 16);
         else
             RET_ERRPARM;
-- 
2.43.0


From 93e390c883c3c1dde1c3bb44a9b68500c7a5513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:08 +0000
Subject: [PATCH 07/89] fix: operator precedence after a tighter operator on
 the right side of a looser one

---
 .../terms/ca_expr_list.cpp                    | 42 ++++++++++---------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp
index 12227a9..234cb4d 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp
@@ -184,31 +184,35 @@ ca_expr_ptr ca_expr_list::retrieve_term(size_t& it, int priority)
         }
     }
 
-    // is only term
-    if (it + 1 == expr_list.size())
-        return std::move(expr_list[it++]);
+    auto term = std::move(curr_expr);
+    ++it;
 
-    // tries to get binary operator
-    auto op_it = ++it;
-    auto op_range = expr_list[op_it]->expr_range;
-    bool err = false;
+    // joins the term with all following operators that bind tighter than the calling operator
+    while (it != expr_list.size())
+    {
+        auto op_it = it;
+        auto op_range = expr_list[op_it]->expr_range;
+        bool err = false;
 
-    auto [op_prio, op_type] = retrieve_binary_operator<EXPR_POLICY>(op_it, err);
-    if (err)
-        return nullptr;
+        auto [op_prio, op_type] = retrieve_binary_operator<EXPR_POLICY>(op_it, err);
+        if (err)
+            return nullptr;
+
+        // if operator is of lower priority than the calling operator, finish
+        if (op_prio >= priority)
+            break;
 
-    // if operator is of lower priority than the calling operator, finish
-    if (op_prio >= priority)
-        return std::move(curr_expr);
-    else
         it = op_it;
 
-    auto right_expr = retrieve_term<EXPR_POLICY>(++it, op_prio);
-    if (!right_expr)
-        return nullptr;
+        auto right_expr = retrieve_term<EXPR_POLICY>(++it, op_prio);
+        if (!right_expr)
+            return nullptr;
+
+        term = std::make_unique<ca_function_binary_operator>(
+            std::move(term), std::move(right_expr), op_type, EXPR_POLICY::set_type, op_range);
+    }
 
-    return std::make_unique<ca_function_binary_operator>(
-        std::move(curr_expr), std::move(right_expr), op_type, EXPR_POLICY::set_type, op_range);
+    return term;
 }
 
 template<typename EXPR_POLICY>
-- 
2.43.0


From dc2c0598c70747933a38111d4f09f0625ec42bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:38 +0000
Subject: [PATCH 08/89] fix: a sequence symbol on a macro call in open code can
 be branched to backwards

---
 .../src/processing/instruction_sets/macro_processor.cpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index 9825778..ee9bd21 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -29,6 +29,12 @@ macro_processor::macro_processor(
 
 void macro_processor::process(context::shared_stmt_ptr stmt)
 {
+    if (const auto& label = stmt->access_resolved()->label_ref(); label.type == semantics::label_si_type::SEQ)
+    {
+        const auto& symbol = std::get<semantics::seq_sym>(label.value);
+        branch_provider.register_sequence_symbol(symbol.name, symbol.symbol_range);
+    }
+
     auto args = get_args(*stmt->access_resolved());
 
     hlasm_ctx.enter_macro(
-- 
2.43.0


From 7cd5871ebf4cc4ab79e1a7853bd1737b0b2f7ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:38 +0000
Subject: [PATCH 09/89] fix: the quote of an attribute reference does not open
 a string in conditional assembly

---
 parser_library/src/parsing/grammar/ca_expr_rules.g4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/parsing/grammar/ca_expr_rules.g4 b/parser_library/src/parsing/grammar/ca_expr_rules.g4
index 50d81c0..05daa8f 100644
--- a/parser_library/src/parsing/grammar/ca_expr_rules.g4
+++ b/parser_library/src/parsing/grammar/ca_expr_rules.g4
@@ -312,7 +312,7 @@ substring returns [expressions::ca_string::substring_t value]
 	|;
 
 ca_string_b returns [ca_expr_ptr ca_expr]
-	: ca_dupl_factor (apostrophe|attr) string_ch_v_c (apostrophe|attr) substring
+	: ca_dupl_factor apostrophe string_ch_v_c (apostrophe|attr) substring
 	{
 		auto r = provider.get_range($ca_dupl_factor.ctx->getStart(), $substring.ctx->getStop());
 		$ca_expr = std::make_unique<expressions::ca_string>(std::move($string_ch_v_c.chain), std::move($ca_dupl_factor.value), std::move($substring.value), r);
-- 
2.43.0


From b5278fc9e04aac322d44cca22f417387371b77b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:36 +0000
Subject: [PATCH 10/89] fix: substitute variable symbols in an operand with an
 undefined keyword

---
 .../src/processing/instruction_sets/macro_processor.cpp    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index ee9bd21..4b91dfa 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -268,9 +268,10 @@ void macro_processor::get_keyword_arg(const resolved_statement& statement,
         // MACROCASE TODO
         auto name = chain[0]->access_str()->value;
 
-        args.push_back({ std::make_unique<context::macro_param_data_single>(
-                             name + "=" + semantics::concatenation_point::to_string(chain.begin() + 2, chain.end())),
-            nullptr });
+        args.push_back(
+            { std::make_unique<context::macro_param_data_single>(
+                  name + "=" + semantics::concatenation_point::evaluate(chain.begin() + 2, chain.end(), eval_ctx)),
+                nullptr });
     }
     else
     {
-- 
2.43.0


From 68e0241b5b82640700252e932a01922080e7eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:36 +0000
Subject: [PATCH 11/89] fix: keep the omitted last element of a sublist passed
 in a variable symbol

---
 .../src/processing/instruction_sets/macro_processor.cpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index 4b91dfa..e510476 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -129,6 +129,10 @@ context::macro_data_ptr macro_processor::string_to_macrodata(std::string data)
         }
         else if (data[begin] == ')')
         {
+            // the last element is omitted
+            if (data[begin - 1] == ',')
+                macro_data.top().push_back(std::make_unique<context::macro_param_data_dummy>());
+
             ++begin;
             nests.pop();
 
-- 
2.43.0


From 0e877e13deae6f8cc582e618566fbfcb91ae8aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:22 +0000
Subject: [PATCH 12/89] fix: ignore parentheses in strings when a sublist is
 split

---
 .../src/processing/instruction_sets/macro_processor.cpp   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index e510476..ea6e223 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -67,6 +67,14 @@ std::unique_ptr<context::macro_param_data_single> find_single_macro_param(const
                 if (start == data.size())
                     return nullptr;
 
+                if (data[start] == '\'' && !is_data_def(data[start - 1])) // parentheses in a string do not count
+                {
+                    start = data.find_first_of('\'', start + 1);
+                    if (start == std::string::npos)
+                        return nullptr;
+                    continue;
+                }
+
                 if (data[start] == '(')
                     ++nest;
                 if (data[start] == ')')
-- 
2.43.0


From af8823a68d6fb59d7030c519fcff69823e4901f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:29 +0000
Subject: [PATCH 13/89] fix: type attribute of a subscripted SETC symbol refers
 to that element

---
 parser_library/src/context/hlasm_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/context/hlasm_context.cpp b/parser_library/src/context/hlasm_context.cpp
index ebac7d8..c5be873 100644
--- a/parser_library/src/context/hlasm_context.cpp
+++ b/parser_library/src/context/hlasm_context.cpp
@@ -601,7 +601,7 @@ C_t hlasm_context::get_type_attr(var_sym_ptr var_symbol, const std::vector<size_
         if (offset.empty())
             value = setc_sym->get_value();
         else
-            value = setc_sym->get_value(offset.front());
+            value = setc_sym->get_value(offset.front() - 1);
     }
     else if (auto mac_par = var_symbol->access_macro_param_base())
     {
-- 
2.43.0


From a4aac403e25086a12dd4121901353173fa020dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:19 +0000
Subject: [PATCH 14/89] fix: label of a P or Z operand with a nominal value in
 parentheses does not throw

---
 .../checking/data_definition/data_def_types_fixed_point.cpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp b/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp
index de7bb54..ea4c94b 100644
--- a/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp
+++ b/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp
@@ -222,6 +222,8 @@ uint32_t hlasm_plugin::parser_library::checking::data_def_type_P::get_nominal_le
 {
     if (!op.present)
         return 1;
+    if (!std::holds_alternative<std::string>(op.value))
+        return 0;
 
     const std::string& s = std::get<std::string>(op.value);
 
@@ -264,6 +266,8 @@ uint32_t data_def_type_Z::get_nominal_length_attribute(const nominal_value_t& op
 {
     if (!op.present)
         return 1;
+    if (!std::holds_alternative<std::string>(op.value))
+        return 0;
 
     uint32_t first_value_len = 0;
     for (char c : std::get<std::string>(op.value))
-- 
2.43.0


From 1ae766fb018f0bc1061a18a7475ec180edee468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:19 +0000
Subject: [PATCH 15/89] fix: blanks in nominal values of X and B do not count
 in the length attribute

---
 .../src/checking/data_definition/data_def_types_string.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/checking/data_definition/data_def_types_string.cpp b/parser_library/src/checking/data_definition/data_def_types_string.cpp
index 315b45c..45f7d71 100644
--- a/parser_library/src/checking/data_definition/data_def_types_string.cpp
+++ b/parser_library/src/checking/data_definition/data_def_types_string.cpp
@@ -43,11 +43,8 @@ uint64_t get_X_B_length(const std::string& s, uint64_t frac)
 
 uint32_t get_X_B_length_attr(const std::string& s, uint64_t frac)
 {
-    size_t first_value_len = s.find(',');
-    if (first_value_len == std::string::npos)
-        first_value_len = s.size();
-    first_value_len = (first_value_len + frac - 1) / frac;
-    return (uint32_t)first_value_len;
+    // the length of the first value
+    return (uint32_t)get_X_B_length(s.substr(0, s.find(',')), frac);
 }
 
 // Checks comma separated values. is_valid_digit specifies whether the char is valid character of value.
-- 
2.43.0


From 929068441f9ec48cb76205fca39e29c8b3cee3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:19 +0000
Subject: [PATCH 16/89] fix: scale and integer attributes are defined without a
 scale modifier

---
 .../src/processing/instruction_sets/asm_processor.cpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 60714b0..28efe35 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -227,8 +227,8 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
             {
                 len = value.get_length_attribute();
             }
-            if (data_op->value->scale
-                && !data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
+            if (!data_op->value->scale
+                || !data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
             {
                 scale = value.get_scale_attribute();
             }
-- 
2.43.0


From 1b7dbc7ee730244c375a79ca3acb3ff1f47b2b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:32 +0000
Subject: [PATCH 17/89] fix: an omitted element after a sublist with a suffix
 is kept

---
 .../src/processing/instruction_sets/macro_processor.cpp     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index ea6e223..247c70d 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -157,11 +157,15 @@ context::macro_data_ptr macro_processor::string_to_macrodata(std::string data)
                 auto single = context::macro_param_data_composite(std::move(vec)).get_value() + tmp_single->get_value();
 
                 macro_data.top().emplace_back(std::make_unique<context::macro_param_data_single>(std::move(single)));
+
+                nests.top() = begin; // already behind the comma
             }
             else
+            {
                 macro_data.top().emplace_back(std::make_unique<context::macro_param_data_composite>(std::move(vec)));
 
-            nests.top() = begin + (begin != data.size() && data[begin] == ',' ? 1 : 0);
+                nests.top() = begin + (begin != data.size() && data[begin] == ',' ? 1 : 0);
+            }
 
             if (nests.size() == 1)
             {
-- 
2.43.0


From f6081b40e29f946ff3fa8a631dba6c139c707857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:45 +0000
Subject: [PATCH 18/89] fix: each operand of a data definition is aligned by
 its address, not by its offset in the statement

---
 .../instruction_sets/asm_processor.cpp        | 22 ++---
 .../data_def_postponed_statement.h            | 90 ++++++++++++++++---
 2 files changed, 88 insertions(+), 24 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 28efe35..29f6185 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -250,17 +250,20 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
     {
         auto adder = hlasm_ctx.ord_ctx.symbol_dependencies.add_dependencies(
             std::make_unique<data_def_postponed_statement<instr_type>>(std::move(stmt), hlasm_ctx.processing_stack()));
+        const auto& parts =
+            dynamic_cast<const data_def_postponed_statement<instr_type>*>(adder.source_stmt->impl())->parts;
         if (has_length_dependencies)
         {
-            auto sp = hlasm_ctx.ord_ctx.register_ordinary_space(al);
-            adder.add_dependency(
-                sp, dynamic_cast<const data_def_postponed_statement<instr_type>*>(&*adder.source_stmt));
+            for (const auto& part : parts)
+            {
+                (void)hlasm_ctx.ord_ctx.align(part.get_alignment());
+                adder.add_dependency(
+                    hlasm_ctx.ord_ctx.register_ordinary_space(part.get_final_alignment()), &part);
+            }
         }
         else
-            hlasm_ctx.ord_ctx.reserve_storage_area(
-                data_def_postponed_statement<instr_type>::get_operands_length(
-                    adder.source_stmt->impl()->operands_ref().value, hlasm_ctx.ord_ctx),
-                context::no_align);
+            for (const auto& part : parts)
+                hlasm_ctx.ord_ctx.reserve_storage_area(part.get_length(hlasm_ctx.ord_ctx), part.get_alignment());
 
         bool cycle_ok = true;
 
@@ -290,9 +293,8 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
     }
     else
     {
-        hlasm_ctx.ord_ctx.reserve_storage_area(
-            data_def_postponed_statement<instr_type>::get_operands_length(stmt.operands_ref().value, hlasm_ctx.ord_ctx),
-            context::no_align);
+        for (const auto& part : data_def_length<instr_type>::split(stmt.operands_ref().value))
+            hlasm_ctx.ord_ctx.reserve_storage_area(part.get_length(hlasm_ctx.ord_ctx), part.get_alignment());
         check(stmt, hlasm_ctx, checker_, *this);
     }
 }
diff --git a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
index 7bebc45..392bc76 100644
--- a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
+++ b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
@@ -22,19 +22,37 @@
 
 namespace hlasm_plugin::parser_library::processing {
 
+// length of consecutive operands of a data definition, of which only the first one may require an alignment
 template<checking::data_instr_type instr_type>
-struct data_def_postponed_statement : public postponed_statement_impl, public context::resolvable
+struct data_def_length : public context::resolvable
 {
-    data_def_postponed_statement(rebuilt_statement stmt, context::processing_stack_t stmt_location_stack)
-        : postponed_statement_impl(std::move(stmt), std::move(stmt_location_stack))
+    data_def_length(const semantics::operand_list& operands, size_t begin, size_t end)
+        : operands(operands)
+        , begin(begin)
+        , end(end)
     {}
 
+    // splits operands in front of each one that requires an alignment
+    static std::vector<data_def_length> split(const semantics::operand_list& operands)
+    {
+        std::vector<data_def_length> res;
+        for (size_t i = 0; i < operands.size(); ++i)
+        {
+            if (i == 0
+                || (operands[i]->type != semantics::operand_type::EMPTY
+                    && operands[i]->access_data_def()->value->get_alignment().boundary > 1))
+                res.emplace_back(operands, i, i + 1);
+            else
+                res.back().end = i + 1;
+        }
+        return res;
+    }
 
     // Inherited via resolvable
     context::dependency_collector get_dependencies(context::dependency_solver& solver) const override
     {
         context::dependency_collector conjunction;
-        for (const auto& op : operands_ref().value)
+        for (const auto& op : operands)
         {
             if (op->type == semantics::operand_type::EMPTY)
                 continue;
@@ -43,30 +61,74 @@ struct data_def_postponed_statement : public postponed_statement_impl, public co
         return conjunction;
     }
 
-    static int32_t get_operands_length(const semantics::operand_list& operands, context::dependency_solver& solver)
+    context::alignment get_alignment() const
+    {
+        if (operands[begin]->type == semantics::operand_type::EMPTY)
+            return context::no_align;
+        return operands[begin]->access_data_def()->value->get_alignment();
+    }
+
+    // alignment that is kept behind the operands, whatever their length is
+    context::alignment get_final_alignment() const
+    {
+        if (end - begin != 1 || operands[begin]->type == semantics::operand_type::EMPTY)
+            return context::no_align;
+        const auto& value = *operands[begin]->access_data_def()->value;
+        // SY and QY have 3 bytes
+        return value.extension == 'Y' ? context::no_align : value.get_alignment();
+    }
+
+    int32_t get_length(context::dependency_solver& solver) const
+    {
+        return get_operands_length(operands, begin, end, solver);
+    }
+
+    static int32_t get_operands_length(
+        const semantics::operand_list& operands, size_t begin, size_t end, context::dependency_solver& solver)
     {
         std::vector<checking::check_op_ptr> checking_ops;
+        std::vector<const checking::data_definition_operand*> all_ops;
         std::vector<const checking::data_definition_operand*> get_len_ops;
-        for (const auto& op : operands)
+        for (size_t i = 0; i < operands.size(); ++i)
         {
-            if (op->type == semantics::operand_type::EMPTY)
+            if (operands[i]->type == semantics::operand_type::EMPTY)
                 continue;
-            auto o = op->access_data_def()->get_operand_value(solver);
+            auto o = operands[i]->access_data_def()->get_operand_value(solver);
             checking::data_definition_operand* dd_op = dynamic_cast<checking::data_definition_operand*>(o.get());
             checking_ops.push_back(std::move(o));
-            get_len_ops.push_back(dd_op);
+            all_ops.push_back(dd_op);
+            if (begin <= i && i < end)
+                get_len_ops.push_back(dd_op);
         }
-        uint64_t len = checking::data_definition_operand::get_operands_length<instr_type>(get_len_ops);
-        if (len > INT32_MAX)
+        // no storage is reserved when any of the operands is invalid or when they are too long
+        uint64_t all_len = checking::data_definition_operand::get_operands_length<instr_type>(all_ops);
+        if (all_len == 0 || all_len > INT32_MAX)
             return 0;
         else
-            return (int32_t)len;
+            return (int32_t)checking::data_definition_operand::get_operands_length<instr_type>(get_len_ops);
     }
 
-    context::symbol_value resolve(context::dependency_solver& solver) const override
+    context::symbol_value resolve(context::dependency_solver& solver) const override { return get_length(solver); }
+
+    const semantics::operand_list& operands;
+    size_t begin;
+    size_t end;
+};
+
+template<checking::data_instr_type instr_type>
+struct data_def_postponed_statement : public postponed_statement_impl
+{
+    data_def_postponed_statement(rebuilt_statement stmt, context::processing_stack_t stmt_location_stack)
+        : postponed_statement_impl(std::move(stmt), std::move(stmt_location_stack))
+        , parts(data_def_length<instr_type>::split(operands_ref().value))
+    {}
+
+    static int32_t get_operands_length(const semantics::operand_list& operands, context::dependency_solver& solver)
     {
-        return get_operands_length(operands_ref().value, solver);
+        return data_def_length<instr_type>::get_operands_length(operands, 0, operands.size(), solver);
     }
+
+    const std::vector<data_def_length<instr_type>> parts;
 };
 
 } // namespace hlasm_plugin::parser_library::processing
-- 
2.43.0


From 7b62294ef1d16b5c8483cbe548fb9dc4438d7ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:56 +0000
Subject: [PATCH 19/89] fix: E behind a type other than C is the exponent
 modifier, not a type extension

---
 parser_library/src/expressions/data_definition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/data_definition.cpp b/parser_library/src/expressions/data_definition.cpp
index e36a4c2..f3db8ed 100644
--- a/parser_library/src/expressions/data_definition.cpp
+++ b/parser_library/src/expressions/data_definition.cpp
@@ -597,7 +597,8 @@ data_definition data_definition::parser::parse()
     if (p_ >= format_.size())
         return std::move(result_);
 
-    if (is_type_extension(format_[p_]))
+    // E is an extension of type C only, otherwise it is the exponent modifier
+    if (is_type_extension(format_[p_]) && (format_[p_] != 'E' || result_.type == 'C'))
     {
         result_.extension = format_[p_];
         result_.extension_range = { pos_, { pos_.line, pos_.column + 1 } };
-- 
2.43.0


From b258ca8120214e9b04e4fdc1d46230ac11e51880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:27 +0000
Subject: [PATCH 20/89] fix: length attribute of a bit length that is known
 later is in bytes

---
 .../instruction_sets/asm_processor.cpp        | 19 ++++++++++++-----
 .../data_def_postponed_statement.h            | 21 +++++++++++++++++++
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 29f6185..1a5ae63 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -248,10 +248,11 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
     if (has_dependencies)
     {
-        auto adder = hlasm_ctx.ord_ctx.symbol_dependencies.add_dependencies(
-            std::make_unique<data_def_postponed_statement<instr_type>>(std::move(stmt), hlasm_ctx.processing_stack()));
-        const auto& parts =
-            dynamic_cast<const data_def_postponed_statement<instr_type>*>(adder.source_stmt->impl())->parts;
+        auto postponed =
+            std::make_unique<data_def_postponed_statement<instr_type>>(std::move(stmt), hlasm_ctx.processing_stack());
+        auto stmt_impl = postponed.get();
+        const auto& parts = stmt_impl->parts;
+        auto adder = hlasm_ctx.ord_ctx.symbol_dependencies.add_dependencies(std::move(postponed));
         if (has_length_dependencies)
         {
             for (const auto& part : parts)
@@ -276,7 +277,15 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
             if (data_op->value->length
                 && data_op->value->length->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
-                cycle_ok = adder.add_dependency(label, context::data_attr_kind::L, data_op->value->length.get());
+            {
+                const context::resolvable* length = data_op->value->length.get();
+                if (data_op->value->length_type == expressions::data_definition::length_type::BIT)
+                {
+                    stmt_impl->length_attribute.bit_length = length;
+                    length = &stmt_impl->length_attribute;
+                }
+                cycle_ok = adder.add_dependency(label, context::data_attr_kind::L, length);
+            }
 
             if (data_op->value->scale
                 && data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
diff --git a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
index 392bc76..67ae700 100644
--- a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
+++ b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
@@ -115,6 +115,26 @@ struct data_def_length : public context::resolvable
     size_t end;
 };
 
+// length attribute of a symbol defined by a bit length modifier
+struct data_def_bit_length_attribute : public context::resolvable
+{
+    // Inherited via resolvable
+    context::dependency_collector get_dependencies(context::dependency_solver& solver) const override
+    {
+        return bit_length->get_dependencies(solver);
+    }
+
+    context::symbol_value resolve(context::dependency_solver& solver) const override
+    {
+        auto value = bit_length->resolve(solver);
+        if (value.value_kind() == context::symbol_value_kind::ABS && value.get_abs() > 0)
+            return checking::round_up(value.get_abs(), 8) / 8;
+        return value;
+    }
+
+    const context::resolvable* bit_length = nullptr;
+};
+
 template<checking::data_instr_type instr_type>
 struct data_def_postponed_statement : public postponed_statement_impl
 {
@@ -129,6 +149,7 @@ struct data_def_postponed_statement : public postponed_statement_impl
     }
 
     const std::vector<data_def_length<instr_type>> parts;
+    data_def_bit_length_attribute length_attribute;
 };
 
 } // namespace hlasm_plugin::parser_library::processing
-- 
2.43.0


From eedf27ba681d188ea6cd0ac8bb7c5b0bfd442fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:48 +0000
Subject: [PATCH 21/89] fix: modifiers of type V may use symbols defined later

---
 .../src/processing/instruction_sets/asm_processor.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 1a5ae63..ec96e71 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -195,7 +195,7 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
         data_op->value->assign_location_counter(adr);
 
-        has_dependencies |= data_op->value->type != 'V' && data_op->has_dependencies(hlasm_ctx.ord_ctx);
+        has_dependencies |= data_op->has_dependencies(hlasm_ctx.ord_ctx);
 
         has_length_dependencies |= data_op->get_length_dependencies(hlasm_ctx.ord_ctx).contains_dependencies();
 
-- 
2.43.0


From 2f7a9b8f7f2555c34e0eb5cfeb7371ba02538308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:48 +0000
Subject: [PATCH 22/89] fix: alignment behind a QD operand of unknown length is
 that of its length

---
 .../instruction_sets/data_def_postponed_statement.h       | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
index 67ae700..4bb8f18 100644
--- a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
+++ b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
@@ -74,8 +74,12 @@ struct data_def_length : public context::resolvable
         if (end - begin != 1 || operands[begin]->type == semantics::operand_type::EMPTY)
             return context::no_align;
         const auto& value = *operands[begin]->access_data_def()->value;
-        // SY and QY have 3 bytes
-        return value.extension == 'Y' ? context::no_align : value.get_alignment();
+        // SY and QY have 3 bytes, QD has 8 bytes
+        if (value.extension == 'Y')
+            return context::no_align;
+        if (value.type == 'Q' && value.extension == 'D')
+            return value.length ? context::no_align : context::doubleword;
+        return value.get_alignment();
     }
 
     int32_t get_length(context::dependency_solver& solver) const
-- 
2.43.0


From 10eb96d7cdd932cfa5c659bce81b8f609031c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:12 +0000
Subject: [PATCH 23/89] fix: EQU of a relocatable expression keeps its constant
 while the address is unresolved

---
 .../src/processing/instruction_sets/asm_processor.cpp        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index ec96e71..a49fcbf 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -152,7 +152,7 @@ void asm_processor::process_EQU(rebuilt_statement stmt)
             }
             else
             {
-                if (!holder.is_address())
+                if (!holder.is_address() || !holder.undefined_attr_refs.empty() || !holder.unresolved_spaces.empty())
                 {
                     bool cycle_ok = create_symbol(stmt.stmt_range_ref(), symbol_name, context::symbol_value(), attrs);
 
@@ -166,7 +166,8 @@ void asm_processor::process_EQU(rebuilt_statement stmt)
                     }
                 }
                 else
-                    create_symbol(stmt.stmt_range_ref(), symbol_name, *holder.unresolved_address, attrs);
+                    create_symbol(
+                        stmt.stmt_range_ref(), symbol_name, expr_op->expression->resolve(hlasm_ctx.ord_ctx), attrs);
             }
         }
     }
-- 
2.43.0


From db484921975dc6c67254ef0d4745d40a7b331c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:12 +0000
Subject: [PATCH 24/89] fix: storage behind alignments is counted when a
 postponed ORG is resolved

---
 .../src/context/ordinary_assembly/location_counter_data.cpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_library/src/context/ordinary_assembly/location_counter_data.cpp b/parser_library/src/context/ordinary_assembly/location_counter_data.cpp
index d1f4553..2647710 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter_data.cpp
+++ b/parser_library/src/context/ordinary_assembly/location_counter_data.cpp
@@ -53,6 +53,9 @@ void location_counter_data::append_data(location_counter_data data)
 
     data.unknown_parts.pop_front(); // the first unknown part is substitiuted by this data
 
+    for (const auto& part : data.unknown_parts)
+        storage += part.storage_after;
+
     unknown_parts.insert(unknown_parts.end(),
         std::make_move_iterator(data.unknown_parts.begin()),
         std::make_move_iterator(data.unknown_parts.end()));
-- 
2.43.0


From 48d83a77776312701474ac57a5c8a601454512a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:12 +0000
Subject: [PATCH 25/89] fix: the highest value of a location counter survives
 ORG and starts the next LOCTR

---
 .../ordinary_assembly/location_counter.cpp    | 37 ++++++++--------
 .../ordinary_assembly/location_counter.h      |  2 +
 .../ordinary_assembly_context.cpp             | 42 +++++++++++--------
 3 files changed, 47 insertions(+), 34 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/location_counter.cpp b/parser_library/src/context/ordinary_assembly/location_counter.cpp
index 792a08f..f86c2df 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter.cpp
+++ b/parser_library/src/context/ordinary_assembly/location_counter.cpp
@@ -22,9 +22,19 @@
 
 using namespace hlasm_plugin::parser_library::context;
 
-bool location_counter::has_unresolved_spaces() const { return !!org_data_.back().fist_space(); }
+bool location_counter::has_unresolved_spaces() const
+{
+    return std::any_of(org_data_.begin(), org_data_.end(), [](const auto& data) { return !!data.fist_space(); });
+}
 
-size_t location_counter::storage() const { return curr_data().storage; }
+size_t location_counter::storage() const
+{
+    // ORG may have left the counter below its highest value
+    return std::max_element(org_data_.begin(),
+        org_data_.end(),
+        [](const auto& l, const auto& r) { return l.storage < r.storage; })
+        ->storage;
+}
 
 location_counter::location_counter(id_index name, const section& owner, const loctr_kind kind, id_storage& ids)
     : switched_(nullptr)
@@ -57,7 +67,13 @@ aligned_addr location_counter::reserve_storage_area(size_t length, alignment a)
             curr_data().align(a);
     }
 
-    curr_data().append_storage(length);
+    if ((int)length < 0 && curr_data().kind == loctr_data_kind::POTENTIAL_MAX)
+    {
+        // keep the highest value reached so far (see set_value)
+        org_data_.emplace_back(curr_data());
+        curr_data().kind = loctr_data_kind::UNKNOWN_MAX;
+    }
+    curr_data().append_storage((int)length);
 
     check_available_value();
 
@@ -141,21 +157,8 @@ std::pair<space_ptr, std::vector<address>> location_counter::set_available_value
     for (auto& entry : org_data_)
         addr_arr.emplace_back(address::base { &owner }, entry.storage, entry.spaces());
 
-    space_ptr loctr_start = nullptr;
-    if (kind == loctr_kind::NONSTARTING)
-    {
-        loctr_start = addr_arr.front().spaces().front().first;
-        assert(loctr_start->kind == space_kind::LOCTR_BEGIN);
-        for (auto& addr : addr_arr)
-        {
-            if (addr.spaces().front().first->kind == space_kind::LOCTR_BEGIN)
-                addr.spaces().erase(addr.spaces().begin());
-        }
-    }
-
+    // the registered space is an offset from the beginning of the section (as it is in set_value)
     org_data_.emplace_back(loctr_data_kind::POTENTIAL_MAX);
-    if (kind == loctr_kind::NONSTARTING)
-        curr_data().append_space(std::move(loctr_start));
     (void)register_space(context::no_align, space_kind::LOCTR_MAX);
 
     return std::make_pair(curr_data().last_space(), std::move(addr_arr));
diff --git a/parser_library/src/context/ordinary_assembly/location_counter.h b/parser_library/src/context/ordinary_assembly/location_counter.h
index a5bc19d..e7fd88e 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter.h
+++ b/parser_library/src/context/ordinary_assembly/location_counter.h
@@ -52,7 +52,9 @@ public:
     const loctr_kind kind;
 
     bool has_unresolved_spaces() const;
+    // the highest value of the counter
     size_t storage() const;
+    bool layout_created() const { return layuot_created_; }
 
     location_counter(id_index name, const section& owner, const loctr_kind kind, id_storage& ids);
 
diff --git a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
index db9ee7e..79493ed 100644
--- a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
+++ b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
@@ -178,13 +178,11 @@ void ordinary_assembly_context::set_available_location_counter_value(size_t boun
 
     if (sp)
         symbol_dependencies.add_dependency(
-            sp, std::make_unique<aggregate_address_resolver>(std::move(addr), boundary, offset));
-    else
-    {
-        if (boundary)
-            (void)align(alignment { 0, boundary });
-        (void)reserve_storage_area(offset, context::no_align);
-    }
+            sp, std::make_unique<aggregate_address_resolver>(std::move(addr), boundary, 0));
+    else if (boundary)
+        (void)align(alignment { 0, boundary });
+
+    (void)reserve_storage_area(offset, context::no_align);
 }
 
 bool ordinary_assembly_context::symbol_defined(id_index name) { return symbols_.find(name) != symbols_.end(); }
@@ -226,19 +224,29 @@ space_ptr ordinary_assembly_context::register_ordinary_space(alignment align)
 
 void ordinary_assembly_context::finish_module_layout(loctr_dependency_resolver* resolver)
 {
-    for (auto& sect : sections_)
+    // a section may depend on the layout of another one
+    for (bool progress = true; progress;)
     {
-        for (size_t i = 0; i < sect->location_counters().size(); ++i)
+        progress = false;
+        for (auto& sect : sections_)
         {
-            if (i == 0)
-                sect->location_counters()[0]->finish_layout(0);
-            else
+            const auto& loctrs = sect->location_counters();
+            for (size_t i = 0; i < loctrs.size(); ++i)
             {
-                if (sect->location_counters()[i - 1]->has_unresolved_spaces())
-                    return;
-
-                sect->location_counters()[i]->finish_layout(sect->location_counters()[i - 1]->storage());
-                symbol_dependencies.add_defined(resolver);
+                if (loctrs[i]->layout_created())
+                    continue;
+
+                if (i == 0)
+                    loctrs[0]->finish_layout(0);
+                else
+                {
+                    if (loctrs[i - 1]->has_unresolved_spaces())
+                        break;
+
+                    loctrs[i]->finish_layout(loctrs[i - 1]->storage());
+                    symbol_dependencies.add_defined(resolver);
+                }
+                progress = true;
             }
         }
     }
-- 
2.43.0


From d52e319f65cf40608b242ff7b4a405383c7f8e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:39 +0000
Subject: [PATCH 26/89] fix: SLA does not shift a digit into the sign

---
 .../src/expressions/conditional_assembly/ca_operator_binary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index 05add68..a135527 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -130,7 +130,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
     switch (shift)
     {
         case ca_expr_ops::SLA:
-            result = (unsigned_lhs << shift_part) | sign_bit;
+            result = ((unsigned_lhs << shift_part) & ~(1U << 31)) | sign_bit;
             break;
         case ca_expr_ops::SLL:
             result = unsigned_lhs << shift_part;
-- 
2.43.0


From 09ea231189917fb6a1384921a7c640779fd43461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 27/89] verification hook: told before each statement
 (HLASM_VERIF)

---
 parser_library/src/processing/processing_manager.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser_library/src/processing/processing_manager.cpp b/parser_library/src/processing/processing_manager.cpp
index 371a6fa..4f0151d 100644
--- a/parser_library/src/processing/processing_manager.cpp
+++ b/parser_library/src/processing/processing_manager.cpp
@@ -26,6 +26,11 @@
 #include "statement_providers/copy_statement_provider.h"
 #include "statement_providers/macro_statement_provider.h"
 
+#ifdef HLASM_VERIF
+// a verification harness may define this to be told before each statement
+extern "C" __attribute__((weak)) void hlasm_verif_statement();
+#endif
+
 namespace hlasm_plugin::parser_library::processing {
 
 processing_manager::processing_manager(std::unique_ptr<opencode_provider> base_provider,
@@ -98,6 +103,10 @@ void processing_manager::start_processing(std::atomic<bool>* cancel)
 {
     while (!procs_.empty())
     {
+#ifdef HLASM_VERIF
+        if (hlasm_verif_statement)
+            hlasm_verif_statement();
+#endif
         if (cancel && *cancel)
             break;
 
-- 
2.43.0


From 4e62de00e78fd647ae70ad649b01677dd2f4bf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:29 +0000
Subject: [PATCH 28/89] fix: ending a session waits for its running request
 also when nothing is queued

---
 language_server/src/request_manager.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index 3378790..10f04bd 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -114,9 +114,6 @@ void request_manager::finish_server_requests(server* to_finish)
 {
     std::lock_guard guard(q_mtx_);
 
-    if (requests_.empty())
-        return;
-
     if (cancel_)
         *cancel_ = true;
 
-- 
2.43.0


From 7b582f764e1eb4bb8f432f1351cc7c1dc24081ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:57 +0000
Subject: [PATCH 29/89] fix: line starts are right after an edit that joins or
 splits a line ending

---
 parser_library/src/workspaces/file_impl.cpp | 47 ++-------------------
 1 file changed, 4 insertions(+), 43 deletions(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index efd228d..e6d9bfe 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -127,54 +127,15 @@ bool file_impl::get_lsp_editing() { return editing_; }
 // applies a change to the text and updates line begginings
 void file_impl::did_change(range range, std::string new_text)
 {
-    size_t range_end_line = (size_t)range.end.line;
-    size_t range_start_line = (size_t)range.start.line;
-
     size_t begin = index_from_position(text_, lines_ind_, range.start);
     size_t end = index_from_position(text_, lines_ind_, range.end);
 
     text_.replace(begin, end - begin, new_text);
 
-    std::vector<size_t> new_lines;
-
-    find_newlines(new_text, new_lines);
-
-
-    size_t old_lines_count = range_end_line - range_start_line;
-    size_t new_lines_count = new_lines.size();
-
-    size_t char_diff = new_text.size() - (end - begin);
-
-    // add or remove lines depending on the difference
-    if (new_lines_count > old_lines_count)
-    {
-        size_t diff = new_lines_count - old_lines_count;
-        lines_ind_.insert(lines_ind_.end(), diff, 0);
-
-        for (size_t i = lines_ind_.size() - 1; i > range_end_line + diff; --i)
-        {
-            lines_ind_[i] = lines_ind_[i - diff] + char_diff;
-        }
-    }
-    else
-    {
-        size_t diff = old_lines_count - new_lines_count;
-
-        for (size_t i = range_start_line + 1 + new_lines_count; i < lines_ind_.size() - diff; ++i)
-        {
-            lines_ind_[i] = lines_ind_[i + diff] + char_diff;
-        }
-
-        for (size_t i = 0; i < diff; ++i)
-            lines_ind_.pop_back();
-    }
-
-
-    for (size_t i = range_start_line + 1; i <= range_start_line + new_lines_count; ++i)
-    {
-        lines_ind_[i] = new_lines[i - (size_t)range_start_line - 1] + begin;
-    }
-
+    // a line ending may have been joined or split by the change
+    lines_ind_.clear();
+    lines_ind_.push_back(0);
+    find_newlines(text_, lines_ind_);
 
     ++version_;
 }
-- 
2.43.0


From daf520172113d3d661f6423d0768c85a9af64943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:14 +0000
Subject: [PATCH 30/89] fix: overlong forms, surrogates and values above 10FFFF
 in a file are replaced like other invalid bytes

---
 parser_library/src/workspaces/file_impl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index e6d9bfe..bda533c 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -267,6 +267,15 @@ std::string file_impl::replace_non_utf8_chars(const std::string& text)
                 }
             }
         }
+        // overlong encodings, surrogates and values above 10FFFF are not characters
+        if (OK && ch_len > 1)
+        {
+            const auto first = (unsigned char)text[i];
+            const auto second = (unsigned char)text[i + 1];
+            if (first < 0xC2 || (first == 0xE0 && second < 0xA0) || (first == 0xED && second >= 0xA0)
+                || (first == 0xF0 && second < 0x90) || (first == 0xF4 && second >= 0x90) || first > 0xF4)
+                OK = false;
+        }
 
         if (OK)
         {
-- 
2.43.0


From df383ac3343fe2bea1c95342272bead17d079986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:37 +0000
Subject: [PATCH 31/89] fix: a document belongs to the workspace whose whole
 path it starts with, and workspaces are removed by their path

---
 parser_library/src/workspace_manager_impl.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/workspace_manager_impl.h b/parser_library/src/workspace_manager_impl.h
index 7b087d3..d2951cb 100644
--- a/parser_library/src/workspace_manager_impl.h
+++ b/parser_library/src/workspace_manager_impl.h
@@ -54,7 +54,7 @@ public:
 
     void add_workspace(std::string name, std::string uri)
     {
-        auto ws = workspaces_.emplace(name, workspaces::workspace(uri, name, file_manager_, global_config_, cancel_));
+        auto ws = workspaces_.emplace(uri, workspaces::workspace(uri, name, file_manager_, global_config_, cancel_));
         ws.first->second.set_message_consumer(message_consumer_);
         ws.first->second.open();
 
@@ -214,8 +214,11 @@ private:
         workspaces::workspace* max_ws = nullptr;
         for (auto& ws : workspaces_)
         {
-            size_t match = prefix_match(document_uri, ws.second.uri());
-            if (match > max && match >= ws.first.size())
+            const auto& uri = ws.second.uri();
+            size_t match = prefix_match(document_uri, uri);
+            // the whole path of the workspace has to match
+            if (match > max && match == uri.size()
+                && (match == document_uri.size() || is_separator(uri.back()) || is_separator(document_uri[match])))
             {
                 max = match;
                 max_ws = &ws.second;
@@ -252,6 +255,8 @@ private:
         }
     }
 
+    static bool is_separator(char c) { return c == '/' || c == '\\'; }
+
     size_t prefix_match(const std::string& first, const std::string& second) const
     {
         size_t match = 0;
-- 
2.43.0


From 269dd8a364fcb70d4a61e32dd3ee8c38a40e4080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:21 +0000
Subject: [PATCH 32/89] fix: UTF-16 columns of characters outside the BMP and
 of the ignored rest of a line

---
 parser_library/src/lexing/lexer.cpp | 26 ++++++--------------------
 parser_library/src/lexing/lexer.h   |  1 -
 2 files changed, 6 insertions(+), 21 deletions(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index c9ff8c5..0bda116 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -187,8 +187,7 @@ void lexer::create_token(size_t ttype, size_t channel = Channels::DEFAULT_CHANNE
         token_start_state_.char_position_in_line_utf16,
         input_state_->char_position_in_line_utf16));
 
-    auto stop_position_in_line = last_char_utf16_long_ ? input_state_->char_position_in_line_utf16 - 1
-                                                       : input_state_->char_position_in_line_utf16;
+    auto stop_position_in_line = input_state_->char_position_in_line_utf16;
 
     if (src_proc_)
         switch (ttype)
@@ -230,26 +229,13 @@ void lexer::consume()
 
     if (input_state_->c != static_cast<char_t>(-1))
     {
+        // the position of the next character is behind the one that is consumed
+        input_state_->char_position_in_line++;
+        input_state_->char_position_in_line_utf16 += input_state_->c > 0xFFFF ? 2 : 1;
+
         input_state_->input->consume();
         input_state_->char_position++;
         input_state_->c = static_cast<char_t>(input_state_->input->LA(1));
-
-        input_state_->char_position_in_line++;
-        if (input_state_->c == static_cast<char32_t>(-1))
-        {
-            last_char_utf16_long_ = false;
-            input_state_->char_position_in_line_utf16 += 1;
-        }
-        else if (input_state_->c > 0xFFFF)
-        {
-            last_char_utf16_long_ = true;
-            input_state_->char_position_in_line_utf16 += 2;
-        }
-        else
-        {
-            last_char_utf16_long_ = false;
-            input_state_->char_position_in_line_utf16++;
-        }
     }
 }
 
@@ -501,7 +487,7 @@ void lexer::lex_end(bool eolln)
 
     if (!eof())
     {
-        last_line_pos_ = input_state_->char_position_in_line;
+        last_line_pos_ = input_state_->char_position_in_line_utf16;
         consume();
         if (eolln)
             create_token(EOLLN);
diff --git a/parser_library/src/lexing/lexer.h b/parser_library/src/lexing/lexer.h
index 75952f9..f9bfa6c 100644
--- a/parser_library/src/lexing/lexer.h
+++ b/parser_library/src/lexing/lexer.h
@@ -140,7 +140,6 @@ protected:
 
 private:
     bool eof_generated_ = false;
-    bool last_char_utf16_long_ = false;
     bool creating_var_symbol_ = false;
     bool creating_attr_ref_ = false;
     // insert string to the ainsert stream; to the front=True or to the end (front=False)
-- 
2.43.0


From 87b49a62afcea389fcb15538e7f262b11f9873d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:18 +0000
Subject: [PATCH 33/89] fix: macro definition that ends behind an inner macro
 is not read past its end

---
 parser_library/src/lsp/file_info.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_library/src/lsp/file_info.cpp b/parser_library/src/lsp/file_info.cpp
index e0ec779..8dadce8 100644
--- a/parser_library/src/lsp/file_info.cpp
+++ b/parser_library/src/lsp/file_info.cpp
@@ -119,6 +119,9 @@ file_slice_t file_slice_t::transform_slice(const macro_slice_t& slice, macro_inf
 
     if (slice.begin_statement == 0)
         fslice.file_lines.begin = macro_i->definition_location.pos.line;
+    else if (slice.begin_statement == macro_i->macro_definition->copy_nests.size())
+        // the definition ends unexpectedly behind an inner macro
+        fslice.file_lines.begin = macro_i->macro_definition->copy_nests.back().back().pos.line + 1;
     else
         fslice.file_lines.begin = macro_i->macro_definition->copy_nests[fslice.macro_lines.begin].back().pos.line;
 
-- 
2.43.0


From 7d9857cab1dbef5396fa208f5c0c5e00f2151681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:09 +0000
Subject: [PATCH 34/89] fix: a member that was read without success is a
 dependency of the program too

---
 parser_library/src/context/hlasm_context.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_library/src/context/hlasm_context.cpp b/parser_library/src/context/hlasm_context.cpp
index c5be873..994f74c 100644
--- a/parser_library/src/context/hlasm_context.cpp
+++ b/parser_library/src/context/hlasm_context.cpp
@@ -320,6 +320,7 @@ void hlasm_context::push_statement_processing(const processing::processing_kind
 
 void hlasm_context::push_statement_processing(const processing::processing_kind kind, std::string file_name)
 {
+    visited_files_.insert(file_name);
     source_stack_.emplace_back(std::move(file_name));
 
     proc_stack_.emplace_back(kind, true);
-- 
2.43.0


From 7a5ee21358f098c13eb535411f0cab23d0cdae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:09 +0000
Subject: [PATCH 35/89] fix: open programs follow changes of their members and
 configuration, whatever was opened before

Closing a member discards its unsaved text, a watched file is read again, a new member and a changed
configuration reach all open programs, and a member that is open in the editor is analyzed on its own only
while no program uses it.
---
 parser_library/src/workspaces/workspace.cpp | 178 ++++++++++++++------
 parser_library/src/workspaces/workspace.h   |  15 +-
 2 files changed, 137 insertions(+), 56 deletions(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 1afd391..848aa8a 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -150,26 +150,11 @@ const ws_uri& workspace::uri() { return uri_; }
 
 void workspace::parse_file(const std::string& file_uri)
 {
-    std::filesystem::path file_path(file_uri);
     // add support for hlasm to vscode (auto detection??) and do the decision based on languageid
-    if (utils::path::equal(file_path, proc_grps_path_) || utils::path::equal(file_path, pgm_conf_path_))
+    if (is_config_file_(file_uri))
     {
         if (load_and_process_config())
-        {
-            for (auto fname : dependants_)
-            {
-                auto found = file_manager_.find_processor_file(fname);
-                if (found)
-                    found->parse(*this);
-            }
-
-            for (auto fname : dependants_)
-            {
-                auto found = file_manager_.find_processor_file(fname);
-                if (found)
-                    filter_and_close_dependencies_(found->files_to_close(), found);
-            }
-        }
+            parse_programs_(find_open_programs_());
         return;
     }
     // what about removing files??? what if depentands_ points to not existing file?
@@ -197,12 +182,33 @@ void workspace::parse_file(const std::string& file_uri)
             files_to_parse.push_back(f);
     }
 
+    parse_programs_(files_to_parse);
+}
+
+void workspace::parse_programs_(const std::vector<processor_file_ptr>& files_to_parse)
+{
+    // files that may not be needed by any program anymore
+    std::set<std::string> files_to_close;
+
     for (auto f : files_to_parse)
     {
+        // a file that is used by a program is not a program on its own
+        if (is_dependency_(f->get_file_name()))
+            continue;
+
         f->parse(*this);
         if (!f->dependencies().empty())
             dependants_.insert(f->get_file_name());
 
+        files_to_close.insert(f->files_to_close().begin(), f->files_to_close().end());
+        for (const auto& dependency : f->dependencies())
+        {
+            if (!dependants_.erase(dependency))
+                continue;
+            if (auto dependency_file = file_manager_.find_processor_file(dependency))
+                files_to_close.insert(
+                    dependency_file->dependencies().begin(), dependency_file->dependencies().end());
+        }
 
         // if there is no processor group assigned to the program, delete diagnostics that may have been created
         if (cancel_ && cancel_->load()) // skip, if parsing was cancelled using the cancellation token
@@ -217,8 +223,26 @@ void workspace::parse_file(const std::string& file_uri)
     }
 
     // second check after all dependants are there to close all files that used to be dependencies
-    for (auto f : files_to_parse)
-        filter_and_close_dependencies_(f->files_to_close(), f);
+    filter_and_close_dependencies_(files_to_close);
+}
+
+std::vector<processor_file_ptr> workspace::find_open_programs_() const
+{
+    std::vector<processor_file_ptr> programs;
+    for (const auto& fname : opened_files_)
+    {
+        if (is_dependency_(fname))
+            continue;
+        if (auto f = file_manager_.find_processor_file(fname))
+            programs.push_back(std::move(f));
+    }
+    return programs;
+}
+
+bool workspace::is_config_file_(const std::string& file_uri) const
+{
+    std::filesystem::path file_path(file_uri);
+    return utils::path::equal(file_path, proc_grps_path_) || utils::path::equal(file_path, pgm_conf_path_);
 }
 
 void workspace::refresh_libraries()
@@ -232,33 +256,55 @@ void workspace::refresh_libraries()
     }
 }
 
-void workspace::did_open_file(const std::string& file_uri) { parse_file(file_uri); }
+void workspace::did_open_file(const std::string& file_uri)
+{
+    if (!is_config_file_(file_uri))
+        opened_files_.insert(file_uri);
+    parse_file(file_uri);
+}
 
 void workspace::did_close_file(const std::string& file_uri)
 {
     diag_suppress_notified_[file_uri] = false;
-    // first check whether the file is a dependency
-    // if so, simply close it, no other action is needed
-    if (is_dependency_(file_uri))
+    opened_files_.erase(file_uri);
+    // first check whether the file is a dependency or a configuration file
+    // if so, it is still used, but with its content on the disk
+    if (is_config_file_(file_uri) || is_dependency_(file_uri))
     {
+        auto file = file_manager_.find(file_uri);
+        if (!file)
+            return;
+        const std::string edited_text = file->get_text();
+        file = nullptr;
         file_manager_.did_close_file(file_uri);
+        if (reload_file_(file_uri) != edited_text)
+            parse_file(file_uri);
         return;
     }
 
     // find if the file is a dependant
-    auto fname = dependants_.find(file_uri);
-    if (fname != dependants_.end())
+    std::set<std::string> dependencies;
+    if (dependants_.erase(file_uri))
     {
-        auto file = file_manager_.find_processor_file(*fname);
-        // filter the dependencies that should not be closed
-        filter_and_close_dependencies_(file->dependencies(), file);
-        // remove it from dependants
-        dependants_.erase(fname);
+        if (auto file = file_manager_.find_processor_file(file_uri))
+            dependencies = file->dependencies();
     }
 
     // close the file itself
     file_manager_.did_close_file(file_uri);
     file_manager_.remove_file(file_uri);
+
+    // close the dependencies that are not used anymore
+    filter_and_close_dependencies_(dependencies);
+}
+
+std::string workspace::reload_file_(const std::string& file_uri)
+{
+    auto file = file_manager_.find(file_uri);
+    if (!file)
+        return {};
+    file->update_and_get_bad();
+    return file->get_text();
 }
 
 void workspace::did_change_file(const std::string file_uri, const document_change*, size_t) { parse_file(file_uri); }
@@ -266,7 +312,27 @@ void workspace::did_change_file(const std::string file_uri, const document_chang
 void workspace::did_change_watched_files(const std::string& file_uri)
 {
     refresh_libraries();
-    parse_file(file_uri);
+    reload_file_(file_uri);
+    // a member that is not used by any program may have been created
+    if (is_library_member_(file_uri) && !is_dependency_(file_uri))
+        parse_programs_(find_open_programs_());
+    else
+        parse_file(file_uri);
+}
+
+bool workspace::is_library_member_(const std::string& file_uri) const
+{
+    const std::string folder =
+        utils::path::join(std::filesystem::path(file_uri).parent_path(), "").lexically_normal().string();
+    for (const auto& [_, proc_grp] : proc_grps_)
+    {
+        for (const auto& lib : proc_grp.libraries())
+        {
+            if (auto local = dynamic_cast<const library_local*>(lib.get()); local && local->get_lib_path() == folder)
+                return true;
+        }
+    }
+    return false;
 }
 
 location workspace::definition(const std::string& document_uri, const position pos) const
@@ -464,39 +530,43 @@ bool workspace::is_wildcard(const std::string& str)
     return str.find('*') != std::string::npos || str.find('?') != std::string::npos;
 }
 
-void workspace::filter_and_close_dependencies_(const std::set<std::string>& dependencies, processor_file_ptr file)
+void workspace::filter_and_close_dependencies_(const std::set<std::string>& dependencies)
 {
-    std::set<std::string> filtered;
-    // filters out externally open files
-    for (auto& dependency : dependencies)
-    {
-        auto dependency_file = file_manager_.find_processor_file(dependency);
-        if (dependency_file && !dependency_file->get_lsp_editing())
-            filtered.insert(dependency);
-    }
+    std::vector<processor_file_ptr> files_to_parse;
 
-    // filters the files that are dependencies of other dependants and externally open files
-    for (auto dependant : dependants_)
+    for (const auto& dependency : dependencies)
     {
-        auto fdependant = file_manager_.find_processor_file(dependant);
-        if (!fdependant)
+        // files that are dependencies of other dependants are analyzed as part of them again
+        if (is_dependency_(dependency))
+        {
+            auto dependant = find_related_opencodes(dependency).back();
+            if (std::find(files_to_parse.begin(), files_to_parse.end(), dependant) == files_to_parse.end())
+                files_to_parse.push_back(std::move(dependant));
             continue;
-        for (auto& dependency : fdependant->dependencies())
+        }
+
+        auto dependency_file = file_manager_.find_processor_file(dependency);
+        if (!dependency_file)
+            continue;
+
+        // externally open files become programs on their own
+        if (dependency_file->get_lsp_editing())
         {
-            if (fdependant->get_file_name() != file->get_file_name() && filtered.find(dependency) != filtered.end())
-                filtered.erase(dependency);
+            files_to_parse.push_back(std::move(dependency_file));
+            continue;
         }
-    }
 
-    // close all exclusive dependencies of file
-    for (auto& dep : filtered)
-    {
-        file_manager_.did_close_file(dep);
-        file_manager_.remove_file(dep);
+        // close all exclusive dependencies
+        dependency_file = nullptr;
+        file_manager_.did_close_file(dependency);
+        file_manager_.remove_file(dependency);
     }
+
+    if (!files_to_parse.empty())
+        parse_programs_(files_to_parse);
 }
 
-bool workspace::is_dependency_(const std::string& file_uri)
+bool workspace::is_dependency_(const std::string& file_uri) const
 {
     for (auto dependant : dependants_)
     {
diff --git a/parser_library/src/workspaces/workspace.h b/parser_library/src/workspaces/workspace.h
index 667a27b..6207399 100644
--- a/parser_library/src/workspaces/workspace.h
+++ b/parser_library/src/workspaces/workspace.h
@@ -152,8 +152,19 @@ private:
 
     diagnostic_container config_diags_;
 
-    void filter_and_close_dependencies_(const std::set<std::string>& dependencies, processor_file_ptr file);
-    bool is_dependency_(const std::string& file_uri);
+    // files that are open in the editor, without the configuration files
+    std::set<std::string> opened_files_;
+
+    void filter_and_close_dependencies_(const std::set<std::string>& dependencies);
+    bool is_dependency_(const std::string& file_uri) const;
+    bool is_config_file_(const std::string& file_uri) const;
+    bool is_library_member_(const std::string& file_uri) const;
+
+    void parse_programs_(const std::vector<processor_file_ptr>& files_to_parse);
+    // open files that are not used by other open files
+    std::vector<processor_file_ptr> find_open_programs_() const;
+    // reads a file that is not open in the editor again from the disk and returns its text
+    std::string reload_file_(const std::string& file_uri);
 
     bool program_id_match(const std::string& filename, const program_id& program) const;
 
-- 
2.43.0


From 39145df4edd0a74440c568eb9bfb8ba8dbeec59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:23 +0000
Subject: [PATCH 36/89] fix: inner macro prototype named like a conditional
 assembly instruction is diagnosed

---
 .../statement_processors/macrodef_processor.cpp          | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/processing/statement_processors/macrodef_processor.cpp b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
index 407e4b9..acb194f 100644
--- a/parser_library/src/processing/statement_processors/macrodef_processor.cpp
+++ b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
@@ -251,8 +251,13 @@ void macrodef_processor::process_prototype_operand(
             continue;
         }
 
-        auto tmp = op->access_mac()->access_chain();
-        assert(tmp);
+        auto mac_op = op->access_mac();
+        auto tmp = mac_op ? mac_op->access_chain() : nullptr;
+        if (!tmp) // operands of an instruction with operands of its own
+        {
+            add_diagnostic(diagnostic_op::error_E043(op->operand_range));
+            continue;
+        }
 
         auto& tmp_chain = tmp->chain;
 
-- 
2.43.0


From d6d3d492475aedfe6cf9daed96742da7645ed90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:23 +0000
Subject: [PATCH 37/89] fix: position in a copy member before its first
 statement is known

---
 parser_library/src/context/copy_member.h     | 8 ++++++++
 parser_library/src/context/hlasm_context.cpp | 6 ++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/context/copy_member.h b/parser_library/src/context/copy_member.h
index efdbe6c..e3e7af1 100644
--- a/parser_library/src/context/copy_member.h
+++ b/parser_library/src/context/copy_member.h
@@ -35,6 +35,14 @@ struct copy_member_invocation
         , definition_location(definition_location)
         , current_statement(-1)
     {}
+
+    position current_statement_position() const
+    {
+        // nothing has been read from the member yet
+        if (current_statement < 0)
+            return definition_location.pos;
+        return cached_definition[current_statement].get_base()->statement_position();
+    }
 };
 
 struct copy_member;
diff --git a/parser_library/src/context/hlasm_context.cpp b/parser_library/src/context/hlasm_context.cpp
index 994f74c..0dd4aab 100644
--- a/parser_library/src/context/hlasm_context.cpp
+++ b/parser_library/src/context/hlasm_context.cpp
@@ -347,8 +347,7 @@ processing_stack_t hlasm_context::processing_stack() const
         res.emplace_back(source_stack_[i].current_instruction, scope_stack_.front(), file_processing_type::OPENCODE);
         for (const auto& member : source_stack_[i].copy_stack)
         {
-            location loc(member.cached_definition[member.current_statement].get_base()->statement_position(),
-                member.definition_location.file);
+            location loc(member.current_statement_position(), member.definition_location.file);
             res.emplace_back(std::move(loc), scope_stack_.front(), file_processing_type::COPY);
         }
 
@@ -377,8 +376,7 @@ location hlasm_context::current_statement_location() const
         {
             const auto& member = source_stack_.back().copy_stack.back();
 
-            auto pos = member.cached_definition[member.current_statement].get_base()->statement_position();
-            return location(pos, member.definition_location.file);
+            return location(member.current_statement_position(), member.definition_location.file);
         }
         else
             return source_stack_.back().current_instruction;
-- 
2.43.0


From c07bf4c6f90fc60b519385204365afe37642ad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:23 +0000
Subject: [PATCH 38/89] fix: a cancelled analysis is made up for and leaves no
 members behind, queries of files not analyzed yet are answered

---
 .../src/workspaces/processor_file_impl.cpp    | 40 +++++++++++++++----
 parser_library/src/workspaces/workspace.cpp   | 23 ++++++++++-
 parser_library/src/workspaces/workspace.h     |  2 +
 3 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/parser_library/src/workspaces/processor_file_impl.cpp b/parser_library/src/workspaces/processor_file_impl.cpp
index d7f6cd1..acf1a84 100644
--- a/parser_library/src/workspaces/processor_file_impl.cpp
+++ b/parser_library/src/workspaces/processor_file_impl.cpp
@@ -21,6 +21,20 @@
 
 namespace hlasm_plugin::parser_library::workspaces {
 
+namespace {
+// answers for files that have not been analyzed (yet)
+struct no_feature_provider final : public lsp::feature_provider
+{
+    location definition(const std::string& document_uri, position pos) const override { return { pos, document_uri }; }
+    location_list references(const std::string&, position) const override { return {}; }
+    lsp::hover_result hover(const std::string&, position) const override { return {}; }
+    lsp::completion_list_s completion(const std::string&, position, char, completion_trigger_kind) const override
+    {
+        return {};
+    }
+};
+} // namespace
+
 processor_file_impl::processor_file_impl(std::string file_name, std::atomic<bool>* cancel)
     : file_impl(std::move(file_name))
     , cancel_(cancel)
@@ -48,13 +62,12 @@ parse_result processor_file_impl::parse(parse_lib_provider& lib_provider)
 
     auto res = parse_inner(*analyzer_);
 
+    // files used before are forgotten only when the analysis is complete
     if (!cancel_ || !*cancel_)
-    {
         dependencies_.clear();
-        for (auto& file : analyzer_->hlasm_ctx().get_visited_files())
-            if (file != get_file_name())
-                dependencies_.insert(file);
-    }
+    for (auto& file : analyzer_->hlasm_ctx().get_visited_files())
+        if (file != get_file_name())
+            dependencies_.insert(file);
 
     files_to_close_.clear();
     // files that used to be dependencies but are not anymore should be closed internally
@@ -97,14 +110,25 @@ const std::set<std::string>& processor_file_impl::dependencies() { return depend
 
 const semantics::lines_info& processor_file_impl::get_hl_info()
 {
-    return analyzer_->source_processor().semantic_tokens();
+    static const semantics::lines_info empty_lines;
+    return analyzer_ ? analyzer_->source_processor().semantic_tokens() : empty_lines;
 }
 
-const lsp::feature_provider& processor_file_impl::get_lsp_feature_provider() { return *analyzer_->context().lsp_ctx; }
+const lsp::feature_provider& processor_file_impl::get_lsp_feature_provider()
+{
+    static const no_feature_provider no_features;
+    if (!analyzer_)
+        return no_features;
+    return *analyzer_->context().lsp_ctx;
+}
 
 const std::set<std::string>& processor_file_impl::files_to_close() { return files_to_close_; }
 
-const performance_metrics& processor_file_impl::get_metrics() { return analyzer_->get_metrics(); }
+const performance_metrics& processor_file_impl::get_metrics()
+{
+    static const performance_metrics no_metrics;
+    return analyzer_ ? analyzer_->get_metrics() : no_metrics;
+}
 
 bool processor_file_impl::parse_inner(analyzer& new_analyzer)
 {
diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 848aa8a..4d8b080 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -182,6 +182,17 @@ void workspace::parse_file(const std::string& file_uri)
             files_to_parse.push_back(f);
     }
 
+    // programs whose last analysis was cancelled
+    const auto interrupted_programs = interrupted_programs_;
+    for (const auto& fname : interrupted_programs)
+    {
+        auto f = opened_files_.count(fname) ? file_manager_.find_processor_file(fname) : nullptr;
+        if (!f)
+            interrupted_programs_.erase(fname);
+        else if (std::find(files_to_parse.begin(), files_to_parse.end(), f) == files_to_parse.end())
+            files_to_parse.push_back(std::move(f));
+    }
+
     parse_programs_(files_to_parse);
 }
 
@@ -194,7 +205,10 @@ void workspace::parse_programs_(const std::vector<processor_file_ptr>& files_to_
     {
         // a file that is used by a program is not a program on its own
         if (is_dependency_(f->get_file_name()))
+        {
+            interrupted_programs_.erase(f->get_file_name());
             continue;
+        }
 
         f->parse(*this);
         if (!f->dependencies().empty())
@@ -212,7 +226,11 @@ void workspace::parse_programs_(const std::vector<processor_file_ptr>& files_to_
 
         // if there is no processor group assigned to the program, delete diagnostics that may have been created
         if (cancel_ && cancel_->load()) // skip, if parsing was cancelled using the cancellation token
+        {
+            interrupted_programs_.insert(f->get_file_name());
             continue;
+        }
+        interrupted_programs_.erase(f->get_file_name());
 
         const processor_group& grp = get_proc_grp_by_program(f->get_file_name());
         f->collect_diags();
@@ -307,7 +325,10 @@ std::string workspace::reload_file_(const std::string& file_uri)
     return file->get_text();
 }
 
-void workspace::did_change_file(const std::string file_uri, const document_change*, size_t) { parse_file(file_uri); }
+void workspace::did_change_file(const std::string file_uri, const document_change*, size_t)
+{
+    did_open_file(file_uri); // opening may have been cancelled
+}
 
 void workspace::did_change_watched_files(const std::string& file_uri)
 {
diff --git a/parser_library/src/workspaces/workspace.h b/parser_library/src/workspaces/workspace.h
index 6207399..09d2d7a 100644
--- a/parser_library/src/workspaces/workspace.h
+++ b/parser_library/src/workspaces/workspace.h
@@ -154,6 +154,8 @@ private:
 
     // files that are open in the editor, without the configuration files
     std::set<std::string> opened_files_;
+    // open programs whose last analysis was cancelled
+    std::set<std::string> interrupted_programs_;
 
     void filter_and_close_dependencies_(const std::set<std::string>& dependencies);
     bool is_dependency_(const std::string& file_uri) const;
-- 
2.43.0


From 3ff30607b05ecb1a6e6d2f8fe8e31e90a64c3c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 39/89] fix: '%' in a path is encoded in its URI

---
 language_server/src/feature.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/language_server/src/feature.cpp b/language_server/src/feature.cpp
index ca4f2f3..e71fc1d 100644
--- a/language_server/src/feature.cpp
+++ b/language_server/src/feature.cpp
@@ -84,7 +84,7 @@ std::string feature::path_to_uri(std::string_view path)
     {
         if (c == '\\')
             c = '/';
-        network::detail::encode_char(c, out, "/.%;=");
+        network::detail::encode_char(c, out, "/.;=");
     }
 
     if (utils::platform::is_windows())
-- 
2.43.0


From fa87a817c5882bf6b6890d89527bb06f00ba24dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 40/89] fix: '+' in a wildcarded program name stands for itself

---
 parser_library/src/workspaces/wildcard.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/workspaces/wildcard.cpp b/parser_library/src/workspaces/wildcard.cpp
index 1d9c232..b34b9a5 100644
--- a/parser_library/src/workspaces/wildcard.cpp
+++ b/parser_library/src/workspaces/wildcard.cpp
@@ -19,9 +19,9 @@
 namespace hlasm_plugin::parser_library::workspaces {
 namespace {
 // used for wildcard to regex conversions
-const std::regex escape("(\\(|\\[|\\{|\\\\|\\^|\\-|\\=|\\$|\\!|\\||\\]|\\}|\\)|\\.)");
+const std::regex escape("(\\(|\\[|\\{|\\\\|\\^|\\-|\\=|\\$|\\!|\\||\\]|\\}|\\)|\\.|\\+)");
 const std::regex question("\\?");
-const std::regex nongreedy("(\\*|\\+)");
+const std::regex nongreedy("(\\*)");
 const std::regex slash("\\/");
 } // namespace
 
-- 
2.43.0


From 7b151244e24872e72a411834333c60b0efcd2e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 41/89] fix: a malformed pgm_conf leaves the configuration
 before in place as a whole

---
 parser_library/src/workspaces/workspace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 4d8b080..6f50a07 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -514,7 +514,6 @@ bool workspace::load_config(config::proc_conf& proc_groups, config::pgm_conf& pg
     try
     {
         nlohmann::json::parse(proc_grps_file->get_text()).get_to(proc_groups);
-        proc_grps_.clear();
         for (const auto& pg : proc_groups.pgroups)
             if (!pg.asm_options.valid())
                 config_diags_.push_back(diagnostic_s::error_W005(proc_grps_file->get_file_name(), pg.name));
@@ -535,6 +534,8 @@ bool workspace::load_config(config::proc_conf& proc_groups, config::pgm_conf& pg
     try
     {
         nlohmann::json::parse(pgm_conf_file->get_text()).get_to(pgm_config);
+        // the configuration is replaced only as a whole
+        proc_grps_.clear();
         exact_pgm_conf_.clear();
         regex_pgm_conf_.clear();
     }
-- 
2.43.0


From a3c2b7a05cb532c55035ae86feed05e56e2e395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 42/89] fix: messages with missing or ill-typed parameters are
 refused, completion context is optional

---
 language_server/src/dap/dap_feature.cpp       | 18 ++++++------
 language_server/src/dap/dap_server.cpp        |  2 +-
 language_server/src/feature.cpp               |  6 ++--
 .../src/lsp/feature_language_features.cpp     | 28 +++++++++----------
 .../src/lsp/feature_text_synchronization.cpp  | 24 ++++++++--------
 .../src/lsp/feature_workspace_folders.cpp     | 18 ++++++------
 6 files changed, 47 insertions(+), 49 deletions(-)

diff --git a/language_server/src/dap/dap_feature.cpp b/language_server/src/dap/dap_feature.cpp
index e8216e4..c1d5d4c 100644
--- a/language_server/src/dap/dap_feature.cpp
+++ b/language_server/src/dap/dap_feature.cpp
@@ -97,9 +97,9 @@ void dap_feature::on_initialize(const json& requested_seq, const json& args)
 {
     response_->respond(requested_seq, "initialize", json { { "supportsConfigurationDoneRequest", true } });
 
-    line_1_based_ = args["linesStartAt1"].get<bool>() ? 1 : 0;
-    column_1_based_ = args["columnsStartAt1"].get<bool>() ? 1 : 0;
-    path_format_ = args["pathFormat"].get<std::string>() == "path" ? path_format::PATH : path_format::URI;
+    line_1_based_ = args.at("linesStartAt1").get<bool>() ? 1 : 0;
+    column_1_based_ = args.at("columnsStartAt1").get<bool>() ? 1 : 0;
+    path_format_ = args.at("pathFormat").get<std::string>() == "path" ? path_format::PATH : path_format::URI;
 
     debugger.emplace();
 
@@ -122,8 +122,8 @@ void dap_feature::on_launch(const json& request_seq, const json& args)
         return;
 
     // wait for configurationDone?
-    std::string program_path = convert_path(args["program"].get<std::string>(), path_format_);
-    bool stop_on_entry = args["stopOnEntry"].get<bool>();
+    std::string program_path = convert_path(args.at("program").get<std::string>(), path_format_);
+    bool stop_on_entry = args.at("stopOnEntry").get<bool>();
     auto workspace_id = ws_mngr_.find_workspace(program_path.c_str());
     debugger->set_event_consumer(this);
     debugger->launch(program_path.c_str(), *workspace_id, stop_on_entry);
@@ -138,14 +138,14 @@ void dap_feature::on_set_breakpoints(const json& request_seq, const json& args)
 
     json breakpoints_verified = json::array();
 
-    std::string source = convert_path(args["source"]["path"].get<std::string>(), path_format_);
+    std::string source = convert_path(args.at("source").at("path").get<std::string>(), path_format_);
     std::vector<parser_library::breakpoint> breakpoints;
 
     if (auto bpoints_found = args.find("breakpoints"); bpoints_found != args.end())
     {
         for (auto& bp_json : bpoints_found.value())
         {
-            breakpoints.emplace_back(bp_json["line"].get<json::number_unsigned_t>() - line_1_based_);
+            breakpoints.emplace_back(bp_json.at("line").get<json::number_unsigned_t>() - line_1_based_);
             breakpoints_verified.push_back(json { { "verified", true } });
         }
     }
@@ -208,7 +208,7 @@ void dap_feature::on_scopes(const json& request_seq, const json& args)
 
     nlohmann::json scopes_json = json::array();
 
-    for (const auto& s : debugger->scopes(args["frameId"].get<json::number_unsigned_t>()))
+    for (const auto& s : debugger->scopes(args.at("frameId").get<json::number_unsigned_t>()))
     {
         auto scope = parser_library::scope(s);
         json scope_json = json { { "name", std::string_view(scope.name) },
@@ -248,7 +248,7 @@ void dap_feature::on_variables(const json& request_seq, const json& args)
 
     nlohmann::json variables_json = json::array();
 
-    for (auto var : debugger->variables(args["variablesReference"]))
+    for (auto var : debugger->variables(args.at("variablesReference")))
     {
         std::string type;
         switch (var.type)
diff --git a/language_server/src/dap/dap_server.cpp b/language_server/src/dap/dap_server.cpp
index e278a4a..4bb6dbc 100644
--- a/language_server/src/dap/dap_server.cpp
+++ b/language_server/src/dap/dap_server.cpp
@@ -79,7 +79,7 @@ void server::message_received(const json& message)
         else
             call_method(message.at("command").get<std::string>(), message.at("seq"), arguments.value());
     }
-    catch (const nlohmann::json::exception& e)
+    catch (const std::exception& e)
     {
         (void)e;
         LOG_WARNING(std::string("There was an error with received request:") + e.what());
diff --git a/language_server/src/feature.cpp b/language_server/src/feature.cpp
index e71fc1d..e3c1a55 100644
--- a/language_server/src/feature.cpp
+++ b/language_server/src/feature.cpp
@@ -105,13 +105,13 @@ std::string feature::path_to_uri(std::string_view path)
 
 parser_library::range feature::parse_range(const json& range_json)
 {
-    return { parse_position(range_json["start"]), parse_position(range_json["end"]) };
+    return { parse_position(range_json.at("start")), parse_position(range_json.at("end")) };
 }
 
 parser_library::position feature::parse_position(const json& position_json)
 {
-    return { position_json["line"].get<nlohmann::json::number_unsigned_t>(),
-        position_json["character"].get<nlohmann::json::number_unsigned_t>() };
+    return { position_json.at("line").get<nlohmann::json::number_unsigned_t>(),
+        position_json.at("character").get<nlohmann::json::number_unsigned_t>() };
 }
 
 json feature::range_to_json(const parser_library::range& range)
diff --git a/language_server/src/lsp/feature_language_features.cpp b/language_server/src/lsp/feature_language_features.cpp
index 756b921..a761ad3 100644
--- a/language_server/src/lsp/feature_language_features.cpp
+++ b/language_server/src/lsp/feature_language_features.cpp
@@ -78,9 +78,8 @@ void feature_language_features::initialize_feature(const json&)
 
 void feature_language_features::definition(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
-    auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
+    auto pos = parse_position(params.at("position"));
 
 
     auto definition_position_uri = ws_mngr_.definition(uri_to_path(document_uri).c_str(), pos);
@@ -93,9 +92,8 @@ void feature_language_features::definition(const json& id, const json& params)
 
 void feature_language_features::references(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
-    auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
+    auto pos = parse_position(params.at("position"));
     json to_ret = json::array();
     auto references = ws_mngr_.references(uri_to_path(document_uri).c_str(), pos);
     for (size_t i = 0; i < references.size(); ++i)
@@ -108,9 +106,8 @@ void feature_language_features::references(const json& id, const json& params)
 }
 void feature_language_features::hover(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
-    auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
+    auto pos = parse_position(params.at("position"));
 
 
     auto hover_list = ws_mngr_.hover(uri_to_path(document_uri).c_str(), pos);
@@ -166,11 +163,12 @@ json feature_language_features::get_markup_content(std::string_view content)
 
 void feature_language_features::completion(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
-    auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
+    auto pos = parse_position(params.at("position"));
 
-    int trigger_kind_int = params["context"]["triggerKind"].get<int>();
+    // the context is optional
+    const json context = params.value("context", json::object());
+    int trigger_kind_int = context.value("triggerKind", 1);
     parser_library::completion_trigger_kind trigger_kind = (trigger_kind_int >= 1 && trigger_kind_int <= 3)
         ? (parser_library::completion_trigger_kind)trigger_kind_int
         : parser_library::completion_trigger_kind::invoked;
@@ -178,7 +176,7 @@ void feature_language_features::completion(const json& id, const json& params)
     // no trigger character
     char trigger_char = '\0';
     if (trigger_kind == parser_library::completion_trigger_kind::trigger_character)
-        trigger_char = params["context"]["triggerCharacter"].get<std::string>()[0];
+        trigger_char = context.value("triggerCharacter", "")[0];
 
     auto completion_list = ws_mngr_.completion(uri_to_path(document_uri).c_str(), pos, trigger_char, trigger_kind);
     json to_ret = json::value_t::null;
@@ -236,7 +234,7 @@ json convert_tokens_to_num_array(const std::vector<parser_library::token_info>&
 
 void feature_language_features::semantic_tokens(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
 
     auto tokens = ws_mngr_.semantic_tokens(uri_to_path(document_uri).c_str());
     json num_array = convert_tokens_to_num_array(tokens);
diff --git a/language_server/src/lsp/feature_text_synchronization.cpp b/language_server/src/lsp/feature_text_synchronization.cpp
index 2ac129a..87423fc 100644
--- a/language_server/src/lsp/feature_text_synchronization.cpp
+++ b/language_server/src/lsp/feature_text_synchronization.cpp
@@ -55,10 +55,10 @@ void feature_text_synchronization::initialize_feature(const json&)
 
 void feature_text_synchronization::on_did_open(const json&, const json& params)
 {
-    json text_doc = params["textDocument"];
-    std::string doc_uri = text_doc["uri"].get<std::string>();
-    auto version = text_doc["version"].get<nlohmann::json::number_unsigned_t>();
-    std::string text = text_doc["text"].get<std::string>();
+    json text_doc = params.at("textDocument");
+    std::string doc_uri = text_doc.at("uri").get<std::string>();
+    auto version = text_doc.at("version").get<nlohmann::json::number_unsigned_t>();
+    std::string text = text_doc.at("text").get<std::string>();
 
     auto path = uri_to_path(doc_uri);
 
@@ -73,19 +73,19 @@ void feature_text_synchronization::on_did_open(const json&, const json& params)
 
 void feature_text_synchronization::on_did_change(const json&, const json& params)
 {
-    json text_doc = params["textDocument"];
-    std::string doc_uri = text_doc["uri"].get<std::string>();
+    json text_doc = params.at("textDocument");
+    std::string doc_uri = text_doc.at("uri").get<std::string>();
 
-    auto version = text_doc["version"].get<nlohmann::json::number_unsigned_t>();
+    auto version = text_doc.at("version").get<nlohmann::json::number_unsigned_t>();
 
-    json content_changes = params["contentChanges"];
+    json content_changes = params.at("contentChanges");
 
     std::vector<parser_library::document_change> changes;
     std::vector<std::string> texts(content_changes.size());
     size_t i = 0;
     for (auto& ch : content_changes)
     {
-        texts[i] = ch["text"].get<std::string>();
+        texts[i] = ch.at("text").get<std::string>();
 
         auto range_it = ch.find("range");
         if (range_it == ch.end())
@@ -94,17 +94,17 @@ void feature_text_synchronization::on_did_change(const json&, const json& params
         }
         else
         {
-            changes.emplace_back(parse_range(ch["range"]), texts[i].c_str(), texts[i].size());
+            changes.emplace_back(parse_range(ch.at("range")), texts[i].c_str(), texts[i].size());
         }
 
         ++i;
     }
-    ws_mngr_.did_change_file(uri_to_path(doc_uri).c_str(), version, &*changes.begin(), changes.size());
+    ws_mngr_.did_change_file(uri_to_path(doc_uri).c_str(), version, changes.data(), changes.size());
 }
 
 void feature_text_synchronization::on_did_close(const json&, const json& params)
 {
-    std::string uri = params["textDocument"]["uri"].get<std::string>();
+    std::string uri = params.at("textDocument").at("uri").get<std::string>();
 
     ws_mngr_.did_close_file(uri_to_path(uri).c_str());
 }
diff --git a/language_server/src/lsp/feature_workspace_folders.cpp b/language_server/src/lsp/feature_workspace_folders.cpp
index e3067e3..b7e2303 100644
--- a/language_server/src/lsp/feature_workspace_folders.cpp
+++ b/language_server/src/lsp/feature_workspace_folders.cpp
@@ -57,7 +57,7 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
     send_configuration_request();
 
     bool ws_folders_support = false;
-    auto capabs = initialize_params["capabilities"];
+    auto capabs = initialize_params.at("capabilities");
     auto ws = capabs.find("workspace");
     if (ws != capabs.end())
     {
@@ -68,7 +68,7 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
 
     if (ws_folders_support)
     {
-        add_workspaces(initialize_params["workspaceFolders"]);
+        add_workspaces(initialize_params.at("workspaceFolders"));
         return;
     }
 
@@ -92,8 +92,8 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
 
 void feature_workspace_folders::on_did_change_workspace_folders(const json&, const json& params)
 {
-    const auto& added = params["event"]["added"];
-    const auto& removed = params["event"]["removed"];
+    const auto& added = params.at("event").at("added");
+    const auto& removed = params.at("event").at("removed");
 
     remove_workspaces(removed);
     add_workspaces(added);
@@ -103,8 +103,8 @@ void feature_workspace_folders::add_workspaces(const json& added)
 {
     for (auto& it : added)
     {
-        const std::string& name = it["name"].get<std::string>();
-        std::string uri = it["uri"].get<std::string>();
+        const std::string& name = it.at("name").get<std::string>();
+        std::string uri = it.at("uri").get<std::string>();
 
         add_workspace(name, uri_to_path(uri));
     }
@@ -113,7 +113,7 @@ void feature_workspace_folders::remove_workspaces(const json& removed)
 {
     for (auto ws : removed)
     {
-        std::string uri = ws["uri"].get<std::string>();
+        std::string uri = ws.at("uri").get<std::string>();
 
         ws_mngr_.remove_workspace(uri_to_path(uri).c_str());
     }
@@ -125,13 +125,13 @@ void feature_workspace_folders::add_workspace(const std::string& name, const std
 
 void feature_workspace_folders::did_change_watched_files(const json&, const json& params)
 {
-    std::vector<json> changes = params["changes"];
+    std::vector<json> changes = params.at("changes");
     std::vector<std::string> paths;
     for (auto& change : changes)
     {
         try
         {
-            paths.push_back(uri_to_path(change["uri"].get<std::string>()));
+            paths.push_back(uri_to_path(change.at("uri").get<std::string>()));
         }
         catch (const std::system_error& e)
         {
-- 
2.43.0


From 350ebd96a645ad1c5adcb1be844845ace7ca6bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 43/89] fix: a malformed textDocument message does not end the
 server

---
 language_server/src/request_manager.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index 10f04bd..9f49580 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -143,11 +143,15 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
     constexpr const char* didChange = "textDocument/didChange";
 
     auto found = r.find("method");
-    if (found == r.end())
+    if (found == r.end() || !found->is_string())
         return "";
-    auto method = r["method"].get<std::string>();
+    auto method = found->get<std::string>();
     if (method.substr(0, 12) == "textDocument")
     {
+        // malformed messages do not concern any file
+        static const json::json_pointer uri_path("/params/textDocument/uri");
+        if (!r.contains(uri_path) || !r.at(uri_path).is_string())
+            return "";
         if (is_parsing_required)
         {
             if (method == didOpen || method == didChange)
@@ -155,7 +159,7 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
             else
                 *is_parsing_required = false;
         }
-        return r["params"]["textDocument"]["uri"].get<std::string>();
+        return r.at(uri_path).get<std::string>();
     }
     return std::string();
 }
\ No newline at end of file
-- 
2.43.0


From a0f71de8cccee3758ebfff5aa8f0bfab23fd0edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 44/89] fix: malformed responses are refused, requests without
 params are served

---
 language_server/src/lsp/lsp_server.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/language_server/src/lsp/lsp_server.cpp b/language_server/src/lsp/lsp_server.cpp
index 785d99c..c73eadb 100644
--- a/language_server/src/lsp/lsp_server.cpp
+++ b/language_server/src/lsp/lsp_server.cpp
@@ -65,7 +65,14 @@ void server::message_received(const json& message)
 
         method handler = handler_found->second;
         request_handlers_.erase(handler_found);
-        handler(id_found.value(), result_found.value());
+        try
+        {
+            handler(id_found.value(), result_found.value());
+        }
+        catch (const std::exception& e)
+        {
+            LOG_ERROR(e.what());
+        }
         return;
     }
     else if (error_result_found != message.end())
@@ -74,6 +81,8 @@ void server::message_received(const json& message)
         std::string warn_message;
         if (message_found != error_result_found->end())
             warn_message = message_found->dump();
+        else if (id_found == message.end())
+            warn_message = "An error response with no id field received.";
         else
             warn_message = "Request with id " + id_found->dump() + " returned with unspecified error.";
         LOG_WARNING(warn_message);
@@ -83,23 +92,25 @@ void server::message_received(const json& message)
     auto params_found = message.find("params");
     auto method_found = message.find("method");
 
-    if (params_found == message.end() || method_found == message.end())
+    if (method_found == message.end())
     {
-        LOG_WARNING("Method or params missing from received request or notification");
+        LOG_WARNING("Method missing from received request or notification");
         return;
     }
+    // params may be omitted
+    const json params = params_found == message.end() ? json() : params_found.value();
 
     try
     {
         if (id_found == message.end())
         {
             // notification
-            call_method(method_found.value().get<std::string>(), "", params_found.value());
+            call_method(method_found.value().get<std::string>(), "", params);
         }
         else
         {
             // method
-            call_method(method_found.value().get<std::string>(), id_found.value(), params_found.value());
+            call_method(method_found.value().get<std::string>(), id_found.value(), params);
         }
     }
     catch (const std::exception& e)
-- 
2.43.0


From 85229fef89083166301ab02a7533fbb096e1704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 45/89] fix: completion in an empty last line and behind the
 end of the text is answered

---
 parser_library/src/lsp/text_data_ref_t.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/lsp/text_data_ref_t.cpp b/parser_library/src/lsp/text_data_ref_t.cpp
index 4625d03..2f7d5b0 100644
--- a/parser_library/src/lsp/text_data_ref_t.cpp
+++ b/parser_library/src/lsp/text_data_ref_t.cpp
@@ -29,7 +29,7 @@ std::string_view text_data_ref_t::get_line(size_t line) const
         return "";
     size_t line_end_i = (line < line_indices.size() - 1) ? line_indices[line + 1] : text->size();
     size_t line_len = line_end_i - line_indices[line];
-    return { &text->at(line_indices[line]), line_len };
+    return std::string_view(*text).substr(line_indices[line], line_len);
 }
 
 std::string_view text_data_ref_t::get_line_beginning(position pos) const
@@ -38,7 +38,7 @@ std::string_view text_data_ref_t::get_line_beginning(position pos) const
         return "";
     size_t line_end_i = workspaces::file_impl::index_from_position(*text, line_indices, pos);
     size_t line_len = line_end_i - line_indices[pos.line];
-    return { &text->at(line_indices[pos.line]), line_len };
+    return std::string_view(*text).substr(line_indices[pos.line], line_len);
 }
 
 
@@ -48,7 +48,7 @@ char text_data_ref_t::get_character_before(position pos) const
     if (pos.column == 0)
         return '\0';
     size_t index = workspaces::file_impl::index_from_position(*text, line_indices, { pos.line, pos.column - 1 });
-    return text->at(index);
+    return index < text->size() ? text->at(index) : '\0';
 }
 
 std::string_view text_data_ref_t::get_range_content(range r) const
-- 
2.43.0


From 5fa8da5dc5588580c23993d64d867720672f10a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 46/89] fix: the server ends after exit with the right code and
 serves what it received before

---
 language_server/src/dispatcher.cpp       | 19 +++----------
 language_server/src/json_queue_channel.h |  3 +-
 language_server/src/main.cpp             | 35 +++++++++++++++---------
 language_server/src/server.h             |  6 ++--
 4 files changed, 32 insertions(+), 31 deletions(-)

diff --git a/language_server/src/dispatcher.cpp b/language_server/src/dispatcher.cpp
index 81a0665..3639233 100644
--- a/language_server/src/dispatcher.cpp
+++ b/language_server/src/dispatcher.cpp
@@ -31,33 +31,22 @@ void dispatcher::reply(const json& message) { channel.write(message); }
 
 int dispatcher::run_server_loop()
 {
-    int ret = 0;
     for (;;)
     {
         auto message = channel.read();
         if (!message.has_value())
-        {
-            ret = 1;
             break;
-        }
 
         req_mngr_.add_request(&server_, std::move(message).value());
 
-        // If exit notification came without prior shutdown request, return error 1.
         if (server_.is_exit_notification_received())
-        {
-            if (server_.is_shutdown_request_received())
-                break;
-            else
-            {
-                ret = 1;
-                break;
-            }
-        }
+            break;
     }
 
     req_mngr_.finish_server_requests(&server_);
-    return ret;
+
+    // If exit notification did not come or came without prior shutdown request, return error 1.
+    return server_.is_exit_notification_received() && server_.is_shutdown_request_received() ? 0 : 1;
 }
 
 } // namespace hlasm_plugin::language_server
diff --git a/language_server/src/json_queue_channel.h b/language_server/src/json_queue_channel.h
index 4d42cdd..8830207 100644
--- a/language_server/src/json_queue_channel.h
+++ b/language_server/src/json_queue_channel.h
@@ -22,7 +22,8 @@
 namespace hlasm_plugin::language_server {
 class json_queue_channel final : public json_channel
 {
-    blocking_queue<nlohmann::json> queue;
+    // messages received before the end of input are processed
+    blocking_queue<nlohmann::json, blocking_queue_termination_policy::process_elements> queue;
 
 public:
     std::optional<nlohmann::json> read() override;
diff --git a/language_server/src/main.cpp b/language_server/src/main.cpp
index ae98ac0..2cae3c8 100644
--- a/language_server/src/main.cpp
+++ b/language_server/src/main.cpp
@@ -101,22 +101,31 @@ int main(int argc, char** argv)
     {
         int ret = 0;
 
-        main_program pgm(io_setup->get_response_stream(), ret);
-
-        for (auto& source = io_setup->get_request_stream();;)
         {
-            auto msg = source.read();
-
-            if (!msg.has_value())
-                break;
+            // the return code is known when the program ends
+            main_program pgm(io_setup->get_response_stream(), ret);
 
-            try
-            {
-                pgm.write(msg.value());
-            }
-            catch (const nlohmann::json::exception&)
+            for (auto& source = io_setup->get_request_stream();;)
             {
-                LOG_WARNING("Could not parse received JSON: " + msg.value());
+                auto msg = source.read();
+
+                if (!msg.has_value())
+                    break;
+
+                const auto method = msg->find("method");
+                const bool exit_received = method != msg->end() && *method == "exit";
+
+                try
+                {
+                    pgm.write(msg.value());
+                }
+                catch (const nlohmann::json::exception&)
+                {
+                    LOG_WARNING("Could not parse received JSON: " + msg.value());
+                }
+
+                if (exit_received)
+                    break;
             }
         }
 
diff --git a/language_server/src/server.h b/language_server/src/server.h
index b1d8146..fa79f30 100644
--- a/language_server/src/server.h
+++ b/language_server/src/server.h
@@ -15,6 +15,7 @@
 #ifndef HLASMPLUGIN_LANGUAGESERVER_SERVER
 #define HLASMPLUGIN_LANGUAGESERVER_SERVER
 
+#include <atomic>
 #include <unordered_set>
 
 #include "common_types.h"
@@ -60,8 +61,9 @@ protected:
     std::map<std::string, method> methods_;
     std::unordered_map<json, method> request_handlers_;
 
-    bool shutdown_request_received_ = false;
-    bool exit_notification_received_ = false;
+    // written by the thread that handles requests, read by the one that receives them
+    std::atomic<bool> shutdown_request_received_ = false;
+    std::atomic<bool> exit_notification_received_ = false;
 
     parser_library::workspace_manager& ws_mngr_;
 
-- 
2.43.0


From 87c63e2dd50f1bc1e4533d500ad8cc2da65d59af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:05 +0000
Subject: [PATCH 47/89] fix: tracer requests before launch, after the end, and
 a disconnect while stopping are safe

---
 parser_library/src/debugging/debugger.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index e89d7cb..45010fc 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -90,12 +90,14 @@ class debugger::impl final : public processing::statement_analyzer
     std::atomic<bool> stop_on_next_stmt_ = false;
     std::atomic<bool> step_over_ = false;
     size_t step_over_depth_ = 0;
+    // Depth of the processing stack at the last stop.
+    size_t stop_depth_ = 0;
 
     // Range of statement that is about to be processed by analyzer.
     range next_stmt_range_;
 
     // True, if disconnect request was received
-    bool disconnected_ = false;
+    std::atomic<bool> disconnected_ = false;
 
     // Cancellation token for parsing
     std::atomic<bool> cancel_ = false;
@@ -127,7 +129,8 @@ public:
     void launch(
         std::string_view source, workspaces::workspace& workspace, bool stop_on_entry, parse_lib_provider* lib_provider)
     {
-        // TODO: check if already running???
+        if (thread_.joinable())
+            return; // already launched
         auto open_code = workspace.get_processor_file(std::string(source));
         opencode_source_path_ = open_code->get_file_name();
         stop_on_next_stmt_ = stop_on_entry;
@@ -193,9 +196,13 @@ public:
 
             std::unique_lock<std::mutex> lck(control_mtx);
             if (disconnected_)
+            {
+                variable_mtx_.lock();
                 return;
+            }
             stop_on_next_stmt_ = false;
             step_over_ = false;
+            stop_depth_ = proc_stack_.size();
             next_stmt_range_ = stmt_range;
 
             continue_ = false;
@@ -214,7 +221,7 @@ public:
         {
             std::lock_guard<std::mutex> lck(control_mtx);
             step_over_ = true;
-            step_over_depth_ = ctx_->processing_stack().size();
+            step_over_depth_ = stop_depth_;
             continue_ = true;
         }
         con_var.notify_all();
@@ -249,8 +256,11 @@ public:
 
     void continue_debug()
     {
-        stop_on_next_stmt_ = false;
-        continue_ = true;
+        {
+            std::lock_guard<std::mutex> lck(control_mtx);
+            stop_on_next_stmt_ = false;
+            continue_ = true;
+        }
         con_var.notify_all();
     }
 
-- 
2.43.0


From e930523b44b1f9e8d6a0870c338cfefca1f9f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:49 +0000
Subject: [PATCH 48/89] fix: subtracting a relocatable value and addresses
 behind storage of later known size have the right sign

---
 .../src/context/ordinary_assembly/address.cpp | 20 ++++++++++---------
 .../src/context/ordinary_assembly/symbol.cpp  |  2 +-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/address.cpp b/parser_library/src/context/ordinary_assembly/address.cpp
index 12f60c5..7b1588b 100644
--- a/parser_library/src/context/ordinary_assembly/address.cpp
+++ b/parser_library/src/context/ordinary_assembly/address.cpp
@@ -128,7 +128,7 @@ int get_space_offset(space_ptr sp)
     {
         offset += sp->resolved_length;
         for (const auto& s : sp->resolved_ptrs)
-            offset += get_space_offset(s.first);
+            offset += s.second * get_space_offset(s.first);
     }
     return offset;
 }
@@ -137,7 +137,7 @@ int address::offset() const
 {
     int offs = offset_;
     for (const auto& s : spaces_)
-        offs += get_space_offset(s.first);
+        offs += s.second * get_space_offset(s.first);
     return offs;
 }
 
@@ -158,18 +158,20 @@ void insert(const address::space_entry& sp,
 
 int get_unresolved_spaces(const std::vector<address::space_entry>& spaces,
     std::unordered_map<space_ptr, size_t>& normalized_map,
-    std::vector<address::space_entry>& normalized_spaces)
+    std::vector<address::space_entry>& normalized_spaces,
+    int multiplier = 1)
 {
     int offset = 0;
-    for (const auto& sp : spaces)
+    for (const auto& [sp, count] : spaces)
     {
-        if (sp.first->resolved())
+        if (sp->resolved())
         {
-            offset += sp.first->resolved_length;
-            offset += get_unresolved_spaces(sp.first->resolved_ptrs, normalized_map, normalized_spaces);
+            offset += multiplier * count * sp->resolved_length;
+            offset +=
+                get_unresolved_spaces(sp->resolved_ptrs, normalized_map, normalized_spaces, multiplier * count);
         }
         else
-            insert(sp, normalized_map, normalized_spaces);
+            insert({ sp, multiplier * count }, normalized_map, normalized_spaces);
     }
 
     return offset;
@@ -241,7 +243,7 @@ std::vector<T> merge_entries(const std::vector<T>& lhs, const std::vector<T>& rh
             if (operation == op::ADD)
                 count = (*it)->second + entry.second;
             else
-                count = (*it)->second - entry.second;
+                count = entry.second - (*it)->second;
 
             if (count != 0)
                 res.emplace_back(entry.first, count);
diff --git a/parser_library/src/context/ordinary_assembly/symbol.cpp b/parser_library/src/context/ordinary_assembly/symbol.cpp
index 79bc33f..aaf236c 100644
--- a/parser_library/src/context/ordinary_assembly/symbol.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol.cpp
@@ -72,7 +72,7 @@ symbol_value symbol_value::operator-(const symbol_value& value) const
         if (value.value_kind() == symbol_value_kind::ABS)
             return get_abs() - value.get_abs();
         else
-            return value.get_reloc() - get_abs();
+            return -value.get_reloc() + get_abs();
     }
     else if (value_kind() == symbol_value_kind::RELOC)
     {
-- 
2.43.0


From 508a92d75b7a6983651db0eefe011589f4143566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:50 +0000
Subject: [PATCH 49/89] fix: errors in expressions of EQU, DC and DS are
 reported

---
 .../src/expressions/data_definition.cpp       | 23 ++++++++++++++++++-
 .../src/expressions/mach_expr_term.cpp        |  3 ++-
 .../src/expressions/mach_operator.h           |  4 ++--
 .../instruction_sets/asm_processor.cpp        | 21 +++++++++++++----
 4 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/parser_library/src/expressions/data_definition.cpp b/parser_library/src/expressions/data_definition.cpp
index f3db8ed..0df5151 100644
--- a/parser_library/src/expressions/data_definition.cpp
+++ b/parser_library/src/expressions/data_definition.cpp
@@ -253,7 +253,28 @@ void data_definition::assign_location_counter(context::address loctr_value)
     }
 }
 
-void data_definition::collect_diags() const {}
+void data_definition::collect_diags() const
+{
+    for (const auto* e : { &dupl_factor, &program_type, &length, &scale, &exponent })
+        if (*e)
+            collect_diags_from_child(**e);
+
+    if (!nominal_value || !nominal_value->access_exprs())
+        return;
+
+    for (const auto& e_or_a : nominal_value->access_exprs()->exprs)
+    {
+        if (std::holds_alternative<expressions::mach_expr_ptr>(e_or_a))
+            collect_diags_from_child(*std::get<expressions::mach_expr_ptr>(e_or_a));
+        else
+        {
+            const auto& a = std::get<expressions::address_nominal>(e_or_a);
+            for (const auto* e : { &a.displacement, &a.base })
+                if (*e)
+                    collect_diags_from_child(**e);
+        }
+    }
+}
 
 checking::data_def_field<int32_t> set_data_def_field(
     const expressions::mach_expression* e, expressions::mach_evaluate_info info)
diff --git a/parser_library/src/expressions/mach_expr_term.cpp b/parser_library/src/expressions/mach_expr_term.cpp
index 98d4d45..7916f38 100644
--- a/parser_library/src/expressions/mach_expr_term.cpp
+++ b/parser_library/src/expressions/mach_expr_term.cpp
@@ -183,7 +183,8 @@ mach_expression::value_t mach_expr_data_attr::evaluate(mach_evaluate_info info)
     else if ((attribute == context::data_attr_kind::S || attribute == context::data_attr_kind::I)
         && !symbol->attributes().can_have_SI_attr())
     {
-        add_diagnostic(diagnostic_op::warning_W011(get_range()));
+        if (diags().empty())
+            add_diagnostic(diagnostic_op::warning_W011(get_range()));
         return 0;
     }
     else if (symbol->attributes().is_defined(attribute))
diff --git a/parser_library/src/expressions/mach_operator.h b/parser_library/src/expressions/mach_operator.h
index 688c668..28343c5 100644
--- a/parser_library/src/expressions/mach_operator.h
+++ b/parser_library/src/expressions/mach_operator.h
@@ -147,7 +147,7 @@ inline mach_expression::value_t mach_expr_binary<mul>::evaluate(mach_evaluate_in
     if (!(left_res.value_kind() == context::symbol_value_kind::ABS
             && right_res.value_kind() == context::symbol_value_kind::ABS)
         && left_res.value_kind() != context::symbol_value_kind::UNDEF
-        && right_res.value_kind() != context::symbol_value_kind::UNDEF)
+        && right_res.value_kind() != context::symbol_value_kind::UNDEF && diags().empty())
         add_diagnostic(diagnostic_op::error_ME002(get_range()));
 
 
@@ -163,7 +163,7 @@ inline mach_expression::value_t mach_expr_binary<div>::evaluate(mach_evaluate_in
     if (!(left_res.value_kind() == context::symbol_value_kind::ABS
             && right_res.value_kind() == context::symbol_value_kind::ABS)
         && left_res.value_kind() != context::symbol_value_kind::UNDEF
-        && right_res.value_kind() != context::symbol_value_kind::UNDEF)
+        && right_res.value_kind() != context::symbol_value_kind::UNDEF && diags().empty())
         add_diagnostic(diagnostic_op::error_ME002(get_range()));
 
     return left_res / right_res;
diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index a49fcbf..923a7ed 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -144,6 +144,7 @@ void asm_processor::process_EQU(rebuilt_statement stmt)
             }
 
             context::symbol_attributes attrs(context::symbol_origin::EQU, t_attr, length_attr);
+            bool resolved = true;
 
             if (!holder.contains_dependencies())
             {
@@ -154,21 +155,33 @@ void asm_processor::process_EQU(rebuilt_statement stmt)
             {
                 if (!holder.is_address() || !holder.undefined_attr_refs.empty() || !holder.unresolved_spaces.empty())
                 {
+                    resolved = false;
                     bool cycle_ok = create_symbol(stmt.stmt_range_ref(), symbol_name, context::symbol_value(), attrs);
 
                     if (cycle_ok)
                     {
-                        const auto& stmt_range = stmt.stmt_range_ref();
-                        add_dependency(stmt_range,
-                            symbol_name,
-                            &*expr_op->expression,
+                        const auto stmt_range = stmt.stmt_range_ref();
+                        auto adder = hlasm_ctx.ord_ctx.symbol_dependencies.add_dependencies(
                             std::make_unique<postponed_statement_impl>(std::move(stmt), hlasm_ctx.processing_stack()));
+                        if (adder.add_dependency(symbol_name, &*expr_op->expression))
+                            adder.add_dependency(); // the statement is checked when everything is resolved
+                        else
+                            add_diagnostic(diagnostic_op::error_E033(stmt_range));
+                        adder.finish();
                     }
                 }
                 else
                     create_symbol(
                         stmt.stmt_range_ref(), symbol_name, expr_op->expression->resolve(hlasm_ctx.ord_ctx), attrs);
             }
+
+            if (resolved)
+            {
+                expr_op->expression->collect_diags();
+                for (auto& diag : expr_op->expression->diags())
+                    add_diagnostic(std::move(diag));
+                expr_op->expression->diags().clear();
+            }
         }
     }
 }
-- 
2.43.0


From ab1e63d848d9a9f7a698a2ab3af416c98d53b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:59 +0000
Subject: [PATCH 50/89] fix: the single parameter of an address operand is
 checked by its value

---
 parser_library/src/checking/instr_operand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/checking/instr_operand.cpp b/parser_library/src/checking/instr_operand.cpp
index 0012e4e..dff7a2a 100644
--- a/parser_library/src/checking/instr_operand.cpp
+++ b/parser_library/src/checking/instr_operand.cpp
@@ -172,14 +172,14 @@ bool address_operand::check(diagnostic_op& diag,
 
                 // length parameters can have +1 values specified
                 if (to_check.first.type == machine_operand_type::LENGTH
-                    && !is_length_corresponding(first_op, to_check.first.size))
+                    && !is_length_corresponding(actual_val, to_check.first.size))
                 {
                     diag = get_first_parameter_error(
                         to_check.first.type, instr_name, 0, 1ll << to_check.first.size, stmt_range);
                     return false;
                 }
                 if (to_check.first.type != machine_operand_type::LENGTH
-                    && !is_operand_corresponding(first_op, to_check.first))
+                    && !is_operand_corresponding(actual_val, to_check.first))
                 {
                     assert(!to_check.first.is_signed);
                     diag = get_first_parameter_error(
-- 
2.43.0


From 60222a1211f77252aed85507367017005d6558e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:59 +0000
Subject: [PATCH 51/89] fix: extended mnemonics of instructions with optional
 operands accept them

---
 .../low_language_processor.cpp                | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/low_language_processor.cpp b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
index fb01e4f..9e19d11 100644
--- a/parser_library/src/processing/instruction_sets/low_language_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
@@ -14,6 +14,7 @@
 
 #include "low_language_processor.h"
 
+#include <algorithm>
 #include <optional>
 
 #include "processing/context_manager.h"
@@ -204,14 +205,17 @@ low_language_processor::transform_result low_language_processor::transform_mnemo
 
     // check whether substituted mnemonic values are ok
 
-    // check size of mnemonic operands
-    int diff = (int)curr_instr->operands.size() - (int)operands.size() - (int)mnemonic.replaced.size();
-    if (std::abs(diff) > curr_instr->no_optional)
+    // check size of mnemonic operands, only operands that are not substituted are written
+    int max_operands = (int)curr_instr->operands.size() - (int)mnemonic.replaced.size();
+    int optional_operands = curr_instr->no_optional
+        - (int)std::count_if(mnemonic.replaced.begin(), mnemonic.replaced.end(), [curr_instr](const auto& r) {
+              return r.first + curr_instr->no_optional >= curr_instr->operands.size();
+          });
+    int diff = max_operands - (int)operands.size();
+    if (diff < 0 || diff > optional_operands)
     {
-        auto curr_diag = diagnostic_op::error_optional_number_of_operands(instr_name,
-            curr_instr->no_optional,
-            (int)curr_instr->operands.size() - (int)mnemonic.replaced.size(),
-            stmt.stmt_range_ref());
+        auto curr_diag = diagnostic_op::error_optional_number_of_operands(
+            instr_name, optional_operands, max_operands, stmt.stmt_range_ref());
 
         add_diagnostic(curr_diag);
         return std::nullopt;
@@ -223,7 +227,7 @@ low_language_processor::transform_result low_language_processor::transform_mnemo
 
     std::vector<checking::check_op_ptr> operand_vector;
     // create vector of empty operands
-    for (size_t i = 0; i < curr_instr->operands.size() + curr_instr->no_optional; i++)
+    for (size_t i = 0; i < curr_instr->operands.size(); i++)
         operand_vector.push_back(nullptr);
     // add substituted
     for (size_t i = 0; i < mnemonic.replaced.size(); i++)
@@ -251,6 +255,10 @@ low_language_processor::transform_result low_language_processor::transform_mnemo
             }
         }
     }
+    // omitted optional operands
+    while (!operand_vector.empty() && !operand_vector.back())
+        operand_vector.pop_back();
+
     return operand_vector;
 }
 
-- 
2.43.0


From f018c50bbcd4e4d2ca651f9f66870f0d906558ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:59 +0000
Subject: [PATCH 52/89] fix: unsigned immediates, long displacements, relative
 operands and mnemonic positions of the instruction table

---
 parser_library/src/context/instruction.cpp | 120 ++++++++++-----------
 1 file changed, 60 insertions(+), 60 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index 2280b1d..5924e8a 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -451,7 +451,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "CLFI", mach_format::RIL_a, { reg_4_U, imm_32_S }, 636);
     add_machine_instr(result, "CLGFI", mach_format::RIL_a, { reg_4_U, imm_32_S }, 636);
     add_machine_instr(result, "CLI", mach_format::SI, { db_12_4_U, imm_8_U }, 636);
-    add_machine_instr(result, "CLIY", mach_format::SIY, { db_12_4_U, imm_8_U }, 636);
+    add_machine_instr(result, "CLIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 636);
     add_machine_instr(result, "CLFHSI", mach_format::SIL, { db_12_4_U, imm_16_U }, 636);
     add_machine_instr(result, "CLGHSI", mach_format::SIL, { db_12_4_U, imm_16_U }, 636);
     add_machine_instr(result, "CLHHSI", mach_format::SIL, { db_12_4_U, imm_16_U }, 636);
@@ -464,16 +464,16 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "CLGRB", mach_format::RRS, { reg_4_U, reg_4_U, mask_4_U, db_12_4_U }, 638);
     add_machine_instr(result, "CLRJ", mach_format::RIE_b, { reg_4_U, reg_4_U, mask_4_U, reg_imm_16_S }, 638);
     add_machine_instr(result, "CLGRJ", mach_format::RIE_b, { reg_4_U, reg_4_U, mask_4_U, reg_imm_16_S }, 638);
-    add_machine_instr(result, "CLIB", mach_format::RIS, { reg_4_U, imm_8_S, mask_4_U, db_12_4_U }, 638);
-    add_machine_instr(result, "CLGIB", mach_format::RIS, { reg_4_U, imm_8_S, mask_4_U, db_12_4_U }, 638);
-    add_machine_instr(result, "CLIJ", mach_format::RIE_c, { reg_4_U, imm_8_S, mask_4_U, reg_imm_16_S }, 638);
-    add_machine_instr(result, "CLGIJ", mach_format::RIE_c, { reg_4_U, imm_8_S, mask_4_U, reg_imm_16_S }, 638);
+    add_machine_instr(result, "CLIB", mach_format::RIS, { reg_4_U, imm_8_U, mask_4_U, db_12_4_U }, 638);
+    add_machine_instr(result, "CLGIB", mach_format::RIS, { reg_4_U, imm_8_U, mask_4_U, db_12_4_U }, 638);
+    add_machine_instr(result, "CLIJ", mach_format::RIE_c, { reg_4_U, imm_8_U, mask_4_U, reg_imm_16_S }, 638);
+    add_machine_instr(result, "CLGIJ", mach_format::RIE_c, { reg_4_U, imm_8_U, mask_4_U, reg_imm_16_S }, 638);
     add_machine_instr(result, "CLRT", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 639);
     add_machine_instr(result, "CLGRT", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 639);
     add_machine_instr(result, "CLT", mach_format::RSY_b, { reg_4_U, mask_4_U, dxb_20_4x4_S }, 639);
     add_machine_instr(result, "CLGT", mach_format::RSY_b, { reg_4_U, mask_4_U, dxb_20_4x4_S }, 639);
-    add_machine_instr(result, "CLFIT", mach_format::RIE_a, { reg_4_U, imm_16_S, mask_4_U }, 640);
-    add_machine_instr(result, "CLGIT", mach_format::RIE_a, { reg_4_U, imm_16_S, mask_4_U }, 640);
+    add_machine_instr(result, "CLFIT", mach_format::RIE_a, { reg_4_U, imm_16_U, mask_4_U }, 640);
+    add_machine_instr(result, "CLGIT", mach_format::RIE_a, { reg_4_U, imm_16_U, mask_4_U }, 640);
     add_machine_instr(result, "CLM", mach_format::RS_b, { reg_4_U, mask_4_U, db_12_4_U }, 641);
     add_machine_instr(result, "CLMY", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 641);
     add_machine_instr(result, "CLMH", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 641);
@@ -534,13 +534,13 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "X", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 738);
     add_machine_instr(result, "XY", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 738);
     add_machine_instr(result, "XG", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 738);
-    add_machine_instr(result, "XI", mach_format::SI, { db_12_4_U, imm_8_S }, 739);
-    add_machine_instr(result, "XIY", mach_format::SIY, { db_20_4_S, imm_8_S }, 739);
+    add_machine_instr(result, "XI", mach_format::SI, { db_12_4_U, imm_8_U }, 739);
+    add_machine_instr(result, "XIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 739);
     add_machine_instr(result, "XC", mach_format::SS_a, { db_12_8x4L_U, db_20_4_S }, 739);
     add_machine_instr(result, "EX", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 740);
     add_machine_instr(result, "XIHF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 740);
     add_machine_instr(result, "XILF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 740);
-    add_machine_instr(result, "EXRL", mach_format::RIL_b, { reg_4_U, imm_32_S }, 740);
+    add_machine_instr(result, "EXRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 740);
     add_machine_instr(result, "EAR", mach_format::RRE, { reg_4_U, reg_4_U }, 741);
     add_machine_instr(result, "ECAG", mach_format::RSY_a, { reg_4_U, reg_4_U, db_20_4_S }, 741);
     add_machine_instr(result, "ECTG", mach_format::SSF, { db_12_4_U, db_12_4_U, reg_4_U }, 744);
@@ -616,8 +616,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "LGH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 760);
     add_machine_instr(result, "LHI", mach_format::RI_a, { reg_4_U, imm_16_S }, 760);
     add_machine_instr(result, "LGHI", mach_format::RI_a, { reg_4_U, imm_16_S }, 760);
-    add_machine_instr(result, "LHRL", mach_format::RIL_b, { reg_4_U, imm_32_S }, 760);
-    add_machine_instr(result, "LGHRL", mach_format::RIL_b, { reg_4_U, imm_32_S }, 760);
+    add_machine_instr(result, "LHRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 760);
+    add_machine_instr(result, "LGHRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 760);
     add_machine_instr(result, "LHH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 761);
     add_machine_instr(result, "LOCHI", mach_format::RIE_g, { reg_4_U, imm_16_S, mask_4_U }, 761);
     add_machine_instr(result, "LOCGHI", mach_format::RIE_g, { reg_4_U, imm_16_S, mask_4_U }, 761);
@@ -642,11 +642,11 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "LLGHRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 764);
     add_machine_instr(result, "LLHH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 765);
     add_machine_instr(result, "LLIHF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 765);
-    add_machine_instr(result, "LLIHH", mach_format::RI_a, { reg_4_U, imm_16_S }, 765);
-    add_machine_instr(result, "LLIHL", mach_format::RI_a, { reg_4_U, imm_16_S }, 765);
+    add_machine_instr(result, "LLIHH", mach_format::RI_a, { reg_4_U, imm_16_U }, 765);
+    add_machine_instr(result, "LLIHL", mach_format::RI_a, { reg_4_U, imm_16_U }, 765);
     add_machine_instr(result, "LLILF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 765);
-    add_machine_instr(result, "LLILH", mach_format::RI_a, { reg_4_U, imm_16_S }, 765);
-    add_machine_instr(result, "LLILL", mach_format::RI_a, { reg_4_U, imm_16_S }, 765);
+    add_machine_instr(result, "LLILH", mach_format::RI_a, { reg_4_U, imm_16_U }, 765);
+    add_machine_instr(result, "LLILL", mach_format::RI_a, { reg_4_U, imm_16_U }, 765);
     add_machine_instr(result, "LLGTR", mach_format::RRE, { reg_4_U, reg_4_U }, 765);
     add_machine_instr(result, "LLGT", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 766);
     add_machine_instr(result, "LLGTAT", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 766);
@@ -675,14 +675,14 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "LRVH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 771);
     add_machine_instr(result, "LRV", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 771);
     add_machine_instr(result, "LRVG", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 771);
-    add_machine_instr(result, "MC", mach_format::SI, { db_12_4_U, imm_8_S }, 772);
+    add_machine_instr(result, "MC", mach_format::SI, { db_12_4_U, imm_8_U }, 772);
     add_machine_instr(result, "MVC", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 773);
     add_machine_instr(result, "MVCRL", mach_format::SSE, { db_12_4_U, db_12_4_U }, 788);
     add_machine_instr(result, "MVHHI", mach_format::SIL, { db_12_4_U, imm_16_S }, 773);
     add_machine_instr(result, "MVHI", mach_format::SIL, { db_12_4_U, imm_16_S }, 773);
     add_machine_instr(result, "MVGHI", mach_format::SIL, { db_12_4_U, imm_16_S }, 773);
     add_machine_instr(result, "MVI", mach_format::SI, { db_12_4_U, imm_8_U }, 773);
-    add_machine_instr(result, "MVIY", mach_format::SIY, { db_12_4_U, imm_8_U }, 773);
+    add_machine_instr(result, "MVIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 773);
     add_machine_instr(result, "MVCIN", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 774);
     add_machine_instr(result, "MVCL", mach_format::RR, { reg_4_U, reg_4_U }, 774);
     add_machine_instr(result, "MVCLE", mach_format::RS_a, { reg_4_U, reg_4_U, db_12_4_U }, 778);
@@ -741,11 +741,11 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "OIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 795);
     add_machine_instr(result, "OC", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 795);
     add_machine_instr(result, "OIHF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 796);
-    add_machine_instr(result, "OIHH", mach_format::RI_a, { reg_4_U, imm_16_S }, 796);
-    add_machine_instr(result, "OIHL", mach_format::RI_a, { reg_4_U, imm_16_S }, 796);
+    add_machine_instr(result, "OIHH", mach_format::RI_a, { reg_4_U, imm_16_U }, 796);
+    add_machine_instr(result, "OIHL", mach_format::RI_a, { reg_4_U, imm_16_U }, 796);
     add_machine_instr(result, "OILF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 796);
-    add_machine_instr(result, "OILH", mach_format::RI_a, { reg_4_U, imm_16_S }, 796);
-    add_machine_instr(result, "OILL", mach_format::RI_a, { reg_4_U, imm_16_S }, 796);
+    add_machine_instr(result, "OILH", mach_format::RI_a, { reg_4_U, imm_16_U }, 796);
+    add_machine_instr(result, "OILL", mach_format::RI_a, { reg_4_U, imm_16_U }, 796);
     add_machine_instr(result, "PACK", mach_format::SS_b, { db_12_4x4L_U, db_12_4x4L_U }, 796);
     add_machine_instr(result, "PKA", mach_format::SS_f, { db_12_4_U, db_12_8x4L_U }, 797);
     add_machine_instr(result, "PKU", mach_format::SS_f, { db_12_4_U, db_12_8x4L_U }, 798);
@@ -759,20 +759,20 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "PFDRL", mach_format::RIL_c, { mask_4_U, reg_imm_32_S }, 843);
     add_machine_instr(result, "RLL", mach_format::RSY_a, { reg_4_U, reg_4_U, db_20_4_S }, 845);
     add_machine_instr(result, "RLLG", mach_format::RSY_a, { reg_4_U, reg_4_U, db_20_4_S }, 845);
-    add_machine_instr(result, "RNSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 845);
-    add_machine_instr(result, "RXSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 846);
-    add_machine_instr(result, "ROSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 846);
-    add_machine_instr(result, "RISBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 847);
-    add_machine_instr(result, "RISBGN", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 847);
-    add_machine_instr(result, "RISBHG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 848);
-    add_machine_instr(result, "RISBLG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 849);
-    add_machine_instr(result, "RNSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 845);
-    add_machine_instr(result, "RXSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 846);
-    add_machine_instr(result, "ROSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 858);
-    add_machine_instr(result, "RISBGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 858);
-    add_machine_instr(result, "RISBGNZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 860);
-    add_machine_instr(result, "RISBHGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 860);
-    add_machine_instr(result, "RISBLGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 860);
+    add_machine_instr(result, "RNSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 845);
+    add_machine_instr(result, "RXSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 846);
+    add_machine_instr(result, "ROSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 846);
+    add_machine_instr(result, "RISBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 847);
+    add_machine_instr(result, "RISBGN", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 847);
+    add_machine_instr(result, "RISBHG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 848);
+    add_machine_instr(result, "RISBLG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 849);
+    add_machine_instr(result, "RNSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 845);
+    add_machine_instr(result, "RXSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 846);
+    add_machine_instr(result, "ROSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 858);
+    add_machine_instr(result, "RISBGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 858);
+    add_machine_instr(result, "RISBGNZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 860);
+    add_machine_instr(result, "RISBHGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 860);
+    add_machine_instr(result, "RISBLGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 860);
     add_machine_instr(result, "SRST", mach_format::RRE, { reg_4_U, reg_4_U }, 850);
     add_machine_instr(result, "SRSTU", mach_format::RRE, { reg_4_U, reg_4_U }, 852);
     add_machine_instr(result, "SAR", mach_format::RRE, { reg_4_U, reg_4_U }, 854);
@@ -873,8 +873,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "TML", mach_format::RI_a, { reg_4_U, imm_16_U }, 877);
     add_machine_instr(result, "TMLL", mach_format::RI_a, { reg_4_U, imm_16_U }, 877);
     add_machine_instr(result, "TABORT", mach_format::S, { db_12_4_U }, 878);
-    add_machine_instr(result, "TBEGIN", mach_format::SIL, { db_12_4_U, imm_16_S }, 879);
-    add_machine_instr(result, "TBEGINC", mach_format::SIL, { db_12_4_U, imm_16_S }, 883);
+    add_machine_instr(result, "TBEGIN", mach_format::SIL, { db_12_4_U, imm_16_U }, 879);
+    add_machine_instr(result, "TBEGINC", mach_format::SIL, { db_12_4_U, imm_16_U }, 883);
     add_machine_instr(result, "TEND", mach_format::S, {}, 885);
     add_machine_instr(result, "TR", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 886);
     add_machine_instr(result, "TRT", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 887);
@@ -1015,8 +1015,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "STPX", mach_format::S, { db_12_4_U }, 1121);
     add_machine_instr(result, "STRAG", mach_format::SSE, { db_12_4_U, db_12_4_U }, 1121);
     add_machine_instr(result, "STSI", mach_format::S, { db_12_4_U }, 1122);
-    add_machine_instr(result, "STOSM", mach_format::SI, { db_12_4_U, imm_8_S }, 1146);
-    add_machine_instr(result, "STNSM", mach_format::SI, { db_12_4_U, imm_8_S }, 1146);
+    add_machine_instr(result, "STOSM", mach_format::SI, { db_12_4_U, imm_8_U }, 1146);
+    add_machine_instr(result, "STNSM", mach_format::SI, { db_12_4_U, imm_8_U }, 1146);
     add_machine_instr(result, "STURA", mach_format::RRE, { reg_4_U, reg_4_U }, 1147);
     add_machine_instr(result, "STURG", mach_format::RRE, { reg_4_U, reg_4_U }, 1147);
     add_machine_instr(result, "TAR", mach_format::RRE, { reg_4_U, reg_4_U }, 1147);
@@ -2029,7 +2029,7 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "SELRNL", { &i.at("SELR"), { { 3, 11 } } });
     add_mnemonic_code(result, "SELRNO", { &i.at("SELR"), { { 3, 14 } } });
     add_mnemonic_code(result, "SELRO", { &i.at("SELR"), { { 3, 1 } } });
-    add_mnemonic_code(result, "VZERO", { &i.at("VGBM"), { { 0, 1 } } });
+    add_mnemonic_code(result, "VZERO", { &i.at("VGBM"), { { 1, 0 } } });
     add_mnemonic_code(result, "VONE", { &i.at("VGBM"), { { 1, 65535 } } });
     add_mnemonic_code(result, "VGMB", { &i.at("VGM"), { { 3, 0 } } });
     add_mnemonic_code(result, "VGMH", { &i.at("VGM"), { { 3, 1 } } });
@@ -2109,8 +2109,8 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VACCF", { &i.at("VACC"), { { 3, 2 } } });
     add_mnemonic_code(result, "VACCG", { &i.at("VACC"), { { 3, 3 } } });
     add_mnemonic_code(result, "VACCQ", { &i.at("VACC"), { { 3, 4 } } });
-    add_mnemonic_code(result, "VACQ", { &i.at("VAC"), { { 3, 4 } } });
-    add_mnemonic_code(result, "VACCCQ", { &i.at("VACCC"), { { 3, 4 } } });
+    add_mnemonic_code(result, "VACQ", { &i.at("VAC"), { { 4, 4 } } });
+    add_mnemonic_code(result, "VACCCQ", { &i.at("VACCC"), { { 4, 4 } } });
     add_mnemonic_code(result, "VAVGB", { &i.at("VAVG"), { { 3, 0 } } });
     add_mnemonic_code(result, "VAVGH", { &i.at("VAVG"), { { 3, 1 } } });
     add_mnemonic_code(result, "VAVGF", { &i.at("VAVG"), { { 3, 2 } } });
@@ -2324,12 +2324,12 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VFENEZBS", { &i.at("VFENE"), { { 3, 0 }, { 4, 3 } } });
     add_mnemonic_code(result, "VFENEZHS", { &i.at("VFENE"), { { 3, 1 }, { 4, 3 } } });
     add_mnemonic_code(result, "VFENEZFS", { &i.at("VFENE"), { { 3, 2 }, { 4, 3 } } });
-    add_mnemonic_code(result, "VISTRB", { &i.at("VISTR"), { { 3, 0 } } });
-    add_mnemonic_code(result, "VISTRH", { &i.at("VISTR"), { { 3, 1 } } });
-    add_mnemonic_code(result, "VISTRF", { &i.at("VISTR"), { { 3, 2 } } });
-    add_mnemonic_code(result, "VISTRBS", { &i.at("VISTR"), { { 3, 0 }, { 4, 1 } } });
-    add_mnemonic_code(result, "VISTRHS", { &i.at("VISTR"), { { 3, 1 }, { 4, 1 } } });
-    add_mnemonic_code(result, "VISTRFS", { &i.at("VISTR"), { { 3, 2 }, { 4, 1 } } });
+    add_mnemonic_code(result, "VISTRB", { &i.at("VISTR"), { { 2, 0 } } });
+    add_mnemonic_code(result, "VISTRH", { &i.at("VISTR"), { { 2, 1 } } });
+    add_mnemonic_code(result, "VISTRF", { &i.at("VISTR"), { { 2, 2 } } });
+    add_mnemonic_code(result, "VISTRBS", { &i.at("VISTR"), { { 2, 0 }, { 3, 1 } } });
+    add_mnemonic_code(result, "VISTRHS", { &i.at("VISTR"), { { 2, 1 }, { 3, 1 } } });
+    add_mnemonic_code(result, "VISTRFS", { &i.at("VISTR"), { { 2, 2 }, { 3, 1 } } });
     add_mnemonic_code(result, "VSTRCB", { &i.at("VSTRC"), { { 4, 0 } } });
     add_mnemonic_code(result, "VSTRCH", { &i.at("VSTRC"), { { 4, 1 } } });
     add_mnemonic_code(result, "VSTRCF", { &i.at("VSTRC"), { { 4, 2 } } });
@@ -2342,12 +2342,12 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "WFASB", { &i.at("VFA"), { { 3, 2 }, { 4, 8 } } });
     add_mnemonic_code(result, "WFADB", { &i.at("VFA"), { { 3, 3 }, { 4, 8 } } });
     add_mnemonic_code(result, "WFAXB", { &i.at("VFA"), { { 3, 4 }, { 4, 8 } } });
-    add_mnemonic_code(result, "WFCSB", { &i.at("WFC"), { { 3, 2 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFCDB", { &i.at("WFC"), { { 3, 3 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFCXB", { &i.at("WFC"), { { 3, 4 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKSB", { &i.at("WFK"), { { 3, 2 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKDB", { &i.at("WFK"), { { 3, 3 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKXB", { &i.at("WFK"), { { 3, 4 }, { 4, 0 } } });
+    add_mnemonic_code(result, "WFCSB", { &i.at("WFC"), { { 2, 2 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFCDB", { &i.at("WFC"), { { 2, 3 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFCXB", { &i.at("WFC"), { { 2, 4 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKSB", { &i.at("WFK"), { { 2, 2 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKDB", { &i.at("WFK"), { { 2, 3 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKXB", { &i.at("WFK"), { { 2, 4 }, { 3, 0 } } });
     add_mnemonic_code(result, "VFCESB", { &i.at("VFCE"), { { 3, 2 }, { 4, 0 }, { 5, 0 } } });
     add_mnemonic_code(result, "VFCESBS", { &i.at("VFCE"), { { 3, 2 }, { 4, 0 }, { 5, 1 } } });
     add_mnemonic_code(result, "VFCEDB", { &i.at("VFCE"), { { 3, 3 }, { 4, 0 }, { 5, 0 } } });
@@ -2504,11 +2504,11 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "WFSQSB", { &i.at("VFSQ"), { { 2, 2 }, { 3, 8 } } });
     add_mnemonic_code(result, "WFSQDB", { &i.at("VFSQ"), { { 2, 3 }, { 3, 8 } } });
     add_mnemonic_code(result, "WFSQXB", { &i.at("VFSQ"), { { 2, 4 }, { 3, 8 } } });
-    add_mnemonic_code(result, "VFSSB", { &i.at("VFS"), { { 2, 2 }, { 3, 0 } } });
-    add_mnemonic_code(result, "VFSDB", { &i.at("VFS"), { { 2, 3 }, { 3, 0 } } });
-    add_mnemonic_code(result, "WFSSB", { &i.at("VFS"), { { 2, 2 }, { 3, 8 } } });
-    add_mnemonic_code(result, "WFSDB", { &i.at("VFS"), { { 2, 3 }, { 3, 8 } } });
-    add_mnemonic_code(result, "WFSXB", { &i.at("VFS"), { { 2, 4 }, { 3, 8 } } });
+    add_mnemonic_code(result, "VFSSB", { &i.at("VFS"), { { 3, 2 }, { 4, 0 } } });
+    add_mnemonic_code(result, "VFSDB", { &i.at("VFS"), { { 3, 3 }, { 4, 0 } } });
+    add_mnemonic_code(result, "WFSSB", { &i.at("VFS"), { { 3, 2 }, { 4, 8 } } });
+    add_mnemonic_code(result, "WFSDB", { &i.at("VFS"), { { 3, 3 }, { 4, 8 } } });
+    add_mnemonic_code(result, "WFSXB", { &i.at("VFS"), { { 3, 4 }, { 4, 8 } } });
     add_mnemonic_code(result, "VFTCISB", { &i.at("VFTCI"), { { 3, 2 }, { 4, 0 } } });
     add_mnemonic_code(result, "VFTCIDB", { &i.at("VFTCI"), { { 3, 3 }, { 4, 0 } } });
     add_mnemonic_code(result, "WFTCISB", { &i.at("VFTCI"), { { 3, 2 }, { 4, 8 } } });
-- 
2.43.0


From f254e6bdcd5a909816f1cdf9a4b372ba41939d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:27 +0000
Subject: [PATCH 53/89] fix: positions in macro operands behind an operand that
 is continued

---
 parser_library/src/semantics/range_provider.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/semantics/range_provider.cpp b/parser_library/src/semantics/range_provider.cpp
index 9cf7b02..e8c654e 100644
--- a/parser_library/src/semantics/range_provider.cpp
+++ b/parser_library/src/semantics/range_provider.cpp
@@ -92,7 +92,8 @@ position range_provider::adjust_position(position pos)
         while (true)
         {
             auto tmp_lines = orig_range.end.line - orig_range.start.line;
-            auto tmp_cols = (orig_range.end.column + 72 * tmp_lines) - orig_range.start.column;
+            // each line adds the columns between the continue and the end column
+            auto tmp_cols = (orig_range.end.column + (71 - 15) * tmp_lines) - orig_range.start.column;
 
             if (tmp_cols >= offset)
                 break;
-- 
2.43.0


From 4104ffc76c84db7060e4095b1cbb5ac6c5c3b5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:27 +0000
Subject: [PATCH 54/89] fix: a duplicate label of data with unresolved length
 and a repeated EXTRN no longer end the analysis

---
 .../instruction_sets/asm_processor.cpp        | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 923a7ed..d7de0bd 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -219,6 +219,7 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
     // process label
     auto label = find_label_symbol(stmt);
+    bool label_created = false;
 
     if (label != context::id_storage::empty_id && stmt.operands_ref().value.size()
         && stmt.operands_ref().value.front()->type != semantics::operand_type::EMPTY)
@@ -246,6 +247,7 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
             {
                 scale = value.get_scale_attribute();
             }
+            label_created = true;
             create_symbol(stmt.stmt_range_ref(),
                 label,
                 std::move(adr),
@@ -282,11 +284,8 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
         bool cycle_ok = true;
 
-        if (label != context::id_storage::empty_id)
+        if (label_created)
         {
-            if (adder.source_stmt->impl()->operands_ref().value.empty())
-                return;
-
             auto data_op = adder.source_stmt->impl()->operands_ref().value.front()->access_data_def();
 
             if (data_op->value->length
@@ -356,10 +355,15 @@ void asm_processor::process_EXTRN(rebuilt_statement stmt)
             {
                 auto sym = dynamic_cast<const expressions::mach_expr_symbol*>(expr->expression.get());
                 if (sym)
-                    create_symbol(sym->get_range(),
-                        sym->value,
-                        hlasm_ctx.ord_ctx.align(context::no_align),
-                        context::symbol_attributes::make_extrn_attrs());
+                {
+                    const auto extrn_attrs = context::symbol_attributes::make_extrn_attrs();
+                    auto defined = hlasm_ctx.ord_ctx.get_symbol(sym->value);
+                    if (!defined)
+                        create_symbol(
+                            sym->get_range(), sym->value, hlasm_ctx.ord_ctx.align(context::no_align), extrn_attrs);
+                    else if (defined->attributes().type() != extrn_attrs.type())
+                        add_diagnostic(diagnostic_op::error_E031("symbol", sym->get_range()));
+                }
             }
         }
     }
-- 
2.43.0


From 247b12e8ff42c629799bc112d57422c6f711152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:27 +0000
Subject: [PATCH 55/89] fix: lone CR ends a line for positions, names of
 variable symbols may be continued before a digit

---
 parser_library/src/lexing/lexer.cpp | 26 +++++++++++++++++++-------
 parser_library/src/lexing/lexer.h   |  4 ++++
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index 0bda116..2381162 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -169,6 +169,9 @@ void lexer::create_token(size_t ttype, size_t channel = Channels::DEFAULT_CHANNE
     if (ttype == CONTINUATION)
         last_continuation_ = last_token_id_;
 
+    // a name of a variable symbol may be continued on the next line
+    if (continuing_var_symbol_)
+        continuing_var_symbol_ = ttype == IGNORED || ttype == CONTINUATION;
     creating_var_symbol_ = ttype == AMPERSAND;
     if (creating_attr_ref_)
         creating_attr_ref_ = ttype == IGNORED || ttype == CONTINUATION;
@@ -216,9 +219,14 @@ void lexer::create_token(size_t ttype, size_t channel = Channels::DEFAULT_CHANNE
         }
 }
 
+bool lexer::is_line_end() const
+{
+    return input_state_->c == '\n' || (input_state_->c == '\r' && input_state_->input->LA(2) != '\n');
+}
+
 void lexer::consume()
 {
-    if (input_state_->c == '\n')
+    if (is_line_end())
     {
         if (metrics_)
             metrics_->lines++;
@@ -474,7 +482,7 @@ bool lexer::identifier_divider() const
 void lexer::lex_begin()
 {
     start_token();
-    while (input_state_->char_position_in_line < begin_ && !eof() && input_state_->c != '\n')
+    while (input_state_->char_position_in_line < begin_ && !eof() && !is_line_end())
         consume();
     create_token(IGNORED, HIDDEN_CHANNEL);
 }
@@ -482,7 +490,7 @@ void lexer::lex_begin()
 void lexer::lex_end(bool eolln)
 {
     start_token();
-    while (input_state_->c != '\n' && !eof() && input_state_->c != (char_t)-1)
+    while (!is_line_end() && !eof() && input_state_->c != (char_t)-1)
         consume();
 
     if (!eof())
@@ -502,7 +510,7 @@ void lexer::lex_comment()
     while (true)
     {
         start_token();
-        while (input_state_->char_position_in_line < end_ && !eof() && input_state_->c != '\n')
+        while (input_state_->char_position_in_line < end_ && !eof() && !is_line_end())
             consume();
         create_token(COMMENT, HIDDEN_CHANNEL);
 
@@ -546,7 +554,7 @@ void lexer::lex_continuation()
 
     /* lex continuation */
     start_token();
-    while (input_state_->char_position_in_line < continue_ && !eof() && input_state_->c != '\n')
+    while (input_state_->char_position_in_line < continue_ && !eof() && !is_line_end())
         consume();
     create_token(IGNORED, HIDDEN_CHANNEL);
 }
@@ -603,7 +611,7 @@ bool lexer::is_data_attribute() const
 void lexer::lex_word()
 {
     bool last_char_data_attr = false;
-    bool ord = is_ord_char() && (input_state_->c < '0' || input_state_->c > '9');
+    bool ord = is_ord_char() && (continuing_var_symbol_ || input_state_->c < '0' || input_state_->c > '9');
     bool num = (input_state_->c >= '0' && input_state_->c <= '9');
 
     size_t w_len = 0;
@@ -624,8 +632,10 @@ void lexer::lex_word()
     }
 
     bool var_sym_tmp = creating_var_symbol_;
+    bool var_sym_reached_end =
+        (var_sym_tmp || continuing_var_symbol_) && ord && !unlimited_line_ && input_state_->char_position_in_line == end_;
 
-    if (ord && w_len <= 63)
+    if (ord && w_len <= 63 && !(num && continuing_var_symbol_))
         create_token(ORDSYMBOL);
     else if (num)
         create_token(NUM);
@@ -640,6 +650,8 @@ void lexer::lex_word()
         create_token(ATTR);
     }
 
+    continuing_var_symbol_ = var_sym_reached_end;
+
     creating_attr_ref_ = !unlimited_line_ && input_state_->char_position_in_line == end_ && last_char_data_attr
         && !var_sym_tmp && w_len == 1;
 }
diff --git a/parser_library/src/lexing/lexer.h b/parser_library/src/lexing/lexer.h
index f9bfa6c..36b574e 100644
--- a/parser_library/src/lexing/lexer.h
+++ b/parser_library/src/lexing/lexer.h
@@ -118,6 +118,8 @@ public:
     // is next input char an ord char?
     bool is_ord_char() const;
     bool is_space() const;
+    // LF, or CR that is not followed by LF
+    bool is_line_end() const;
     bool is_data_attribute() const;
     void set_unlimited_line(bool unlimited_lines);
     // set lexer's input state to file position
@@ -141,6 +143,8 @@ protected:
 private:
     bool eof_generated_ = false;
     bool creating_var_symbol_ = false;
+    // the name of a variable symbol reached the end of the line
+    bool continuing_var_symbol_ = false;
     bool creating_attr_ref_ = false;
     // insert string to the ainsert stream; to the front=True or to the end (front=False)
     void ainsert(const std::string& inp, bool front);
-- 
2.43.0


From 9f2cd6b89770b9d24da537258dd6efa62e02444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:56 +0000
Subject: [PATCH 56/89] fix: an attribute reference that ends in the last
 column does not make the next apostrophe one

---
 parser_library/src/lexing/lexer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index 2381162..acdf58a 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -642,6 +642,9 @@ void lexer::lex_word()
     else
         create_token(IDENTIFIER);
 
+    bool attr_may_continue = !unlimited_line_ && input_state_->char_position_in_line == end_ && last_char_data_attr
+        && !var_sym_tmp && w_len == 1;
+
     if (input_state_->c == '\'' && last_char_data_attr && !var_sym_tmp && w_len == 1
         && (unlimited_line_ || input_state_->char_position_in_line != end_))
     {
@@ -652,8 +655,7 @@ void lexer::lex_word()
 
     continuing_var_symbol_ = var_sym_reached_end;
 
-    creating_attr_ref_ = !unlimited_line_ && input_state_->char_position_in_line == end_ && last_char_data_attr
-        && !var_sym_tmp && w_len == 1;
+    creating_attr_ref_ = attr_may_continue;
 }
 
 bool lexer::set_begin(size_t begin)
-- 
2.43.0


From ece7b804046ce27719b1d1d7d70b85fd997f35c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:36 +0000
Subject: [PATCH 57/89] fix: statements passed over by attribute lookahead in
 members are reported where they are processed

---
 parser_library/src/parsing/parser_impl.cpp          |  4 +++-
 .../members_statement_provider.cpp                  | 13 ++++++++-----
 .../members_statement_provider.h                    |  2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/parser_library/src/parsing/parser_impl.cpp b/parser_library/src/parsing/parser_impl.cpp
index 4278dd8..1d4dc95 100644
--- a/parser_library/src/parsing/parser_impl.cpp
+++ b/parser_library/src/parsing/parser_impl.cpp
@@ -171,7 +171,9 @@ std::pair<semantics::operands_si, semantics::remarks_si> parser_impl::parse_oper
         }
     }
 
-    collect_diags_from_child(listener);
+    // statements passed over by lookahead are reported when they are processed
+    if (format.kind != processing::processing_kind::LOOKAHEAD)
+        collect_diags_from_child(listener);
 
     for (size_t i = 0; i < line.operands.size(); i++)
     {
diff --git a/parser_library/src/processing/statement_providers/members_statement_provider.cpp b/parser_library/src/processing/statement_providers/members_statement_provider.cpp
index 3724fd0..574df2d 100644
--- a/parser_library/src/processing/statement_providers/members_statement_provider.cpp
+++ b/parser_library/src/processing/statement_providers/members_statement_provider.cpp
@@ -80,7 +80,7 @@ const semantics::instruction_si& members_statement_provider::retrieve_instructio
     }
 }
 
-void members_statement_provider::fill_cache(
+context::statement_cache::cached_statement_t members_statement_provider::fill_cache(
     context::statement_cache& cache, const semantics::deferred_statement& def_stmt, const processing_status& status)
 {
     context::statement_cache::cached_statement_t ptr;
@@ -103,7 +103,11 @@ void members_statement_provider::fill_cache(
 
         ptr = std::make_shared<semantics::statement_si_defer_done>(def_impl, std::move(op), std::move(rem));
     }
-    cache.insert(status.first.form, ptr);
+    // problems of the operands are not reported in lookahead, the statement is parsed again when it is processed
+    if (status.first.kind != processing_kind::LOOKAHEAD)
+        cache.insert(status.first.form, ptr);
+
+    return ptr;
 }
 
 context::shared_stmt_ptr members_statement_provider::preprocess_deferred(
@@ -116,10 +120,9 @@ context::shared_stmt_ptr members_statement_provider::preprocess_deferred(
     if (status.first.form == processing_form::DEFERRED)
         return cache.get_base();
 
-    if (!cache.contains(status.first.form))
-        fill_cache(cache, def_stmt, status);
+    auto stmt = cache.contains(status.first.form) ? cache.get(status.first.form) : fill_cache(cache, def_stmt, status);
 
-    return std::make_shared<resolved_statement_impl>(cache.get(status.first.form), status);
+    return std::make_shared<resolved_statement_impl>(std::move(stmt), status);
 }
 
 } // namespace hlasm_plugin::parser_library::processing
diff --git a/parser_library/src/processing/statement_providers/members_statement_provider.h b/parser_library/src/processing/statement_providers/members_statement_provider.h
index e353055..59174e6 100644
--- a/parser_library/src/processing/statement_providers/members_statement_provider.h
+++ b/parser_library/src/processing/statement_providers/members_statement_provider.h
@@ -46,7 +46,7 @@ protected:
 private:
     const semantics::instruction_si& retrieve_instruction(const context::statement_cache& cache) const;
 
-    void fill_cache(context::statement_cache& cache,
+    context::statement_cache::cached_statement_t fill_cache(context::statement_cache& cache,
         const semantics::deferred_statement& def_stmt,
         const processing_status& status);
 
-- 
2.43.0


From d5cf27ede591dc14dd4fa2e037081010e6706c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:12 +0000
Subject: [PATCH 58/89] fix: attribute lookahead returns to the line where the
 statement starts

---
 parser_library/src/context/hlasm_context.cpp      |  5 +++--
 parser_library/src/context/hlasm_context.h        |  2 +-
 parser_library/src/context/processing_context.cpp |  1 +
 parser_library/src/context/processing_context.h   |  1 +
 parser_library/src/parsing/parser_impl.cpp        | 10 ++++------
 5 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/parser_library/src/context/hlasm_context.cpp b/parser_library/src/context/hlasm_context.cpp
index 0dd4aab..72e7139 100644
--- a/parser_library/src/context/hlasm_context.cpp
+++ b/parser_library/src/context/hlasm_context.cpp
@@ -266,10 +266,11 @@ hlasm_context::hlasm_context(std::string file_name, asm_option asm_options)
 
 void hlasm_context::set_source_position(position pos) { source_stack_.back().current_instruction.pos = pos; }
 
-void hlasm_context::set_source_indices(size_t begin_index, size_t end_index, size_t end_line)
+void hlasm_context::set_source_indices(size_t begin_index, size_t end_index, size_t begin_line, size_t end_line)
 {
     source_stack_.back().begin_index = begin_index;
     source_stack_.back().end_index = end_index;
+    source_stack_.back().begin_line = begin_line;
     source_stack_.back().end_line = end_line;
 }
 
@@ -282,7 +283,7 @@ std::pair<source_position, source_snapshot> hlasm_context::get_begin_snapshot(bo
     if (!is_in_macros && current_copy_stack().empty())
     {
         statement_position.file_offset = current_source().begin_index;
-        statement_position.file_line = current_source().current_instruction.pos.line;
+        statement_position.file_line = current_source().begin_line;
     }
     else
     {
diff --git a/parser_library/src/context/hlasm_context.h b/parser_library/src/context/hlasm_context.h
index 7f8ddb2..c0ecafd 100644
--- a/parser_library/src/context/hlasm_context.h
+++ b/parser_library/src/context/hlasm_context.h
@@ -99,7 +99,7 @@ public:
     // sets current source position
     void set_source_position(position pos);
     // sets current source file indices
-    void set_source_indices(size_t begin_index, size_t end_index, size_t end_line);
+    void set_source_indices(size_t begin_index, size_t end_index, size_t begin_line, size_t end_line);
 
     std::pair<source_position, source_snapshot> get_begin_snapshot(bool ignore_macros) const;
     std::pair<source_position, source_snapshot> get_end_snapshot() const;
diff --git a/parser_library/src/context/processing_context.cpp b/parser_library/src/context/processing_context.cpp
index e19b1bc..ccb0247 100644
--- a/parser_library/src/context/processing_context.cpp
+++ b/parser_library/src/context/processing_context.cpp
@@ -21,6 +21,7 @@ source_context::source_context(std::string source_name)
     : current_instruction(position(), std::move(source_name))
     , begin_index(0)
     , end_index(0)
+    , begin_line(0)
     , end_line(0)
 {}
 
diff --git a/parser_library/src/context/processing_context.h b/parser_library/src/context/processing_context.h
index c117aac..255afda 100644
--- a/parser_library/src/context/processing_context.h
+++ b/parser_library/src/context/processing_context.h
@@ -29,6 +29,7 @@ struct source_context
     // location in the file
     size_t begin_index;
     size_t end_index;
+    size_t begin_line;
     size_t end_line;
 
     // stack of copy nests
diff --git a/parser_library/src/parsing/parser_impl.cpp b/parser_library/src/parsing/parser_impl.cpp
index 1d4dc95..42e7012 100644
--- a/parser_library/src/parsing/parser_impl.cpp
+++ b/parser_library/src/parsing/parser_impl.cpp
@@ -395,13 +395,11 @@ bool parser_impl::finished() const { return finished_flag; }
 void parser_impl::set_source_indices(const antlr4::Token* start, const antlr4::Token* stop)
 {
     assert(stop);
-    size_t start_offset;
 
-    if (start)
-        start_offset = start->getStartIndex();
-    else
-        start_offset = stop->getStartIndex();
-    ctx.hlasm_ctx->set_source_indices(start_offset, stop->getStopIndex() + 1, stop->getLine());
+    if (!start)
+        start = stop;
+    ctx.hlasm_ctx->set_source_indices(
+        start->getStartIndex(), stop->getStopIndex() + 1, start->getLine(), stop->getLine());
 }
 
 bool parser_impl::deferred()
-- 
2.43.0


From 5ae86cd26fd93f6d4fa80f5ffd54429712eae0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:13 +0000
Subject: [PATCH 59/89] fix: rewinding to the end of the input does not repeat
 its last character

---
 parser_library/src/lexing/input_source.cpp | 2 +-
 parser_library/src/lexing/lexer.cpp        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/lexing/input_source.cpp b/parser_library/src/lexing/input_source.cpp
index f3a9741..db77071 100644
--- a/parser_library/src/lexing/input_source.cpp
+++ b/parser_library/src/lexing/input_source.cpp
@@ -98,7 +98,7 @@ std::string input_source::getText(const antlr4::misc::Interval& interval)
 
 void input_source::rewind_input(size_t position)
 {
-    assert(position < _data.length());
+    assert(position <= _data.length());
     p = position;
 }
 
diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index acdf58a..de01dcc 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -57,8 +57,8 @@ void lexer::rewind_input(stream_position pos)
 {
     auto inp = file_input_state_.input;
 
-    if (pos.offset >= input_->size()) // we are rewinding from the end, so limit offset by input size
-        pos.offset = input_->size() - 1;
+    if (pos.offset > input_->size()) // we are rewinding from the end, so limit offset by input size
+        pos.offset = input_->size();
 
     inp->rewind_input(pos.offset);
     eof_generated_ = false;
-- 
2.43.0


From 46c3cfe2d170d86ec3e3b6e735643c96fe41e2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:13 +0000
Subject: [PATCH 60/89] fix: characters outside the single byte range are not
 passed to isspace

---
 parser_library/src/lexing/lexer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index de01dcc..26caef8 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -81,6 +81,9 @@ void lexer::rewind_input(stream_position pos)
     file_input_state_.c = static_cast<char_t>(inp->LA(1));
 }
 
+// isspace is defined for single bytes only
+static bool blank_char(size_t c) { return c <= 255 && isspace(static_cast<int>(c)); }
+
 bool lexer::is_last_line() const
 {
     for (size_t i = 1; input_->LA(i) != antlr4::CharStream::EOF && i < 100; i++)
@@ -309,7 +312,7 @@ token_ptr lexer::nextToken()
         else if (double_byte_enabled_)
             check_continuation();
 
-        else if (!unlimited_line_ && input_state_->char_position_in_line == end_ && !isspace(input_state_->c)
+        else if (!unlimited_line_ && input_state_->char_position_in_line == end_ && !blank_char(input_state_->c)
             && continuation_enabled_ && (!from_buffer() || !ainsert_buffer_.empty()))
             lex_continuation();
 
@@ -514,7 +517,7 @@ void lexer::lex_comment()
             consume();
         create_token(COMMENT, HIDDEN_CHANNEL);
 
-        if (!isspace(input_state_->c) && !eof() && continuation_enabled_)
+        if (!blank_char(input_state_->c) && !eof() && continuation_enabled_)
             lex_continuation();
         else
         {
@@ -568,7 +571,7 @@ void lexer::check_continuation()
         return;
 
     auto cc = input_->LA(end_default_ + 1);
-    if (cc != CharStream::EOF && !isspace(static_cast<int>(cc)))
+    if (cc != CharStream::EOF && !blank_char(cc))
     {
         do
         {
-- 
2.43.0


From dbef680b9975dc431ba2bd616132f7ebdeda5089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:13 +0000
Subject: [PATCH 61/89] fix: highlighting of the ignored columns excludes CR

---
 parser_library/src/lexing/lexer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index 26caef8..c4fbd6c 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -493,12 +493,17 @@ void lexer::lex_begin()
 void lexer::lex_end(bool eolln)
 {
     start_token();
+    last_line_pos_ = input_state_->char_position_in_line_utf16;
     while (!is_line_end() && !eof() && input_state_->c != (char_t)-1)
+    {
+        bool line_end_starts = input_state_->c == '\r';
         consume();
+        if (!line_end_starts)
+            last_line_pos_ = input_state_->char_position_in_line_utf16;
+    }
 
     if (!eof())
     {
-        last_line_pos_ = input_state_->char_position_in_line_utf16;
         consume();
         if (eolln)
             create_token(EOLLN);
-- 
2.43.0


From a5cbeaa3d4682241faa75c9e07cd71dc9ef8aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:13 +0000
Subject: [PATCH 62/89] fix: AINSERT from the last line without a line end does
 not read it again forever

---
 parser_library/src/lexing/lexer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index c4fbd6c..e139c19 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -853,6 +853,11 @@ void lexer::ainsert(const std::string& inp, bool front)
         else
             ainsert_buffer_.push_back(str);
 
+        if (eof_generated_) // the last line is already processed, it may not end with a new line
+        {
+            file_input_state_.char_position_in_line = 0;
+            file_input_state_.char_position_in_line_utf16 = 0;
+        }
         if (file_input_state_.char_position_in_line)
             rewind_input(stream_position { file_input_state_.line,
                 file_input_state_.char_position
-- 
2.43.0


From 9c19959744833ec3f0e385a18a76e23c73edafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:13 +0000
Subject: [PATCH 63/89] fix: ranges of empty rules are not reversed

---
 parser_library/src/semantics/range_provider.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/semantics/range_provider.cpp b/parser_library/src/semantics/range_provider.cpp
index e8c654e..5483599 100644
--- a/parser_library/src/semantics/range_provider.cpp
+++ b/parser_library/src/semantics/range_provider.cpp
@@ -41,12 +41,13 @@ range range_provider::get_range(const antlr4::Token* start, const antlr4::Token*
     ret.start.line = start->getLine();
     ret.start.column = start->getCharPositionInLine();
 
-    if (stop)
+    // an empty rule has no last token, or the one before its first
+    if (stop && stop->getTokenIndex() >= start->getTokenIndex())
     {
         ret.end.line = stop->getLine();
         ret.end.column = stop->getCharPositionInLine() + stop->getStopIndex() - stop->getStartIndex() + 1;
     }
-    else // empty rule
+    else
     {
         ret.end = ret.start;
     }
-- 
2.43.0


From 57fe42c298a6321dc4a19c7529d8b2f9900ad916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:13 +0000
Subject: [PATCH 64/89] fix: positions behind the last operand do not read
 beyond the operand ranges

---
 parser_library/src/semantics/range_provider.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_library/src/semantics/range_provider.cpp b/parser_library/src/semantics/range_provider.cpp
index 5483599..cd5e394 100644
--- a/parser_library/src/semantics/range_provider.cpp
+++ b/parser_library/src/semantics/range_provider.cpp
@@ -98,6 +98,11 @@ position range_provider::adjust_position(position pos)
 
             if (tmp_cols >= offset)
                 break;
+            else if (idx == original_operand_ranges.size())
+            {
+                offset = tmp_cols; // characters that are wider in the text than in the ranges
+                break;
+            }
             else
             {
                 offset -= tmp_cols + 1;
-- 
2.43.0


From 05a61e929f25166d9ac818bc94b694dbdb913449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:13 +0000
Subject: [PATCH 65/89] fix: highlighted tokens of continued statements are not
 reversed

---
 parser_library/src/semantics/source_info_processor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/semantics/source_info_processor.cpp b/parser_library/src/semantics/source_info_processor.cpp
index 404a6b8..193036b 100644
--- a/parser_library/src/semantics/source_info_processor.cpp
+++ b/parser_library/src/semantics/source_info_processor.cpp
@@ -53,11 +53,12 @@ void source_info_processor::add_hl_symbol(token_info symbol)
         auto first = rest;
         first.token_range.end.line = first.token_range.start.line;
         first.token_range.end.column = hl_info_.cont_info.continuation_column;
-        hl_info_.lines.push_back(std::move(first));
+        if (first.token_range.start.column < first.token_range.end.column) // wide characters shift the columns
+            hl_info_.lines.push_back(std::move(first));
         rest.token_range.start.line++;
         rest.token_range.start.column = hl_info_.cont_info.continue_column;
     }
 
-    if (rest.token_range.start != rest.token_range.end) // do not add empty tokens
+    if (rest.token_range.start.column < rest.token_range.end.column) // do not add empty tokens
         hl_info_.lines.push_back(std::move(rest));
 }
-- 
2.43.0


From 11fdd315a114b13398a649586dcb2e7134139eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:13 +0000
Subject: [PATCH 66/89] fix: lookahead survives lines that are not statements

---
 parser_library/src/parsing/grammar/lookahead_rules.g4 | 1 +
 parser_library/src/parsing/parser_impl.cpp            | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/parsing/grammar/lookahead_rules.g4 b/parser_library/src/parsing/grammar/lookahead_rules.g4
index cf65fdb..ff826eb 100644
--- a/parser_library/src/parsing/grammar/lookahead_rules.g4
+++ b/parser_library/src/parsing/grammar/lookahead_rules.g4
@@ -54,6 +54,7 @@ bad_look
 	| DOT ~(ORDSYMBOL|EOLLN) ~EOLLN*
 	| ORDSYMBOL ~(SPACE|EOLLN) ~EOLLN*
 	| ORDSYMBOL SPACE?
+	| ORDSYMBOL? SPACE ~(ORDSYMBOL|IDENTIFIER|EOLLN) ~EOLLN*
 	| SPACE
 	| DOT
 	| ;
diff --git a/parser_library/src/parsing/parser_impl.cpp b/parser_library/src/parsing/parser_impl.cpp
index 42e7012..3cfe612 100644
--- a/parser_library/src/parsing/parser_impl.cpp
+++ b/parser_library/src/parsing/parser_impl.cpp
@@ -528,7 +528,7 @@ void parser_impl::process_ordinary()
 void parser_impl::process_lookahead()
 {
     auto look_lab_instr = dynamic_cast<hlasmparser&>(*this).look_lab_instr();
-    if (!finished_flag)
+    if (!finished_flag && collector.has_instruction())
     {
         process_instruction();
         if (!look_lab_instr->op_text)
-- 
2.43.0


From e07062d256b1c4ebb07ea9d02b8b5412eb739dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:13 +0000
Subject: [PATCH 67/89] fix: errors while substituting are reported at the
 original operands

---
 parser_library/src/parsing/parser_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/parsing/parser_impl.cpp b/parser_library/src/parsing/parser_impl.cpp
index 3cfe612..791e161 100644
--- a/parser_library/src/parsing/parser_impl.cpp
+++ b/parser_library/src/parsing/parser_impl.cpp
@@ -125,7 +125,7 @@ std::pair<semantics::operands_si, semantics::remarks_si> parser_impl::parse_oper
     std::optional<std::string> sub;
     if (after_substitution)
         sub = field;
-    parser_error_listener_ctx listener(*hlasm_ctx, std::move(sub));
+    parser_error_listener_ctx listener(*hlasm_ctx, std::move(sub), field_range);
 
     h.input->reset(field);
 
-- 
2.43.0


From b38c484605bb097aa7d2dd6715e933d0501db4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:13 +0000
Subject: [PATCH 68/89] fix: syntax errors after AREAD and AINSERT find their
 tokens

---
 parser_library/src/parsing/parser_error_listener.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/parsing/parser_error_listener.cpp b/parser_library/src/parsing/parser_error_listener.cpp
index 620a785..cf09a1f 100644
--- a/parser_library/src/parsing/parser_error_listener.cpp
+++ b/parser_library/src/parsing/parser_error_listener.cpp
@@ -130,7 +130,8 @@ void parser_error_listener_base::syntaxError(
         auto expected_tokens = excp.getExpectedTokens();
 
         auto start_token = excp.getStartToken();
-        int start_index = (int)start_token->getTokenIndex();
+        // the stream may have been restarted (AREAD, AINSERT) while the tokens are still counted from the beginning
+        int start_index = (int)(start_token->getTokenIndex() - input_stream->get(0)->getTokenIndex());
 
         // find first eoln
 
-- 
2.43.0


From 461c8395a486f95c7ba20f8119a817e2d475c57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:13 +0000
Subject: [PATCH 69/89] fix: COPY with an operand that is not an expression

---
 .../src/processing/instruction_sets/asm_processor.cpp      | 4 ++--
 .../src/processing/statement_analyzers/lsp_analyzer.cpp    | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index d7de0bd..7db67e4 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -564,8 +564,8 @@ void asm_processor::process_copy(const semantics::complete_statement& stmt,
     workspaces::parse_lib_provider& lib_provider,
     diagnosable_ctx* diagnoser)
 {
-    auto& expr = stmt.operands_ref().value.front()->access_asm()->access_expr()->expression;
-    auto sym_expr = dynamic_cast<expressions::mach_expr_symbol*>(expr.get());
+    auto expr_op = stmt.operands_ref().value.front()->access_asm()->access_expr();
+    auto sym_expr = expr_op ? dynamic_cast<expressions::mach_expr_symbol*>(expr_op->expression.get()) : nullptr;
 
     if (!sym_expr)
     {
diff --git a/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp b/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
index 7ae4f19..c461e37 100644
--- a/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
+++ b/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
@@ -262,8 +262,11 @@ void lsp_analyzer::collect_copy_operands(const context::hlasm_statement& stateme
     if (res_stmt->opcode_ref().value == hlasm_ctx_.ids().add("COPY") && res_stmt->operands_ref().value.size() == 1
         && res_stmt->operands_ref().value.front()->access_asm())
     {
-        auto sym_expr = dynamic_cast<expressions::mach_expr_symbol*>(
-            res_stmt->operands_ref().value.front()->access_asm()->access_expr()->expression.get());
+        auto expr_op = res_stmt->operands_ref().value.front()->access_asm()->access_expr();
+        if (!expr_op)
+            return;
+
+        auto sym_expr = dynamic_cast<expressions::mach_expr_symbol*>(expr_op->expression.get());
 
         if (sym_expr)
             add_copy_operand(sym_expr->value, sym_expr->get_range());
-- 
2.43.0


From 9624f322346540940a69a072f54e4d10e6c65707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:14 +0000
Subject: [PATCH 70/89] fix: positions in data definitions follow continued
 lines and substitution

---
 .../src/expressions/data_definition.cpp       | 97 +++++++++++++------
 .../src/expressions/data_definition.h         | 20 +++-
 .../src/parsing/grammar/data_def_rules.g4     |  7 +-
 3 files changed, 87 insertions(+), 37 deletions(-)

diff --git a/parser_library/src/expressions/data_definition.cpp b/parser_library/src/expressions/data_definition.cpp
index 0df5151..5133913 100644
--- a/parser_library/src/expressions/data_definition.cpp
+++ b/parser_library/src/expressions/data_definition.cpp
@@ -27,10 +27,16 @@ using namespace hlasm_plugin::parser_library::expressions;
 using namespace hlasm_plugin::parser_library;
 
 
-data_definition data_definition::create(
-    semantics::collector& coll, std::string format, mach_expr_list exprs, nominal_value_ptr nominal, position begin)
-{
-    parser p(coll, std::move(format), std::move(exprs), std::move(nominal), begin);
+data_definition data_definition::create(semantics::collector& coll,
+    std::string format,
+    mach_expr_list exprs,
+    nominal_value_ptr nominal,
+    position begin,
+    position end,
+    std::optional<range> substituted)
+{
+    parser p(
+        coll, std::move(format), std::move(exprs), std::move(nominal), begin, end, std::move(substituted));
     return p.parse();
 }
 
@@ -390,12 +396,16 @@ checking::nominal_value_t data_definition::evaluate_nominal_value(expressions::m
 }
 
 data_definition::parser::parser(
-    semantics::collector& coll, std::string format, mach_expr_list exprs, nominal_value_ptr nominal, position begin)
+    semantics::collector& coll, std::string format, mach_expr_list exprs, nominal_value_ptr nominal, position begin,
+    position end,
+    std::optional<range> substituted)
     : collector_(coll)
     , format_(std::move(format))
     , exprs_(std::move(exprs))
     , nominal_(std::move(nominal))
     , pos_(begin)
+    , end_(end)
+    , substituted_(std::move(substituted))
     , p_(0)
     , exprs_i_(0)
 {
@@ -420,30 +430,30 @@ std::optional<int> data_definition::parser::parse_number()
     std::optional<int> parsed;
     try
     {
+        skip_continuation();
         position begin_pos = pos_;
         size_t pos;
         parsed = std::stoi(format_.substr(p_), &pos);
         p_ += pos;
-        pos_.column += pos;
-        collector_.add_hl_symbol(token_info(range(begin_pos, pos_), semantics::hl_scopes::number));
+        for (; pos > 0; --pos)
+            update_position_by_one();
+        collector_.add_hl_symbol(token_info(get_range(begin_pos, pos_), semantics::hl_scopes::number));
         return parsed;
     }
     catch (std::out_of_range&)
     {
-        size_t end = get_number_end(p_); // Integer out of range
-        position new_pos = { pos_.line, pos_.column + (end - p_) };
-        result_.add_diagnostic(diagnostic_op::error_D001({ pos_, new_pos }));
-        p_ = end;
-        pos_ = new_pos;
+        position begin_pos = pos_;
+        for (size_t end = get_number_end(p_); p_ < end; ++p_) // Integer out of range
+            update_position_by_one();
+        result_.add_diagnostic(diagnostic_op::error_D001(get_range(begin_pos, pos_)));
         return std::nullopt;
     }
     catch (std::invalid_argument&)
     {
-        size_t end = get_number_end(p_); // Expected an integer
-        position new_pos = { pos_.line, pos_.column + (end - p_) };
-        result_.add_diagnostic(diagnostic_op::error_D002({ pos_, new_pos }));
-        p_ = end;
-        pos_ = new_pos;
+        position begin_pos = pos_;
+        for (size_t end = get_number_end(p_); p_ < end; ++p_) // Expected an integer
+            update_position_by_one();
+        result_.add_diagnostic(diagnostic_op::error_D002(get_range(begin_pos, pos_)));
         return std::nullopt;
     }
 }
@@ -453,9 +463,28 @@ std::optional<int> data_definition::parser::parse_number()
 void data_definition::parser::update_position(const mach_expression& e)
 {
     pos_ = e.get_range().end;
-    pos_.column += 1;
+    update_position_by_one();
+}
+
+void data_definition::parser::update_position_by_one()
+{
+    skip_continuation();
+    ++pos_.column;
+}
+
+void data_definition::parser::skip_continuation()
+{
+    static constexpr size_t continuation_column = 71;
+    static constexpr size_t continue_column = 15;
+
+    if (pos_.line < end_.line && pos_.column >= continuation_column)
+        pos_ = position(pos_.line + 1, continue_column);
+}
+
+range data_definition::parser::get_range(position begin, position end) const
+{
+    return substituted_ ? *substituted_ : range(begin, end);
 }
-void data_definition::parser::update_position_by_one() { ++pos_.column; }
 
 void data_definition::parser::parse_duplication_factor()
 {
@@ -465,9 +494,9 @@ void data_definition::parser::parse_duplication_factor()
         auto dupl_factor_num = parse_number();
 
         if (dupl_factor_num)
-            result_.dupl_factor = std::make_unique<mach_expr_constant>(*dupl_factor_num, range(old_pos, pos_));
+            result_.dupl_factor = std::make_unique<mach_expr_constant>(*dupl_factor_num, get_range(old_pos, pos_));
         else
-            result_.dupl_factor = std::make_unique<mach_expr_constant>(1, range(old_pos, pos_));
+            result_.dupl_factor = std::make_unique<mach_expr_constant>(1, get_range(old_pos, pos_));
     }
     else if (format_[0] == *data_definition::expr_placeholder)
     { // duplication factor as expression
@@ -475,7 +504,7 @@ void data_definition::parser::parse_duplication_factor()
     }
     else
     {
-        result_.dupl_factor = std::make_unique<mach_expr_constant>(1, range(pos_, pos_));
+        result_.dupl_factor = std::make_unique<mach_expr_constant>(1, get_range(pos_, pos_));
     }
 }
 
@@ -506,7 +535,7 @@ mach_expr_ptr data_definition::parser::parse_modifier_num_or_expr()
         auto modifier = parse_number();
 
         if (modifier)
-            return std::make_unique<mach_expr_constant>(*modifier, range(old_pos, pos_));
+            return std::make_unique<mach_expr_constant>(*modifier, get_range(old_pos, pos_));
         // else leave expr null
     }
     else if (format_[p_] == expr_placeholder[0])
@@ -528,7 +557,7 @@ mach_expr_ptr data_definition::parser::parse_modifier_num_or_expr()
         }
         else
         {
-            result_.add_diagnostic(diagnostic_op::error_D003({ pos_, { pos_.line, pos_.column + 1 } }));
+            result_.add_diagnostic(diagnostic_op::error_D003(get_range(pos_, { pos_.line, pos_.column + 1 })));
             ++p_;
             // no need to update pos_, nominal value (if present) is the last character of the format string
         }
@@ -562,14 +591,15 @@ void data_definition::parser::assign_expr_to_modifier(char modifier, mach_expr_p
 void data_definition::parser::parse_modifier()
 {
     // we assume, that format_[p_] determines one of modifiers PLSE
+    skip_continuation();
     position begin_pos = pos_;
     char modifier = format_[p_++];
     collector_.add_hl_symbol(token_info(
-        range { begin_pos, { begin_pos.line, begin_pos.column + 1 } }, semantics::hl_scopes::data_def_modifier));
+        get_range(begin_pos, { begin_pos.line, begin_pos.column + 1 }), semantics::hl_scopes::data_def_modifier));
     if (p_ >= format_.size())
     {
         // expected something after modifier character
-        result_.add_diagnostic(diagnostic_op::error_D003({ begin_pos, { begin_pos.line, begin_pos.column + 1 } }));
+        result_.add_diagnostic(diagnostic_op::error_D003(get_range(begin_pos, { begin_pos.line, begin_pos.column + 1 })));
         return;
     }
 
@@ -583,14 +613,14 @@ void data_definition::parser::parse_modifier()
         if (modifier == 'L')
             result_.length_type = length_type::BIT;
         else
-            result_.add_diagnostic(diagnostic_op::error_D005({ begin_pos, { begin_pos.line, begin_pos.column + 1 } }));
+            result_.add_diagnostic(diagnostic_op::error_D005(get_range(begin_pos, { begin_pos.line, begin_pos.column + 1 })));
 
         update_position_by_one();
 
         if (p_ >= format_.size())
         {
             // expected something after modifier character
-            result_.add_diagnostic(diagnostic_op::error_D003({ begin_pos, { begin_pos.line, begin_pos.column + 1 } }));
+            result_.add_diagnostic(diagnostic_op::error_D003(get_range(begin_pos, { begin_pos.line, begin_pos.column + 1 })));
             return;
         }
     }
@@ -598,7 +628,7 @@ void data_definition::parser::parse_modifier()
 
     size_t rem_pos = remaining_modifiers_.find(modifier);
     if (rem_pos == std::string::npos) // wrong order
-        result_.add_diagnostic(diagnostic_op::error_D004({ begin_pos, pos_ }));
+        result_.add_diagnostic(diagnostic_op::error_D004(get_range(begin_pos, pos_)));
     else
         remaining_modifiers_ = remaining_modifiers_.substr(rem_pos + 1);
 
@@ -609,8 +639,9 @@ data_definition data_definition::parser::parse()
 {
     parse_duplication_factor();
 
+    skip_continuation();
     result_.type = format_[p_++];
-    result_.type_range = { pos_, { pos_.line, pos_.column + 1 } };
+    result_.type_range = get_range(pos_, { pos_.line, pos_.column + 1 });
     range unified_type_range = result_.type_range;
     update_position_by_one();
 
@@ -621,8 +652,9 @@ data_definition data_definition::parser::parse()
     // E is an extension of type C only, otherwise it is the exponent modifier
     if (is_type_extension(format_[p_]) && (format_[p_] != 'E' || result_.type == 'C'))
     {
+        skip_continuation();
         result_.extension = format_[p_];
-        result_.extension_range = { pos_, { pos_.line, pos_.column + 1 } };
+        result_.extension_range = get_range(pos_, { pos_.line, pos_.column + 1 });
         unified_type_range.end = result_.extension_range.end;
         ++p_;
         update_position_by_one();
@@ -645,6 +677,7 @@ data_definition data_definition::parser::parse()
         else
         {
             // consume all invalid characters and produce one diagnostic regarding all of them
+            skip_continuation();
             auto begin_pos = pos_;
             while (p_ < format_.size() && !is_modifier_or_prog(format_[p_]) && format_[p_] != nominal_placeholder[0])
             {
@@ -652,7 +685,7 @@ data_definition data_definition::parser::parse()
                 update_position_by_one();
             }
 
-            result_.add_diagnostic(diagnostic_op::error_D006({ begin_pos, pos_ }));
+            result_.add_diagnostic(diagnostic_op::error_D006(get_range(begin_pos, pos_)));
         }
     }
 
diff --git a/parser_library/src/expressions/data_definition.h b/parser_library/src/expressions/data_definition.h
index c795d1d..4560d09 100644
--- a/parser_library/src/expressions/data_definition.h
+++ b/parser_library/src/expressions/data_definition.h
@@ -63,13 +63,16 @@ struct data_definition : public diagnosable_op_impl, public context::dependable
     // Creates the data definition. format is the string representation of data definition as the user
     // has written it, excapt all expressions are replaced with '&' and nominal value is replaced with " ".
     // The expressions are passed separately as exprs in the same order as '&' appear in the format. begin is
-    // the position of first character of data definition. The function filles the passed collector with
+    // the position of first character of data definition and end the position behind the last one. When the
+    // definition was created by substitution, all its ranges are the one in substituted. The function filles the passed collector with
     // highlighting information.
     static data_definition create(semantics::collector& coll,
         std::string format,
         mach_expr_list exprs,
         nominal_value_ptr nominal,
-        position begin);
+        position begin,
+        position end = {},
+        std::optional<range> substituted = std::nullopt);
 
     // Returns conjunction of all dependencies of all expression in data_definition.
     context::dependency_collector get_dependencies(context::dependency_solver& solver) const override;
@@ -127,7 +130,9 @@ public:
         std::string format,
         mach_expr_list exprs,
         nominal_value_ptr nominal,
-        position begin);
+        position begin,
+        position end,
+        std::optional<range> substituted);
     // Parses the data definition specified as parameters of constructor.
     data_definition parse();
 
@@ -138,8 +143,11 @@ public:
     // Sets the position behind the expression.
     void update_position(const mach_expression& e);
     // Moves the position one character forward.
-    // TODO: continuation support: current implementation never moves to the next line
     void update_position_by_one();
+    // Moves the position to the next line when there is nothing left on the current one.
+    void skip_continuation();
+    // Returns range between the positions, unless the data definition was created by substitution.
+    range get_range(position begin, position end) const;
     void parse_duplication_factor();
     void parse_modifier();
     // Returns the next expression from the input list.
@@ -160,6 +168,10 @@ private:
     // Current state of parsing:
     // Current position in text
     position pos_;
+    // Position behind the data definition
+    position end_;
+    // Range of the substituted text
+    std::optional<range> substituted_;
     // Current position in format
     size_t p_;
     // Current position in expressions vector
diff --git a/parser_library/src/parsing/grammar/data_def_rules.g4 b/parser_library/src/parsing/grammar/data_def_rules.g4
index 2dba7ec..91463cc 100644
--- a/parser_library/src/parsing/grammar/data_def_rules.g4
+++ b/parser_library/src/parsing/grammar/data_def_rules.g4
@@ -127,7 +127,12 @@ data_def returns [data_definition value]
 
 		auto begin_range = provider.get_range($d_e.ctx->getStart(),$d_e.ctx->getStop());
 
-		$value = data_definition::create(collector, std::move(form), std::move(exprs), std::move($nominal_value_o.nominal), begin_range.start);
+		auto end_range = provider.get_range($d_e.ctx->getStart(), _input->LT(-1));
+		std::optional<range> substituted;
+		if (provider.state == adjusting_state::SUBSTITUTION)
+			substituted = provider.original_range;
+
+		$value = data_definition::create(collector, std::move(form), std::move(exprs), std::move($nominal_value_o.nominal), begin_range.start, end_range.end, substituted);
 	};
 
 data_def_ch returns [std::string value]
-- 
2.43.0


From d5420c4167f9ffb39ca6f078aacc6e89e7387d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:14 +0000
Subject: [PATCH 71/89] fix: variable symbols with syntax errors are not
 dereferenced

---
 .../expressions/conditional_assembly/terms/ca_var_sym.cpp    | 3 +++
 parser_library/src/parsing/grammar/ca_expr_rules.g4          | 5 +++--
 parser_library/src/parsing/grammar/ca_operand_rules.g4       | 3 ++-
 .../src/processing/instruction_sets/macro_processor.cpp      | 3 ++-
 .../processing/statement_analyzers/occurence_collector.cpp   | 4 ++--
 .../processing/statement_processors/macrodef_processor.cpp   | 4 ++--
 parser_library/src/semantics/concatenation.cpp               | 2 ++
 parser_library/src/semantics/concatenation_term.cpp          | 3 +++
 8 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_var_sym.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_var_sym.cpp
index 9dfd569..a74184c 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_var_sym.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_var_sym.cpp
@@ -30,6 +30,9 @@ undef_sym_set ca_var_sym::get_undefined_attributed_symbols_vs(
     const semantics::vs_ptr& symbol, const evaluation_context& eval_ctx)
 {
     undef_sym_set tmp;
+    if (!symbol) // syntax error in the symbol
+        return tmp;
+
     for (auto&& expr : symbol->subscript)
         tmp.merge(expr->get_undefined_attributed_symbols(eval_ctx));
 
diff --git a/parser_library/src/parsing/grammar/ca_expr_rules.g4 b/parser_library/src/parsing/grammar/ca_expr_rules.g4
index 05daa8f..3a13ff6 100644
--- a/parser_library/src/parsing/grammar/ca_expr_rules.g4
+++ b/parser_library/src/parsing/grammar/ca_expr_rules.g4
@@ -77,7 +77,8 @@ term returns [ca_expr_ptr ca_expr]
 	| var_symbol
 	{
 		auto r = provider.get_range($var_symbol.ctx);
-		$ca_expr = std::make_unique<ca_var_sym>(std::move($var_symbol.vs), r);
+		if ($var_symbol.vs)
+			$ca_expr = std::make_unique<ca_var_sym>(std::move($var_symbol.vs), r);
 	}
 	| ca_string
 	{ 
@@ -90,7 +91,7 @@ term returns [ca_expr_ptr ca_expr]
 		auto r = provider.get_range($data_attribute.ctx);
 		if (std::holds_alternative<id_index>($data_attribute.value))
 			$ca_expr = std::make_unique<ca_symbol_attribute>(std::get<id_index>($data_attribute.value), $data_attribute.attribute, r, $data_attribute.value_range);
-		else if (std::holds_alternative<vs_ptr>($data_attribute.value))
+		else if (auto* vs = std::get_if<vs_ptr>(&$data_attribute.value); vs && *vs)
 			$ca_expr = std::make_unique<ca_symbol_attribute>(std::move(std::get<vs_ptr>($data_attribute.value)), $data_attribute.attribute, r, $data_attribute.value_range);
 	}
 	| {is_self_def()}? self_def_term
diff --git a/parser_library/src/parsing/grammar/ca_operand_rules.g4 b/parser_library/src/parsing/grammar/ca_operand_rules.g4
index 319b3c2..3b66635 100644
--- a/parser_library/src/parsing/grammar/ca_operand_rules.g4
+++ b/parser_library/src/parsing/grammar/ca_operand_rules.g4
@@ -37,5 +37,6 @@ ca_op returns [operand_ptr op]
 	}
 	| { is_var_def()}? var_def
 	{
-		$op = std::make_unique<var_ca_operand>(std::move($var_def.vs), provider.get_range($var_def.ctx));
+		if ($var_def.vs)
+			$op = std::make_unique<var_ca_operand>(std::move($var_def.vs), provider.get_range($var_def.ctx));
 	};
\ No newline at end of file
diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index 247c70d..0d85461 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -250,7 +250,8 @@ std::vector<context::macro_arg> macro_processor::get_operand_args(const resolved
         {
             get_keyword_arg(statement, tmp_chain, args, keyword_params, tmp->operand_range);
         }
-        else if (tmp_chain.size() == 1 && tmp_chain.front()->type == semantics::concat_type::VAR) // single varsym
+        else if (tmp_chain.size() == 1 && tmp_chain.front()->type == semantics::concat_type::VAR
+            && tmp_chain.front()->access_var()->symbol) // single varsym
         {
             context::macro_data_ptr data = string_to_macrodata(
                 semantics::var_sym_conc::evaluate(tmp_chain.front()->access_var()->symbol->evaluate(eval_ctx)));
diff --git a/parser_library/src/processing/statement_analyzers/occurence_collector.cpp b/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
index a4d97e1..a16ce4e 100644
--- a/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
+++ b/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
@@ -151,8 +151,8 @@ void occurence_collector::get_occurence(const semantics::concat_chain& chain)
                 }
                 break;
             case semantics::concat_type::VAR:
-                if (collector_kind == lsp::occurence_kind::VAR)
-                    get_occurence(*point->access_var()->access_var()->symbol);
+                if (collector_kind == lsp::occurence_kind::VAR && point->access_var()->symbol)
+                    get_occurence(*point->access_var()->symbol);
                 break;
             case semantics::concat_type::SUB:
                 for (const auto& ch : point->access_sub()->list)
diff --git a/parser_library/src/processing/statement_processors/macrodef_processor.cpp b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
index acb194f..6c1804b 100644
--- a/parser_library/src/processing/statement_processors/macrodef_processor.cpp
+++ b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
@@ -307,9 +307,9 @@ bool macrodef_processor::test_varsym_validity(const semantics::variable_symbol*
     range op_range,
     bool add_empty)
 {
-    if (var->created || !var->subscript.empty())
+    if (!var || var->created || !var->subscript.empty())
     {
-        add_diagnostic(diagnostic_op::error_E043(var->symbol_range));
+        add_diagnostic(diagnostic_op::error_E043(var ? var->symbol_range : op_range));
         result_.prototype.symbolic_params.emplace_back(nullptr, nullptr);
         return false;
     }
diff --git a/parser_library/src/semantics/concatenation.cpp b/parser_library/src/semantics/concatenation.cpp
index d68b9f4..4efddcf 100644
--- a/parser_library/src/semantics/concatenation.cpp
+++ b/parser_library/src/semantics/concatenation.cpp
@@ -121,6 +121,8 @@ std::string concatenation_point::to_string(concat_chain::const_iterator begin, c
                 break;
             case concat_type::VAR:
                 ret.push_back('&');
+                if (!point->access_var()->symbol) // syntax error in the symbol
+                    break;
                 if (point->access_var()->symbol->created)
                 {
                     ret.push_back('(');
diff --git a/parser_library/src/semantics/concatenation_term.cpp b/parser_library/src/semantics/concatenation_term.cpp
index d30c5a3..8fedafc 100644
--- a/parser_library/src/semantics/concatenation_term.cpp
+++ b/parser_library/src/semantics/concatenation_term.cpp
@@ -33,6 +33,9 @@ var_sym_conc::var_sym_conc(vs_ptr symbol)
 
 std::string var_sym_conc::evaluate(const expressions::evaluation_context& eval_ctx) const
 {
+    if (!symbol) // syntax error in the symbol
+        return "";
+
     auto value = symbol->evaluate(eval_ctx);
 
     return evaluate(std::move(value));
-- 
2.43.0


From a88753e22263ee3620af04bf482ee7ab01a012eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:14 +0000
Subject: [PATCH 72/89] fix: arithmetic of symbols and location counters does
 not overflow

---
 .../src/context/ordinary_assembly/address.cpp | 19 ++++++++++++++-----
 .../location_counter_data.cpp                 | 16 +++++++++++-----
 .../src/context/ordinary_assembly/symbol.cpp  | 17 ++++++++++++-----
 3 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/address.cpp b/parser_library/src/context/ordinary_assembly/address.cpp
index 7b1588b..f18ee37 100644
--- a/parser_library/src/context/ordinary_assembly/address.cpp
+++ b/parser_library/src/context/ordinary_assembly/address.cpp
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdint>
 #include <sstream>
 #include <stdexcept>
 #include <unordered_map>
@@ -269,27 +270,35 @@ std::vector<T> merge_entries(const std::vector<T>& lhs, const std::vector<T>& rh
     return res;
 }
 
+// offsets wrap around at 32 bits
+static int wrap(std::int64_t value) { return static_cast<int>(static_cast<std::uint32_t>(value)); }
+
 address address::operator+(const address& addr) const
 {
     return address(merge_entries(bases_, addr.bases_, op::ADD),
-        offset() + addr.offset(),
+        wrap(static_cast<std::int64_t>(offset()) + addr.offset()),
         merge_entries(normalized_spaces(), addr.normalized_spaces(), op::ADD));
 }
 
-address address::operator+(int offs) const { return address(bases_, offset_ + offs, spaces_); }
+address address::operator+(int offs) const { return address(bases_, wrap(static_cast<std::int64_t>(offset_) + offs), spaces_); }
 
 address address::operator-(const address& addr) const
 {
     return address(merge_entries(bases_, addr.bases_, op::SUB),
-        offset() - addr.offset(),
+        wrap(static_cast<std::int64_t>(offset()) - addr.offset()),
         merge_entries(normalized_spaces(), addr.normalized_spaces(), op::SUB));
 }
 
-address address::operator-(int offs) const { return address(bases_, offset() - offs, normalized_spaces()); }
+address address::operator-(int offs) const
+{
+    return address(bases_, wrap(static_cast<std::int64_t>(offset()) - offs), normalized_spaces());
+}
 
 address address::operator-() const
 {
-    return address(merge_entries({}, bases_, op::SUB), -offset(), merge_entries({}, normalized_spaces(), op::SUB));
+    return address(merge_entries({}, bases_, op::SUB),
+        wrap(-static_cast<std::int64_t>(offset())),
+        merge_entries({}, normalized_spaces(), op::SUB));
 }
 
 bool address::is_complex() const { return bases_.size() > 1; }
diff --git a/parser_library/src/context/ordinary_assembly/location_counter_data.cpp b/parser_library/src/context/ordinary_assembly/location_counter_data.cpp
index 2647710..30ab376 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter_data.cpp
+++ b/parser_library/src/context/ordinary_assembly/location_counter_data.cpp
@@ -37,14 +37,20 @@ void location_counter_data::append_space(space_ptr sp)
     current_safe_area = 0;
 }
 
+// sizes wrap around at 32 bits
+static void add_size(int& size, int st)
+{
+    size = static_cast<int>(static_cast<unsigned>(size) + static_cast<unsigned>(st));
+}
+
 void location_counter_data::append_storage(int st)
 {
-    storage += st;
+    add_size(storage, st);
     if (unknown_parts.size())
-        unknown_parts.back().storage_after += st;
+        add_size(unknown_parts.back().storage_after, st);
     else
-        initial_storage += st;
-    current_safe_area += st;
+        add_size(initial_storage, st);
+    add_size(current_safe_area, st);
 }
 
 void location_counter_data::append_data(location_counter_data data)
@@ -54,7 +60,7 @@ void location_counter_data::append_data(location_counter_data data)
     data.unknown_parts.pop_front(); // the first unknown part is substitiuted by this data
 
     for (const auto& part : data.unknown_parts)
-        storage += part.storage_after;
+        add_size(storage, part.storage_after);
 
     unknown_parts.insert(unknown_parts.end(),
         std::make_move_iterator(data.unknown_parts.begin()),
diff --git a/parser_library/src/context/ordinary_assembly/symbol.cpp b/parser_library/src/context/ordinary_assembly/symbol.cpp
index aaf236c..2334e4b 100644
--- a/parser_library/src/context/ordinary_assembly/symbol.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol.cpp
@@ -15,6 +15,7 @@
 #include "symbol.h"
 
 #include <assert.h>
+#include <cstdint>
 #include <stdexcept>
 
 using namespace hlasm_plugin::parser_library;
@@ -30,6 +31,12 @@ symbol_value::symbol_value(reloc_value_t value)
 
 symbol_value::symbol_value() {}
 
+// values wrap around at 32 bits
+static symbol_value::abs_value_t wrap(std::int64_t value)
+{
+    return static_cast<symbol_value::abs_value_t>(static_cast<std::uint32_t>(value));
+}
+
 symbol_value symbol_value::operator+(const symbol_value& value) const
 {
     if (value_kind() == symbol_value_kind::UNDEF || value.value_kind() == symbol_value_kind::UNDEF)
@@ -38,7 +45,7 @@ symbol_value symbol_value::operator+(const symbol_value& value) const
     if (value_kind() == symbol_value_kind::ABS)
     {
         if (value.value_kind() == symbol_value_kind::ABS)
-            return get_abs() + value.get_abs();
+            return wrap(static_cast<std::int64_t>(get_abs()) + value.get_abs());
         else
             return value.get_reloc() + get_abs();
     }
@@ -70,7 +77,7 @@ symbol_value symbol_value::operator-(const symbol_value& value) const
     if (value_kind() == symbol_value_kind::ABS)
     {
         if (value.value_kind() == symbol_value_kind::ABS)
-            return get_abs() - value.get_abs();
+            return wrap(static_cast<std::int64_t>(get_abs()) - value.get_abs());
         else
             return -value.get_reloc() + get_abs();
     }
@@ -97,7 +104,7 @@ symbol_value symbol_value::operator-(const symbol_value& value) const
 symbol_value symbol_value::operator*(const symbol_value& value) const
 {
     if (value_kind() == symbol_value_kind::ABS && value.value_kind() == symbol_value_kind::ABS)
-        return get_abs() * value.get_abs();
+        return wrap(static_cast<std::int64_t>(get_abs()) * value.get_abs());
 
     return symbol_value();
 }
@@ -105,7 +112,7 @@ symbol_value symbol_value::operator*(const symbol_value& value) const
 symbol_value symbol_value::operator/(const symbol_value& value) const
 {
     if (value_kind() == symbol_value_kind::ABS && value.value_kind() == symbol_value_kind::ABS)
-        return value.get_abs() == 0 ? 0 : get_abs() / value.get_abs();
+        return value.get_abs() == 0 ? 0 : wrap(static_cast<std::int64_t>(get_abs()) / value.get_abs());
 
     return symbol_value();
 }
@@ -115,7 +122,7 @@ symbol_value symbol_value::operator-() const
     switch (value_kind())
     {
         case symbol_value_kind::ABS:
-            return -get_abs();
+            return wrap(-static_cast<std::int64_t>(get_abs()));
         case symbol_value_kind::RELOC:
             return -get_reloc();
         case symbol_value_kind::UNDEF:
-- 
2.43.0


From 92655d43808853e8e45d49ee96baa3ff3a80cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:14 +0000
Subject: [PATCH 73/89] fix: duplicate sequence symbols found by lookahead are
 reported in open code

---
 .../src/processing/processing_manager.cpp         | 15 +++++++++++++--
 .../src/processing/processing_manager.h           |  1 +
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/processing/processing_manager.cpp b/parser_library/src/processing/processing_manager.cpp
index 4f0151d..4012664 100644
--- a/parser_library/src/processing/processing_manager.cpp
+++ b/parser_library/src/processing/processing_manager.cpp
@@ -301,15 +301,26 @@ void processing_manager::register_sequence_symbol(context::id_index target, rang
     }
     else if (!(*symbol->access_opencode_symbol() == *new_symbol))
     {
-        add_diagnostic(diagnostic_op::error_E045(*target, symbol_range));
+        if (hlasm_ctx_.is_in_macro()) // the statement is in open code, not in the macro that triggered the lookahead
+            diagnosable_impl::add_diagnostic(
+                diagnostic_s(opencode_statement_file(), diagnostic_op::error_E045(*target, symbol_range)));
+        else
+            add_diagnostic(diagnostic_op::error_E045(*target, symbol_range));
     }
 }
 
+const std::string& processing_manager::opencode_statement_file() const
+{
+    const auto& source = hlasm_ctx_.current_source();
+    return source.copy_stack.empty() ? source.current_instruction.file
+                                     : source.copy_stack.back().definition_location.file;
+}
+
 std::unique_ptr<context::opencode_sequence_symbol> processing_manager::create_opencode_sequence_symbol(
     context::id_index name, range symbol_range)
 {
     auto symbol_pos = symbol_range.start;
-    location loc(symbol_pos, hlasm_ctx_.processing_stack().back().proc_location.file);
+    location loc(symbol_pos, opencode_statement_file());
 
     auto&& [statement_position, snapshot] = hlasm_ctx_.get_begin_snapshot(attr_lookahead_active());
 
diff --git a/parser_library/src/processing/processing_manager.h b/parser_library/src/processing/processing_manager.h
index 7709edc..046b0e4 100644
--- a/parser_library/src/processing/processing_manager.h
+++ b/parser_library/src/processing/processing_manager.h
@@ -80,6 +80,7 @@ private:
 
     void jump_in_statements(context::id_index target, range symbol_range) override;
     void register_sequence_symbol(context::id_index target, range symbol_range) override;
+    const std::string& opencode_statement_file() const;
     std::unique_ptr<context::opencode_sequence_symbol> create_opencode_sequence_symbol(
         context::id_index name, range symbol_range);
 
-- 
2.43.0


From 55e3894412358fa233cbbe35ce9b4aed2792d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:14 +0000
Subject: [PATCH 74/89] fix: too deep macro nesting is reported in the file of
 the macro

---
 .../src/processing/statement_processors/ordinary_processor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/statement_processors/ordinary_processor.cpp b/parser_library/src/processing/statement_processors/ordinary_processor.cpp
index c548fb4..8b03d2d 100644
--- a/parser_library/src/processing/statement_processors/ordinary_processor.cpp
+++ b/parser_library/src/processing/statement_processors/ordinary_processor.cpp
@@ -228,10 +228,11 @@ bool ordinary_processor::check_fatals(range line_range)
 {
     if (hlasm_ctx.scope_stack().size() > NEST_LIMIT)
     {
+        add_diagnostic(diagnostic_op::error_E055(line_range));
+
         while (hlasm_ctx.is_in_macro())
             hlasm_ctx.leave_macro();
 
-        add_diagnostic(diagnostic_op::error_E055(line_range));
         return true;
     }
 
-- 
2.43.0


From a1b8afd32d304003c070d9c18e5a951cd1077be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:14 +0000
Subject: [PATCH 75/89] fix: copy members without statements have a location

---
 .../src/processing/statement_processors/copy_processor.cpp       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_library/src/processing/statement_processors/copy_processor.cpp b/parser_library/src/processing/statement_processors/copy_processor.cpp
index 2836ca5..aee1b5a 100644
--- a/parser_library/src/processing/statement_processors/copy_processor.cpp
+++ b/parser_library/src/processing/statement_processors/copy_processor.cpp
@@ -28,6 +28,7 @@ copy_processor::copy_processor(analyzing_context ctx, processing_state_listener&
 {
     result_.member_name = start_.member_name;
     result_.invalid_member = false;
+    result_.definition_location = hlasm_ctx.processing_stack().back().proc_location;
 }
 
 processing_status copy_processor::get_processing_status(const semantics::instruction_si& instruction) const
-- 
2.43.0


From 531ffeb48faa277cf05249372693f428b8f2263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:49 +0000
Subject: [PATCH 76/89] fix: find the label of MEND in the macro it ends

---
 .../processing/statement_analyzers/lsp_analyzer.cpp  | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp b/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
index c461e37..aa014ae 100644
--- a/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
+++ b/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
@@ -57,12 +57,14 @@ void lsp_analyzer::analyze(
             }
             break;
         case processing_kind::MACRO:
+            // Do not collect occurences in nested macros to avoid collecting occurences multiple times
+            if (macro_nest_ <= 1)
+            {
+                collect_occurences(lsp::occurence_kind::VAR, statement);
+                collect_occurences(lsp::occurence_kind::SEQ, statement);
+                collect_copy_operands(statement);
+            }
             update_macro_nest(statement);
-            if (macro_nest_ > 1)
-                break; // Do not collect occurences in nested macros to avoid collecting occurences multiple times
-            collect_occurences(lsp::occurence_kind::VAR, statement);
-            collect_occurences(lsp::occurence_kind::SEQ, statement);
-            collect_copy_operands(statement);
             break;
         default:
             break;
-- 
2.43.0


From 6532d013abe4136f22d38f801dae345d4d214c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:49 +0000
Subject: [PATCH 77/89] fix: scope of copy members inside macro definitions

---
 parser_library/src/lsp/file_info.cpp          | 32 ++++++++++++-------
 parser_library/src/lsp/file_info.h            |  6 ++--
 parser_library/src/lsp/lsp_context.cpp        |  2 +-
 .../macrodef_processor.cpp                    |  5 +--
 4 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/parser_library/src/lsp/file_info.cpp b/parser_library/src/lsp/file_info.cpp
index 8dadce8..2cbb42c 100644
--- a/parser_library/src/lsp/file_info.cpp
+++ b/parser_library/src/lsp/file_info.cpp
@@ -15,6 +15,7 @@
 #include "file_info.h"
 
 #include <algorithm>
+#include <limits>
 
 #include "workspaces/file_impl.h"
 
@@ -110,8 +111,12 @@ void file_info::update_slices(const std::vector<file_slice_t>& slices_upd)
     }
 }
 
-file_slice_t file_slice_t::transform_slice(const macro_slice_t& slice, macro_info_ptr macro_i)
+file_slice_t file_slice_t::transform_slice(
+    const macro_slice_t& slice, const std::string& file, macro_info_ptr macro_i)
 {
+    const auto& nests = macro_i->macro_definition->copy_nests;
+    // is the statement written in the file of the slice (and not in a file that copies it)
+    const auto in_file = [&nests, &file](size_t stmt) { return stmt < nests.size() && nests[stmt].back().file == file; };
     file_slice_t fslice;
 
     fslice.macro_lines.begin = slice.begin_statement;
@@ -119,16 +124,19 @@ file_slice_t file_slice_t::transform_slice(const macro_slice_t& slice, macro_inf
 
     if (slice.begin_statement == 0)
         fslice.file_lines.begin = macro_i->definition_location.pos.line;
-    else if (slice.begin_statement == macro_i->macro_definition->copy_nests.size())
-        // the definition ends unexpectedly behind an inner macro
-        fslice.file_lines.begin = macro_i->macro_definition->copy_nests.back().back().pos.line + 1;
+    else if (in_file(slice.begin_statement))
+        fslice.file_lines.begin = nests[slice.begin_statement].back().pos.line;
+    else // the slice begins behind an inner macro
+        fslice.file_lines.begin = nests[slice.begin_statement - 1].back().pos.line + 1;
+
+    if (in_file(slice.end_statement))
+        fslice.file_lines.end = nests[slice.end_statement].back().pos.line;
+    else if (file != macro_i->definition_location.file) // the rest of the copy member
+        fslice.file_lines.end = std::numeric_limits<size_t>::max();
+    else if (slice.end_statement != 0)
+        fslice.file_lines.end = nests[slice.end_statement - 1].back().pos.line + 1;
     else
-        fslice.file_lines.begin = macro_i->macro_definition->copy_nests[fslice.macro_lines.begin].back().pos.line;
-
-    if (slice.end_statement == macro_i->macro_definition->copy_nests.size())
-        fslice.file_lines.end = macro_i->macro_definition->copy_nests.back().back().pos.line + 1;
-    else
-        fslice.file_lines.end = macro_i->macro_definition->copy_nests[fslice.macro_lines.end].back().pos.line;
+        fslice.file_lines.end = fslice.file_lines.begin + 1;
 
     fslice.type = slice.inner_macro ? scope_type::INNER_MACRO : scope_type::MACRO;
     fslice.macro_context = macro_i;
@@ -137,11 +145,11 @@ file_slice_t file_slice_t::transform_slice(const macro_slice_t& slice, macro_inf
 }
 
 std::vector<file_slice_t> file_slice_t::transform_slices(
-    const std::vector<macro_slice_t>& slices, macro_info_ptr macro_i)
+    const std::vector<macro_slice_t>& slices, const std::string& file, macro_info_ptr macro_i)
 {
     std::vector<file_slice_t> ret;
     for (const auto& s : slices)
-        ret.push_back(transform_slice(s, macro_i));
+        ret.push_back(transform_slice(s, file, macro_i));
     return ret;
 }
 
diff --git a/parser_library/src/lsp/file_info.h b/parser_library/src/lsp/file_info.h
index 39ee34c..b3f756d 100644
--- a/parser_library/src/lsp/file_info.h
+++ b/parser_library/src/lsp/file_info.h
@@ -53,8 +53,10 @@ struct file_slice_t
     // range of slice within file
     line_range file_lines;
 
-    static file_slice_t transform_slice(const macro_slice_t& slice, macro_info_ptr macro_i);
-    static std::vector<file_slice_t> transform_slices(const std::vector<macro_slice_t>& slices, macro_info_ptr macro_i);
+    static file_slice_t transform_slice(
+        const macro_slice_t& slice, const std::string& file, macro_info_ptr macro_i);
+    static std::vector<file_slice_t> transform_slices(
+        const std::vector<macro_slice_t>& slices, const std::string& file, macro_info_ptr macro_i);
 };
 
 enum class file_type
diff --git a/parser_library/src/lsp/lsp_context.cpp b/parser_library/src/lsp/lsp_context.cpp
index 01c2c57..d321aff 100644
--- a/parser_library/src/lsp/lsp_context.cpp
+++ b/parser_library/src/lsp/lsp_context.cpp
@@ -348,7 +348,7 @@ void lsp_context::distribute_macro_i(macro_info_ptr macro_i)
     assert(files_present(files_, macro_i->file_scopes_));
 
     for (const auto& [file, slices] : macro_i->file_scopes_)
-        files_[file]->update_slices(file_slice_t::transform_slices(slices, macro_i));
+        files_[file]->update_slices(file_slice_t::transform_slices(slices, file, macro_i));
 
     distribute_file_occurences(macro_i->file_occurences_);
 }
diff --git a/parser_library/src/processing/statement_processors/macrodef_processor.cpp b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
index 6c1804b..8c4491f 100644
--- a/parser_library/src/processing/statement_processors/macrodef_processor.cpp
+++ b/parser_library/src/processing/statement_processors/macrodef_processor.cpp
@@ -477,10 +477,7 @@ void macrodef_processor::add_correct_copy_nest()
 
     if (result_.file_scopes[current_file].empty())
     {
-        if (curr_line_ == 1)
-            result_.file_scopes[current_file].emplace_back(0, curr_line_, in_inner_macro);
-        else
-            result_.file_scopes[current_file].emplace_back(curr_line_, in_inner_macro);
+        result_.file_scopes[current_file].emplace_back(result_.nests.size() - 1, result_.nests.size(), in_inner_macro);
     }
     else
     {
-- 
2.43.0


From 1d2572b638fcc873d37a2ba82d69f486b79c8753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:03 +0000
Subject: [PATCH 78/89] fix: occurrences of variable symbols in strings and
 subscripts

---
 parser_library/src/lsp/file_info.cpp                |  8 ++++----
 .../statement_analyzers/occurence_collector.cpp     | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/lsp/file_info.cpp b/parser_library/src/lsp/file_info.cpp
index 2cbb42c..1ef8f76 100644
--- a/parser_library/src/lsp/file_info.cpp
+++ b/parser_library/src/lsp/file_info.cpp
@@ -59,11 +59,11 @@ occurence_scope_t file_info::find_occurence_with_scope(position pos) const
 
     // find in occurences
     for (const auto& occ : occurences)
-        if (is_in_range(pos, occ.occurence_range))
-        {
+        // the innermost one, a variable symbol may be written in the subscript of another one
+        if (is_in_range(pos, occ.occurence_range)
+            && (!found || std::tie(found->occurence_range.start.line, found->occurence_range.start.column)
+                    < std::tie(occ.occurence_range.start.line, occ.occurence_range.start.column)))
             found = &occ;
-            break;
-        }
 
     // if not found, return
     if (!found)
diff --git a/parser_library/src/processing/statement_analyzers/occurence_collector.cpp b/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
index a16ce4e..441fa6b 100644
--- a/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
+++ b/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
@@ -121,6 +121,9 @@ void occurence_collector::get_occurence(const semantics::variable_symbol& var)
         else
             occurences.emplace_back(lsp::occurence_kind::VAR, var.access_basic()->name, var.symbol_range);
     }
+    for (const auto& subscript : var.subscript)
+        if (subscript)
+            subscript->apply(*this);
 }
 
 void occurence_collector::get_occurence(const semantics::seq_sym& seq)
@@ -151,7 +154,7 @@ void occurence_collector::get_occurence(const semantics::concat_chain& chain)
                 }
                 break;
             case semantics::concat_type::VAR:
-                if (collector_kind == lsp::occurence_kind::VAR && point->access_var()->symbol)
+                if (point->access_var()->symbol)
                     get_occurence(*point->access_var()->symbol);
                 break;
             case semantics::concat_type::SUB:
@@ -202,6 +205,14 @@ void occurence_collector::visit(const expressions::ca_string& expr)
 {
     if (expr.duplication_factor)
         expr.duplication_factor->apply(*this);
+    // only variable symbols are substituted in a string
+    for (const auto& point : expr.value)
+        if (point->type == semantics::concat_type::VAR && point->access_var()->symbol)
+            get_occurence(*point->access_var()->symbol);
+    if (expr.substring.start)
+        expr.substring.start->apply(*this);
+    if (expr.substring.count)
+        expr.substring.count->apply(*this);
 }
 
 void occurence_collector::visit(const expressions::ca_symbol& expr) { get_occurence(expr.symbol, expr.expr_range); }
-- 
2.43.0


From 5d1650d5f1a29b7802df1c5a03cf70442b9b6501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:24 +0000
Subject: [PATCH 79/89] fix: occurrences of variable symbols in strings of
 macro statements

---
 .../parsing/grammar/deferred_operand_rules.g4 | 20 ++++++++++---------
 .../parsing/grammar/macro_operand_rules.g4    |  6 +++---
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/parser_library/src/parsing/grammar/deferred_operand_rules.g4 b/parser_library/src/parsing/grammar/deferred_operand_rules.g4
index e53eb85..526f149 100644
--- a/parser_library/src/parsing/grammar/deferred_operand_rules.g4
+++ b/parser_library/src/parsing/grammar/deferred_operand_rules.g4
@@ -15,30 +15,32 @@
  //rules for deferred operand
 parser grammar deferred_operand_rules;
 
-deferred_entry returns [vs_ptr vs]
-	: mac_preproc_c					{$vs = std::move($mac_preproc_c.vs);}
+deferred_entry returns [std::vector<vs_ptr> vars]
+	: mac_preproc_c					{$vars = std::move($mac_preproc_c.vars);}
 	| apostrophe
 	| comma
 	| AMPERSAND
 	| IGNORED; 
 
-def_string_body
+def_string_body returns [vs_ptr vs]
 	: string_ch_v
+	{
+		if ($string_ch_v.point && $string_ch_v.point->type == concat_type::VAR)
+			$vs = std::move($string_ch_v.point->access_var()->symbol);
+	}
 	| IGNORED
 	| CONTINUATION;
 
-def_string returns [concat_chain chain]
-	: ap1=APOSTROPHE def_string_body* ap2=(APOSTROPHE|ATTR)	
+def_string returns [std::vector<vs_ptr> vars]
+	: ap1=APOSTROPHE (def_string_body {if ($def_string_body.vs) $vars.push_back(std::move($def_string_body.vs));})* ap2=(APOSTROPHE|ATTR)	
 	{ 
 		collector.add_hl_symbol(token_info(provider.get_range($ap1,$ap2),hl_scopes::string)); 
 	};
-	finally
-	{concatenation_point::clear_concat_chain($chain);}
 
 deferred_op_rem returns [remark_list remarks, std::vector<vs_ptr> var_list]
-	: (deferred_entry {if ($deferred_entry.vs) $var_list.push_back(std::move($deferred_entry.vs));})* 
+	: (deferred_entry {std::move($deferred_entry.vars.begin(), $deferred_entry.vars.end(), std::back_inserter($var_list));})* 
 	remark_o {if($remark_o.value) $remarks.push_back(*$remark_o.value);} 
 	(CONTINUATION 
-	(deferred_entry {if ($deferred_entry.vs) $var_list.push_back(std::move($deferred_entry.vs));})* 
+	(deferred_entry {std::move($deferred_entry.vars.begin(), $deferred_entry.vars.end(), std::back_inserter($var_list));})* 
 	remark_o {if($remark_o.value) $remarks.push_back(*$remark_o.value);} 
 	)*;
\ No newline at end of file
diff --git a/parser_library/src/parsing/grammar/macro_operand_rules.g4 b/parser_library/src/parsing/grammar/macro_operand_rules.g4
index 0145964..3beefc2 100644
--- a/parser_library/src/parsing/grammar/macro_operand_rules.g4
+++ b/parser_library/src/parsing/grammar/macro_operand_rules.g4
@@ -38,7 +38,7 @@ macro_ops returns [operand_list list]
 
 mac_preproc: mac_preproc_c+;
 
-mac_preproc_c returns [vs_ptr vs]
+mac_preproc_c returns [std::vector<vs_ptr> vars]
 	: asterisk
 	| minus
 	| plus
@@ -54,7 +54,7 @@ mac_preproc_c returns [vs_ptr vs]
 	| AMPERSAND ORDSYMBOL									
 	{
 		auto r = provider.get_range($AMPERSAND,$ORDSYMBOL);
-		$vs = std::make_unique<basic_variable_symbol>(hlasm_ctx->ids().add($ORDSYMBOL->getText()), std::vector<ca_expr_ptr>(), r);
+		$vars.push_back(std::make_unique<basic_variable_symbol>(hlasm_ctx->ids().add($ORDSYMBOL->getText()), std::vector<ca_expr_ptr>(), r));
 		collector.add_hl_symbol(token_info(r,hl_scopes::var_symbol));
 	}
 	| AMPERSAND LPAR
@@ -62,7 +62,7 @@ mac_preproc_c returns [vs_ptr vs]
 	| lpar
 	| rpar
 	| attr
-	| def_string;
+	| def_string												{$vars = std::move($def_string.vars);};
 
 mac_str_ch returns [concat_point_ptr point]
 	: common_ch_v									{$point = std::move($common_ch_v.point);}
-- 
2.43.0


From 162788efd9f2f893472926b33a997c9d2b47f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:31 +0000
Subject: [PATCH 80/89] fix: completion of instructions behind a one-character
 name

---
 parser_library/src/lsp/lsp_context.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/parser_library/src/lsp/lsp_context.cpp b/parser_library/src/lsp/lsp_context.cpp
index d321aff..6a745f4 100644
--- a/parser_library/src/lsp/lsp_context.cpp
+++ b/parser_library/src/lsp/lsp_context.cpp
@@ -15,7 +15,6 @@
 #include "lsp_context.h"
 
 #include <cassert>
-#include <regex>
 #include <sstream>
 #include <string_view>
 
@@ -168,17 +167,27 @@ size_t constexpr continuation_column = 71;
 
 bool lsp_context::is_continued_line(std::string_view line) const
 {
-    return line.size() > continuation_column && !isspace(line[continuation_column]);
+    return line.size() > continuation_column && !isspace((unsigned char)line[continuation_column]);
 }
 
+bool is_comment(std::string_view line) { return line.substr(0, 1) == "*" || line.substr(0, 2) == ".*"; }
+
 bool lsp_context::should_complete_instr(const text_data_ref_t& text, const position pos) const
 {
     bool line_before_continued = pos.line > 0 ? is_continued_line(text.get_line(pos.line - 1)) : false;
 
     std::string_view line_so_far = text.get_line_beginning(pos);
-
-    static const std::regex instruction_regex("^([^*][^*]\\S*\\s+\\S+|\\s+\\S*)");
-    return !line_before_continued && std::regex_match(line_so_far.begin(), line_so_far.end(), instruction_regex);
+    if (line_before_continued || is_comment(line_so_far))
+        return false;
+
+    static constexpr std::string_view whitespace = " \t\n\v\f\r";
+    auto label_end = line_so_far.find_first_of(whitespace);
+    if (label_end == std::string_view::npos)
+        return false;
+    auto instr_begin = line_so_far.find_first_not_of(whitespace, label_end);
+    if (instr_begin == std::string_view::npos)
+        return label_end == 0;
+    return line_so_far.find_first_of(whitespace, instr_begin) == std::string_view::npos;
 }
 
 completion_list_s lsp_context::completion(const std::string& document_uri,
@@ -269,9 +278,6 @@ std::string get_macro_signature(const context::macro_definition& m)
 }
 
 
-bool is_comment(std::string_view line) { return line.substr(0, 1) == "*" || line.substr(0, 2) == ".*"; }
-
-
 std::string lsp_context::get_macro_documentation(const macro_info& m) const
 {
     // Get file, where the macro is defined
-- 
2.43.0


From 3b1b288f7464bd346199550635e8c0dfee17034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:51 +0000
Subject: [PATCH 81/89] fix: highlight the type of data definitions that
 consist of it alone

---
 parser_library/src/expressions/data_definition.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/parser_library/src/expressions/data_definition.cpp b/parser_library/src/expressions/data_definition.cpp
index 5133913..68e07de 100644
--- a/parser_library/src/expressions/data_definition.cpp
+++ b/parser_library/src/expressions/data_definition.cpp
@@ -645,12 +645,8 @@ data_definition data_definition::parser::parse()
     range unified_type_range = result_.type_range;
     update_position_by_one();
 
-
-    if (p_ >= format_.size())
-        return std::move(result_);
-
     // E is an extension of type C only, otherwise it is the exponent modifier
-    if (is_type_extension(format_[p_]) && (format_[p_] != 'E' || result_.type == 'C'))
+    if (p_ < format_.size() && is_type_extension(format_[p_]) && (format_[p_] != 'E' || result_.type == 'C'))
     {
         skip_continuation();
         result_.extension = format_[p_];
-- 
2.43.0


From 433af67005681ea533906a70e07d248d1ddef4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:31 +0000
Subject: [PATCH 82/89] fix: do not process records consumed by AREAD again
 after an attribute lookahead

---
 parser_library/src/parsing/parser_impl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser_library/src/parsing/parser_impl.cpp b/parser_library/src/parsing/parser_impl.cpp
index 791e161..99bdb71 100644
--- a/parser_library/src/parsing/parser_impl.cpp
+++ b/parser_library/src/parsing/parser_impl.cpp
@@ -65,8 +65,16 @@ std::string parser_impl::aread()
     std::string line = input_lexer->aread();
 
     if (input_lexer->eof_generated())
+    const auto previous_end = statement_end();
         finished_flag = true;
     input_tokens_invalidated = true;
+    // the record was consumed, processing must not return to it
+    if (const auto end = statement_end(); end.file_offset > previous_end.file_offset)
+    {
+        const auto& source = hlasm_ctx->current_source();
+        hlasm_ctx->set_source_indices(source.begin_index, end.file_offset, source.begin_line, end.file_line);
+    }
+
 
     if (!line.empty())
         line.resize(80, ' ');
-- 
2.43.0


From cb3710c6db9ef54e9719533a148a8dbdf26e0f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:31 +0000
Subject: [PATCH 83/89] fix: do not lose tokens when the input is rewound
 behind AREAD

---
 parser_library/src/parsing/parser_impl.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/parsing/parser_impl.cpp b/parser_library/src/parsing/parser_impl.cpp
index 99bdb71..8e3f457 100644
--- a/parser_library/src/parsing/parser_impl.cpp
+++ b/parser_library/src/parsing/parser_impl.cpp
@@ -57,17 +57,17 @@ void parser_impl::rewind_input(context::source_position pos)
 {
     finished_flag = false;
     _matchedEOF = false;
-    input.rewind_input(lexing::lexer::stream_position { pos.file_line, pos.file_offset });
+    if (const lexing::lexer::stream_position stream_pos { pos.file_line, pos.file_offset }; input_tokens_invalidated)
+        input_lexer->rewind_input(stream_pos); // the tokens are read anew
+    else
+        input.rewind_input(stream_pos);
 }
 
 std::string parser_impl::aread()
 {
+    const auto previous_end = statement_end();
     std::string line = input_lexer->aread();
 
-    if (input_lexer->eof_generated())
-    const auto previous_end = statement_end();
-        finished_flag = true;
-    input_tokens_invalidated = true;
     // the record was consumed, processing must not return to it
     if (const auto end = statement_end(); end.file_offset > previous_end.file_offset)
     {
@@ -75,6 +75,9 @@ std::string parser_impl::aread()
         hlasm_ctx->set_source_indices(source.begin_index, end.file_offset, source.begin_line, end.file_line);
     }
 
+    if (input_lexer->eof_generated())
+        finished_flag = true;
+    input_tokens_invalidated = true;
 
     if (!line.empty())
         line.resize(80, ' ');
-- 
2.43.0


From a069d6fd72137e430659ebddf1a0af59bcf86205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:29 +0000
Subject: [PATCH 84/89] fix: clamp text positions behind the end of a line

---
 parser_library/src/workspaces/file_impl.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index bda533c..3e34bab 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -199,7 +199,18 @@ size_t file_impl::index_from_position(const std::string& text, const std::vector
     size_t i = line_indices[loc.line];
     size_t utf16_counter = 0;
 
-    while (utf16_counter < end && i < text.size())
+    // a position behind the end of the line denotes the end of the line
+    size_t line_end = text.size();
+    if (loc.line + 1 < line_indices.size())
+    {
+        line_end = line_indices[loc.line + 1];
+        if (line_end > i && text[line_end - 1] == '\n')
+            --line_end;
+        if (line_end > i && text[line_end - 1] == '\r')
+            --line_end;
+    }
+
+    while (utf16_counter < end && i < line_end)
     {
         if (!utf8_one_byte_begin(text[i]))
         {
-- 
2.43.0


From 1130f0a4bb69b8813501a841e80350bf66df493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:31 +0000
Subject: [PATCH 85/89] fix: insertContinuation on lines with text behind the
 continuation column

---
 clients/vscode-hlasmplugin/src/continuationHandler.ts | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/clients/vscode-hlasmplugin/src/continuationHandler.ts b/clients/vscode-hlasmplugin/src/continuationHandler.ts
index c76215b..d90a538 100644
--- a/clients/vscode-hlasmplugin/src/continuationHandler.ts
+++ b/clients/vscode-hlasmplugin/src/continuationHandler.ts
@@ -31,12 +31,8 @@ export class ContinuationHandler {
         const isContinued = isLineContinued(editor.document, sel.active.line, continuationOffset);
 
         if (!isContinued) {
-            if (sel.active.character < continuationOffset) {
-                const lastChar =
-                    (sel.active.character < continuationOffset)
-                        ? editor.document.lineAt(sel.active).text.length
-                        : continuationOffset;
-
+            const lastChar = editor.document.lineAt(sel.active).text.length;
+            if (lastChar < continuationOffset) {
                 edit.insert(
                     new vscode.Position(sel.active.line, lastChar),
                     " ".repeat(continuationOffset - lastChar));
-- 
2.43.0


From 9eddbc527ace63d097086a74633fa2509483227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:31 +0000
Subject: [PATCH 86/89] fix: delete left with a selection starting in column 0
 or in an empty column 0

---
 clients/vscode-hlasmplugin/src/customEditorCommands.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clients/vscode-hlasmplugin/src/customEditorCommands.ts b/clients/vscode-hlasmplugin/src/customEditorCommands.ts
index 3bc7e91..fcab147 100644
--- a/clients/vscode-hlasmplugin/src/customEditorCommands.ts
+++ b/clients/vscode-hlasmplugin/src/customEditorCommands.ts
@@ -146,7 +146,7 @@ export class CustomEditorCommands {
         // there is a continuation and it is after our position, handle it
         if (isLineContinued(editor.document, editor.selection.active.line, continuationOffset) &&
             endPos < continuationOffset &&
-            (editor.selection.active.character > 0 || selectionSize > 0) &&
+            endPos > 0 &&
             editor.selection.isSingleLine) {
             const beforeContinuationChars = new vscode.Range(
                 editor.selection.active.line, continuationOffset - Math.abs(selectionSize),
-- 
2.43.0


From 202fbf7123ba40c7b92d32886e6f4e45013587c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:31 +0000
Subject: [PATCH 87/89] fix: typing before a continuation removed a wrong
 character

---
 clients/vscode-hlasmplugin/src/customEditorCommands.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clients/vscode-hlasmplugin/src/customEditorCommands.ts b/clients/vscode-hlasmplugin/src/customEditorCommands.ts
index fcab147..f07c96f 100644
--- a/clients/vscode-hlasmplugin/src/customEditorCommands.ts
+++ b/clients/vscode-hlasmplugin/src/customEditorCommands.ts
@@ -172,17 +172,18 @@ export class CustomEditorCommands {
 
     // find space for line, used for custom type
     private findSpace(textLine: vscode.TextLine, length: number, editor: vscode.TextEditor, continuationOffset: number) {
+        const insertEnd = editor.selection.isSingleLine ? editor.selection.end.character : editor.selection.active.character;
         var spacePosition = continuationOffset - 1;
         var currentSymbol = textLine.text[spacePosition];
         // go backwards through all the symbols since the continuation and check whether there are enough spaces to compensate for the input
-        while (currentSymbol == " " && spacePosition > editor.selection.active.character && length > 0) {
+        while (currentSymbol == " " && spacePosition >= insertEnd && length > 0) {
             spacePosition--;
             length--;
             currentSymbol = textLine.text[spacePosition];
         }
         return (length > 0)
             ? null
-            : new vscode.Range(textLine.lineNumber, spacePosition, textLine.lineNumber, continuationOffset - 1);
+            : new vscode.Range(textLine.lineNumber, spacePosition + 1, textLine.lineNumber, continuationOffset);
     }
 }
 
-- 
2.43.0


From eb185f9f2b34ca3aa1517f45e33096e39adc92bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:39 +0000
Subject: [PATCH 88/89] fix: the navigation data keep the text they describe

---
 parser_library/src/lsp/text_data_ref_t.cpp | 26 ++++++++++------------
 parser_library/src/lsp/text_data_ref_t.h   |  5 ++---
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/parser_library/src/lsp/text_data_ref_t.cpp b/parser_library/src/lsp/text_data_ref_t.cpp
index 2f7d5b0..4298d47 100644
--- a/parser_library/src/lsp/text_data_ref_t.cpp
+++ b/parser_library/src/lsp/text_data_ref_t.cpp
@@ -19,7 +19,7 @@
 namespace hlasm_plugin::parser_library::lsp {
 
 text_data_ref_t::text_data_ref_t(const std::string& text)
-    : text(&text)
+    : text(text)
     , line_indices(workspaces::file_impl::create_line_indices(text))
 {}
 
@@ -27,18 +27,18 @@ std::string_view text_data_ref_t::get_line(size_t line) const
 {
     if (line >= line_indices.size())
         return "";
-    size_t line_end_i = (line < line_indices.size() - 1) ? line_indices[line + 1] : text->size();
+    size_t line_end_i = (line < line_indices.size() - 1) ? line_indices[line + 1] : text.size();
     size_t line_len = line_end_i - line_indices[line];
-    return std::string_view(*text).substr(line_indices[line], line_len);
+    return std::string_view(text).substr(line_indices[line], line_len);
 }
 
 std::string_view text_data_ref_t::get_line_beginning(position pos) const
 {
     if (pos.line >= line_indices.size())
         return "";
-    size_t line_end_i = workspaces::file_impl::index_from_position(*text, line_indices, pos);
+    size_t line_end_i = workspaces::file_impl::index_from_position(text, line_indices, pos);
     size_t line_len = line_end_i - line_indices[pos.line];
-    return std::string_view(*text).substr(line_indices[pos.line], line_len);
+    return std::string_view(text).substr(line_indices[pos.line], line_len);
 }
 
 
@@ -47,21 +47,19 @@ char text_data_ref_t::get_character_before(position pos) const
 {
     if (pos.column == 0)
         return '\0';
-    size_t index = workspaces::file_impl::index_from_position(*text, line_indices, { pos.line, pos.column - 1 });
-    return index < text->size() ? text->at(index) : '\0';
+    size_t index = workspaces::file_impl::index_from_position(text, line_indices, { pos.line, pos.column - 1 });
+    return index < text.size() ? text.at(index) : '\0';
 }
 
 std::string_view text_data_ref_t::get_range_content(range r) const
 {
-    size_t start_i = workspaces::file_impl::index_from_position(*text, line_indices, r.start);
-    size_t end_i = workspaces::file_impl::index_from_position(*text, line_indices, r.end);
-    if (start_i >= text->size())
-        return empty_text;
-    return std::string_view(&text->at(start_i), end_i - start_i);
+    size_t start_i = workspaces::file_impl::index_from_position(text, line_indices, r.start);
+    size_t end_i = workspaces::file_impl::index_from_position(text, line_indices, r.end);
+    if (start_i >= text.size())
+        return {};
+    return std::string_view(&text.at(start_i), end_i - start_i);
 }
 
 size_t text_data_ref_t::get_number_of_lines() const { return line_indices.size(); }
 
-std::string text_data_ref_t::empty_text;
-
 } // namespace hlasm_plugin::parser_library::lsp
diff --git a/parser_library/src/lsp/text_data_ref_t.h b/parser_library/src/lsp/text_data_ref_t.h
index d891490..03cc217 100644
--- a/parser_library/src/lsp/text_data_ref_t.h
+++ b/parser_library/src/lsp/text_data_ref_t.h
@@ -24,11 +24,10 @@ namespace hlasm_plugin::parser_library::lsp {
 
 class text_data_ref_t
 {
-    const std::string* text = &empty_text;
+    // a copy: the text of the file may change before it is analyzed again
+    std::string text;
     std::vector<size_t> line_indices;
 
-    static std::string empty_text;
-
 public:
     text_data_ref_t() = default;
     explicit text_data_ref_t(const std::string& text);
-- 
2.43.0


From 1eb90dac23fdba9a05763b53324c32a5c1e02f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:18 +0000
Subject: [PATCH 89/89] fix: no answers from the navigation data of an
 interrupted analysis

---
 parser_library/src/lsp/lsp_context.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/lsp/lsp_context.cpp b/parser_library/src/lsp/lsp_context.cpp
index 6a745f4..3b0c73c 100644
--- a/parser_library/src/lsp/lsp_context.cpp
+++ b/parser_library/src/lsp/lsp_context.cpp
@@ -109,7 +109,7 @@ location lsp_context::definition(const std::string& document_uri, const position
 {
     auto [occ, macro_scope] = find_occurence_with_scope(document_uri, pos);
 
-    if (!occ)
+    if (!occ || !opencode_) // the analysis may have been interrupted
         return { pos, document_uri };
 
     if (auto def = find_definition_location(*occ, macro_scope))
@@ -133,7 +133,7 @@ location_list lsp_context::references(const std::string& document_uri, const pos
 
     auto [occ, macro_scope] = find_occurence_with_scope(document_uri, pos);
 
-    if (!occ)
+    if (!occ || !opencode_) // the analysis may have been interrupted
         return {};
 
     if (occ->is_scoped())
@@ -157,7 +157,7 @@ hover_result lsp_context::hover(const std::string& document_uri, const position
 {
     auto [occ, macro_scope] = find_occurence_with_scope(document_uri, pos);
 
-    if (!occ)
+    if (!occ || !opencode_) // the analysis may have been interrupted
         return {};
 
     return find_hover(*occ, macro_scope);
@@ -196,7 +196,7 @@ completion_list_s lsp_context::completion(const std::string& document_uri,
     completion_trigger_kind trigger_kind) const
 {
     auto file_it = files_.find(document_uri);
-    if (file_it == files_.end())
+    if (file_it == files_.end() || !opencode_)
         return completion_list_s();
     const text_data_ref_t& text = file_it->second->data;
 
-- 
2.43.0

