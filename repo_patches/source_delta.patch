From a2c25e2f4528647a1b99423d94b3027777ca8709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 01/21] fix: search from every position and start each attempt
 clean

next() restarted one past wherever the failed attempt left the cursor,
which skipped positions, kept the groups and the rejection of the failed
attempt and never got past an empty match.
---
 src/match_result.hpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index fe5e0ba..739d512 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -176,23 +176,40 @@ namespace e_regex
              */
             constexpr __attribute__((always_inline)) auto next() noexcept
             {
-                data.match_groups = {};
-                data.actual_iterator_start = data.actual_iterator_end;
+                // Nothing was consumed, retry from the next character
+                auto skip = !data.accepted
+                            || data.actual_iterator_end
+                                   == data.actual_iterator_start;
 
-                while (data.actual_iterator_start < data.query.end())
+                if (!skip)
                 {
+                    data.actual_iterator_start = data.actual_iterator_end;
+                }
+
+                while (!skip || data.actual_iterator_start < data.query.end())
+                {
+                    if (skip)
+                    {
+                        ++data.actual_iterator_start;
+                    }
+
+                    skip                     = true;
+                    data.match_groups        = {};
+                    data.actual_iterator_end = data.actual_iterator_start;
+                    data.accepted            = true;
+
                     matcher::match(data);
 
                     if (data.accepted)
                     {
                         return true;
                     }
-
-                    data.actual_iterator_start
-                        = ++data.actual_iterator_end;
                 }
 
-                data.accepted = false;
+                data.match_groups        = {};
+                data.actual_iterator_end = data.actual_iterator_start;
+                data.accepted            = false;
+
                 return false;
             }
     };
-- 
2.43.0


From 1c16a93237790775758035d81d4509aeb6255b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 02/21] fix: do not read past the end in multi-character
 literals

---
 src/terminals/exact_matcher.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index f9ec4e4..7b4726f 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -35,7 +35,8 @@ namespace e_regex::terminals
                 for (const auto c:
                      pack_string<identifier, identifiers...>::string.to_view())
                 {
-                    if (c != *result.actual_iterator_end)
+                    if (result.actual_iterator_end >= result.query.end()
+                        || c != *result.actual_iterator_end)
                     {
                         result.actual_iterator_end = start;
                         result.accepted            = false;
-- 
2.43.0


From fe2f0eb7ae56db49ad3909b73fbe966b20e46d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 03/21] fix: anchors at the end of the input

$ dereferenced the end of the input and ^ rejected an empty input.
---
 src/terminals/anchors/end.hpp   | 3 ++-
 src/terminals/anchors/start.hpp | 6 ------
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/terminals/anchors/end.hpp b/src/terminals/anchors/end.hpp
index 4bfe158..ffdcd6c 100644
--- a/src/terminals/anchors/end.hpp
+++ b/src/terminals/anchors/end.hpp
@@ -34,7 +34,8 @@ namespace e_regex::terminals::anchors
                     = (result.actual_iterator_end == result.query.end())
                       || *result.actual_iterator_end == '\n';
 
-                if (*result.actual_iterator_end == '\n')
+                if (result
+                    && result.actual_iterator_end != result.query.end())
                 {
                     result.actual_iterator_end++;
                 }
diff --git a/src/terminals/anchors/start.hpp b/src/terminals/anchors/start.hpp
index e58799b..4228fb5 100644
--- a/src/terminals/anchors/start.hpp
+++ b/src/terminals/anchors/start.hpp
@@ -24,12 +24,6 @@ namespace e_regex::terminals::anchors
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                if (result.actual_iterator_end >= result.query.end())
-                {
-                    result.accepted = false;
-                    return result;
-                }
-
                 result = (result.actual_iterator_end
                           == result.query.begin());
 
-- 
2.43.0


From 08087d1a167ff945bb3e40332ff5b168acc7177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 04/21] fix: make the negated character classes match exactly
 one character

\D, \W, \S and \N did not compile, and \s consumed the character it
rejected, so that [^\s] consumed two.
---
 src/terminals/common.hpp           | 10 ++++++++--
 src/terminals/space_characters.hpp |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/terminals/common.hpp b/src/terminals/common.hpp
index 32bc961..67c8b94 100644
--- a/src/terminals/common.hpp
+++ b/src/terminals/common.hpp
@@ -41,6 +41,9 @@ namespace e_regex::terminals
         : public terminal_common<negated_terminal<terminal, admission_set>,
                                  admitted_set_complement_t<admission_set>>
     {
+            static constexpr auto expression
+                = "[^" + terminal::expression + "]";
+
             template<typename... injected_children>
             using optimize = negated_terminal;
 
@@ -48,8 +51,11 @@ namespace e_regex::terminals
             static constexpr __attribute__((always_inline)) auto
                 match_(auto& result) -> auto&
             {
-                result = terminal::match_(std::move(result));
-                result = !result.accepted;
+                const auto start = result.actual_iterator_end;
+
+                terminal::match_(result);
+                result                     = !result.accepted;
+                result.actual_iterator_end = start + result.accepted;
 
                 return result;
             }
diff --git a/src/terminals/space_characters.hpp b/src/terminals/space_characters.hpp
index 4ed983e..7b8ffbb 100644
--- a/src/terminals/space_characters.hpp
+++ b/src/terminals/space_characters.hpp
@@ -29,7 +29,10 @@ namespace e_regex::terminals
                                    *result.actual_iterator_end)
                          != matched.end();
 
-                result.actual_iterator_end++;
+                if (result)
+                {
+                    result.actual_iterator_end++;
+                }
 
                 return result;
             }
-- 
2.43.0


From 1422d79665d0b5bd452ea2db66651a1ec21790ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 05/21] fix: decode the hex digits A-F and reject 8 as an octal
 digit

---
 src/operators/hex.hpp   | 21 ++++++++++++++++-----
 src/operators/octal.hpp |  4 ++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/operators/hex.hpp b/src/operators/hex.hpp
index 94eeee2..bba6f54 100644
--- a/src/operators/hex.hpp
+++ b/src/operators/hex.hpp
@@ -8,7 +8,18 @@
 namespace e_regex
 {
     template<char C>
-    concept hex = C >= '0' && C <= 'F';
+    concept hex = (C >= '0' && C <= '9') || (C >= 'A' && C <= 'F')
+                  || (C >= 'a' && C <= 'f');
+
+    constexpr auto hex_value(char digit) noexcept -> int
+    {
+        if (digit >= 'a')
+        {
+            return digit - 'a' + 10;
+        }
+
+        return digit >= 'A' ? digit - 'A' + 10 : digit - '0';
+    }
 
     template<char... digits>
     struct hex_to_bin;
@@ -20,7 +31,7 @@ namespace e_regex
                           "Hex characters must be included between 0 and F");
 
             static constexpr char current
-                = ((first - '0') << 4) | (second - '0');
+                = (hex_value(first) << 4) | hex_value(second);
 
             using result
                 = merge_pack_strings_t<pack_string<current>,
@@ -34,8 +45,8 @@ namespace e_regex
                           "Hex characters must be included between 0 and F");
 
             static constexpr char current
-                = ((first - '0') << (4)) | (second - '0');
-            static constexpr char current_second = (third - '0') << 4;
+                = (hex_value(first) << (4)) | hex_value(second);
+            static constexpr char current_second = hex_value(third) << 4;
 
             using result = pack_string<current>;
     };
@@ -46,7 +57,7 @@ namespace e_regex
             static_assert(hex<first>,
                           "Hex characters must be included between 0 and F");
 
-            static constexpr char current = first - '0';
+            static constexpr char current = hex_value(first);
 
             using result = pack_string<current>;
     };
diff --git a/src/operators/octal.hpp b/src/operators/octal.hpp
index 7cc26e0..9b95c5e 100644
--- a/src/operators/octal.hpp
+++ b/src/operators/octal.hpp
@@ -7,7 +7,7 @@
 namespace e_regex
 {
     template<char C>
-    concept octal = C >= '0' && C <= '8';
+    concept octal = C >= '0' && C <= '7';
 
     template<char... digits>
     struct octal_to_bin;
@@ -16,7 +16,7 @@ namespace e_regex
     struct octal_to_bin<first, second, third, tail...>
     {
             static_assert(octal<first> && octal<second> && octal<third>,
-                          "Octal characters must be included between 0 and 8");
+                          "Octal characters must be included between 0 and 7");
 
             static constexpr char current = ((first - '0') << 6)
                                             | ((second - '0') << 3)
-- 
2.43.0


From cf14f8992f9204a01cd2fd1532e9425696b6e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 06/21] fix: number groups left to right across brackets,
 branches and nesting

---
 src/nodes/group.hpp               | 5 ++++-
 src/operators/round_brackets.hpp  | 4 ++--
 src/operators/square_brackets.hpp | 7 ++-----
 src/tree_builder/tree_builder.hpp | 2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 5fc7019..3d6ab55 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -25,7 +25,10 @@ namespace e_regex::nodes
                 .minimum_match_size = matcher::meta.minimum_match_size,
                 .maximum_match_size = matcher::meta.maximum_match_size};
 
-            static constexpr auto next_group_index = group_index + 1;
+            static constexpr auto next_group_index
+                = max(group_index + 1,
+                      group_index_getter<matcher>::value,
+                      group_index_getter<children>::value...);
 
             template<typename... injected_children>
             using optimize
diff --git a/src/operators/round_brackets.hpp b/src/operators/round_brackets.hpp
index 2d755f6..c1c2af9 100644
--- a/src/operators/round_brackets.hpp
+++ b/src/operators/round_brackets.hpp
@@ -21,7 +21,7 @@ namespace e_regex
             using tree =
                 typename branched<std::tuple<parsed..., subtree>,
                                   std::tuple<subregexes...>,
-                                  group_index>::tree;
+                                  max(group_index, subtree::next_group_index)>::tree;
     };
 
     template<typename... parsed, auto group_index>
@@ -70,7 +70,7 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<subregex,
                                              typename substring::remaining,
-                                             subregex::next_group_index>::tree;
+                                             max(group_index, subregex::next_group_index)>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
diff --git a/src/operators/square_brackets.hpp b/src/operators/square_brackets.hpp
index 4b9618e..6a7f627 100644
--- a/src/operators/square_brackets.hpp
+++ b/src/operators/square_brackets.hpp
@@ -107,7 +107,7 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<subregex,
                                              typename substring::remaining,
-                                             subregex::next_group_index>::tree;
+                                             group_index>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
@@ -127,13 +127,10 @@ namespace e_regex
                 typename substring::result,
                 group_index>::tree;
 
-            // if subregex_group_index is 0 the subregex does not
-            // contain any group
-
             using new_node = typename tree_builder_helper<
                 nodes::simple<nodes::negated_node<subregex>>,
                 typename substring::remaining,
-                subregex::next_group_index>::tree;
+                group_index>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
diff --git a/src/tree_builder/tree_builder.hpp b/src/tree_builder/tree_builder.hpp
index f327789..acee3d4 100644
--- a/src/tree_builder/tree_builder.hpp
+++ b/src/tree_builder/tree_builder.hpp
@@ -22,7 +22,7 @@ namespace e_regex
             using tree =
                 typename tree_builder_branches<std::tuple<parsed..., subtree>,
                                                std::tuple<subregexes...>,
-                                               subtree::next_group_index>::tree;
+                                               max(group_index, subtree::next_group_index)>::tree;
     };
 
     template<typename... parsed, auto group_index>
-- 
2.43.0


From 7a70c5edfce5427d1f121996f85bd2245e3a5082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 07/21] fix: admission sets cover every first character of a
 match

Alternatives, nullable groups and repetitions, bytes over 0x7F, end of
line and multi-character literals were missing or wrong, so quantifiers
became possessive when they still had to give characters back.
---
 src/nodes/basic.hpp             | 9 ++-------
 src/nodes/greedy.hpp            | 6 +++---
 src/nodes/group.hpp             | 6 ++++--
 src/nodes/lazy.hpp              | 6 +++---
 src/nodes/possessive.hpp        | 6 +++---
 src/nodes/repeated.hpp          | 6 ++++--
 src/terminals/anchors/end.hpp   | 4 ++--
 src/terminals/any.hpp           | 2 +-
 src/terminals/exact_matcher.hpp | 4 ++--
 src/utilities/admitted_set.hpp  | 8 +++++---
 10 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index d299d6c..e120227 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -88,16 +88,11 @@ namespace e_regex::nodes
     template<typename... children>
     struct simple<void, children...> : public base<void, children...>
     {
-            using child
-                = std::tuple_element_t<0, std::tuple<children...>>;
-
             static constexpr auto expression
                 = get_children_expression<children...>();
 
-            using admission_set = std::conditional_t<
-                child::meta.minimum_match_size == 0,
-                typename extract_admission_set<children...>::type,
-                typename extract_admission_set<child>::type>;
+            using admission_set =
+                typename extract_admission_set<children...>::type;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = policy::NONE,
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 3dcb5f3..da34c1e 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -26,10 +26,10 @@ namespace e_regex::nodes
             using self_admission_set =
                 typename decltype(matcher::meta)::admission_set;
 
-            // If matcher is optional (aka repetitions_min==0),
-            // admission set must include children too
+            // If matcher is optional (aka repetitions_min==0 or it can
+            // be empty), admission set must include children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                matcher::meta.minimum_match_size * repetitions_min == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 self_admission_set>;
 
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 3d6ab55..e31ac3e 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -17,8 +17,10 @@ namespace e_regex::nodes
                 = '(' + matcher::expression + ')'
                   + get_children_expression<children...>();
 
-            using admission_set =
-                typename extract_admission_set<matcher>::type;
+            using admission_set = std::conditional_t<
+                matcher::meta.minimum_match_size == 0,
+                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<matcher>::type>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index aa309a2..e761aca 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -17,10 +17,10 @@ namespace e_regex::nodes
              typename... children>
     struct lazy : public base<matcher, children...>
     {
-            // If matcher is optional (aka repetitions_min==0),
-            // admission set must include children too
+            // If matcher is optional (aka repetitions_min==0 or it can
+            // be empty), admission set must include children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                matcher::meta.minimum_match_size * repetitions_min == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 typename decltype(matcher::meta)::admission_set>;
 
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index a625909..c052a38 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -16,10 +16,10 @@ namespace e_regex::nodes
              typename... children>
     struct possessive : public base<matcher, children...>
     {
-            // If matcher is optional (aka repetitions_min==0),
-            // admission set must include children too
+            // If matcher is optional (aka repetitions_min==0 or it can
+            // be empty), admission set must include children too
             using admission_set = std::conditional_t<
-                repetitions_min == 0,
+                matcher::meta.minimum_match_size * repetitions_min == 0,
                 typename extract_admission_set<matcher, children...>::type,
                 typename decltype(matcher::meta)::admission_set>;
 
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 2ee9821..0ecbf41 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -12,8 +12,10 @@ namespace e_regex::nodes
     template<typename matcher, unsigned repetitions, typename... children>
     struct repeated : public base<matcher, children...>
     {
-            using admission_set =
-                typename extract_admission_set<matcher>::type;
+            using admission_set = std::conditional_t<
+                matcher::meta.minimum_match_size * repetitions == 0,
+                typename extract_admission_set<matcher, children...>::type,
+                typename extract_admission_set<matcher>::type>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
diff --git a/src/terminals/anchors/end.hpp b/src/terminals/anchors/end.hpp
index ffdcd6c..10ca841 100644
--- a/src/terminals/anchors/end.hpp
+++ b/src/terminals/anchors/end.hpp
@@ -10,8 +10,8 @@ namespace e_regex::terminals::anchors
     {
             static constexpr auto expression = static_string {"$"};
 
-            static constexpr auto meta = e_regex::meta<
-                admitted_set_complement_t<admitted_set<char, '\n'>>> {
+            static constexpr auto meta
+                = e_regex::meta<admitted_set<char, '\n'>> {
                 .policy_            = e_regex::policy::NONE,
                 .minimum_match_size = 0,
                 .maximum_match_size = 1,
diff --git a/src/terminals/any.hpp b/src/terminals/any.hpp
index a3eec05..592eac8 100644
--- a/src/terminals/any.hpp
+++ b/src/terminals/any.hpp
@@ -9,7 +9,7 @@ namespace e_regex::terminals
     template<>
     struct terminal<pack_string<'.'>>
         : public terminal_common<terminal<pack_string<'.'>>,
-                                 admitted_set_range_t<char, '\0', '\x7F'>>
+                                 admitted_set_complement_t<admitted_set<char, '\n'>>>
     {
             static constexpr auto expression = static_string {"."};
 
diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index 7b4726f..c8f78b6 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -14,13 +14,13 @@ namespace e_regex::terminals
     struct exact_matcher<pack_string<identifier, identifiers...>>
         : public terminal_common<
               exact_matcher<pack_string<identifier, identifiers...>>,
-              admitted_set<char, identifier, identifiers...>>
+              admitted_set<char, identifier>>
     {
             static constexpr auto expression
                 = pack_string<identifier, identifiers...>::string;
 
             static constexpr auto meta
-                = e_regex::meta<admitted_set<char, identifier, identifiers...>> {
+                = e_regex::meta<admitted_set<char, identifier>> {
                     .policy_            = e_regex::policy::EXACT,
                     .minimum_match_size = sizeof...(identifiers) + 1,
                     .maximum_match_size = sizeof...(identifiers) + 1,
diff --git a/src/utilities/admitted_set.hpp b/src/utilities/admitted_set.hpp
index 4d4353b..cd1d667 100644
--- a/src/utilities/admitted_set.hpp
+++ b/src/utilities/admitted_set.hpp
@@ -27,14 +27,14 @@ namespace e_regex
              Char start,
              Char end,
              typename seq = std::make_integer_sequence<unsigned, 1 + end - start>>
-        requires(end > start)
+        requires(end >= start)
     struct admitted_set_range;
 
     template<typename Char, Char start, Char end, auto... seq>
     struct admitted_set_range<Char, start, end, std::integer_sequence<unsigned, seq...>>
     {
             using type
-                = admitted_set<Char, (static_cast<Char>(seq) + start)...>;
+                = admitted_set<Char, static_cast<Char>(start + static_cast<int>(seq))...>;
     };
 
     template<typename Char, Char start, Char end>
@@ -194,7 +194,9 @@ namespace e_regex
     template<typename set, typename Char = typename set::Char_t>
     using admitted_set_complement_t = admitted_sets_difference_t<
         set,
-        admitted_set_range_t<Char, 0, std::numeric_limits<Char>::max()>>;
+        admitted_set_range_t<Char,
+                             std::numeric_limits<Char>::min(),
+                             std::numeric_limits<Char>::max()>>;
 
     // Intersection of two sets
     template<typename set1,
-- 
2.43.0


From 0062b50693c77dd5b3fa429fb21fba04c666359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 08/21] fix: a failed match leaves the position and the groups
 untouched

Nodes left the cursor and the groups of a failed attempt behind, and the
next alternative or iteration went on from there.
---
 src/nodes/basic.hpp      |  4 ++--
 src/nodes/common.hpp     | 24 ++++++++++++++++++++++++
 src/nodes/group.hpp      | 13 ++++++++-----
 src/nodes/lazy.hpp       | 19 ++++++++++++-------
 src/nodes/negated.hpp    |  3 +++
 src/nodes/possessive.hpp | 12 +++++++-----
 src/nodes/repeated.hpp   | 11 +++++++++--
 7 files changed, 65 insertions(+), 21 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index e120227..c25a32e 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -68,7 +68,7 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
-                auto begin = res.actual_iterator_end;
+                const checkpoint begin {res};
 
                 matcher::match(res);
 
@@ -77,7 +77,7 @@ namespace e_regex::nodes
                     if (!dfs<std::tuple<children...>,
                              std::tuple<injected_children...>>(res))
                     {
-                        res.actual_iterator_end = begin;
+                        begin.restore(res);
                     }
                 }
 
diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index 48ad323..c2c205e 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -77,6 +77,30 @@ namespace e_regex::nodes
                   + sum(group_getter<children>::value...);
     };
 
+    // Position and groups of a result, to be restored when an attempt
+    // fails
+    template<typename result_t>
+    struct checkpoint
+    {
+            decltype(result_t::actual_iterator_end) position;
+            decltype(result_t::match_groups)        groups;
+
+            constexpr __attribute__((always_inline)) explicit checkpoint(
+                const result_t& result) noexcept
+                : position {result.actual_iterator_end},
+                  groups {result.match_groups}
+            {}
+
+            constexpr __attribute__((always_inline)) auto
+                restore(result_t& result) const noexcept -> result_t&
+            {
+                result.actual_iterator_end = position;
+                result.match_groups        = groups;
+
+                return result;
+            }
+    };
+
     template<typename injected_children>
     struct invoke_match;
 
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index e31ac3e..5ddcd1e 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -46,7 +46,7 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                auto begin = result.actual_iterator_end;
+                const checkpoint begin {result};
 
                 // This node's children matter in backtracking
                 matcher::template match<children...>(result);
@@ -55,11 +55,14 @@ namespace e_regex::nodes
                 {
                     result.match_groups[group_index]
                         = literal_string_view {
-                            begin, result.actual_iterator_end};
+                            begin.position, result.actual_iterator_end};
 
-                    return dfs<std::tuple<children...>,
-                               std::tuple<children..., injected_children...>>(
-                        result);
+                    if (!dfs<std::tuple<children...>,
+                             std::tuple<children..., injected_children...>>(
+                            result))
+                    {
+                        begin.restore(result);
+                    }
                 }
 
                 return result;
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index e761aca..933dc1e 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -108,7 +108,7 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                auto start = result.actual_iterator_end;
+                const checkpoint start {result};
 
                 if constexpr (std::is_same_v<matcher, void>)
                 {
@@ -122,7 +122,7 @@ namespace e_regex::nodes
                         {
                             if (!matcher::match(result))
                             {
-                                return result;
+                                return start.restore(result);
                             }
                         }
                     }
@@ -143,20 +143,20 @@ namespace e_regex::nodes
                         }
                         else
                         {
-                            auto bak = result.actual_iterator_end;
+                            const checkpoint bak {result};
                             dfs<std::tuple<injected_children...>>(result);
-                            result.actual_iterator_end = bak;
+                            bak.restore(result);
                         }
 
                         if (!result)
                         {
+                            result = true;
                             matcher::match(result);
                             matches++;
 
                             if (!result)
                             {
-                                result.actual_iterator_end = start;
-                                return result;
+                                return start.restore(result);
                             }
                         }
                         else
@@ -165,7 +165,12 @@ namespace e_regex::nodes
                         }
                     }
 
-                    return dfs<std::tuple<children...>>(result);
+                    if (!dfs<std::tuple<children...>>(result))
+                    {
+                        start.restore(result);
+                    }
+
+                    return result;
                 }
             }
     };
diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index 601a9b9..9cae657 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -38,8 +38,11 @@ namespace e_regex::nodes
                     return result;
                 }
 
+                const checkpoint begin {result};
+
                 matcher::match(result);
                 result.accepted = !result.accepted;
+                begin.restore(result);
 
                 if (result)
                 {
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index c052a38..3fe3574 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -98,7 +98,7 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-	      auto end = result.actual_iterator_end;
+                const checkpoint begin {result};
 
                 for (unsigned i = 0; i < repetitions_max; ++i)
                 {
@@ -109,20 +109,22 @@ namespace e_regex::nodes
                         if (i < repetitions_min)
                         {
                             // Failed too early
-                            return result;
+                            return begin.restore(result);
                         }
 
                         // Failed but repetitions_min was satisfied,
                         // run dfs
                         result.accepted = true;
-			result.actual_iterator_end = end;
                         break;
                     }
+                }
 
-		  end = result.actual_iterator_end;
+                if (!dfs<std::tuple<children...>>(result))
+                {
+                    begin.restore(result);
                 }
 
-                return dfs<std::tuple<children...>>(result);
+                return result;
             }
     };
 
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 0ecbf41..a6079d4 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -52,15 +52,22 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
+                const checkpoint begin {res};
+
                 for (unsigned i = 0; i < repetitions; ++i)
                 {
                     if (!matcher::match(res))
                     {
-                        return res;
+                        return begin.restore(res);
                     }
                 }
 
-                return dfs<std::tuple<children...>>(res);
+                if (!dfs<std::tuple<children...>>(res))
+                {
+                    begin.restore(res);
+                }
+
+                return res;
             }
     };
 } // namespace e_regex::nodes
-- 
2.43.0


From 9c61ade50c450692b359c6f089f2f723584b929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 09/21] fix: minimum and maximum match sizes include what
 follows a node

---
 src/nodes/basic.hpp      |  8 ++++----
 src/nodes/group.hpp      |  8 ++++++--
 src/nodes/lazy.hpp       | 11 +++++++----
 src/nodes/possessive.hpp | 11 +++++++----
 src/nodes/repeated.hpp   |  8 ++++++--
 src/utilities/math.hpp   | 17 +++++++++++++++++
 6 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index c25a32e..cebca72 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -55,8 +55,8 @@ namespace e_regex::nodes
                 = matcher::meta.minimum_match_size
                   + min(children::meta.minimum_match_size...),
                 .maximum_match_size
-                = matcher::meta.maximum_match_size
-                  + max(children::meta.minimum_match_size...),
+                = add_sizes(matcher::meta.maximum_match_size,
+                            max(children::meta.maximum_match_size...)),
             };
 
             template<typename... injected_children>
@@ -99,7 +99,7 @@ namespace e_regex::nodes
                 .minimum_match_size
                 = min(children::meta.minimum_match_size...),
                 .maximum_match_size
-                = max(children::meta.minimum_match_size...),
+                = max(children::meta.maximum_match_size...),
             };
 
             template<typename... injected_children>
@@ -127,7 +127,7 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_            = policy::NONE,
                 .minimum_match_size = child::meta.minimum_match_size,
-                .maximum_match_size = child::meta.minimum_match_size,
+                .maximum_match_size = child::meta.maximum_match_size,
             };
 
             template<typename... injected_children>
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 5ddcd1e..8a9d931 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -24,8 +24,12 @@ namespace e_regex::nodes
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
-                .minimum_match_size = matcher::meta.minimum_match_size,
-                .maximum_match_size = matcher::meta.maximum_match_size};
+                .minimum_match_size
+                = add_sizes(matcher::meta.minimum_match_size,
+                            min(children::meta.minimum_match_size...)),
+                .maximum_match_size
+                = add_sizes(matcher::meta.maximum_match_size,
+                            max(children::meta.maximum_match_size...))};
 
             static constexpr auto next_group_index
                 = max(group_index + 1,
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 933dc1e..44688b8 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -27,13 +27,16 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::LAZY,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(multiply_sizes(matcher::meta.minimum_match_size,
+                                           repetitions_min),
+                            min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : add_sizes(
+                          multiply_sizes(matcher::meta.maximum_match_size,
+                                         repetitions_max),
+                          max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 3fe3574..37d001d 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -26,13 +26,16 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::POSSESSIVE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(multiply_sizes(matcher::meta.minimum_match_size,
+                                           repetitions_min),
+                            min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : add_sizes(
+                          multiply_sizes(matcher::meta.maximum_match_size,
+                                         repetitions_max),
+                          max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index a6079d4..9ffd8e6 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -20,9 +20,13 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions,
+                = add_sizes(multiply_sizes(matcher::meta.minimum_match_size,
+                                           repetitions),
+                            min(children::meta.minimum_match_size...)),
                 .maximum_match_size
-                = matcher::meta.maximum_match_size * repetitions,
+                = add_sizes(multiply_sizes(matcher::meta.maximum_match_size,
+                                           repetitions),
+                            max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/utilities/math.hpp b/src/utilities/math.hpp
index 1b9eab7..fa9baaf 100644
--- a/src/utilities/math.hpp
+++ b/src/utilities/math.hpp
@@ -2,6 +2,7 @@
 #define E_REGEX_UTILITIES_MATH_HPP_
 
 #include <algorithm>
+#include <limits>
 
 namespace e_regex
 {
@@ -15,6 +16,22 @@ namespace e_regex
         return (n + ...);
     }
 
+    // Sum and product of match sizes, where the maximum of unsigned
+    // means unlimited
+    consteval auto add_sizes(unsigned a, unsigned b) -> unsigned
+    {
+        constexpr auto unlimited = std::numeric_limits<unsigned>::max();
+
+        return a > unlimited - b ? unlimited : a + b;
+    }
+
+    consteval auto multiply_sizes(unsigned a, unsigned b) -> unsigned
+    {
+        constexpr auto unlimited = std::numeric_limits<unsigned>::max();
+
+        return b != 0 && a > unlimited / b ? unlimited : a * b;
+    }
+
     consteval auto min()
     {
         return 0;
-- 
2.43.0


From 1eaea1de7a5352ab376852527b77f5628486b034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 10/21] fix: greedy quantifiers give back whole repetitions
 only

Giving back searched for any earlier position the operand matched at,
and the optional shortcut gave back characters it had not taken.
---
 src/nodes/greedy.hpp | 75 ++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 44 deletions(-)

diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index da34c1e..d63612b 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -36,13 +36,16 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::GREEDY,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = add_sizes(multiply_sizes(matcher::meta.minimum_match_size,
+                                           repetitions_min),
+                            min(children::meta.minimum_match_size...)),
                 .maximum_match_size
                 = repetitions_max == std::numeric_limits<unsigned>::max()
                       ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                      : add_sizes(
+                          multiply_sizes(matcher::meta.maximum_match_size,
+                                         repetitions_max),
+                          max(children::meta.maximum_match_size...)),
             };
 
             static constexpr unsigned groups
@@ -127,12 +130,11 @@ namespace e_regex::nodes
                 }
                 else
                 {
-                    auto bak = result.actual_iterator_end;
+                    const checkpoint bak {result};
 
                     dfs<std::tuple<injected_children...>>(result);
-                    result.actual_iterator_end = bak;
 
-                    return result;
+                    return bak.restore(result);
                 }
             }
 
@@ -144,28 +146,9 @@ namespace e_regex::nodes
                 {
                     return dfs<std::tuple<children...>>(result);
                 }
-                else if constexpr (repetitions_min == 0
-                                   && repetitions_max == 1
-                                   && matcher::meta.minimum_match_size
-                                          == matcher::meta.maximum_match_size)
-                {
-                    // Optional node with a terminal matcher
-                    matcher::match(result);
-
-                    if (!backtrack<injected_children...>(result)
-                        && result.actual_iterator_end
-                               > result.actual_iterator_start)
-                    {
-                        result.actual_iterator_end
-                            -= matcher::meta.minimum_match_size;
-                        backtrack<injected_children...>(result);
-                    }
-
-                    return result;
-                }
                 else
                 {
-                    const auto begin = result.actual_iterator_end;
+                    const checkpoint begin {result};
 
                     if constexpr (repetitions_min > 0)
                     {
@@ -173,14 +156,14 @@ namespace e_regex::nodes
                         {
                             if (!matcher::match(result))
                             {
-                                return result;
+                                return begin.restore(result);
                             }
                         }
                     }
 
                     // Iterate while this matcher accepts
-                    auto       repetitions = repetitions_min;
-                    const auto start = result.actual_iterator_end;
+                    auto             repetitions = repetitions_min;
+                    const checkpoint start {result};
 
                     while (repetitions < repetitions_max)
                     {
@@ -202,30 +185,34 @@ namespace e_regex::nodes
                             return result;
                         }
 
-                        for (auto iter = result.actual_iterator_end - 1;
-                             iter >= start;
-                             --iter)
+                        --repetitions;
+
+                        result = true;
+
+                        // Give back the last repetition
+                        if constexpr (matcher::meta.minimum_match_size
+                                          == matcher::meta.maximum_match_size
+                                      && group_getter<matcher>::value == 0)
+                        {
+                            result.actual_iterator_end
+                                -= matcher::meta.minimum_match_size;
+                        }
+                        else
                         {
-                            result.actual_iterator_end = iter;
+                            start.restore(result);
 
-                            if (matcher::match(result))
+                            for (auto i = repetitions_min; i < repetitions; ++i)
                             {
-                                result.actual_iterator_end = iter;
-                                break;
+                                matcher::match(result);
                             }
                         }
-
-                        --repetitions;
                     }
 
-                    result = repetitions >= repetitions_min;
-
-                    if (result)
+                    if (!dfs<std::tuple<children...>>(result))
                     {
-                        return dfs<std::tuple<children...>>(result);
+                        begin.restore(result);
                     }
 
-                    result.actual_iterator_end = begin;
                     return result;
                 }
             }
-- 
2.43.0


From 574eaebd7a71b99898a595c948c59c433ce59a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 11/21] fix: stop repeating an operand that matches nothing

(a*)* went through four billion empty repetitions.
---
 src/nodes/greedy.hpp     | 8 ++++++++
 src/nodes/lazy.hpp       | 8 +++++++-
 src/nodes/possessive.hpp | 8 ++++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index d63612b..317af6c 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -167,6 +167,8 @@ namespace e_regex::nodes
 
                     while (repetitions < repetitions_max)
                     {
+                        const auto last = result.actual_iterator_end;
+
                         if (!matcher::match(result))
                         {
                             // Restore last good match
@@ -175,6 +177,12 @@ namespace e_regex::nodes
                         }
 
                         repetitions++;
+
+                        if (result.actual_iterator_end == last)
+                        {
+                            // Empty repetition, others would be the same
+                            break;
+                        }
                     }
 
                     // Now backtrack
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 44688b8..e41c3a6 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -153,12 +153,18 @@ namespace e_regex::nodes
 
                         if (!result)
                         {
+                            const auto last = result.actual_iterator_end;
+
                             result = true;
                             matcher::match(result);
                             matches++;
 
-                            if (!result)
+                            if (!result
+                                || result.actual_iterator_end == last)
                             {
+                                // Failed, or empty and others would be
+                                // the same
+                                result = false;
                                 return start.restore(result);
                             }
                         }
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 37d001d..b9c508b 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -105,6 +105,8 @@ namespace e_regex::nodes
 
                 for (unsigned i = 0; i < repetitions_max; ++i)
                 {
+                    const auto last = result.actual_iterator_end;
+
                     matcher::template match<injected_children...>(result);
 
                     if (!result)
@@ -120,6 +122,12 @@ namespace e_regex::nodes
                         result.accepted = true;
                         break;
                     }
+
+                    if (result.actual_iterator_end == last)
+                    {
+                        // Empty repetition, others would be the same
+                        break;
+                    }
                 }
 
                 if (!dfs<std::tuple<children...>>(result))
-- 
2.43.0


From 2159dda88e622e5d1a1cd2a66f86ae7a48dd1845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 12/21] fix: quantifiers inside groups see what follows the
 group

optimize dropped what follows the group, so (ab*)b became (ab*+)b, and
quantifiers and non-capturing groups did not pass it on.
---
 src/nodes/basic.hpp      | 12 +++++++-----
 src/nodes/common.hpp     |  3 ++-
 src/nodes/greedy.hpp     | 13 ++++++++-----
 src/nodes/group.hpp      | 13 ++++++++++---
 src/nodes/lazy.hpp       | 13 ++++++++-----
 src/nodes/possessive.hpp |  5 +++--
 src/nodes/repeated.hpp   |  5 +++--
 7 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index cebca72..69cc14e 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -61,8 +61,8 @@ namespace e_regex::nodes
 
             template<typename... injected_children>
             using optimize
-                = simple<typename matcher::template optimize<injected_children...>,
-                         typename children::template optimize<>...>;
+                = simple<typename matcher::template optimize<children..., injected_children...>,
+                         typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -70,7 +70,8 @@ namespace e_regex::nodes
             {
                 const checkpoint begin {res};
 
-                matcher::match(res);
+                // This node's children matter in backtracking
+                matcher::template match<children...>(res);
 
                 if (res)
                 {
@@ -104,7 +105,8 @@ namespace e_regex::nodes
 
             template<typename... injected_children>
             using optimize
-                = simple<void, typename children::template optimize<>...>;
+                = simple<void,
+                         typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -164,7 +166,7 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
-                return matcher::match(res);
+                return matcher::template match<injected_children...>(res);
             }
     };
 
diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index c2c205e..189583d 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -154,7 +154,8 @@ namespace e_regex::nodes
                 }
 
                 match_result.accepted = true;
-                return dfs<typename _children::remaining>(match_result);
+                return dfs<typename _children::remaining, injected_children>(
+                    match_result);
             }
         }
     }
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 317af6c..f1cd1a3 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -114,11 +114,11 @@ namespace e_regex::nodes
                 possessive<typename matcher::template optimize<>,
                            repetitions_min,
                            repetitions_max,
-                           typename children::template optimize<>...>,
+                           typename children::template optimize<injected_children...>...>,
                 greedy<typename matcher::template optimize<>,
                        repetitions_min,
                        repetitions_max,
-                       typename children::template optimize<>...>>;
+                       typename children::template optimize<injected_children...>...>>;
 
             template<typename... injected_children>
             static constexpr auto __attribute__((always_inline))
@@ -126,7 +126,8 @@ namespace e_regex::nodes
             {
                 if constexpr (sizeof...(children) > 0)
                 {
-                    return dfs<std::tuple<children...>>(result);
+                    return dfs<std::tuple<children...>,
+                         std::tuple<injected_children...>>(result);
                 }
                 else
                 {
@@ -144,7 +145,8 @@ namespace e_regex::nodes
             {
                 if constexpr (std::is_same_v<matcher, void>)
                 {
-                    return dfs<std::tuple<children...>>(result);
+                    return dfs<std::tuple<children...>,
+                         std::tuple<injected_children...>>(result);
                 }
                 else
                 {
@@ -216,7 +218,8 @@ namespace e_regex::nodes
                         }
                     }
 
-                    if (!dfs<std::tuple<children...>>(result))
+                    if (!dfs<std::tuple<children...>,
+                         std::tuple<injected_children...>>(result))
                     {
                         begin.restore(result);
                     }
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 8a9d931..1b446ab 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -40,7 +40,7 @@ namespace e_regex::nodes
             using optimize
                 = group<typename matcher::template optimize<children..., injected_children...>,
                         group_index,
-                        typename children::template optimize<>...>;
+                        typename children::template optimize<injected_children...>...>;
 
             static constexpr unsigned groups
                 = group_getter<matcher>::value
@@ -53,7 +53,14 @@ namespace e_regex::nodes
                 const checkpoint begin {result};
 
                 // This node's children matter in backtracking
-                matcher::template match<children...>(result);
+                if constexpr (sizeof...(children) > 0)
+                {
+                    matcher::template match<children...>(result);
+                }
+                else
+                {
+                    matcher::template match<injected_children...>(result);
+                }
 
                 if (result)
                 {
@@ -62,7 +69,7 @@ namespace e_regex::nodes
                             begin.position, result.actual_iterator_end};
 
                     if (!dfs<std::tuple<children...>,
-                             std::tuple<children..., injected_children...>>(
+                             std::tuple<injected_children...>>(
                             result))
                     {
                         begin.restore(result);
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index e41c3a6..1fce9c3 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -101,11 +101,11 @@ namespace e_regex::nodes
                 possessive<typename matcher::template optimize<>,
                            repetitions_min,
                            repetitions_max,
-                           typename children::template optimize<>...>,
+                           typename children::template optimize<injected_children...>...>,
                 lazy<typename matcher::template optimize<>,
                      repetitions_min,
                      repetitions_max,
-                     typename children::template optimize<>...>>;
+                     typename children::template optimize<injected_children...>...>>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -115,7 +115,8 @@ namespace e_regex::nodes
 
                 if constexpr (std::is_same_v<matcher, void>)
                 {
-                    return dfs<std::tuple<children...>>(result);
+                    return dfs<std::tuple<children...>,
+                         std::tuple<injected_children...>>(result);
                 }
                 else
                 {
@@ -137,7 +138,8 @@ namespace e_regex::nodes
                     {
                         if constexpr (sizeof...(children) > 0)
                         {
-                            dfs<std::tuple<children...>>(result);
+                            dfs<std::tuple<children...>,
+                         std::tuple<injected_children...>>(result);
 
                             if (result)
                             {
@@ -174,7 +176,8 @@ namespace e_regex::nodes
                         }
                     }
 
-                    if (!dfs<std::tuple<children...>>(result))
+                    if (!dfs<std::tuple<children...>,
+                         std::tuple<injected_children...>>(result))
                     {
                         start.restore(result);
                     }
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index b9c508b..3481bb0 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -95,7 +95,7 @@ namespace e_regex::nodes
                 = possessive<typename matcher::template optimize<>,
                              repetitions_min,
                              repetitions_max,
-                             typename children::template optimize<>...>;
+                             typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -130,7 +130,8 @@ namespace e_regex::nodes
                     }
                 }
 
-                if (!dfs<std::tuple<children...>>(result))
+                if (!dfs<std::tuple<children...>,
+                         std::tuple<injected_children...>>(result))
                 {
                     begin.restore(result);
                 }
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 9ffd8e6..c7d5bf2 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -50,7 +50,7 @@ namespace e_regex::nodes
             using optimize
                 = repeated<typename matcher::template optimize<>,
                            repetitions,
-                           typename children::template optimize<>...>;
+                           typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -66,7 +66,8 @@ namespace e_regex::nodes
                     }
                 }
 
-                if (!dfs<std::tuple<children...>>(res))
+                if (!dfs<std::tuple<children...>,
+                         std::tuple<injected_children...>>(res))
                 {
                     begin.restore(res);
                 }
-- 
2.43.0


From 6fe019d8076c47881f014bdc153fd890ac03c1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 13/21] fix: matching and inspecting a regex is noexcept, as
 documented

---
 src/regex.hpp                         | 10 +++++-----
 src/utilities/literal_string_view.hpp |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/regex.hpp b/src/regex.hpp
index a8282a0..f78abb9 100644
--- a/src/regex.hpp
+++ b/src/regex.hpp
@@ -38,26 +38,26 @@ namespace e_regex
                 typename tree_builder<build_pack_string_t<expression>>::tree>::type;
 
             static constexpr __attribute__((always_inline)) auto
-                match(literal_string_view<> data)
+                match(literal_string_view<> data) noexcept
             {
                 return match_result<ast> {data};
             }
 
             constexpr __attribute__((always_inline)) auto
-                operator()(literal_string_view<> data) const
+                operator()(literal_string_view<> data) const noexcept
             {
                 return match(data);
             }
 
             static __attribute__((always_inline)) constexpr auto
-                get_expression()
+                get_expression() noexcept
             {
                 return ast::expression.to_view();
             }
 
             template<typename other>
             static constexpr __attribute__((always_inline)) auto
-                is_independent() -> bool
+                is_independent() noexcept -> bool
             {
                 using intersection = admitted_sets_intersection_t<
                     typename nodes::extract_admission_set<ast>::type,
@@ -68,7 +68,7 @@ namespace e_regex
 
             template<typename T>
             static constexpr __attribute__((always_inline)) auto
-                is_independent(T /*other*/) -> bool
+                is_independent(T /*other*/) noexcept -> bool
             {
                 return is_independent<T>();
             }
diff --git a/src/utilities/literal_string_view.hpp b/src/utilities/literal_string_view.hpp
index 4b71b8b..5faae02 100644
--- a/src/utilities/literal_string_view.hpp
+++ b/src/utilities/literal_string_view.hpp
@@ -14,12 +14,12 @@ namespace e_regex
             iterator begin_;
             iterator end_;
 
-            constexpr __attribute__((always_inline)) literal_string_view()
+            constexpr __attribute__((always_inline)) literal_string_view() noexcept
                 : begin_ {nullptr}, end_ {nullptr}
             {}
 
             constexpr __attribute__((always_inline))
-            literal_string_view(iterator begin_, iterator end_)
+            literal_string_view(iterator begin_, iterator end_) noexcept
                 : begin_ {begin_}, end_ {end_}
             {}
 
@@ -30,7 +30,7 @@ namespace e_regex
             {}
 
             constexpr __attribute__((always_inline))
-            literal_string_view(std::string_view data)
+            literal_string_view(std::string_view data) noexcept
                 : begin_ {data.begin()}, end_ {data.end()}
             {}
 
@@ -76,7 +76,7 @@ namespace e_regex
             }
 
             constexpr __attribute__((always_inline)) bool
-                operator==(literal_string_view other) const
+                operator==(literal_string_view other) const noexcept
             {
                 if (begin() == other.begin() && end() == other.end())
                 {
-- 
2.43.0


From 289784b1cec22295e7cf4133678316552df82028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 14/21] fix: documented members of a match that did not compile

size(), the conversion to std::string_view, the assignment of bool, and
get and the decomposition of a single terminal.
---
 src/match_result.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index 739d512..5dd7b92 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -64,7 +64,7 @@ namespace e_regex
             constexpr __attribute__((always_inline)) auto
                 operator=(bool accepted) noexcept -> match_result&
             {
-                this->accepted = accepted;
+                data = accepted;
 
                 return *this;
             }
@@ -118,7 +118,7 @@ namespace e_regex
             constexpr __attribute__((always_inline)) auto get() const noexcept
             {
                 static_assert(
-                    index <= matcher::groups,
+                    index <= groups_,
                     "Group index is greater than the number of groups.");
 
                 return get_group(index);
@@ -153,6 +153,12 @@ namespace e_regex
                                          data.actual_iterator_end};
             }
 
+            constexpr __attribute__((always_inline)) explicit
+            operator std::string_view() const noexcept
+            {
+                return to_view();
+            }
+
             constexpr __attribute__((always_inline))
             operator literal_string_view<Char_Type>() const noexcept
             {
@@ -161,7 +167,7 @@ namespace e_regex
 
             constexpr __attribute__((always_inline)) auto size() const noexcept
             {
-                return data.matches;
+                return groups_;
             }
 
             static __attribute__((always_inline)) constexpr auto groups() noexcept
@@ -221,7 +227,8 @@ namespace std
     template<typename matcher>
     struct tuple_size<e_regex::match_result<matcher>>
     {
-            static const unsigned value = matcher::groups + 1;
+            static const unsigned value
+                = e_regex::nodes::group_getter<matcher>::value + 1;
     };
 
     template<std::size_t N, typename matcher, typename Char_Type>
-- 
2.43.0


From 8e393f0be71d63868ad63da078f072cae380a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 15/21] fix: anchor every alternative of a token or a separator

---
 src/tokenization/iterator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokenization/iterator.hpp b/src/tokenization/iterator.hpp
index fb16900..1cf1dfe 100644
--- a/src/tokenization/iterator.hpp
+++ b/src/tokenization/iterator.hpp
@@ -40,7 +40,8 @@ namespace e_regex::tokenization
                         token.type,
                         // Adding ^ to alway match the beginning of
                         // current
-                        e_regex::regex<static_string {"^"} + token.matcher> {}}),
+                        e_regex::regex<static_string {"^(?:"}
+                                       + token.matcher + ")"> {}}),
                     rec::tokens);
                 static constexpr auto separators = rec::separators;
         };
@@ -53,7 +54,8 @@ namespace e_regex::tokenization
                 static constexpr auto tokens     = rec::tokens;
                 static constexpr auto separators = std::tuple_cat(
                     std::make_tuple(
-                        e_regex::regex<static_string {"^"} + token.matcher> {}),
+                        e_regex::regex<static_string {"^(?:"}
+                                       + token.matcher + ")"> {}),
                     rec::separators);
         };
 
-- 
2.43.0


From 8933373100f46cdad1e2713d37eb8004a6fc0c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 16/21] fix: octal escapes of three digits, \oNNN

---
 src/operators/octal.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/operators/octal.hpp b/src/operators/octal.hpp
index 9b95c5e..9ec0c33 100644
--- a/src/operators/octal.hpp
+++ b/src/operators/octal.hpp
@@ -67,6 +67,30 @@ namespace e_regex
             using tree = add_child_t<last_node, new_node>;
     };
 
+    template<typename last_node,
+             char first_nibble,
+             char second_nibble,
+             char third_nibble,
+             typename... tail,
+             auto group_index>
+        requires octal<first_nibble> && octal<second_nibble>
+                 && octal<third_nibble>
+    struct tree_builder_helper<last_node,
+                               std::tuple<pack_string<'\\', 'o'>,
+                                          pack_string<first_nibble>,
+                                          pack_string<second_nibble>,
+                                          pack_string<third_nibble>,
+                                          tail...>,
+                               group_index>
+        : public tree_builder_helper<last_node,
+                                     std::tuple<pack_string<'\\', first_nibble>,
+                                                pack_string<second_nibble>,
+                                                pack_string<third_nibble>,
+                                                tail...>,
+                                     group_index>
+    {
+    };
+
     template<typename last_node, typename... tail, auto group_index>
     struct tree_builder_helper<
         last_node,
-- 
2.43.0


From c98cbf767bb65f18c5bdb4aa407508243e9794f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 17/21] fix: lazy quantifiers stay lazy when what follows can
 be empty

---
 src/nodes/lazy.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 1fce9c3..2423053 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -91,13 +91,17 @@ namespace e_regex::nodes
                 }
             }();
 
-            // If this node has no intersections with its children,
-            // backtracking is not needed
+            // If this node has no intersections with its children and
+            // they cannot be empty, backtracking is not needed: when
+            // what follows can be empty, the fewest repetitions win
             template<typename... injected_children>
             using optimize = std::conditional_t<
-                admitted_sets_intersection_t<
-                    admission_set,
-                    typename extract_admission_set<children..., injected_children...>::type>::empty,
+                min(children::meta.minimum_match_size...)
+                            + min(injected_children::meta.minimum_match_size...)
+                        != 0
+                    && admitted_sets_intersection_t<
+                        admission_set,
+                        typename extract_admission_set<children..., injected_children...>::type>::empty,
                 possessive<typename matcher::template optimize<>,
                            repetitions_min,
                            repetitions_max,
-- 
2.43.0


From 6e98546d493283a749f6bd2a32dcb1295386ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 18/21] fix: repetitions of a possessive quantifier do not
 depend on what follows the group

Each repetition of the operand was matched as if what follows the
enclosing group came right after it: ((?:ab*?)++)c rejected the first
two characters of aac.
---
 src/nodes/possessive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 3481bb0..8f4fb90 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -107,7 +107,7 @@ namespace e_regex::nodes
                 {
                     const auto last = result.actual_iterator_end;
 
-                    matcher::template match<injected_children...>(result);
+                    matcher::match(result);
 
                     if (!result)
                     {
-- 
2.43.0


From 53b31ca5ee0bfdabca20acb58bfddf1a01e80e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:21 +0000
Subject: [PATCH 19/21] fix: the groups of a result that is not accepted are
 empty

---
 src/match_result.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index 5dd7b92..24e7131 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -127,7 +127,8 @@ namespace e_regex
             constexpr __attribute__((always_inline)) auto
                 get_group(unsigned index) const noexcept
             {
-                if (index == 0)
+                // Without a match there are no groups either
+                if (index == 0 || !is_accepted())
                 {
                     return to_view();
                 }
-- 
2.43.0


From 8feda5455714d9d3779f51384fb967c0d62daff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:10 +0000
Subject: [PATCH 20/21] fix: the reported expression denotes the regex it was
 derived from

---
 src/nodes/basic.hpp             | 19 ++++++++++--
 src/nodes/get_expression.hpp    | 42 ++++++++++++++++++++++++-
 src/nodes/greedy.hpp            |  6 +++-
 src/nodes/group.hpp             |  4 +++
 src/nodes/lazy.hpp              |  6 +++-
 src/nodes/negated.hpp           | 55 ++++++++++++++++++++++++++++++++-
 src/nodes/possessive.hpp        |  6 +++-
 src/nodes/repeated.hpp          | 10 ++++--
 src/terminals/exact_matcher.hpp | 23 +++++++++++++-
 9 files changed, 159 insertions(+), 12 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index 69cc14e..b701699 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -33,17 +33,21 @@ namespace e_regex::nodes
             static constexpr auto expression = []() {
                 if constexpr (sizeof...(children) <= 1)
                 {
-                    return matcher::expression
+                    return get_delimited_expression<matcher, precedence::SEQUENCE>()
                            + get_children_expression<children...>();
                 }
                 else
                 {
-                    return matcher::expression + "(?:"
+                    return get_delimited_expression<matcher, precedence::SEQUENCE>()
+                           + "(?:"
                            + get_children_expression<children...>()
                            + ')';
                 }
             }();
 
+            static constexpr auto expression_precedence
+                = precedence::SEQUENCE;
+
             using admission_set = std::conditional_t<
                 matcher::meta.minimum_match_size == 0,
                 typename extract_admission_set<matcher, children...>::type,
@@ -92,6 +96,9 @@ namespace e_regex::nodes
             static constexpr auto expression
                 = get_children_expression<children...>();
 
+            static constexpr auto expression_precedence
+                = precedence::ALTERNATIVE;
+
             using admission_set =
                 typename extract_admission_set<children...>::type;
 
@@ -121,7 +128,10 @@ namespace e_regex::nodes
     struct simple<void, child> : public base<void, child>
     {
             static constexpr auto expression
-                = get_children_expression<child>();
+                = child::expression;
+
+            static constexpr auto expression_precedence
+                = get_precedence<child>();
 
             using admission_set =
                 typename extract_admission_set<child>::type;
@@ -149,6 +159,9 @@ namespace e_regex::nodes
     {
             static constexpr auto expression = matcher::expression;
 
+            static constexpr auto expression_precedence
+                = get_precedence<matcher>();
+
             using admission_set =
                 typename extract_admission_set<matcher>::type;
 
diff --git a/src/nodes/get_expression.hpp b/src/nodes/get_expression.hpp
index aa4e3b9..d5fe9f1 100644
--- a/src/nodes/get_expression.hpp
+++ b/src/nodes/get_expression.hpp
@@ -7,6 +7,44 @@
 
 namespace e_regex::nodes
 {
+    // How tightly the parts of an expression are bound to each other
+    enum class precedence
+    {
+        ALTERNATIVE,
+        SEQUENCE,
+        ITEM
+    };
+
+    template<typename node>
+    constexpr auto get_precedence() noexcept
+    {
+        if constexpr (requires { node::expression_precedence; })
+        {
+            return node::expression_precedence;
+        }
+        else
+        {
+            return precedence::ITEM;
+        }
+    }
+
+    /**
+     * @brief The expression of a node, delimited if it would fall apart
+     * where at least the given precedence is needed
+     */
+    template<typename node, precedence needed>
+    constexpr __attribute__((always_inline)) auto get_delimited_expression()
+    {
+        if constexpr (get_precedence<node>() < needed)
+        {
+            return "(?:" + node::expression + ")";
+        }
+        else
+        {
+            return node::expression;
+        }
+    }
+
     template<typename... children>
     constexpr __attribute__((always_inline)) auto get_children_expression()
     {
@@ -16,7 +54,9 @@ namespace e_regex::nodes
         }
         else if constexpr (sizeof...(children) == 1)
         {
-            return std::tuple_element_t<0, std::tuple<children...>>::expression;
+            return get_delimited_expression<
+                std::tuple_element_t<0, std::tuple<children...>>,
+                precedence::SEQUENCE>();
         }
         else
         {
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index f1cd1a3..39bc113 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -89,7 +89,8 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self
+                    = get_delimited_expression<matcher, precedence::ITEM>();
 
                 if constexpr (sizeof...(children) <= 1)
                 {
@@ -104,6 +105,9 @@ namespace e_regex::nodes
                 }
             }();
 
+            static constexpr auto expression_precedence
+                = precedence::SEQUENCE;
+
             // If this node has no intersections with its children,
             // backtracking is not needed
             template<typename... injected_children>
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 1b446ab..d2197aa 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -17,6 +17,10 @@ namespace e_regex::nodes
                 = '(' + matcher::expression + ')'
                   + get_children_expression<children...>();
 
+            static constexpr auto expression_precedence
+                = sizeof...(children) == 0 ? precedence::ITEM
+                                           : precedence::SEQUENCE;
+
             using admission_set = std::conditional_t<
                 matcher::meta.minimum_match_size == 0,
                 typename extract_admission_set<matcher, children...>::type,
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 2423053..f0f7899 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -76,7 +76,8 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self
+                    = get_delimited_expression<matcher, precedence::ITEM>();
 
                 if constexpr (sizeof...(children) <= 1)
                 {
@@ -91,6 +92,9 @@ namespace e_regex::nodes
                 }
             }();
 
+            static constexpr auto expression_precedence
+                = precedence::SEQUENCE;
+
             // If this node has no intersections with its children and
             // they cannot be empty, backtracking is not needed: when
             // what follows can be empty, the fewest repetitions win
diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index 9cae657..18579bd 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -9,11 +9,64 @@
 
 namespace e_regex::nodes
 {
+    // The expression of a node as a part of a bracket
+    template<typename node>
+    struct bracket_member
+    {
+            static constexpr auto expression = node::expression;
+    };
+
+    template<typename matcher>
+    struct bracket_member<simple<matcher>> : public bracket_member<matcher>
+    {};
+
+    template<typename... members>
+        requires(sizeof...(members) > 0)
+    struct bracket_member<simple<void, members...>>
+    {
+            static constexpr auto expression
+                = (static_string {""} + ... + bracket_member<members>::expression);
+    };
+
+    template<char identifier>
+    struct bracket_member<terminals::exact_matcher<pack_string<identifier>>>
+    {
+            static constexpr auto expression = []() {
+                if constexpr (identifier == '-')
+                {
+                    return static_string {"\\-"};
+                }
+                else
+                {
+                    return terminals::exact_matcher<
+                        pack_string<identifier>>::expression;
+                }
+            }();
+    };
+
+    template<char start, char end>
+    struct bracket_member<
+        terminals::range_terminal<pack_string<start>, pack_string<end>>>
+    {
+            static constexpr auto expression
+                = pack_string<start, '-', end>::string;
+    };
+
+    template<char identifier, typename admission_set>
+    struct bracket_member<terminals::negated_terminal<
+        terminals::terminal<pack_string<'\\', identifier>>,
+        admission_set>>
+    {
+            // \d becomes \D and so on
+            static constexpr auto expression
+                = pack_string<'\\', identifier - 'a' + 'A'>::string;
+    };
+
     template<typename matcher>
     struct negated_node : public base<matcher>
     {
             static constexpr auto expression
-                = "[^" + matcher::expression + "]";
+                = "[^" + bracket_member<matcher>::expression + "]";
 
             using admission_set = admitted_set_complement_t<
                 typename extract_admission_set<matcher>::type>;
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 8f4fb90..aae4c8d 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -75,7 +75,8 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self
+                    = get_delimited_expression<matcher, precedence::ITEM>();
 
                 if constexpr (sizeof...(children) <= 1)
                 {
@@ -90,6 +91,9 @@ namespace e_regex::nodes
                 }
             }();
 
+            static constexpr auto expression_precedence
+                = precedence::SEQUENCE;
+
             template<typename... injected_children>
             using optimize
                 = possessive<typename matcher::template optimize<>,
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index c7d5bf2..daf4131 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -30,9 +30,10 @@ namespace e_regex::nodes
             };
 
             static constexpr auto expression = []() {
-                auto self = matcher::expression + '{'
-                            + number_to_pack_string_t<repetitions>::string
-                            + '}';
+                auto self
+                    = get_delimited_expression<matcher, precedence::ITEM>()
+                      + '{' + number_to_pack_string_t<repetitions>::string
+                      + '}';
 
                 if constexpr (sizeof...(children) <= 1)
                 {
@@ -46,6 +47,9 @@ namespace e_regex::nodes
                 }
             }();
 
+            static constexpr auto expression_precedence
+                = precedence::SEQUENCE;
+
             template<typename... injected_children>
             using optimize
                 = repeated<typename matcher::template optimize<>,
diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index c8f78b6..7af990a 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -2,6 +2,7 @@
 #define E_REGEX_TERMINALS_EXACT_MATCHER_HPP_
 
 #include "common.hpp"
+#include "nodes/get_expression.hpp"
 #include "utilities/admitted_set.hpp"
 #include "utilities/static_string.hpp"
 
@@ -10,6 +11,21 @@ namespace e_regex::terminals
     template<typename identifier>
     struct exact_matcher;
 
+    // A character, escaped if it would be an operator otherwise
+    template<char identifier>
+    constexpr auto literal_expression() noexcept
+    {
+        if constexpr (std::string_view {".+*?()[]{}|^$\\"}.find(identifier)
+                      != std::string_view::npos)
+        {
+            return pack_string<'\\', identifier>::string;
+        }
+        else
+        {
+            return pack_string<identifier>::string;
+        }
+    }
+
     template<char identifier, char... identifiers>
     struct exact_matcher<pack_string<identifier, identifiers...>>
         : public terminal_common<
@@ -17,7 +33,12 @@ namespace e_regex::terminals
               admitted_set<char, identifier>>
     {
             static constexpr auto expression
-                = pack_string<identifier, identifiers...>::string;
+                = (literal_expression<identifier>() + ...
+                   + literal_expression<identifiers>());
+
+            static constexpr auto expression_precedence
+                = sizeof...(identifiers) == 0 ? nodes::precedence::ITEM
+                                              : nodes::precedence::SEQUENCE;
 
             static constexpr auto meta
                 = e_regex::meta<admitted_set<char, identifier>> {
-- 
2.43.0


From 3fdc3bf6a79a3c354fa875feaa54cdb7d8a06354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:32 +0000
Subject: [PATCH 21/21] fix: a reversed range is an error instead of exhausting
 the compiler's memory

---
 src/utilities/admitted_set.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utilities/admitted_set.hpp b/src/utilities/admitted_set.hpp
index cd1d667..bd2b382 100644
--- a/src/utilities/admitted_set.hpp
+++ b/src/utilities/admitted_set.hpp
@@ -26,7 +26,8 @@ namespace e_regex
     template<typename Char,
              Char start,
              Char end,
-             typename seq = std::make_integer_sequence<unsigned, 1 + end - start>>
+             typename seq = std::make_integer_sequence<unsigned,
+                                                       (end >= start ? 1 + end - start : 0)>>
         requires(end >= start)
     struct admitted_set_range;
 
-- 
2.43.0

