From 72daba150da214abc5b98d8427efa07f0bd48be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 01/32] Let verification builds shrink the static buffers
 (LOG_SURGEON_VERIF_BUFF_SIZE)

---
 src/log_surgeon/Constants.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/log_surgeon/Constants.hpp b/src/log_surgeon/Constants.hpp
index 17f0372..e151f3b 100644
--- a/src/log_surgeon/Constants.hpp
+++ b/src/log_surgeon/Constants.hpp
@@ -46,7 +46,12 @@ constexpr char cTokenHex[] = "hex";
 constexpr char cTokenFirstTimestamp[] = "firstTimestamp";
 constexpr char cTokenNewlineTimestamp[] = "newLineTimestamp";
 constexpr char cTokenNewline[] = "newLine";
+#ifdef LOG_SURGEON_VERIF_BUFF_SIZE
+// Verification builds shrink the static buffers so that their boundaries are reached by small inputs
+constexpr uint32_t cStaticByteBuffSize = LOG_SURGEON_VERIF_BUFF_SIZE;
+#else
 constexpr uint32_t cStaticByteBuffSize = 48'000;
+#endif
 
 namespace utf8 {
 // 0xC0, 0xC1, 0xF5, 0xF6, 0xF7, 0xF8, 0xF9, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE,
-- 
2.43.0


From 42f80b60862eebcd06b3966988e3e034056fe5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 02/32] fix: let an empty regex node match the empty string
 (a*, a{0,n})

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index beeb588..18be1aa 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -177,11 +177,8 @@ public:
         // Do nothing as an empty node contains no delimiters.
     }
 
-    auto add_to_nfa(
-            [[maybe_unused]] RegexNFA<NFAStateType>* nfa,
-            [[maybe_unused]] NFAStateType* end_state
-    ) const -> void override {
-        // Do nothing as adding an empty node to the NFA is a null operation.
+    auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override {
+        nfa->get_root()->add_epsilon_transition(end_state);
     }
 
     [[nodiscard]] auto serialize() const -> std::u32string override;
-- 
2.43.0


From 24756c75a56d30601e1d48c9a609840b15f1e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 03/32] fix: give looping alternatives of an or-expression
 their own end state

(a+)|(b) accepted 'ba', as the loop of a+ was put on the end state shared with b.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 25 ++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 18be1aa..bf43211 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -69,6 +69,12 @@ public:
      */
     virtual auto remove_delimiters_from_wildcard(std::vector<uint32_t>& delimiters) -> void = 0;
 
+    /**
+     * @return Whether `add_to_nfa` may add a transition leaving the end state it is given, as happens
+     * for unbounded repetition. Such an end state can't be shared with an alternative.
+     */
+    [[nodiscard]] virtual auto may_loop_on_end_state() const -> bool { return false; }
+
     /**
      * Add the needed RegexNFA::states to the passed in nfa to handle the
      * current node before transitioning to an accepting end_state
@@ -536,6 +542,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto may_loop_on_end_state() const -> bool override {
+        return m_right->may_loop_on_end_state();
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto get_left() const -> RegexAST<NFAStateType> const* { return m_left.get(); }
@@ -600,6 +610,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto may_loop_on_end_state() const -> bool override {
+        return is_infinite() || m_operand->may_loop_on_end_state();
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto is_infinite() const -> bool { return this->m_max == 0; }
@@ -780,8 +794,15 @@ RegexASTOr<NFAStateType>::RegexASTOr(
 template <typename NFAStateType>
 void RegexASTOr<NFAStateType>::add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state)
         const {
-    m_left->add_to_nfa_with_negative_tags(nfa, end_state);
-    m_right->add_to_nfa_with_negative_tags(nfa, end_state);
+    for (auto const* alternative : {m_left.get(), m_right.get()}) {
+        if (alternative->may_loop_on_end_state()) {
+            auto* alternative_end_state = nfa->new_state();
+            alternative_end_state->add_epsilon_transition(end_state);
+            alternative->add_to_nfa_with_negative_tags(nfa, alternative_end_state);
+        } else {
+            alternative->add_to_nfa_with_negative_tags(nfa, end_state);
+        }
+    }
 }
 
 template <typename NFAStateType>
-- 
2.43.0


From 700bb3ff12f6c62753fc03306649a2e0a1e48c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 04/32] fix: accept negated bracket groups that exclude all of
 the schema's delimiters

The internal start of file marker was reported as a contained delimiter, so every [^...] was rejected.
---
 src/log_surgeon/LogParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index b98e712..96345fc 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -98,6 +98,10 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
         bool contains_delimiter = false;
         uint32_t delimiter_name = 0;
         for (uint32_t delimiter : delimiters) {
+            // The start of file marker is an internal delimiter that can't be named in the schema
+            if (utf8::cCharStartOfFile == delimiter) {
+                continue;
+            }
             if (is_possible_input[delimiter]) {
                 contains_delimiter = true;
                 delimiter_name = delimiter;
-- 
2.43.0


From f14a6431044a354009c0cd613faa2268c4410d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 05/32] fix: report reversed bracket ranges as an error and
 accept single character ranges

[z-a] and [a-a] aborted the process in builds with assertions.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index bf43211..e8e17b6 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1020,8 +1020,13 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(
                 "to README-Schema.md for more details."
         );
     }
+    if (right->get_character() < left->get_character()) {
+        throw std::runtime_error(
+                "RegexASTGroup3: A bracket expression in the schema contains a range that ends before "
+                "it starts."
+        );
+    }
     m_negate = false;
-    assert(right->get_character() > left->get_character());
     m_ranges.emplace_back(left->get_character(), right->get_character());
 }
 
-- 
2.43.0


From ac2b33e7ff5e253c4de453026d5ba2053859aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 06/32] fix: let R{0} and R{0,0} match only the empty string
 instead of R*

---
 src/log_surgeon/SchemaParser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 5676026..984d919 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -224,6 +224,10 @@ static auto regex_match_exactly_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     for (uint32_t i = 0; i < r3_size; i++) {
         reps += r3_ptr->get_digit(i) * (uint32_t)pow(10, r3_size - i - 1);
     }
+    if (0 == reps) {
+        // A maximum of 0 means unbounded to RegexASTMultiplication
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     return unique_ptr<ParserAST>(new ParserValueRegex(
             unique_ptr<RegexASTByte>(new RegexASTMultiplicationByte(std::move(r1), reps, reps))
@@ -247,6 +251,10 @@ static auto regex_match_range_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
 
+    if (0 == min && 0 == max) {
+        // A maximum of 0 means unbounded to RegexASTMultiplication
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
     if (0 == min) {
         // To handle negative tags we treat `R*` as `R+ | ∅`.
         return make_unique<ParserValueRegex>(make_unique<RegexASTOrByte>(
-- 
2.43.0


From 432fcaf50ab21c797020cf950beba1332c49e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 07/32] fix: list a token's types in schema order rather than
 in heap address order

---
 src/log_surgeon/Lexer.tpp                    |  8 +++++---
 src/log_surgeon/finite_automata/RegexDFA.hpp |  7 ++++++-
 src/log_surgeon/finite_automata/RegexDFA.tpp |  8 +++++---
 src/log_surgeon/finite_automata/RegexNFA.hpp | 13 +++++++++++++
 4 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 8a8aeb3..9e858fd 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -433,9 +433,11 @@ auto Lexer<NFAStateType, DFAStateType>::nfa_to_dfa(finite_automata::RegexNFA<NFA
             = std::make_unique<finite_automata::RegexDFA<DFAStateType>>();
     std::map<StateSet, DFAStateType*> dfa_states;
     std::stack<StateSet> unmarked_sets;
-    auto create_dfa_state
-            = [&dfa, &dfa_states, &unmarked_sets](StateSet const& set) -> DFAStateType* {
-        DFAStateType* state = dfa->new_state(set);
+    auto const accepting_nfa_states = nfa.get_accepting_states();
+    auto create_dfa_state = [&dfa, &dfa_states, &unmarked_sets, &accepting_nfa_states](
+                                    StateSet const& set
+                            ) -> DFAStateType* {
+        DFAStateType* state = dfa->new_state(set, accepting_nfa_states);
         dfa_states[set] = state;
         unmarked_sets.push(set);
         return state;
diff --git a/src/log_surgeon/finite_automata/RegexDFA.hpp b/src/log_surgeon/finite_automata/RegexDFA.hpp
index b549d7c..4d1bfb4 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.hpp
@@ -120,10 +120,15 @@ public:
      * Creates a new DFA state based on a set of NFA states and adds it to
      * m_states
      * @param nfa_state_set
+     * @param accepting_nfa_states The accepting NFA states in the order in which the DFA state must
+     * list their variable IDs.
      * @return DFAStateType*
      */
     template <typename NFAStateType>
-    auto new_state(std::set<NFAStateType*> const& nfa_state_set) -> DFAStateType*;
+    auto new_state(
+            std::set<NFAStateType*> const& nfa_state_set,
+            std::vector<NFAStateType*> const& accepting_nfa_states
+    ) -> DFAStateType*;
 
     auto get_root() const -> DFAStateType const* { return m_states.at(0).get(); }
 
diff --git a/src/log_surgeon/finite_automata/RegexDFA.tpp b/src/log_surgeon/finite_automata/RegexDFA.tpp
index 458a556..fc2ef8d 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.tpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.tpp
@@ -40,12 +40,14 @@ auto RegexDFAStatePair<DFAState>::get_reachable_pairs(
 
 template <typename DFAStateType>
 template <typename NFAStateType>
-auto RegexDFA<DFAStateType>::new_state(std::set<NFAStateType*> const& nfa_state_set
+auto RegexDFA<DFAStateType>::new_state(
+        std::set<NFAStateType*> const& nfa_state_set,
+        std::vector<NFAStateType*> const& accepting_nfa_states
 ) -> DFAStateType* {
     m_states.emplace_back(std::make_unique<DFAStateType>());
     auto* dfa_state = m_states.back().get();
-    for (auto const* nfa_state : nfa_state_set) {
-        if (nfa_state->is_accepting()) {
+    for (auto* nfa_state : accepting_nfa_states) {
+        if (nfa_state_set.contains(nfa_state)) {
             dfa_state->add_matching_variable_id(nfa_state->get_matching_variable_id());
         }
     }
diff --git a/src/log_surgeon/finite_automata/RegexNFA.hpp b/src/log_surgeon/finite_automata/RegexNFA.hpp
index ba9791b..fa1a436 100644
--- a/src/log_surgeon/finite_automata/RegexNFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFA.hpp
@@ -90,6 +90,19 @@ public:
 
     auto get_root() -> NFAStateType* { return m_root; }
 
+    /**
+     * @return The accepting states, in the order of the rules they belong to.
+     */
+    [[nodiscard]] auto get_accepting_states() const -> std::vector<NFAStateType const*> {
+        std::vector<NFAStateType const*> accepting_states;
+        for (auto const& state : m_states) {
+            if (state->is_accepting()) {
+                accepting_states.push_back(state.get());
+            }
+        }
+        return accepting_states;
+    }
+
 private:
     std::vector<std::unique_ptr<NFAStateType>> m_states;
     NFAStateType* m_root;
-- 
2.43.0


From a6c15e7d5d569c338e8350b27c9f165874d5018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 08/32] fix: do not read the first character of the (empty) end
 token

It lies one past the end of the caller's buffer.
---
 src/log_surgeon/LogParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 96345fc..a6981ee 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -237,15 +237,15 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
         }
         output_buffer->set_curr_token(next_token);
         auto token_type = next_token.m_type_ids_ptr->at(0);
+        if (token_type == (uint32_t)SymbolId::TokenEnd) {
+            parsing_action = ParsingAction::CompressAndFinish;
+            return ErrorCode::Success;
+        }
         bool found_start_of_next_message
                 = (output_buffer->has_timestamp()
                    && token_type == (uint32_t)SymbolId::TokenNewlineTimestamp)
                   || (!output_buffer->has_timestamp() && next_token.get_char(0) == '\n'
                       && token_type != (uint32_t)SymbolId::TokenNewline);
-        if (token_type == (uint32_t)SymbolId::TokenEnd) {
-            parsing_action = ParsingAction::CompressAndFinish;
-            return ErrorCode::Success;
-        }
         if (false == output_buffer->has_timestamp()
             && token_type == (uint32_t)SymbolId::TokenNewline)
         {
-- 
2.43.0


From 41ab68ed6c63f66f08448dfe6679d200987e3892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 09/32] fix: end a log event at its newline when the newline is
 its first token

Until a timestamp is found every newline ends an event, but a blank line was merged with the line after it.
---
 src/log_surgeon/LogParser.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index a6981ee..01e335f 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -184,9 +184,16 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
             if (ErrorCode err = get_next_symbol(next_token); ErrorCode::Success != err) {
                 return err;
             }
-            if (false == output_buffer->has_timestamp()
-                && next_token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenNewlineTimestamp)
-            {
+            auto const token_type = next_token.m_type_ids_ptr->at(0);
+            if (token_type == (uint32_t)SymbolId::TokenNewline) {
+                // make a message with just the '\n' character
+                output_buffer->set_token(1, next_token);
+                output_buffer->set_pos(2);
+                m_input_buffer.set_consumed_pos(next_token.m_end_pos);
+                parsing_action = ParsingAction::Compress;
+                return ErrorCode::Success;
+            }
+            if (token_type != (uint32_t)SymbolId::TokenEnd && next_token.get_char(0) == '\n') {
                 // TODO: combine the below with found_start_of_next_message
                 // into 1 function
                 // Increment by 1 because the '\n' character is not part of the
-- 
2.43.0


From b9314850e9205e9815258c2a6b0de455f0e875ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 10/32] fix: forget the start of the next log event when the
 parser is reset

---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 01e335f..f98bff1 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -162,6 +162,7 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
 auto LogParser::reset() -> void {
     m_input_buffer.reset();
     m_lexer.reset();
+    m_has_start_of_log = false;
     m_lexer.prepend_start_of_file_char(m_input_buffer);
 }
 
-- 
2.43.0


From d6a14f2cf6244eea241b8605b71658ff96eae909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 11/32] fix: flag an event as multiline when a variable is all
 that follows its newline

---
 src/log_surgeon/LogParser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index f98bff1..898a75f 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -308,17 +308,20 @@ auto LogParser::generate_log_event_view_metadata() -> void {
         start = 1;
     }
     uint32_t first_newline_pos{0};
+    bool text_follows_newline{false};
     for (uint32_t i = start; i < m_log_event_view->m_log_output_buffer->pos(); i++) {
         Token* token = &m_log_event_view->m_log_output_buffer->get_mutable_token(i);
         m_log_event_view->add_token(token->m_type_ids_ptr->at(0), token);
         if (token->get_delimiter() == "\n" && first_newline_pos == 0) {
             first_newline_pos = i;
+            text_follows_newline = token->get_length() > 1;
         }
     }
-    // To be a multiline log there must be at least one token between the
-    // newline token and the last token in the output buffer.
+    // To be a multiline log there must be text after the first newline, either in the same token (a
+    // variable delimited by the newline) or in a later one.
     if (m_log_event_view->m_log_output_buffer->has_timestamp() && 0 < first_newline_pos
-        && first_newline_pos + 1 < m_log_event_view->m_log_output_buffer->pos())
+        && (text_follows_newline
+            || first_newline_pos + 1 < m_log_event_view->m_log_output_buffer->pos()))
     {
         m_log_event_view->set_multiline(true);
     }
-- 
2.43.0


From 849044e9fbabe1ea6db1e65f6a1be127f4343112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 12/32] fix: keep the first character of a variable without
 leading delimiter out of the log type

---
 src/log_surgeon/LogEvent.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index 709e62c..2a51471 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -55,7 +55,10 @@ auto LogEventView::get_logtype() const -> std::string {
         if (token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenUncaughtString) {
             logtype += token.to_string_view();
         } else {
-            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)) {
+            // A variable at the start of an event may not have a leading delimiter
+            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)
+                && m_log_parser.m_lexer.is_delimiter(token.get_char(0)))
+            {
                 logtype += token.get_delimiter();
             }
             logtype += "<";
-- 
2.43.0


From 817377ce2d5c0f78a8cf1382d2d835d342a0aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 13/32] fix: keep the first token of a deep copied event that
 has no timestamp

---
 src/log_surgeon/LogEvent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index 2a51471..4e0bf1d 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -86,6 +86,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
         throw std::runtime_error("token buffer_size <= 0");
     }
     m_buffer.resize(buffer_size);
+    m_log_output_buffer->set_pos(start);
     uint32_t curr_pos = 0;
     for (uint32_t i = start; i < src.get_log_output_buffer()->pos(); i++) {
         Token& token = src.get_log_output_buffer()->get_mutable_token(i);
@@ -105,7 +106,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
         m_log_output_buffer->set_curr_token(copied_token);
         m_log_output_buffer->advance_to_next_token();
     }
-    for (uint32_t i = 0; i < get_log_output_buffer()->pos(); i++) {
+    for (uint32_t i = start; i < get_log_output_buffer()->pos(); i++) {
         Token& token = get_log_output_buffer()->get_mutable_token(i);
         auto const& token_types = *token.m_type_ids_ptr;
         add_token(token_types[0], &token);
-- 
2.43.0


From 9a319e47cf10336a0fe5d6940e5c89d4473b6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 14/32] fix: return the start of the next log event as the
 offset of the buffer parser

---
 src/log_surgeon/BufferParser.cpp |  8 ++------
 src/log_surgeon/Lexer.tpp        |  1 +
 src/log_surgeon/LogParser.cpp    | 18 ++++++++++++++++++
 src/log_surgeon/LogParser.hpp    | 19 +++++++++++++++----
 4 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/log_surgeon/BufferParser.cpp b/src/log_surgeon/BufferParser.cpp
index 292029e..b74cd2e 100644
--- a/src/log_surgeon/BufferParser.cpp
+++ b/src/log_surgeon/BufferParser.cpp
@@ -32,18 +32,14 @@ auto BufferParser::parse_next_event(
     LogParser::ParsingAction parsing_action{LogParser::ParsingAction::None};
     ErrorCode error_code = m_log_parser.parse_and_generate_metadata(parsing_action);
     if (ErrorCode::Success != error_code) {
-        if (0 != m_log_parser.get_log_event_view().m_log_output_buffer->pos()) {
-            offset = m_log_parser.get_log_event_view()
-                             .m_log_output_buffer->get_token(0)
-                             .m_start_pos;
-        }
+        // No log event was parsed, so offset is still the start of the unfinished log event
         reset();
         return error_code;
     }
     if (LogParser::ParsingAction::CompressAndFinish == parsing_action) {
         m_done = true;
     }
-    offset = m_log_parser.get_input_pos();
+    offset = m_log_parser.get_next_event_pos();
     return ErrorCode::Success;
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 9e858fd..2699f69 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -337,6 +337,7 @@ void Lexer<NFAStateType, DFAStateType>::prepend_start_of_file_char(ParserInputBu
     m_asked_for_more_data = true;
     m_start_pos = input_buffer.storage().pos();
     m_match_pos = input_buffer.storage().pos();
+    m_last_match_pos = input_buffer.storage().pos();
     m_match_line = m_line;
     m_type_ids = nullptr;
 }
diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 898a75f..7d11e32 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -163,9 +163,26 @@ auto LogParser::reset() -> void {
     m_input_buffer.reset();
     m_lexer.reset();
     m_has_start_of_log = false;
+    m_at_start_of_input = true;
     m_lexer.prepend_start_of_file_char(m_input_buffer);
 }
 
+auto LogParser::set_input_buffer(
+        char* storage,
+        uint32_t size,
+        uint32_t pos,
+        bool finished_reading_input
+) -> void {
+    m_input_buffer.set_storage(storage, size, pos, finished_reading_input);
+    if (m_at_start_of_input) {
+        // The input starts at pos, which may differ from where the lexer was reset to
+        m_lexer.prepend_start_of_file_char(m_input_buffer);
+    } else if (m_has_start_of_log && pos == m_start_of_log_message.m_start_pos) {
+        // The first token of the log event was already lexed
+        m_input_buffer.set_pos(m_start_of_log_message.m_end_pos);
+    }
+}
+
 auto LogParser::parse_and_generate_metadata(LogParser::ParsingAction& parsing_action) -> ErrorCode {
     ErrorCode error_code = parse(parsing_action);
     if (ErrorCode::Success == error_code) {
@@ -175,6 +192,7 @@ auto LogParser::parse_and_generate_metadata(LogParser::ParsingAction& parsing_ac
 }
 
 auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
+    m_at_start_of_input = false;
     std::unique_ptr<LogParserOutputBuffer>& output_buffer = m_log_event_view->m_log_output_buffer;
     if (0 == output_buffer->pos()) {
         output_buffer->set_has_delimiters(m_lexer.get_has_delimiters());
diff --git a/src/log_surgeon/LogParser.hpp b/src/log_surgeon/LogParser.hpp
index 9133914..a1c4a8e 100644
--- a/src/log_surgeon/LogParser.hpp
+++ b/src/log_surgeon/LogParser.hpp
@@ -78,21 +78,30 @@ public:
      * is passed in.
      * @param storage A pointer to the new buffer to use as the input buffer.
      * @param size The size of the buffer pointed to by storage.
-     * @param pos The current position into the buffer (storage) to set.
+     * @param pos The position in the buffer (storage) of the next log event to
+     * parse.
      * @param finished_reading_input True if there is no more input left to
      * process, so the parser will finish consuming the entire buffer without
      * requesting more input data.
      */
     auto set_input_buffer(char* storage, uint32_t size, uint32_t pos, bool finished_reading_input)
-            -> void {
-        m_input_buffer.set_storage(storage, size, pos, finished_reading_input);
-    }
+            -> void;
 
     /**
      * @return the current position inside the input buffer.
      */
     auto get_input_pos() -> uint32_t { return m_input_buffer.storage().pos(); }
 
+    /**
+     * @return the position inside the input buffer of the next log event to
+     * parse. Unlike the input position, it does not skip the first token of that
+     * log event if it was already lexed to find the end of the previous one.
+     */
+    [[nodiscard]] auto get_next_event_pos() const -> uint32_t {
+        return m_has_start_of_log ? m_start_of_log_message.m_start_pos
+                                  : m_input_buffer.storage().pos();
+    }
+
     /**
      * Reads into the input buffer if only consumed data will be overwritten.
      * @param reader to use for IO.
@@ -162,6 +171,8 @@ private:
 
     // TODO: move ownership of the buffer to the lexer
     ParserInputBuffer m_input_buffer;
+    // nothing has been parsed since the last reset
+    bool m_at_start_of_input{true};
     bool m_has_start_of_log{false};
     Token m_start_of_log_message{};
     std::unique_ptr<LogEventView> m_log_event_view{nullptr};
-- 
2.43.0


From 0e31ed8a680bbfedbf2bb1a3626978ae2198fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 15/32] fix: let a newly constructed log parser start at the
 start of the input

---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 7d11e32..39df074 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -34,6 +34,7 @@ LogParser::LogParser(std::unique_ptr<SchemaAST> schema_ast) {
     add_rules(std::move(schema_ast));
     m_lexer.generate();
     m_log_event_view = make_unique<LogEventView>(*this);
+    reset();
 }
 
 auto LogParser::add_delimiters(unique_ptr<ParserAST> const& delimiters) -> void {
-- 
2.43.0


From b9626133d5ed5807f7128de8404b575806346a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 16/32] fix: keep searching for the next token after running
 out of buffered input

---
 src/log_surgeon/Lexer.tpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 2699f69..3972c7e 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -72,6 +72,18 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             m_prev_state = state;
             return err;
         }
+        if (nullptr == state) {
+            // Nothing is being matched, so look for the next delimiter that can start a token
+            // TODO: remove timestamp from m_is_fist_char so that m_is_delimiter
+            // check not needed
+            if (false == input_buffer.log_fully_consumed()
+                && (false == m_is_first_char[next_char] || false == m_is_delimiter[next_char]))
+            {
+                continue;
+            }
+            m_start_pos = prev_byte_buf_pos;
+            state = m_dfa->get_root();
+        }
         if ((m_is_delimiter[next_char] || input_buffer.log_fully_consumed() || !m_has_delimiters)
             && state->is_accepting())
         {
@@ -142,23 +154,9 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
                                 &cTokenEndTypes};
                 return ErrorCode::Success;
             }
-            // TODO: remove timestamp from m_is_fist_char so that m_is_delimiter
-            // check not needed
-            while (input_buffer.log_fully_consumed() == false
-                   && (m_is_first_char[next_char] == false || m_is_delimiter[next_char] == false))
-            {
-                prev_byte_buf_pos = input_buffer.storage().pos();
-                if (ErrorCode err = input_buffer.get_next_character(next_char);
-                    ErrorCode::Success != err)
-                {
-                    m_asked_for_more_data = true;
-                    m_prev_state = state;
-                    return err;
-                }
-            }
+            // Search for the start of the next token, beginning with the character just read
             input_buffer.set_pos(prev_byte_buf_pos);
-            m_start_pos = prev_byte_buf_pos;
-            state = m_dfa->get_root();
+            state = nullptr;
             continue;
         }
         state = next;
-- 
2.43.0


From 769684f826f79c7e2cf6998f380e5d65e0cab7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 17/32] fix: look for variables in what a failed match at the
 start of the input read

---
 src/log_surgeon/Lexer.hpp |  2 ++
 src/log_surgeon/Lexer.tpp | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index ddb12cf..730ff99 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -159,6 +159,8 @@ private:
     std::unique_ptr<finite_automata::RegexDFA<DFAStateType>> m_dfa;
     bool m_asked_for_more_data{false};
     DFAStateType const* m_prev_state{nullptr};
+    // the token being matched started at the (virtual) start of file character
+    bool m_is_at_start_of_file{false};
 };
 
 namespace lexers {
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 3972c7e..87ffd1b 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -63,6 +63,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
         m_match_pos = input_buffer.storage().pos();
         m_match_line = m_line;
         m_type_ids = nullptr;
+        m_is_at_start_of_file = false;
     }
     while (true) {
         uint32_t prev_byte_buf_pos = input_buffer.storage().pos();
@@ -93,6 +94,17 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             m_match_line = m_line;
         }
         DFAStateType* next = state->next(next_char);
+        if (m_is_at_start_of_file && false == m_match
+            && (input_buffer.log_fully_consumed() || nullptr == next || '\n' == next_char))
+        {
+            // Nothing starts at the start of the file. Unlike any other attempt to match a token,
+            // this one may have read past a delimiter (in a timestamp), so go back to the start.
+            m_is_at_start_of_file = false;
+            input_buffer.set_log_fully_consumed(false);
+            input_buffer.set_pos(m_start_pos);
+            state = nullptr;
+            continue;
+        }
         if (next_char == '\n') {
             m_line++;
             if (m_has_delimiters && !m_match) {
@@ -326,6 +338,7 @@ void Lexer<NFAStateType, DFAStateType>::reset() {
     m_type_ids = nullptr;
     m_asked_for_more_data = false;
     m_prev_state = nullptr;
+    m_is_at_start_of_file = false;
 }
 
 template <typename NFAStateType, typename DFAStateType>
@@ -333,6 +346,7 @@ void Lexer<NFAStateType, DFAStateType>::prepend_start_of_file_char(ParserInputBu
 ) {
     m_prev_state = m_dfa->get_root()->next(utf8::cCharStartOfFile);
     m_asked_for_more_data = true;
+    m_is_at_start_of_file = true;
     m_start_pos = input_buffer.storage().pos();
     m_match_pos = input_buffer.storage().pos();
     m_last_match_pos = input_buffer.storage().pos();
-- 
2.43.0


From 99b32d5f2a25bbc7a5a3f8403b9192ab424004bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 18/32] fix: keep token positions at the edge of the data when
 the input buffer grows

---
 src/log_surgeon/Lexer.hpp | 10 +++++----
 src/log_surgeon/Lexer.tpp | 45 +++++++++++++++++----------------------
 2 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index 730ff99..d3b6ac0 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -74,11 +74,13 @@ public:
     auto prepend_start_of_file_char(ParserInputBuffer& input_buffer) -> void;
 
     /**
-     * Flip lexer states to match static buffer flipping.
-     * @param old_storage_size The previous buffer size used to calculate the
-     * new states inside the flipped buffer.
+     * Updates the positions tracked by the lexer after the content of a full input buffer was
+     * copied, oldest data first, to the start of a larger one.
+     * @param old_storage_size The size of the previous buffer.
+     * @param flipped_static_buffer Whether the second half of the previous buffer held older data
+     * than its first half.
      */
-    auto flip_states(uint32_t old_storage_size) -> void;
+    auto move_positions(uint32_t old_storage_size, bool flipped_static_buffer) -> void;
 
     /**
      * Gets next token from the input string
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 87ffd1b..d7d77f9 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -18,24 +18,25 @@
  */
 namespace log_surgeon {
 template <typename NFAStateType, typename DFAStateType>
-void Lexer<NFAStateType, DFAStateType>::flip_states(uint32_t old_storage_size) {
-    if (m_match_pos >= old_storage_size / 2) {
-        m_match_pos -= old_storage_size / 2;
-    } else {
-        m_match_pos += old_storage_size / 2;
-    }
-    // TODO when m_start_pos == old_storage_size / 2, theres two possible cases
-    // currently so both options are potentially wrong
-    if (m_start_pos > old_storage_size / 2) {
-        m_start_pos -= old_storage_size / 2;
-    } else {
-        m_start_pos += old_storage_size / 2;
-    }
-    if (m_last_match_pos >= old_storage_size / 2) {
-        m_last_match_pos -= old_storage_size / 2;
-    } else {
-        m_last_match_pos += old_storage_size / 2;
-    }
+auto Lexer<NFAStateType, DFAStateType>::move_positions(
+        uint32_t old_storage_size,
+        bool flipped_static_buffer
+) -> void {
+    // The position in the old buffer of the oldest data, at which the newest data ends as well
+    uint32_t const boundary_pos{flipped_static_buffer ? old_storage_size / 2 : 0};
+    auto move_position = [&](uint32_t& pos, bool is_end_of_data) {
+        if (boundary_pos == pos) {
+            pos = is_end_of_data ? old_storage_size : 0;
+        } else {
+            pos = (pos + old_storage_size - boundary_pos) % old_storage_size;
+        }
+    };
+    // If no character was read since the start of the token, then the token starts at the end of
+    // the data.
+    bool const starts_at_end_of_data{m_dfa->get_root() == m_prev_state};
+    move_position(m_start_pos, starts_at_end_of_data);
+    move_position(m_last_match_pos, starts_at_end_of_data);
+    move_position(m_match_pos, true);
 }
 
 template <typename NFAStateType, typename DFAStateType>
@@ -316,13 +317,7 @@ auto Lexer<NFAStateType, DFAStateType>::increase_buffer_capacity(ParserInputBuff
     bool flipped_static_buffer{false};
     input_buffer.increase_capacity(old_storage_size, flipped_static_buffer);
     if (old_storage_size < input_buffer.storage().size()) {
-        if (flipped_static_buffer) {
-            flip_states(old_storage_size);
-        }
-        if (0 == m_last_match_pos) {
-            m_last_match_pos = old_storage_size;
-            m_start_pos = old_storage_size;
-        }
+        move_positions(old_storage_size, flipped_static_buffer);
     }
 }
 
-- 
2.43.0


From c204ee4a1bf5b47417ba75912a8e3e0bfac7d73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 19/32] fix: read into the input buffer whenever, and only
 when, the other half is consumed

---
 src/log_surgeon/LogParser.cpp         | 20 ++++++++++++--------
 src/log_surgeon/LogParser.hpp         |  6 ++++++
 src/log_surgeon/ParserInputBuffer.cpp |  8 ++------
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 39df074..bb79e5f 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -209,7 +209,7 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
                 // make a message with just the '\n' character
                 output_buffer->set_token(1, next_token);
                 output_buffer->set_pos(2);
-                m_input_buffer.set_consumed_pos(next_token.m_end_pos);
+                set_last_consumed_token(next_token);
                 parsing_action = ParsingAction::Compress;
                 return ErrorCode::Success;
             }
@@ -231,7 +231,7 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
                         = &Lexer<RegexNFAByteState, RegexDFAByteState>::cTokenUncaughtStringTypes;
                 output_buffer->set_token(1, next_token);
                 output_buffer->set_pos(2);
-                m_input_buffer.set_consumed_pos(next_token.m_start_pos);
+                set_last_consumed_token(next_token);
                 m_has_start_of_log = true;
                 parsing_action = ParsingAction::Compress;
                 return ErrorCode::Success;
@@ -276,7 +276,7 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
         if (false == output_buffer->has_timestamp()
             && token_type == (uint32_t)SymbolId::TokenNewline)
         {
-            m_input_buffer.set_consumed_pos(output_buffer->get_curr_token().m_end_pos);
+            set_last_consumed_token(next_token);
             output_buffer->advance_to_next_token();
             parsing_action = ParsingAction::Compress;
             return ErrorCode::Success;
@@ -296,11 +296,7 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
             curr_token.m_type_ids_ptr
                     = &Lexer<RegexNFAByteState, RegexDFAByteState>::cTokenUncaughtStringTypes;
             output_buffer->set_curr_token(curr_token);
-            if (0 == m_start_of_log_message.m_start_pos) {
-                m_input_buffer.set_consumed_pos(m_input_buffer.storage().size() - 1);
-            } else {
-                m_input_buffer.set_consumed_pos(m_start_of_log_message.m_start_pos - 1);
-            }
+            set_last_consumed_token(curr_token);
             m_has_start_of_log = true;
             output_buffer->advance_to_next_token();
             parsing_action = ParsingAction::Compress;
@@ -321,6 +317,14 @@ auto LogParser::get_next_symbol(Token& token) -> ErrorCode {
     return m_lexer.scan(m_input_buffer, token);
 }
 
+auto LogParser::set_last_consumed_token(Token const& token) -> void {
+    if (0 == token.m_end_pos) {
+        m_input_buffer.set_consumed_pos(m_input_buffer.storage().size() - 1);
+    } else {
+        m_input_buffer.set_consumed_pos(token.m_end_pos - 1);
+    }
+}
+
 auto LogParser::generate_log_event_view_metadata() -> void {
     uint32_t start = 0;
     if (false == m_log_event_view->m_log_output_buffer->has_timestamp()) {
diff --git a/src/log_surgeon/LogParser.hpp b/src/log_surgeon/LogParser.hpp
index a1c4a8e..720cb7d 100644
--- a/src/log_surgeon/LogParser.hpp
+++ b/src/log_surgeon/LogParser.hpp
@@ -145,6 +145,12 @@ private:
      */
     auto generate_log_event_view_metadata() -> void;
 
+    /**
+     * Marks the input up to the end of a token as no longer needed.
+     * @param token The last token of a log event.
+     */
+    auto set_last_consumed_token(Token const& token) -> void;
+
     /**
      * Requests the next token from the lexer.
      * @param token is populated with the next token found by the parser.
diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 15fde34..f7ea35e 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -24,12 +24,8 @@ auto ParserInputBuffer::read_is_safe() -> bool {
     }
     // Check if the last log message ends in the buffer half last read.
     // This means the other half of the buffer has already been fully used.
-    if ((!m_last_read_first_half && m_consumed_pos > m_storage.size() / 2)
-        || (m_last_read_first_half && m_consumed_pos < m_storage.size() / 2 && m_consumed_pos > 0))
-    {
-        return true;
-    }
-    return false;
+    bool const consumed_first_half_last{m_consumed_pos < m_storage.size() / 2};
+    return m_last_read_first_half == consumed_first_half_last;
 }
 
 auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
-- 
2.43.0


From c930b02bdaf13b8f7ccb90f701a6feb0b1607a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 20/32] fix: continue reading a schema string where the last
 read ended

---
 src/log_surgeon/SchemaParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 984d919..4c93c6e 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -84,8 +84,8 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
 }
 
 auto SchemaParser::try_schema_string(string_view const schema_string) -> unique_ptr<SchemaAST> {
+    size_t unparsed_string_pos = 0;
     Reader reader{[&](char* dst_buf, size_t count, size_t& read_to) -> ErrorCode {
-        uint32_t unparsed_string_pos = 0;
         std::span<char> const buf{dst_buf, count};
         if (unparsed_string_pos + count > schema_string.length()) {
             count = schema_string.length() - unparsed_string_pos;
@@ -94,7 +94,7 @@ auto SchemaParser::try_schema_string(string_view const schema_string) -> unique_
         if (read_to == 0) {
             return ErrorCode::EndOfFile;
         }
-        for (uint32_t i = 0; i < count; i++) {
+        for (size_t i = 0; i < count; i++) {
             buf[i] = schema_string[unparsed_string_pos + i];
         }
         unparsed_string_pos += count;
-- 
2.43.0


From 7f4492597ab1fd86f91d82d6f7757853489f8f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 21/32] fix: fill the input buffer from readers that return
 less than what was asked for

---
 src/log_surgeon/ParserInputBuffer.cpp | 31 +++++++++++++++++----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index f7ea35e..6fdba88 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -35,21 +35,30 @@ auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
     if (m_last_read_first_half) {
         read_offset = m_storage.size() / 2;
     }
-    if (ErrorCode err = m_storage.read(reader, read_offset, m_storage.size() / 2, bytes_read);
-        ErrorCode::Success != err)
-    {
-        if (ErrorCode::EndOfFile == err) {
+    uint32_t const bytes_to_read{m_storage.size() / 2};
+    // A reader may return less than what was asked for before its end, but the half of the buffer
+    // must be filled
+    while (bytes_read < bytes_to_read) {
+        size_t bytes_returned{0};
+        ErrorCode const err = m_storage.read(
+                reader,
+                read_offset + bytes_read,
+                bytes_to_read - bytes_read,
+                bytes_returned
+        );
+        if (ErrorCode::Success != err && ErrorCode::EndOfFile != err) {
+            return err;
+        }
+        bytes_read += bytes_returned;
+        if (ErrorCode::EndOfFile == err || 0 == bytes_returned) {
             m_finished_reading_input = true;
+            break;
         }
-        return err;
     }
-    m_last_read_first_half = !m_last_read_first_half;
-    // TODO: This is not a portable check for certain forms of IO
-    // A method from Reader should be used to check if the input source is
-    // finished
-    if (bytes_read < m_storage.size() / 2) {
-        m_finished_reading_input = true;
+    if (0 == bytes_read) {
+        return ErrorCode::EndOfFile;
     }
+    m_last_read_first_half = !m_last_read_first_half;
     m_pos_last_read_char += bytes_read;
     if (m_pos_last_read_char > m_storage.size()) {
         m_pos_last_read_char -= m_storage.size();
-- 
2.43.0


From 84e25075087d39ed0872902e9bb8592c1e988830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 22/32] fix: let a schema have any number of symbols,
 regardless of the schemas parsed before

---
 src/log_surgeon/LALR1Parser.cpp | 5 ++++-
 src/log_surgeon/LALR1Parser.hpp | 6 +++---
 src/log_surgeon/LALR1Parser.tpp | 6 ++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.cpp b/src/log_surgeon/LALR1Parser.cpp
index 5268091..7f7584e 100644
--- a/src/log_surgeon/LALR1Parser.cpp
+++ b/src/log_surgeon/LALR1Parser.cpp
@@ -1,7 +1,7 @@
 #include "LALR1Parser.hpp"
 
 namespace log_surgeon {
-MatchedSymbol NonTerminal::m_all_children[cSizeOfAllChildren];
+std::vector<MatchedSymbol> NonTerminal::m_all_children(cSizeOfAllChildren);
 
 ParserAST::~ParserAST() = default;
 
@@ -12,5 +12,8 @@ NonTerminal::NonTerminal(Production* p)
           m_production(p),
           m_ast(nullptr) {
     NonTerminal::m_next_children_start += p->m_body.size();
+    if (NonTerminal::m_next_children_start > NonTerminal::m_all_children.size()) {
+        NonTerminal::m_all_children.resize(2 * NonTerminal::m_next_children_start);
+    }
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index c31e78e..50c2bc4 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -76,7 +76,7 @@ public:
      * @return Token*
      */
     [[nodiscard]] auto token_cast(uint32_t i) const -> Token* {
-        assert(i < cSizeOfAllChildren);
+        assert(m_children_start + i < NonTerminal::m_all_children.size());
         return &std::get<Token>(NonTerminal::m_all_children[m_children_start + i]);
     }
 
@@ -88,7 +88,7 @@ public:
      * @return NonTerminal*
      */
     [[nodiscard]] auto non_terminal_cast(uint32_t i) const -> NonTerminal* {
-        assert(i < cSizeOfAllChildren);
+        assert(m_children_start + i < NonTerminal::m_all_children.size());
         return &std::get<NonTerminal>(NonTerminal::m_all_children[m_children_start + i]);
     }
 
@@ -99,7 +99,7 @@ public:
      */
     auto get_parser_ast() -> std::unique_ptr<ParserAST>& { return m_ast; }
 
-    static MatchedSymbol m_all_children[];
+    static std::vector<MatchedSymbol> m_all_children;
     static uint32_t m_next_children_start;
     uint32_t m_children_start;
     Production* m_production;
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 2edfa29..2a8e765 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -543,7 +543,8 @@ auto LALR1Parser<NFAStateType, DFAStateType>::get_input_after_last_newline(
                         },
                         [&parse_stack_matches](NonTerminal& m) {
                             for (size_t i = 0; i < m.m_production->m_body.size(); i++) {
-                                assert(m.m_children_start + i < cSizeOfAllChildren);
+                                assert(m.m_children_start + i
+                                       < NonTerminal::m_all_children.size());
                                 parse_stack_matches.push(std::move(
                                         NonTerminal::m_all_children[m.m_children_start + i]
                                 ));
@@ -661,6 +662,7 @@ void LALR1Parser<NFAStateType, DFAStateType>::reset() {
     }
     m_input_buffer.reset();
     this->m_lexer.reset();
+    NonTerminal::m_next_children_start = 0;
 }
 
 template <typename NFAStateType, typename DFAStateType>
@@ -726,7 +728,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse_symbol(
                         for (size_t i = 0; i < n; i++) {
                             m_parse_stack_states.pop();
                             assert((matched_non_terminal.m_children_start + n - i - 1)
-                                   < cSizeOfAllChildren);
+                                   < NonTerminal::m_all_children.size());
                             NonTerminal::m_all_children
                                     [matched_non_terminal.m_children_start + n - i - 1]
                                     = std::move(m_parse_stack_matches.top());
-- 
2.43.0


From bc3988e8f39856908aebd41dedaf814c2141e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 23/32] fix: grow the schema parser's input buffer instead of
 failing on long inputs

---
 src/log_surgeon/LALR1Parser.hpp |  8 ++++++++
 src/log_surgeon/LALR1Parser.tpp | 22 ++++++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index 50c2bc4..916f359 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -287,6 +287,8 @@ protected:
     std::unordered_map<uint32_t, std::vector<Production*>> m_non_terminals;
     uint32_t m_root_production_id{0};
     ParserInputBuffer m_input_buffer;
+    // the source of the input being parsed
+    Reader* m_reader{nullptr};
 
 private:
     /**
@@ -351,6 +353,12 @@ private:
      */
     auto generate_lalr1_action() -> void;
 
+    /**
+     * Reads into the input buffer if only consumed data will be overwritten
+     * @throw std::runtime_error if reading fails
+     */
+    auto read_into_input() -> void;
+
     /**
      * Use the previous symbol from the lexer if unused, otherwise request the
      * next symbol from the lexer
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 2a8e765..ccd42d2 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -632,10 +632,11 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
 template <typename NFAStateType, typename DFAStateType>
 auto LALR1Parser<NFAStateType, DFAStateType>::parse(Reader& reader) -> NonTerminal {
     reset();
+    m_reader = &reader;
     m_parse_stack_states.push(m_root_item_set_ptr);
     bool accept = false;
     while (true) {
-        m_input_buffer.read_if_safe(reader);
+        read_into_input();
         Token next_terminal = get_next_symbol();
         if (parse_advance(next_terminal, &accept)) {
             break;
@@ -665,13 +666,26 @@ void LALR1Parser<NFAStateType, DFAStateType>::reset() {
     NonTerminal::m_next_children_start = 0;
 }
 
+template <typename NFAStateType, typename DFAStateType>
+auto LALR1Parser<NFAStateType, DFAStateType>::read_into_input() -> void {
+    if (ErrorCode const error = m_input_buffer.read_if_safe(*m_reader);
+        ErrorCode::Success != error && ErrorCode::EndOfFile != error)
+    {
+        throw std::runtime_error("Error reading input.");
+    }
+}
+
 template <typename NFAStateType, typename DFAStateType>
 auto LALR1Parser<NFAStateType, DFAStateType>::get_next_symbol() -> Token {
     if (m_next_token == std::nullopt) {
         Token token;
-        if (ErrorCode error = this->m_lexer.scan(m_input_buffer, token);
-            ErrorCode::Success != error)
-        {
+        ErrorCode error = this->m_lexer.scan(m_input_buffer, token);
+        while (ErrorCode::BufferOutOfBounds == error) {
+            this->m_lexer.increase_buffer_capacity(m_input_buffer);
+            read_into_input();
+            error = this->m_lexer.scan(m_input_buffer, token);
+        }
+        if (ErrorCode::Success != error) {
             throw std::runtime_error("Error scanning in lexer.");
         }
         return token;
-- 
2.43.0


From 682db51680b56fde6a27dccb14f93462c4fdce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 24/32] fix: refuse grammars in which accepting the input
 conflicts with a reduction

---
 src/log_surgeon/LALR1Parser.tpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index ccd42d2..e0bc02b 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -479,10 +479,21 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lalr1_action() {
             }
             if (item.has_dot_at_end()) {
                 if (item.m_production == m_productions[m_root_production_id].get()) {
-                    Action action = true;
-                    item_set_ptr->m_actions[(uint32_t)SymbolId::TokenEnd] = action;
+                    Action& action = item_set_ptr->m_actions[(uint32_t)SymbolId::TokenEnd];
+                    if (false == std::holds_alternative<bool>(action)) {
+                        throw std::runtime_error(
+                                "Accepting the input causes a conflict with another action\n"
+                        );
+                    }
+                    action = true;
                 } else {
                     Action& action = item_set_ptr->m_actions[item.m_lookahead];
+                    if (std::holds_alternative<bool>(action) && std::get<bool>(action)) {
+                        throw std::runtime_error(
+                                "Accepting the input causes a conflict with reduction "
+                                + this->m_lexer.m_id_symbol[item.m_production->m_head] + "\n"
+                        );
+                    }
                     if (!std::holds_alternative<bool>(action)) {
                         std::string conflict_msg{};
                         conflict_msg += "For symbol ";
-- 
2.43.0


From 09a0374a125d97bcfd29ee3ab3feb65481ecd072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 25/32] fix: reject delimiters that are not single characters

---
 src/log_surgeon/SchemaParser.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 4c93c6e..c163fdb 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -409,18 +409,27 @@ static auto regex_white_space_rule(NonTerminal* /* m */) -> unique_ptr<ParserAST
     );
 }
 
+static auto get_delimiter(unique_ptr<RegexASTByte> const& delimiter_ast) -> uint32_t {
+    auto const* literal_ast = dynamic_cast<RegexASTLiteralByte const*>(delimiter_ast.get());
+    if (nullptr == literal_ast) {
+        throw std::runtime_error("Each delimiter must be a single character, remember to escape "
+                                 "special characters.");
+    }
+    return literal_ast->get_character();
+}
+
 static auto existing_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     unique_ptr<ParserAST>& r1 = m->non_terminal_cast(0)->get_parser_ast();
     auto& r2 = m->non_terminal_cast(1)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     auto* r1_ptr = dynamic_cast<DelimiterStringAST*>(r1.get());
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r2.get())->get_character();
+    uint32_t character = get_delimiter(r2);
     r1_ptr->add_delimiter(character);
     return std::move(r1);
 }
 
 static auto new_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r1.get())->get_character();
+    uint32_t character = get_delimiter(r1);
     return make_unique<DelimiterStringAST>(character);
 }
 
-- 
2.43.0


From 6f21131ff6e6c7751de5772bd604c5244228c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 26/32] fix: report a variable schema that contains no variable

---
 src/log_surgeon/Schema.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log_surgeon/Schema.cpp b/src/log_surgeon/Schema.cpp
index e2008b1..fc3a91e 100644
--- a/src/log_surgeon/Schema.cpp
+++ b/src/log_surgeon/Schema.cpp
@@ -1,5 +1,6 @@
 #include "Schema.hpp"
 
+#include <stdexcept>
 #include <string>
 
 namespace log_surgeon {
@@ -12,6 +13,9 @@ Schema::Schema(std::string const& schema_file_path)
 
 auto Schema::add_variable(std::string_view const var_schema, int const priority) const -> void {
     std::unique_ptr<SchemaAST> const schema_ast = SchemaParser::try_schema_string(var_schema);
+    if (schema_ast->m_schema_vars.empty()) {
+        throw std::runtime_error("No variable found in the given schema.");
+    }
     m_schema_ast->add_schema_var(std::move(schema_ast->m_schema_vars[0]), priority);
 }
 }  // namespace log_surgeon
-- 
2.43.0


From 37a9bc77719d84d968bdbbf0fc4cabb97fcab828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 27/32] fix: keep the tags of a cloned regex AST alive for as
 long as the clone

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index e8e17b6..a342da8 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -671,7 +671,7 @@ public:
               m_group_regex_ast{
                       std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_group_regex_ast->clone())
               },
-              m_tag{std::make_unique<Tag>(*rhs.m_tag)} {
+              m_tag{rhs.m_tag} {
         RegexAST<NFAStateType>::set_subtree_positive_tags(rhs.get_subtree_positive_tags());
     }
 
@@ -721,7 +721,9 @@ public:
 
 private:
     std::unique_ptr<RegexAST<NFAStateType>> m_group_regex_ast;
-    std::unique_ptr<Tag> m_tag;
+    // Shared with the clones of this node, since the (positive and negative) tag sets of a cloned AST
+    // refer to the same tags as those of the original.
+    std::shared_ptr<Tag> m_tag;
 };
 
 template <typename NFAStateType>
-- 
2.43.0


From ffe380e61a122285dccef616cf48c2c1a948dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 28/32] fix: never report an empty token when a nullable
 pattern meets the start of the input

---
 src/log_surgeon/Lexer.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index d7d77f9..ffc9729 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -86,8 +86,10 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             m_start_pos = prev_byte_buf_pos;
             state = m_dfa->get_root();
         }
+        // The start of file is the only place where a match could be empty, which isn't a token
+        bool const is_empty{m_is_at_start_of_file && prev_byte_buf_pos == m_start_pos};
         if ((m_is_delimiter[next_char] || input_buffer.log_fully_consumed() || !m_has_delimiters)
-            && state->is_accepting())
+            && state->is_accepting() && false == is_empty)
         {
             m_match = true;
             m_type_ids = &(state->get_matching_variable_ids());
-- 
2.43.0


From 5365144f5d61d9db5f32393f3e5c9daefcee37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 29/32] fix: report the line a syntax error is on when the
 unexpected token is a newline

---
 src/log_surgeon/LALR1Parser.tpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index e0bc02b..9b20433 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -597,6 +597,9 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
     m_parse_stack_matches.pop();
     uint32_t line_num = get_line_num(top_symbol);
     Token token = std::get<Token>(top_symbol);
+    // A token's line is the one it ends on, so a newline token is on the line before
+    std::string const token_string{token.to_string()};
+    line_num -= std::count(token_string.begin(), token_string.end(), '\n');
     std::string consumed_input = get_input_after_last_newline(m_parse_stack_matches);
     std::string error_type{};
     std::string error_indicator;
-- 
2.43.0


From 29fc8fb044ce6a5a9b9222d63ac549a3a2cb270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 30/32] fix: allow searching an empty interval tree

---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index e5b2413..1a1875a 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -55,7 +55,9 @@ template <typename T>
 auto UnicodeIntervalTree<T>::find(Interval interval
 ) -> std::unique_ptr<std::vector<typename UnicodeIntervalTree<T>::Data>> {
     std::unique_ptr<std::vector<Data>> results(new std::vector<Data>);
-    m_root->find(interval, results.get());
+    if (m_root != nullptr) {
+        m_root->find(interval, results.get());
+    }
     return results;
 }
 
-- 
2.43.0


From 9a313f5fd0a1e35d7413a3451d63bb97caeaf958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 31/32] fix: remove only overlapping intervals from the
 interval tree, wherever they are

---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index 1a1875a..8767675 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -109,7 +109,11 @@ auto UnicodeIntervalTree<T>::Node::pop(
         node->update();
         return Node::balance(std::move(node));
     }
-    assert(node->overlaps(interval));
+    if (!node->overlaps(interval)) {
+        node->m_right = Node::pop(std::move(node->m_right), interval, ret);
+        node->update();
+        return Node::balance(std::move(node));
+    }
     ret->reset(node.release());
     if (((*ret)->m_left == nullptr) && ((*ret)->m_right == nullptr)) {
         return nullptr;
@@ -133,7 +137,6 @@ auto UnicodeIntervalTree<T>::Node::pop_min(std::unique_ptr<Node> node, std::uniq
         -> std::unique_ptr<typename UnicodeIntervalTree<T>::Node> {
     assert(node != nullptr);
     if (node->m_left == nullptr) {
-        assert(node->m_right != nullptr);
         std::unique_ptr<Node> right(std::move(node->m_right));
         ret->reset(node.release());
         return right;
-- 
2.43.0


From 6563a581e3af5260d525c84459e4a1c7e46b0cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 32/32] fix: balance the interval tree by height, not by node
 address

---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index 8767675..df0e5e4 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -169,7 +169,8 @@ auto UnicodeIntervalTree<T>::Node::update() -> void {
 
 template <class T>
 auto UnicodeIntervalTree<T>::Node::balance_factor() -> int {
-    return (m_right != nullptr ? m_right.get() : 0) - (m_left != nullptr ? m_left.get() : 0);
+    return static_cast<int>(m_right != nullptr ? m_right->m_height : 0)
+           - static_cast<int>(m_left != nullptr ? m_left->m_height : 0);
 }
 
 template <class T>
-- 
2.43.0

