From bca2b59faf78f1a5a22df1d1a2f6bc7594cea824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:16 +0000
Subject: [PATCH 01/38] fix: keep the last good line of an unterminated token

The text of a truncated unterminated token stopped one line short of its
recomputed source span, and slicing panicked when the only good line was the
first (e.g. '(* a\n\n').
---
 crates/wolfram-parser/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index e5472b1..f6f7df6 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -156,7 +156,7 @@ fn reparse_unterminated_token_error_node<'i>(
 
             if first_chunk.len() > 1 {
                 components.extend(
-                    first_chunk[1..last_good_line_index]
+                    first_chunk[1..=last_good_line_index]
                         .iter()
                         .map(|line: &Line| line.content),
                 );
-- 
2.43.0


From 6a8bf247a2ea60d6833b1620015b228e033c2908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:25 +0000
Subject: [PATCH 02/38] fix: index unterminated tokens by character under
 CharacterIndex

Character positions were used as byte offsets, so an unterminated token
preceded by or containing a non-ASCII character panicked or was cut at the
wrong place.
---
 crates/wolfram-parser/src/error.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index f6f7df6..5eb6fba 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -533,16 +533,23 @@ fn to_lines_and_expand_tabs(input: &str, _tab_width: u32) -> Vec<Line> {
     //     .collect();
 }
 
+/// Number of source characters in `s`, as counted by
+/// [`SourceConvention::CharacterIndex`][crate::source::SourceConvention::CharacterIndex].
 fn StringLength(s: &str) -> usize {
-    // FIXME: StringLength is NOT equal to string byte count. StringLengh counts
-    //        WL characters (e.g. \[Alpha] counts as 1 character), but
-    //        String::len() counts bytes. This is wrong.
-    s.len()
+    s.chars().count()
 }
 
 fn StringTake(s: &str, range: CharacterSpan) -> &str {
-    // FIXME: This treats WL characters as bytes.
-    &s[range.to_rust_range()]
+    let Range { start, end } = range.to_rust_range();
+
+    // Convert a source character offset into a byte offset.
+    let byte_offset = |char_offset: usize| {
+        s.char_indices()
+            .nth(char_offset)
+            .map_or(s.len(), |(byte_offset, _)| byte_offset)
+    };
+
+    &s[byte_offset(start)..byte_offset(end)]
 }
 
 //==========================================================
-- 
2.43.0


From 2da4395ed02495c1c11106ad77e712e0dbe3857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:37 +0000
Subject: [PATCH 03/38] fix: abstract << and >> whose file name is missing

Abstracting '<<', 'a >>' or 'a >>>' with no file name hit a todo!() and
panicked instead of keeping the error token as the operand.
---
 crates/wolfram-parser/src/abstract_cst.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index a31d31c..7981a8d 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -500,7 +500,8 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                         )],
                         data,
                     ),
-                    _ => unhandled(),
+                    // The file name is missing or is not a valid string.
+                    rand => Ast::call(st::Get, vec![abstract_(rand)], data),
                 }
             },
 
@@ -620,25 +621,23 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                     data,
                 ),
                 BinaryOperator::Put | BinaryOperator::PutAppend => {
-                    let (str, data1) = match right {
+                    let file = match right {
                         // {left_, _, LeafNode[String, str_, data1_]}
                         Cst::Token(Token {
                             tok: TokenKind::String,
                             ref input,
                             src: data1,
-                        }) => (input.as_str(), data1),
-                        _ => unhandled(),
+                        }) => Ast::string(
+                            escapeString_of_abstractFileString(input.as_str()),
+                            data1,
+                        ),
+                        // The file name is missing or is not a valid string.
+                        right => abstract_(right),
                     };
 
                     Ast::call(
                         op.to_symbol(),
-                        vec![
-                            abstract_(left),
-                            Ast::string(
-                                escapeString_of_abstractFileString(str),
-                                data1,
-                            ),
-                        ],
+                        vec![abstract_(left), file],
                         data,
                     )
                 },
-- 
2.43.0


From 815aea7fb55744e82358c5ef745307e292606c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:06 +0000
Subject: [PATCH 04/38] fix: abstract naked bracket groups with any number of
 children

'[a)]', '::[a)]' and the double bracket form have more than one child after
an unexpected closer; abstracting them hit a todo!() and panicked.
---
 crates/wolfram-parser/src/abstract_cst.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 7981a8d..b33b76f 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1024,10 +1024,10 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![abstract_(child.clone())],
                             data,
                         ),
-                        // GroupNode[GroupSquare, {_, _}, data_]
-                        [_, _] => Ast::abstract_syntax_error(
+                        // Any number of children, e.g. after an unexpected closer
+                        [_, children @ .., _] => Ast::abstract_syntax_error(
                             AbstractSyntaxError::OpenSquare,
-                            vec![],
+                            abstract_cst_seq(NodeSeq(children.to_vec())),
                             data,
                         ),
                         _ => unhandled(),
@@ -1062,10 +1062,10 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![abstract_(child.clone())],
                             data,
                         ),
-                        // GroupNode[GroupTypeSpecifier, {_, _}, data_]
-                        [_, _] => Ast::abstract_syntax_error(
+                        // Any number of children, e.g. after an unexpected closer
+                        [_, children @ .., _] => Ast::abstract_syntax_error(
                             AbstractSyntaxError::ColonColonOpenSquare,
-                            vec![],
+                            abstract_cst_seq(NodeSeq(children.to_vec())),
                             data,
                         ),
                         _ => unhandled(),
@@ -1100,10 +1100,10 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![abstract_(child.clone())],
                             data,
                         ),
-                        // GroupNode[GroupDoubleBracket, {_, _}, data_]
-                        [_, _] => Ast::abstract_syntax_error(
+                        // Any number of children, e.g. after an unexpected closer
+                        [_, children @ .., _] => Ast::abstract_syntax_error(
                             AbstractSyntaxError::LeftDoubleBracket,
-                            vec![],
+                            abstract_cst_seq(NodeSeq(children.to_vec())),
                             data,
                         ),
                         _ => unhandled(),
-- 
2.43.0


From 4b44cba206fd7a1faab52cb8028a143424f34672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:14 +0000
Subject: [PATCH 05/38] fix: only abstract f[[x]] as Part when the inner group
 is the only child

'f[[a])]' matched the Part rule by its second child alone and then panicked
because the group has more children.
---
 .../wolfram-parser/src/abstract_cst/abstract_call_node.rs   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs b/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
index b38cc87..42df826 100644
--- a/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
+++ b/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
@@ -88,11 +88,11 @@ pub(super) fn abstract_call_node<
                 })),
             src: data,
         } if matches!(
-            children.0[1], // inner
-            Cst::Group(GroupNode(OperatorNode {
+            children.0.as_slice(), // {first_, inner, last_}
+            [_, Cst::Group(GroupNode(OperatorNode {
                 op: GroupOperator::CodeParser_GroupSquare,
                 ..
-            }))
+            })), _]
         ) =>
         {
             // {first_, inner:GroupNode[GroupSquare, _, _], last_}
-- 
2.43.0


From 23cdb1ce79e770a54097673381e1bf44b1d0121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 06/38] fix: abstract the negation of a parenthesized group
 that is not one child

'-()' and 'a-()' panicked while checking for a parenthesized number.
---
 crates/wolfram-parser/src/abstract_cst.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index b33b76f..29557b1 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1576,12 +1576,11 @@ fn parenthesizedIntegerOrRealQ<I: Debug, S: Debug>(node: &Cst<I, S>) -> bool {
             op: GroupOperator::CodeParser_GroupParen,
             children,
         })) => {
-            let [_, child, _]: &[_; 3] =
-                children.0.as_slice().try_into().expect(
-                    "GroupParen Group node has unexpected number of children",
-                );
-
-            parenthesizedIntegerOrRealQ(child)
+            match children.0.as_slice() {
+                [_, child, _] => parenthesizedIntegerOrRealQ(child),
+                // E.g. `()`
+                _ => false,
+            }
         },
         // parenthesizedIntegerOrRealQ[LeafNode[Integer, _, _]] := True
         // parenthesizedIntegerOrRealQ[LeafNode[Real, _, _]] := True
-- 
2.43.0


From 58150d9b439ba2f2b6b973a553c79b5ce07e0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:15 +0000
Subject: [PATCH 07/38] fix: do not panic on Plus\[InvisibleApplication]a + b
 or -(())

The infix binary at quirk asserted that BinaryAt is always written '@', and
the negated zero check that a parenthesized group has exactly one child.
---
 crates/wolfram-parser/src/abstract_cst.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 29557b1..40dc524 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1634,9 +1634,11 @@ fn possiblyNegatedZeroQ<I: TokenInput + Debug, S: Debug>(
             op: GroupOperator::CodeParser_GroupParen,
             children,
         })) => {
-            expect_children!(children, {_, child:_, _});
-
-            possiblyNegatedZeroQ(child)
+            match <[_; 3]>::try_from(children.0) {
+                Ok([_, child, _]) => possiblyNegatedZeroQ(child),
+                // E.g. `()`
+                Err(_) => false,
+            }
         },
         // possiblyNegatedZeroQ[PrefixNode[Minus, { _, child_}, _]] :=
         //     possiblyNegatedZeroQ[child]
@@ -2174,8 +2176,11 @@ pub(crate) fn processInfixBinaryAtQuirk<
         return node;
     }
 
-    // TODO: Make this a debug_assert!?
-    assert!(matches!(middle, Cst::Token(Token { tok: TK::At, .. })));
+    // `\[InvisibleApplication]` also parses as BinaryAt, but is not affected by
+    // this quirk.
+    if !matches!(middle, Cst::Token(Token { tok: TK::At, .. })) {
+        return node;
+    }
 
     // let data = rhs.source();
 
-- 
2.43.0


From 176a7b9f3fbe697937970d84aa4efad0ef1ee33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:48 +0000
Subject: [PATCH 08/38] fix: give the abstract syntax of f' its source

The Derivative[n][f] node had an empty source, which also failed the
debug assertion that abstract and concrete sources agree.
---
 crates/wolfram-parser/src/abstract_cst.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 40dc524..8cd5f0a 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -546,7 +546,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     AstMetadata::empty(),
                                 ),
                                 vec![abstractedBody],
-                                AstMetadata::empty(),
+                                data,
                             )
                         },
                         // PostfixNode[Derivative, {rand_, LeafNode[Token`Boxes`MultiSingleQuote, quoteStr_, _]}, data_]
@@ -564,7 +564,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     AstMetadata::empty(),
                                 ),
                                 vec![abstract_(operand)],
-                                AstMetadata::empty(),
+                                data,
                             )
                         },
                         _ => unhandled(),
-- 
2.43.0


From d96a58a2fe5dd5ae59fbb389e82d3963151578f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:00 +0000
Subject: [PATCH 09/38] fix: debug assertions that rejected valid operators

Times operands are also separated by implicit times and \[Times], and the
comma parselet also handles \[InvisibleComma].
---
 crates/wolfram-parser/src/abstract_cst.rs   | 4 ++--
 crates/wolfram-parser/src/parse/parselet.rs | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 8cd5f0a..2fa773a 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1700,7 +1700,7 @@ impl<I: TokenInput + Debug, S: TokenSource + Debug> Negated<I, S> {
             },
             Negated::InfixTimesSeq(NodeSeq(children)) => {
                 let children =
-                    part_span_even_children(children, Some(TK::Star));
+                    part_span_even_children(children, None);
 
                 let infix = InfixNode(OperatorNode {
                     op: InfixOperator::Times,
@@ -2058,7 +2058,7 @@ where
             op: InfixOperator::Times,
             children: NodeSeq(children),
         })) => {
-            let children = part_span_even_children(children, Some(TK::Star));
+            let children = part_span_even_children(children, None);
 
             flattenTimes(children, data.clone())
         },
diff --git a/crates/wolfram-parser/src/parse/parselet.rs b/crates/wolfram-parser/src/parse/parselet.rs
index d38fba2..bbf4ac6 100644
--- a/crates/wolfram-parser/src/parse/parselet.rs
+++ b/crates/wolfram-parser/src/parse/parselet.rs
@@ -1795,7 +1795,10 @@ impl<'i, B: ParseBuilder<'i> + 'i> InfixParselet<'i, B> for CommaParselet {
     ) -> B::Node {
         panic_if_aborted!();
 
-        debug_assert_eq!(tok_in.tok, TokenKind::Comma);
+        debug_assert!(matches!(
+            tok_in.tok,
+            TokenKind::Comma | TokenKind::LongName_InvisibleComma
+        ));
 
         let tok_in = session.push_syntax_and_next(tok_in);
 
-- 
2.43.0


From 5bf678f178a96aafca77df1221c8321d44364f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:55 +0000
Subject: [PATCH 10/38] verif: byte read counter behind cfg(wlverif)

---
 crates/wolfram-parser/src/lib.rs              | 31 +++++++++++++++++++
 crates/wolfram-parser/src/read/byte_buffer.rs |  6 ++++
 2 files changed, 37 insertions(+)

diff --git a/crates/wolfram-parser/src/lib.rs b/crates/wolfram-parser/src/lib.rs
index 0f36c4c..ca4b252 100644
--- a/crates/wolfram-parser/src/lib.rs
+++ b/crates/wolfram-parser/src/lib.rs
@@ -60,6 +60,37 @@ macro_rules! Print {
     }}
 }
 
+/// Verification hook: counts byte reads and stops a parse that exceeds a budget.
+#[cfg(wlverif)]
+#[doc(hidden)]
+pub mod wlverif {
+    use std::cell::Cell;
+
+    thread_local! {
+        static STEPS: Cell<u64> = Cell::new(0);
+        static BUDGET: Cell<u64> = Cell::new(u64::MAX);
+    }
+
+    /// Reset the counter of this thread and set its budget.
+    pub fn start(budget: u64) {
+        STEPS.with(|s| s.set(0));
+        BUDGET.with(|b| b.set(budget));
+    }
+
+    /// Number of byte reads on this thread since [`start`].
+    pub fn steps() -> u64 {
+        STEPS.with(|s| s.get())
+    }
+
+    pub(crate) fn step() {
+        let n = steps() + 1;
+        STEPS.with(|s| s.set(n));
+        if n > BUDGET.with(|b| b.get()) {
+            panic!("wlverif: step budget exhausted");
+        }
+    }
+}
+
 mod utils;
 
 
diff --git a/crates/wolfram-parser/src/read/byte_buffer.rs b/crates/wolfram-parser/src/read/byte_buffer.rs
index 321a1f7..9ea755d 100644
--- a/crates/wolfram-parser/src/read/byte_buffer.rs
+++ b/crates/wolfram-parser/src/read/byte_buffer.rs
@@ -9,6 +9,9 @@ use crate::read::Reader;
 // Return current byte
 //
 pub(crate) fn ByteBuffer_nextByte(session: &mut Reader) -> u8 {
+    #[cfg(wlverif)]
+    crate::wlverif::step();
+
     // assert!((session.start <= session.buffer && session.buffer <= session.end));
 
     // if session.buffer == session.end {
@@ -29,6 +32,9 @@ pub(crate) fn ByteBuffer_nextByte(session: &mut Reader) -> u8 {
 }
 
 pub(crate) fn ByteBuffer_currentByte(session: &Reader) -> u8 {
+    #[cfg(wlverif)]
+    crate::wlverif::step();
+
     // assert!((session.start <= session.buffer && session.buffer <= session.end));
 
     // if session.buffer == session.end {
-- 
2.43.0


From 08ddebefe48e15f9079f562b4cde4a2217632fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:29 +0000
Subject: [PATCH 11/38] fix: only skip a #! first line, and skip all of it

With FirstLineBehavior::Check or Script, input starting with # but not #!
lost its #. A shebang line was tokenized as Wolfram Language, so a quote or
comment opener in it swallowed the following lines.
---
 .../wolfram-parser/src/tokenize/tokenizer.rs  | 118 +++++-------------
 1 file changed, 32 insertions(+), 86 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 4dc8919..45c1ead 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -173,107 +173,53 @@ impl<'i> Tokenizer<'i> {
             FirstLineBehavior::Check => {
                 //
                 // Handle the optional #! shebang
-                //
-
-                let mut peek = self.peek_token();
-
-                if peek.tok != TokenKind::Hash {
-                    // not #!
-
-                    return;
-                }
-
-                peek.skip(self);
-
-                peek = self.peek_token();
-
-                if peek.tok != TokenKind::Bang {
-                    // not #!
-
-                    return;
-                }
-
-                //
-                // Definitely a shebang
-                //
-
-                peek.skip(self);
-
-                loop {
-                    if feature::CHECK_ABORT && crate::abortQ() {
-                        break;
-                    }
-
-                    let peek = self.peek_token();
-
-                    if peek.tok == TokenKind::EndOfFile {
-                        break;
-                    }
-
-                    if peek.tok == TokenKind::ToplevelNewline {
-                        peek.skip(self);
-
-                        break;
-                    }
-
-                    peek.skip(self);
-                } // while (true)
-
                 //
                 // TODO: if anyone ever asks, then consider providing the shebang as a token
                 // but only after BIGCODEMERGE!!
                 //
+                self.skip_shebang();
             },
             FirstLineBehavior::Script => {
                 //
                 // Handle the #! shebang
                 //
+                // TODO: add to Issues if there is no shebang
+                //
+                self.skip_shebang();
+            },
+        }
+    }
 
-                let mut peek = self.peek_token();
-
-                if peek.tok != TokenKind::Hash {
-                    //
-                    // TODO: add to Issues
-                    //
-
-                    return;
-                }
-
-                peek.skip(self);
-
-                peek = self.peek_token();
-
-                if peek.tok != TokenKind::Bang {
-                    //
-                    // TODO: add to Issues
-                    //
-
-                    return;
-                }
-
-                peek.skip(self);
-
-                loop {
-                    if feature::CHECK_ABORT && crate::abortQ() {
-                        break;
-                    }
+    /// Skip the first line of the input if it starts with `#!`.
+    ///
+    /// The shebang line is not Wolfram Language, so it is skipped by character.
+    /// If there is no shebang, then nothing is skipped.
+    fn skip_shebang(&mut self) {
+        let mark = self.mark();
 
-                    let peek = self.peek_token();
+        if self.next_source_char(TOPLEVEL) != Char('#')
+            || self.next_source_char(TOPLEVEL) != Char('!')
+        {
+            // not #!
+            self.seek(mark);
 
-                    if peek.tok == TokenKind::EndOfFile {
-                        break;
-                    }
+            return;
+        }
 
-                    if peek.tok == TokenKind::ToplevelNewline {
-                        peek.skip(self);
+        //
+        // Definitely a shebang
+        //
 
-                        break;
-                    }
+        loop {
+            if feature::CHECK_ABORT && crate::abortQ() {
+                break;
+            }
 
-                    peek.skip(self);
-                } // while (true)
-            },
-        }
+            match self.next_source_char(TOPLEVEL) {
+                EndOfFile | Char('\n' | '\r') | CRLF => break,
+                _ => (),
+            }
+        } // while (true)
     }
 
     //==================================
-- 
2.43.0


From b5963773b9b1af15e3b8672697cfdfc7ad8346bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:45 +0000
Subject: [PATCH 12/38] fix: do not panic on the character escape of a
 surrogate

\:d800 and \|00d800 are handled like the escape of a code point that is out
of range.
---
 .../src/read/character_decoder.rs             | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/read/character_decoder.rs b/crates/wolfram-parser/src/read/character_decoder.rs
index 0752264..c35e21b 100644
--- a/crates/wolfram-parser/src/read/character_decoder.rs
+++ b/crates/wolfram-parser/src/read/character_decoder.rs
@@ -641,7 +641,17 @@ fn CharacterDecoder_handle4Hex(
     let d1 = u32::from(utils::toDigit(hexStartBuf[2]));
     let d0 = u32::from(utils::toDigit(hexStartBuf[3]));
     let point: u32 = d3 << 12 | d2 << 8 | d1 << 4 | d0;
-    let mut point = CodePoint::from_u32(point).unwrap();
+
+    let Some(mut point) = CodePoint::from_u32(point) else {
+        //
+        // Something like \:d800
+        //
+        // A surrogate is not a character
+        //
+        session.seek(colon);
+
+        return WLCharacter::new('\\');
+    };
 
     match point {
         CodePoint::Char(CODEPOINT_ACTUAL_DOUBLEQUOTE) => {
@@ -959,14 +969,12 @@ fn CharacterDecoder_handle6Hex(
         u32::from_be_bytes([0, d5 << 4 | d4, d3 << 4 | d2, d1 << 4 | d0]);
 
     // TODO: Is this logic here correct? Why always return a \ if point is out
-    //       of range?
-    if point > 0x10ffff {
+    //       of range, or is a surrogate?
+    let Some(mut point) = CodePoint::from_u32(point) else {
         session.seek(bar);
 
         return WLCharacter::new('\\');
-    }
-
-    let mut point = CodePoint::from_u32(point).unwrap();
+    };
 
     //
     // Success!
-- 
2.43.0


From ac4d2e79acd3b0aac89ee0f8c17283ebc0f04ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:58 +0000
Subject: [PATCH 13/38] fix: do not panic on an unterminated group in input
 that is not UTF-8

---
 crates/wolfram-parser/src/parse.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/parse.rs b/crates/wolfram-parser/src/parse.rs
index 3f93e84..b419d87 100644
--- a/crates/wolfram-parser/src/parse.rs
+++ b/crates/wolfram-parser/src/parse.rs
@@ -1478,12 +1478,13 @@ impl<'i, B: ParseBuilder<'i> + 'i> ParserSession<'i, B> {
 
         self.pop_group();
 
-        // The input MUST be valid UTF-8, because we only reduce an *unterminated*
-        // group node if we've read an EOF (which is how we know it must be
-        // unterminated: we've read all the input).
-        let input = std::str::from_utf8(self.input()).expect(
-            "cannot reparse unterminated group node: input is not valid UTF-8",
-        );
+        // As in ParseBuilder::finish(), unterminated input is only reparsed if
+        // it is valid UTF-8.
+        let Ok(input) = std::str::from_utf8(self.input()) else {
+            return self
+                .builder
+                .reduce_group_missing_closer(ctx_data, op, group_state);
+        };
 
         let tab_width = self.tokenizer.tab_width as usize;
 
-- 
2.43.0


From 7f2f1e963d9d85b67cd3033627b8d932d1fc6e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:23 +0000
Subject: [PATCH 14/38] fix: abstract tags and file names that are not valid
 UTF-8

---
 crates/wolfram-parser/src/abstract_cst.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 2fa773a..4cc82d4 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -374,7 +374,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     st::Slot,
                                     vec![Ast::string(
                                         escapeString_of_abstractSymbolString(
-                                            s.as_str(),
+                                            &s,
                                         ),
                                         data1,
                                     )],
@@ -391,7 +391,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     st::Slot,
                                     vec![Ast::string(
                                         escapeString_of_abstractSymbolString(
-                                            s.as_str(),
+                                            &s,
                                         ),
                                         data1,
                                     )],
@@ -495,7 +495,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                     }) => Ast::call(
                         st::Get,
                         vec![Ast::string(
-                            escapeString_of_abstractFileString(str.as_str()),
+                            escapeString_of_abstractFileString(&str),
                             data1,
                         )],
                         data,
@@ -628,7 +628,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             ref input,
                             src: data1,
                         }) => Ast::string(
-                            escapeString_of_abstractFileString(input.as_str()),
+                            escapeString_of_abstractFileString(input),
                             data1,
                         ),
                         // The file name is missing or is not a valid string.
@@ -1430,7 +1430,10 @@ pub(crate) fn expect_children<I: Debug, S: Debug, const N: usize>(
 
 
 /// Ported composition of `escapeString(abstractSymbolString(s))`.
-fn escapeString_of_abstractSymbolString(s: &str) -> String {
+fn escapeString_of_abstractSymbolString<I: TokenInput>(input: &I) -> String {
+    // A string token can contain bytes that are not valid UTF-8.
+    let s = String::from_utf8_lossy(input.as_bytes());
+
     // FIXME: This is made up. Consult original WL source and finish porting
     //        this function.
     if s.starts_with('"') {
@@ -1443,7 +1446,10 @@ fn escapeString_of_abstractSymbolString(s: &str) -> String {
 }
 
 /// Ported composition of `escapeString(abstractFileString(s))`.
-fn escapeString_of_abstractFileString(s: &str) -> String {
+fn escapeString_of_abstractFileString<I: TokenInput>(input: &I) -> String {
+    // A string token can contain bytes that are not valid UTF-8.
+    let s = String::from_utf8_lossy(input.as_bytes());
+
     // FIXME: This is made up. Consult original WL source and finish porting
     //        this function.
     if s.starts_with('"') {
@@ -2259,7 +2265,7 @@ fn abstractMessageName<I: TokenInput + Debug, S: TokenSource + Debug>(
             input: str,
             src: data,
         }) => Ast::string(
-            escapeString_of_abstractSymbolString(str.as_str()),
+            escapeString_of_abstractSymbolString(&str),
             data,
         ),
         // FIXME: The original WL here didn't call abstract[..] here. Is that
-- 
2.43.0


From a71412c2ebc0b83c7ea0b60f24abf6626757a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:57 +0000
Subject: [PATCH 15/38] fix: do not panic tokenizing a string that contains a
 byte order mark

---
 crates/wolfram-parser/src/lib.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/wolfram-parser/src/lib.rs b/crates/wolfram-parser/src/lib.rs
index ca4b252..9a8bbbb 100644
--- a/crates/wolfram-parser/src/lib.rs
+++ b/crates/wolfram-parser/src/lib.rs
@@ -408,8 +408,12 @@ pub fn tokenize<'i>(
     input: &'i str,
     opts: &ParseOptions,
 ) -> NodeSeq<Token<TokenStr<'i>>> {
-    tokenize_bytes(input.as_bytes(), opts)
-        .expect("unexpected character encoding error tokenizing &str")
+    // The only possible unsafe character encoding in a &str is a BOM, which is
+    // returned as an error token.
+    let (tokens, _unsafe_character_encoding) =
+        do_tokenize(input.as_bytes(), opts);
+
+    tokens
 }
 
 /// Parse bytes containing Wolfram Language input into a sequence of tokens.
@@ -417,6 +421,19 @@ pub fn tokenize_bytes<'i>(
     input: &'i [u8],
     opts: &ParseOptions,
 ) -> Result<NodeSeq<Token<TokenStr<'i>>>, UnsafeCharacterEncoding> {
+    match do_tokenize(input, opts) {
+        (tokens, None) => Ok(tokens),
+        (_, Some(flag)) => Err(flag),
+    }
+}
+
+fn do_tokenize<'i>(
+    input: &'i [u8],
+    opts: &ParseOptions,
+) -> (
+    NodeSeq<Token<TokenStr<'i>>>,
+    Option<UnsafeCharacterEncoding>,
+) {
     let mut tokenizer = Tokenizer::new(input, opts);
 
     let mut tokens = Vec::new();
@@ -437,10 +454,6 @@ pub fn tokenize_bytes<'i>(
         tok.skip(&mut tokenizer);
     } // while (true)
 
-    if let Some(flag) = tokenizer.unsafe_character_encoding_flag {
-        return Err(flag);
-    }
-
     if let Ok(input) = std::str::from_utf8(tokenizer.input) {
         NodeSeq(tokens) = crate::error::reparse_unterminated_tokens(
             NodeSeq(tokens),
@@ -449,7 +462,7 @@ pub fn tokenize_bytes<'i>(
         );
     }
 
-    return Ok(NodeSeq(tokens));
+    (NodeSeq(tokens), tokenizer.unsafe_character_encoding_flag)
 }
 
 //======================================
-- 
2.43.0


From db325e401ebeb1104b4fd156ebf2b674071ef933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:55 +0000
Subject: [PATCH 16/38] fix: never extend an unterminated token over the text
 that follows it

---
 crates/wolfram-parser/src/error.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index 5eb6fba..3725b7a 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -143,6 +143,15 @@ fn reparse_unterminated_token_error_node<'i>(
     let (first_chunk, last_good_line_index, better_src) =
         first_chunk_and_last_good_line(str, tab_width, src.clone());
 
+    // The token may end before the end of its last line:
+    //
+    //   << a[ b
+    //
+    // Never extend the token over the text that follows it.
+    if better_src.end() >= src.end() {
+        return;
+    }
+
     // Use original src Start, but readjust src End to be the EndOfLine of the
     // last good line of the chunk
     let better_str = match better_src.kind() {
-- 
2.43.0


From 6c2ce80c96758a467a4cf4e4349c8efe4e44812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:18 +0000
Subject: [PATCH 17/38] fix: read the base of a number by characters, not bytes

A line continuation or character escape before or inside of the base made
16^^ff an error and split it.
---
 .../wolfram-parser/src/tokenize/tokenizer.rs  | 91 ++++++++++---------
 1 file changed, 48 insertions(+), 43 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 45c1ead..456ded4 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -1897,10 +1897,11 @@ fn Tokenizer_handleNumber<'i>(
         //
 
         //
-        // 002^^111
-        //   ^nonZeroStartBuf
+        // The number the leading digits stand for, computed from characters
+        // and not from bytes: there may be line continuations and character
+        // escapes between and inside of the digits.
         //
-        let mut nonZeroStartBuf = token_start.buf;
+        let mut leadingDigitsValue: i32 = 0;
 
         if c.to_point() == '0' {
             let mut leadingZeroCount: u32 = 0;
@@ -1908,8 +1909,8 @@ fn Tokenizer_handleNumber<'i>(
                 Tokenizer_handleZeros(session, token_start, policy, c);
 
             leadingDigitsCount += leadingZeroCount;
-
-            nonZeroStartBuf = session.buffer();
+        } else {
+            leadingDigitsValue = digitValue(c);
         }
 
         //
@@ -1920,8 +1921,13 @@ fn Tokenizer_handleNumber<'i>(
 
         if c.isDigit() {
             let mut count: u32 = 0;
-            (count, c) =
-                Tokenizer_handleDigits(session, token_start, policy, c);
+            (count, c) = Tokenizer_handleDigits(
+                session,
+                token_start,
+                policy,
+                c,
+                &mut leadingDigitsValue,
+            );
 
             leadingDigitsCount += count;
 
@@ -2039,40 +2045,15 @@ fn Tokenizer_handleNumber<'i>(
 
             Tokenizer_nextWLCharacter(session, token_start, policy);
 
-            if nonZeroStartBuf == caret1Buf.unwrap() {
-                //
-                // Something like  0^^2
-                //
+            //
+            // bases can only be between 2 and 36, so we know they can only be 1 or 2 characters
+            //
+            if leadingDigitsValue < 100 {
+                Ctxt.Base = leadingDigitsValue;
+            }
 
+            if !(2 <= Ctxt.Base && Ctxt.Base <= 36) {
                 Ctxt.InvalidBase = true;
-            } else {
-                // PRE_COMMIT: Compute string length differently
-                let baseStrLen = BufferAndLength::between(
-                    nonZeroStartBuf,
-                    caret1Buf.unwrap(),
-                )
-                .buf
-                .len();
-
-                //
-                // bases can only be between 2 and 36, so we know they can only be 1 or 2 characters
-                //
-                if baseStrLen > 2 {
-                    Ctxt.InvalidBase = true;
-                } else if baseStrLen == 2 {
-                    let d1 = i32::from(utils::toDigit(nonZeroStartBuf[0]));
-                    let d0 = i32::from(utils::toDigit(nonZeroStartBuf[1]));
-                    Ctxt.Base = d1 * 10 + d0;
-                } else {
-                    assert!(baseStrLen == 1);
-
-                    let d0 = i32::from(utils::toDigit(nonZeroStartBuf[0]));
-                    Ctxt.Base = d0;
-                }
-
-                if !(2 <= Ctxt.Base && Ctxt.Base <= 36) {
-                    Ctxt.InvalidBase = true;
-                }
             }
 
             c = Tokenizer_currentWLCharacter(session, token_start, policy);
@@ -2471,8 +2452,13 @@ fn Tokenizer_handleNumber<'i>(
             Char('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') => {
                 let mut count: u32 = 0;
 
-                (count, c) =
-                    Tokenizer_handleDigits(session, token_start, policy, c);
+                (count, c) = Tokenizer_handleDigits(
+                    session,
+                    token_start,
+                    policy,
+                    c,
+                    &mut 0,
+                );
 
                 if count > 0 {
                     precOrAccSupplied = true;
@@ -2788,8 +2774,13 @@ fn Tokenizer_handleNumber<'i>(
     }
 
     if c.isDigit() {
-        (Ctxt.NonZeroExponentDigitCount, c) =
-            Tokenizer_handleDigits(session, token_start, policy, c);
+        (Ctxt.NonZeroExponentDigitCount, c) = Tokenizer_handleDigits(
+            session,
+            token_start,
+            policy,
+            c,
+            &mut 0,
+        );
     }
 
     if c.to_point() != '.' {
@@ -3074,10 +3065,21 @@ fn Tokenizer_handleZeros<'i>(
     return (count, c);
 }
 
+fn digitValue(c: WLCharacter) -> i32 {
+    assert!(c.isDigit());
+
+    match u8::try_from(c.to_point().as_i32()) {
+        Ok(byte) => i32::from(utils::toDigit(byte)),
+        Err(_) => panic!("not a digit: {c:?}"),
+    }
+}
+
 //
 // Precondition: currentWLCharacter is a digit
 // Postcondition: buffer is pointing to first NON-DIGIT character after all digits
 //
+// The digits that are read are appended to value.
+//
 // return: the first NON-DIGIT character after all digits
 //
 fn Tokenizer_handleDigits<'i>(
@@ -3085,6 +3087,7 @@ fn Tokenizer_handleDigits<'i>(
     token_start: &TokenStart<'i>,
     policy: NextPolicy,
     mut c: WLCharacter,
+    value: &mut i32,
 ) -> (u32, WLCharacter) {
     assert!(c.isDigit());
 
@@ -3097,6 +3100,8 @@ fn Tokenizer_handleDigits<'i>(
             break;
         }
 
+        *value = value.saturating_mul(10).saturating_add(digitValue(c));
+
         Tokenizer_nextWLCharacter(session, token_start, policy);
 
         c = Tokenizer_currentWLCharacter(session, token_start, policy);
-- 
2.43.0


From 48a8db7a742599269857753b98c463dc3bb83c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:58 +0000
Subject: [PATCH 18/38] fix: keep Comma @ a as an element of a comma list

---
 crates/wolfram-parser/src/abstract_cst.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 4cc82d4..4cafbfc 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -819,11 +819,14 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
 
                     let children = children
                         .into_iter()
-                        .map(|child| {
-                            processInfixBinaryAtQuirk(
+                        .map(|child| match op {
+                            // A comma is not an operator with a symbol of its
+                            // own, so `{Comma @ a, b}` is not affected.
+                            InfixOperator::CodeParser_Comma => child,
+                            _ => processInfixBinaryAtQuirk(
                                 child,
                                 op.to_symbol().symbol_name().as_str(),
-                            )
+                            ),
                         })
                         .map(abstract_)
                         .collect();
-- 
2.43.0


From 65bda0709bec6ee8f28a4a121e06fff8bd677934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:11 +0000
Subject: [PATCH 19/38] fix: only a comma list is spliced into its brackets

---
 crates/wolfram-parser/src/abstract_cst.rs | 53 ++++++++++-------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 4cafbfc..5fbf81b 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -2770,8 +2770,7 @@ fn abstractGroupNode<
     // abstractedChildren = Flatten[selectChildren /@ (abstract /@ children)];
     let abstracted_children = children
         .into_iter()
-        .map(abstract_)
-        .flat_map(|child: Ast| selectChildren(child))
+        .flat_map(abstractAndSelectChildren)
         .collect();
 
     /*  FIXME: Port this issues handling code
@@ -2813,8 +2812,7 @@ fn abstractGroupNode_GroupMissingCloserNode<
 
     let abstractedChildren = children
         .into_iter()
-        .map(abstract_)
-        .flat_map(selectChildren)
+        .flat_map(abstractAndSelectChildren)
         .collect();
 
     (op, abstractedChildren, AstMetadata::from_src(data))
@@ -2838,8 +2836,7 @@ fn abstractGroupNode_GroupMissingOpenerNode<
 
     let abstracted_children = children
         .into_iter()
-        .map(abstract_)
-        .flat_map(selectChildren)
+        .flat_map(abstractAndSelectChildren)
         .collect();
 
     Ast::GroupMissingOpener {
@@ -2850,36 +2847,32 @@ fn abstractGroupNode_GroupMissingOpenerNode<
 }
 
 
-fn selectChildren(node: Ast) -> Vec<Ast> {
+fn abstractAndSelectChildren<
+    I: TokenInput + Debug,
+    S: TokenSource + Debug,
+>(
+    node: Cst<I, S>,
+) -> Vec<Ast> {
     // selectChildren[CallNode[ToNode[Comma], children_, _]] := children
     //
     // selectChildren[n_] := n
-    match node {
+    //
+    // Decide on the concrete syntax: a call written `CodeParser`Comma[a, b]` is
+    // not a comma list.
+    let is_comma = matches!(
+        node,
+        Cst::Infix(InfixNode(OperatorNode {
+            op: InfixOperator::CodeParser_Comma,
+            ..
+        }))
+    );
+
+    match abstract_(node) {
         // TODO(cleanup): Refactor how Comma nodes are abstracted so that
         //                fake Ast::Call of CodeParser`Comma heads is not
         //                necessary.
-        Ast::Call {
-            ref head,
-            ref args,
-            data: _,
-        } => {
-            if let Ast::Leaf {
-                kind: TK::Symbol,
-                input,
-                data: _,
-            } = &**head
-            {
-                if input.as_str() == "CodeParser`Comma" {
-                    // TODO(optimization): Refactor to remove this clone()
-                    args.clone()
-                } else {
-                    vec![node]
-                }
-            } else {
-                vec![node]
-            }
-        },
-        _ => vec![node],
+        Ast::Call { args, .. } if is_comma => args,
+        node => vec![node],
     }
 }
 
-- 
2.43.0


From f9aeea6e7a5fde04aafde81a3a28d698df201557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:18 +0000
Subject: [PATCH 20/38] fix: abstract \[Pi] and its like however the character
 is written

---
 crates/wolfram-parser/src/abstract_cst.rs | 48 ++++++++++++++---------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 5fbf81b..6f43518 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -13,6 +13,7 @@ use crate::{
         TernaryNode,
     },
     issue::{Issue, IssueTag, Severity},
+    iter::wolfram_chars,
     macros::leaf,
     parse::{
         operators::{
@@ -31,7 +32,7 @@ use crate::{
         TokenSource, TokenString,
     },
     utils::{append, join},
-    NodeSeq, QuirkSettings,
+    NodeSeq, ParseOptions, QuirkSettings,
 };
 
 //==========================================================
@@ -1356,38 +1357,27 @@ fn abstract_replace_token<I: TokenInput, S: TokenSource>(
         },
 
         TokenKind::Symbol => {
-            match input.as_str() {
+            match single_character(input.as_str()) {
                 // "\[Pi]"
-                "\u{03c0}" | "\\[Pi]" | "\\:03c0" | "\\|0003c0" => {
-                    Ast::symbol_with_data(st::Pi, data)
-                },
+                Some('\u{03c0}') => Ast::symbol_with_data(st::Pi, data),
 
                 // "\[Degree]"
-                "\u{00b0}" | "\\[Degree]" | "\\:00b0" | "\\.b0" | "\\260"
-                | "\\|0000b0" => Ast::symbol_with_data(st::Degree, data),
+                Some('\u{00b0}') => Ast::symbol_with_data(st::Degree, data),
 
                 // "\[Infinity]"
-                "\u{221e}" | "\\[Infinity]" | "\\:221e" | "\\|00221e" => {
-                    Ast::symbol_with_data(st::Infinity, data)
-                },
+                Some('\u{221e}') => Ast::symbol_with_data(st::Infinity, data),
 
                 // "\[ExponentialE]"
-                "\u{f74d}" | "\\[ExponentialE]" | "\\:f74d" | "\\|00f74d" => {
-                    Ast::symbol_with_data(st::E, data)
-                },
+                Some('\u{f74d}') => Ast::symbol_with_data(st::E, data),
 
                 // "\[ImaginaryI]"
-                "\u{f74e}" | "\\[ImaginaryI]" | "\\:f74e" | "\\|00f74e" => {
-                    Ast::symbol_with_data(st::I, data)
-                },
+                Some('\u{f74e}') => Ast::symbol_with_data(st::I, data),
 
                 // NOTE: It is NOT a bug that \[ImaginaryJ] turns into the same
                 //       thing as \[ImaginaryI]. (Or, at the very least, its a
                 //       bug so old its not going to change now.)
                 // "\[ImaginaryJ]"
-                "\u{f74f}" | "\\[ImaginaryJ]" | "\\:f74f" | "\\|00f74f" => {
-                    Ast::symbol_with_data(st::I, data)
-                },
+                Some('\u{f74f}') => Ast::symbol_with_data(st::I, data),
 
                 _ => Ast::Leaf {
                     kind,
@@ -1415,6 +1405,26 @@ fn abstract_replace_token<I: TokenInput, S: TokenSource>(
 // Helper Functions
 //======================================
 
+/// The character that makes up all of a symbol, however it is written (e.g.
+/// `π`, `\[Pi]`, `\:03c0`, `\:03C0`, or any of these after a line continuation).
+fn single_character(symbol: &str) -> Option<char> {
+    if symbol.is_ascii() && !symbol.starts_with('\\') {
+        return None;
+    }
+
+    let options = ParseOptions::default();
+
+    let mut chars = wolfram_chars(symbol, &options)
+        .filter(|char| !char.to_point().is_line_continuation())
+        // The whitespace after a line continuation is part of the token
+        .filter(|char| !char.isWhitespace());
+
+    match (chars.next(), chars.next()) {
+        (Some(char), None) => char.to_point().as_char(),
+        _ => None,
+    }
+}
+
 pub(crate) fn expect_children<I: Debug, S: Debug, const N: usize>(
     children: AggNodeSeq<I, S>,
 ) -> [Cst<I, S>; N] {
-- 
2.43.0


From 1987a5bb09d4e6bf9b2150751abb1fee403061a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:27 +0000
Subject: [PATCH 21/38] fix: recognise 0 and quirk heads however their
 characters are written

---
 crates/wolfram-parser/src/abstract_cst.rs | 39 +++++++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 6f43518..95e1ddd 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -24,6 +24,7 @@ use crate::{
         SyntaxErrorKind,
     },
     quirks::{self, Quirk},
+    read::WLCharacter,
     symbol::Symbol,
     symbols as st,
     tokenize::{
@@ -1405,6 +1406,33 @@ fn abstract_replace_token<I: TokenInput, S: TokenSource>(
 // Helper Functions
 //======================================
 
+/// Is this the text of the symbol or number `name`, however its characters are
+/// written?
+fn is_spelling_of(text: &str, name: &str) -> bool {
+    if text == name {
+        return true;
+    }
+
+    if !text.contains('\\') {
+        return false;
+    }
+
+    token_characters(text, &ParseOptions::default())
+        .map(|char| char.to_point().as_char())
+        .eq(name.chars().map(Some))
+}
+
+/// The characters of a symbol or number, without line continuations.
+fn token_characters<'t>(
+    text: &'t str,
+    options: &ParseOptions,
+) -> impl Iterator<Item = WLCharacter> + 't {
+    wolfram_chars(text, options)
+        .filter(|char| !char.to_point().is_line_continuation())
+        // The whitespace after a line continuation is part of the token
+        .filter(|char| !char.isWhitespace())
+}
+
 /// The character that makes up all of a symbol, however it is written (e.g.
 /// `π`, `\[Pi]`, `\:03c0`, `\:03C0`, or any of these after a line continuation).
 fn single_character(symbol: &str) -> Option<char> {
@@ -1414,10 +1442,7 @@ fn single_character(symbol: &str) -> Option<char> {
 
     let options = ParseOptions::default();
 
-    let mut chars = wolfram_chars(symbol, &options)
-        .filter(|char| !char.to_point().is_line_continuation())
-        // The whitespace after a line continuation is part of the token
-        .filter(|char| !char.isWhitespace());
+    let mut chars = token_characters(symbol, &options);
 
     match (chars.next(), chars.next()) {
         (Some(char), None) => char.to_point().as_char(),
@@ -1646,7 +1671,7 @@ fn possiblyNegatedZeroQ<I: TokenInput + Debug, S: Debug>(
             tok: TokenKind::Integer,
             input,
             src: _,
-        }) if input.as_str() == "0" => true,
+        }) if is_spelling_of(input.as_str(), "0") => true,
         // possiblyNegatedZeroQ[GroupNode[GroupParen, { _, child_, _ }, _]] :=
         //     possiblyNegatedZeroQ[child]
         Cst::Group(GroupNode(OperatorNode {
@@ -1761,7 +1786,7 @@ fn negate<I: TokenInput + Debug, S: TokenSource + Debug>(
     {
         let str = input.as_str();
 
-        if str == "0" {
+        if is_spelling_of(str, "0") {
             return Negated::Integer0;
         } else {
             return Negated::IntegerNegated(input);
@@ -2190,7 +2215,7 @@ pub(crate) fn processInfixBinaryAtQuirk<
             tok: TK::Symbol,
             input,
             ..
-        }) if input.as_str() == symName
+        }) if is_spelling_of(input.as_str(), symName)
     ) {
         return node;
     }
-- 
2.43.0


From adf10c99e673652098660ca55f84ab32861673dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:40 +0000
Subject: [PATCH 22/38] fix: negating a zero in parentheses dropped errors next
 to it

---
 crates/wolfram-parser/src/abstract_cst.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 95e1ddd..eceef55 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1812,8 +1812,10 @@ fn negate<I: TokenInput + Debug, S: TokenSource + Debug>(
         children: NodeSeq(mut children),
     })) = node.clone()
     {
+        // A group like  (0 })  holds more than its zero.
+        //
         // TODO(optimization): Avoid this clone().
-        if possiblyNegatedZeroQ(children[1].clone()) {
+        if children.len() == 3 && possiblyNegatedZeroQ(children[1].clone()) {
             return negate(children.remove(1));
         }
     }
-- 
2.43.0


From 45593d359a4259199ab680aba855b950222dcf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:05 +0000
Subject: [PATCH 23/38] fix: a repeated infix operator does not continue an
 expression past a newline

a + b, newline, + c at top level is two expressions, as a, newline, + c is:
the loops that collect the operands of one infix operator skipped the
newline that ends the expression.
---
 crates/wolfram-parser/src/parse/parselet.rs   | 12 ++++++----
 .../src/parse/parselet/times_parselet.rs      | 23 +++++--------------
 2 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/crates/wolfram-parser/src/parse/parselet.rs b/crates/wolfram-parser/src/parse/parselet.rs
index bbf4ac6..d041fcc 100644
--- a/crates/wolfram-parser/src/parse/parselet.rs
+++ b/crates/wolfram-parser/src/parse/parselet.rs
@@ -998,7 +998,8 @@ impl InfixOperatorParselet {
             panic_if_aborted!();
 
 
-            let (trivia1, tok1) = session.current_token();
+            let (trivia1, tok1) = session
+                .current_token_eat_trivia_but_not_toplevel_newlines_into();
 
             //
             // Cannot just compare tokens
@@ -1859,7 +1860,8 @@ impl CommaParselet {
             panic_if_aborted!();
 
 
-            let (trivia1, tok1) = session.current_token();
+            let (trivia1, tok1) = session
+                .current_token_eat_trivia_but_not_toplevel_newlines_into();
 
             if !matches!(
                 tok1.tok,
@@ -2039,7 +2041,8 @@ impl SemiParselet {
             panic_if_aborted!();
 
 
-            let (trivia1, tok1) = session.current_token();
+            let (trivia1, tok1) = session
+                .current_token_eat_trivia_but_not_toplevel_newlines_into();
 
             if tok1.tok != TokenKind::Semi {
                 //
@@ -2214,7 +2217,8 @@ impl ColonColonParselet {
         loop {
             panic_if_aborted!();
 
-            let (trivia1, tok1) = session.current_token();
+            let (trivia1, tok1) = session
+                .current_token_eat_trivia_but_not_toplevel_newlines_into();
 
             if tok1.tok != TokenKind::ColonColon {
                 session.trivia_reset(trivia1);
diff --git a/crates/wolfram-parser/src/parse/parselet/times_parselet.rs b/crates/wolfram-parser/src/parse/parselet/times_parselet.rs
index 70ce624..87b6588 100644
--- a/crates/wolfram-parser/src/parse/parselet/times_parselet.rs
+++ b/crates/wolfram-parser/src/parse/parselet/times_parselet.rs
@@ -2,7 +2,7 @@ use crate::{
     panic_if_aborted,
     parse::{parselet::*, ParserSession},
     precedence::Precedence,
-    tokenize::{TokenKind, TokenRef},
+    tokenize::TokenRef,
 };
 
 
@@ -58,25 +58,14 @@ impl TimesParselet {
             panic_if_aborted!();
 
 
-            let (mut trivia1, mut tok1) = session.current_token();
+            //
+            // Times should not cross toplevel newlines
+            //
+            let (trivia1, mut tok1) = session
+                .current_token_eat_trivia_but_not_toplevel_newlines_into();
 
             tok1 = session.do_process_implicit_times(tok1);
 
-            if tok1.tok == TokenKind::Fake_ImplicitTimes {
-                //
-                // implicit Times should not cross toplevel newlines
-                //
-                // so reset and try again
-                //
-
-                session.trivia_reset(trivia1);
-
-                (trivia1, tok1) = session
-                    .current_token_eat_trivia_but_not_toplevel_newlines_into();
-
-                tok1 = session.do_process_implicit_times(tok1)
-            }
-
             //
             // Cannot just compare tokens
             //
-- 
2.43.0


From a2de2596b8d74d045046489488419843b4998b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:04 +0000
Subject: [PATCH 24/38] fix: put ConfidenceLevel of node metadata as a rule

---
 crates/codeparser-wll/src/convert_wstp.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/codeparser-wll/src/convert_wstp.rs b/crates/codeparser-wll/src/convert_wstp.rs
index ab84420..abcafad 100644
--- a/crates/codeparser-wll/src/convert_wstp.rs
+++ b/crates/codeparser-wll/src/convert_wstp.rs
@@ -195,6 +195,8 @@ impl WstpPut for Metadata {
         }
 
         if let Some(level) = confidence_level {
+            link.put_function("System`Rule", 2).unwrap();
+            Symbol_put(sym::ConfidenceLevel, link);
             link.put_expr(&Expr::number(level.clone())).unwrap();
         }
 
-- 
2.43.0


From f76e37a703ac7c7444c87d32929d4b59d14d3244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:32 +0000
Subject: [PATCH 25/38] fix: compute box positions between any two boxes

---
 crates/wolfram-parser/src/source.rs | 185 +++++++++-------------------
 1 file changed, 58 insertions(+), 127 deletions(-)

diff --git a/crates/wolfram-parser/src/source.rs b/crates/wolfram-parser/src/source.rs
index be4c7ad..5b306b7 100644
--- a/crates/wolfram-parser/src/source.rs
+++ b/crates/wolfram-parser/src/source.rs
@@ -949,152 +949,83 @@ impl BoxPosition {
         start: &BoxPosition,
         end: &BoxPosition,
     ) -> Option<BoxPosition> {
-        #[derive(Copy, Clone, Debug)]
-        enum Pos {
-            Index(usize),
-            /// `a ;; b`
-            Span((usize, usize)),
-        }
-
-        let todo = || -> ! {
-            todo!("FIXME: Invalid or unhandled box position range: BoxPosition::between({start}, {end})")
-        };
-
         if start == end {
             // TID:231111/1: CompoundNode computed box source
             return Some(start.clone());
         }
 
-        //------------------------------
-        // Normalize lengths
-        //------------------------------
+        // The box that the region starts with and the box it ends with.
+        let (first, last) = (start.first_box(), end.last_box());
 
-        let (start, end) = match (start, end) {
-            // TID:231110/1 - BoxPosition::between for start/end tokens at different depths
-            //     Test case: BoxPosition::between(&src!({1, 1}), &src!({1, 2, 1, 2}))
-            (BoxPosition::At(start), BoxPosition::At(end))
-                if end.len() == start.len() + 2 =>
-            {
-                let normalized_end = &end[..end.len() - 2];
-
-                debug_assert_eq!(start.len(), normalized_end.len());
-
-                let start_most = most_slice(start);
-                let end_most = most_slice(normalized_end);
-
-                if start_most.is_some() && start_most == end_most {
-                    // If the original start and end were {1, 1} and {1, 2, 1, 2},
-                    // the new start and end are {1, 1} and {1, 2} -- we've
-                    // normalized the end location to make them the same
-                    // length.
-                    //
-                    // The correctness of this assumes that the position
-                    // represented by the dropped indexs in `end` were the last
-                    // expressions at their respective depth -- which should
-                    // always be the case when these positions are the start/end
-                    // source location of a well-formed Cst node.
-                    (
-                        BoxPosition::At(start.to_vec()),
-                        BoxPosition::At(normalized_end.to_vec()),
-                    )
-                } else {
-                    (
-                        BoxPosition::At(start.to_vec()),
-                        BoxPosition::At(end.to_vec()),
-                    )
-                }
-            },
-            (start, end) => (start.clone(), end.clone()),
+        let (Some(first_most), Some(last_most)) =
+            (most_slice(&first), most_slice(&last))
+        else {
+            return if first == last {
+                Some(BoxPosition::At(vec![]))
+            } else {
+                None
+            };
         };
 
         //------------------------------
-        // Compare and extract common prefix
+        // Extract common prefix
         //------------------------------
 
-        let (common, (start_pos, end_pos)) = match (start, end) {
-            (
-                BoxPosition::At(start) | BoxPosition::Before(start),
-                BoxPosition::At(end) | BoxPosition::After(end),
-            ) => match (start.split_last(), end.split_last()) {
-                (
-                    Some((start_last, start_most)),
-                    Some((end_last, end_most)),
-                ) => 'ret: {
-                    if start_most == end_most {
-                        break 'ret (
-                            start_most.to_vec(),
-                            (Pos::Index(*start_last), Pos::Index(*end_last)),
-                        );
-                    }
-
-                    todo();
-                },
-
-                (None, None) => return Some(BoxPosition::At(vec![])),
-
-                (None, Some(_)) | (Some(_), None) => return None,
-            },
-
-            // Occurs when the start position is the head of a CallNode and the
-            // end Spanning position is the source of the CallBody::Group.
-            //
-            // Test case: start = {1, 1, 1}, end = {1, 1, 2 ;; 4}
-            //
-            // TID:231031/1: Synthetic box source for process plus pair
-            // TID:231110/2: Plus pair synthetic "between" BoxPosition
-            //
-            (
-                BoxPosition::At(start),
-                BoxPosition::Spanning {
-                    index: end,
-                    span: end_span,
-                },
-            ) => {
-                let Some((start_last, start_most)) = start.split_last() else {
-                    // TODO: Test
-                    return None;
-                };
-
-                if start_most != end {
-                    return None;
-                }
-
-                (
-                    start_most.to_vec(),
-                    (Pos::Index(*start_last), Pos::Span(end_span)),
-                )
-            },
-
-            (_, _) => {
-                todo();
-            },
-        };
+        // If the start and end are at different depths, e.g. {1, 1} and
+        // {1, 2, 1, 2}, then the region is made of whole boxes of the innermost
+        // row that contains them both: {1, 1} through {1, 2}.
+        //
+        // The correctness of this assumes that the position represented by
+        // the dropped indexs were the first or last expressions at their
+        // respective depth -- which should always be the case when these
+        // positions are the start/end source location of a well-formed Cst
+        // node.
+        //
+        // TID:231110/1 - BoxPosition::between for start/end tokens at different depths
+        //     Test case: BoxPosition::between(&src!({1, 1}), &src!({1, 2, 1, 2}))
+        let common_len = first_most
+            .iter()
+            .zip(last_most)
+            .take_while(|(a, b)| a == b)
+            .count();
 
-        //------------------------------
-        // Compare last elements in each box position
-        //------------------------------
+        let common = &first[..common_len];
 
-        let combined = match (start_pos, end_pos) {
+        let combined = match (first[common_len], last[common_len]) {
             // TID:231108/1: Computed box source position for PostfixNode with GroupNode
-            (Pos::Index(1), Pos::Index(_) | Pos::Span((2, _))) => {
-                match most_slice(&common) {
-                    Some(parent_box_pos) => {
-                        BoxPosition::At(parent_box_pos.to_vec())
-                    },
-                    None => todo(),
-                }
+            (1, _) => BoxPosition::At(most_slice(common)?.to_vec()),
+            (start_pos, end_pos) => BoxPosition::Spanning {
+                index: common.to_vec(),
+                span: (start_pos, end_pos),
             },
-
-            (Pos::Index(2), Pos::Index(end_pos)) => BoxPosition::Spanning {
-                index: common,
-                span: (2, end_pos),
-            },
-
-            (_, _) => todo(),
         };
 
         Some(combined)
     }
+
+    /// The position of the first box covered by this position.
+    fn first_box(&self) -> Vec<usize> {
+        match self {
+            BoxPosition::At(index)
+            | BoxPosition::Before(index)
+            | BoxPosition::After(index) => index.clone(),
+            BoxPosition::Spanning {
+                index,
+                span: (first, _),
+            } => [index.as_slice(), &[*first]].concat(),
+        }
+    }
+
+    /// The position of the last box covered by this position.
+    fn last_box(&self) -> Vec<usize> {
+        match self {
+            BoxPosition::Spanning {
+                index,
+                span: (_, last),
+            } => [index.as_slice(), &[*last]].concat(),
+            _ => self.first_box(),
+        }
+    }
 }
 
 //======================================
-- 
2.43.0


From ae9213113d203316af7110a96a1a6c7889c172c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:26 +0000
Subject: [PATCH 26/38] fix: spans overlap a span that contains them

LineColumnSpan::overlaps() was false when the other span starts before and
ends after this one, though Span::overlaps() is true for the same spans given
as character indices.
---
 crates/wolfram-parser/src/source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/source.rs b/crates/wolfram-parser/src/source.rs
index 5b306b7..317a8ba 100644
--- a/crates/wolfram-parser/src/source.rs
+++ b/crates/wolfram-parser/src/source.rs
@@ -899,7 +899,7 @@ impl LineColumnSpan {
     pub fn overlaps(&self, cursor: LineColumnSpan) -> bool {
         let LineColumnSpan { start, end } = cursor;
 
-        self.contains(start) || self.contains(end)
+        self.contains(start) || self.contains(end) || cursor.contains(self.start)
     }
 
     #[cfg_attr(not(debug_assertions), allow(dead_code))]
-- 
2.43.0


From 155723bc33c1cbb6f6728c873ddfeb8feb252cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:37 +0000
Subject: [PATCH 27/38] fix: file names without quotes may contain $

It was only accepted as the first character of the name, so  << a$b  was read
as the file a, times $b.
---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 456ded4..b219953 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -1715,7 +1715,7 @@ fn Tokenizer_handleString_stringifyAsFile<'i>(
             #[rustfmt::skip]
             Char(
                 'A'..='Z' | 'a'..='z' | '0'..='9'
-                | '`' | '/' | '.' | '\\' | '!'
+                | '$' | '`' | '/' | '.' | '\\' | '!'
                 | '-' | '_' | ':' | '*' | '~' | '?',
             ) => {
                 session.next_source_char(policy);
-- 
2.43.0


From e82f3d6c2906d6767bbc1465353681b75f0b48ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:50 +0000
Subject: [PATCH 28/38] fix: an unterminated group took the first token of the
 next statement

Under SourceConvention::CharacterIndex the kept part of the group includes the
newline at its end, and the leaf that starts right after it counted as
overlapping:  {a \n f[x_] := 1  kept {a and f.
---
 crates/wolfram-parser/src/error.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index 3725b7a..4bcb7d1 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -93,7 +93,17 @@ pub(crate) fn reparse_unterminated_group_node<'i>(
             input: _,
             src: node_src,
         }) => {
-            if better_src.overlaps(*node_src) {
+            // A character span includes the newline at the end of the last good
+            // line, so a leaf that starts at its end is on the next line.
+            let is_on_next_line = match better_src.kind() {
+                SpanKind::LineColumnSpan(_) => false,
+                SpanKind::CharacterSpan(_) => {
+                    better_src.end() < src.end()
+                        && node_src.start() >= better_src.end()
+                },
+            };
+
+            if better_src.overlaps(*node_src) && !is_on_next_line {
                 better_leaves.push(node.clone());
             }
         },
-- 
2.43.0


From af606f069bf42a995f939f015e62e691d470981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:47 +0000
Subject: [PATCH 29/38] fix: "Insert *" for 1.2.3 points at the second dot

---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index b219953..85e0c19 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -2977,12 +2977,17 @@ fn Tokenizer_handlePossibleFractionalPartPastDot<'i>(
                 //
                 // Something like  1.2.3
                 //
+                // The implicit Times is between  1.2  and  .3 , i.e., at the
+                // current (second) dot.
+                //
+
+                let second_dot_loc = session.SrcLoc;
 
                 let mut Actions = Vec::new();
 
                 Actions.push(CodeAction::insert_text(
                     "Insert ``*``".into(),
-                    Span::at(dot_mark.src_loc),
+                    Span::at(second_dot_loc),
                     "*".into(),
                 ));
 
@@ -2990,7 +2995,7 @@ fn Tokenizer_handlePossibleFractionalPartPastDot<'i>(
                     IssueTag::UnexpectedImplicitTimes,
                     format!("Suspicious syntax."),
                     Severity::Error,
-                    Span::at(dot_mark.src_loc),
+                    Span::at(second_dot_loc),
                     0.99,
                     Actions,
                     vec![],
-- 
2.43.0


From 61f3b87344d9df9976fe88cbcfaf400681383a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:07 +0000
Subject: [PATCH 30/38] fix: print \[RawDoubleQuote] and \[RawBackslash]
 instead of panicking

Both are represented by special code points, which the Display
implementation of WLCharacter passed on to the encoder as they are.
---
 crates/wolfram-parser/src/read/wl_character.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/wolfram-parser/src/read/wl_character.rs b/crates/wolfram-parser/src/read/wl_character.rs
index 980ae89..592b65f 100644
--- a/crates/wolfram-parser/src/read/wl_character.rs
+++ b/crates/wolfram-parser/src/read/wl_character.rs
@@ -179,6 +179,22 @@ impl Display for WLCharacter {
 
         match self.escape() {
             Escape::None | Escape::Raw => {
+                //
+                // \[RawDoubleQuote] and \[RawBackslash] are represented by
+                // special code points that have no encoding of their own
+                //
+                if !graphical_flag {
+                    i = match i {
+                        CodePoint::StringMeta_DoubleQuote => {
+                            Char(CODEPOINT_ACTUAL_DOUBLEQUOTE)
+                        },
+                        CodePoint::StringMeta_Backslash => {
+                            Char(CODEPOINT_ACTUAL_BACKSLASH)
+                        },
+                        _ => i,
+                    };
+                }
+
                 return format_char(SourceCharacter::from(i));
             },
             Escape::Single => {
-- 
2.43.0


From 4a02118ed52de49d6bf60fdfd91c6712d779f356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:44 +0000
Subject: [PATCH 31/38] fix: find the long names of all characters that have
 one

CODEPOINT_TO_LONGNAME_MAP lists the special code points for the double
quote and the backslash where the characters they stand for belong, so
the binary search, which orders special code points before all
characters, missed entries around them and printing such a character as
a long name panicked.
---
 crates/wolfram-parser/src/long_names.rs | 28 +++++++++++++++----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/crates/wolfram-parser/src/long_names.rs b/crates/wolfram-parser/src/long_names.rs
index 987c5e4..4830393 100644
--- a/crates/wolfram-parser/src/long_names.rs
+++ b/crates/wolfram-parser/src/long_names.rs
@@ -7,7 +7,9 @@ use crate::{
         MB_NOT_STRAGE_LETTERLIKE_CODE_POINTS, MB_PUNCTUATION_CODE_POINTS,
         MB_UNINTERPRETABLE_CODE_POINTS, MB_WHITESPACE_CODE_POINTS, RAW_SET,
     },
-    read::code_point::CodePoint,
+    read::code_point::{
+        CodePoint, CODEPOINT_ACTUAL_BACKSLASH, CODEPOINT_ACTUAL_DOUBLEQUOTE,
+    },
     utils,
 };
 
@@ -16,18 +18,22 @@ pub(crate) fn codepoint_has_longname(point: char) -> bool {
 }
 
 pub(crate) fn codepoint_to_longname(point: CodePoint) -> Option<&'static str> {
-    // NOTE: This assertion currently spuriously fails because the
-    //       StringMeta_DoubleQuote and StringMeta_Backslash codepoints are fake
-    //       codepoints with negative values.
-    /*
-    debug_assert!(utils::is_sorted_by(
-        &CODEPOINT_TO_LONGNAME_MAP,
-        |(point, _): &(CodePoint, &str)| *point
-    ));
-    */
+    // The map is sorted as if the fake StringMeta_DoubleQuote and
+    // StringMeta_Backslash codepoints were the characters they stand for.
+    fn sort_key(point: CodePoint) -> CodePoint {
+        match point {
+            CodePoint::StringMeta_DoubleQuote => {
+                CodePoint::Char(CODEPOINT_ACTUAL_DOUBLEQUOTE)
+            },
+            CodePoint::StringMeta_Backslash => {
+                CodePoint::Char(CODEPOINT_ACTUAL_BACKSLASH)
+            },
+            point => point,
+        }
+    }
 
     let index: usize = CODEPOINT_TO_LONGNAME_MAP
-        .binary_search_by(|(cp, _)| cp.cmp(&point))
+        .binary_search_by(|(cp, _)| sort_key(*cp).cmp(&sort_key(point)))
         .ok()?;
 
     let (_, longname) = CODEPOINT_TO_LONGNAME_MAP[index];
-- 
2.43.0


From 3551ed90014e4070c9f12aebd3bfe3c60cee33eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:03 +0000
Subject: [PATCH 32/38] fix: adding an issue does not look at all issues before
 it

A text with many issues, such as a long comment in a language that is not
written in ASCII, took time quadratic in its length.
---
 crates/wolfram-parser/src/read.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/wolfram-parser/src/read.rs b/crates/wolfram-parser/src/read.rs
index 00d4de4..39d4796 100644
--- a/crates/wolfram-parser/src/read.rs
+++ b/crates/wolfram-parser/src/read.rs
@@ -8,9 +8,11 @@ pub(crate) mod code_point;
 mod wl_character;
 
 
+use std::collections::HashMap;
+
 use crate::{
-    issue::{Issue, Severity},
-    source::{Buffer, Location, NextPolicy, SourceCharacter},
+    issue::{Issue, IssueTag, Severity},
+    source::{Buffer, Location, NextPolicy, Source, SourceCharacter},
     EncodingMode, ParseOptions, UnsafeCharacterEncoding,
 };
 
@@ -47,6 +49,11 @@ pub(crate) struct Reader<'i> {
     pub(crate) fatal_issues: Vec<Issue>,
     pub(crate) non_fatal_issues: Vec<Issue>,
 
+    /// Indices into [`non_fatal_issues`][Reader::non_fatal_issues] by tag and
+    /// start, so that testing whether an issue is already there does not have
+    /// to look at all of them.
+    non_fatal_issue_indices: HashMap<(IssueTag, Option<Location>), Vec<usize>>,
+
     pub(crate) unsafe_character_encoding_flag: Option<UnsafeCharacterEncoding>,
 }
 
@@ -97,6 +104,7 @@ impl<'i> Reader<'i> {
 
             fatal_issues: Vec::new(),
             non_fatal_issues: Vec::new(),
+            non_fatal_issue_indices: HashMap::new(),
 
             unsafe_character_encoding_flag: None,
         }
@@ -266,12 +274,23 @@ impl<'i> Reader<'i> {
                 self.fatal_issues.push(issue);
             }
         } else {
-            if !self.non_fatal_issues.contains(&issue) {
+            let start = match issue.src {
+                Source::Span(span) => Some(span.start()),
+                _ => None,
+            };
+
+            let indices = self
+                .non_fatal_issue_indices
+                .entry((issue.tag, start))
+                .or_default();
+
+            if !indices.iter().any(|&i| self.non_fatal_issues[i] == issue) {
                 //
                 // Only insert if not already found in vector
                 //
                 // This preserves set-like behavior while also retaining insert-order
                 //
+                indices.push(self.non_fatal_issues.len());
                 self.non_fatal_issues.push(issue);
             }
         }
-- 
2.43.0


From 1fabd06ecb6e739edaa36ba5c0784abb6ec5ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 33/38] fix: issues about the first character of a message tag
 have its position

---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 85e0c19..f7e2435 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -1609,14 +1609,12 @@ fn Tokenizer_handleString_stringifyAsTag<'i>(
     //
 
     if c.isLetterlike() || c.isMBLetterlike() {
-        let letterlikeBuf = session.buffer();
-        let letterlikeLoc = session.SrcLoc;
-
+        // `c` has already been read; it is the start of the token.
         Tokenizer_handleSymbolSegment(
             session,
             token_start,
-            letterlikeBuf,
-            letterlikeLoc,
+            token_start.buf,
+            token_start.loc,
             c,
             policy,
         );
-- 
2.43.0


From 0409100b3c3d83d583716833d5c62135bb7ee0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:49 +0000
Subject: [PATCH 34/38] fix: SubscriptBox and SuperscriptBox of other shapes
 than Part and Derivative are abstracted

---
 crates/wolfram-parser/src/abstract_cst.rs | 34 +++++++++++++++++------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index eceef55..dbbed6e 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1450,12 +1450,18 @@ fn single_character(symbol: &str) -> Option<char> {
     }
 }
 
-pub(crate) fn expect_children<I: Debug, S: Debug, const N: usize>(
+fn try_children<I: Debug, S: Debug, const N: usize>(
     children: AggNodeSeq<I, S>,
-) -> [Cst<I, S>; N] {
+) -> Result<[Cst<I, S>; N], Vec<Cst<I, S>>> {
     let NodeSeq(children) = children;
 
-    let children: [Cst<I, S>; N] = match children.try_into() {
+    children.try_into()
+}
+
+pub(crate) fn expect_children<I: Debug, S: Debug, const N: usize>(
+    children: AggNodeSeq<I, S>,
+) -> [Cst<I, S>; N] {
+    let children: [Cst<I, S>; N] = match try_children(children) {
         Ok(children) => children,
         Err(children) => panic!(
             "node did not have the expected number of children (expected {N}, got {})",
@@ -3065,7 +3071,9 @@ fn try_subscript_box_part_special_cases<
             CodeParser_GroupSquare,
             children1:_
         ]) => {
-            let [o1, group, c1] = expect_children(children1);
+            let Ok([o1, group, c1]) = try_children(children1) else {
+                return Err(box_node);
+            };
 
             match o1 {
                 LHS!(LeafNode[OpenSquare, _, _]) => (),
@@ -3084,7 +3092,9 @@ fn try_subscript_box_part_special_cases<
                     CodeParser_GroupSquare,
                     children2:_
                 ]) => {
-                    let [o2, b, c2] = expect_children(children2);
+                    let Ok([o2, b, c2]) = try_children(children2) else {
+                        return Err(box_node);
+                    };
 
                     match o2 {
                         LHS!(LeafNode[OpenSquare, _, _]) => (),
@@ -3133,7 +3143,9 @@ fn try_subscript_box_part_special_cases<
             CodeParser_GroupDoubleBracket,
             children1:_
         ]) => {
-            let [o, b, c] = expect_children(children1);
+            let Ok([o, b, c]) = try_children(children1) else {
+                return Err(box_node);
+            };
 
             match o {
                 LHS!(LeafNode[LongName_LeftDoubleBracket, _, _]) => (),
@@ -3232,7 +3244,7 @@ fn try_superscript_box_derivative_special_case<
 
     let (a, middle) = match children.0.as_slice() {
         [a, middle, ..] => (a.clone(), middle.clone()),
-        _ => todo!("Error?"),
+        _ => return Err(box_node),
     };
 
     let LHS!(BoxNode[
@@ -3244,7 +3256,9 @@ fn try_superscript_box_derivative_special_case<
         return Err(box_node);
     };
 
-    let [left, t] = expect_children(children1);
+    let Ok([left, t]) = try_children(children1) else {
+        return Err(box_node);
+    };
 
     let data2 = left.get_source();
 
@@ -3269,7 +3283,9 @@ fn try_superscript_box_derivative_special_case<
             && second.try_as_symbol().map(wolfram_expr::Symbol::as_str)
                 == Some("System`Derivative") =>
         {
-            let [o, b, c] = expect_children(children2);
+            let Ok([o, b, c]) = try_children(children2) else {
+                return Err(box_node);
+            };
 
             let [o @ LHS!(LeafNode[OpenParen, _, _]), b @ _, c @ LHS!(LeafNode[CloseParen, _, _])] =
                 [o, b, c]
-- 
2.43.0


From 53bd3b2fd36ffc37dbdff4da1afce9464c4d83bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:32 +0000
Subject: [PATCH 35/38] fix: the command-line program ends at the end of its
 input

---
 crates/wolfram-parser/src/bin/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/bin/main.rs b/crates/wolfram-parser/src/bin/main.rs
index 37c28bf..67cd623 100644
--- a/crates/wolfram-parser/src/bin/main.rs
+++ b/crates/wolfram-parser/src/bin/main.rs
@@ -84,7 +84,10 @@ fn read_std_in(mode: ApiMode, output_mode: OutputMode, quirks: QuirkSettings) {
         print!(">>> ");
         io::stdout().flush().unwrap();
 
-        io::stdin().read_line(&mut input).unwrap();
+        if io::stdin().read_line(&mut input).unwrap() == 0 {
+            // End of input.
+            break;
+        }
 
         handle(input.trim_end().as_bytes(), mode, output_mode, quirks)
     }
-- 
2.43.0


From 023f76e2ad9ca75e8311ade3719b1d03d22ece1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:45 +0000
Subject: [PATCH 36/38] fix: print tokens that are not valid UTF-8

---
 crates/wolfram-parser/src/fmt_as_expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/fmt_as_expr.rs b/crates/wolfram-parser/src/fmt_as_expr.rs
index b4d479d..83f533d 100644
--- a/crates/wolfram-parser/src/fmt_as_expr.rs
+++ b/crates/wolfram-parser/src/fmt_as_expr.rs
@@ -78,8 +78,8 @@ impl<I: TokenInput, S: TokenSource> Display for FmtAsExpr<&Token<I, S>> {
 
 
 
-        let source = std::str::from_utf8(input.as_bytes())
-            .expect("token source span is not valid UTF-8");
+        // A token can contain bytes that are not valid UTF-8.
+        let source = String::from_utf8_lossy(input.as_bytes());
 
         // FIXME: This should escape internal characters correctly.
         write!(f, "\"{source}\"")?;
-- 
2.43.0


From aeb95082e9148bae23b7c2cdad2bfb588831aff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:46 +0000
Subject: [PATCH 37/38] fix: without COMPUTE_SOURCE, locations keep their
 convention

Location::next and Location::previous gave a CharacterIndex for any location
when positions are not computed, so that spans of mixed conventions were built:
every text with an issue panicked.
---
 crates/wolfram-parser/src/source.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/source.rs b/crates/wolfram-parser/src/source.rs
index 317a8ba..33c6ef6 100644
--- a/crates/wolfram-parser/src/source.rs
+++ b/crates/wolfram-parser/src/source.rs
@@ -634,7 +634,8 @@ impl Location {
                 },
             }
         } else {
-            Location::CharacterIndex(0)
+            // Locations are not computed: all of them are the same.
+            self
         }
     }
 
@@ -656,7 +657,8 @@ impl Location {
                 },
             }
         } else {
-            Location::CharacterIndex(0)
+            // Locations are not computed: all of them are the same.
+            self
         }
     }
 }
-- 
2.43.0


From b939dc0b05224abe6cf7af29c1d64ba4cd822728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:57 +0000
Subject: [PATCH 38/38] fix: the string of a message tag, slot name or file
 name is that name

Escapes in a tag or slot name were only kept when they came first, and a name
with characters that Rust prints as \u{...} became a string of other
characters; a quoted tag after a line continuation was quoted twice.
---
 crates/wolfram-parser/src/abstract_cst.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index dbbed6e..77bf724 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1478,14 +1478,12 @@ fn escapeString_of_abstractSymbolString<I: TokenInput>(input: &I) -> String {
     // A string token can contain bytes that are not valid UTF-8.
     let s = String::from_utf8_lossy(input.as_bytes());
 
-    // FIXME: This is made up. Consult original WL source and finish porting
-    //        this function.
-    if s.starts_with('"') {
+    // A line continuation may come before the opening quote.
+    if s.ends_with('"') {
         format!("{s}")
-    } else if s.starts_with(r"\[") {
-        format!("\"{s}\"")
     } else {
-        format!("{s:?}")
+        // The escapes in a name mean what they mean in a string.
+        format!("\"{s}\"")
     }
 }
 
@@ -1494,12 +1492,11 @@ fn escapeString_of_abstractFileString<I: TokenInput>(input: &I) -> String {
     // A string token can contain bytes that are not valid UTF-8.
     let s = String::from_utf8_lossy(input.as_bytes());
 
-    // FIXME: This is made up. Consult original WL source and finish porting
-    //        this function.
     if s.starts_with('"') {
         format!("{s}")
     } else {
-        format!("{s:?}")
+        // Every character of a file name stands for itself.
+        format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
     }
 }
 
-- 
2.43.0

