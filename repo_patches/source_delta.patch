From 6b2297e143559e7c712ad7ecf418acfbe68373a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 01/13] fix: do not let advance_to() step over the buffered end
 of input

Once the end of input had been looked at, the EOF sentinel in the buffer was
counted as a token, so that advance_to() and save_at() moved the cursor beyond
the end of the input and reported success.
---
 src/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index f423e90..6c036aa 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -343,8 +343,10 @@ where
         let mut amount = index - self.index;
 
         // Determine how many tokens we can advance by without refilling the
-        // buffer, and do that.
-        let already_buffered = usize::min(self.buffer.len() - self.index_in_buffer, amount);
+        // buffer, and do that. The EOF sentinel is not a token, so it cannot be
+        // advanced past.
+        let buffered_tokens = self.buffer.len() - usize::from(self.source_at_eof);
+        let already_buffered = usize::min(buffered_tokens - self.index_in_buffer, amount);
         self.index += already_buffered;
         self.index_in_buffer += already_buffered;
         amount -= already_buffered;
-- 
2.43.0


From 216cc862d56bf7bec7d59ed2fcadf3896310d456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 02/13] fix: keep the current position buffered while save_at()
 looks ahead

save_at() remembered its position relative to the front of the buffer without
holding a backtrack marker, so that tokens discarded while advancing to the
future position left the cursor pointing at a later token.
---
 src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 6c036aa..b3bacd1 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -105,10 +105,10 @@ where
     /// Saves the location at the given current or future token index. Panics if
     /// the given token index lies before the current one.
     pub fn save_at(&mut self, index: usize) -> SavedState {
-        let restore = (self.index, self.index_in_buffer);
+        let restore = self.save();
         self.advance_to(index);
         let state = self.save();
-        (self.index, self.index_in_buffer) = restore;
+        self.restore(&restore);
         state
     }
 
-- 
2.43.0


From 2885eaf6e6069b618d30226eff0c856e552ee703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 03/13] fix: report errors recovered from in repetitions that
 end early

A repetition that ended because no further separator or item matched returned
plain success, dropping the errors of the items that had been recovered.
---
 src/algorithm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index dbefab8..7ebf4ab 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -217,7 +217,7 @@ where
                         // fail.
                     } else if output.len() >= minimum {
                         // We've already matched enough, we're done.
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
@@ -261,7 +261,7 @@ where
                                 stream.restore(&state);
                             }
                         }
-                        return parser::Result::Success(output);
+                        break;
                     } else {
                         // We've not matched the minimum amount of repetitions
                         // yet. Getting here also means recovery failed. We
-- 
2.43.0


From 4d58cb0c38494165f120e92ae877d74800404b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 04/13] fix: keep the errors of a recovered parse in
 Result::try_map()

A fallible map that accepted the tree of a recovered parse turned the result
into plain success and dropped its errors.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0fffbf0..921b5ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -90,7 +90,7 @@ impl<O, E> Result<O, E> {
         match self {
             Result::Success(o) => map(o),
             Result::Recovered(o, mut es) => match map(o) {
-                Result::Success(x) => Result::Success(x),
+                Result::Success(x) => Result::Recovered(x, es),
                 Result::Recovered(x, es2) => {
                     es.extend(es2);
                     Result::Recovered(x, es)
-- 
2.43.0


From f90ac690b3ab940640bffe9c7ec6e5fadda2041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 05/13] fix: restore the stream when try_map() may not recover

When the map function recovered but recovery was disabled, the parser failed
without putting the stream back to where it started.
---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index d267a32..d3c2e11 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -290,6 +290,7 @@ where
                     if enable_recovery {
                         parser::Result::Recovered(o, es)
                     } else {
+                        stream.restore(&initial);
                         parser::Result::Failed(stream.index_at(&initial), es)
                     }
                 }
-- 
2.43.0


From ef5bb8af2b32dc6dc36e951a1d2077af1c4338ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 06/13] fix: return the most likely failure of a set of
 alternatives

When the errors of the alternative that got furthest were not to be merged, the
errors and index of the second most likely alternative were returned (and
alternate() panicked if there was only one).
---
 src/algorithm.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 7ebf4ab..2f50c34 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -360,7 +360,6 @@ macro_rules! alternate {
             }
             parser::Result::Failed(last_token_matched, vec![e])
         } else {
-            let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
             parser::Result::Failed(last_token_matched, es)
         }
     }};
@@ -435,7 +434,6 @@ where
         }
         parser::Result::Failed(last_token_matched, vec![e])
     } else {
-        let (last_token_matched, es, _) = failures.into_iter().next().unwrap();
         parser::Result::Failed(last_token_matched, es)
     }
 }
-- 
2.43.0


From 9bcc1aa103ee3a94fb3534428779bd786ff54d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 07/13] fix: allow asking for the location of a position not
 yet read

A saved position may be the one just after the last token that was read from the
source. Asking for its location panicked unless it was the current position,
although the location is known.
---
 src/stream.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stream.rs b/src/stream.rs
index b3bacd1..44d6050 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -274,7 +274,10 @@ where
 
         // Return the requested token from the buffer.
         assert!(*saved_state.index >= self.start_of_buffer());
-        &self.buffer[*saved_state.index - self.start_of_buffer()].1
+        self.buffer
+            .get(*saved_state.index - self.start_of_buffer())
+            .map(|(_, x)| x)
+            .unwrap_or(&self.source_location)
     }
 
     /// Returns the current location.
-- 
2.43.0


From 4c4e4aeed0b18ddfb703f95e35c4af8733f84ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 08/13] fix: consume a leading separator even if no items
 follow

As documented for allow_leading(), a leading separator is allowed even if no
items are parsed, but it was put back unless trailing separators were allowed
as well.
---
 src/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 2f50c34..66cd4bc 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -257,7 +257,7 @@ where
                         // however need to restore the state to before the
                         // separator, which already matched if there was one.
                         if let Some(state) = before_separator {
-                            if !allow_trailing {
+                            if !allow_trailing && !output.is_empty() {
                                 stream.restore(&state);
                             }
                         }
-- 
2.43.0


From 4f9814f43a852b65b652035e68a73f737fe67ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 09/13] fix: refuse a second definition before it replaces the
 first

---
 src/recursive.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/recursive.rs b/src/recursive.rs
index 89f4bfd..6b6f08e 100644
--- a/src/recursive.rs
+++ b/src/recursive.rs
@@ -38,10 +38,9 @@ where
     where
         P: parser::Parser<'i, I, Output = O, Error = E> + 'i,
     {
-        assert!(
-            self.inner.borrow_mut().replace(parser.boxed()).is_none(),
-            "multiple definitions for recursive parser"
-        );
+        let mut inner = self.inner.borrow_mut();
+        assert!(inner.is_none(), "multiple definitions for recursive parser");
+        *inner = Some(parser.boxed());
     }
 }
 
-- 
2.43.0


From 39ff5a38d395384cb56a69fc14d64eed349bb702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 10/13] fix: let a repetition with an unreachable minimum fail

Reserving room for the minimum panicked with a capacity overflow, or
aborted, if the minimum was large, instead of reporting the failure.
---
 src/algorithm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 66cd4bc..8993553 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -177,8 +177,9 @@ where
     // error.
     let mut recovery: Option<Vec<C::Error>> = None;
 
-    // Gather the results in a vector.
-    let mut output = Vec::with_capacity(minimum);
+    // Gather the results in a vector. The minimum is not a promise of how much
+    // input there is, so don't allocate for it in advance.
+    let mut output = Vec::new();
 
     // Parse items.
     loop {
-- 
2.43.0


From 8a9e9d4ac9c35bcaf62bd014ea041559b9a633a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 11/13] fix: keep the token if the location tracker unwinds

make_next_available() called the user-written LocationTracker::advance()
between pulling a token from the source and pushing it into the buffer, so
that a tracker that panics (and is caught) lost the token. The same order
would have lost it, or left the end of input unmarked, if clone() did.
---
 src/stream.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 44d6050..5e53761 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -167,16 +167,13 @@ where
                 return true;
             }
         }
+        // Clone the state of the location tracker, to store with the token in
+        // the buffer.
+        let next_location = self.source_location.clone();
+
         // Query the source iterator. If there is none, return without doing
         // anything to signal EOF.
         if let Some(next_token) = self.source.next() {
-            // Clone the state of the location tracker, to store with the token
-            // in the buffer.
-            let next_location = self.source_location.clone();
-
-            // Advance the location tracker accordingly.
-            self.source_location.advance(&next_token);
-
             // If the buffer is at capacity, see if we can drop some stuff.
             if self.buffer.len() == self.buffer.capacity() {
                 // Remove markers that have gone out of scope.
@@ -210,10 +207,16 @@ where
 
             // Push the token into the buffer.
             self.buffer.push_back((Some(next_token), next_location));
+
+            // Advance the location tracker past the token. This is user code,
+            // so it may unwind; the token must be in the buffer by then.
+            if let Some((Some(token), _)) = self.buffer.back() {
+                self.source_location.advance(token);
+            }
             true
         } else {
             // Source returned EOF; store this and signal EOF.
-            self.buffer.push_back((None, self.source_location.clone()));
+            self.buffer.push_back((None, next_location));
             self.source_at_eof = true;
             false
         }
-- 
2.43.0


From 89104454efa2b8fd9f566f2d7e1a88f0f0ef4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:19 +0000
Subject: [PATCH 12/13] fix: let an alternative succeed when it is tried again
 with recovery

A parser whose callbacks keep state, like a predicate that consults a table
of symbols, may fail at first and match when it is tried once more with
recovery enabled. This panicked (unreachable code).
---
 src/algorithm.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 8993553..1c54369 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -337,7 +337,8 @@ macro_rules! alternate {
                     *parser_index,
                     $(parser::Parser::parse_internal($parsers, stream, true)),+
                 ) {
-                    parser::Result::Success(_) => unreachable!("parser that previously failed now magically succeeded"),
+                    // Happens if the callbacks of the parser keep state.
+                    parser::Result::Success(o) => return parser::Result::Success(o),
                     parser::Result::Recovered(o, es) => return parser::Result::Recovered(o, es),
                     parser::Result::Failed(_, _) => (),
                 }
@@ -409,9 +410,8 @@ where
     if enable_recovery {
         for (_, _, parser) in &failures {
             match parser::Parser::parse_internal(*parser, stream, true) {
-                parser::Result::Success(_) => {
-                    unreachable!("parser that previously failed now magically succeeded")
-                }
+                // Happens if the callbacks of the parser keep state.
+                parser::Result::Success(o) => return parser::Result::Success(o),
                 parser::Result::Recovered(o, es) => return parser::Result::Recovered(o, es),
                 parser::Result::Failed(_, _) => (),
             }
-- 
2.43.0


From 8fbf3df68475a82aca1500751948cdec99709b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:41 +0000
Subject: [PATCH 13/13] fix: let a shared right delimiter close the innermost
 left delimiter it fits

---
 src/scanner.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index a09921f..858898d 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -95,6 +95,16 @@ where
                 // option 3 if it applies, then option 1 if it applies, and
                 // finally option 2.
 
+                // Types may share their right delimiter; if so, this one is for
+                // the innermost left delimiter that it closes.
+                let right_index = self
+                    .stack
+                    .iter()
+                    .rev()
+                    .map(|(left_index, _, _)| *left_index)
+                    .find(|left_index| &self.types[*left_index].1 == right)
+                    .unwrap_or(right_index);
+
                 // Try option 3.
                 if self
                     .stack
-- 
2.43.0

