From 129265c78b0f372918041325d4b425dd34c5bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 01/20] fix: reject cursor advances whose target overflows
 usize

Index::increment_checked computed self.0 + n unchecked: a huge request panicked
in debug builds and, in release builds, wrapped around and was accepted.
---
 src/internal/offset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 3ce1ddc..22f793f 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -40,7 +40,7 @@ impl Index {
     #[inline]
     pub fn increment_checked(&mut self, n: usize, lim: usize) -> (usize, bool) {
         let ret = self.0;
-        let is_valid = self.0 + n <= lim;
+        let is_valid = self.0.checked_add(n).map_or(false, |next| next <= lim);
         if is_valid {
             self.0 += n;
         }
-- 
2.43.0


From 2880ab1bdf344222bdb4836d8f7c0c21a016908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 02/20] fix: report an over-large context-window instead of
 panicking

ContextOffset::set_fit computed the remaining byte-count of its error as
abs - winsize, which underflows for any window larger than the whole buffer
(e.g. a Dynamic<u8, _> prefix of ff over a short buffer).
---
 src/internal/offset.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 22f793f..900b703 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -291,16 +291,15 @@ impl ContextOffset {
     /// of the stack, assuming it is non-empty.
     pub fn set_fit(&mut self, winsize: usize) -> ParseResult<()> {
         let cur: usize = self.index();
-        let new_tgt: usize = cur + winsize;
-        if new_tgt > self.abs {
-            let bytes_left = self.abs - winsize;
+        let bytes_left = self.abs - cur;
+        if winsize > bytes_left {
             let request = winsize;
             Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
                 bytes_left,
                 request,
             }))
         } else {
-            self.frames.push_frame(new_tgt)
+            self.frames.push_frame(cur + winsize)
         }
     }
 
-- 
2.43.0


From 64a0bdfa833b17d34892cd5ec2180d2375f5e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 03/20] fix: keep the context-window open when enforce_target
 fails

ContextOffset::enforce_target popped the innermost window before checking
it, so a failed close lifted the window with unconsumed bytes left in it.
---
 src/internal/offset.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 900b703..0026d02 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -352,10 +352,13 @@ impl ContextOffset {
     pub fn enforce_target(&mut self) -> crate::parse::error::ParseResult<()> {
         let cur: usize = self.index();
 
-        match self.frames.pop() {
+        match self.frames.peek() {
             None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
             Some(tgt) => match tgt.cmp(&cur) {
-                std::cmp::Ordering::Equal => Ok(()),
+                std::cmp::Ordering::Equal => {
+                    self.frames.pop();
+                    Ok(())
+                }
                 std::cmp::Ordering::Greater => {
                     Err(ParseError::Window(WindowError::CloseWithResidue {
                         residual: tgt - cur,
-- 
2.43.0


From 32b13a11d9aa4623ac2e1c19e92efe65fd182f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 04/20] fix: keep SliceParser's root view off its stack of
 context-windows

The view over the whole buffer was treated as an open window: enforce_target
popped it (or reported residue) where no window was open, test_target reported
a closable window on an exhausted buffer, and cleanup always reported a spurious
window. A failed enforce_target also lifted the window it failed to close.
---
 src/internal/view.rs | 10 ++++++++++
 src/parse/mod.rs     | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/internal/view.rs b/src/internal/view.rs
index 8c0b0f2..2c3e881 100644
--- a/src/internal/view.rs
+++ b/src/internal/view.rs
@@ -71,6 +71,16 @@ pub use smallvec_viewstack::ViewStack;
 #[cfg(not(feature = "smallvec_viewstack"))]
 pub use vec_viewstack::ViewStack;
 
+impl<'a> ViewStack<'a> {
+    /// Returns the number of open context-windows, which does not include the
+    /// view over the entire buffer at the bottom of the stack.
+    #[inline]
+    #[must_use]
+    pub fn window_count(&self) -> usize {
+        self.0.len().saturating_sub(1)
+    }
+}
+
 impl<'a> std::fmt::Debug for ViewStack<'a> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{:?}", &self.0)
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index baf3226..d0b7a56 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1167,22 +1167,24 @@ pub mod sliceparser {
 
         #[inline]
         fn test_target(&mut self) -> ParseResult<bool> {
-            if let Some(t) = self.view_stack.peek() {
-                Ok(t.is_empty())
-            } else {
-                Ok(false)
+            match self.view_stack.peek() {
+                Some(t) if self.view_stack.window_count() > 0 => Ok(t.is_empty()),
+                _ => Ok(false),
             }
         }
 
         fn enforce_target(&mut self) -> ParseResult<()> {
-            match self.view_stack.pop() {
-                None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
-                Some(_frame) => match _frame.len() {
-                    0 => Ok(()),
+            match self.view_stack.peek() {
+                Some(frame) if self.view_stack.window_count() > 0 => match frame.len() {
+                    0 => {
+                        self.view_stack.pop();
+                        Ok(())
+                    }
                     residual => Err(ParseError::Window(WindowError::CloseWithResidue {
                         residual,
                     })),
                 },
+                _ => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
             }
         }
 
-- 
2.43.0


From a80b791f5b4f341e1e0a1826350aaca7419102c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 05/20] fix: LeftoverState::is_empty ignores empty windows

SplitVec::is_empty is false once a span was recorded, so a cleanup that only
escaped empty windows was reported as having leftover bytes.
---
 src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index d0b7a56..1e9b0ab 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -596,7 +596,7 @@ pub mod cleanup {
             match self {
                 LeftoverState::Empty => true,
                 /* NOTE: the following two cases are not expected to ever arise, but are handled for completeness */
-                LeftoverState::Windowed(sbuf) => sbuf.is_empty(),
+                LeftoverState::Windowed(sbuf) => sbuf.len() == 0,
                 LeftoverState::Windowless(buf) => buf.is_empty(),
             }
         }
-- 
2.43.0


From 8f254b91ddaad1f863b80718fb91b0a69f3d5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 06/20] fix: LeftoverState::append empties its argument in
 every case

---
 src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 1e9b0ab..fee408f 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -518,7 +518,7 @@ pub mod cleanup {
         pub fn append(&mut self, other: &mut Vec<u8>) {
             match self {
                 LeftoverState::Empty => {
-                    *self = Self::Windowless(other.clone());
+                    *self = Self::Windowless(std::mem::take(other));
                 }
                 LeftoverState::Windowless(buf) => buf.append(other),
                 LeftoverState::Windowed(sbuf) => sbuf.append_current(other),
-- 
2.43.0


From 79d7dea22c820910175c7756615d40c6699cb9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 07/20] fix: VecBuffer::get_byte rejects an index equal to the
 length

The bound was off by one, so get_byte(len) read past the end of the buffer.
---
 src/parse/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 96eab54..812afc0 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -216,7 +216,7 @@ impl VecBuffer {
     ///
     /// Will panic if the `ix` is out-of-bounds
     pub fn get_byte(&self, ix: usize) -> u8 {
-        assert!(ix <= self.len());
+        assert!(ix < self.len());
         unsafe { self.get_byte_unchecked(ix) }
     }
 }
-- 
2.43.0


From 026f5f5ec9d99e4587b8749702c388092f43748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 08/20] fix: VecBuffer::get_slice bound cannot wrap around

ix + len wraps in release builds, letting an out-of-bounds slice through.
---
 src/parse/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 812afc0..8cd4f53 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -194,7 +194,7 @@ impl VecBuffer {
     ///
     /// Will panic if `ix + len` is out-of-bounds
     pub fn get_slice(&self, ix: usize, len: usize) -> &[u8] {
-        assert!(ix + len <= self.len());
+        assert!(ix <= self.len() && len <= self.len() - ix);
         unsafe { self.get_slice_unchecked(ix, len) }
     }
 
-- 
2.43.0


From f8dfbb3e8c38ca7fe875565a81c3845c8dccd0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 09/20] fix: MemoParser::skip_exactly records the bytes it
 consumed

The munch-log of a MemoParser partitions the consumed prefix of the buffer; the
skipped bytes were missing from it, so every later entry was misattributed.
---
 src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index fee408f..f451b86 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1023,6 +1023,7 @@ pub mod memoparser {
         fn skip_exactly(&mut self, nbytes: usize) -> ParseResult<()> {
             let (ix, adv) = self.offset.advance(nbytes);
             if adv {
+                self.munches.push(nbytes);
                 Ok(())
             } else {
                 let offset = ix;
-- 
2.43.0


From 430aa7dd37b1ff702f5e05086e0abc3f09bc27a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 10/20] fix: return Err for an out-of-range u30 length prefix

LenPref::parse_as_usize (behind process_prefix and skip_dynamic) panicked on any
four-byte prefix outside the u30 range instead of reporting a parse error.
---
 src/dynamic.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index e6470ce..47f9eba 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -267,7 +267,7 @@ where
 {
     fn parse_as_usize<P: Parser + ?Sized>(p: &mut P) -> ParseResult<usize> {
         let raw_bytes = p.consume(Self::LEN)?;
-        unsafe { Ok(Self::marshall_usize(raw_bytes)) }
+        unsafe { Self::marshall_usize(raw_bytes) }
     }
 
     /// Returns a `uX`-style name for LenPref, as is common for writing
@@ -281,33 +281,34 @@ where
     fn max_len() -> usize;
 }
 mod private {
+    use crate::parse::ParseResult;
+
     pub trait Sealed {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize;
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize>;
     }
 
     impl Sealed for u8 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 1]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for u16 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 2]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for crate::int::u30 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 4]>::try_from(bytes).unwrap_unchecked();
-            let raw = i32::from_be_bytes(bytes);
-            let _ = crate::int::u30::try_from_i32(raw)
-                .expect("Inherent conversion from i32->u30 failed");
-            raw as usize
+            let raw = u32::from_be_bytes(bytes);
+            let len = crate::int::u30::try_from_underlying(raw)?;
+            Ok(len.into())
         }
     }
 }
-- 
2.43.0


From 0f8e247fd8af5bddfaa838fa95b0575333e4acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 11/20] fix: return Err when VPadded has fewer than N bytes to
 reserve

VPadded::parse panicked (underflowing remainder - N without debug assertions) on
any input with fewer than N bytes left in the current context.
---
 src/dynamic.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index 47f9eba..b51efd5 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -59,6 +59,7 @@
 use crate::conv::len::{Estimable, FixedLength};
 use crate::conv::{Decode, Encode, EncodeLength};
 use crate::int::u30;
+use crate::parse::error::{ParseError, WindowError};
 use crate::parse::{ParseResult, Parser};
 use std::borrow::Borrow;
 use std::convert::TryFrom;
@@ -467,14 +468,13 @@ impl<T: Decode, const N: usize> Decode for VPadded<T, N> {
         Self: Sized,
     {
         let _rem = p.remainder();
-        debug_assert!(
-            _rem >= N,
-            "Cannot parse VPadded<{}, {}> with {} (< {}) bytes remaining",
-            std::any::type_name::<T>(),
-            N,
-            _rem,
-            N
-        );
+        if _rem < N {
+            return Err(ParseError::Window(WindowError::ConsumeWouldExceedLimit {
+                offset: p.offset(),
+                requested: N,
+                limit: p.view_len(),
+            }));
+        }
         p.set_fit(_rem - N)?;
         let ret = T::parse(p)?;
         p.enforce_target()?;
-- 
2.43.0


From 902674d29ed06201f616e80e5ff15325502dcb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 12/20] fix: keep the elements passed to FixSeq and LimSeq
 extend and from_iter

The overflow check advanced the iterator past every element before the elements
were taken, so both methods silently discarded their whole input.
---
 src/seq/fix.rs | 10 ++++------
 src/seq/lim.rs | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index cafd45b..a0aaa71 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -165,11 +165,10 @@ impl<T, const N: usize> std::iter::Extend<T> for FixSeq<T, N> {
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated FixSeq"))
         };
         let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        self.0.extend(i.by_ref().take(rem));
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -185,11 +184,10 @@ impl<T, const N: usize> FromIterator<T> for FixSeq<T, N> {
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let ret = inner::Inner::from_iter(i.by_ref().take(N));
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::from_iter(max_iter);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 171e7b9..9030d07 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -199,11 +199,10 @@ impl<T, const N: usize> std::iter::Extend<T> for LimSeq<T, N> {
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated LimSeq"))
         };
         let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        self.0.extend(i.by_ref().take(rem));
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -219,11 +218,10 @@ impl<T, const N: usize> FromIterator<T> for LimSeq<T, N> {
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let ret = inner::Inner::<T, N>::from_iter(i.by_ref().take(N));
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::<T, N>::from_iter(max_iter);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
-- 
2.43.0


From d35b2a0a6ff96794d03972151b358417c5a16ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 13/20] fix: decode FixSeq values whose trailing elements take
 no bytes

FixSeq::parse stopped as soon as the context was exhausted, rejecting its own
encoding of elements such as () or an absent Nullable.
---
 src/seq/fix.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index a0aaa71..639d950 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -278,18 +278,23 @@ where
     fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
         let mut seq = Self::new();
 
-        while p.remainder() != 0 && seq.len() < N {
-            seq.try_push(T::parse(p)?)?;
-        }
-
-        if seq.len() == N {
-            Ok(seq)
-        } else {
-            Err(crate::error::LengthError::WrongLength {
-                exact: N,
-                actual: seq.len(),
+        while seq.len() < N {
+            // NOTE: elements may legally occupy zero bytes, so that an exhausted
+            // context is only an error if no element can be parsed from it.
+            let exhausted = p.remainder() == 0;
+            match T::parse(p) {
+                Ok(elem) => seq.try_push(elem)?,
+                Err(_) if exhausted => {
+                    return Err(LengthError::WrongLength {
+                        exact: N,
+                        actual: seq.len(),
+                    }
+                    .into());
+                }
+                Err(err) => return Err(err),
             }
-            .into())
         }
+
+        Ok(seq)
     }
 }
-- 
2.43.0


From 6927769f730c7f6736e63cb5ab5a9b8f6abb72f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 14/20] fix: refuse to encode a FixSeq that does not hold
 exactly N elements

Encoding is documented to enforce saturation, but an under-saturated FixSeq was
written as is, producing bytes that do not match its known length and that its
own decoder rejects.
---
 src/seq/fix.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index 639d950..146d48e 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -266,7 +266,18 @@ impl<T: Estimable, const N: usize> Estimable for FixSeq<T, N> {
 }
 
 impl<T: Encode, const N: usize> Encode for FixSeq<T, N> {
+    /// Writes each element of the sequence in order
+    ///
+    /// # Panics
+    ///
+    /// Panics if the sequence does not hold exactly `N` elements
     fn write_to<U: Target>(&self, buf: &mut U) -> usize {
+        assert!(
+            self.len() == N,
+            "cannot encode FixSeq holding {} of {} elements",
+            self.len(),
+            N
+        );
         self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()
     }
 }
-- 
2.43.0


From 962d04e0294b3551ab590d4a4b208b511f78f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 15/20] fix: estimate one byte for the natural number zero

N(0) is written as the single byte 00 but was estimated to occupy none.
---
 src/zarith.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zarith.rs b/src/zarith.rs
index 125b43f..4479895 100644
--- a/src/zarith.rs
+++ b/src/zarith.rs
@@ -106,7 +106,8 @@ pub mod n {
 
         fn unknown(&self) -> usize {
             let n: usize = self.0.bits() as usize;
-            Integer::div_ceil(&n, &7)
+            // Zero has no significant bits, but still occupies one byte
+            usize::max(1, Integer::div_ceil(&n, &7))
         }
     }
 
-- 
2.43.0


From 9360858e17da05a873485a79b100d91f95900a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 16/20] fix: reject malformed hex strings instead of panicking
 or accepting them

bytes_of_hex and eq_hex_bytes sliced the string two bytes at a time, panicking
when a slice split a multi-byte character, and parsed each slice with
from_str_radix, which accepts a leading sign ("+f" was read as 0f).
---
 src/hexstring.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/hexstring.rs b/src/hexstring.rs
index e1bc353..385fdab 100644
--- a/src/hexstring.rs
+++ b/src/hexstring.rs
@@ -106,6 +106,28 @@ pub(crate) mod util {
 
     pub(crate) use write_hex;
 
+    /// Returns the value of an ASCII hexadecimal digit (case-insensitive), or `None`
+    /// for any other byte.
+    #[inline]
+    fn value_of_digit(digit: u8) -> Option<u8> {
+        match digit {
+            b'0'..=b'9' => Some(digit - b'0'),
+            b'a'..=b'f' => Some(digit - b'a' + 10),
+            b'A'..=b'F' => Some(digit - b'A' + 10),
+            _ => None,
+        }
+    }
+
+    /// Returns the byte represented by a pair of ASCII hexadecimal digits, or `None`
+    /// if either one is not a hexadecimal digit.
+    #[inline]
+    fn byte_of_digits(high: u8, low: u8) -> Option<u8> {
+        match (value_of_digit(high), value_of_digit(low)) {
+            (Some(high), Some(low)) => Some(high * 16 + low),
+            _ => None,
+        }
+    }
+
     /// Attempt to parse a hexadecimally encoded string-like type, returning either
     /// a `Vec<u8>` holding the decoded bytes or an error containing the invalid
     /// string.
@@ -138,12 +160,13 @@ pub(crate) mod util {
 
         let bytes_len: usize = ascii_len / 2;
 
+        let digits: &[u8] = src.as_bytes();
         let mut dst = Vec::with_capacity(bytes_len);
 
         for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(word) => dst.push(word),
-                Err(_) => return Err(HexConvError::NonHex(src.to_string())),
+            match byte_of_digits(digits[ix * 2], digits[ix * 2 + 1]) {
+                Some(word) => dst.push(word),
+                None => return Err(HexConvError::NonHex(src.to_string())),
             }
         }
         Ok(dst)
@@ -170,9 +193,11 @@ pub(crate) mod util {
             return false;
         }
 
+        let digits: &[u8] = src.as_bytes();
+
         for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(byte) if byte == tgt[ix] => continue,
+            match byte_of_digits(digits[ix * 2], digits[ix * 2 + 1]) {
+                Some(byte) if byte == tgt[ix] => continue,
                 _ => return false,
             }
         }
-- 
2.43.0


From fca15b8730e47cb97f3bd532b0fd050027a0f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 17/20] fix: RangedInt::try_from_i32 no longer overflows below
 a positive MIN

x - MIN was computed in i32, panicking (or wrapping) for very negative x when
MIN > 0 instead of returning an error.
---
 src/int.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/int.rs b/src/int.rs
index e8f8fa4..20523f9 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -268,7 +268,11 @@ where
             MAX
         );
 
-        let underlying: i64 = if MIN <= 0 { x } else { x - MIN } as i64;
+        let underlying: i64 = if MIN <= 0 {
+            x as i64
+        } else {
+            x as i64 - MIN as i64
+        };
         match I::try_from(BoundsError::<i64>::restrict(underlying, MIN, MAX)?) {
             Ok(val) => Ok(Self(val)),
             Err(e) => Err(BoundsError::Failed(e.into())),
-- 
2.43.0


From 01bdea5e0d334697ace2c19de03a928561788d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 18/20] fix: convert integers to RangedInt by value when MIN is
 positive

TryFrom<int> checked the numeric value as if it were an offset from MIN, so that
in-range values were rejected and values below MIN were accepted and panicked.
---
 src/int.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 20523f9..2af63f6 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -464,10 +464,10 @@ pub mod ranged_int_impls {
                 type Error = BoundsError<i128>;
 
                 fn try_from(val: $src) -> Result<Self, Self::Error> {
-                    match BoundsError::restrict(val, MIN, MAX) {
-                        Ok(x) => unsafe { Ok(Self::from_numeric_unchecked(x)) }
-                        Err(e) => Err(e)
-                    }
+                    // NOTE: for MIN > 0, restrict checks offsets from MIN rather than values
+                    let offset: i128 = if MIN <= 0 { 0 } else { MIN as i128 };
+                    BoundsError::<i128>::restrict(val as i128 - offset, MIN, MAX)?;
+                    unsafe { Ok(Self::from_numeric_unchecked(val)) }
                 }
             }
             )+
-- 
2.43.0


From 39da0f7b1dccf82e322a190d0b08ba551e0179c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 19/20] fix: RangedInt default, min_val and max_val for
 positive MIN

The numeric bound was stored where an offset from MIN is expected, yielding
out-of-range values (or the wrong value) for every range with MIN > 0.
---
 src/int.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 2af63f6..d0a2810 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -382,8 +382,12 @@ pub mod ranged_int_impls {
                 /// Returns the value in the range [MIN..MAX] that is closest to the
                 /// value of `Default::default()` for the backing type.
                 fn default() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self((<$t>::default() as i32).clamp(MIN, MAX) as $t)
+                    // NOTE: for MIN > 0, the closest value is MIN, which is stored as offset 0
+                    if MIN > 0 {
+                        Self(0)
+                    } else {
+                        Self((<$t>::default() as i32).clamp(MIN, MAX) as $t)
+                    }
                 }
             }
         };
@@ -408,15 +412,23 @@ pub mod ranged_int_impls {
                 /// Returns the minimum legal value of `Self`
                 #[inline]
                 pub const fn min_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self(Self::MIN)
+                    // NOTE: for MIN > 0, values are stored as offsets from MIN
+                    if MIN_I32 > 0 {
+                        Self(0)
+                    } else {
+                        Self(Self::MIN)
+                    }
                 }
 
                 /// Returns the maximum legal value of `Self`
                 #[inline]
                 pub const fn max_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self(Self::MAX)
+                    // NOTE: for MIN > 0, values are stored as offsets from MIN
+                    if MIN_I32 > 0 {
+                        Self((MAX_I32 - MIN_I32) as $t)
+                    } else {
+                        Self(Self::MAX)
+                    }
                 }
             }
         };
-- 
2.43.0


From 855df0555e099579ccf0409afec5838c3adf949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 20/20] fix: convert RangedInt to integers by value when MIN is
 positive

From and TryFrom yielded the stored offset from MIN rather than the value.
---
 src/int.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index d0a2810..a9d9560 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -445,9 +445,14 @@ pub mod ranged_int_impls {
     ( $backer:ty => $( $dest:ty ),+ ) => {
         $(
             impl<const MIN: i32, const MAX: i32> From<RangedInt<$backer, MIN, MAX>> for $dest {
-                // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                // NOTE: $dest may be too narrow for a range with MIN > 0, as its backer
+                // only has to be wide enough for the offset from MIN
                 fn from(val: RangedInt<$backer, MIN, MAX>) -> Self {
-                    val.0 as $dest
+                    if MIN <= 0 {
+                        val.0 as $dest
+                    } else {
+                        (val.0 as i64 + MIN as i64) as $dest
+                    }
                 }
             }
         )+
@@ -461,8 +466,11 @@ pub mod ranged_int_impls {
                 type Error = <$backer as TryInto<$dest>>::Error;
 
                 fn try_from(val: RangedInt<$backer, MIN, MAX>) -> Result<Self, Self::Error> {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    val.0.try_into()
+                    if MIN <= 0 {
+                        val.0.try_into()
+                    } else {
+                        (val.0 as i64 + MIN as i64).try_into()
+                    }
                 }
             }
         )+
-- 
2.43.0

