From 32d52a943041aacb292ae74e87342772676e6a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:21 +0000
Subject: [PATCH 01/18] fix: advance over whole characters when scanning
 scalars and comments

Consuming one byte of a multibyte character split the buffer inside it and
panicked; copied characters were truncated to their first byte.
---
 src/scanner/mod.rs          |  2 +-
 src/scanner/scalar/block.rs | 10 ++++++----
 src/scanner/scalar/flow.rs  |  8 +++++---
 src/scanner/scalar/plain.rs |  8 +++++---
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index f53d791..24083b1 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -1000,7 +1000,7 @@ fn eat_whitespace(opts: Flags, base: &str, stats: &mut MStats, comments: bool) -
         }
         else
         {
-            advance!(buffer, :stats, 1);
+            advance!(buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index f79c955..818b039 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -256,11 +256,13 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         {
             cache!(~buffer, 1, opts)?;
 
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(buffer[..width].as_bytes())
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
 
         // Mark content end
@@ -363,7 +365,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
 
         // Eat the line break (if not EOF)
@@ -670,7 +672,7 @@ fn skip_blanks(opts: Flags, buffer: &mut &str, stats: &mut MStats, comments: boo
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(*buffer, :stats, 1);
+            advance!(*buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index b8aa1a0..0d94cb1 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -129,12 +129,14 @@ pub(in crate::scanner) fn scan_flow_scalar_eager<'de>(
             // Its a non blank character, add it
             else
             {
+                // Safety: !isBlankZ guarantees the slice is not empty
+                let width = widthOf!(~buffer);
+
                 if !can_borrow
                 {
-                    // Safety: !isBlankZ guarantees the slice is not empty
-                    scratch.push(buffer.as_bytes()[0])
+                    scratch.extend_from_slice(buffer[..width].as_bytes())
                 }
-                advance!(buffer, :stats, 1);
+                advance!(buffer, :stats, width);
             }
         }
 
diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 3ac6a93..43c056e 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -147,11 +147,13 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
                 break;
             }
 
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(buffer[..width].as_bytes())
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
@@ -337,7 +339,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
                 break 'scalar;
             }
 
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
-- 
2.43.0


From e4d8d3b0abf6c82d1e65e38f69558fb81da34e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:14 +0000
Subject: [PATCH 02/18] fix: reject escaped code points that are not characters

"\uD800" and "\UFFFFFFFF" were written as invalid UTF-8, which panicked
when the scalar was assembled.
---
 src/scanner/scalar/escape.rs | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/src/scanner/scalar/escape.rs b/src/scanner/scalar/escape.rs
index f816a68..ee69a68 100644
--- a/src/scanner/scalar/escape.rs
+++ b/src/scanner/scalar/escape.rs
@@ -176,31 +176,11 @@ fn write_unicode_point(base: &str, scratch: &mut Vec<u8>, codepoint_len: u8) ->
         advance!(buffer, 1, i);
     }
 
-    // Bit shift the value into the correct byte configuration
-    // for UTF8
-    match value
-    {
-        // v <= 127 (ASCII)
-        v if v <= 0x7F => scratch.push(v as u8),
-        // v <= 2047
-        v if v <= 0x7FF =>
-        {
-            scratch.extend_from_slice(&[0xC0 | (v >> 6) as u8, 0x80 | (v & 0x3F) as u8])
-        },
-        // v <= 65535
-        v if v <= 0xFFFF => scratch.extend_from_slice(&[
-            0xE0 | (v >> 12) as u8,
-            0x80 | ((v >> 6) & 0x3F) as u8,
-            0x80 | (v & 0x3F) as u8,
-        ]),
-        // Otherwise it must be a full 4 byte code point
-        v => scratch.extend_from_slice(&[
-            0xF0 | (v >> 18) as u8,
-            0x80 | ((v >> 12) & 0x3F) as u8,
-            0x80 | ((v >> 6) & 0x3F) as u8,
-            0x80 | (v & 0x3F) as u8,
-        ]),
-    }
+    // Surrogates and values past U+10FFFF do not name a
+    // character
+    let c = std::char::from_u32(value).ok_or(ScanError::UnknownEscape)?;
+
+    scratch.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
 
     Ok(codepoint_len as usize)
 }
-- 
2.43.0


From d5107a7c83356351d090ae22a607753579124565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:59 +0000
Subject: [PATCH 03/18] fix: reject tag escapes that do not encode a character

%C0%80 and %ED%A0%80 passed the octet shape check and panicked when the tag
was assembled.
---
 src/scanner/tag.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 7b35d10..0550b8e 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -329,7 +329,9 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
     }
     else
     {
-        let utf8 = String::from_utf8(scratch).unwrap();
+        // The octets may have the right shape without encoding a
+        // character (overlong, surrogate)
+        let utf8 = String::from_utf8(scratch).map_err(|_| ScanError::UnknownEscape)?;
 
         Ok((cow!(utf8), advance))
     }
-- 
2.43.0


From dcdcc0ddf5ca6bee4398b8474ea517e4d3b58ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:26 +0000
Subject: [PATCH 04/18] fix: accept verbatim tags

The closing '>' was looked for one byte too far, so every verbatim tag was
an error; '!<' and '>' were not added to the position either.
---
 src/scanner/tag.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 0550b8e..f585dad 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -180,7 +180,7 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
     // If its a verbatim tag scan it
     let (token, amt) = if check!(~buffer => [b'!', b'<', ..])
     {
-        advance!(buffer, 2);
+        advance!(buffer, :stats, 2);
 
         // !<global:verbatim:tag:> "node"
         //   ^^^^^^^^^^^^^^^^^^^^
@@ -188,8 +188,9 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
 
         // !<global:verbatim:tag:> "node"
         //                       ^
-        cache!(~buffer, @amt + 1, 1, opts)?;
-        check!(~buffer, amt + 1 => b'>', else ScanError::InvalidTagSuffix)?;
+        cache!(~buffer, @amt, 1, opts)?;
+        check!(~buffer, amt => b'>', else ScanError::InvalidTagSuffix)?;
+        stats.update(1, 0, 1);
 
         let token = assemble_tag(&buffer[0..0], verbatim, can_borrow);
 
-- 
2.43.0


From 4d61c0e10b1c39106427b2f17f43898f193bb489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:09 +0000
Subject: [PATCH 05/18] fix: do not assert what follows a mapping inside a flow
 sequence

[a: "b" "c"] is an error for the sequence to report, not a broken invariant.
---
 src/event/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index e48b664..6f160e4 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -769,9 +769,9 @@ impl Parser
     where
         T: Read,
     {
-        let (start, end, token) = peek!(tokens)?;
-
-        debug_assert!(matches!(token, Marker::FlowEntry | Marker::FlowSequenceEnd));
+        // Whatever follows the mapping is checked by the parent
+        // sequence
+        let (start, end, _) = peek!(tokens)?;
 
         // Revert to parsing the next entry in the parent sequence
         state!(~self, -> State::FlowSequenceEntry(O_NIL));
-- 
2.43.0


From 388e2c1a34d65c81a8192d9327f345528c877583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:23 +0000
Subject: [PATCH 06/18] fix: skip escaped backslashes in lazy double quoted
 scalars

The second backslash of "a\\" was taken to escape the closing quote.
---
 src/scanner/scalar/flow.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index 0d94cb1..c1b4109 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -289,10 +289,11 @@ pub(in crate::scanner) fn scan_flow_scalar_lazy<'de>(
             return Err(ScanError::UnexpectedEOF);
         }
 
-        // Check for either of the quote escapes, skipping them if
-        // found
+        // Check for either of the quote escapes or an escaped
+        // backslash, skipping them if found
         if (kind == SingleQuote && check!(~buffer => [SINGLE, SINGLE, ..]))
-            || (kind == DoubleQuote && check!(~buffer => [BACKSLASH, DOUBLE, ..]))
+            || (kind == DoubleQuote
+                && check!(~buffer => [BACKSLASH, DOUBLE, ..] | [BACKSLASH, BACKSLASH, ..]))
         {
             advance!(buffer, :stats, 2);
         }
-- 
2.43.0


From e2bdf07aeeb8edc6e9a5f24db101d3a83fef692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 07/18] fix: read block scalar headers and leading lines of
 explicitly indented scalars

---
 src/scanner/scalar/block.rs | 48 ++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 818b039..329bb76 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -147,7 +147,20 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            // Chomp indentation until the first indented line
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut lines,
+                &mut can_borrow,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
@@ -161,11 +174,21 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         },
     }
 
+    // Leading lines are not adjacent to the content
+    if lines > 0
+    {
+        can_borrow = false
+    }
+
     // Add any preceding lines to the tracked borrow or scratch
     // space
     match can_borrow
     {
-        true => content_start = local_stats.read - stats.read,
+        true =>
+        {
+            content_start = local_stats.read - stats.read;
+            content_end = content_start;
+        },
         false =>
         {
             for _ in 0..lines
@@ -340,7 +363,20 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            // Chomp indentation until the first indented line
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut 0,
+                &mut false,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
@@ -415,7 +451,7 @@ fn scan_headers(
     // than erroring
     match buffer.as_bytes()
     {
-        [i @ b'0'..=b'9', ..] | [_, i @ b'0'..=b'9', ..] =>
+        [i @ b'0'..=b'9', ..] | [b'+', i @ b'0'..=b'9', ..] | [b'-', i @ b'0'..=b'9', ..] =>
         {
             indent = atoi::<u8>(&[*i]).and_then(NonZeroU8::new);
             skip += 1;
@@ -427,12 +463,12 @@ fn scan_headers(
     // Set the chomping behavior of the scalar, if required
     match buffer.as_bytes()
     {
-        [c, ..] | [_, c, ..] if matches!(*c, b'+') =>
+        [b'+', ..] | [b'0'..=b'9', b'+', ..] =>
         {
             chomp = ChompStyle::Keep;
             skip += 1;
         },
-        [c, ..] | [_, c, ..] if matches!(*c, b'-') =>
+        [b'-', ..] | [b'0'..=b'9', b'-', ..] =>
         {
             chomp = ChompStyle::Strip;
             skip += 1;
-- 
2.43.0


From 843b59cde7cad9b26e482772800c7335f234b85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:41 +0000
Subject: [PATCH 08/18] fix: chomp single line block scalars that end in other
 line breaks

---
 src/scanner/scalar/block.rs | 62 +++++++++++++++----------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 329bb76..dc89066 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -541,55 +541,43 @@ fn scan_chomp<'de>(
         style,
         start,
         mut end,
-        mut lines,
+        lines,
     } = params;
 
     if *can_borrow
     {
-        match style
+        let breaks = match style
         {
             // Clip the scalar to 0 or 1 line break
-            ChompStyle::Clip =>
-            {
-                // Check if we had trailing lines, extending the borrow to
-                // include the first
-                if lines > 0
-                {
-                    end += widthOf!(~base[end..], 1);
-                }
-
-                scalar = cow!(&base[start..end])
-            },
+            ChompStyle::Clip => lines.min(1),
             // Ignore any trailing line breaks just returning the scalar
-            ChompStyle::Strip => scalar = cow!(&base[start..end]),
-            // We only maintain the borrow if there is 0 or 1 new lines
+            ChompStyle::Strip => 0,
+            ChompStyle::Keep => lines,
+        };
+
+        match breaks
+        {
+            0 => scalar = cow!(&base[start..end]),
+            // We only maintain the borrow if there is a single line break, which is represented in
+            // .base exactly as it is in the scalar
             //
             // Technically, we could extend the logic here to check if the most recent scan_indent
             // didn't skip any spaces (only line breaks).
-            ChompStyle::Keep => match lines
+            1 if base.as_bytes().get(end) == Some(&NEWLINE) => scalar = cow!(&base[start..end + 1]),
+            // Otherwise the scalar could still be borrowed, and thus is a single line. In this case
+            // we have to copy the borrow to the scratch space, and let the copy branch append any
+            // trailing lines.
+            //
+            // Note that .start and .end in this case refer to .base offsets _AND NOT_ scratch
+            // offsets, and must be converted.
+            _ =>
             {
-                n @ 0 | n @ 1 => scalar = cow!(&base[start..end + n]),
-                // The only way to hit this branch is if the scalar could still be borrowed, and
-                // thus is a single line. In this case we have to copy the borrow to the scratch
-                // space, and append any trailing lines the previous scan_indent produced.
-                //
-                // Note that .start and .end in this case refer to .base offsets _AND NOT_ scratch
-                // offsets. Care must be taken to ensure we _NEVER_ index into scratch with them
-                // when .style == Keep
-                _ =>
-                {
-                    scratch.extend_from_slice(base[start..end].as_bytes());
+                scratch.extend_from_slice(base[start..end].as_bytes());
+                end -= start;
 
-                    while lines > 0
-                    {
-                        scratch.push(NEWLINE);
-                        lines -= 1;
-                    }
-
-                    // Ensure we hit the copy branch below so as to correctly
-                    // handle .scratch -> .scalar transform
-                    *can_borrow = false;
-                },
+                // Ensure we hit the copy branch below so as to correctly
+                // handle .scratch -> .scalar transform
+                *can_borrow = false;
             },
         }
     }
-- 
2.43.0


From 2a2ddd6d922f03e1d36678eda568e14aa327a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 09/18] fix: keep characters split between chunks, and bytes
 read before an error, in the owned reader

---
 src/reader/owned.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 5a3108d..3259971 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -161,6 +161,9 @@ struct Impl
     head: String,
     tail: Vec<String>,
 
+    /// Bytes read from .source, that are not part of .head yet
+    unread: Vec<u8>,
+
     source:    Box<dyn io::Read + 'static>,
     exhausted: bool,
 }
@@ -177,6 +180,8 @@ impl Impl
             head: String::new(),
             tail: Vec::new(),
 
+            unread: Vec::new(),
+
             source,
             exhausted: false,
         }
@@ -201,8 +206,30 @@ impl Impl
             new.extend_from_slice(&self.head.as_bytes()[mark..]);
         }
 
+        let carried = new.len();
+        new.append(&mut self.unread);
+
         // Fill the new buffer, checking if .src has been exhausted
-        self.exhausted = read_fill(Take::new(&mut self.source, cap), &mut new)?;
+        match read_fill(Take::new(&mut self.source, cap), &mut new)
+        {
+            Ok(exhausted) => self.exhausted = exhausted,
+            Err(e) =>
+            {
+                // Don't lose whatever was read before the error
+                self.unread = new.split_off(carried);
+
+                return Err(e.into());
+            },
+        }
+
+        // The last character may continue in the next chunk
+        if let Err(e) = std::str::from_utf8(&new)
+        {
+            if e.error_len().is_none() && !self.exhausted
+            {
+                self.unread = new.split_off(e.valid_up_to());
+            }
+        }
 
         // Validate buffer is UTF8
         let new = String::from_utf8(new).map_err(|e| e.utf8_error())?;
-- 
2.43.0


From 0df21f815e62df859bf26cb566db8dac106f1f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:39 +0000
Subject: [PATCH 10/18] fix: keep whole characters in lazy plain scalars

---
 src/scanner/scalar/plain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 43c056e..01c6ee5 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -329,7 +329,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
             {
                 let skip = match isWhiteSpace!(~buffer, 1)
                 {
-                    true => 2,
+                    true => 1 + widthOf!(~buffer, 1),
                     false => 1,
                 };
 
-- 
2.43.0


From bd332afa65a2c9b78852b7772d6be5511e81a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 11/18] fix: evaluate lazy block scalars as complete input

---
 src/scanner/scalar/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index dc89066..1720e64 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -45,7 +45,7 @@ use crate::{
         context::Context,
         entry::MaybeToken,
         error::{ScanError, ScanResult as Result},
-        flag::{Flags, O_LAZY},
+        flag::{Flags, O_EXTENDABLE, O_LAZY},
         scalar::as_maybe,
         stats::MStats,
     },
@@ -425,7 +425,15 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     let advance = base.len() - buffer.len();
     let slice = &base[..advance];
 
-    let lazy = Deferred::new(opts, slice, stats.clone(), base_indent, fold);
+    // Note we remove O_EXTENDABLE as we've already located the
+    // entire scalar
+    let lazy = Deferred::new(
+        opts & !O_EXTENDABLE,
+        slice,
+        stats.clone(),
+        base_indent,
+        fold,
+    );
 
     *stats = local_stats;
 
-- 
2.43.0


From fb08e6ca6f1b63ef90c5353806745b9690e624f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 12/18] fix: let documents override the default tag handles

---
 src/event/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 6f160e4..392698d 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1112,7 +1112,7 @@ where
     #[allow(unused_assignments)]
     let (start, mut end, mut token) = peek!(tokens)?;
 
-    let mut directives = Directives::default();
+    let mut directives = Directives::empty();
     let mut seen_version = false;
 
     let tags = &mut directives.tags;
-- 
2.43.0


From 81c146c5ea0e7a416b1541a065501cac46ddc5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 13/18] fix: do not hold the owned reader's buffers borrowed
 while its source runs

---
 src/reader/owned.rs | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 3259971..51987c1 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -122,7 +122,17 @@ impl ReadHolder
     {
         let inner: &mut Impl = unsafe { &mut *self.inner.get() };
 
-        inner.refresh_buffer(read_to)
+        // The source is foreign code, which may (indirectly) hold a reference to ourselves. We
+        // must not hold any borrows of .inner while it runs, nor run it again before it returns
+        let mut source = inner.source.take().ok_or_else(reentrant)?;
+        let (cap, carried, mut new) = inner.next_buffer(read_to);
+
+        let filled = read_fill(Take::new(&mut source, cap), &mut new);
+
+        let inner: &mut Impl = unsafe { &mut *self.inner.get() };
+        inner.source = Some(source);
+
+        inner.refresh_buffer(filled, carried, new)
     }
 
     pub fn data(&self) -> &str
@@ -164,7 +174,8 @@ struct Impl
     /// Bytes read from .source, that are not part of .head yet
     unread: Vec<u8>,
 
-    source:    Box<dyn io::Read + 'static>,
+    /// Always present, unless .source is currently being read
+    source:    Option<Box<dyn io::Read + 'static>>,
     exhausted: bool,
 }
 
@@ -174,7 +185,7 @@ impl Impl
     where
         T: io::Read + 'static,
     {
-        let source = Box::new(src);
+        let source = Some(Box::new(src) as Box<dyn io::Read>);
 
         Self {
             head: String::new(),
@@ -192,7 +203,9 @@ impl Impl
         &self.head
     }
 
-    fn refresh_buffer(&mut self, copy_from: Option<usize>) -> ReaderResult<()>
+    /// Calculate the next allocation chunk, and the start of
+    /// the buffer it should be read into
+    fn next_buffer(&mut self, copy_from: Option<usize>) -> (usize, usize, Vec<u8>)
     {
         // Calculate next allocation chunk
         let cap = (DEFAULT_BUFFER_SIZE * usize::max(self.tail.len(), 1) + copy_from.unwrap_or(0))
@@ -209,8 +222,18 @@ impl Impl
         let carried = new.len();
         new.append(&mut self.unread);
 
-        // Fill the new buffer, checking if .src has been exhausted
-        match read_fill(Take::new(&mut self.source, cap), &mut new)
+        (cap, carried, new)
+    }
+
+    fn refresh_buffer(
+        &mut self,
+        filled: io::Result<bool>,
+        carried: usize,
+        mut new: Vec<u8>,
+    ) -> ReaderResult<()>
+    {
+        // Check if .src has been exhausted
+        match filled
         {
             Ok(exhausted) => self.exhausted = exhausted,
             Err(e) =>
@@ -256,6 +279,11 @@ impl fmt::Debug for Impl
     }
 }
 
+fn reentrant() -> io::Error
+{
+    io::Error::new(io::ErrorKind::Other, "reader is already being read from")
+}
+
 fn read_fill<T>(mut src: T, buf: &mut Vec<u8>) -> io::Result<bool>
 where
     T: io::Read,
-- 
2.43.0


From e249d9fa70bcc80ed09e0b8c1b5d95fdfff96a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:37 +0000
Subject: [PATCH 14/18] fix: skip repeated document end markers

---
 src/event/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 392698d..491fb77 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -227,9 +227,9 @@ impl Parser
         let implicit = opts.contains(O_IMPLICIT);
         let first = opts.contains(O_FIRST);
 
-        // If the document is explicit we need to skip any extra
-        // DocumentEnd tokens ('...')
-        if !implicit
+        // If this isn't the first document we need to skip any
+        // extra DocumentEnd tokens ('...')
+        if !first
         {
             while peek!(~tokens)? == Marker::DocumentEnd
             {
-- 
2.43.0


From ce131b20401926dafe9140b4bf86980734f95e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:46 +0000
Subject: [PATCH 15/18] fix: accept verbatim tags

A verbatim tag (!<tag:yaml.org,2002:str>) has no handle, but was rejected
as using an undeclared one.
---
 src/event/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 491fb77..aa21c8a 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1278,7 +1278,8 @@ fn validate_tag(tags: &TagDirectives, tag: &mut Option<(Slice, Slice)>, scalar:
             // 2. Scalar and resolvable
             (false, _) | (true, true) =>
             {
-                if tags.get(handle).is_none()
+                // Verbatim tags have no handle to look up
+                if !handle.is_empty() && tags.get(handle).is_none()
                 {
                     return Err(Error::UndefinedTag);
                 }
-- 
2.43.0


From 82ab143decf211aaa7cb11c4b7e6d70619e5755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:24 +0000
Subject: [PATCH 16/18] fix: leave no indentation level behind when the
 outermost collection ends

---
 src/scanner/context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 01a2c94..198d72d 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -161,6 +161,9 @@ impl Context
             {
                 self.indent = entry.indent;
 
+                // The outermost level was opened from no level at all
+                self.started = !self.indents.is_empty();
+
                 f(self.indent)?;
 
                 Ok(true)
-- 
2.43.0


From 9413f9de0c242040121df645673b37fa2e79afb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:30 +0000
Subject: [PATCH 17/18] fix: keep a sequence at its mapping's indentation open
 for its deeper lines

---
 src/scanner/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 24083b1..8a80a8e 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -830,8 +830,12 @@ impl Scanner
              * 2. Current indentation is for a sequence
              * 3. The next byte sequence is not a block entry
              * 4. The entry was flagged zero_indented
+             * 5. We are at the sequence's own indentation, anything
+             *    deeper is still part of its current entry
              */
             if entry.line < self.stats.lines
+                && self.context.is_block()
+                && self.context.indent() == self.stats.column
                 && entry.zero_indented
                 && entry.kind == Marker::BlockSequenceStart
                 && (!check!(~base => b'-'))
-- 
2.43.0


From 44910e896f42cf14c5e646ac675d534d1736164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:00 +0000
Subject: [PATCH 18/18] fix: end a sequence at its mapping's indentation at a
 plain scalar starting with '-'

---
 src/scanner/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 8a80a8e..029145c 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -138,6 +138,12 @@ impl Scanner
         // anymore
         self.expire_stale_saved_key()?;
 
+        // 4 characters is the longest token we can encounter, one
+        // of:
+        //  - '--- '
+        //  - '... '
+        cache!(~base, 4, opts)?;
+
         // Handle indentation unrolling
         self.unroll_indent(tokens, self.stats.column)?;
         self.pop_zero_indent_sequence(*base, tokens)?;
@@ -148,12 +154,6 @@ impl Scanner
             return self.fetch_stream_end(*base, tokens);
         }
 
-        // 4 characters is the longest token we can encounter, one
-        // of:
-        //  - '--- '
-        //  - '... '
-        cache!(~base, 4, opts)?;
-
         // Fetch the next token(s)
         match base.as_bytes()
         {
@@ -838,7 +838,7 @@ impl Scanner
                 && self.context.indent() == self.stats.column
                 && entry.zero_indented
                 && entry.kind == Marker::BlockSequenceStart
-                && (!check!(~base => b'-'))
+                && !(check!(~base => b'-') && isWhiteSpaceZ!(~base, 1))
             {
                 let read = self.stats.read;
 
-- 
2.43.0

