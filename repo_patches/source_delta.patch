From 2a6d6e60d19cb3a40ea6438319d814e1ec583582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 1/7] fix: encode the content passed to from_unencoded_str

---
 src/text/encoded.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/text/encoded.rs b/src/text/encoded.rs
index 689e1ba..05edf32 100644
--- a/src/text/encoded.rs
+++ b/src/text/encoded.rs
@@ -90,7 +90,9 @@ impl EncodedText {
 
     pub(crate) fn from_unencoded_str(value: &str) -> EncodedText {
         EncodedText {
-            value: text::Deferred::Actual(value.into()),
+            value: text::Deferred::Actual(
+                encode_str_optional(value).unwrap_or_else(|| value.into())
+            ),
         }
     }
 
-- 
2.43.0


From 65b14c6f61c368b560ebc6f466c8ffbfb9f9686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 2/7] fix: decode template files as a whole, so characters may
 cross read buffers

---
 src/template.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 6d2cd2b..fb0f697 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -159,7 +159,7 @@ impl Template {
                 error,
             })?;
 
-        let mut input = String::new();
+        let mut input = Vec::new();
         let limit = options
             .max_input_len
             .unwrap_or_else(usize::max_value);
@@ -177,22 +177,8 @@ impl Template {
                     break 'read;
                 }
 
-                let valid_data = match str::from_utf8(data) {
-                    Ok(valid_data) => valid_data,
-                    Err(error) =>
-                        if error.valid_up_to() == 0 {
-                            return Err(FileError::Decode {
-                                path: path.into(),
-                                error,
-                            });
-                        } else {
-                            str::from_utf8(&data[..error.valid_up_to()])
-                                .expect("verified utf8")
-                        },
-                };
-            
-                input.push_str(valid_data);
-                valid_data.len()
+                input.extend_from_slice(data);
+                data.len()
             };
 
             if input.len() > limit {
@@ -205,7 +191,13 @@ impl Template {
             buffer.consume(consumed_len);
         }
 
-        Template::from_str(&input, options)
+        let input = str::from_utf8(&input)
+            .map_err(|error| FileError::Decode {
+                path: path.into(),
+                error,
+            })?;
+
+        Template::from_str(input, options)
             .map_err(|error| FileError::Input {
                 path: path.into(),
                 error,
-- 
2.43.0


From a585103f9293152c9ea8392811f73455a22e56f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 3/7] fix: keep leading whitespace of attribute values

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 92b50e5..3c865a7 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -571,7 +571,7 @@ fn try_parse_attribute<'i>(tag: &str, input: input::Input<'i>)
     };
     let value_start = rest.location();
     let rest = match rest.take_char('"') {
-        Some(rest) => rest.skip_whitespace(),
+        Some(rest) => rest,
         None => return Err(Error::InvalidAttributeValue { 
             location: value_start,
             tag: tag.into(),
-- 
2.43.0


From 19349dfff55998662780601edd9f4013eaf3f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 4/7] fix: name the right tags in parse error messages

---
 src/parse.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c865a7..c4dd7ac 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -238,7 +238,7 @@ impl fmt::Display for Error {
             Error::InvalidOpeningTagIdentifier { location, .. } =>
                 write!(fmt, "Invalid opening tag identifier at {}", location),
             Error::InvalidClosingTagIdentifier { location, .. } =>
-                write!(fmt, "Invalid opening tag identifier at {}", location),
+                write!(fmt, "Invalid closing tag identifier at {}", location),
             Error::InvalidAttributeIdentifier { location, .. } =>
                 write!(fmt, "Invalid attribute identifier at {}", location),
             Error::InvalidAttributeValue { ref tag, ref attribute_name, location } =>
@@ -259,7 +259,7 @@ impl fmt::Display for Error {
                 {
                     write!(fmt, "Unclosed '{}' tag starting at {}", tag, location)?;
                     if !others.is_empty() {
-                        write!(fmt, "(also unclosed are: ")?;
+                        write!(fmt, " (also unclosed are: ")?;
                         for (index, &(ref tag, _)) in others.iter().enumerate() {
                             if index != 0 {
                                 write!(fmt, ",")?;
@@ -285,10 +285,10 @@ impl fmt::Display for Error {
                 closing_location,
             } =>
                 write!(fmt, "Closing tag '{}' at {} does not match opening tag '{}' at {}",
-                    opening_tag,
-                    opening_location,
                     closing_tag,
                     closing_location,
+                    opening_tag,
+                    opening_location,
                 ),
         }
     }
-- 
2.43.0


From 566a231d59aeccc0ecc3a4e279aa67cdc20e8f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 5/7] fix: report unfinished tags at the location where they
 started

---
 src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index c4dd7ac..07ec67a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -534,7 +534,7 @@ fn try_parse_tag_close(input: input::Input) -> Option<ParseResult> {
         Some(rest) => rest,
         None => return Some(Err(Error::ExpectedClosingTagClose {
             tag: (*identifier).into(),
-            location: rest.location(),
+            location: input.location(),
         })),
     };
 
@@ -643,7 +643,7 @@ fn try_parse_tag_open(input: input::Input) -> Option<ParseResult> {
         Some(rest) => rest,
         None => return Some(Err(Error::ExpectedOpeningTagClose {
             tag: (*tag).into(),
-            location: rest.location(),
+            location: input.location(),
         })),
     };
 
-- 
2.43.0


From ab0a602f97b7bdd376083528ac7068e5158b73d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 6/7] fix: compare text by content instead of by kind of
 storage

---
 src/text/deferred.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/text/deferred.rs b/src/text/deferred.rs
index 6b6c09f..0667fa0 100644
--- a/src/text/deferred.rs
+++ b/src/text/deferred.rs
@@ -3,12 +3,21 @@ use std::ops;
 use std::str;
 use std::fmt;
 
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone)]
 pub(crate) enum Deferred<T> {
     StaticStr(&'static str),
     Actual(T),
 }
 
+impl<T> PartialEq for Deferred<T> where T: ops::Deref<Target=str> {
+
+    fn eq(&self, other: &Deferred<T>) -> bool {
+        **self == **other
+    }
+}
+
+impl<T> Eq for Deferred<T> where T: ops::Deref<Target=str> {}
+
 impl<T> Deferred<T> where T: From<&'static str> {
 
     pub(crate) fn into_actual(self) -> T {
-- 
2.43.0


From c8fd954b83b82b3931d7221d13723d064bca91f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:54 +0000
Subject: [PATCH 7/7] fix: do not apply format options to the pieces of a
 template

Displaying a template with a width or precision padded or cut every text
and raw text in it, because the formatter with its options was handed on
to them.
---
 src/template.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/template.rs b/src/template.rs
index fb0f697..bdbaa8c 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -362,7 +362,7 @@ impl fmt::Display for Template {
 
     fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
         for event in self.events.iter() {
-            fmt::Display::fmt(event, fmt)?;
+            write!(fmt, "{}", event)?;
         }
         Ok(())
     }
-- 
2.43.0

