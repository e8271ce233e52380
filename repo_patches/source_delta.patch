From 2ad45a821665c99587f98652aa8474a1db7ca574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:05 +0000
Subject: [PATCH 01/10] fix: stringify indents every nesting level, not just
 the first seven

indent() only knew levels 0..=7 and printed a literal "--" beyond that, so
a configuration nested more deeply than that did not parse back from its
own stringified form.
---
 wayfinder/src/core/mod.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/wayfinder/src/core/mod.rs b/wayfinder/src/core/mod.rs
index 1bed836..ee80fc0 100644
--- a/wayfinder/src/core/mod.rs
+++ b/wayfinder/src/core/mod.rs
@@ -61,18 +61,8 @@ pub struct Routes {
     pub query_parameters: Vec<Param>,
 }
 
-fn indent(level: usize) -> &'static str {
-    match level {
-        0 => "",
-        1 => "  ",
-        2 => "    ",
-        3 => "      ",
-        4 => "        ",
-        5 => "          ",
-        6 => "            ",
-        7 => "              ",
-        _ => "              --",
-    }
+fn indent(level: usize) -> String {
+    "  ".repeat(level)
 }
 
 impl Routes {
-- 
2.43.0


From 9e163d848900fa379d49720f2195fa93065aa55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:06 +0000
Subject: [PATCH 02/10] fix: bounds check before a one-byte literal beside a
 route parameter

A single-character static segment next to a parameter was guarded by
'i <= len' but reads path[i..i+1], so a request ending there panicked.
---
 wayfinder/src/gen/gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 2cc4dc6..fa8a0c7 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -638,7 +638,7 @@ where
         );
 
         if match_len == 1 {
-            writeln!(w, "{}if i <= len {{", indent1)?;
+            writeln!(w, "{}if i < len {{", indent1)?;
         } else {
             writeln!(w, "{}if i + {} <= len {{", indent1, match_len)?;
         }
-- 
2.43.0


From 7e32762099638010db2271229cf7b06f79aca344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 03/10] fix: literal segment that is a prefix of a sibling
 generated uncompilable code

When one static segment is a prefix of another (e.g. user and users) the
generated matcher contained a Some('/') pattern with an empty body.  Emit the
resource's methods at the end of the path, and a real separator arm.
---
 wayfinder/src/gen/gen.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index fa8a0c7..988edbf 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -665,9 +665,17 @@ where
     }
 
     // n.b. if we got here, the next character is ambiguous
-    writeln!(w, "{}if i == len {{", indent1)?;
-    writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
-    writeln!(w, "{}}}", indent1)?;
+    let separator = trie.children.iter().find(|c| c.0 == Charlike::Separator);
+    match separator.and_then(|c| c.1.data.as_ref()) {
+        Some(route) if route.resources.len() != 0 => {
+            write_methods(w, route, indent)?;
+        }
+        _ => {
+            writeln!(w, "{}if i == len {{", indent1)?;
+            writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
+            writeln!(w, "{}}}", indent1)?;
+        }
+    }
 
     writeln!(w, "{}match &path[i..i+1] {{", indent1)?;
 
@@ -689,7 +697,12 @@ where
                 break;
             }
             Charlike::Separator => {
-                writeln!(w, "{}Some('/') => {{}}", indent2)?;
+                writeln!(w, "{}b\"/\" => {{", indent2)?;
+                writeln!(w, "{}    i += 1;", indent2)?;
+
+                codegen_trie(w, &child.1, indent + 2)?;
+
+                writeln!(w, "{}}},", indent2)?;
             }
         }
     }
-- 
2.43.0


From 56866d937a2cd830edc74f81f67ed0529e148939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:12 +0000
Subject: [PATCH 04/10] fix: several distinct literals beside a parameter
 generated uncompilable code

The parameter's scanning code was emitted between the arms of the match on
the next byte.  Match the whole segment against the sibling literals first,
and fall through to the parameter.
---
 wayfinder/src/gen/gen.rs | 54 ++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 988edbf..8d16e09 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -664,6 +664,32 @@ where
         return Ok(());
     }
 
+    if let Some((Charlike::Dynamic(ref name), ref dynamic)) = dynamic {
+        // n.b. if we got here, there are several literals with no common prefix beside a dynamic
+        writeln!(w, "{}let mut end = i;", indent1)?;
+        writeln!(w, "{}while end < len && &path[end..end+1] != b\"/\" {{", indent1)?;
+        writeln!(w, "{}    end += 1;", indent1)?;
+        writeln!(w, "{}}}", indent1)?;
+
+        writeln!(w, "{}match &path[i..end] {{", indent1)?;
+
+        for (literal, next) in literal_segments(trie) {
+            writeln!(w, "{}b\"{}\" => {{", indent2, literal)?;
+            writeln!(w, "{}    i += {};", indent2, literal.len())?;
+
+            codegen_trie(w, next, indent + 2)?;
+
+            writeln!(w, "{}}},", indent2)?;
+        }
+
+        writeln!(w, "{}_ => {{}},", indent2)?;
+        writeln!(w, "{}}}", indent1)?;
+
+        write_dynamic(w, dynamic, indent, name)?;
+
+        return Ok(());
+    }
+
     // n.b. if we got here, the next character is ambiguous
     let separator = trie.children.iter().find(|c| c.0 == Charlike::Separator);
     match separator.and_then(|c| c.1.data.as_ref()) {
@@ -689,13 +715,7 @@ where
 
                 writeln!(w, "{}}},", indent2)?;
             }
-            Charlike::Dynamic(ref p) => {
-                write_dynamic(w, &child.1, indent, p)?;
-
-                // No further routes will possibly match.
-                // TODO: is this true still?
-                break;
-            }
+            Charlike::Dynamic(_) => unreachable!(),
             Charlike::Separator => {
                 writeln!(w, "{}b\"/\" => {{", indent2)?;
                 writeln!(w, "{}    i += 1;", indent2)?;
@@ -774,6 +794,26 @@ where
     Ok(())
 }
 
+// the whole literal segments available here, each with the trie at its end
+fn literal_segments(
+    trie: &Trie<Charlike, FlattenedRoute>,
+) -> Vec<(String, &Trie<Charlike, FlattenedRoute>)> {
+    let mut literals = vec![];
+
+    for (ref ch, ref child) in trie.children.iter() {
+        if let Charlike::Static(ch) = ch {
+            if child.children.iter().any(|c| c.0 == Charlike::Separator) {
+                literals.push((ch.to_string(), child));
+            }
+            for (rest, end) in literal_segments(child) {
+                literals.push((format!("{}{}", ch, rest), end));
+            }
+        }
+    }
+
+    literals
+}
+
 // assumes that a None case has already been written
 fn write_dynamic<W>(
     w: &mut W,
-- 
2.43.0


From e5ee9a6cc667f1912df71ce936edc56775856ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 05/10] fix: reject sibling parameters with different names

Only the first one could ever match, so the routes under the others were
silently lost (or the generated code did not compile).
---
 wayfinder/src/gen/gen.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 8d16e09..55e2b70 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -574,10 +574,17 @@ where
 
     // n.b. if we got here, trie.children.len() > 1
 
-    let dynamic = trie.children.iter().find(|c| match c.0 {
+    let mut dynamics = trie.children.iter().filter(|c| match c.0 {
         Charlike::Dynamic(_) => true,
         _ => false,
     });
+    let dynamic = dynamics.next();
+
+    // only one of several sibling dynamics could ever match
+    if dynamics.next().is_some() {
+        return Err(io::ErrorKind::InvalidInput.into());
+    }
+
     let has_dynamic = match dynamic {
         Some(_) => true,
         None => false,
-- 
2.43.0


From 3e795d6ee37c5becae69e5c197c19f6c6b7cc89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 06/10] fix: parameters named like the matcher's own variables
 were shadowed

A parameter called len, path, i, ... rebound the generated function's own
local, which misrouted or panicked when the types happened to agree.
---
 wayfinder/src/gen/gen.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 55e2b70..8adebfc 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -782,7 +782,12 @@ where
         )?;
 
         for param in route.path.dynamics() {
-            writeln!(w, "{}            {},", indent1, param.name)?;
+            let local = local_name(&param.name);
+            if local == param.name {
+                writeln!(w, "{}            {},", indent1, param.name)?;
+            } else {
+                writeln!(w, "{}            {}: {},", indent1, param.name, local)?;
+            }
         }
         for param in route.query_parameters.iter() {
             writeln!(w, "{}            {}: None,", indent1, param.name)?;
@@ -801,6 +806,14 @@ where
     Ok(())
 }
 
+// the matcher's own variables must not be shadowed by a parameter of the same name
+fn local_name(name: &str) -> String {
+    match name {
+        "path" | "method" | "len" | "i" | "start" | "end" | "text" => format!("param_{}", name),
+        _ => name.to_string(),
+    }
+}
+
 // the whole literal segments available here, each with the trie at its end
 fn literal_segments(
     trie: &Trie<Charlike, FlattenedRoute>,
@@ -848,7 +861,7 @@ where
         "{}let text = std::str::from_utf8(&path[start..i]).unwrap();",
         indent1
     )?;
-    writeln!(w, "{}let {} = text.parse()", indent1, name)?;
+    writeln!(w, "{}let {} = text.parse()", indent1, local_name(name))?;
     writeln!(
         w,
         "{}    .map_err(|e| Error::fail(\"{}\", e))?;",
-- 
2.43.0


From 9441fb797c9ea2c720e23dc560b32d84a557187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 07/10] fix: reporting a parse failure far into a line panicked

---
 wayfinder/src/parse/errors.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wayfinder/src/parse/errors.rs b/wayfinder/src/parse/errors.rs
index 7baf9e4..09b6d09 100644
--- a/wayfinder/src/parse/errors.rs
+++ b/wayfinder/src/parse/errors.rs
@@ -93,12 +93,11 @@ where
     writeln!(
         out,
         "{prefix}{:>4}:{}\n\
-         {prefix}     {:>pos$} {}",
+         {prefix}{}^ {}",
         line_no,
         line,
-        "^",
+        " ".repeat(4 + pos_in_line),
         msg,
-        pos = pos_in_line,
         prefix = prefix,
     )
     .unwrap();
-- 
2.43.0


From 4bba25c97d54de8487eb798edb176c363a6af4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 08/10] fix: the caret of a parse failure was misplaced from
 line 10000 on

---
 wayfinder/src/parse/errors.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wayfinder/src/parse/errors.rs b/wayfinder/src/parse/errors.rs
index 09b6d09..ff27a81 100644
--- a/wayfinder/src/parse/errors.rs
+++ b/wayfinder/src/parse/errors.rs
@@ -88,15 +88,15 @@ where
     let _ = line_start.next();
     let line_start = line_start.next().map(|bytes| bytes.len() + 1).unwrap_or(0);
     let line = buf[line_start..].splitn(2, '\n').next().unwrap();
-    let line_no = what_line(buf, line_start);
+    let line_no = format!("{:>4}", what_line(buf, line_start));
     let pos_in_line = buf[line_start..pos].chars().count() + 1;
     writeln!(
         out,
-        "{prefix}{:>4}:{}\n\
+        "{prefix}{}:{}\n\
          {prefix}{}^ {}",
         line_no,
         line,
-        " ".repeat(4 + pos_in_line),
+        " ".repeat(line_no.len() + pos_in_line),
         msg,
         prefix = prefix,
     )
-- 
2.43.0


From c155cf518d2390f07e31ef9fcf8b460003bebf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 09/10] fix: a parse failure with a single position was always
 reported at the start

---
 wayfinder/src/parse/errors.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wayfinder/src/parse/errors.rs b/wayfinder/src/parse/errors.rs
index ff27a81..7ab6359 100644
--- a/wayfinder/src/parse/errors.rs
+++ b/wayfinder/src/parse/errors.rs
@@ -46,8 +46,9 @@ where
 {
     match result {
         Ok(_) => (),
-        Err(Err::Error(Context::Code(_before, e))) => {
-            show_error(out, buf, 0, &format!("error {:?}", e), prefix);
+        Err(Err::Error(Context::Code(i, e))) => {
+            let pos = buf.len() - i.len();
+            show_error(out, buf, pos, &format!("error {:?}", e), prefix);
         }
         Err(Err::Error(Context::List(mut v))) => {
             v.reverse();
@@ -63,8 +64,9 @@ where
                 show_error(out, buf, pos, &get_message(&e), prefix);
             }
         }
-        Err(Err::Failure(e)) => {
-            show_error(out, buf, 0, &format!("failure {:?}", e), prefix);
+        Err(Err::Failure(Context::Code(i, e))) => {
+            let pos = buf.len() - i.len();
+            show_error(out, buf, pos, &format!("failure {:?}", e), prefix);
         }
         Err(_) => show_error(out, buf, 0, "xyzzy", prefix),
     }
-- 
2.43.0


From fa3a5a4f409b4b07364083ca968f7d6363625726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 10/10] fix: a renamed parameter could meet another parameter
 of that name

---
 wayfinder/src/gen/gen.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 8adebfc..ea6b512 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -810,6 +810,8 @@ where
 fn local_name(name: &str) -> String {
     match name {
         "path" | "method" | "len" | "i" | "start" | "end" | "text" => format!("param_{}", name),
+        // nor may the new names meet those of other parameters
+        _ if name.starts_with("param_") => format!("param_{}", name),
         _ => name.to_string(),
     }
 }
-- 
2.43.0

