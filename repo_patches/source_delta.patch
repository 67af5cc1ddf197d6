From a89d035e9808626c93ea0289419a3b6380c275c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:10 +0000
Subject: [PATCH 01/19] fix: accept identifiers that merely start with a
 reserved word

A name such as 'stringy' or 'uint8_value' was rejected because the
reserved word check matched a prefix. Only whole words are reserved.
---
 src/lib/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 6066bda..bf1874e 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -35,7 +35,7 @@ peg::parser!(pub grammar pkt() for str {
     rule ident_chars() -> &'input str = s:$(['a'..='z'|'A'..='Z'|'0'..='9'|'_']) { s }
     /// Parses an entire identifier, ensuring no reserved keywords are used
     rule ident() -> &'input str
-        = i:quiet!{ $(!reserved() ident_start() ident_chars()*) } { i }
+        = i:quiet!{ $(!(reserved() !ident_chars()) ident_start() ident_chars()*) } { i }
 
     rule enum_variant() -> &'input str
         = s:ident() ___ ","? ___ { s }
-- 
2.43.0


From 0ed3447045b088c3ed8c0d17b49ada8109d29059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:10 +0000
Subject: [PATCH 02/19] fix: do not take names starting with 'export' for an
 export

'exported: struct {}' was parsed as 'export ed' and then rejected, and
'exportTest' was accepted as 'export Test'.
---
 src/lib/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index bf1874e..40ed291 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -70,7 +70,7 @@ peg::parser!(pub grammar pkt() for str {
         }
 
     rule export() -> Node<'input>
-        = "export" _ s:string() {
+        = "export" !ident_chars() _ s:string() {
             Node::Export(s)
         }
 
-- 
2.43.0


From cce468c6d531974de40abd98d94b4a9b0bab473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:22 +0000
Subject: [PATCH 03/19] fix: allow blank lines that contain spaces or tabs

Trailing blanks after a comment or an export, and whitespace-only lines
at the start of the text, were parse errors although newlines were not.
---
 src/lib/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 40ed291..70101d8 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -75,13 +75,13 @@ peg::parser!(pub grammar pkt() for str {
         }
 
     rule line() -> Option<Node<'input>>
-        = _ comment() __ { None }
-        / _ e:(export()) __ { Some(e) }
+        = _ comment() ___ { None }
+        / _ e:(export()) ___ { Some(e) }
         / _ s:(decl()) __ { Some(s) }
 
     /// Parses a schema file
     pub rule schema() -> AST<'input>
-        = __? lines:(line()*) {
+        = ___ lines:(line()*) {
             lines.into_iter()
                 .filter_map(|x| x)
                 .collect()
-- 
2.43.0


From dbbbf8aa638e749f691691eb13df72a15a3bbbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:00 +0000
Subject: [PATCH 04/19] fix: report the offending character in non-ASCII
 schemas

The parser gives a byte offset, but it was used as a character index, so
any multi-byte character earlier in the text made the message name the
wrong character.
---
 src/lib/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lib.rs b/src/lib/lib.rs
index 17e830f..2977a9d 100644
--- a/src/lib/lib.rs
+++ b/src/lib/lib.rs
@@ -25,7 +25,7 @@ fn pretty_error(file: &str, err: ParseError<LineCol>) -> String {
     let mut out_str = String::new();
     out_str += &format!(
         "\nUnexpected token '{}' at line {}, column {}",
-        file.chars().nth(err.location.offset).unwrap_or('\0'),
+        file[err.location.offset..].chars().next().unwrap_or('\0'),
         err.location.line,
         err.location.column
     );
-- 
2.43.0


From 381dd339517a81eeb8fb20d15513526c7d0330af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:55 +0000
Subject: [PATCH 05/19] fix: find duplicate fields after a field of a
 user-defined type

Checking stopped at the first field whose type is not a basic type, so
a duplicate further down was accepted.
---
 src/lib/check.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 29036ad..bf72da8 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -228,8 +228,6 @@ fn resolve_one_first_pass<'a>(
                 field_names.insert(fname);
                 if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {
                     fields.push(field);
-                } else {
-                    break;
                 }
             }
             if fields.len() == s.0.len() {
-- 
2.43.0


From 95bb48f80dca09faed8b6429ebb2a4ae36368a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:55 +0000
Subject: [PATCH 06/19] fix: report a cycle instead of a missing declaration

A type whose resolution is still in progress is no longer in the list of
unresolved types. Depending on hash order it was reported as not
existing.
---
 src/lib/check.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index bf72da8..ce1d8c4 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -303,6 +303,13 @@ fn resolve_one_second_pass<'a>(
                     // it may fail, so propagate the error out
                     resolve_one_second_pass(ftype_name, utype, cache, visited, unresolved)?;
                 } else if !cache.contains_key(&ftype_name) {
+                    // its resolution has started but not finished, so it's a cycle
+                    if visited.contains(&ftype_name) {
+                        return Err(format!(
+                            "Found a cycle between two or more top level definitions in type '{}'",
+                            ftype_name
+                        ));
+                    }
                     //  if the field's typename is unresolved and not in the cache (resolved), it
                     // doesn't exist.
                     return Err(format!("Declaration for type '{}' does not exist", ftype_name));
-- 
2.43.0


From 0a8e82ad6572470b357bda2d343065b0e2fd6b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:00 +0000
Subject: [PATCH 07/19] fix: keep struct fields in declared order

Fields whose types were resolved late were moved behind the others, so
the wire layout of a struct depended on hash order.
---
 src/lib/check.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index ce1d8c4..581b5bb 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -281,7 +281,7 @@ fn resolve_one_second_pass<'a>(
         // store any field (+ its type) which could not be resolved
         let mut not_resolved = Vec::new();
         let mut fields = Vec::new();
-        for (field_name, field_type) in s.0.into_iter() {
+        for (field_name, field_type) in s.0.iter() {
             if let Some(field) = resolve_struct_field(field_name, field_type.clone(), cache, name)? {
                 fields.push(field);
             } else {
@@ -316,21 +316,13 @@ fn resolve_one_second_pass<'a>(
                 }
             }
             // if we get here, it means all the field's types were successfully resolved and
-            // placed in the cache so finish resolving our fields
-            let mut now_resolved = Vec::new();
-            for (fname, fty) in not_resolved.into_iter() {
-                now_resolved.push(resolve_struct_field(fname, fty, cache, name)?.unwrap());
+            // placed in the cache so resolve our fields again, in declared order
+            let mut fields = Vec::new();
+            for (fname, fty) in s.0.into_iter() {
+                fields.push(resolve_struct_field(fname, fty, cache, name)?.unwrap());
             }
             // and we have a complete type
-            cache.insert(
-                name,
-                Ptr::new((
-                    name,
-                    ResolvedType::Struct(Struct {
-                        fields: fields.into_iter().chain(now_resolved).collect(),
-                    }),
-                )),
-            );
+            cache.insert(name, Ptr::new((name, ResolvedType::Struct(Struct { fields }))));
         }
     } else {
         panic!(
-- 
2.43.0


From 9b978cea8997a03d726ff7e71224a716b7953cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:22 +0000
Subject: [PATCH 08/19] fix: generate type declarations in a fixed order

The declarations came out in hash-table order, so compiling the same
schema twice gave different modules.
---
 src/lib/gen/ts.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 200fbef..ffed186 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -329,7 +329,10 @@ impl Declaration for TypeScript {
 
         cat!(ctx, "export namespace {export} {{\n");
         cat!(ctx +++);
-        for (name, ty) in types.iter() {
+        // the order of a hash map is different in each run
+        let mut types = types.iter().collect::<Vec<_>>();
+        types.sort_by_key(|(name, _)| **name);
+        for (name, ty) in types {
             if *name == export {
                 continue;
             }
-- 
2.43.0


From e8c8ba8903a2967648c01f129c72c965327c8985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:26 +0000
Subject: [PATCH 09/19] fix: support the 32nd variant of an enum

Its declared value was negative, and the generated reader compared
against a negative maximum and refused every variant.
---
 src/lib/gen/ts.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index ffed186..4708216 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -175,8 +175,8 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         check::EnumRepr::U32 => "uint32",
     };
     let (min, max) = (
-        1 << type_info.variants[0].value,
-        1 << type_info.variants[type_info.variants.len() - 1].value,
+        1u32 << type_info.variants[0].value,
+        1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
     let temp = self::varname(&ctx.stack, "temp");
@@ -317,7 +317,9 @@ fn gen_enum_decl(ctx: &mut GenCtx, ty: &check::Enum, name: &str) {
     cat!(ctx, "export const enum {name} {{\n");
     cat!(ctx +++);
     for variant in ty.variants.iter() {
-        cat!(ctx, "{variant.name} = 1 << {variant.value},\n");
+        // the sign bit would make the value negative
+        let unsigned = if variant.value == 31 { " >>> 0" } else { "" };
+        cat!(ctx, "{variant.name} = 1 << {variant.value}{unsigned},\n");
     }
     cat!(ctx ---);
     cat!(ctx, "}}\n");
-- 
2.43.0


From 0fc6f8467192ea9a556d386a87c15fb3fb03eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:26 +0000
Subject: [PATCH 10/19] fix: refuse enum values that are not a variant

The generated reader accepted every number between the first and the
last variant.
---
 src/lib/gen/ts.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 4708216..abc6abf 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -181,7 +181,12 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
     let fname = self::fname(&ctx.stack);
     let temp = self::varname(&ctx.stack, "temp");
     cat!(ctx, "let {temp} = reader.read_{repr_name}();\n");
-    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\n");
+    // variants are single bits, which the range alone ensures for up to two of them
+    let single_bit = match type_info.variants.len() {
+        n if n > 2 => format_f!(" && ({temp} & ({temp} - 1)) === 0"),
+        _ => String::new(),
+    };
+    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}{single_bit}) {fname} = {temp};\n");
     cat!(ctx, "else reader.failed = true;\n");
 }
 
-- 
2.43.0


From 8e42034bdfbac2f00fd905f9a78597adbdb722cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:01 +0000
Subject: [PATCH 11/19] fix: never declare a local variable twice in generated
 code

---
 src/lib/gen/gen_ctx.rs |  4 ++++
 src/lib/gen/ts.rs      | 27 ++++++++++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/lib/gen/gen_ctx.rs b/src/lib/gen/gen_ctx.rs
index 27d36de..777a302 100644
--- a/src/lib/gen/gen_ctx.rs
+++ b/src/lib/gen/gen_ctx.rs
@@ -1,7 +1,10 @@
+use std::collections::HashSet;
+
 pub struct GenCtx<'a> {
     pub indentation: String,
     pub out: &'a mut String,
     pub stack: Vec<String>,
+    pub locals: HashSet<String>,
 }
 
 impl<'a> GenCtx<'a> {
@@ -10,6 +13,7 @@ impl<'a> GenCtx<'a> {
             indentation: String::new(),
             out,
             stack: Vec::new(),
+            locals: HashSet::new(),
         }
     }
 
diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index abc6abf..b23d0f1 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -21,9 +21,17 @@ fn varname(stack: &[String], name: &str) -> String { format!("{}_{}", stack.join
 fn bindname(stack: &[String]) -> String { stack.join("_") }
 fn fname(stack: &[String]) -> String { stack.join(".") }
 
+/// Names a local variable, different from all the others of the function
+fn local(ctx: &mut GenCtx, mut name: String) -> String {
+    while !ctx.locals.insert(name.clone()) {
+        name.push('_');
+    }
+    name
+}
+
 fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
+    let bind_var = local(ctx, bindname(&ctx.stack));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(bind_var.clone());
@@ -48,8 +56,8 @@ fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 
 fn gen_write_impl_array(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let item = varname(&ctx.stack, "item");
-    let index = varname(&ctx.stack, "index");
+    let item = local(ctx, varname(&ctx.stack, "item"));
+    let index = local(ctx, varname(&ctx.stack, "index"));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item.clone());
@@ -128,10 +136,10 @@ fn gen_read_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 }
 
 fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut GenCtx)) {
-    let len_var = varname(&ctx.stack, "len");
+    let len_var = local(ctx, varname(&ctx.stack, "len"));
     let fname = self::fname(&ctx.stack);
-    let idx_var = varname(&ctx.stack, "index");
-    let item_var = varname(&ctx.stack, "item");
+    let idx_var = local(ctx, varname(&ctx.stack, "index"));
+    let item_var = local(ctx, varname(&ctx.stack, "item"));
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item_var.clone());
@@ -156,7 +164,7 @@ fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut G
 fn gen_read_impl_builtin(ctx: &mut GenCtx, type_info: &check::Builtin, type_name: &str) {
     match type_info {
         check::Builtin::String => {
-            let len_var = varname(&ctx.stack, "len");
+            let len_var = local(ctx, varname(&ctx.stack, "len"));
             cat!(ctx, "let {len_var} = reader.read_uint32();\n");
             let fname = self::fname(&ctx.stack);
             cat!(ctx, "{fname} = reader.read_string({len_var});\n");
@@ -179,7 +187,7 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
-    let temp = self::varname(&ctx.stack, "temp");
+    let temp = local(ctx, varname(&ctx.stack, "temp"));
     cat!(ctx, "let {temp} = reader.read_{repr_name}();\n");
     // variants are single bits, which the range alone ensures for up to two of them
     let single_bit = match type_info.variants.len() {
@@ -192,8 +200,9 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
 
 fn gen_read_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str, init: bool) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
+    let mut bind_var = bindname(&ctx.stack);
     let old_stack = if init {
+        bind_var = local(ctx, bind_var);
         let mut old_stack = Vec::new();
         ctx.swap_stack(&mut old_stack);
         ctx.push_fname(bind_var.clone());
-- 
2.43.0


From 9fae193d10d9f92ec13b4f5f32b6e72896b0dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:32 +0000
Subject: [PATCH 12/19] fix: do not hide the exported class behind a local
 variable

---
 src/lib/gen/ts.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index b23d0f1..313e464 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -279,14 +279,17 @@ impl Impl for TypeScript {
         cat!(ctx ---);
         cat!(ctx, ") {{}}\n");
 
-        ctx.push_fname("output");
+        // the class must stay visible
+        ctx.locals.insert(export.name.to_string());
+        let output = local(&mut ctx, "output".to_string());
+        ctx.push_fname(output.clone());
         cat!(ctx, "static read(data: ArrayBuffer): {export.name} | null {{\n");
         cat!(ctx +++);
         cat!(ctx, "let reader = new Reader(data);\n");
-        cat!(ctx, "let output = Object.create({export.name});\n");
+        cat!(ctx, "let {output} = Object.create({export.name});\n");
         gen_read_impl_struct(&mut ctx, &export.r#struct, &export.name, false);
         cat!(ctx, "if (reader.failed) return null;\n");
-        cat!(ctx, "return output;\n");
+        cat!(ctx, "return {output};\n");
         cat!(ctx ---);
         cat!(ctx, "}}\n");
         ctx.pop_fname();
-- 
2.43.0


From b5d388532d3373d67b9e84e94a22b5314b026c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:46 +0000
Subject: [PATCH 13/19] fix: keep dots in the name of a single input file

The output of a.b.pkt was a.ts, so it collided with the output of a.pkt.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bedcf16..269f638 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -113,7 +113,7 @@ fn format_path(file: &Path, base_dir: &Path, out_dir: &Path, lang: Lang, preserv
         Ok(out_dir
             .components()
             // This should never panic
-            .chain(vec![Component::Normal(file.file_stem().unwrap())].into_iter())
+            .chain(vec![Component::Normal(file.file_name().unwrap())].into_iter())
             .collect::<PathBuf>()
             .with_extension(extension(lang)))
     }
-- 
2.43.0


From 291984e95849cae0ea69f395f9b2217837ddcfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:46 +0000
Subject: [PATCH 14/19] fix: write the output of an input file whose name
 starts with two dots

The path built for ..pkt was the parent of the output directory, so writing it failed.
---
 src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 269f638..1735efc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -102,21 +102,21 @@ fn save_one(schema: Schema, out: &Path) -> Result<()> {
 }
 
 fn format_path(file: &Path, base_dir: &Path, out_dir: &Path, lang: Lang, preserve_dir: bool) -> Result<PathBuf> {
-    if preserve_dir {
-        Ok(out_dir
+    let mut path = if preserve_dir {
+        out_dir
             .components()
             .chain(file.strip_prefix(base_dir)?.components())
             .collect::<PathBuf>()
-            .with_extension(extension(lang)))
     } else {
         println!("{}", out_dir.display());
-        Ok(out_dir
+        out_dir
             .components()
             // This should never panic
             .chain(vec![Component::Normal(file.file_name().unwrap())].into_iter())
             .collect::<PathBuf>()
-            .with_extension(extension(lang)))
-    }
+    };
+    path.set_extension(extension(lang));
+    Ok(path)
 }
 
 fn main() -> Result<()> {
-- 
2.43.0


From e4cd1f97aa9ade24cce43aeb8a5c66f80c21b5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:46 +0000
Subject: [PATCH 15/19] fix: report a directory name that is not UTF-8 instead
 of panicking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1735efc..dcf1df3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -50,7 +50,7 @@ fn visit_files(dir: &str, cb: &mut dyn FnMut(&fs::DirEntry) -> Result<()>) -> Re
             let entry = entry?;
             let path = entry.path();
             if path.is_dir() {
-                visit_files(path.to_str().unwrap(), cb)?;
+                visit_files(path.to_str().ok_or_else(|| anyhow::anyhow!("invalid path"))?, cb)?;
             } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {
                 cb(&entry)?;
             }
-- 
2.43.0


From ccfca3f45af5736394fac2233aa9cace7fa4f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:46 +0000
Subject: [PATCH 16/19] fix: report arguments that are not UTF-8 instead of
 panicking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index dcf1df3..151bfb0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -10,7 +10,7 @@ use anyhow::Result;
 use clap::Clap;
 
 #[derive(Clap)]
-#[clap(version = "1.0", author = "Jan P. <honza.spacir1@gmail.com>")]
+#[clap(version = "1.0", author = "Jan P. <honza.spacir1@gmail.com>", setting = clap::AppSettings::StrictUtf8)]
 struct Opts {
     lang: Lang,
     path: String,
-- 
2.43.0


From 5306b7f080c194f76a0e6b9b530cf3cb9d2d70e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:46 +0000
Subject: [PATCH 17/19] fix: report directory entries that cannot be looked up

A sub-directory whose metadata could not be read was skipped without an error.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 151bfb0..be8065b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,7 +49,7 @@ fn visit_files(dir: &str, cb: &mut dyn FnMut(&fs::DirEntry) -> Result<()>) -> Re
         for entry in fs::read_dir(dir)? {
             let entry = entry?;
             let path = entry.path();
-            if path.is_dir() {
+            if fs::metadata(&path)?.is_dir() {
                 visit_files(path.to_str().ok_or_else(|| anyhow::anyhow!("invalid path"))?, cb)?;
             } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {
                 cb(&entry)?;
-- 
2.43.0


From c5df83306fcc719273bfee14d81f369ab4995e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:46 +0000
Subject: [PATCH 18/19] fix: fail when the input path cannot be looked up

A missing input exited with status 0 and wrote nothing.
---
 src/main.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index be8065b..a0ade50 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -123,17 +123,16 @@ fn main() -> Result<()> {
     let opts = Opts::parse();
     let base_dir = PathBuf::from(opts.path.clone());
     let out_dir = PathBuf::from(opts.out.clone());
-    if let Ok(meta) = fs::metadata(&opts.path) {
-        if meta.is_dir() {
-            for result in run_all(opts.path.clone(), opts.lang)? {
-                let out = result.path.clone();
-                save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)?;
-            }
-        } else {
-            let result = run_one(opts.path.clone(), opts.lang)?;
+    let meta = fs::metadata(&opts.path)?;
+    if meta.is_dir() {
+        for result in run_all(opts.path.clone(), opts.lang)? {
             let out = result.path.clone();
-            save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
+            save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)?;
         }
+    } else {
+        let result = run_one(opts.path.clone(), opts.lang)?;
+        let out = result.path.clone();
+        save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
     }
 
     Ok(())
-- 
2.43.0


From d262b700e5abd8e637daf61a28d4c10c5c831a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:07:37 +0000
Subject: [PATCH 19/19] fix: refuse arguments that are not text instead of
 crashing on some of them

---
 src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index a0ade50..5667c0e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -120,6 +120,10 @@ fn format_path(file: &Path, base_dir: &Path, out_dir: &Path, lang: Lang, preserv
 }
 
 fn main() -> Result<()> {
+    // the argument parser crashes on option-like arguments that are not text
+    if std::env::args_os().skip(1).any(|arg| arg.to_str().is_none()) {
+        return Err(anyhow::anyhow!("invalid argument"));
+    }
     let opts = Opts::parse();
     let base_dir = PathBuf::from(opts.path.clone());
     let out_dir = PathBuf::from(opts.out.clone());
-- 
2.43.0

