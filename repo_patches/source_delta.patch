From 903bee4991175d5d37d601b0ffd09df3073b9d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 01/16] fix: hook `?` on the left side of an assignment

---
 hooq-macros/src/impls/walker/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 0994516..e5c3109 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -492,6 +492,7 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 new_context: context,
             } = handle_inert_attrs(&mut expr_assign.attrs, context)?;
 
+            walk_expr(&mut expr_assign.left, &context)?;
             walk_expr(&mut expr_assign.right, &context)
         }
         Expr::Async(expr_async) => {
-- 
2.43.0


From be7c1f275745aed87d7e383da95c52db2bac1f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 02/16] fix: do not hook the operand of a trailing `return`
 twice

---
 hooq-macros/src/impls/walker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index e5c3109..aba2017 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -79,6 +79,11 @@ fn handle_tail_expr(
         return Ok(());
     }
 
+    // return の値は walk_expr でフック済みのため、二重にフックしない
+    if matches!(expr, Expr::Return(_)) {
+        return Ok(());
+    }
+
     let TargetCallCheckBools {
         is_target_call,
         is_not_target_call,
-- 
2.43.0


From 3d115dd8997d65a39a1fc0c86a277507ab361b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 03/16] fix: keep `skip_all` in effect below an inner `skip`

---
 hooq-macros/src/impls/inert_attr/context.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hooq-macros/src/impls/inert_attr/context.rs b/hooq-macros/src/impls/inert_attr/context.rs
index e915345..106c6ce 100644
--- a/hooq-macros/src/impls/inert_attr/context.rs
+++ b/hooq-macros/src/impls/inert_attr/context.rs
@@ -222,10 +222,14 @@ impl HookContext {
     }
 
     pub fn updated_by_inert_attr(parent_context: &HookContext, inert_attr: InertAttribute) -> Self {
-        let skip_status = LocalContextField::from_parent(
-            inert_attr.get_skip_status().map(Option::Some),
-            &parent_context.local_context.skip_status,
-        );
+        // skip_all の範囲内では skip が付いていても skip_all のまま
+        let skip_status = match &**parent_context.local_context.skip_status {
+            Some(SkipStatus::SkipAll) => Rc::clone(&parent_context.local_context.skip_status),
+            _ => LocalContextField::from_parent(
+                inert_attr.get_skip_status().map(Option::Some),
+                &parent_context.local_context.skip_status,
+            ),
+        };
         let InertAttribute {
             method,
             hook_targets,
-- 
2.43.0


From e3c556b7f814f9c94375623cacf729bc3fa554c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 04/16] fix: insert the hook after the whole `return`/tail
 operand

---
 hooq-macros/src/impls/method/render/mod.rs | 32 +++++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 5a9be92..eb236ee 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -18,6 +18,25 @@ fn get_file_name(q_span: Span) -> String {
     file.to_string()
 }
 
+// `.method()` をそのまま続けると一部の項にしか掛からない式
+fn binds_looser_than_method_call(expr: &Expr) -> bool {
+    matches!(
+        expr,
+        Expr::Assign(_)
+            | Expr::Binary(_)
+            | Expr::Break(_)
+            | Expr::Cast(_)
+            | Expr::Closure(_)
+            | Expr::Let(_)
+            | Expr::Range(_)
+            | Expr::RawAddr(_)
+            | Expr::Reference(_)
+            | Expr::Return(_)
+            | Expr::Unary(_)
+            | Expr::Yield(_)
+    )
+}
+
 impl HookInfo<'_> {
     pub fn render_expr_with_method(
         &self,
@@ -45,12 +64,17 @@ impl HookInfo<'_> {
                 let method = self.expand_meta_vars(expr, method_template, q_span, None)?;
                 let method = spanned(method, q_span);
 
-                (
+                let new_expr = if binds_looser_than_method_call(expr) {
+                    parse_quote! {
+                        (#expr) #dot #method
+                    }
+                } else {
                     parse_quote! {
                         #expr #dot #method
-                    },
-                    exc,
-                )
+                    }
+                };
+
+                (new_expr, exc)
             }
             Method::Replace(method_template, exc) => {
                 /*
-- 
2.43.0


From 110365486a805e1b84d215b621132c7e81a59d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 05/16] fix: report a hook that does not form an expression
 instead of panicking

---
 hooq-macros/src/impls/method/render/mod.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index eb236ee..a4db4e1 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -3,7 +3,7 @@ use std::str::FromStr;
 
 use meta_vars::{META_VARS_LIST, MetaVars};
 use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
-use quote::ToTokens;
+use quote::{ToTokens, quote};
 use syn::{Expr, Token, parse_quote};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
@@ -65,16 +65,16 @@ impl HookInfo<'_> {
                 let method = spanned(method, q_span);
 
                 let new_expr = if binds_looser_than_method_call(expr) {
-                    parse_quote! {
+                    quote! {
                         (#expr) #dot #method
                     }
                 } else {
-                    parse_quote! {
+                    quote! {
                         #expr #dot #method
                     }
                 };
 
-                (new_expr, exc)
+                (syn::parse2(new_expr)?, exc)
             }
             Method::Replace(method_template, exc) => {
                 /*
@@ -96,12 +96,7 @@ impl HookInfo<'_> {
                 let method = self.expand_meta_vars(expr, method_template, q_span, None)?;
                 let method = spanned(method, q_span);
 
-                (
-                    parse_quote! {
-                        #method
-                    },
-                    exc,
-                )
+                (syn::parse2(method)?, exc)
             }
         };
 
-- 
2.43.0


From 672f57fc2f2187f706aa4c330cc8acc81697f129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 06/16] fix: do not repeat the line breaks of a multi-line
 literal in pretty strings

---
 hooq-macros/src/impls/utils/source_excerpt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/utils/source_excerpt.rs b/hooq-macros/src/impls/utils/source_excerpt.rs
index 6393552..f6e1414 100644
--- a/hooq-macros/src/impls/utils/source_excerpt.rs
+++ b/hooq-macros/src/impls/utils/source_excerpt.rs
@@ -336,7 +336,8 @@ fn into_pretty_str_inner(
 
         res.push_str(tt_str);
 
-        *current_line = Some(tt_line);
+        // 複数行にわたるトークン (文字列リテラル等) は改行込みで出力済み
+        *current_line = Some(tt_line + tt_str.matches('\n').count());
         *current_column = Some(tt_end_column);
     }
 
-- 
2.43.0


From 9241e88cc3ea20ba6e0947a6585c959f28309a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 07/16] fix: size the line-number gutter by the last line of
 the excerpt

---
 hooq-macros/src/impls/utils/source_excerpt.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hooq-macros/src/impls/utils/source_excerpt.rs b/hooq-macros/src/impls/utils/source_excerpt.rs
index f6e1414..02aa478 100644
--- a/hooq-macros/src/impls/utils/source_excerpt.rs
+++ b/hooq-macros/src/impls/utils/source_excerpt.rs
@@ -53,7 +53,6 @@ pub fn into_pretty_str(
     let mut current_column: Option<usize> = None;
 
     let start_line = expr.span().start().line;
-    let end_line = expr.span().end().line;
 
     let res = into_pretty_str_inner(
         expr.into_token_stream(),
@@ -63,7 +62,7 @@ pub fn into_pretty_str(
     );
 
     if show_line_num {
-        add_line_prefix(&res, start_line, end_line, top_padding, bottom_padding)
+        add_line_prefix(&res, start_line, top_padding, bottom_padding)
     } else {
         IntoPrettyStrRes {
             body: res,
@@ -425,10 +424,13 @@ fn delim_end(d: Delimiter) -> &'static str {
 fn add_line_prefix(
     s: &str,
     start_line: usize,
-    end_line: usize,
     top_padding: bool,
     bottom_padding: bool,
 ) -> IntoPrettyStrRes {
+    // NOTE:
+    // stable では Span::join できず expr.span().end() が先頭トークンの終端となるため、
+    // 最終行の行番号は行数から求める
+    let end_line = start_line + s.lines().count().saturating_sub(1);
     let padding_num = end_line.to_string().chars().count().max(4);
     let mut res = Vec::new();
     let mut index = start_line;
-- 
2.43.0


From 32fb11f92693974dcddad62dcb6264c7e9f11497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 08/16] fix: keep the inherited trait_uses when a flavor table
 does not set them

---
 hooq-macros/src/impls/flavor/toml_load/apply.rs | 15 +++++++++------
 hooq-macros/src/impls/flavor/toml_load/mod.rs   |  3 +--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index 9e44bc2..5ea6faf 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -79,12 +79,15 @@ fn update_flavor_inner(
 
         let mut ignore_tail_expr_idents_setting = None;
 
-        let trait_uses = trait_uses
-            .into_iter()
-            .map(|path| syn::parse_str::<Path>(&path))
-            .collect::<syn::Result<Vec<_>>>()
-            .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
-        flavor.trait_uses = trait_uses;
+        if let Some(trait_uses) = trait_uses {
+            let trait_uses = trait_uses
+                .into_iter()
+                .map(|path| syn::parse_str::<Path>(&path))
+                .collect::<syn::Result<Vec<_>>>()
+                .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
+
+            flavor.trait_uses = trait_uses;
+        }
 
         if let Some(method) = method {
             let method_stream = syn::parse_str::<TokenStream>(&method)
diff --git a/hooq-macros/src/impls/flavor/toml_load/mod.rs b/hooq-macros/src/impls/flavor/toml_load/mod.rs
index f172b7a..3cc0530 100644
--- a/hooq-macros/src/impls/flavor/toml_load/mod.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/mod.rs
@@ -12,8 +12,7 @@ pub struct HooqToml {
 
 #[derive(Deserialize, Debug, Clone)]
 pub struct FlavorTable {
-    #[serde(default)]
-    pub trait_uses: Vec<String>,
+    pub trait_uses: Option<Vec<String>>,
     pub method: Option<String>,
     pub hook_targets: Option<Vec<String>>,
     pub tail_expr_idents: Option<Vec<String>>,
-- 
2.43.0


From 02b539ac74fd80bff41c7882d1582378589901dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 09/16] fix: list the available flavors in a fixed order

---
 hooq-macros/src/impls/flavor/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hooq-macros/src/impls/flavor/mod.rs b/hooq-macros/src/impls/flavor/mod.rs
index 57b7c49..2e2252e 100644
--- a/hooq-macros/src/impls/flavor/mod.rs
+++ b/hooq-macros/src/impls/flavor/mod.rs
@@ -200,6 +200,9 @@ impl FlavorStore {
             collect_names(flavor, name, &mut names);
         }
 
+        // NOTE: HashMap の順序に依存せず、実行ごとに同じ結果とするためソート
+        names.sort();
+
         names
     }
 }
-- 
2.43.0


From c8b5937480b4be14b3cea3c0475ac038e6811465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 10/16] fix: keep inner attributes of items written in macro
 calls

---
 hooq-macros/src/impls/walker/walk_macro.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/walker/walk_macro.rs b/hooq-macros/src/impls/walker/walk_macro.rs
index e7926c1..97a3bd6 100644
--- a/hooq-macros/src/impls/walker/walk_macro.rs
+++ b/hooq-macros/src/impls/walker/walk_macro.rs
@@ -46,14 +46,12 @@ fn handle_token_stream(
         .into_iter()
         .map(|(eval, punct)| {
             let eval_hooked = match eval {
-                Evaluable::File(file) => file
-                    .items
-                    .into_iter()
-                    .map(|mut item| {
-                        walk_item(&mut item, context)?;
-                        Ok(item.into_token_stream())
-                    })
-                    .collect::<syn::Result<_>>()?,
+                Evaluable::File(mut file) => {
+                    for item in file.items.iter_mut() {
+                        walk_item(item, context)?;
+                    }
+                    file.into_token_stream()
+                }
                 Evaluable::Expr(mut expr) => {
                     walk_expr(&mut expr, context)?;
                     expr.into_token_stream()
-- 
2.43.0


From 13a3c9a0030f864a9c7b22da72928dd48ec21575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 11/16] fix: keep attributes of a `?` expression when its `?`
 is consumed

---
 hooq-macros/src/impls/walker/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index aba2017..03a392b 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -427,8 +427,13 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 )?;
 
                 match exc {
-                    // ? を消去
-                    Some(_) => Some(*expr_try.expr.clone()),
+                    // ? を消去 (属性は残す)
+                    Some(_) => {
+                        let attrs = &expr_try.attrs;
+                        let expr = &expr_try.expr;
+
+                        Some(syn::parse2(quote::quote!(#(#attrs)* #expr))?)
+                    }
                     // ? を残す
                     None => None,
                 }
-- 
2.43.0


From 05d7e13e567361eedad055a7cac7515eab980df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 12/16] fix: report the same hooq.toml mistake first in every
 build

---
 hooq-macros/src/impls/flavor/toml_load/apply.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index 5ea6faf..619dc08 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::rc::Rc;
 
 use proc_macro2::TokenStream;
@@ -37,6 +37,9 @@ fn update_flavor_inner(
     flavor_tables: HashMap<String, FlavorTable>,
     base_flavor: &Flavor,
 ) -> Result<(), String> {
+    // NOTE: HashMap の順序に依存せず、実行ごとに同じエラーを報告するためソート
+    let flavor_tables: BTreeMap<_, _> = flavor_tables.into_iter().collect();
+
     for (
         flavor_name,
         FlavorTable {
@@ -138,6 +141,7 @@ expected: "?", "return", "tail_expr""#,
             flavor.hook_in_macros = hook_in_macros;
         }
 
+        let bindings: BTreeMap<_, _> = bindings.into_iter().collect();
         let bindings = bindings
             .into_iter()
             .map(|(k, v)| {
-- 
2.43.0


From 758c269d249410198f9c6a498ca35c35fb89d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 13/16] fix: reach HooqMeta under the name hooq is imported by

---
 hooq-macros/src/impls/method/render/mod.rs         |  8 ++++++--
 hooq-macros/src/impls/utils/get_hooq_crate_name.rs | 10 ++++++++++
 hooq-macros/src/impls/utils/mod.rs                 |  2 +-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index a4db4e1..2db49c0 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -8,6 +8,7 @@ use syn::{Expr, Token, parse_quote};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
 use crate::impls::method::Method;
+use crate::impls::utils::get_hooq_facade_path;
 
 mod meta_vars;
 
@@ -203,6 +204,8 @@ impl HookInfo<'_> {
     }
 
     fn get_bindings_token_stream(&self) -> TokenStream {
+        let hooq_path = get_hooq_facade_path();
+
         let tuples = self
             .available_bindings()
             .into_iter()
@@ -214,7 +217,7 @@ impl HookInfo<'_> {
                         let expr = ::std::string::ToString::to_string(#expr);
                         let value: ::std::rc::Rc<dyn ::std::any::Any> = ::std::rc::Rc::new(#v);
 
-                        ::hooq::BindingPayload {
+                        #hooq_path ::BindingPayload {
                             expr,
                             value,
                         }
@@ -321,9 +324,10 @@ impl HookInfo<'_> {
                 let source_str = self.source_tokenstream.to_string();
                 let count = self.get_count();
                 let bindings = self.get_bindings_token_stream();
+                let hooq_path = get_hooq_facade_path();
 
                 Ok(parse_quote! {
-                    ::hooq::HooqMeta {
+                    #hooq_path ::HooqMeta {
                         line: #line,
                         column: #column,
                         path: #path,
diff --git a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
index faaaba4..97228b9 100644
--- a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
+++ b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
@@ -17,6 +17,16 @@ pub fn get_hooq_crate_name() -> &'static str {
     })
 }
 
+// `HooqMeta` などの型が置かれているファサードのパス
+pub fn get_hooq_facade_path() -> Path {
+    let crate_name = match get_hooq_crate_name() {
+        "hooq_macros" => "hooq", // 型はファサードにしかない
+        crate_name => crate_name,
+    };
+
+    syn::parse_str::<Path>(&format!("::{crate_name}")).unwrap()
+}
+
 pub fn get_source_excerpt_helpers_name_space() -> Path {
     let crate_name = get_hooq_crate_name();
 
diff --git a/hooq-macros/src/impls/utils/mod.rs b/hooq-macros/src/impls/utils/mod.rs
index e2bf711..2f244e0 100644
--- a/hooq-macros/src/impls/utils/mod.rs
+++ b/hooq-macros/src/impls/utils/mod.rs
@@ -8,7 +8,7 @@ mod source_excerpt;
 pub mod source_excerpt_macros;
 pub mod unexpected_error_message;
 
-pub use get_hooq_crate_name::get_source_excerpt_helpers_name_space;
+pub use get_hooq_crate_name::{get_hooq_facade_path, get_source_excerpt_helpers_name_space};
 
 pub fn path_is_end_of(path: &Path, target: &str) -> bool {
     path.segments
-- 
2.43.0


From 7c0d60bda1463203e138ade5248e29c3afaca791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 14/16] fix: look up the name of hooq per project, not once per
 process

---
 .../src/impls/utils/get_hooq_crate_name.rs    | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
index 97228b9..d40f64a 100644
--- a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
+++ b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
@@ -1,25 +1,23 @@
-use std::sync::OnceLock;
-
 use proc_macro_crate::{FoundCrate, crate_name};
 use syn::Path;
 
-pub fn get_hooq_crate_name() -> &'static str {
-    static RES: OnceLock<String> = OnceLock::new();
-
-    RES.get_or_init(|| {
-        let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
-
-        match found_crate {
-            Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
-            Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
-            Err(_) => "hooq".to_string(),
-        }
-    })
+// NOTE:
+// rust-analyzer では1つのプロセスで複数のプロジェクトが展開されるため、
+// ここで結果を保持してはならない (`crate_name` がプロジェクトごとにキャッシュしている)
+pub fn get_hooq_crate_name() -> String {
+    let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
+
+    match found_crate {
+        Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
+        Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
+        Err(_) => "hooq".to_string(),
+    }
 }
 
 // `HooqMeta` などの型が置かれているファサードのパス
 pub fn get_hooq_facade_path() -> Path {
-    let crate_name = match get_hooq_crate_name() {
+    let crate_name = get_hooq_crate_name();
+    let crate_name = match crate_name.as_str() {
         "hooq_macros" => "hooq", // 型はファサードにしかない
         crate_name => crate_name,
     };
@@ -30,7 +28,7 @@ pub fn get_hooq_facade_path() -> Path {
 pub fn get_source_excerpt_helpers_name_space() -> Path {
     let crate_name = get_hooq_crate_name();
 
-    let source_excerpt_helpers_name_space = match crate_name {
+    let source_excerpt_helpers_name_space = match crate_name.as_str() {
         "hooq_macros" => "",
         _ => "::source_excerpt_helpers",
     };
-- 
2.43.0


From 54655bf755db32e6fb55252aec47e0502c68cd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 15/16] fix: do not capture a user's variable named expr in
 bindings

---
 hooq-macros/src/impls/method/render/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 2db49c0..0e646ad 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -212,13 +212,18 @@ impl HookInfo<'_> {
             .map(|(k, v)| -> TokenStream {
                 let expr = v.to_token_stream().to_string();
 
+                // NOTE:
+                // #v がユーザーの変数 `expr` を参照している可能性があるので、
+                // ここで定義するローカル変数が #v から見えないようにする
+                let expr_var = Ident::new("expr", Span::mixed_site());
+
                 parse_quote! {
                     (::std::string::ToString::to_string(#k), {
-                        let expr = ::std::string::ToString::to_string(#expr);
+                        let #expr_var = ::std::string::ToString::to_string(#expr);
                         let value: ::std::rc::Rc<dyn ::std::any::Any> = ::std::rc::Rc::new(#v);
 
                         #hooq_path ::BindingPayload {
-                            expr,
+                            #expr_var,
                             value,
                         }
                     })
-- 
2.43.0


From a47714f6078e601c6c4633c0ce3742ce21e15415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 16/16] fix: report a $ with nothing behind it in a hook

---
 hooq-macros/src/impls/method/render/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 0e646ad..08fbb53 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -115,6 +115,7 @@ impl HookInfo<'_> {
     ) -> syn::Result<TokenStream> {
         let mut res: TokenStream = TokenStream::new();
         let mut next_is_replace_target = false;
+        let mut last_dollar_span = q_span;
 
         for tt in ts.into_iter() {
             match tt {
@@ -124,7 +125,10 @@ impl HookInfo<'_> {
                     }
 
                     match punct.as_char() {
-                        '$' => next_is_replace_target = true,
+                        '$' => {
+                            next_is_replace_target = true;
+                            last_dollar_span = punct.span();
+                        }
                         _ => res.extend([TokenTree::Punct(punct)]),
                     }
                 }
@@ -172,6 +176,13 @@ impl HookInfo<'_> {
             }
         }
 
+        if next_is_replace_target {
+            return Err(syn::Error::new(
+                last_dollar_span,
+                "expected a meta variable or binding after `$`",
+            ));
+        }
+
         Ok(res)
     }
 
-- 
2.43.0

