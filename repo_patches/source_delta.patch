From 011b7adcfc68e5dbbe6a1b531620f830cf1bc592 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 01/15] fix: hook the left-hand side of assignments as well

---
 hooq-macros/src/impls/walker/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 0994516..e5c3109 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -492,6 +492,7 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 new_context: context,
             } = handle_inert_attrs(&mut expr_assign.attrs, context)?;
 
+            walk_expr(&mut expr_assign.left, &context)?;
             walk_expr(&mut expr_assign.right, &context)
         }
         Expr::Async(expr_async) => {
-- 
2.43.0


From d15fdd78e7318750562226a23fede92f1c1b78cb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 02/15] fix: skip inside skip_all no longer re-enables hooks in
 nested scopes

---
 hooq-macros/src/impls/inert_attr/context.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hooq-macros/src/impls/inert_attr/context.rs b/hooq-macros/src/impls/inert_attr/context.rs
index e915345..95cf094 100644
--- a/hooq-macros/src/impls/inert_attr/context.rs
+++ b/hooq-macros/src/impls/inert_attr/context.rs
@@ -222,10 +222,14 @@ impl HookContext {
     }
 
     pub fn updated_by_inert_attr(parent_context: &HookContext, inert_attr: InertAttribute) -> Self {
-        let skip_status = LocalContextField::from_parent(
-            inert_attr.get_skip_status().map(Option::Some),
-            &parent_context.local_context.skip_status,
-        );
+        let skip_status = match &**parent_context.local_context.skip_status {
+            // `skip` inside `skip_all` must not re-enable hooking in its sub scopes
+            Some(SkipStatus::SkipAll) => Rc::clone(&parent_context.local_context.skip_status),
+            _ => LocalContextField::from_parent(
+                inert_attr.get_skip_status().map(Option::Some),
+                &parent_context.local_context.skip_status,
+            ),
+        };
         let InertAttribute {
             method,
             hook_targets,
-- 
2.43.0


From 1e67424e096a3b575d43ea2ec00a694428996597 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 03/15] fix: take the position of a tail expression before its
 inner targets are rewritten

---
 hooq-macros/src/impls/walker/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index e5c3109..7b31d6f 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -71,6 +71,8 @@ fn handle_tail_expr(
     } = handle_inert_attrs(attrs, context)?;
 
     let source_tokenstream = expr.to_token_stream();
+    // walking may replace the expression, so the position has to be taken beforehand
+    let q_span = expr.span();
 
     walk_expr(expr, &context)?;
 
@@ -92,8 +94,6 @@ fn handle_tail_expr(
             && tail_expr_target_kind == TailExprTargetKind::FnBlockTailExpr
             && !is_not_target_call
     {
-        let q_span = expr.span();
-
         let _exc = hook_expr(
             !is_skipped,
             expr,
-- 
2.43.0


From 057909a6a47cb5ec3b6f21c14f12ffc0293de64f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 04/15] fix: a return without semicolon at the end of a block
 is hooked only once

---
 hooq-macros/src/impls/walker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 7b31d6f..cf9e64a 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -81,6 +81,11 @@ fn handle_tail_expr(
         return Ok(());
     }
 
+    // These never produce a tail value; the value of `return` has been hooked as a return target
+    if matches!(expr, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)) {
+        return Ok(());
+    }
+
     let TargetCallCheckBools {
         is_target_call,
         is_not_target_call,
-- 
2.43.0


From 1b3247663043c148b3fe621877430b6fb84a127b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 05/15] fix: keep the hooked operand together when the hook is
 attached to it

---
 hooq-macros/src/impls/method/render/mod.rs | 54 ++++++++++++++++++++--
 1 file changed, 51 insertions(+), 3 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 5a9be92..20c1f87 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -3,11 +3,12 @@ use std::str::FromStr;
 
 use meta_vars::{META_VARS_LIST, MetaVars};
 use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
-use quote::ToTokens;
+use quote::{ToTokens, quote};
 use syn::{Expr, Token, parse_quote};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
 use crate::impls::method::Method;
+use crate::impls::utils::get_attrs_from_expr;
 
 mod meta_vars;
 
@@ -18,6 +19,52 @@ fn get_file_name(q_span: Span) -> String {
     file.to_string()
 }
 
+/// Tokens of `expr` that stay together as one operand wherever they are placed.
+fn operand_token_stream(expr: &Expr) -> TokenStream {
+    match expr {
+        Expr::Array(_)
+        | Expr::Await(_)
+        | Expr::Call(_)
+        | Expr::Field(_)
+        | Expr::Group(_)
+        | Expr::Index(_)
+        | Expr::Lit(_)
+        | Expr::Macro(_)
+        | Expr::MethodCall(_)
+        | Expr::Paren(_)
+        | Expr::Path(_)
+        | Expr::Repeat(_)
+        | Expr::Try(_)
+        | Expr::Tuple(_) => expr.to_token_stream(),
+        _ => {
+            let mut expr = expr.clone();
+            let attrs = get_attrs_from_expr(&mut expr)
+                .map(std::mem::take)
+                .unwrap_or_default();
+
+            quote! { #(#attrs)* (#expr) }
+        }
+    }
+}
+
+/// As above, for an operand that is only followed by `.method`.
+fn receiver_token_stream(expr: &Expr) -> TokenStream {
+    match expr {
+        Expr::Async(_)
+        | Expr::Block(_)
+        | Expr::Const(_)
+        | Expr::ForLoop(_)
+        | Expr::If(_)
+        | Expr::Loop(_)
+        | Expr::Match(_)
+        | Expr::Struct(_)
+        | Expr::TryBlock(_)
+        | Expr::Unsafe(_)
+        | Expr::While(_) => expr.to_token_stream(),
+        _ => operand_token_stream(expr),
+    }
+}
+
 impl HookInfo<'_> {
     pub fn render_expr_with_method(
         &self,
@@ -44,10 +91,11 @@ impl HookInfo<'_> {
             Method::Insert(dot, method_template, exc) => {
                 let method = self.expand_meta_vars(expr, method_template, q_span, None)?;
                 let method = spanned(method, q_span);
+                let receiver = receiver_token_stream(expr);
 
                 (
                     parse_quote! {
-                        #expr #dot #method
+                        #receiver #dot #method
                     },
                     exc,
                 )
@@ -246,7 +294,7 @@ impl HookInfo<'_> {
                     #file
                 })
             }
-            Ok(MetaVars::Expr) => Ok(expr.to_token_stream()),
+            Ok(MetaVars::Expr) => Ok(operand_token_stream(expr)),
             Ok(MetaVars::Source) => {
                 let source_ts = self.source_tokenstream.clone();
 
-- 
2.43.0


From b8a5b188f5ad75688e576d1e6fe96e29d30a8996 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 06/15] fix: report a method that does not form an expression
 instead of panicking

---
 hooq-macros/src/impls/method/render/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 20c1f87..e27932b 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -4,7 +4,7 @@ use std::str::FromStr;
 use meta_vars::{META_VARS_LIST, MetaVars};
 use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
 use quote::{ToTokens, quote};
-use syn::{Expr, Token, parse_quote};
+use syn::{Expr, Token, parse_quote, parse2};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
 use crate::impls::method::Method;
@@ -94,9 +94,9 @@ impl HookInfo<'_> {
                 let receiver = receiver_token_stream(expr);
 
                 (
-                    parse_quote! {
+                    parse2(quote! {
                         #receiver #dot #method
-                    },
+                    })?,
                     exc,
                 )
             }
@@ -121,9 +121,9 @@ impl HookInfo<'_> {
                 let method = spanned(method, q_span);
 
                 (
-                    parse_quote! {
+                    parse2(quote! {
                         #method
-                    },
+                    })?,
                     exc,
                 )
             }
-- 
2.43.0


From 4f601e5835e47b5ef0e9605fbb7a4ca8a5414cdc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 07/15] fix: a flavor table without trait_uses keeps the
 inherited trait imports

---
 hooq-macros/src/impls/flavor/toml_load/apply.rs | 15 +++++++++------
 hooq-macros/src/impls/flavor/toml_load/mod.rs   |  3 +--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index 9e44bc2..5ea6faf 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -79,12 +79,15 @@ fn update_flavor_inner(
 
         let mut ignore_tail_expr_idents_setting = None;
 
-        let trait_uses = trait_uses
-            .into_iter()
-            .map(|path| syn::parse_str::<Path>(&path))
-            .collect::<syn::Result<Vec<_>>>()
-            .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
-        flavor.trait_uses = trait_uses;
+        if let Some(trait_uses) = trait_uses {
+            let trait_uses = trait_uses
+                .into_iter()
+                .map(|path| syn::parse_str::<Path>(&path))
+                .collect::<syn::Result<Vec<_>>>()
+                .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
+
+            flavor.trait_uses = trait_uses;
+        }
 
         if let Some(method) = method {
             let method_stream = syn::parse_str::<TokenStream>(&method)
diff --git a/hooq-macros/src/impls/flavor/toml_load/mod.rs b/hooq-macros/src/impls/flavor/toml_load/mod.rs
index f172b7a..3cc0530 100644
--- a/hooq-macros/src/impls/flavor/toml_load/mod.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/mod.rs
@@ -12,8 +12,7 @@ pub struct HooqToml {
 
 #[derive(Deserialize, Debug, Clone)]
 pub struct FlavorTable {
-    #[serde(default)]
-    pub trait_uses: Vec<String>,
+    pub trait_uses: Option<Vec<String>>,
     pub method: Option<String>,
     pub hook_targets: Option<Vec<String>>,
     pub tail_expr_idents: Option<Vec<String>>,
-- 
2.43.0


From f9a86337bbc9ccc083cb63a9c7e8f21b786d6d1b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 08/15] fix: keep inner attributes at the start of macro
 arguments

---
 hooq-macros/src/impls/walker/walk_macro.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/walker/walk_macro.rs b/hooq-macros/src/impls/walker/walk_macro.rs
index e7926c1..97a3bd6 100644
--- a/hooq-macros/src/impls/walker/walk_macro.rs
+++ b/hooq-macros/src/impls/walker/walk_macro.rs
@@ -46,14 +46,12 @@ fn handle_token_stream(
         .into_iter()
         .map(|(eval, punct)| {
             let eval_hooked = match eval {
-                Evaluable::File(file) => file
-                    .items
-                    .into_iter()
-                    .map(|mut item| {
-                        walk_item(&mut item, context)?;
-                        Ok(item.into_token_stream())
-                    })
-                    .collect::<syn::Result<_>>()?,
+                Evaluable::File(mut file) => {
+                    for item in file.items.iter_mut() {
+                        walk_item(item, context)?;
+                    }
+                    file.into_token_stream()
+                }
                 Evaluable::Expr(mut expr) => {
                     walk_expr(&mut expr, context)?;
                     expr.into_token_stream()
-- 
2.43.0


From 69d895393197718b810ed9dd5e0f3a5161f1ea4e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 09/15] fix: no extra blank lines after a multi-line literal in
 the pretty printer

---
 hooq-macros/src/impls/utils/source_excerpt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/utils/source_excerpt.rs b/hooq-macros/src/impls/utils/source_excerpt.rs
index 6393552..99b7790 100644
--- a/hooq-macros/src/impls/utils/source_excerpt.rs
+++ b/hooq-macros/src/impls/utils/source_excerpt.rs
@@ -336,7 +336,8 @@ fn into_pretty_str_inner(
 
         res.push_str(tt_str);
 
-        *current_line = Some(tt_line);
+        // a literal may span several lines itself
+        *current_line = Some(tt_line + tt_str.matches('\n').count());
         *current_column = Some(tt_end_column);
     }
 
-- 
2.43.0


From b92c13fb4cbdaf3a012e84828d68358e982c5fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 10/15] fix: list the available flavors in a fixed order

---
 hooq-macros/src/impls/flavor/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hooq-macros/src/impls/flavor/mod.rs b/hooq-macros/src/impls/flavor/mod.rs
index 57b7c49..df2e7b2 100644
--- a/hooq-macros/src/impls/flavor/mod.rs
+++ b/hooq-macros/src/impls/flavor/mod.rs
@@ -200,6 +200,9 @@ impl FlavorStore {
             collect_names(flavor, name, &mut names);
         }
 
+        // HashMap order differs between runs
+        names.sort();
+
         names
     }
 }
-- 
2.43.0


From 0bf400c11227da7bfc034c2eea83f4f3563d9142 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 11/15] fix: remove the tool's attributes from arms and other
 nodes without targets

---
 hooq-macros/src/impls/walker/mod.rs | 96 ++++++++++++++++++++---------
 1 file changed, 66 insertions(+), 30 deletions(-)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index cf9e64a..7e0d7bc 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -1,9 +1,11 @@
 use quote::ToTokens;
 use syn::spanned::Spanned;
 use syn::{
-    Expr, ExprCall, ExprMacro, ExprPath, ImplItem, ImplItemConst, ImplItemMacro, Item, ItemConst,
-    ItemMacro, ItemMod, ItemStatic, Local, LocalInit, Stmt, StmtMacro, TraitItem, TraitItemConst,
-    TraitItemFn, TraitItemMacro,
+    Attribute, Expr, ExprCall, ExprContinue, ExprInfer, ExprLit, ExprMacro, ExprPath, ImplItem,
+    ImplItemConst, ImplItemMacro, ImplItemType, Item, ItemConst, ItemEnum, ItemExternCrate,
+    ItemForeignMod, ItemMacro, ItemMod, ItemStatic, ItemStruct, ItemTraitAlias, ItemType,
+    ItemUnion, ItemUse, Local, LocalInit, Stmt, StmtMacro, TraitItem, TraitItemConst, TraitItemFn,
+    TraitItemMacro, TraitItemType,
 };
 
 use crate::impls::inert_attr::context::{HookContext, HookTargetKind};
@@ -57,6 +59,11 @@ fn target_call_check_bools(context: &HookContext, expr: &Expr) -> TargetCallChec
     }
 }
 
+// Nothing below these nodes can be hooked, but hooq's own attributes must not be left in the output
+fn remove_inert_attrs(attrs: &mut Vec<Attribute>, context: &HookContext) -> syn::Result<()> {
+    handle_inert_attrs(attrs, context).map(|_| ())
+}
+
 fn handle_tail_expr(
     expr: &mut Expr,
     context: &HookContext,
@@ -154,8 +161,10 @@ fn walk_stmt(
             semi_token: _,
         }) => walk_macro(attrs, mac, context),
 
-        // 以下では何もしない
-        Stmt::Local(Local { init: None, .. }) => Ok(()),
+        // 以下ではフックするものはないが、属性は取り除く
+        Stmt::Local(Local {
+            attrs, init: None, ..
+        }) => remove_inert_attrs(attrs, context),
     }
 }
 
@@ -254,8 +263,13 @@ pub fn walk_item(item: &mut Item, context: &HookContext) -> syn::Result<()> {
                             semi_token: _,
                         }) => walk_macro(attrs, mac, &context),
 
+                        // 以下ではフックするものはないが、属性は取り除く
+                        ImplItem::Type(ImplItemType { attrs, .. }) => {
+                            remove_inert_attrs(attrs, &context)
+                        }
+
                         // 以下の場合何もしない
-                        ImplItem::Type(_) | ImplItem::Verbatim(_) | _ => Ok(()),
+                        ImplItem::Verbatim(_) | _ => Ok(()),
                     }
                 })
                 .collect::<syn::Result<Vec<()>>>()?;
@@ -353,12 +367,23 @@ pub fn walk_item(item: &mut Item, context: &HookContext) -> syn::Result<()> {
                             semi_token: _,
                         }) => walk_macro(attrs, mac, &context),
 
+                        // 以下ではフックするものはないが、属性は取り除く
+                        TraitItem::Const(TraitItemConst {
+                            attrs,
+                            default: None,
+                            ..
+                        })
+                        | TraitItem::Fn(TraitItemFn {
+                            attrs,
+                            default: None,
+                            ..
+                        })
+                        | TraitItem::Type(TraitItemType { attrs, .. }) => {
+                            remove_inert_attrs(attrs, &context)
+                        }
+
                         // 以下の場合何もしない
-                        TraitItem::Const(TraitItemConst { default: None, .. })
-                        | TraitItem::Fn(TraitItemFn { default: None, .. })
-                        | TraitItem::Type(_)
-                        | TraitItem::Verbatim(_)
-                        | _ => Ok(()),
+                        TraitItem::Verbatim(_) | _ => Ok(()),
                     }
                 })
                 .collect::<syn::Result<Vec<()>>>()?;
@@ -376,25 +401,30 @@ pub fn walk_item(item: &mut Item, context: &HookContext) -> syn::Result<()> {
                 // ident がSomeということは
                 // macro_rules! の定義である
                 // ここにフックする必要はない
-                return Ok(());
+                return remove_inert_attrs(attrs, context);
             }
 
             walk_macro(attrs, mac, context)
         }
 
-        // 以下では何もしない
+        // 以下ではフックするものはないが、属性は取り除く
         // Item::TraitAlias は将来のために予約された要素
-        Item::Enum(_)
-        | Item::ExternCrate(_)
-        | Item::ForeignMod(_)
-        | Item::Mod(ItemMod { content: None, .. })
-        | Item::Struct(_)
-        | Item::TraitAlias(_)
-        | Item::Type(_)
-        | Item::Union(_)
-        | Item::Use(_)
-        | Item::Verbatim(_)
-        | _ => Ok(()),
+        Item::Enum(ItemEnum { attrs, .. })
+        | Item::ExternCrate(ItemExternCrate { attrs, .. })
+        | Item::ForeignMod(ItemForeignMod { attrs, .. })
+        | Item::Mod(ItemMod {
+            attrs,
+            content: None,
+            ..
+        })
+        | Item::Struct(ItemStruct { attrs, .. })
+        | Item::TraitAlias(ItemTraitAlias { attrs, .. })
+        | Item::Type(ItemType { attrs, .. })
+        | Item::Union(ItemUnion { attrs, .. })
+        | Item::Use(ItemUse { attrs, .. }) => remove_inert_attrs(attrs, context),
+
+        // 以下では何もしない
+        Item::Verbatim(_) | _ => Ok(()),
     }
 }
 
@@ -812,6 +842,11 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 .arms
                 .iter_mut()
                 .map(|arm| {
+                    let HandleInertAttrsResult {
+                        is_skipped: _,
+                        new_context: context,
+                    } = handle_inert_attrs(&mut arm.attrs, &context)?;
+
                     if let Some((_, guard)) = arm.guard.as_mut() {
                         walk_expr(guard, &context)?;
                     }
@@ -1042,12 +1077,13 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
 
         Expr::Macro(ExprMacro { attrs, mac }) => walk_macro(attrs, mac, context),
 
+        // 以下ではフックするものはないが、属性は取り除く
+        Expr::Continue(ExprContinue { attrs, .. })
+        | Expr::Infer(ExprInfer { attrs, .. })
+        | Expr::Lit(ExprLit { attrs, .. })
+        | Expr::Path(ExprPath { attrs, .. }) => remove_inert_attrs(attrs, context),
+
         // 以下では何もしない
-        Expr::Continue(_)
-        | Expr::Infer(_)
-        | Expr::Lit(_)
-        | Expr::Path(_)
-        | Expr::Verbatim(_)
-        | _ => Ok(()),
+        Expr::Verbatim(_) | _ => Ok(()),
     }
 }
-- 
2.43.0


From 1f1b831770ffd4310da95a4a2836b6fcfa374984 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 12/15] fix: keep the attributes of a consumed question mark
 expression

---
 hooq-macros/src/impls/walker/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 7e0d7bc..e810674 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -458,7 +458,16 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
 
                 match exc {
                     // ? を消去
-                    Some(_) => Some(*expr_try.expr.clone()),
+                    Some(_) => {
+                        let mut new_expr = *expr_try.expr.clone();
+
+                        // the attributes written in front of the whole `?` expression stay
+                        if let Some(attrs) = get_attrs_from_expr(&mut new_expr) {
+                            attrs.splice(0..0, expr_try.attrs.drain(..));
+                        }
+
+                        Some(new_expr)
+                    }
                     // ? を残す
                     None => None,
                 }
-- 
2.43.0


From bf436d35f98779a66f86fd49fc726d94798db758 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 13/15] fix: a `$` at the end of a method is an error

---
 hooq-macros/src/impls/method/render/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index e27932b..c9b398d 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -143,8 +143,11 @@ impl HookInfo<'_> {
     ) -> syn::Result<TokenStream> {
         let mut res: TokenStream = TokenStream::new();
         let mut next_is_replace_target = false;
+        let mut last_span = q_span;
 
         for tt in ts.into_iter() {
+            last_span = tt.span();
+
             match tt {
                 TokenTree::Punct(punct) => {
                     if next_is_replace_target {
@@ -200,6 +203,10 @@ impl HookInfo<'_> {
             }
         }
 
+        if next_is_replace_target {
+            return Err(syn::Error::new(last_span, "nothing follows `$`"));
+        }
+
         Ok(res)
     }
 
-- 
2.43.0


From 1ab1ea74ddb3952c89cce37f862a063f24e93d79 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 14/15] fix: keep an operand that starts with a struct literal
 together

---
 hooq-macros/src/impls/method/render/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index c9b398d..e1cb333 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -19,6 +19,21 @@ fn get_file_name(q_span: Span) -> String {
     file.to_string()
 }
 
+/// Whether the leftmost part of the postfix chain `expr` is a struct literal,
+/// which must not stand bare in the head of `match`, `if` and so on.
+fn starts_with_struct_literal(expr: &Expr) -> bool {
+    match expr {
+        Expr::Struct(_) => true,
+        Expr::Await(e) => starts_with_struct_literal(&e.base),
+        Expr::Call(e) => starts_with_struct_literal(&e.func),
+        Expr::Field(e) => starts_with_struct_literal(&e.base),
+        Expr::Index(e) => starts_with_struct_literal(&e.expr),
+        Expr::MethodCall(e) => starts_with_struct_literal(&e.receiver),
+        Expr::Try(e) => starts_with_struct_literal(&e.expr),
+        _ => false,
+    }
+}
+
 /// Tokens of `expr` that stay together as one operand wherever they are placed.
 fn operand_token_stream(expr: &Expr) -> TokenStream {
     match expr {
@@ -35,7 +50,11 @@ fn operand_token_stream(expr: &Expr) -> TokenStream {
         | Expr::Path(_)
         | Expr::Repeat(_)
         | Expr::Try(_)
-        | Expr::Tuple(_) => expr.to_token_stream(),
+        | Expr::Tuple(_)
+            if !starts_with_struct_literal(expr) =>
+        {
+            expr.to_token_stream()
+        }
         _ => {
             let mut expr = expr.clone();
             let attrs = get_attrs_from_expr(&mut expr)
-- 
2.43.0


From b7f3123263a74d791a9b746feb1cf1da9727610b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 15/15] fix: keep inner attributes of an operand valid when it
 is parenthesised

---
 hooq-macros/src/impls/method/render/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index e1cb333..fe8763b 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -4,7 +4,7 @@ use std::str::FromStr;
 use meta_vars::{META_VARS_LIST, MetaVars};
 use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
 use quote::{ToTokens, quote};
-use syn::{Expr, Token, parse_quote, parse2};
+use syn::{AttrStyle, Expr, Token, parse_quote, parse2};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
 use crate::impls::method::Method;
@@ -57,10 +57,15 @@ fn operand_token_stream(expr: &Expr) -> TokenStream {
         }
         _ => {
             let mut expr = expr.clone();
-            let attrs = get_attrs_from_expr(&mut expr)
+            let mut attrs = get_attrs_from_expr(&mut expr)
                 .map(std::mem::take)
                 .unwrap_or_default();
 
+            // an inner attribute (`match x { #![..] .. }`) is only valid inside the expression
+            for attr in &mut attrs {
+                attr.style = AttrStyle::Outer;
+            }
+
             quote! { #(#attrs)* (#expr) }
         }
     }
-- 
2.43.0

