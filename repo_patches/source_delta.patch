From da1bd43a58be38e248b6452b3da62fa2219cce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 01/22] fix: restore traversal state after a logical expression

---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 .../swc-coverage-instrument/src/visitors/logical_expr_visitor.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index d47d647..0b96c14 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -869,6 +869,7 @@ macro_rules! instrumentation_visitor {
                             // Iterate over each expr, wrap it with branch counter.
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.left);
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.right);
+                            self.on_exit(old);
                         }
                         _ => {
                             // iterate as normal for non loigical expr
diff --git a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
index 53fea27..a058147 100644
--- a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
@@ -51,6 +51,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for LogicalExprVisitor<C, S>
                         // This does not create new branch counter - should use parent's index instead.
                         self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.left);
                         self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.right);
+                        self.on_exit(old);
                     }
                     _ => {
                         // iterate as normal for non loigical expr
-- 
2.43.0


From 273e3c57dfbfebab624d216052db129a64a0986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 02/22] fix: place statement counters collected while visiting
 a switch discriminant or case

---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 0b96c14..e46e8ea 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -719,6 +719,7 @@ macro_rules! instrumentation_visitor {
                     );
 
                     switch_stmt.visit_mut_children_with(&mut visitor);
+                    self.before.extend(visitor.before.drain(..));
                 }
             }
             self.on_exit(old);
-- 
2.43.0


From 02662bf1cd0a045b781d783540fe21e0e271c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 03/22] fix: do not count an ignored export const declaration

---
 .../src/visitors/coverage_visitor.rs                        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index ff69c0d..26966c3 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -156,7 +156,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
                 }
             }
 
-            let (old, _ignore_current) = match &mut item {
+            let (old, ignore_current) = match &mut item {
                 ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
                 ModuleItem::Stmt(stmt) => self.on_enter(stmt),
             };
@@ -168,7 +168,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             // - export var: only instruments the initializer, no separate export counter
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
-                    if var_decl.kind == VarDeclKind::Const {
+                    if var_decl.kind == VarDeclKind::Const
+                        && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
+                    {
                         self.mark_prepend_stmt_counter(&export_decl.span);
                     }
                 }
-- 
2.43.0


From 92406efdf96a472d87cb2b152e7499bdbdadcf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 04/22] fix: instrument a tagged template initializer only once

---
 .../src/macros/instrumentation_counter_helper.rs       | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 9ab2925..7957edc 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -237,14 +237,10 @@ macro_rules! instrumentation_counter_helper {
 
         fn cover_statement(&mut self, expr: &mut Expr) {
             // Special handling for tagged template expressions (like emotion styled components)
-            // to preserve the template relationship and avoid wrapping in sequence expressions
+            // to preserve the template relationship and avoid wrapping in sequence expressions.
+            // visit_mut_tagged_tpl prepends the statement counter and visits the inner expressions
+            // when the caller traverses its children.
             if let Expr::TaggedTpl(_) = expr {
-                // For tagged templates, prepend statement counter instead of wrapping
-                // This preserves the template relationship
-                let span = expr.span();
-                self.mark_prepend_stmt_counter(&span);
-                // Still visit children to instrument any inner expressions
-                expr.visit_mut_children_with(self);
                 return;
             }
 
-- 
2.43.0


From e51dad610b8a84bed7b551057b12fa1f8d0ffadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 05/22] fix: instrument inside logical expression operands when
 reportLogic is on

---
 .../src/macros/instrumentation_counter_helper.rs               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 7957edc..8234a34 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -92,6 +92,8 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
             } else {
                 // Now we believe this expr is the leaf of the logical expr tree.
                 // Wrap it with branch counter.
+                expr.visit_mut_children_with(self);
+
                 if self.instrument_options.report_logic {
                     let range = crate::lookup_range::get_range_from_span(&self.source_map, &span);
                     let branch_path_index = self.cov.borrow_mut().add_branch_path(branch, &range);
@@ -119,7 +121,6 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                     // replace init with increase expr + init seq
                     *expr = paren_expr;
                 } else {
-                    expr.visit_mut_children_with(self);
                     self.replace_expr_with_branch_counter(expr, branch);
                 }
             }
-- 
2.43.0


From 34e3f32e797f0b006d8f72368c36f130a0b8e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 06/22] fix: instrument inside arrow function parameters

---
 .../src/macros/instrumentation_visitor.rs                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index e46e8ea..52c623b 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -61,6 +61,8 @@ macro_rules! instrumentation_visitor {
                             None,
                         );
 
+                        arrow_expr.params.visit_mut_with(self);
+
                         // insert fn counter expression
                         let mut new_stmts = vec![Stmt::Expr(ExprStmt {
                             span: swc_core::common::DUMMY_SP,
@@ -91,6 +93,8 @@ macro_rules! instrumentation_visitor {
                             None,
                         );
 
+                        arrow_expr.params.visit_mut_with(self);
+
                         // insert fn counter expression
                         let mut stmts = vec![Stmt::Expr(ExprStmt {
                             span: swc_core::common::DUMMY_SP,
-- 
2.43.0


From aaf25cf87d30b9c0ff3d4808579155f5d00c64bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 07/22] fix: instrument inside the object of a with statement

---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 52c623b..94bb70c 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -946,6 +946,7 @@ macro_rules! instrumentation_visitor {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
                     self.mark_prepend_stmt_counter(&with_stmt.span);
+                    with_stmt.obj.visit_mut_with(self);
 
                     //TODO: duplicated codes for wrapping block
                     if let Stmt::Block(body_block) = &mut *with_stmt.body {
-- 
2.43.0


From ee60c65f845c9d24d5371f7205479d16fd78c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 08/22] fix: count a default value as one branch path and
 instrument both of its sides

---
 .../src/macros/instrumentation_visitor.rs           | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 94bb70c..9080831 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -904,7 +904,18 @@ macro_rules! instrumentation_visitor {
                         false,
                     );
 
-                    self.wrap_bin_expr_with_branch_counter(branch, &mut *assign_pat.right);
+                    assign_pat.left.visit_mut_with(self);
+
+                    // A default value is a single branch path without truth counter, whatever
+                    // expression it is.
+                    let right_ignore = crate::hint_comments::should_ignore(
+                        &self.comments,
+                        Some(&assign_pat.right.span()),
+                    );
+                    if right_ignore != Some(crate::hint_comments::IgnoreScope::Next) {
+                        assign_pat.right.visit_mut_with(self);
+                        self.replace_expr_with_branch_counter(&mut *assign_pat.right, branch);
+                    }
                 }
             }
             self.on_exit(old);
-- 
2.43.0


From b994f8198af894822d7b97344c4169f334b969f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 09/22] fix: do not instrument inside an ignored arm of a
 conditional expression

---
 .../src/macros/instrumentation_visitor.rs           | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 9080831..25892a2 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -230,7 +230,9 @@ macro_rules! instrumentation_visitor {
             let (old, ignore_current) = self.on_enter(cond_expr);
 
             match ignore_current {
-                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                Some(crate::hint_comments::IgnoreScope::Next) => {
+                    cond_expr.visit_mut_children_with(self);
+                }
                 _ => {
                     let range =
                         crate::lookup_range::get_range_from_span(&self.source_map, &cond_expr.span);
@@ -249,17 +251,17 @@ macro_rules! instrumentation_visitor {
                         Some(&cond_expr.alt.span()),
                     );
 
+                    cond_expr.test.visit_mut_with(self);
+
                     if c_hint.as_deref() != Some("next") {
-                        // TODO: do we need this?
-                        // cond_expr.cons.visit_mut_children_with(self);
+                        cond_expr.cons.visit_mut_with(self);
 
                         // replace consequence to the paren for increase expr + expr itself
                         self.replace_expr_with_branch_counter(&mut *cond_expr.cons, branch);
                     }
 
                     if a_hint.as_deref() != Some("next") {
-                        // TODO: do we need this?
-                        // cond_expr.alt.visit_mut_children_with(self);
+                        cond_expr.alt.visit_mut_with(self);
 
                         // replace consequence to the paren for increase expr + expr itself
                         self.replace_expr_with_branch_counter(&mut *cond_expr.alt, branch);
@@ -267,7 +269,6 @@ macro_rules! instrumentation_visitor {
                 }
             };
 
-            cond_expr.visit_mut_children_with(self);
             self.on_exit(old);
         }
 
-- 
2.43.0


From e90f391f398217977351008bcea432db9e4d809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 10/22] fix: instrument class methods with a computed, string
 or numeric key

---
 .../src/macros/instrumentation_visitor.rs                | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 25892a2..171d658 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -394,6 +394,14 @@ macro_rules! instrumentation_visitor {
                             );
                             class_method.visit_mut_children_with(self);
                         }
+                    } else {
+                        let ident = Ident {
+                            sym: "anonymous".into(),
+                            span: class_method.key.span(),
+                            ..Ident::dummy()
+                        };
+                        self.create_fn_instrumentation(&Some(&ident), &mut class_method.function);
+                        class_method.visit_mut_children_with(self);
                     }
                 }
             }
@@ -426,6 +434,7 @@ macro_rules! instrumentation_visitor {
                     } else {
                         let ident = Ident {
                             sym: "anonymous".into(),
+                            span: method_prop.key.span(),
                             ..Ident::dummy()
                         };
                         self.create_fn_instrumentation(&Some(&ident), &mut method_prop.function);
-- 
2.43.0


From c949f705ebf60375901e6b942b17c74824f88808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 11/22] fix: count debugger statements

---
 .../src/macros/instrumentation_visitor.rs          | 14 ++++++++++++++
 .../src/visitors/coverage_visitor.rs               | 13 -------------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 171d658..d21904d 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -701,6 +701,20 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // DebuggerStatement: entries(coverStatement),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_debugger_stmt(&mut self, debugger_stmt: &mut DebuggerStmt) {
+            let (old, ignore_current) = self.on_enter(debugger_stmt);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    self.mark_prepend_stmt_counter(&debugger_stmt.span);
+                    debugger_stmt.visit_mut_children_with(self);
+                }
+            }
+            self.on_exit(old);
+        }
+
         // SwitchStatement: entries(createSwitchBranch, coverStatement),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_switch_stmt(&mut self, switch_stmt: &mut SwitchStmt) {
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 26966c3..da17a45 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -248,17 +248,4 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
         self.on_exit(old);
     }
-
-    // DebuggerStatement: entries(coverStatement),
-    #[instrument(skip_all, fields(node = %self.print_node()))]
-    fn visit_mut_debugger_stmt(&mut self, debugger_stmt: &mut DebuggerStmt) {
-        let (old, ignore_current) = self.on_enter(debugger_stmt);
-        match ignore_current {
-            Some(crate::hint_comments::IgnoreScope::Next) => {}
-            _ => {
-                debugger_stmt.visit_mut_children_with(self);
-            }
-        }
-        self.on_exit(old);
-    }
 }
-- 
2.43.0


From 2db371f82f297ac8a448ca4e8325c879f1005988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 12/22] fix: keep directive prologues in front of injected code

---
 .../macros/instrumentation_counter_helper.rs  | 19 ++++---
 .../src/macros/instrumentation_visitor.rs     | 50 ++++---------------
 .../swc-coverage-instrument/src/utils/mod.rs  | 10 ++++
 .../src/visitors/coverage_visitor.rs          | 14 +++---
 4 files changed, 41 insertions(+), 52 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 8234a34..cf31919 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -164,6 +164,18 @@ macro_rules! instrumentation_counter_helper {
             }));
         }
 
+        /// Insert fn counter to the top of the fn body, next to the directives.
+        fn insert_fn_counter(&self, stmts: &mut Vec<Stmt>, counter: Expr) {
+            let idx = crate::utils::directive_count(stmts);
+            stmts.insert(
+                idx,
+                Stmt::Expr(ExprStmt {
+                    span: swc_core::common::DUMMY_SP,
+                    expr: Box::new(counter),
+                }),
+            );
+        }
+
         /// Common logics for the fn-like visitors to insert fn instrumentation counters.
         #[tracing::instrument(skip_all)]
         fn create_fn_instrumentation(&mut self, ident: &Option<&Ident>, function: &mut Function) {
@@ -195,12 +207,7 @@ macro_rules! instrumentation_counter_helper {
                         &self.cov_fn_ident,
                         None,
                     );
-                    let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                        span: swc_core::common::DUMMY_SP,
-                        expr: Box::new(b),
-                    })];
-                    prepended_vec.extend(blockstmt.stmts.take());
-                    blockstmt.stmts = prepended_vec;
+                    self.insert_fn_counter(&mut blockstmt.stmts, b);
                 }
                 _ => {
                     unimplemented!("Unable to process function body node type")
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index d21904d..e126fbf 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -1,5 +1,3 @@
-pub(crate) const DIRECTIVES: &[&str] = &["use strict", "use asm", "use strong"];
-
 /// Generate common visitors to visit stmt.
 #[macro_export]
 macro_rules! instrumentation_visitor {
@@ -63,15 +61,10 @@ macro_rules! instrumentation_visitor {
 
                         arrow_expr.params.visit_mut_with(self);
 
-                        // insert fn counter expression
-                        let mut new_stmts = vec![Stmt::Expr(ExprStmt {
-                            span: swc_core::common::DUMMY_SP,
-                            expr: Box::new(b),
-                        })];
                         // if arrow fn body is already blockstmt, insert stmt counter for each
                         self.insert_stmts_counter(&mut block_stmt.stmts);
-                        new_stmts.extend(block_stmt.stmts.drain(..));
-                        block_stmt.stmts = new_stmts;
+                        // insert fn counter expression
+                        self.insert_fn_counter(&mut block_stmt.stmts, b);
                     }
                     BlockStmtOrExpr::Expr(expr) => {
                         // TODO: refactor common logics creates a blockstmt from single expr
@@ -186,13 +179,10 @@ macro_rules! instrumentation_visitor {
         fn visit_mut_expr_stmt(&mut self, expr_stmt: &mut ExprStmt) {
             let (old, ignore_current) = self.on_enter(expr_stmt);
 
-            if let Expr::Lit(Lit::Str(Str { value, .. })) = expr_stmt.expr.as_ref() {
-                let value: &str = &*value;
-
-                if crate::macros::instrumentation_visitor::DIRECTIVES.contains(&value) {
-                    self.on_exit(old);
-                    return;
-                }
+            // Do not create a counter for directives.
+            if let Expr::Lit(Lit::Str(..)) = expr_stmt.expr.as_ref() {
+                self.on_exit(old);
+                return;
             }
 
             match ignore_current {
@@ -484,12 +474,7 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                self.insert_fn_counter(&mut body.stmts, b);
                             }
                             getter_prop.visit_mut_children_with(self);
                         }
@@ -516,12 +501,7 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            self.insert_fn_counter(&mut body.stmts, b);
                         }
                         getter_prop.visit_mut_children_with(self);
                     }
@@ -570,12 +550,7 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                self.insert_fn_counter(&mut body.stmts, b);
                             }
                             setter_prop.visit_mut_children_with(self);
                         }
@@ -602,12 +577,7 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            self.insert_fn_counter(&mut body.stmts, b);
                         }
                         setter_prop.visit_mut_children_with(self);
                     }
diff --git a/packages/swc-coverage-instrument/src/utils/mod.rs b/packages/swc-coverage-instrument/src/utils/mod.rs
index c0b51ba..21474c8 100644
--- a/packages/swc-coverage-instrument/src/utils/mod.rs
+++ b/packages/swc-coverage-instrument/src/utils/mod.rs
@@ -1,3 +1,13 @@
+use swc_core::ecma::utils::IsDirective;
+
 pub mod hint_comments;
 pub mod lookup_range;
 pub mod node;
+
+/// Number of the leading items which form the directive prologue.
+pub fn directive_count<T: IsDirective>(items: &[T]) -> usize {
+    items
+        .iter()
+        .take_while(|item| item.directive_continue())
+        .count()
+}
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index da17a45..5798b7e 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -186,10 +186,11 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
-        // prepend template to the top of the code
+        // prepend template to the top of the code, without cutting off the directives
         if items.len() >= 1 {
-            items.insert(1, ModuleItem::Stmt(coverage_template));
-            items.insert(2, ModuleItem::Stmt(call_coverage_template_stmt));
+            let idx = crate::utils::directive_count(items).max(1);
+            items.insert(idx, ModuleItem::Stmt(coverage_template));
+            items.insert(idx + 1, ModuleItem::Stmt(call_coverage_template_stmt));
         } else {
             items.push(ModuleItem::Stmt(coverage_template));
             items.push(ModuleItem::Stmt(call_coverage_template_stmt));
@@ -216,9 +217,10 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
-        // prepend template to the top of the code
-        items.body.insert(0, coverage_template);
-        items.body.insert(1, call_coverage_template_stmt);
+        // prepend template to the top of the code, without cutting off the directives
+        let idx = crate::utils::directive_count(&items.body);
+        items.body.insert(idx, coverage_template);
+        items.body.insert(idx + 1, call_coverage_template_stmt);
     }
 
     // ExportDefaultDeclaration: entries(), // ignore processing only
-- 
2.43.0


From 698c17c437e925f1d17cb00521ac8a7fbbde82e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 13/22] fix: name the coverage function after the file being
 instrumented

---
 .../create_coverage_fn_decl.rs                | 23 +++++++------------
 .../macros/create_instrumentation_visitor.rs  |  7 ++++--
 .../src/visitors/coverage_visitor.rs          |  3 ---
 3 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index 076168e..5a9ab3c 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -4,7 +4,6 @@ use std::{
 };
 
 use istanbul_oxide::FileCoverage;
-use once_cell::sync::OnceCell;
 use swc_core::{
     common::{
         comments::{Comment, CommentKind, Comments},
@@ -19,29 +18,23 @@ use crate::constants::idents::*;
 
 use crate::{create_assignment_stmt, create_coverage_data_object};
 
-pub static COVERAGE_FN_IDENT: OnceCell<Ident> = OnceCell::new();
-/// temporal ident being used for b_t true counter
-pub static COVERAGE_FN_TRUE_TEMP_IDENT: OnceCell<Ident> = OnceCell::new();
-
-/// Create a unique ident for the injected coverage counter fn,
-/// Stores it into a global scope.
+/// Create a unique ident for the injected coverage counter fn of given file,
+/// and a temporal ident being used for b_t true counter.
 ///
-/// Do not use static value directly - create_instrumentation_visitor macro
-/// should inject this into a struct accordingly.
-pub fn create_coverage_fn_ident(value: &str) {
+/// create_instrumentation_visitor macro should inject this into a struct accordingly.
+pub fn create_coverage_fn_ident(value: &str) -> (Ident, Ident) {
     let mut s = DefaultHasher::new();
     value.hash(&mut s);
     let var_name_hash = format!("cov_{}", s.finish());
 
-    COVERAGE_FN_IDENT
-        .get_or_init(|| Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()));
-    COVERAGE_FN_TRUE_TEMP_IDENT.get_or_init(|| {
+    (
+        Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()),
         Ident::new(
             format!("{}_temp", var_name_hash).into(),
             DUMMY_SP,
             Default::default(),
-        )
-    });
+        ),
+    )
 }
 
 /// Creates a function declaration for actual coverage collection.
diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index eaad6da..af358de 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -36,12 +36,15 @@ macro_rules! create_instrumentation_visitor {
                 should_ignore: Option<crate::hint_comments::IgnoreScope>,
                 $($field: $t,)*
             ) -> $name<C, S> {
+                let (cov_fn_ident, cov_fn_temp_ident) =
+                    crate::create_coverage_fn_ident(&cov.borrow().as_ref().path);
+
                 $name {
                     source_map: source_map,
                     comments: comments,
                     cov: cov,
-                    cov_fn_ident: crate::COVERAGE_FN_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
-                    cov_fn_temp_ident: crate::COVERAGE_FN_TRUE_TEMP_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
+                    cov_fn_ident,
+                    cov_fn_temp_ident,
                     instrument_options: instrument_options,
                     before: vec![],
                     nodes: nodes,
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 5798b7e..9ce0af3 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -23,9 +23,6 @@ pub fn create_coverage_instrumentation_visitor<C: Clone + Comments, S: SourceMap
     instrument_options: InstrumentOptions,
     filename: String,
 ) -> CoverageVisitor<C, S> {
-    // create a function name ident for the injected coverage instrumentation counters.
-    crate::create_coverage_fn_ident(&filename);
-
     let mut cov = crate::SourceCoverage::new(filename.to_string(), instrument_options.report_logic);
     cov.set_input_source_map(&instrument_options.input_source_map);
 
-- 
2.43.0


From 1bcc13ba05db625c7f91fd369865c7c5f4bf32b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 14/22] fix: do not abort on functions without a body

---
 .../macros/instrumentation_counter_helper.rs  | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index cf31919..e877638 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -189,8 +189,8 @@ macro_rules! instrumentation_counter_helper {
             let body_span = if let Some(body) = &function.body {
                 body.span
             } else {
-                // TODO: probably this should never occur
-                function.span
+                // Overload signature, or abstract / declared method: there is nothing to execute.
+                return;
             };
 
             let body_range = crate::lookup_range::get_range_from_span(&self.source_map, &body_span);
@@ -199,19 +199,14 @@ macro_rules! instrumentation_counter_helper {
                 .borrow_mut()
                 .new_function(&name, &range, &body_range);
 
-            match &mut function.body {
-                Some(blockstmt) => {
-                    let b = crate::create_increase_counter_expr(
-                        &crate::constants::idents::IDENT_F,
-                        index,
-                        &self.cov_fn_ident,
-                        None,
-                    );
-                    self.insert_fn_counter(&mut blockstmt.stmts, b);
-                }
-                _ => {
-                    unimplemented!("Unable to process function body node type")
-                }
+            if let Some(blockstmt) = &mut function.body {
+                let b = crate::create_increase_counter_expr(
+                    &crate::constants::idents::IDENT_F,
+                    index,
+                    &self.cov_fn_ident,
+                    None,
+                );
+                self.insert_fn_counter(&mut blockstmt.stmts, b);
             }
         }
 
-- 
2.43.0


From 3a4af2e24aec4db1c66caa37b447dfe486a4b7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 15/22] fix: keep the debug coverage comment closed by its own
 end only

---
 .../src/coverage_template/create_coverage_fn_decl.rs       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index 5a9ab3c..8d21568 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -162,7 +162,12 @@ if (!$coverage[$path] || $coverage[$path].$hash !== $hash) {
             Comment {
                 kind: CommentKind::Block,
                 span: Span::dummy_with_cmt(),
-                text: format!("__coverage_data_json_comment__::{}", coverage_data_json_str).into(),
+                // JSON allows an escaped slash, which keeps the data from closing the comment.
+                text: format!(
+                    "__coverage_data_json_comment__::{}",
+                    coverage_data_json_str.replace("*/", "*\\/")
+                )
+                .into(),
             },
         );
     }
-- 
2.43.0


From 0a417e15546f91e077fd2ded7a1d0e8820b97b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:06 +0000
Subject: [PATCH 16/22] fix: add the coverage template to the program only, not
 to each namespace body

---
 .../src/visitors/coverage_visitor.rs          | 90 +++++++++++--------
 1 file changed, 52 insertions(+), 38 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 9ce0af3..1887c9b 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -47,6 +47,48 @@ impl<C: Clone + Comments, S: SourceMapper> CoverageVisitor<C, S> {
         return false;
     }
 
+    /// Instrument each item of a module, or of a namespace body.
+    fn instrument_module_items(&mut self, items: &mut Vec<ModuleItem>) {
+        // TODO: Should module_items need to be added in self.nodes?
+        let mut new_items = vec![];
+        for mut item in items.drain(..) {
+            if let ModuleItem::Stmt(stmt) = &item {
+                // Do not create coverage instrumentation for directives.
+                if stmt.directive_continue() {
+                    new_items.push(item);
+                    continue;
+                }
+            }
+
+            let (old, ignore_current) = match &mut item {
+                ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
+                ModuleItem::Stmt(stmt) => self.on_enter(stmt),
+            };
+
+            // https://github.com/kwonoj/swc-plugin-coverage-instrument/issues/277
+            // Add statement counter for export const declarations to match istanbul behavior
+            // Istanbul treats export const and export var differently:
+            // - export const: adds statement counter for the export declaration
+            // - export var: only instruments the initializer, no separate export counter
+            if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
+                if let Decl::Var(var_decl) = &export_decl.decl {
+                    if var_decl.kind == VarDeclKind::Const
+                        && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
+                    {
+                        self.mark_prepend_stmt_counter(&export_decl.span);
+                    }
+                }
+            }
+
+            item.visit_mut_children_with(self);
+
+            new_items.extend(self.before.drain(..).map(|v| ModuleItem::Stmt(v)));
+            new_items.push(item);
+            self.on_exit(old);
+        }
+        *items = new_items;
+    }
+
     /// Create coverage instrumentation template exprs to be injected into the top of the transformed output.
     fn get_coverage_templates(&mut self) -> (Stmt, Stmt) {
         self.cov.borrow_mut().freeze();
@@ -142,44 +184,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             self.nodes = new_nodes;
         }
 
-        // TODO: Should module_items need to be added in self.nodes?
-        let mut new_items = vec![];
-        for mut item in items.drain(..) {
-            if let ModuleItem::Stmt(stmt) = &item {
-                // Do not create coverage instrumentation for directives.
-                if stmt.directive_continue() {
-                    new_items.push(item);
-                    continue;
-                }
-            }
-
-            let (old, ignore_current) = match &mut item {
-                ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
-                ModuleItem::Stmt(stmt) => self.on_enter(stmt),
-            };
-
-            // https://github.com/kwonoj/swc-plugin-coverage-instrument/issues/277
-            // Add statement counter for export const declarations to match istanbul behavior
-            // Istanbul treats export const and export var differently:
-            // - export const: adds statement counter for the export declaration
-            // - export var: only instruments the initializer, no separate export counter
-            if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
-                if let Decl::Var(var_decl) = &export_decl.decl {
-                    if var_decl.kind == VarDeclKind::Const
-                        && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
-                    {
-                        self.mark_prepend_stmt_counter(&export_decl.span);
-                    }
-                }
-            }
-
-            item.visit_mut_children_with(self);
-
-            new_items.extend(self.before.drain(..).map(|v| ModuleItem::Stmt(v)));
-            new_items.push(item);
-            self.on_exit(old);
-        }
-        *items = new_items;
+        self.instrument_module_items(items);
 
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
@@ -220,6 +225,15 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         items.body.insert(idx + 1, call_coverage_template_stmt);
     }
 
+    // A namespace body is a list of module items too, but it is not the program: it should not get its own
+    // coverage template.
+    #[instrument(skip_all, fields(node = %self.print_node()))]
+    fn visit_mut_ts_module_block(&mut self, block: &mut TsModuleBlock) {
+        let before = self.before.take();
+        self.instrument_module_items(&mut block.body);
+        self.before = before;
+    }
+
     // ExportDefaultDeclaration: entries(), // ignore processing only
     #[instrument(skip_all, fields(node = %self.print_node()))]
     fn visit_mut_export_default_decl(&mut self, export_default_decl: &mut ExportDefaultDecl) {
-- 
2.43.0


From 06cc1bb77965f00dd6bf7104532627c15763e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 17/22] fix: align merged branch truthiness hits with the
 merged branches

---
 packages/istanbul-oxide/src/file_coverage.rs | 75 +++++++++++++++-----
 1 file changed, 59 insertions(+), 16 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 83e82ce..85c5bff 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -16,6 +16,54 @@ fn key_from_loc(range: &Range) -> String {
     )
 }
 
+fn key_from_branch(branch: &Branch) -> String {
+    match branch.locations.first().or(branch.loc.as_ref()) {
+        Some(range) => key_from_loc(range),
+        None => format!("{:?}", branch.line),
+    }
+}
+
+/// Merges branch truthiness hits, and aligns them to the given merged branch map.
+fn merge_branches_true(
+    first_hits: &Option<BranchHitMap>,
+    first_map: &BranchMap,
+    second_hits: &Option<BranchHitMap>,
+    second_map: &BranchMap,
+    merged_map: &BranchMap,
+) -> Option<BranchHitMap> {
+    if first_hits.is_none() && second_hits.is_none() {
+        return None;
+    }
+
+    let mut items: IndexMap<String, Vec<u32>> = Default::default();
+
+    for (hits, map) in [(first_hits, first_map), (second_hits, second_map)] {
+        for (key, item_hits) in hits.iter().flatten() {
+            let item = map.get(key).expect("Corresponding map value should exist");
+            let merged_hits = items.entry(key_from_branch(item)).or_default();
+
+            if merged_hits.len() < item_hits.len() {
+                merged_hits.resize(item_hits.len(), 0);
+            }
+
+            for (h, hits) in item_hits.iter().enumerate() {
+                merged_hits[h] += hits;
+            }
+        }
+    }
+
+    Some(
+        merged_map
+            .iter()
+            .filter_map(|(key, branch)| {
+                items
+                    .get(&key_from_branch(branch))
+                    .map(|hits| (*key, hits.clone()))
+            })
+            .collect(),
+    )
+}
+
 fn merge_properties_hits_vec(
     first_hits: &BranchHitMap,
     first_map: &BranchMap,
@@ -293,26 +341,21 @@ impl FileCoverage {
             &self.branch_map,
             &coverage.b,
             &coverage.branch_map,
-            |branch: &Branch| key_from_loc(&branch.locations[0]),
+            key_from_branch,
         );
-        self.b = branches_hits_merged;
-        self.branch_map = branches_map_merged;
 
         // Tracking additional information about branch truthiness
         // can be optionally enabled:
-        if let Some(branches_true) = &self.b_t {
-            if let Some(coverage_branches_true) = &coverage.b_t {
-                let (branches_true_hits_merged, _) = merge_properties_hits_vec(
-                    branches_true,
-                    &self.branch_map,
-                    coverage_branches_true,
-                    &coverage.branch_map,
-                    |branch: &Branch| key_from_loc(&branch.locations[0]),
-                );
-
-                self.b_t = Some(branches_true_hits_merged);
-            }
-        }
+        self.b_t = merge_branches_true(
+            &self.b_t,
+            &self.branch_map,
+            &coverage.b_t,
+            &coverage.branch_map,
+            &branches_map_merged,
+        );
+
+        self.b = branches_hits_merged;
+        self.branch_map = branches_map_merged;
     }
 
     pub fn compute_simple_totals<T>(line_map: &IndexMap<T, u32>) -> Totals {
-- 
2.43.0


From 44f5caea81a2ebcce0c25af72fd36ba9a307712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 18/22] fix: do not abort when logging is initialized more than
 once

---
 packages/swc-plugin-coverage/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/swc-plugin-coverage/src/lib.rs b/packages/swc-plugin-coverage/src/lib.rs
index 77e1c21..386b569 100644
--- a/packages/swc-plugin-coverage/src/lib.rs
+++ b/packages/swc-plugin-coverage/src/lib.rs
@@ -46,10 +46,11 @@ fn initialize_instrumentation_log(log_options: &InstrumentLogOptions) {
             builder
         };
 
-        builder
+        // A subscriber installed by an earlier run stays in charge.
+        let _ = builder
             .with_ansi(false)
             .event_format(tracing_subscriber::fmt::format().pretty())
-            .init();
+            .try_init();
     }
 }
 
-- 
2.43.0


From f41d83337b410827edffa8d7b01c61c8a1681f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 19/22] fix: instrument inside the operands of nested logical
 expressions

---
 .../src/macros/instrumentation_counter_helper.rs   |  7 ++++++-
 .../src/visitors/finders.rs                        | 12 ++++++++++--
 .../src/visitors/logical_expr_visitor.rs           | 14 ++++++++++++++
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index e877638..902a871 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -89,10 +89,11 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                 );
 
                 expr.visit_mut_children_with(&mut visitor);
+                self.before.extend(visitor.before.drain(..));
             } else {
                 // Now we believe this expr is the leaf of the logical expr tree.
                 // Wrap it with branch counter.
-                expr.visit_mut_children_with(self);
+                self.visit_logical_expr_leaf(expr);
 
                 if self.instrument_options.report_logic {
                     let range = crate::lookup_range::get_range_from_span(&self.source_map, &span);
@@ -135,6 +136,10 @@ macro_rules! instrumentation_counter_helper {
     () => {
         crate::instrumentation_branch_wrap_counter_helper!();
 
+        fn visit_logical_expr_leaf(&mut self, expr: &mut Expr) {
+            expr.visit_mut_children_with(self);
+        }
+
         #[tracing::instrument(skip(self, span, idx), fields(stmt_id))]
         fn create_stmt_increase_counter_expr(&mut self, span: &Span, idx: Option<u32>) -> Expr {
             let stmt_range = crate::lookup_range::get_range_from_span(&self.source_map, span);
diff --git a/packages/swc-coverage-instrument/src/visitors/finders.rs b/packages/swc-coverage-instrument/src/visitors/finders.rs
index 1924a02..090a635 100644
--- a/packages/swc-coverage-instrument/src/visitors/finders.rs
+++ b/packages/swc-coverage-instrument/src/visitors/finders.rs
@@ -80,6 +80,16 @@ impl Visit for ExprFinder {
 pub struct LogicalExprLeafFinder(pub bool);
 
 impl Visit for LogicalExprLeafFinder {
+    // Operand of the logical expr is the leaf unless it is a logical expr itself, possibly in parens: logical
+    // expr anywhere else (i.e call args, fn body) is an independent one.
+    fn visit_expr(&mut self, expr: &Expr) {
+        match expr {
+            Expr::Paren(paren_expr) => paren_expr.expr.visit_with(self),
+            Expr::Bin(bin_expr) => bin_expr.visit_with(self),
+            _ => {}
+        }
+    }
+
     fn visit_bin_expr(&mut self, bin_expr: &BinExpr) {
         match &bin_expr.op {
             BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing => {
@@ -89,7 +99,5 @@ impl Visit for LogicalExprLeafFinder {
             }
             _ => {}
         }
-
-        bin_expr.visit_children_with(self);
     }
 }
diff --git a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
index a058147..fcf420e 100644
--- a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
@@ -12,6 +12,20 @@ create_instrumentation_visitor!(LogicalExprVisitor { branch: u32 });
 /// This is required to preserve branch id to recursively traverse logical expr's inner child.
 impl<C: Clone + Comments, S: SourceMapper> LogicalExprVisitor<C, S> {
     instrumentation_branch_wrap_counter_helper!();
+
+    /// The leaf is not a part of the logical expr anymore, anything in there is instrumented as usual.
+    fn visit_logical_expr_leaf(&mut self, expr: &mut Expr) {
+        let mut visitor = crate::visitors::stmt_like_visitor::StmtVisitor::new(
+            self.source_map.clone(),
+            self.comments.clone(),
+            self.cov.clone(),
+            self.instrument_options.clone(),
+            self.nodes.clone(),
+            self.should_ignore,
+        );
+        expr.visit_mut_children_with(&mut visitor);
+        self.before.extend(visitor.before.drain(..));
+    }
 }
 
 impl<C: Clone + Comments, S: SourceMapper> VisitMut for LogicalExprVisitor<C, S> {
-- 
2.43.0


From adf35dd5d3a53c2ec943091b4dbb2bf8f9e8c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 20/22] fix: restore the traversal state when a file is ignored

---
 .../swc-coverage-instrument/src/visitors/coverage_visitor.rs    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 1887c9b..0c20284 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -151,7 +151,6 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
     #[instrument(skip_all, fields(node = %self.print_node()))]
     fn visit_mut_program(&mut self, program: &mut Program) {
-        self.nodes.push(crate::Node::Program);
         if crate::hint_comments::should_ignore_file(&self.comments, program) {
             return;
         }
@@ -160,6 +159,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             return;
         }
 
+        self.nodes.push(crate::Node::Program);
         program.visit_mut_children_with(self);
         self.nodes.pop();
     }
-- 
2.43.0


From c1ad6bdd7de60c5434e27895b8ae0f6e855fd022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 21/22] fix: count variable initializers with functions outside
 of block statements

---
 .../src/macros/instrumentation_counter_helper.rs             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 902a871..d12847f 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -296,10 +296,11 @@ macro_rules! instrumentation_counter_helper {
 
                     if let Some(parent) = parent {
                         match parent {
-                            crate::Node::BlockStmt | crate::Node::Program => {
+                            // Exported declaration gets the counter for its export instead.
+                            crate::Node::ModuleDecl => {}
+                            _ => {
                                 self.mark_prepend_stmt_counter(&span);
                             }
-                            _ => {}
                         }
                     }
                 } else {
-- 
2.43.0


From 14510171bba4b691b61f2a7a2e0ea0aee30d15b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 22/22] fix: keep accumulated hits when unchanged code is
 evaluated again

---
 .../src/coverage_template/create_coverage_fn_decl.rs            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index 8d21568..baf4671 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -94,7 +94,7 @@ pub fn create_coverage_fn_decl<C: Clone + Comments>(
 
     stmts.push(quote!(
         r#"
-if (!$coverage[$path] || $coverage[$path].$hash !== $hash) {
+if (!$coverage[$path] || $coverage[$path].hash !== $hash) {
   $coverage[$path] = $coverage_data;
 }
 "# as Stmt,
-- 
2.43.0

