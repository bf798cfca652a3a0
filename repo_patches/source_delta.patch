From 2011fc28b76aad5c85b068b39a945b66d1c3a759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 01/53] fix: make ifle true for equal operands

---
 stuart-core/src/functions/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index f203228..cd26369 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -34,7 +34,7 @@ pub mod parsers {
         ifgt, IfGt, >;
         ifge, IfGe, >=;
         iflt, IfLt, <;
-        ifle, IfLe, <;
+        ifle, IfLe, <=;
     ];
 }
 
-- 
2.43.0


From c095634490e31386feab8d4e1fe0547b7df55839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:09 +0000
Subject: [PATCH 02/53] fix: compare numbers without truncating them to 32-bit
 integers

---
 stuart-core/src/functions/mod.rs        | 12 ++++++------
 stuart-core/src/functions/parsers/if.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index cd26369..637012a 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -89,8 +89,8 @@ enum Input {
     Variable(String),
     /// A string literal.
     String(String),
-    /// An integer literal.
-    Integer(i32),
+    /// A number.
+    Number(f64),
 }
 
 impl Input {
@@ -101,7 +101,7 @@ impl Input {
         match self {
             Input::Variable(name) => match scope.get_variable(name) {
                 Some(Value::String(s)) => Some(Input::String(s)),
-                Some(Value::Number(i)) => Some(Input::Integer(i as i32)),
+                Some(Value::Number(n)) => Some(Input::Number(n)),
                 _ => None,
             },
             x => Some(x.clone()),
@@ -114,7 +114,7 @@ impl PartialEq for Input {
         match (self, other) {
             (Self::Variable(l0), Self::Variable(r0)) => l0 == r0,
             (Self::String(l0), Self::String(r0)) => l0 == r0,
-            (Self::Integer(l0), Self::Integer(r0)) => l0 == r0,
+            (Self::Number(l0), Self::Number(r0)) => l0 == r0,
             _ => false,
         }
     }
@@ -125,7 +125,7 @@ impl PartialOrd for Input {
         match (self, other) {
             (Self::Variable(_), Self::Variable(_)) => None,
             (Self::String(_), Self::String(_)) => None,
-            (Self::Integer(i), Self::Integer(j)) => i.partial_cmp(j),
+            (Self::Number(i), Self::Number(j)) => i.partial_cmp(j),
             _ => None,
         }
     }
@@ -136,7 +136,7 @@ impl ToString for Input {
         match self {
             Input::Variable(v) => v.clone(),
             Input::String(s) => s.clone(),
-            Input::Integer(i) => i.to_string(),
+            Input::Number(n) => n.to_string(),
         }
     }
 }
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index f565a96..ecaf446 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -23,14 +23,14 @@ macro_rules! if_parsers {
                         let input_2 = match raw.positional_args.pop().unwrap() {
                             $crate::parse::RawArgument::Variable(v) => $crate::functions::Input::Variable(v),
                             $crate::parse::RawArgument::String(s) => $crate::functions::Input::String(s),
-                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Integer(i),
+                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Number(i.into()),
                             _ => return Err($crate::parse::ParseError::InvalidArgument),
                         };
 
                         let input_1 = match raw.positional_args.pop().unwrap() {
                             $crate::parse::RawArgument::Variable(v) => $crate::functions::Input::Variable(v),
                             $crate::parse::RawArgument::String(s) => $crate::functions::Input::String(s),
-                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Integer(i),
+                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Number(i.into()),
                             _ => return Err($crate::parse::ParseError::InvalidArgument),
                         };
 
-- 
2.43.0


From fb88673c5a08c9e3b8fc49f6a029b060f2de1e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 03/53] fix: report an unclosed string argument instead of
 panicking

---
 stuart-core/src/parse/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/function.rs b/stuart-core/src/parse/function.rs
index eebbff2..3f23ee2 100644
--- a/stuart-core/src/parse/function.rs
+++ b/stuart-core/src/parse/function.rs
@@ -46,7 +46,7 @@ impl RawArgument {
             }
 
             Ok(Self::Variable(variable_name.to_string()))
-        } else if arg.starts_with('"') && arg.ends_with('"') {
+        } else if arg.len() > 1 && arg.starts_with('"') && arg.ends_with('"') {
             // Parse a positional string argument.
 
             let string = arg.strip_prefix('"').unwrap().strip_suffix('"').unwrap();
-- 
2.43.0


From baec3bcc0edb309e2762b9c90471228ecb53595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 04/53] fix: skip whole nested blocks in a branch that is not
 taken

---
 stuart-core/src/functions/mod.rs               | 11 +++++++++++
 stuart-core/src/functions/parsers/if.rs        | 11 ++++++++++-
 stuart-core/src/functions/parsers/ifdefined.rs | 13 +++++++++++--
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index 637012a..ab75c04 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -180,3 +180,14 @@ macro_rules! quiet_assert {
 pub fn is_ident(s: &str) -> bool {
     crate::FUNCTION_PARSERS.iter().any(|f| f.name() == s)
 }
+
+/// Returns true if the function with the given name opens a block, which is closed by a matching `end`.
+///
+/// This allows blocks to be skipped over without being executed.
+#[inline]
+pub(crate) fn opens_block(name: &str) -> bool {
+    matches!(
+        name,
+        "begin" | "for" | "ifdefined" | "ifeq" | "ifne" | "ifgt" | "ifge" | "iflt" | "ifle"
+    )
+}
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index ecaf446..501fe99 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -66,6 +66,9 @@ macro_rules! if_parsers {
                         let stack_height = scope.stack.len();
                         scope.stack.push(frame);
 
+                        // The number of nested blocks which are open in a branch that is being skipped.
+                        let mut skipped_blocks: usize = 0;
+
                         while scope.stack.len() > stack_height {
                             let token = scope
                                 .tokens
@@ -77,13 +80,19 @@ macro_rules! if_parsers {
                             if condition
                                 || ((function_name == Some("end".to_string())
                                     || function_name == Some("else".to_string()))
-                                    && scope.stack.len() == stack_height + 1)
+                                    && skipped_blocks == 0)
                             {
                                 token.process(scope)?;
 
                                 if function_name == Some("else".to_string()) {
                                     condition = !condition;
                                 }
+                            } else if let Some(name) = function_name {
+                                if $crate::functions::opens_block(&name) {
+                                    skipped_blocks += 1;
+                                } else if name == "end" {
+                                    skipped_blocks -= 1;
+                                }
                             }
                         }
 
diff --git a/stuart-core/src/functions/parsers/ifdefined.rs b/stuart-core/src/functions/parsers/ifdefined.rs
index fb8b657..40b4f55 100644
--- a/stuart-core/src/functions/parsers/ifdefined.rs
+++ b/stuart-core/src/functions/parsers/ifdefined.rs
@@ -1,4 +1,4 @@
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{opens_block, Function, FunctionParser};
 use crate::parse::{ParseError, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -51,6 +51,9 @@ impl Function for IfDefinedFunction {
         let stack_height = scope.stack.len();
         scope.stack.push(frame);
 
+        // The number of nested blocks which are open in a branch that is being skipped.
+        let mut skipped_blocks: usize = 0;
+
         while scope.stack.len() > stack_height {
             let token = scope
                 .tokens
@@ -62,13 +65,19 @@ impl Function for IfDefinedFunction {
             if defined
                 || ((function_name == Some("end".to_string())
                     || function_name == Some("else".to_string()))
-                    && scope.stack.len() == stack_height + 1)
+                    && skipped_blocks == 0)
             {
                 token.process(scope)?;
 
                 if function_name == Some("else".to_string()) {
                     defined = !defined;
                 }
+            } else if let Some(name) = function_name {
+                if opens_block(&name) {
+                    skipped_blocks += 1;
+                } else if name == "end" {
+                    skipped_blocks -= 1;
+                }
             }
         }
 
-- 
2.43.0


From dcac2464eefce9d2c4cad030f5a445e6c539f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 05/53] fix: skip the body of a for loop which has nothing to
 iterate over

---
 stuart-core/src/functions/parsers/for.rs | 44 ++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index 9d58df0..f174450 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -1,6 +1,6 @@
 use crate::fs::ParsedContents;
-use crate::functions::{Function, FunctionParser};
-use crate::parse::{ParseError, RawArgument, RawFunction};
+use crate::functions::{opens_block, Function, FunctionParser};
+use crate::parse::{LocatableToken, ParseError, RawArgument, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
 use crate::{quiet_assert, TracebackError};
@@ -228,6 +228,12 @@ impl Function for ForFunction {
             variable_iter = Box::new(variable_iter.take(l));
         }
 
+        let mut variable_iter = variable_iter.peekable();
+
+        if variable_iter.peek().is_none() {
+            return self.skip_body(scope, &self_token);
+        }
+
         for variable in variable_iter {
             scope.tokens.rewind_to(waypoint);
 
@@ -252,3 +258,37 @@ impl Function for ForFunction {
         Ok(())
     }
 }
+
+impl ForFunction {
+    /// Skips over the body of the loop without executing it, for when there is nothing to iterate over.
+    fn skip_body(
+        &self,
+        scope: &mut Scope,
+        self_token: &LocatableToken,
+    ) -> Result<(), TracebackError<ProcessError>> {
+        let mut skipped_blocks: usize = 0;
+
+        loop {
+            let token = scope
+                .tokens
+                .next()
+                .ok_or_else(|| self_token.traceback(ProcessError::UnexpectedEndOfFile))?;
+
+            match token.as_function() {
+                Some(function) if opens_block(function.name()) => skipped_blocks += 1,
+                Some(function) if function.name() == "end" => {
+                    if skipped_blocks == 0 {
+                        scope
+                            .stack
+                            .push(StackFrame::new(format!("for:{}", self.variable_name)));
+
+                        return token.process(scope);
+                    }
+
+                    skipped_blocks -= 1;
+                }
+                _ => (),
+            }
+        }
+    }
+}
-- 
2.43.0


From 86a3099cc7cb3805740fed1f3ad1e2046958eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 06/53] fix: give JavaScript functions their name

---
 stuart/src/plugins/js/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 141c269..091d937 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -173,7 +173,7 @@ impl FunctionParser for JSFunctionParser {
 
 impl Function for JSFunction {
     fn name(&self) -> &str {
-        todo!()
+        &self.name
     }
 
     fn execute(&self, stuart_scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
-- 
2.43.0


From 0cb379712ca800b5ea8966aca9a9e99953873199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 07/53] fix: convert JavaScript values which cannot be
 represented in JSON instead of panicking

---
 stuart/src/plugins/js/json.rs | 83 +++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 33 deletions(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 163cdac..9c86296 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -37,68 +37,85 @@ pub fn json_to_js<'a>(
     }
 }
 
+/// The maximum depth of nested JavaScript objects which can be converted to JSON.
+const MAX_DEPTH: usize = 256;
+
 /// Converts a JavaScript object to a JSON value.
 ///
-/// Returns `None` if `value` is `undefined`.
+/// Returns `None` if `value` is `undefined`, or if it cannot be represented in JSON. Like in `JSON.stringify`,
+///   such values become `null` within an array, and are omitted from an object.
 pub fn js_to_json<'a>(
     value: v8::Local<'a, v8::Value>,
     scope: &mut v8::HandleScope<'a>,
 ) -> Option<Value> {
-    if value.is_undefined() {
-        return None;
-    }
+    js_to_json_recur(value, scope, &mut Vec::new()).flatten()
+}
 
+/// Recursively converts a JavaScript object to a JSON value, given the objects which contain it.
+///
+/// Returns `None` if an exception was thrown, and `Some(None)` if the value cannot be represented in JSON.
+fn js_to_json_recur<'a>(
+    value: v8::Local<'a, v8::Value>,
+    scope: &mut v8::HandleScope<'a>,
+    parents: &mut Vec<v8::Local<'a, v8::Value>>,
+) -> Option<Option<Value>> {
     if value.is_null() {
-        return Some(Value::Null);
+        return Some(Some(Value::Null));
     }
 
     if value.is_boolean() {
-        return Some(Value::Bool(value.boolean_value(scope)));
+        return Some(Some(Value::Bool(value.boolean_value(scope))));
     }
 
     if value.is_number() {
-        return Some(Value::Number(value.number_value(scope).unwrap()));
+        return Some(Some(Value::Number(value.number_value(scope)?)));
     }
 
     if value.is_string() {
-        return Some(Value::String(value.to_rust_string_lossy(scope).to_string()));
+        return Some(Some(Value::String(
+            value.to_rust_string_lossy(scope).to_string(),
+        )));
+    }
+
+    if !value.is_object() || parents.len() >= MAX_DEPTH || parents.contains(&value) {
+        return Some(None);
     }
 
-    if value.is_array() {
-        let v8_array = value.to_object(scope).unwrap();
+    parents.push(value);
+
+    let json = if value.is_array() {
+        let v8_array = value.to_object(scope)?;
         let k_length = v8::String::new(scope, "length").unwrap();
-        let length = v8_array
-            .get(scope, k_length.into())
-            .unwrap()
-            .uint32_value(scope)
-            .unwrap();
-        let mut array = Vec::with_capacity(length as usize);
+        let length = v8_array.get(scope, k_length.into())?.uint32_value(scope)?;
+        let mut array = Vec::new();
+
         for i in 0..length {
-            let v8_value = v8_array.get_index(scope, i).unwrap();
-            let value = js_to_json(v8_value, scope);
-            array.push(value.unwrap());
+            let v8_value = v8_array.get_index(scope, i)?;
+            let value = js_to_json_recur(v8_value, scope, parents)?;
+            array.push(value.unwrap_or(Value::Null));
         }
-        return Some(Value::Array(array));
-    }
 
-    if value.is_object() {
-        let v8_object = value.to_object(scope).unwrap();
-        let keys = v8_object
-            .get_own_property_names(scope, v8::GetPropertyNamesArgs::default())
-            .unwrap();
+        Value::Array(array)
+    } else {
+        let v8_object = value.to_object(scope)?;
+        let keys = v8_object.get_own_property_names(scope, v8::GetPropertyNamesArgs::default())?;
         let length = keys.length();
         let mut object = Vec::with_capacity(length as usize);
 
         for i in 0..length {
-            let v8_key = keys.get_index(scope, i).unwrap();
+            let v8_key = keys.get_index(scope, i)?;
             let key = v8_key.to_rust_string_lossy(scope).to_string();
-            let v8_value = v8_object.get(scope, v8_key).unwrap();
-            let value = js_to_json(v8_value, scope);
-            object.push((key, value.unwrap()));
+            let v8_value = v8_object.get(scope, v8_key)?;
+
+            if let Some(value) = js_to_json_recur(v8_value, scope, parents)? {
+                object.push((key, value));
+            }
         }
 
-        return Some(Value::Object(object));
-    }
+        Value::Object(object)
+    };
+
+    parents.pop();
 
-    None
+    Some(Some(json))
 }
-- 
2.43.0


From afaddc9c6c5b779a2a8e44df6e648b60975ad6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 08/53] fix: keep JavaScript plugins from using a Stuart
 context which is no longer valid

---
 stuart/src/plugins/js/context.rs | 53 +++++++++++++++++---------------
 stuart/src/plugins/js/mod.rs     | 15 +++++----
 2 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/stuart/src/plugins/js/context.rs b/stuart/src/plugins/js/context.rs
index c1e77e6..61421e0 100644
--- a/stuart/src/plugins/js/context.rs
+++ b/stuart/src/plugins/js/context.rs
@@ -2,6 +2,15 @@
 
 use stuart_core::process::Scope;
 
+use std::cell::Cell;
+use std::ffi::c_void;
+use std::ptr::null_mut;
+
+thread_local! {
+    /// The Stuart scope of the JavaScript function which is currently being executed, or null if there is none.
+    static CURRENT_SCOPE: Cell<*mut c_void> = const { Cell::new(null_mut()) };
+}
+
 /// Makes the Stuart scope accessible to `set_variable` and `get_variable` when they're called from JavaScript code.
 pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
     let stuart_context = v8::Object::new(scope);
@@ -9,7 +18,6 @@ pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
     let k_context = v8::String::new(scope, "STUART").unwrap();
     let k_set_variable = v8::String::new(scope, "set").unwrap();
     let k_get_variable = v8::String::new(scope, "get").unwrap();
-    let k_external = v8::String::new(scope, "_ptr").unwrap();
 
     let set_variable = v8::FunctionTemplate::new(scope, set_variable)
         .get_function(scope)
@@ -17,11 +25,11 @@ pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
     let get_variable = v8::FunctionTemplate::new(scope, get_variable)
         .get_function(scope)
         .unwrap();
-    let external = v8::External::new(scope, context as *mut _ as *mut std::ffi::c_void);
+
+    CURRENT_SCOPE.with(|current| current.set(context as *mut _ as *mut c_void));
 
     stuart_context.set(scope, k_set_variable.into(), set_variable.into());
     stuart_context.set(scope, k_get_variable.into(), get_variable.into());
-    stuart_context.set(scope, k_external.into(), external.into());
 
     scope
         .get_current_context()
@@ -29,21 +37,18 @@ pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
         .set(scope, k_context.into(), stuart_context.into());
 }
 
-/// Gets the Stuart context from V8.
+/// Makes the Stuart scope inaccessible to JavaScript code again.
+pub fn clear_stuart_context() {
+    CURRENT_SCOPE.with(|current| current.set(null_mut()));
+}
+
+/// Gets the Stuart context of the JavaScript function which is currently being executed, if there is one.
 ///
 /// # Safety
-/// This function is only safe if `set_stuart_context` has previously been called with the same `scope`.
-unsafe fn get_stuart_context<'s>(
-    scope: &mut v8::HandleScope,
-    obj: v8::Local<'_, v8::Object>,
-) -> &'s mut Scope<'s> {
-    let k_external = v8::String::new(scope, "_ptr").unwrap();
-
-    (v8::Local::<v8::External>::try_from(obj.get(scope, k_external.into()).unwrap())
-        .unwrap()
-        .value() as *mut Scope)
-        .as_mut()
-        .unwrap()
+/// This function is only safe if the context most recently set with `set_stuart_context` is still alive, or has been
+///   cleared with `clear_stuart_context`.
+unsafe fn get_stuart_context<'s>() -> Option<&'s mut Scope<'s>> {
+    (CURRENT_SCOPE.with(Cell::get) as *mut Scope).as_mut()
 }
 
 /// Sets a variable in the current Stuart scope.
@@ -52,7 +57,6 @@ pub fn set_variable<'s>(
     args: v8::FunctionCallbackArguments<'s>,
     _ret: v8::ReturnValue,
 ) {
-    let stuart_scope = unsafe { get_stuart_context(scope, args.this()) };
     let key = args.get(0).to_rust_string_lossy(scope);
     let value = args.get(1);
     let json_value = super::json::js_to_json(value, scope);
@@ -65,11 +69,13 @@ pub fn set_variable<'s>(
         return;
     }
 
-    stuart_scope
-        .stack
-        .last_mut()
-        .unwrap()
-        .add_variable(key, json_value.unwrap());
+    if let Some(stuart_scope) = unsafe { get_stuart_context() } {
+        stuart_scope
+            .stack
+            .last_mut()
+            .unwrap()
+            .add_variable(key, json_value.unwrap());
+    }
 }
 
 /// Gets a variable from the current Stuart scope.
@@ -78,9 +84,8 @@ pub fn get_variable<'s>(
     args: v8::FunctionCallbackArguments<'s>,
     mut ret: v8::ReturnValue,
 ) {
-    let stuart_scope = unsafe { get_stuart_context(scope, args.this()) };
     let key = args.get(0).to_rust_string_lossy(scope);
-    let value = stuart_scope.get_variable(&key);
+    let value = unsafe { get_stuart_context() }.and_then(|s| s.get_variable(&key));
     let v8_value = super::json::json_to_js(value, scope);
 
     ret.set(v8_value);
diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 091d937..34834ee 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -208,12 +208,15 @@ impl Function for JSFunction {
             // If I've done this right (which is a big if), this should be safe because the V8 scope is dropped/GC'd as soon as `execute` returns.
             context::set_stuart_context(scope, stuart_scope);
 
-            if let Some(result) = function.call(scope, function_obj, &evaluated_args) {
-                if !result.is_undefined() {
-                    stuart_scope
-                        .output(result.to_rust_string_lossy(scope))
-                        .unwrap();
-                }
+            let result = function
+                .call(scope, function_obj, &evaluated_args)
+                .filter(|result| !result.is_undefined())
+                .map(|result| result.to_rust_string_lossy(scope));
+
+            context::clear_stuart_context();
+
+            if let Some(result) = result {
+                stuart_scope.output(result).unwrap();
             }
 
             Ok(())
-- 
2.43.0


From 9f4423ef7203489705d76858d072c38f8cc857db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 09/53] fix: fail the build when a JavaScript plugin function
 throws or is not a function

---
 stuart-core/src/error.rs     |  2 ++
 stuart/src/error.rs          |  2 ++
 stuart/src/plugins/js/mod.rs | 14 +++++++++++++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/error.rs b/stuart-core/src/error.rs
index 74dc17d..cae5bc4 100644
--- a/stuart-core/src/error.rs
+++ b/stuart-core/src/error.rs
@@ -105,6 +105,8 @@ pub enum ProcessError {
     NullError(String),
     /// The file was not found.
     NotFound(String),
+    /// A plugin function failed.
+    Plugin(String),
 
     /// The data type of the variable was invalid.
     InvalidDataType {
diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index e5dc5b2..b55d56d 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -289,6 +289,7 @@ impl StuartError for ProcessError {
             }
             ProcessError::NullError(name) => format!("null error: `{}`", name).display(buf),
             ProcessError::NotFound(name) => format!("not found: `{}`", name).display(buf),
+            ProcessError::Plugin(message) => format!("plugin error: {}", message).display(buf),
             ProcessError::InvalidDataType {
                 variable,
                 expected,
@@ -341,6 +342,7 @@ impl StuartError for ProcessError {
                     .to_string(),
             ),
             ProcessError::NotFound(_) => None,
+            ProcessError::Plugin(_) => None,
             ProcessError::InvalidDataType { .. } => None,
         }
     }
diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 34834ee..c53da75 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -202,12 +202,18 @@ impl Function for JSFunction {
 
             let key = v8::String::new(scope, &format!("_stuart_{}", self.name)).unwrap();
             let function_obj = context.global(scope).get(scope, key.into()).unwrap();
-            let function = v8::Local::<v8::Function>::try_from(function_obj).unwrap();
+            let function = v8::Local::<v8::Function>::try_from(function_obj).map_err(|_| {
+                self_token.traceback(ProcessError::Plugin(format!(
+                    "`{}` is not a function",
+                    self.name
+                )))
+            })?;
 
             // Make the `stuart_scope`` variable accessible from JavaScript calls back into Rust.
             // If I've done this right (which is a big if), this should be safe because the V8 scope is dropped/GC'd as soon as `execute` returns.
             context::set_stuart_context(scope, stuart_scope);
 
+            let scope = &mut v8::TryCatch::new(scope);
             let result = function
                 .call(scope, function_obj, &evaluated_args)
                 .filter(|result| !result.is_undefined())
@@ -215,6 +221,12 @@ impl Function for JSFunction {
 
             context::clear_stuart_context();
 
+            if let Some(exception) = scope.exception() {
+                let message = exception.to_rust_string_lossy(scope);
+
+                return Err(self_token.traceback(ProcessError::Plugin(message)));
+            }
+
             if let Some(result) = result {
                 stuart_scope.output(result).unwrap();
             }
-- 
2.43.0


From 1193c6d8842109f0368e5ca5be8fd4fe1f691c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 10/53] fix: allow markdown files to iterate over directories
 of markdown files

---
 stuart-core/src/parse/markdown.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index 3b24ee1..e696bd1 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -104,9 +104,14 @@ impl ParsedMarkdown {
     ///
     /// **Warning:** this function also returns the body of the file as an HTML string. This can be very large, so if the contents
     ///   is not required, consider using [`ParsedMarkdown::to_json`], which does the same thing without returning the contents.
+    ///
+    /// If the body has not been processed yet, which is the case for functions executed within markdown, the contents are null.
     pub fn to_value(&self) -> Value {
         let mut v = self.frontmatter_to_value();
-        v["content"] = Value::String(self.html.as_ref().unwrap().clone());
+        v["content"] = self
+            .html
+            .as_ref()
+            .map_or(Value::Null, |html| Value::String(html.clone()));
         v["markdown"] = Value::String(self.markdown_string.clone());
         v
     }
-- 
2.43.0


From bd4db471ed44a828cb3d9ee4d53c4505c7d2a413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 11/53] fix: display errors which have no line number instead
 of panicking

---
 stuart/src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index b55d56d..fadb2cb 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -97,7 +97,8 @@ impl<T: Clone + Debug + StuartError> StuartError for TracebackError<T> {
 
         let line = read_to_string(&self.path)
             .ok()
-            .and_then(|s| s.lines().nth(self.line as usize - 1).map(|s| s.to_string()));
+            .zip((self.line as usize).checked_sub(1))
+            .and_then(|(s, index)| s.lines().nth(index).map(|s| s.to_string()));
 
         // Output first line (e.g. `error: some error message`)
         buf.set_color(
-- 
2.43.0


From 1f27dbeee8fa0302517328ef65275193273ef65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 12/53] fix: report the right line for errors in markdown files
 with frontmatter

---
 stuart-core/src/parse/markdown.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index e696bd1..d9dc26a 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -89,7 +89,15 @@ pub fn parse_markdown(
         .collect::<Vec<_>>()
         .join("\n");
 
-    let markdown = parse_html(&raw_markdown, path, plugins)?;
+    // The locations are relative to the body, so they need to be offset by the length of the frontmatter.
+    let mut markdown = parse_html(&raw_markdown, path, plugins).map_err(|mut e| {
+        e.line += lines_to_skip as u32;
+        e
+    })?;
+
+    for token in &mut markdown {
+        token.line += lines_to_skip as u32;
+    }
 
     Ok(ParsedMarkdown {
         frontmatter,
-- 
2.43.0


From 3d394d2fda01df662ea222adadcd8282a58a20b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 13/53] fix: only add an ellipsis to excerpts which have been
 truncated

---
 stuart-core/src/functions/parsers/excerpt.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/stuart-core/src/functions/parsers/excerpt.rs b/stuart-core/src/functions/parsers/excerpt.rs
index 224f52a..c0d77b7 100644
--- a/stuart-core/src/functions/parsers/excerpt.rs
+++ b/stuart-core/src/functions/parsers/excerpt.rs
@@ -61,7 +61,6 @@ impl Function for ExcerptFunction {
         let mut chars = string.chars();
         let mut excerpt = String::with_capacity(self.length + 3);
         let mut tag = false;
-        let mut total_chars: usize = 0;
 
         while excerpt.len() < self.length {
             if let Some(ch) = chars.next() {
@@ -72,14 +71,12 @@ impl Function for ExcerptFunction {
                 } else if !tag {
                     excerpt.push(ch);
                 }
-
-                total_chars += 1;
             } else {
                 break;
             }
         }
 
-        if total_chars < string.len() {
+        if chars.next().is_some() {
             excerpt.push_str("...");
         }
 
-- 
2.43.0


From a8c2d604aa4cdd8169c2015393a151d316e3cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 14/53] fix: handle environment variables which are not Unicode
 or clash with STUART_ENV

---
 stuart-core/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index d603c01..a638fd4 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -136,7 +136,11 @@ impl Stuart {
         self.input = Some(input.clone());
 
         let vars = {
-            let mut env = std::env::vars().collect::<Vec<_>>();
+            // Variables which aren't valid Unicode can't be represented, and `STUART_ENV` must be that of this build.
+            let mut env = std::env::vars_os()
+                .filter_map(|(k, v)| Some((k.into_string().ok()?, v.into_string().ok()?)))
+                .filter(|(k, _)| k != "STUART_ENV")
+                .collect::<Vec<_>>();
             env.push(("STUART_ENV".into(), stuart_env));
             env
         };
-- 
2.43.0


From 69da8020c44e133a9c79df15c68b8a1879158a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 15/53] fix: reject a root template with an unclosed section
 instead of dropping its output

---
 stuart-core/src/process/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/process/mod.rs b/stuart-core/src/process/mod.rs
index fc32c0b..cafadea 100644
--- a/stuart-core/src/process/mod.rs
+++ b/stuart-core/src/process/mod.rs
@@ -135,8 +135,19 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        let frame = scope
+            .stack
+            .pop()
+            .filter(|frame| frame.name == "base")
+            .ok_or(TracebackError {
+                path: self.source().to_path_buf(),
+                line: 0,
+                column: 0,
+                kind: ProcessError::StackError,
+            })?;
+
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(frame.output),
             new_name: None,
         })
     }
@@ -206,10 +217,21 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        let frame = scope
+            .stack
+            .pop()
+            .filter(|frame| frame.name == "base")
+            .ok_or(TracebackError {
+                path: self.source().to_path_buf(),
+                line: 0,
+                column: 0,
+                kind: ProcessError::StackError,
+            })?;
+
         let new_name = format!("{}.html", self.name().strip_suffix(".md").unwrap());
 
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(frame.output),
             new_name: Some(new_name),
         })
     }
-- 
2.43.0


From 89a2c2db67b551c3ab154d8b32fef8fb0ed4f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 16/53] fix: read directories in a defined order, and fail if
 they cannot be read in full

---
 stuart-core/src/fs/mod.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 0f3129a..9daa16f 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -171,16 +171,20 @@ impl Node {
         let content = read_dir(dir)
             .map_err(|_| Error::Fs(FsError::NotFound(dir.to_string_lossy().to_string())))?;
 
-        let children = content
-            .flatten()
-            .map(|path| {
-                let path = path.path();
-
-                match metadata(&path).map(|m| m.file_type()) {
-                    Ok(t) if t.is_dir() => Self::create_from_dir(&path, parse, plugins),
-                    Ok(t) if t.is_file() => Self::create_from_file(&path, parse, plugins),
-                    _ => Err(Error::Fs(FsError::Read)),
-                }
+        let mut paths = content
+            .map(|entry| entry.map(|e| e.path()))
+            .collect::<Result<Vec<_>, _>>()
+            .map_err(|_| Error::Fs(FsError::Read))?;
+
+        // The order in which the filesystem returns the entries is not defined, so sort them to make builds reproducible.
+        paths.sort();
+
+        let children = paths
+            .into_iter()
+            .map(|path| match metadata(&path).map(|m| m.file_type()) {
+                Ok(t) if t.is_dir() => Self::create_from_dir(&path, parse, plugins),
+                Ok(t) if t.is_file() => Self::create_from_file(&path, parse, plugins),
+                _ => Err(Error::Fs(FsError::Read)),
             })
             .collect::<Result<_, _>>()?;
 
-- 
2.43.0


From 65a05e1d70a31cca74f6c1d951021b8cde88751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 17/53] fix: save all static files, including JSON files and
 ones named like templates

---
 stuart-core/src/fs/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 9daa16f..0f12150 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -357,9 +357,11 @@ impl Node {
                 parsed_contents,
                 ..
             } => {
-                if name != "root.html"
-                    && name != "md.html"
-                    && (config.save_data_files || !name.ends_with(".json"))
+                // Static files are ignored, so they are always saved exactly as they are.
+                if parsed_contents.is_ignored()
+                    || (name != "root.html"
+                        && name != "md.html"
+                        && (config.save_data_files || !name.ends_with(".json")))
                 {
                     if config.strip_extensions
                         && name.ends_with(".html")
-- 
2.43.0


From 9750bf77d9d3a79e043ab59cd857723afe793966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 18/53] fix: detect files which would be saved to the same
 path, before removing the previous output

---
 stuart-core/src/fs/mod.rs | 102 ++++++++++++++++++++++++++++----------
 1 file changed, 77 insertions(+), 25 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 0f12150..656db1d 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -14,6 +14,7 @@ pub use crate::parse::ParsedContents;
 use humphrey_json::prelude::*;
 use humphrey_json::Value;
 
+use std::collections::HashMap;
 use std::fmt::Debug;
 use std::fs::{create_dir, metadata, read, read_dir, remove_dir_all, write};
 use std::io::ErrorKind;
@@ -265,6 +266,11 @@ impl Node {
     pub fn save(&self, path: impl AsRef<Path>, config: &Config) -> Result<(), Error> {
         let path = path.as_ref().to_path_buf();
 
+        let mut saved = HashMap::new();
+        for child in self.children().unwrap_or_default() {
+            child.check_conflicts(&path, config, &mut saved)?;
+        }
+
         if path.exists() && path.is_dir() {
             remove_dir_all(&path).map_err(|_| Error::Fs(FsError::Write))?;
         }
@@ -351,37 +357,83 @@ impl Node {
                     child.save_recur(&dir, config)?;
                 }
             }
-            Self::File {
-                name,
-                contents,
-                parsed_contents,
-                ..
-            } => {
-                // Static files are ignored, so they are always saved exactly as they are.
-                if parsed_contents.is_ignored()
-                    || (name != "root.html"
-                        && name != "md.html"
-                        && (config.save_data_files || !name.ends_with(".json")))
-                {
-                    if config.strip_extensions
-                        && name.ends_with(".html")
-                        && name != "index.html"
-                        && !parsed_contents.is_ignored()
-                    {
-                        let directory_name = name.strip_suffix(".html").unwrap().to_string();
-                        let dir = path.join(directory_name);
-
-                        match create_dir(&dir) {
+            Self::File { contents, .. } => {
+                if let Some(output_path) = self.output_path(&path, config) {
+                    // If extensions are being stripped, the file has its own directory.
+                    if let Some(dir) = output_path.parent().filter(|dir| *dir != path) {
+                        match create_dir(dir) {
                             Ok(_) => (),
                             Err(e) if e.kind() == ErrorKind::AlreadyExists => (),
                             Err(_) => return Err(Error::Fs(FsError::Write)),
                         };
+                    }
 
-                        write(dir.join("index.html"), contents)
-                            .map_err(|_| Error::Fs(FsError::Write))?;
-                    } else {
-                        write(path.join(name), contents).map_err(|_| Error::Fs(FsError::Write))?;
+                    write(output_path, contents).map_err(|_| Error::Fs(FsError::Write))?;
+                }
+            }
+        }
+
+        Ok(())
+    }
+
+    /// Returns the path to which this file is saved if its parent directory is saved to the given path,
+    /// or `None` if the file is not part of the output.
+    fn output_path(&self, parent: &Path, config: &Config) -> Option<PathBuf> {
+        let name = self.name();
+
+        // Static files are ignored, so they are always saved exactly as they are.
+        if self.parsed_contents().is_ignored() {
+            return Some(parent.join(name));
+        }
+
+        if name == "root.html"
+            || name == "md.html"
+            || (!config.save_data_files && name.ends_with(".json"))
+        {
+            return None;
+        }
+
+        match name.strip_suffix(".html") {
+            Some(stem) if config.strip_extensions && name != "index.html" => {
+                Some(parent.join(stem).join("index.html"))
+            }
+            _ => Some(parent.join(name)),
+        }
+    }
+
+    /// Recursively checks that no two files would be saved to the same path, and that no file would be saved to the
+    /// path of a directory, which cannot be detected by merging alone if extensions are being stripped.
+    ///
+    /// The map contains the nodes which have been checked so far by their output paths.
+    fn check_conflicts<'a>(
+        &'a self,
+        parent: &Path,
+        config: &Config,
+        saved: &mut HashMap<PathBuf, (&'a Node, bool)>,
+    ) -> Result<(), Error> {
+        let mut insert = |path: PathBuf, is_dir: bool| match saved.insert(path, (self, is_dir)) {
+            Some((other, other_is_dir)) if !is_dir || !other_is_dir => Err(Error::Fs(
+                FsError::Conflict(other.source().to_path_buf(), self.source().to_path_buf()),
+            )),
+            _ => Ok(()),
+        };
+
+        match self {
+            Self::Directory { name, children, .. } => {
+                let dir = parent.join(name);
+                insert(dir.clone(), true)?;
+
+                for child in children {
+                    child.check_conflicts(&dir, config, saved)?;
+                }
+            }
+            Self::File { .. } => {
+                if let Some(path) = self.output_path(parent, config) {
+                    if let Some(dir) = path.parent().filter(|dir| *dir != parent) {
+                        insert(dir.to_path_buf(), true)?;
                     }
+
+                    insert(path, false)?;
                 }
             }
         }
-- 
2.43.0


From 1d7bc407f9f31d3f79e5f250d5cf2aeba53a36bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 19/53] fix: never save a page outside of its directory when
 stripping its extension

---
 stuart-core/src/fs/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 656db1d..1bd66cf 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -394,6 +394,8 @@ impl Node {
         }
 
         match name.strip_suffix(".html") {
+            // Names such as `...html` can't be stripped, since they would not name a directory within the parent.
+            Some("" | "." | "..") => Some(parent.join(name)),
             Some(stem) if config.strip_extensions && name != "index.html" => {
                 Some(parent.join(stem).join("index.html"))
             }
-- 
2.43.0


From e950047ca4115238804d5d169aea554f814cd468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 20/53] fix: escape the name and author in the manifest of a
 new site

---
 stuart/src/new.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 0c56aac..53fceed 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -21,12 +21,16 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     let path = PathBuf::from(name);
     let no_git = args.is_present("no-git");
 
-    let mut manifest: Vec<u8> = format!("[site]\nname = \"{}\"", name).as_bytes().to_vec();
+    let mut manifest: Vec<u8> = format!("[site]\nname = {}", toml::Value::from(name))
+        .as_bytes()
+        .to_vec();
 
     if let Some((name, email)) =
         git::get_user_name().and_then(|name| git::get_user_email().map(|email| (name, email)))
     {
-        write!(&mut manifest, "\nauthor = \"{} <{}>\"", name, email).unwrap();
+        let author = toml::Value::from(format!("{} <{}>", name, email));
+
+        write!(&mut manifest, "\nauthor = {}", author).unwrap();
     }
 
     manifest.push(b'\n');
-- 
2.43.0


From c67a5f9cd0d0eafe5b790285cc945a3e6a6d5ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 21/53] fix: initialise the Git repository of a new site with
 an absolute path in the right place

---
 stuart/src/new.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 53fceed..aa076ba 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -43,7 +43,8 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     extract(&path, &DEFAULT_PROJECT)?;
 
     if !no_git {
-        git::init_repository(&format!("./{}", name));
+        // The prefix stops a relative path from being interpreted as an option, and has no effect on an absolute one.
+        git::init_repository(&Path::new(".").join(&path).to_string_lossy());
 
         write(path.join(".gitignore"), b"dist/\n_build/\nmetadata.json\n")
             .map_err(|_| FsError::Write)?;
-- 
2.43.0


From 3a6aea375bc034dd6cce87ba3fd0beb55f38555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 22/53] fix: refuse to build into a directory which contains
 the input

---
 stuart-core/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index a638fd4..ce8691b 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -20,6 +20,7 @@ pub use config::Config;
 pub use error::{Error, TracebackError};
 pub use fs::Node;
 
+use crate::error::FsError;
 use crate::fs::ParsedContents;
 use crate::parse::LocatableToken;
 use crate::plugins::Manager;
@@ -183,6 +184,13 @@ impl Stuart {
 
     /// Saves the build output to a directory.
     pub fn save(&self, path: impl AsRef<Path>) -> Result<(), Error> {
+        // Saving removes the previous contents of the directory, so it must not contain the input.
+        if let (Ok(path), Ok(dir)) = (path.as_ref().canonicalize(), self.dir.canonicalize()) {
+            if dir.starts_with(path) {
+                return Err(Error::Fs(FsError::Write));
+            }
+        }
+
         if let Some(out) = &self.output {
             out.save(&path, &self.config)
         } else {
-- 
2.43.0


From c97e32401516e30562fc4c6bd49dc90cda5161f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 23/53] fix: sort loops by numeric keys instead of ignoring
 them

---
 stuart-core/src/functions/parsers/for.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index f174450..1bac13c 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -207,12 +207,21 @@ impl Function for ForFunction {
         if let Some(key) = &self.sort_variable {
             let indexes = key.split('.').skip(1).collect::<Vec<_>>();
 
-            variables.sort_by_cached_key(|v| {
-                crate::process::stack::get_value(&indexes, v)
-                    .as_str()
-                    .unwrap_or("")
-                    .to_string()
-            });
+            // Strings are sorted alphabetically and numbers numerically, with anything else first.
+            let mut keyed = variables
+                .into_iter()
+                .map(|v| {
+                    let key = crate::process::stack::get_value(&indexes, &v);
+                    let string = key.as_str().unwrap_or("").to_string();
+                    let number = key.as_number().unwrap_or(f64::NEG_INFINITY);
+
+                    (string, number, v)
+                })
+                .collect::<Vec<_>>();
+
+            keyed.sort_by(|(s1, n1, _), (s2, n2, _)| s1.cmp(s2).then(n1.total_cmp(n2)));
+
+            variables = keyed.into_iter().map(|(_, _, v)| v).collect();
         }
 
         let mut variable_iter: Box<dyn Iterator<Item = Value>> = match self.sort_order {
-- 
2.43.0


From 5c76e0a10b276b3edb996cc451a59aa29191b9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 24/53] fix: keep the development server running after file
 events which have no path

---
 stuart/src/serve/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index d4e7e02..4224ec1 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -96,7 +96,11 @@ fn build_watcher(
 ) {
     loop {
         if let Ok(e) = rx.recv() {
-            let p = e.path.as_ref().unwrap().strip_prefix(&path).unwrap();
+            // Events such as those for directories which have already been removed have no path.
+            let p = match e.path.as_ref().and_then(|p| p.strip_prefix(&path).ok()) {
+                Some(p) => p,
+                None => continue,
+            };
 
             if p.starts_with("dist") || p.starts_with("temp") {
                 continue;
-- 
2.43.0


From c48826f79e0ad2ec8c0fb6770f1e334a3313c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 25/53] fix: never rebuild in the development server because of
 files the build has written

---
 stuart/src/serve/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 4224ec1..6eb84b8 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -19,7 +19,7 @@ use notify::{raw_watcher, RawEvent, RecursiveMode, Watcher};
 
 use std::fs::File;
 use std::io::Read;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::mpsc::{channel, Receiver};
 use std::sync::{Arc, Mutex};
 use std::thread::spawn;
@@ -102,7 +102,13 @@ fn build_watcher(
                 None => continue,
             };
 
-            if p.starts_with("dist") || p.starts_with("temp") {
+            // Files generated by the build must not cause another one.
+            if p.starts_with("dist")
+                || p.starts_with("temp")
+                || p.starts_with("_build")
+                || p == Path::new("metadata.json")
+                || path.join(p).starts_with(path.join(&ctx.output))
+            {
                 continue;
             }
 
-- 
2.43.0


From 6a18380300fe3de72b6f5ea7c96c971c70fe105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 26/53] fix: only inject the reload script into HTML files in
 the development server

---
 stuart/src/serve/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 6eb84b8..243f133 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -180,7 +180,12 @@ fn serve_dir(request: Request, state: Arc<State>) -> Response {
                     let mut buf = Vec::new();
 
                     if file.read_to_end(&mut buf).is_ok() {
-                        if let Some(index) = buf.windows(7).position(|w| w == b"</body>") {
+                        let is_html = path
+                            .extension()
+                            .map_or(false, |e| e == "html" || e == "htm");
+                        let body_end = buf.windows(7).position(|w| w == b"</body>");
+
+                        if let (true, Some(index)) = (is_html, body_end) {
                             let mut to_inject = Vec::with_capacity(JS.len() + 17);
                             to_inject.extend_from_slice(b"<script>");
                             to_inject.extend_from_slice(JS);
-- 
2.43.0


From 684c4f370826ebfaa241db960ab82a671b92daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:19 +0000
Subject: [PATCH 27/53] fix: run build scripts in a defined order, and fail if
 they cannot be read

---
 stuart/src/build.rs   |  1 +
 stuart/src/scripts.rs | 54 +++++++++++++++++++++++++------------------
 2 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 48c31da..d2b81ba 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -71,6 +71,7 @@ impl StuartContext {
         let config: Config = config.into();
 
         let scripts = Scripts::from_directory(path.parent().unwrap().join("scripts"))
+            .map_err(|e| format!("failed to read scripts:\n  {}", e))?
             .with_environment_variables(vec![
                 (
                     "STUART_MANIFEST_PATH".into(),
diff --git a/stuart/src/scripts.rs b/stuart/src/scripts.rs
index 097012b..09d34a9 100644
--- a/stuart/src/scripts.rs
+++ b/stuart/src/scripts.rs
@@ -1,6 +1,7 @@
 //! Provides methods for locating and executing build scripts.
 
-use std::fs::read_dir;
+use std::fs::{metadata, read_dir};
+use std::io::{Error, ErrorKind};
 use std::path::{Path, PathBuf};
 use std::process::Command;
 
@@ -51,29 +52,38 @@ pub enum ScriptError {
 }
 
 impl Scripts {
-    /// Loads scripts from the given directory.
-    pub fn from_directory(dir: impl AsRef<Path>) -> Self {
-        if let Ok(dir) = read_dir(dir.as_ref()) {
-            let mut scripts = Self::default();
-
-            for entry in dir.flatten() {
-                if entry.path().is_file() {
-                    if constants::PRE_BUILD_SCRIPT_NAMES
-                        .contains(&entry.file_name().to_string_lossy().as_ref())
-                    {
-                        scripts.on_pre_build.push(entry.path());
-                    } else if constants::POST_BUILD_SCRIPT_NAMES
-                        .contains(&entry.file_name().to_string_lossy().as_ref())
-                    {
-                        scripts.on_post_build.push(entry.path());
-                    }
-                }
+    /// Loads scripts from the given directory, if it exists.
+    pub fn from_directory(dir: impl AsRef<Path>) -> Result<Self, Error> {
+        let mut scripts = Self::default();
+
+        let dir = match read_dir(dir.as_ref()) {
+            Ok(dir) => dir,
+            Err(e) if e.kind() == ErrorKind::NotFound => return Ok(scripts),
+            Err(e) => return Err(e),
+        };
+
+        let mut entries = dir.collect::<Result<Vec<_>, _>>()?;
+
+        // The order in which the filesystem returns the entries is not defined.
+        entries.sort_by_key(|entry| entry.file_name());
+
+        for entry in entries {
+            let name = entry.file_name().to_string_lossy().to_string();
+
+            let scripts = if constants::PRE_BUILD_SCRIPT_NAMES.contains(&name.as_str()) {
+                &mut scripts.on_pre_build
+            } else if constants::POST_BUILD_SCRIPT_NAMES.contains(&name.as_str()) {
+                &mut scripts.on_post_build
+            } else {
+                continue;
+            };
+
+            if metadata(entry.path())?.is_file() {
+                scripts.push(entry.path());
             }
-
-            scripts
-        } else {
-            Self::default()
         }
+
+        Ok(scripts)
     }
 
     /// Sets the environment variables to pass to scripts.
-- 
2.43.0


From cab025e56438563cd145e598ccdadb89e15b1feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 28/53] fix: fail the build if static or temp cannot be read or
 temp cannot be removed

---
 stuart/src/build.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index d2b81ba..6c12513 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -4,9 +4,11 @@ use crate::error::StuartError;
 use crate::scripts::Scripts;
 use crate::{config, plugins};
 
-use stuart_core::{Config, Node, Stuart, TracebackError};
+use stuart_core::error::FsError;
+use stuart_core::{Config, Error, Node, Stuart, TracebackError};
 
 use std::fs::{read_to_string, remove_dir_all};
+use std::io::ErrorKind;
 use std::path::PathBuf;
 use std::time::Instant;
 
@@ -143,13 +145,16 @@ impl StuartContext {
         for dir in ["static", "temp"] {
             let dir_path = self.project_dir.join(dir);
 
-            if dir_path.exists() {
+            if dir_path.try_exists().map_err(|_| Error::Fs(FsError::Read))? {
                 let node = Node::new(dir_path, false)?;
                 self.stuart.merge_output(node)?;
             }
         }
 
-        remove_dir_all(self.project_dir.join("temp")).ok();
+        match remove_dir_all(self.project_dir.join("temp")) {
+            Err(e) if e.kind() != ErrorKind::NotFound => Err(Error::Fs(FsError::Write))?,
+            _ => (),
+        }
 
         let save_start = Instant::now();
         self.stuart.save(self.project_dir.join(&self.output))?;
-- 
2.43.0


From 146adfff515e6e95a86212b416611723ed535692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 29/53] fix: refuse an output directory which overlaps with any
 input directory

---
 stuart/src/build.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 6c12513..788c440 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -125,6 +125,20 @@ impl StuartContext {
 
     /// Builds the site with the given configuration.
     pub fn build(&mut self) -> Result<BuildInfo, Box<dyn StuartError>> {
+        // Saving replaces the output directory, so it must not overlap with the inputs.
+        if let Ok(output) = self.project_dir.join(&self.output).canonicalize() {
+            for dir in ["content", "static", "scripts"] {
+                if let Ok(input) = self.project_dir.join(dir).canonicalize() {
+                    if input.starts_with(&output) || output.starts_with(&input) {
+                        return Err(Box::new(format!(
+                            "output directory overlaps with input directory `{}`",
+                            dir
+                        )));
+                    }
+                }
+            }
+        }
+
         let pre_build_start = Instant::now();
         self.scripts.execute_pre_build()?;
         let pre_build_duration = pre_build_start.elapsed().as_micros();
-- 
2.43.0


From ba093df2e1676c985582091003094e6aec35ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 30/53] fix: save markdown pages called root.md or md.md

---
 stuart-core/src/fs/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 1bd66cf..9100a0a 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -386,8 +386,9 @@ impl Node {
             return Some(parent.join(name));
         }
 
-        if name == "root.html"
-            || name == "md.html"
+        // Markdown files called `root.md` or `md.md` are regular pages although they are renamed.
+        if self.source().ends_with("root.html")
+            || self.source().ends_with("md.html")
             || (!config.save_data_files && name.ends_with(".json"))
         {
             return None;
-- 
2.43.0


From aeb8f67034b9426521f5948721d9f61760e3e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:12 +0000
Subject: [PATCH 31/53] fix: refuse an output directory within an input
 directory before it exists, too

---
 stuart/src/build.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 788c440..4444779 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -126,7 +126,17 @@ impl StuartContext {
     /// Builds the site with the given configuration.
     pub fn build(&mut self) -> Result<BuildInfo, Box<dyn StuartError>> {
         // Saving replaces the output directory, so it must not overlap with the inputs.
-        if let Ok(output) = self.project_dir.join(&self.output).canonicalize() {
+        // It may not exist yet, but its parent has to.
+        let output = self.project_dir.join(&self.output);
+        let output =
+            output
+                .canonicalize()
+                .or_else(|e| match (output.parent(), output.file_name()) {
+                    (Some(parent), Some(name)) => Ok(parent.canonicalize()?.join(name)),
+                    _ => Err(e),
+                });
+
+        if let Ok(output) = output {
             for dir in ["content", "static", "scripts"] {
                 if let Ok(input) = self.project_dir.join(dir).canonicalize() {
                     if input.starts_with(&output) || output.starts_with(&input) {
@@ -159,7 +169,10 @@ impl StuartContext {
         for dir in ["static", "temp"] {
             let dir_path = self.project_dir.join(dir);
 
-            if dir_path.try_exists().map_err(|_| Error::Fs(FsError::Read))? {
+            if dir_path
+                .try_exists()
+                .map_err(|_| Error::Fs(FsError::Read))?
+            {
                 let node = Node::new(dir_path, false)?;
                 self.stuart.merge_output(node)?;
             }
-- 
2.43.0


From 785036c39084e30b397315fbe57ad48dd826d4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 32/53] fix: load plugins in a defined order

---
 stuart/src/config/mod.rs  | 4 ++--
 stuart/src/plugins/mod.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/stuart/src/config/mod.rs b/stuart/src/config/mod.rs
index 858d8e0..b40dc3c 100644
--- a/stuart/src/config/mod.rs
+++ b/stuart/src/config/mod.rs
@@ -6,7 +6,7 @@ use stuart_core::Config;
 
 use serde_derive::Deserialize;
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// Raw, unparsed configuration information from the TOML file.
 #[derive(Clone, Deserialize)]
@@ -16,7 +16,7 @@ pub struct RawConfig {
     /// Settings configuration.
     pub settings: Option<Settings>,
     /// Dependencies.
-    pub dependencies: Option<HashMap<String, String>>,
+    pub dependencies: Option<BTreeMap<String, String>>,
 }
 
 /// Raw, unparsed site configuration information from the TOML file.
diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index c1e7b11..a2696cc 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -13,7 +13,7 @@ use stuart_core::plugins::{Manager, Plugin};
 
 use libloading::Library;
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::fs::create_dir_all;
 use std::path::Path;
 use std::time::Instant;
@@ -30,7 +30,7 @@ pub struct DynamicPluginManager {
     libraries: Vec<Library>,
 }
 
-/// Attempts to load the plugins configured in the hash map.
+/// Attempts to load the plugins configured in the map, in the order of their names.
 ///
 /// This function will automatically detect the source kind and load it appropriately.
 ///
@@ -47,7 +47,7 @@ pub struct DynamicPluginManager {
 /// os_independent_plugin = "/path/to/plugin.dll;/path/to/plugin.so"
 /// ```
 pub fn load(
-    plugins: &Option<HashMap<String, String>>,
+    plugins: &Option<BTreeMap<String, String>>,
     root: &Path,
 ) -> Result<DynamicPluginManager, Box<dyn StuartError>> {
     let plugins_start = Instant::now();
-- 
2.43.0


From b1d3245e9db1bcb4aed6254adce58ccc88038f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:40 +0000
Subject: [PATCH 33/53] fix: do not mistake plugin functions for built-in ones
 of the same name

A plugin function called as `plugin::else` or `plugin::end` ended or flipped the
conditional around it, since blocks look at the names of functions.
---
 stuart-core/src/parse/mod.rs   |  9 +++++----
 stuart-core/src/plugins/mod.rs | 27 ++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/stuart-core/src/parse/mod.rs b/stuart-core/src/parse/mod.rs
index cfc358a..3597ded 100644
--- a/stuart-core/src/parse/mod.rs
+++ b/stuart-core/src/parse/mod.rs
@@ -6,7 +6,7 @@ mod markdown;
 mod parser;
 
 use crate::functions::Function;
-use crate::plugins::Manager;
+use crate::plugins::{Manager, PluginFunction};
 
 pub use self::contents::ParsedContents;
 pub use self::function::{RawArgument, RawFunction};
@@ -259,11 +259,12 @@ fn parse_function(
                 if function_name == function.name()
                     || function_name == format!("{}::{}", plugin.name, function.name())
                 {
-                    return Ok(Token::Function(Rc::new(
-                        function
+                    return Ok(Token::Function(Rc::new(Box::new(PluginFunction {
+                        name: format!("{}::{}", plugin.name, function.name()),
+                        function: function
                             .parse(raw_function)
                             .map_err(|e| parser.traceback(e))?,
-                    )));
+                    }))));
                 }
             }
         }
diff --git a/stuart-core/src/plugins/mod.rs b/stuart-core/src/plugins/mod.rs
index 8c64595..318949e 100644
--- a/stuart-core/src/plugins/mod.rs
+++ b/stuart-core/src/plugins/mod.rs
@@ -1,8 +1,8 @@
 //! Provides the plugin system for Stuart.
 
-use crate::functions::FunctionParser;
-use crate::process::ProcessOutput;
-use crate::{Environment, Stuart};
+use crate::functions::{Function, FunctionParser};
+use crate::process::{ProcessError, ProcessOutput, Scope};
+use crate::{Environment, Stuart, TracebackError};
 
 use humphrey_json::prelude::*;
 use humphrey_json::Value;
@@ -55,6 +55,27 @@ pub trait NodeProcessor {
     }
 }
 
+/// Represents a function provided by a plugin, under its full name.
+///
+/// A plugin function can have the same name as a built-in function, but must not be mistaken for it.
+#[derive(Debug)]
+pub(crate) struct PluginFunction {
+    /// The name of the plugin and of the function.
+    pub(crate) name: String,
+    /// The function itself.
+    pub(crate) function: Box<dyn Function>,
+}
+
+impl Function for PluginFunction {
+    fn name(&self) -> &str {
+        &self.name
+    }
+
+    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
+        self.function.execute(scope)
+    }
+}
+
 impl<T> Manager for T
 where
     T: AsRef<[Plugin]>,
-- 
2.43.0


From 2b8e10dffb6ee82edf07c3d1586dd07289e3b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:55 +0000
Subject: [PATCH 34/53] fix: do not crash on a JavaScript plugin with an
 invalid number of functions

---
 stuart/src/plugins/js/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index c53da75..bf61df3 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -109,9 +109,9 @@ pub fn load_js_plugin(path: impl AsRef<Path>) -> Result<Plugin, String> {
                 .get(scope, key.into())
                 .ok_or("missing plugin functions")?
                 .uint32_value(scope)
-                .unwrap();
+                .ok_or("missing plugin functions")?;
 
-            let mut functions_vec = Vec::with_capacity(length as usize);
+            let mut functions_vec = Vec::new();
 
             for i in 0..length {
                 let function_object = functions
-- 
2.43.0


From b97ddda068b7be159d97b37f5bf33efdadc55d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:55 +0000
Subject: [PATCH 35/53] fix: do not crash when the function of a JavaScript
 plugin cannot be read

---
 stuart/src/plugins/js/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index bf61df3..baa8ca5 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -201,13 +201,16 @@ impl Function for JSFunction {
                     .collect::<Result<Vec<_>, _>>()?;
 
             let key = v8::String::new(scope, &format!("_stuart_{}", self.name)).unwrap();
-            let function_obj = context.global(scope).get(scope, key.into()).unwrap();
-            let function = v8::Local::<v8::Function>::try_from(function_obj).map_err(|_| {
-                self_token.traceback(ProcessError::Plugin(format!(
-                    "`{}` is not a function",
-                    self.name
-                )))
-            })?;
+            let (function_obj, function) = context
+                .global(scope)
+                .get(scope, key.into())
+                .and_then(|obj| Some((obj, v8::Local::<v8::Function>::try_from(obj).ok()?)))
+                .ok_or_else(|| {
+                    self_token.traceback(ProcessError::Plugin(format!(
+                        "`{}` is not a function",
+                        self.name
+                    )))
+                })?;
 
             // Make the `stuart_scope`` variable accessible from JavaScript calls back into Rust.
             // If I've done this right (which is a big if), this should be safe because the V8 scope is dropped/GC'd as soon as `execute` returns.
-- 
2.43.0


From 2eccb5ad221ae1531a82d69a8daf99ff7eb44282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:55 +0000
Subject: [PATCH 36/53] fix: fail to load a JavaScript plugin which throws an
 exception

---
 stuart/src/plugins/js/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index baa8ca5..a2a6cf5 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -74,7 +74,15 @@ pub fn load_js_plugin(path: impl AsRef<Path>) -> Result<Plugin, String> {
             module
                 .instantiate_module(scope, |_, _, _, m| Some(m))
                 .ok_or("failed to instantiate module")?;
-            module.evaluate(scope).ok_or("failed to evaluate module")?;
+            let evaluated = module.evaluate(scope).ok_or("failed to evaluate module")?;
+
+            // Exceptions thrown by the module reject the promise which its evaluation returns.
+            if let Ok(promise) = v8::Local::<v8::Promise>::try_from(evaluated) {
+                if promise.state() == v8::PromiseState::Rejected {
+                    let exception = promise.result(scope).to_rust_string_lossy(scope);
+                    return Err(format!("failed to evaluate module: {}", exception));
+                }
+            }
 
             let key = v8::String::new(scope, "default").unwrap();
             let default = module
-- 
2.43.0


From 18da3c1c5f1b91b1ebe328032e283ef15de0ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:04 +0000
Subject: [PATCH 37/53] fix: pass JSON to JavaScript plugins unchanged if it
 has special keys

---
 stuart/src/plugins/js/json.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 9c86296..d55fa57 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -16,19 +16,19 @@ pub fn json_to_js<'a>(
             Value::Number(number) => v8::Number::new(scope, number).into(),
             Value::String(string) => v8::String::new(scope, &string).unwrap().into(),
             Value::Array(array) => {
-                let v8_array = v8::Array::new(scope, array.len() as i32);
-                for (i, value) in array.into_iter().enumerate() {
-                    let v8_value = json_to_js(Some(value), scope);
-                    v8_array.set_index(scope, i as u32, v8_value);
-                }
-                v8_array.into()
+                let elements = array
+                    .into_iter()
+                    .map(|value| json_to_js(Some(value), scope))
+                    .collect::<Vec<_>>();
+                v8::Array::new_with_elements(scope, &elements).into()
             }
             Value::Object(object) => {
                 let v8_object = v8::Object::new(scope);
                 for (key, value) in object.into_iter() {
                     let v8_key = v8::String::new(scope, &key).unwrap().into();
                     let v8_value = json_to_js(Some(value), scope);
-                    v8_object.set(scope, v8_key, v8_value);
+                    // Unlike with `set`, this is also an ordinary property if the key is, for example, `__proto__`.
+                    v8_object.create_data_property(scope, v8_key, v8_value);
                 }
                 v8_object.into()
             }
-- 
2.43.0


From d6aa5729421770da5dfdaa3182361bc8176c8a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:56 +0000
Subject: [PATCH 38/53] fix: recognise the output directory in the development
 server however it is given

---
 stuart/src/serve/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 243f133..f9e53a1 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -102,12 +102,19 @@ fn build_watcher(
                 None => continue,
             };
 
+            // The output directory may be given in any form, but the events have canonical paths.
+            let output = path.join(&ctx.output);
+            let output = match (output.parent().map(|p| p.canonicalize()), output.file_name()) {
+                (Some(Ok(parent)), Some(name)) => parent.join(name),
+                _ => output.canonicalize().unwrap_or(output),
+            };
+
             // Files generated by the build must not cause another one.
             if p.starts_with("dist")
                 || p.starts_with("temp")
                 || p.starts_with("_build")
                 || p == Path::new("metadata.json")
-                || path.join(p).starts_with(path.join(&ctx.output))
+                || path.join(p).starts_with(output)
             {
                 continue;
             }
-- 
2.43.0


From a98fbf13f0964b9b4c8415014a8d905fc6c476c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:56 +0000
Subject: [PATCH 39/53] fix: rebuild in the development server after changes to
 files called stuart.toml which are not the manifest

---
 stuart/src/serve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index f9e53a1..4d8b973 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -121,7 +121,7 @@ fn build_watcher(
 
             println!();
 
-            if p.ends_with("stuart.toml") {
+            if p == Path::new("stuart.toml") {
                 log!(
                     "Detected",
                     "configuration change, please restart the server"
-- 
2.43.0


From b0a15acd2f5212cded0897cac334dd7b7cbb0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 40/53] fix: do not panic when the Cargo project of a plugin
 has no name

---
 stuart/src/plugins/source.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 77517d5..6247189 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -1,5 +1,6 @@
 //! Provides functionality for finding plugins from a source string.
 
+use crate::error::StuartError;
 use crate::scripts::ScriptError;
 
 use humphrey::Client;
@@ -33,7 +34,7 @@ pub fn find_cargo_project(root: impl AsRef<Path>, name: &str) -> Option<PathBuf>
 /// Attempts to build the Cargo project at the given path, returning the path to the compiled plugin.
 ///
 /// **Note:** this function may not work correctly in the case of workspace projects.
-pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptError> {
+pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, Box<dyn StuartError>> {
     let manifest = root.as_ref().join("Cargo.toml");
 
     let output = Command::new("cargo")
@@ -43,7 +44,7 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
         .map_err(|_| ScriptError::CouldNotExecute("<build script>".to_string()))?;
 
     if !output.status.success() {
-        return Err(ScriptError::ScriptFailure {
+        return Err(Box::new(ScriptError::ScriptFailure {
             script: format!(
                 "cargo build --release --manifest-path {}",
                 manifest.display()
@@ -51,19 +52,26 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
             exit_code: output.status.code().unwrap_or(-1),
             stdout: String::from_utf8_lossy(&output.stdout).trim().to_string(),
             stderr: String::from_utf8_lossy(&output.stderr).trim().to_string(),
-        });
+        }));
     }
 
+    let name = get_project_name(&manifest).ok_or_else(|| {
+        format!(
+            "failed to find the name of the Cargo project at `{}`",
+            manifest.display()
+        )
+    })?;
+
     #[cfg(target_os = "windows")]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("{}.dll", get_project_name(&manifest).unwrap()));
+        .join(format!("{}.dll", name));
     #[cfg(not(target_os = "windows"))]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("lib{}.so", get_project_name(&manifest).unwrap()));
+        .join(format!("lib{}.so", name));
 
     Ok(target_file)
 }
-- 
2.43.0


From 322f010350845a56a319f7a5bfddddf637983814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 41/53] fix: look for the library of a Cargo project under the
 name which Cargo gives it

---
 stuart/src/plugins/source.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 6247189..8fcda6c 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -55,7 +55,7 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, Box<dyn St
         }));
     }
 
-    let name = get_project_name(&manifest).ok_or_else(|| {
+    let name = get_library_name(&manifest).ok_or_else(|| {
         format!(
             "failed to find the name of the Cargo project at `{}`",
             manifest.display()
@@ -76,6 +76,16 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, Box<dyn St
     Ok(target_file)
 }
 
+/// Attempts to get the name of the library which Cargo builds from the given manifest.
+fn get_library_name(manifest: &Path) -> Option<String> {
+    let toml: toml::Value = toml::from_str(&read_to_string(manifest).ok()?).ok()?;
+
+    match toml.get("lib").and_then(|lib| lib.get("name")) {
+        Some(name) => name.as_str().map(|s| s.to_string()),
+        None => get_project_name(manifest).map(|name| name.replace('-', "_")),
+    }
+}
+
 /// Attempts to get the name of the Cargo project defined by the given manifest.
 fn get_project_name(manifest: &Path) -> Option<String> {
     let manifest = read_to_string(manifest).ok()?;
-- 
2.43.0


From 6ba4fe10941558dbad623a30a4bc089d8a086e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 42/53] fix: only pull a plugin if its directory is a Git
 repository

---
 stuart/src/plugins/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index a2696cc..f60ea08 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -148,7 +148,8 @@ fn load_from_source(
             .trim_start_matches("\\\\?\\")
             .to_string();
 
-        if !repo_dir.exists() {
+        // The directory may also hold downloads, and Git would look for a repository in its parents.
+        if !repo_dir.join(".git").exists() {
             log!("Cloning", "plugin `{}` from `{}`", name, src);
 
             create_dir_all(root.join("_build/plugins")).map_err(|_| Error::Fs(FsError::Write))?;
-- 
2.43.0


From f412ff69549c3d2e1286f3cde79ae7ed4e674e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 43/53] fix: do not print the progress of a benchmark or blank
 lines in quiet mode

---
 stuart/src/logger/mod.rs      |  5 +++++
 stuart/src/logger/progress.rs | 10 +++++++++-
 stuart/src/main.rs            |  4 +++-
 stuart/src/serve/mod.rs       |  4 +++-
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/stuart/src/logger/mod.rs b/stuart/src/logger/mod.rs
index 05073fc..833a005 100644
--- a/stuart/src/logger/mod.rs
+++ b/stuart/src/logger/mod.rs
@@ -47,6 +47,11 @@ impl Logger {
         LOGGER.set(self).unwrap();
     }
 
+    /// Returns `true` if only errors should be output.
+    pub fn is_quiet(&self) -> bool {
+        self.level == LogLevel::Quiet
+    }
+
     /// Returns `true` if the logger has logged anything.
     pub fn has_logged(&self) -> bool {
         self.has_logged.load(Ordering::SeqCst)
diff --git a/stuart/src/logger/progress.rs b/stuart/src/logger/progress.rs
index 1179c0d..00e2a12 100644
--- a/stuart/src/logger/progress.rs
+++ b/stuart/src/logger/progress.rs
@@ -1,5 +1,7 @@
 //! Provides the progress bar logging functionality.
 
+use super::LOGGER;
+
 use std::io::Write;
 use termcolor::{BufferWriter, Color, ColorChoice, ColorSpec, WriteColor};
 
@@ -25,6 +27,10 @@ impl Progress {
 
     /// Prints the current state of the progress bar.
     pub fn print(&self) {
+        if LOGGER.get().map_or(false, |logger| logger.is_quiet()) {
+            return;
+        }
+
         let writer = BufferWriter::stderr(ColorChoice::Always);
         let mut buffer = writer.buffer();
 
@@ -65,7 +71,9 @@ impl Iterator for Progress {
         self.print();
 
         if self.current == self.total {
-            println!();
+            if !LOGGER.get().map_or(false, |logger| logger.is_quiet()) {
+                println!();
+            }
         }
 
         Some(())
diff --git a/stuart/src/main.rs b/stuart/src/main.rs
index a269842..21483c9 100644
--- a/stuart/src/main.rs
+++ b/stuart/src/main.rs
@@ -182,7 +182,9 @@ fn bench(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
         progress.next();
     }
 
-    println!();
+    if !LOGGER.get().unwrap().is_quiet() {
+        println!();
+    }
 
     LOGGER.get().unwrap().enabled.store(true, Ordering::SeqCst);
 
diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 4d8b973..0a27060 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -119,7 +119,9 @@ fn build_watcher(
                 continue;
             }
 
-            println!();
+            if !LOGGER.get().unwrap().is_quiet() {
+                println!();
+            }
 
             if p == Path::new("stuart.toml") {
                 log!(
-- 
2.43.0


From 49f5373a4a4242c76a12c8c1c8bd05f4f92cd7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 44/53] fix: reject an argument $ without a variable name

---
 stuart-core/src/parse/function.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stuart-core/src/parse/function.rs b/stuart-core/src/parse/function.rs
index 3f23ee2..7e851a9 100644
--- a/stuart-core/src/parse/function.rs
+++ b/stuart-core/src/parse/function.rs
@@ -38,6 +38,10 @@ impl RawArgument {
 
             let variable_name = arg.strip_prefix('$').unwrap();
 
+            if variable_name.is_empty() {
+                return Err(ParseError::InvalidVariableName("<empty>".to_string()));
+            }
+
             if !variable_name
                 .chars()
                 .all(|c| c.is_alphanumeric() || c == '_' || c == '.')
-- 
2.43.0


From 615a780031dbbbeae88804f27b1477d049e2bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:18 +0000
Subject: [PATCH 45/53] fix: Setting a variable again replaces its value

---
 stuart-core/src/process/stack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/process/stack.rs b/stuart-core/src/process/stack.rs
index ed1ea98..46fe13e 100644
--- a/stuart-core/src/process/stack.rs
+++ b/stuart-core/src/process/stack.rs
@@ -36,10 +36,11 @@ impl StackFrame {
         self
     }
 
-    /// Returns the value of the variable with the given name.
+    /// Returns the value which was most recently given to the variable with the given name.
     pub fn get_variable(&self, name: &str) -> Option<&Value> {
         self.variables
             .iter()
+            .rev()
             .find(|(n, _)| n == name)
             .map(|(_, v)| v)
     }
-- 
2.43.0


From 521ea6d324d707ff952c492a9ce62a3d0b557572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 46/53] fix: An excerpt is only marked as cut off if text was
 cut off

---
 stuart-core/src/functions/parsers/excerpt.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/parsers/excerpt.rs b/stuart-core/src/functions/parsers/excerpt.rs
index c0d77b7..a8d2f4e 100644
--- a/stuart-core/src/functions/parsers/excerpt.rs
+++ b/stuart-core/src/functions/parsers/excerpt.rs
@@ -76,7 +76,18 @@ impl Function for ExcerptFunction {
             }
         }
 
-        if chars.next().is_some() {
+        // Tags which follow the excerpt are not text, so nothing is cut off if there is nothing else.
+        let cut_off = chars.any(|ch| {
+            match ch {
+                '<' => tag = true,
+                '>' => tag = false,
+                _ => return !tag,
+            }
+
+            false
+        });
+
+        if cut_off {
             excerpt.push_str("...");
         }
 
-- 
2.43.0


From 4f44acce6ec90cb4375de80ff2077cfb802587f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 47/53] fix: reject a repeated order argument of for, like the
 other ones

---
 stuart-core/src/functions/parsers/for.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index 1bac13c..51cda5a 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -69,7 +69,7 @@ impl FunctionParser for ForParser {
         let mut skip = None;
         let mut limit = None;
         let mut sort_variable = None;
-        let mut sort_order = SortOrder::Asc;
+        let mut sort_order = None;
 
         for (name, arg) in &raw.named_args {
             match name.as_str() {
@@ -102,9 +102,11 @@ impl FunctionParser for ForParser {
                     sort_variable = Some(arg.as_variable().unwrap().to_string());
                 }
                 "order" => {
+                    quiet_assert!(sort_order.is_none())?;
+
                     sort_order = match arg.as_string() {
-                        Some("asc") => SortOrder::Asc,
-                        Some("desc") => SortOrder::Desc,
+                        Some("asc") => Some(SortOrder::Asc),
+                        Some("desc") => Some(SortOrder::Desc),
                         _ => return Err(ParseError::InvalidArgument),
                     };
                 }
@@ -119,7 +121,7 @@ impl FunctionParser for ForParser {
             skip,
             limit,
             sort_variable,
-            sort_order,
+            sort_order: sort_order.unwrap_or(SortOrder::Asc),
         }))
     }
 }
-- 
2.43.0


From 8c738e91afa7a9c607051a0c8d85d512962fe137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:20 +0000
Subject: [PATCH 48/53] fix: idle connections block the development server
 forever

---
 stuart/src/serve/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 0a27060..d444bad 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -23,6 +23,7 @@ use std::path::{Path, PathBuf};
 use std::sync::mpsc::{channel, Receiver};
 use std::sync::{Arc, Mutex};
 use std::thread::spawn;
+use std::time::Duration;
 
 /// The WebSocket-based JavaScript to inject into HTML pages, allowing for hot reload.
 static JS: &[u8] = include_bytes!("main.js");
@@ -74,7 +75,9 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
     watcher.watch(&path, RecursiveMode::Recursive).unwrap();
 
     spawn(move || {
+        // An idle connection occupies one of the threads, so it must not stay open forever.
         let app = App::new_with_config(8, state)
+            .with_connection_timeout(Some(Duration::from_secs(5)))
             .with_route("/*", serve_dir)
             .with_websocket_route("/__ws", websocket_handler);
 
-- 
2.43.0


From 17f1bcf53bb87379fb1da627f578408f435a5812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 49/53] fix: report that the development server cannot be
 started

---
 stuart/src/serve/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index d444bad..6de219e 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -20,6 +20,7 @@ use notify::{raw_watcher, RawEvent, RecursiveMode, Watcher};
 use std::fs::File;
 use std::io::Read;
 use std::path::{Path, PathBuf};
+use std::process::exit;
 use std::sync::mpsc::{channel, Receiver};
 use std::sync::{Arc, Mutex};
 use std::thread::spawn;
@@ -81,8 +82,12 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
             .with_route("/*", serve_dir)
             .with_websocket_route("/__ws", websocket_handler);
 
-        app.run("127.0.0.1:6904")
-            .map_err(|_| Box::new("failed to start development server") as Box<dyn StuartError>)
+        if app.run("127.0.0.1:6904").is_err() {
+            error_handler(
+                &(Box::new("failed to start development server") as Box<dyn StuartError>),
+            );
+            exit(1);
+        }
     });
 
     build_watcher(rx, streams, path, ctx);
-- 
2.43.0


From e8bd98ea91cb11a7ba5df82de0bfd62d815f3a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 50/53] fix: sort negative zero like zero

---
 stuart-core/src/functions/parsers/for.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index 51cda5a..6ea704e 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -215,7 +215,8 @@ impl Function for ForFunction {
                 .map(|v| {
                     let key = crate::process::stack::get_value(&indexes, &v);
                     let string = key.as_str().unwrap_or("").to_string();
-                    let number = key.as_number().unwrap_or(f64::NEG_INFINITY);
+                    // Adding zero makes negative zero equal to zero.
+                    let number = key.as_number().unwrap_or(f64::NEG_INFINITY) + 0.0;
 
                     (string, number, v)
                 })
-- 
2.43.0


From cefa2c2fefb138d8b43dacc61547d28dd9507614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 51/53] fix: refuse to save over a directory of the input

---
 stuart-core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index ce8691b..06fe4e0 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -184,9 +184,9 @@ impl Stuart {
 
     /// Saves the build output to a directory.
     pub fn save(&self, path: impl AsRef<Path>) -> Result<(), Error> {
-        // Saving removes the previous contents of the directory, so it must not contain the input.
+        // Saving removes the previous contents of the directory, so it must not contain or be part of the input.
         if let (Ok(path), Ok(dir)) = (path.as_ref().canonicalize(), self.dir.canonicalize()) {
-            if dir.starts_with(path) {
+            if dir.starts_with(&path) || path.starts_with(&dir) {
                 return Err(Error::Fs(FsError::Write));
             }
         }
-- 
2.43.0


From 827c969a6fb91ff428894fc03e3a5b587db2b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:10 +0000
Subject: [PATCH 52/53] fix: reject a second else of a conditional

---
 stuart-core/src/functions/parsers/else.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/functions/parsers/else.rs b/stuart-core/src/functions/parsers/else.rs
index 8936ea6..4864b80 100644
--- a/stuart-core/src/functions/parsers/else.rs
+++ b/stuart-core/src/functions/parsers/else.rs
@@ -30,9 +30,9 @@ impl Function for ElseFunction {
     fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
         let self_token = scope.tokens.current().unwrap().clone();
 
-        let name = &scope
+        let name = &mut scope
             .stack
-            .last()
+            .last_mut()
             .ok_or_else(|| self_token.traceback(ProcessError::ElseWithoutIf))?
             .name;
 
@@ -40,6 +40,15 @@ impl Function for ElseFunction {
             return Err(self_token.traceback(ProcessError::ElseWithoutIf));
         }
 
+        // The operands are removed from the name of the frame, since a conditional has at most one `else`.
+        if let Some(operands) = name.find(':').map(|i| i + 1) {
+            if operands == name.len() {
+                return Err(self_token.traceback(ProcessError::ElseWithoutIf));
+            }
+
+            name.truncate(operands);
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 62bd80be47344824f7f01b3f0a8b33e5a5d9896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 53/53] fix: don't allocate the full length of an excerpt of a
 shorter text

---
 stuart-core/src/functions/parsers/excerpt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/parsers/excerpt.rs b/stuart-core/src/functions/parsers/excerpt.rs
index a8d2f4e..0a90d6c 100644
--- a/stuart-core/src/functions/parsers/excerpt.rs
+++ b/stuart-core/src/functions/parsers/excerpt.rs
@@ -59,7 +59,7 @@ impl Function for ExcerptFunction {
         })?;
 
         let mut chars = string.chars();
-        let mut excerpt = String::with_capacity(self.length + 3);
+        let mut excerpt = String::with_capacity(self.length.min(string.len()) + 3);
         let mut tag = false;
 
         while excerpt.len() < self.length {
-- 
2.43.0

