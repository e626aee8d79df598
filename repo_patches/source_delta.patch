From 52231381d92f6767c762c3eae3f4f0a8b3cf5658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 01/28] fix: get_value and set_value on a table key no longer
 panic or pretend to succeed

---
 src/internals/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 65976ab..9a7e3bf 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -102,6 +102,10 @@ impl<'a> Parser<'a> {
       let hashval = self.map.get(&s_key).unwrap();
       let clone = hashval.clone();
       if let Some(val) = clone.value {
+        if let TOMLValue::Table = *val.borrow() {
+          // A table header has child keys, but no value of its own
+          return None;
+        }
         Some(to_val!(&*val.borrow()))
       } else {
         None
@@ -139,6 +143,10 @@ impl<'a> Parser<'a> {
         &mut Some(ref mut v) => v,
         &mut None => return false,
       };
+      // A table header doesn't have a value that could be replaced
+      if let TOMLValue::Table = *val_rf.borrow() {
+        return false;
+      }
       // if the inline table/array has the same structure the just replace the values
       if Parser::same_structure(val_rf, &val) {
         return Parser::replace_values(val_rf, &val);
-- 
2.43.0


From e8a23c0146f9d17563abeff78946a151df735a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 02/28] fix: set_value converts the new value before changing
 anything and can change a value's kind and nesting

---
 src/internals/parser.rs | 121 ++++++++++++----------------------------
 1 file changed, 37 insertions(+), 84 deletions(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 9a7e3bf..2972e92 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -1,7 +1,6 @@
 use std::fmt;
 use std::fmt::Display;
 use std::collections::{HashMap, BTreeMap};
-use std::collections::hash_map::Entry;
 use std::cell::{Cell, RefCell};
 use std::rc::Rc;
 use std::borrow::Cow;
@@ -133,59 +132,31 @@ impl<'a> Parser<'a> {
 
   pub fn set_value<S>(self: &mut Parser<'a>, key: S, val: Value<'a>) -> bool where S: Into<String> {
     let s_key = key.into();
-    {
-      let tval = match self.map.entry(s_key.clone()) {
-        Entry::Occupied(entry) => entry.into_mut(),
-        _ => return false,
-      };
-      let opt_value: &mut Option<Rc<RefCell<TOMLValue<'a>>>> = &mut tval.value;
-      let val_rf = match opt_value {
-        &mut Some(ref mut v) => v,
-        &mut None => return false,
-      };
-      // A table header doesn't have a value that could be replaced
-      if let TOMLValue::Table = *val_rf.borrow() {
-        return false;
-      }
-      // if the inline table/array has the same structure the just replace the values
-      if Parser::same_structure(val_rf, &val) {
-        return Parser::replace_values(val_rf, &val);
-      }
+    let val_rf = match self.map.get(&s_key) {
+      Some(&HashValue{ value: Some(ref v), .. }) => v.clone(),
+      _ => return false,
+    };
+    // A table header doesn't have a value that could be replaced
+    if let TOMLValue::Table = *val_rf.borrow() {
+      return false;
+    }
+    // if the inline table/array has the same structure the just replace the values
+    if Parser::same_structure(&val_rf, &val) {
+      return Parser::replace_values(&val_rf, &val);
     }
+    // Convert the new value before touching anything, so that a value that can't be converted leaves the document as is
+    let new_value = match Parser::convert_vector(&val) {
+      Some(v) => v,
+      None => return false,
+    };
     // if the inline table/array has a different structure, delete the existing
     // array/inline table from the map and rebuild it from the new value
     let all_keys = self.get_all_subkeys(&s_key);
     for key in all_keys.iter() {
       self.map.remove(key);
     }
-    let new_value_opt = Parser::convert_vector(&val);
-    if new_value_opt.is_none() {
-      return false;
-    }
-    let new_value = new_value_opt.unwrap();
-    let new_value_clone = match new_value {
-      TOMLValue::Array(ref rc_rc) => {
-        TOMLValue::Array(rc_rc.clone())
-      },
-      TOMLValue::InlineTable(ref rc_rc) => {
-        TOMLValue::InlineTable(rc_rc.clone())
-      },
-      unknown => panic!("In Parser.set_value, new_value should only be an Array or InlineTable. Instead it's a {:?}", unknown),
-    };
-    if self.map.contains_key(&s_key) {
-      let existing_value = match self.map.entry(s_key.clone()) {
-        Entry::Occupied(entry) => entry.into_mut(),
-        _ => panic!("Map contains key, but map.entry returned a Vacant entry is set_value."),
-      };
-      let opt_value: &mut Option<Rc<RefCell<TOMLValue<'a>>>> = &mut existing_value.value;
-      let val_rf = match opt_value {
-        &mut Some(ref mut v) => v,
-        &mut None => panic!("existing_value's value is None, when this should've returned false earlier in the function."),
-      };
-      *val_rf.borrow_mut() = new_value;
-    }
-    let new_value_rc = Rc::new(RefCell::new(new_value_clone));
-    self.rebuild_vector(s_key.clone(), new_value_rc.clone(), true);
+    *val_rf.borrow_mut() = new_value;
+    self.rebuild_vector(s_key, val_rf);
     true
   }
 
@@ -220,6 +191,9 @@ impl<'a> Parser<'a> {
         for i in 0..it.len() {
           let subval = &it[i].1;
           let value_opt = Parser::convert_vector(subval);
+          if value_opt.is_none() {
+            return None;
+          }
           let value = value_opt.unwrap();
           let key_value;
           if i < it.len() - 1 {
@@ -305,49 +279,28 @@ impl<'a> Parser<'a> {
     }
   }
 
-  fn rebuild_vector(self: &mut Parser<'a>, key: String, val: Rc<RefCell<TOMLValue<'a>>>, skip: bool) {
-    match *val.borrow() {
+  fn rebuild_vector(self: &mut Parser<'a>, key: String, val: Rc<RefCell<TOMLValue<'a>>>) {
+    let mut children = vec![];
+    let subkeys = match *val.borrow() {
       TOMLValue::Array(ref arr) => {
-        {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains array key, but map.entry returned a Vacant entry in set_value."),
-          };
-          if !skip {
-            value.value = Some(val.clone());
-          }
-          value.subkeys = Children::Count(Cell::new(arr.borrow().values.len()));
-        }
-        for i in 0..arr.borrow().values.len() {
-          let subkey = format!("{}[{}]", key, i);
-          self.rebuild_vector(subkey, arr.borrow().values[i].val.clone(), false);
+        for (i, av) in arr.borrow().values.iter().enumerate() {
+          children.push((format!("{}[{}]", key, i), av.val.clone()));
         }
+        Children::Count(Cell::new(children.len()))
       },
       TOMLValue::InlineTable(ref it) => {
-        {
-          let value = match self.map.entry(key.clone()) {
-            Entry::Occupied(entry) => entry.into_mut(),
-            _ => panic!("Map contains inline table key, but map.entry returned a Vacant entry is set_value."),
-          };
-          if !skip {
-            value.value = Some(val.clone());
-          }
-          if let Children::Keys(ref child_keys) = value.subkeys {
-            for i in 0..it.borrow().keyvals.len() {
-              Parser::insert(child_keys, it.borrow().keyvals[i].keyval.key.clone().into_owned());
-            }
-          }
-        }
-        for i in 0..it.borrow().keyvals.len() {
-          let subkey = format!("{}.{}", key, &it.borrow().keyvals[i].keyval.key);
-          self.rebuild_vector(subkey, it.borrow().keyvals[i].keyval.val.clone(), false);
+        let child_keys = RefCell::new(vec![]);
+        for kv in it.borrow().keyvals.iter() {
+          Parser::insert(&child_keys, kv.keyval.key.clone().into_owned());
+          children.push((format!("{}.{}", key, kv.keyval.key), kv.keyval.val.clone()));
         }
+        Children::Keys(child_keys)
       },
-      _ => {
-        self.map.entry(key.clone()).or_insert(
-          HashValue::new_count(val.clone())
-        );
-      },
+      _ => Children::Count(Cell::new(0)),
+    };
+    self.map.insert(key, HashValue{ value: Some(val), subkeys: subkeys });
+    for (child_key, child_val) in children {
+      self.rebuild_vector(child_key, child_val);
     }
   }
 
-- 
2.43.0


From 9facfa31e3678c57acc2dbb280080fd2a6671da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 03/28] fix: printing empty documents, arrays and inline tables
 no longer panics

---
 src/internals/ast/structs.rs |  9 ++++++---
 src/types.rs                 | 12 ++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index b9b10c5..57b92d7 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -36,6 +36,9 @@ impl<'a> PartialEq for Toml<'a> {
 
 impl<'a> Display for Toml<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+      if self.exprs.len() == 0 {
+        return Ok(());
+      }
       for i in 0..self.exprs.len()-1 {
         try!(write!(f, "{}", self.exprs[i]));
       }
@@ -753,10 +756,10 @@ impl<'a> PartialEq for InlineTable<'a> {
 impl<'a> Display for InlineTable<'a> {
   fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
     try!(write!(f, "{{{}", self.ws.ws1));
-    for i in 0..self.keyvals.len() - 1 {
-      try!(write!(f, "{}", self.keyvals[i]));
-    }
     if self.keyvals.len() > 0 {
+      for i in 0..self.keyvals.len() - 1 {
+        try!(write!(f, "{}", self.keyvals[i]));
+      }
       try!(write!(f, "{}", self.keyvals[self.keyvals.len() - 1]));
     }
     write!(f, "{}}}", self.ws.ws2)
diff --git a/src/types.rs b/src/types.rs
index 5579c3f..dd92189 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -280,10 +280,10 @@ impl<'a> Display for Value<'a> {
       &Value::DateTime(ref v) => write!(f, "{}", v),
       &Value::Array(ref arr) => {
         try!(write!(f, "["));
-        for i in 0..arr.len() - 1 {
-          try!(write!(f, "{}, ", arr[i]));
-        }
         if arr.len() > 0 {
+          for i in 0..arr.len() - 1 {
+            try!(write!(f, "{}, ", arr[i]));
+          }
           try!(write!(f, "{}", arr[arr.len()-1]));
         }
         write!(f, "]")
@@ -298,10 +298,10 @@ impl<'a> Display for Value<'a> {
       },
       &Value::InlineTable(ref it) => {
         try!(write!(f, "{{"));
-        for i in 0..it.len() - 1 {
-          try!(write!(f, "{} = {}, ", it[i].0, it[i].1));
-        }
         if it.len() > 0 {
+          for i in 0..it.len() - 1 {
+            try!(write!(f, "{} = {}, ", it[i].0, it[i].1));
+          }
           try!(write!(f, "{} = {}", it[it.len()-1].0, it[it.len()-1].1));
         }
         write!(f, "}}")
-- 
2.43.0


From 28566b47cdd21549e22e13223dc3af5c2bfb15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 04/28] fix: partial parse results carry the text that was left
 over instead of an empty string

---
 src/internals/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index 2972e92..b305d90 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -45,7 +45,6 @@ impl<'a> Parser<'a> {
     let (tmp, res) = self.toml(input);
     self = tmp;
     let line_count = self.line_count.get();
-    let leftover = self.leftover.into();
     // let mut res = self.result;
     match res {
       IResult::Done(i, o) => {
@@ -54,6 +53,7 @@ impl<'a> Parser<'a> {
       },
       _ => return (self, ParseResult::Failure(line_count, 0)),
     };
+    let leftover = self.leftover.into();
     if self.leftover.len() > 0 {
       let len = self.errors.borrow().len();
       if len > 0 {
-- 
2.43.0


From 2949e003202cce4661e110cb296f16353a8a87c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 05/28] fix: parsing with a parser that was already used starts
 from a clean state

---
 src/internals/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internals/parser.rs b/src/internals/parser.rs
index b305d90..0731669 100644
--- a/src/internals/parser.rs
+++ b/src/internals/parser.rs
@@ -42,6 +42,8 @@ impl<'a> Parser<'a> {
   }
 
   pub fn parse(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, ParseResult<'a>) {
+    // Start from scratch, nothing from a previously parsed document may leak into this one
+    self = Parser::new();
     let (tmp, res) = self.toml(input);
     self = tmp;
     let line_count = self.line_count.get();
-- 
2.43.0


From b9f50a9c30b5a8700a00516eb6771106eefcce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 06/28] fix: integers and floats with trailing characters no
 longer validate

---
 src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index dd92189..4cbcda0 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -949,14 +949,14 @@ impl<'a> Value<'a> {
       &Value::Integer(ref s) => {
         let p = Parser::new();
         match p.integer(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
       &Value::Float(ref s) => {
         let p = Parser::new();
         match p.float(s) {
-           (_, IResult::Done(_, _)) => true,
+           (_, IResult::Done(i, _)) => i.len() == 0,
            (_,_) => false,
         }
       },
-- 
2.43.0


From dcbdba2e4f52302cfb74b88222d22727669d34a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 07/28] fix: date and time parts have to be digits and
 fractions can have any number of them

---
 src/types.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 4cbcda0..5072a36 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1164,6 +1164,9 @@ impl<'a> TimeOffsetAmount<'a> {
    }
 
   fn validate_numbers(&self) -> bool {
+    if !is_digits(&self.hour) || !is_digits(&self.minute) {
+      return false;
+    }
     if let Ok(h) = usize::from_str(&self.hour) {
       if h > 23 {
         return false;
@@ -1183,6 +1186,11 @@ impl<'a> TimeOffsetAmount<'a> {
 }
 
 /// Represents a date value.
+// FromStr for integers accepts a leading sign, the parts of a datetime have to be digits only
+fn is_digits(s: &str) -> bool {
+  s.len() > 0 && s.bytes().all(|b| b >= b'0' && b <= b'9')
+}
+
 // <year>-<month>-<day>
 #[derive(Debug, Eq, Clone)]
 pub struct Date<'a> {
@@ -1248,6 +1256,9 @@ impl<'a> Date<'a> {
   }
 
   fn validate_numbers(&self) -> bool {
+    if !is_digits(&self.year) || !is_digits(&self.month) || !is_digits(&self.day) {
+      return false;
+    }
     if let Ok(y) = usize::from_str(&self.year) {
       if y == 0 || y > 9999{
         return false;
@@ -1383,6 +1394,9 @@ impl<'a> Time<'a> {
   }
 
   fn validate_numbers(&self) -> bool {
+    if !is_digits(&self.hour) || !is_digits(&self.minute) || !is_digits(&self.second) {
+      return false;
+    }
     if let Ok(h) = usize::from_str(&self.hour) {
       if h > 23 {
         return false;
@@ -1405,7 +1419,7 @@ impl<'a> Time<'a> {
       return false;
     }
     if let Some(ref frac) = self.fraction {
-      if u64::from_str(frac).is_err() {
+      if !is_digits(frac) {
         return false;
       }
     }
-- 
2.43.0


From 27cbc4270405a037d1beec424242ab0c120eadd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 08/28] fix: multi-line strings that contain their own
 delimiter no longer validate

---
 src/internals/primitives.rs | 11 ++---------
 src/types.rs                | 13 +++++++------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index fa5cb6e..da077b5 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -431,22 +431,15 @@ impl<'a> Parser<'a> {
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
     re_find!(r#"^( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
-  // Multiline Basic String
-  // TODO: Convert this to take_while_s using a function that increments self.linecount
-  named!(pub quoteless_ml_basic_string<&'a str, &'a str>,
-    re_find!(r#"^([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*"#));
   // Literal String
   named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-￿])*"#));
-  // Multiline Literal String
-  // TODO: Convert to take_while_s using a function that increments self.linecount
-  named!(pub quoteless_ml_literal_string<&'a str, &'a str>, re_find!(r#"^(  |[ -￿]|\n|(\r\n))*"#));
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
     re_find!(r#"^"( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
-  method!(raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
+  method!(pub raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
    string: re_find!(r#"^"""([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
@@ -456,7 +449,7 @@ impl<'a> Parser<'a> {
   method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-￿])*?'"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
-  method!(raw_ml_literal_string<Parser<'a>, &'a str, &'a str>, self,
+  method!(pub raw_ml_literal_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
    string: re_find!(r#"^'''(  |[ -￿]|\n|(\r\n))*?'''"#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
diff --git a/src/types.rs b/src/types.rs
index 5072a36..f93f4f2 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -970,9 +970,10 @@ impl<'a> Value<'a> {
             }
           },
           StrType::MLBasic => {
-            match Parser::quoteless_ml_basic_string(s) {
-              IResult::Done(i,_) => i.len() == 0,
-              _ => false,
+            // Lex it with its delimiters, they must not end the string early
+            match Parser::new().raw_ml_basic_string(&format!("\"\"\"{}\"\"\"", s)) {
+              (_, IResult::Done(i,_)) => i.len() == 0,
+              (_,_) => false,
             }
           },
           StrType::Literal => {
@@ -982,9 +983,9 @@ impl<'a> Value<'a> {
             }
           },
           StrType::MLLiteral => {
-            match Parser::quoteless_ml_literal_string(s) {
-              IResult::Done(i,_) => i.len() == 0,
-              _ => false,
+            match Parser::new().raw_ml_literal_string(&format!("'''{}'''", s)) {
+              (_, IResult::Done(i,_)) => i.len() == 0,
+              (_,_) => false,
             }
           },
         }
-- 
2.43.0


From 46ec4390182d1bb4e4fe18eaaba5b8c4e208b881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 09/28] fix: arrays and inline tables only validate if all
 their keys and values do

---
 src/types.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index f93f4f2..89264ff 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -990,7 +990,20 @@ impl<'a> Value<'a> {
           },
         }
       },
-      _ => true,
+      &Value::Array(ref arr) => arr.iter().all(|v| v.validate()),
+      &Value::InlineTable(ref it) => {
+        for i in 0..it.len() {
+          match Parser::new().key(&it[i].0) {
+            (_, IResult::Done(rest, _)) => if rest.len() > 0 { return false; },
+            (_,_) => return false,
+          }
+          if it[..i].iter().any(|kv| kv.0 == it[i].0) || !it[i].1.validate() {
+            return false;
+          }
+        }
+        true
+      },
+      &Value::Boolean(_) => true,
     }
   }
 }
-- 
2.43.0


From b3734089f33e54e81778b1ded78f9d81e51418c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 10/28] fix: comments may contain characters above U+10FFF

---
 src/internals/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internals/util.rs b/src/internals/util.rs
index 511e431..b7347a2 100644
--- a/src/internals/util.rs
+++ b/src/internals/util.rs
@@ -2,7 +2,7 @@ use internals::ast::structs::Comment;
 use internals::parser::Parser;
 
 fn not_eol(chr: char) -> bool {
-  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFF)
+  chr as u32 == 0x09 || (chr as u32 >= 0x20 && chr as u32 <= 0x10FFFF)
 }
 
 impl<'a> Parser<'a> {
-- 
2.43.0


From 553dee439f51e2f0f59086134c885ff038285469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 11/28] fix: strings and quoted keys may contain characters
 above U+FFFF

---
 src/internals/primitives.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index da077b5..760a1de 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -430,28 +430,28 @@ impl<'a> Parser<'a> {
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-    re_find!(r#"^( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
+    re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
   // Literal String
-  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-￿])*"#));
+  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-\x{10FFFF}])*"#));
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
-    re_find!(r#"^"( |!|[#-\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
+    re_find!(r#"^"( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(pub raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-￿]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
   // Literal String
-  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-￿])*?'"#));
+  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-\x{10FFFF}])*?'"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
   method!(pub raw_ml_literal_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^'''(  |[ -￿]|\n|(\r\n))*?'''"#),
+   string: re_find!(r#"^'''(  |[ -\x{10FFFF}]|\n|(\r\n))*?'''"#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
@@ -607,7 +607,7 @@ impl<'a> Parser<'a> {
   // Key-TOMLValue pairs
   method!(unquoted_key<Parser<'a>, &'a str, &'a str>, self, take_while1_s!(is_keychar));
   method!(quoted_key<Parser<'a>, &'a str, &'a str>, self,
-    re_find!("^\"( |!|[#-\\[]|[\\]-￿]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
+    re_find!("^\"( |!|[#-\\[]|[\\]-\\x{10FFFF}]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
 
   method!(pub key<Parser<'a>, &'a str, &'a str>, mut self, alt!(
     complete!(call_m!(self.quoted_key))   =>  {|k: &'a str| {
-- 
2.43.0


From 1bd7db1377407ae6d419fc0e168264eca31a2219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 12/28] fix: unicode escapes consist of upper or lower case hex
 digits

---
 src/internals/primitives.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 760a1de..d15a263 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -430,18 +430,18 @@ impl<'a> Parser<'a> {
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-    re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*"#));
+    re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8}))*"#));
   // Literal String
   named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-\x{10FFFF}])*"#));
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
-    re_find!(r#"^"( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8}))*?""#));
+    re_find!(r#"^"( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8}))*?""#));
   // Multiline Basic String
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(pub raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Z]{4})|(\\U[0-9A-Z]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
@@ -607,7 +607,7 @@ impl<'a> Parser<'a> {
   // Key-TOMLValue pairs
   method!(unquoted_key<Parser<'a>, &'a str, &'a str>, self, take_while1_s!(is_keychar));
   method!(quoted_key<Parser<'a>, &'a str, &'a str>, self,
-    re_find!("^\"( |!|[#-\\[]|[\\]-\\x{10FFFF}]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Z]{4})|(\\\\U[0-9A-Z]{8}))+\""));
+    re_find!("^\"( |!|[#-\\[]|[\\]-\\x{10FFFF}]|(\\\\\")|(\\\\\\\\)|(\\\\/)|(\\\\b)|(\\\\f)|(\\\\n)|(\\\\r)|(\\\\t)|(\\\\u[0-9A-Fa-f]{4})|(\\\\U[0-9A-Fa-f]{8}))+\""));
 
   method!(pub key<Parser<'a>, &'a str, &'a str>, mut self, alt!(
     complete!(call_m!(self.quoted_key))   =>  {|k: &'a str| {
-- 
2.43.0


From 7cf7354f897a1c483fe437af3fdd49254be1e0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 13/28] fix: literal strings may contain tabs and multi-line
 basic strings the tab escape

---
 src/internals/primitives.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index d15a263..cf4661a 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -432,7 +432,7 @@ impl<'a> Parser<'a> {
   named!(pub quoteless_basic_string<&'a str, &'a str>,
     re_find!(r#"^( |!|[#-\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8}))*"#));
   // Literal String
-  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^( |[ -&]|[\(-\x{10FFFF}])*"#));
+  named!(pub quoteless_literal_string<&'a str, &'a str>, re_find!(r#"^(\t|[ -&]|[\(-\x{10FFFF}])*"#));
 
   // Basic String
   method!(raw_basic_string<Parser<'a>, &'a str, &'a str>, self,
@@ -441,17 +441,17 @@ impl<'a> Parser<'a> {
   // TODO: Convert this to take_while_s using a function that increments self.linecount
   method!(pub raw_ml_basic_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
+   string: re_find!(r#"^"""([ -\[]|[\]-\x{10FFFF}]|(\\")|(\\\\)|(\\/)|(\\b)|(\\f)|(\\n)|(\\r)|(\t)|(\\t)|(\\u[0-9A-Fa-f]{4})|(\\U[0-9A-Fa-f]{8})|\n|(\r\n)|(\\(\n|(\r\n))))*?""""#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
   // Literal String
-  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'( |[ -&]|[\(-\x{10FFFF}])*?'"#));
+  method!(raw_literal_string<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^'(\t|[ -&]|[\(-\x{10FFFF}])*?'"#));
   // Multiline Literal String
   // TODO: Convert to take_while_s using a function that increments self.linecount
   method!(pub raw_ml_literal_string<Parser<'a>, &'a str, &'a str>, self,
     chain!(
-   string: re_find!(r#"^'''(  |[ -\x{10FFFF}]|\n|(\r\n))*?'''"#),
+   string: re_find!(r#"^'''(\t|[ -\x{10FFFF}]|\n|(\r\n))*?'''"#),
       ||{self.line_count.set(self.line_count.get() + count_lines(string)); string}
     )
   );
-- 
2.43.0


From 645a34d13b35df370e4376940ae6252c17b4de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 14/28] fix: a table is only a subtable of another one if it
 shares whole keys with it

---
 src/internals/ast/structs.rs | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/internals/ast/structs.rs b/src/internals/ast/structs.rs
index 57b92d7..7770b1a 100644
--- a/src/internals/ast/structs.rs
+++ b/src/internals/ast/structs.rs
@@ -423,18 +423,6 @@ pub fn get_last_keys(last_table: Option<&Table>, t: &Table) -> Vec<String> {
   }
 }
 
-pub fn format_keys(t: &Table) -> String {
-  let mut s = String::new();
-  if t.keys.len() > 0 {
-    for i in 0..t.keys.len() - 1 {
-      s.push_str(&t.keys[i].key);
-      s.push('.');
-    }
-    s.push_str(&t.keys[t.keys.len() - 1].key);
-  }
-  s
-}
-
 pub fn format_tt_keys(tabletype: &TableType) -> String {
   match tabletype {
     &TableType::Standard(ref t) | &TableType::Array(ref t) => {
@@ -497,16 +485,13 @@ impl<'a> TableType<'a> {
       &TableType::Standard(ref t) | &TableType::Array(ref t) => {
         match prev {
           &TableType::Standard(ref prev_table) | &TableType::Array(ref prev_table) => {
-            let prev_key = format_keys(&prev_table);
-            let key = format_keys(t);
-            if let Some(i) = key.find(&prev_key) {
-              return i == 0;
-            }
+            // Compare whole keys, "foobar" is not a subtable of "foo"
+            t.keys.len() >= prev_table.keys.len() &&
+              prev_table.keys.iter().zip(t.keys.iter()).all(|(p, k)| p.key == k.key)
           }
         }
       }
     }
-    false
   }
 }
 
-- 
2.43.0


From 62761c5110011f4b4d06499c8a2132755eeac0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 15/28] fix: report invalid tables instead of panicking when a
 header goes through an array

---
 src/internals/objects.rs    |  3 ++-
 src/internals/primitives.rs | 15 +++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index ec81530..c788333 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -121,7 +121,8 @@ impl<'a> Parser<'a> {
                   debug!("Inserting subkey: {}", tb.keys[i].key);
                   insert = match &o.get_mut().subkeys {
                     &Children::Keys(ref vec_rf) => Parser::insert(vec_rf, tb.keys[i].key.clone().into_owned()),
-                    _ => panic!("Implicit tables can only be Standard Tables: \"{}\"", format!("{}.{}", last_key, tb.keys[i].key)),
+                    // Not a table, the caller reports it as an invalid table
+                    _ => false,
                   };
                 }
               }
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index cf4661a..2d01d30 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -114,12 +114,18 @@ impl<'a> Parser<'a> {
                         full_key.push('.');
                       }
                     } else {
-                      panic!("Key does not exist in map: \"{}\"", &format!("{}.{}", full_key, &keys[j+1]));
+                      debug!("Key does not exist in map: \"{}\"", &format!("{}.{}", full_key, &keys[j+1]));
+                      valid = false;
+                      full_key.push('.');
                     }
                   },
                 }
               }
-              None => panic!("Key does not exist in map: \"{}\"", &full_key),
+              None => {
+                debug!("Key does not exist in map: \"{}\"", &full_key);
+                valid = false;
+                full_key.push('.');
+              },
             }
           }
           prev_end = len;
@@ -156,7 +162,7 @@ impl<'a> Parser<'a> {
           match hash_value_opt {
             Some(hash_value) =>  {
               index = match hash_value.subkeys {
-                Children::Count(ref c) => c.get() - 1,
+                Children::Count(ref c) if c.get() > 0 => c.get() - 1,
                 _ => tables_index.borrow()[i],
               };
             },
@@ -222,7 +228,8 @@ impl<'a> Parser<'a> {
       match hash_value.subkeys {
         Children::Count(ref c) => {
           if c.get() > 0 {
-            panic!("Standard table cannot have indexed sub-keys. Key: {}, sub-key count: {}", key, c.get());
+            debug!("Standard table cannot have indexed sub-keys. Key: {}, sub-key count: {}", key, c.get());
+            return true;
           }
         },
         Children::Keys(ref children) => {
-- 
2.43.0


From 1a9aa7c4dccc77504b93998311d8aeca36fed056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 16/28] fix: a table below an element of an array of tables
 isn't a child of the root

---
 src/internals/objects.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index c788333..0741938 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -276,6 +276,10 @@ impl<'a> Parser<'a> {
           if !tuple.0 || Parser::key_has_children_with_values(&parent_key, &map) {
             error = true;
           } else {
+            if parent_key == "$Root$" && keys_len > 1 {
+              // The parent is an element of an array of tables, add_implicit_tables takes care of its sub-keys
+              parent_key.truncate(0);
+            }
             debug!("Standard Table Key: {}", table_key);
             if map.borrow().contains_key(&table_key) {
               let map_borrow = map.borrow();
-- 
2.43.0


From aaebddaeca1eec2393adcd75e13f99884429a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 17/28] fix: a standard table with the name of an array of
 tables is reported as invalid

---
 src/internals/objects.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 0741938..89b4869 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -285,6 +285,10 @@ impl<'a> Parser<'a> {
               let map_borrow = map.borrow();
               let hash_val_opt = map_borrow.get(&table_key);
               if let Some(ref hash_val) = hash_val_opt {
+                if let Children::Count(_) = hash_val.subkeys {
+                  debug!("Table error {}, array of tables already defined", table_key);
+                  error = true;
+                }
                 if let Some(ref rc_rc_val) = hash_val.value {
                   if let TOMLValue::Table = *rc_rc_val.borrow() {
                     debug!("Table error {}, table already defined", table_key);
-- 
2.43.0


From 68acc7b3e797160105009c724eba4cfebf3a3cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 18/28] fix: array-of-tables headers below an earlier array of
 tables belong to its last element

---
 src/internals/objects.rs    | 10 ++++++++++
 src/internals/primitives.rs |  8 +++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 89b4869..1fb99da 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -108,6 +108,16 @@ impl<'a> Parser<'a> {
             for i in start..tb.keys.len() {
               let mut borrow = map.borrow_mut();
               let mut insert = false;
+              if !first {
+                // Tables below an array of tables belong to its last element
+                let last_index = match borrow.get(&last_key) {
+                  Some(&HashValue{ value: None, subkeys: Children::Count(ref cell) }) if cell.get() > 0 => Some(cell.get() - 1),
+                  _ => None,
+                };
+                if let Some(index) = last_index {
+                  last_key.push_str(&format!("[{}]", index));
+                }
+              }
               debug!("index: {}, last_key: {}", i, last_key);
               if let Entry::Occupied(mut o) = borrow.entry(last_key.clone()) {
                 if first {
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 2d01d30..85571aa 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -103,7 +103,13 @@ impl<'a> Parser<'a> {
                     if full_key == "$Root$" {
                       full_key.truncate(0);
                     } else {
-                      full_key.push_str(&format!("[{}].", c.get()))
+                      if hash_value.value.is_some() {
+                        debug!("Key \"{}\" has a value, it can't contain tables.", full_key);
+                        valid = false;
+                      }
+                      // The last table in the array of tables
+                      let index = if c.get() > 0 { c.get() - 1 } else { 0 };
+                      full_key.push_str(&format!("[{}].", index))
                     }
                   },
                   Children::Keys(ref hs_rf) => {
-- 
2.43.0


From 0e646a982e48cb030999050faac40d8e66b225e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 19/28] fix: a mixed array is reported no matter which errors
 precede it

---
 src/internals/objects.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 1fb99da..b2fb6ab 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -513,20 +513,11 @@ impl<'a> Parser<'a> {
               let tuple = Parser::get_full_key(&RefCell::new(& mut self.map), &self.last_array_tables,
                 &self.last_array_tables_index, &self.keychain
               );
-              let err_len = self.errors.borrow().len();
-              let mut mixed = false;
-              if err_len > 0 {
-                if let ParseError::MixedArray(ref key, _, _) = self.errors.borrow()[err_len - 1] {
-                  debug!("Check mixed array previous: {}, current: {}", key, tuple.1);
-                  if !tuple.1.starts_with(key) {
-                    mixed = true;
-                    debug!("Mixed array error insert: {}", tuple.1);
-                  }
-                }
-              } else {
-                mixed = true;
-                debug!("Mixed array error insert: {}", tuple.1);
-              }
+              // An array is only reported once, no matter how many of its values are of a different type
+              let mixed = !self.errors.borrow().iter().any(|err| match err {
+                &ParseError::MixedArray(ref key, _, _) => *key == tuple.2,
+                _ => false,
+              });
               if mixed {
                 self.errors.borrow_mut().push(ParseError::MixedArray(
                   tuple.2, self.line_count.get(), 0
-- 
2.43.0


From eead7c7e1c1f2071d2822bea822a300601b9edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 20/28] fix: keys below an invalid array of tables header are
 reported with it instead of ending up in another table

---
 src/internals/objects.rs    |  1 +
 src/internals/primitives.rs | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index b2fb6ab..e815625 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -446,6 +446,7 @@ impl<'a> Parser<'a> {
               full_key, self.line_count.get(), 0,
               RefCell::new(HashMap::new())
             ));
+            self.array_error.set(true);
           } else {
             debug!("After call to get_array_table_key");
             let contains_key = map.borrow().contains_key(&parent_key);
diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 85571aa..1c30d3a 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -662,12 +662,13 @@ impl<'a> Parser<'a> {
         let res = KeyVal::new_str(key, ws, val);
         if self.array_error.get() {
           debug!("array_error");
-          let err = self.errors.borrow_mut().pop().unwrap();
-          if let ParseError::InvalidTable(_, _, _, ref map) = err {
-            debug!("InvalidTable");
-            map.borrow_mut().insert(res.key.to_string(), to_val!(&*res.val.borrow()));
+          for err in self.errors.borrow().iter().rev() {
+            if let &ParseError::InvalidTable(_, _, _, ref map) = err {
+              debug!("InvalidTable");
+              map.borrow_mut().insert(res.key.to_string(), to_val!(&*res.val.borrow()));
+              break;
+            }
           }
-          self.errors.borrow_mut().push(err);
         } else {
           match *res.val.borrow() {
             _ => self.insert_keyval_into_map(res.val.clone()),
-- 
2.43.0


From a00e0e8eee700f710ecf0a6dc46b25a1e706e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 21/28] fix: tomlkit honours --quiet

---
 src/bin/tomlkit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 1e62c06..c43b226 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -197,6 +197,9 @@ impl Options {
     if matches.has_match("strip-quotes") {
       opts.strip_quotes = true;
     }
+    if matches.has_match("quiet") {
+      opts.quiet = true;
+    }
     // Post-command options
     if matches.has_match("print-doc") {
       opts.print_doc = true;
@@ -323,9 +326,7 @@ fn process_document(file_path: &String, opts: &Options, matches: &Matches, vars:
   for i in 0..result.len() {
     match &result[i]  {
       &Ok(ref val) => {
-        if !opts.quiet {
-          print!("{}", val);
-        }
+        print!("{}", val);
       },
       &Err(ref err) => {
         print!("Error \"{}\": {}", file_path, err);
-- 
2.43.0


From c17e031fb24b25d49c772f153a7f9a18ba24e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 22/28] fix: tomlkit keeps the Z offset of a date-time it sets

---
 src/bin/tomlkit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index c43b226..aaa1b5d 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -570,7 +570,7 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
           let (year, month, day);
           let (mut hour, mut minute, mut second, mut fraction) = ("".into(), "".into(), "".into(), "".into());
           let (mut off_hour, mut off_minute, mut pos_neg) = ("".into(), "".into(), PosNeg::Pos);
-          let (mut has_time, mut has_fraction, mut has_offset) = (false, false, false);
+          let (mut has_time, mut has_fraction, mut has_offset, mut zulu) = (false, false, false, false);
           if let Ok(dtval) = tmp_result {
             if let Value::DateTime(dt) = dtval {
               year = dt.date.year.to_string().into();
@@ -591,12 +591,16 @@ fn set_value<'a>(kvs: &str, sep: &String, quiet: bool, doc: &mut TOMLParser) ->
                     pos_neg = amount.pos_neg;
                     off_hour = amount.hour.to_string().into();
                     off_minute = amount.minute.to_string().into();
+                  } else {
+                    zulu = true;
                   }
                 }
               }
 
               let newoffset = if has_offset {
                 Some(TimeOffset::Time(TimeOffsetAmount{pos_neg: pos_neg, hour: off_hour, minute: off_minute}))
+              } else if zulu {
+                Some(TimeOffset::Zulu)
               } else {
                 None
               };
-- 
2.43.0


From 5a8e3a68b76a9a91a2cfddacb4c02c5f0f009442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 23/28] fix: tomlkit renders the document before it truncates
 the output file

---
 src/bin/tomlkit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index aaa1b5d..17b1acf 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -347,8 +347,10 @@ fn process_document(file_path: &String, opts: &Options, matches: &Matches, vars:
 }
 
 fn write_to_file(file_path: &String, doc: &TOMLParser) -> Result<(), Error> {
+  // Render the document before the file is truncated
+  let contents = format!("{}", doc);
   let mut f = try!(File::create(file_path));
-  try!(f.write_all(format!("{}",doc).as_bytes()));
+  try!(f.write_all(contents.as_bytes()));
   try!(f.sync_all());
   Ok(())
 }
-- 
2.43.0


From ed21e29e2c5061071234c6ac6a75dd99f397957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 24/28] fix: tomlkit reports missing true and false values
 instead of panicking

---
 src/bin/tomlkit.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/bin/tomlkit.rs b/src/bin/tomlkit.rs
index 17b1acf..01cf41c 100644
--- a/src/bin/tomlkit.rs
+++ b/src/bin/tomlkit.rs
@@ -402,20 +402,20 @@ fn has_value(csv: &str, sep: &String, true_vals: &String, false_vals: &String, k
     for i in 0..keys.len() {
       let (true_val, false_val);
       if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i];
-        } else {
-          true_val = &true_vals[0];
-        }
+        let index = if true_vals.len() > 1 { i } else { 0 };
+        true_val = match true_vals.get(index) {
+          Some(val) => val,
+          None => return Err(format!("Not enough true values specified: \"{}\".", true_vals.join(","))),
+        };
       } else {
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
       if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i];
-        } else {
-          false_val = &false_vals[0];
-        }
+        let index = if false_vals.len() > 1 { i } else { 0 };
+        false_val = match false_vals.get(index) {
+          Some(val) => val,
+          None => return Err(format!("Not enough false values specified: \"{}\".", false_vals.join(","))),
+        };
       } else {
         return Err(format!("Invalid set of false values specified: \"{}\".", false_vals));
       }
@@ -498,20 +498,20 @@ fn has_children(csv: &str, sep: &String, true_vals: &String, false_vals: &String
     for i in 0..keys.len() {
       let (true_val, false_val);
       if let Ok(ref true_vals) = true_results {
-        if true_vals.len() > 1 {
-          true_val = &true_vals[i+keycount];
-        } else {
-          true_val = &true_vals[0];
-        }
+        let index = if true_vals.len() > 1 { i+keycount } else { 0 };
+        true_val = match true_vals.get(index) {
+          Some(val) => val,
+          None => return Err(format!("Not enough true values specified: \"{}\".", true_vals.join(","))),
+        };
       } else {
         return Err(format!("Invalid set of true values specified: \"{}\".", true_vals));
       };
       if let Ok(ref false_vals) = false_results {
-        if false_vals.len() > 1 {
-          false_val = &false_vals[i+keycount];
-        } else {
-          false_val = &false_vals[0];
-        }
+        let index = if false_vals.len() > 1 { i+keycount } else { 0 };
+        false_val = match false_vals.get(index) {
+          Some(val) => val,
+          None => return Err(format!("Not enough false values specified: \"{}\".", false_vals.join(","))),
+        };
       } else {
         return Err(format!("Invalid set of false values specified: \"{}\".", false_vals));
       }
-- 
2.43.0


From 280a73b93bd48cd8993f0d6bdc6354b7e8d1c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 25/28] fix: line numbers count the newlines within arrays and
 inline tables

---
 src/internals/objects.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index e815625..e68cf6d 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -1,7 +1,7 @@
 use internals::ast::structs::{TableType, WSKeySep, Table, CommentNewLines, CommentOrNewLines, ArrayValue, Array,
                               TOMLValue, InlineTable, WSSep, TableKeyVal, ArrayType, HashValue, format_tt_keys};
 use internals::parser::Parser;
-use internals::primitives::Key;
+use internals::primitives::{Key, count_lines};
 use types::{ParseError, Children};
 use std::cell::RefCell;
 use std::collections::HashMap;
@@ -493,8 +493,14 @@ impl<'a> Parser<'a> {
 
   method!(comment_or_nl<Parser<'a>, &'a str, CommentOrNewLines>, mut self,
     alt!(
-      complete!(call_m!(self.comment_nl))   => {|com| CommentOrNewLines::Comment(com)} |
-      complete!(call_m!(self.ws_newline))  => {|nl: &'a str|  CommentOrNewLines::NewLines(nl.into())}
+      complete!(call_m!(self.comment_nl))   => {|com: CommentNewLines<'a>| {
+        self.line_count.set(self.line_count.get() + count_lines(&com.pre_ws_nl) + count_lines(&com.newlines));
+        CommentOrNewLines::Comment(com)
+      }} |
+      complete!(call_m!(self.ws_newline))  => {|nl: &'a str| {
+        self.line_count.set(self.line_count.get() + count_lines(nl));
+        CommentOrNewLines::NewLines(nl.into())
+      }}
     )
   );
 
-- 
2.43.0


From 42617f8f84432999bffbe58fdb0240e7f0dfcf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 26/28] fix: integers and floats take ASCII digits only

---
 src/internals/primitives.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internals/primitives.rs b/src/internals/primitives.rs
index 1c30d3a..660be4f 100644
--- a/src/internals/primitives.rs
+++ b/src/internals/primitives.rs
@@ -435,11 +435,11 @@ impl<'a> Parser<'a> {
   }
 
   // Integer
-  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9](\d|(_\d))+)|\d))"#)) ;
+  method!(pub integer<Parser<'a>, &'a str, &'a str>, self, re_find!(r#"^((\+|-)?(([1-9]([0-9]|(_[0-9]))+)|[0-9]))"#)) ;
 
   // Float
   method!(pub float<Parser<'a>, &'a str, &'a str>, self,
-         re_find!(r#"^(\+|-)?([1-9](\d|(_\d))+|\d)((\.\d(\d|(_\d))*)((e|E)(\+|-)?([1-9](\d|(_\d))+|\d))|(\.\d(\d|(_\d))*)|((e|E)(\+|-)?([1-9](\d|(_\d))+|\d)))"#));
+         re_find!(r#"^(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])((\.[0-9]([0-9]|(_[0-9]))*)((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9]))|(\.[0-9]([0-9]|(_[0-9]))*)|((e|E)(\+|-)?([1-9]([0-9]|(_[0-9]))+|[0-9])))"#));
 
   // Basic String
   named!(pub quoteless_basic_string<&'a str, &'a str>,
-- 
2.43.0


From c81450fdf21afb59658cb5517fdcf65aed05bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 27/28] fix: count no lines for arrays and inline tables that
 could not be read

---
 src/internals/objects.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index e68cf6d..63e00f7 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -558,8 +558,13 @@ impl<'a> Parser<'a> {
     // debug!("*** array called on input:\t\t\t{}", input);
     self.last_array_type.borrow_mut().push(ArrayType::None);
     self.keychain.borrow_mut().push(Key::Index(Cell::new(0)));
+    let line_count = self.line_count.get();
     let (tmp, res) = self.array_internal(input);
     self = tmp; // Restore self
+    if !res.is_done() {
+      // None of the lines of an incomplete array are consumed
+      self.line_count.set(line_count);
+    }
     self.keychain.borrow_mut().pop();
     self.last_array_type.borrow_mut().pop();
     (self, res)
@@ -593,7 +598,18 @@ impl<'a> Parser<'a> {
 
   method!(inline_table_keyvals_non_empty<Parser<'a>, &'a str, Vec<TableKeyVal> >, mut self, many0!(call_m!(self.table_keyval)));
 
-  method!(pub inline_table<Parser<'a>, &'a str, Rc<RefCell<InlineTable>> >, mut self,
+  pub fn inline_table(mut self: Parser<'a>, input: &'a str) -> (Parser<'a>, IResult<&'a str, Rc<RefCell<InlineTable<'a>>>>) {
+    let line_count = self.line_count.get();
+    let (tmp, res) = self.inline_table_internal(input);
+    self = tmp; // Restore self
+    if !res.is_done() {
+      // None of the lines of an incomplete inline table are consumed
+      self.line_count.set(line_count);
+    }
+    (self, res)
+  }
+
+  method!(inline_table_internal<Parser<'a>, &'a str, Rc<RefCell<InlineTable>> >, mut self,
     chain!(
            tag_s!("{")                                ~
       ws1: call_m!(self.ws)                                         ~
-- 
2.43.0


From 5041b2f828129cde502eb16606922037ae1d1a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:46 +0000
Subject: [PATCH 28/28] fix: an array of tables that continues after other
 tables gets a new element

[[a]] x=1 [b] [[a]] y=2 put y into the first element and forgot its keys.
---
 src/internals/objects.rs | 51 +++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 32 deletions(-)

diff --git a/src/internals/objects.rs b/src/internals/objects.rs
index 63e00f7..67cab8d 100644
--- a/src/internals/objects.rs
+++ b/src/internals/objects.rs
@@ -167,20 +167,20 @@ impl<'a> Parser<'a> {
     debug!("Returning from add_implicit_tables");
   }
 
+  // Every header of an array of tables adds an element to it, also when other tables were defined since the last one
   fn increment_array_table_index(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
-    tables: &RefCell<Vec<Rc<TableType<'a>>>>, tables_index: &RefCell<Vec<usize>>,) {
-    let parent_key = Parser::get_key_parent(tables, tables_index);
-    debug!("increment_array_table_index: {}", parent_key);
-    let mut borrow = map.borrow_mut();
-    let entry = borrow.entry(parent_key);
-    if let Entry::Occupied(mut o) = entry {
-      if let &Children::Count(ref c) = &o.get_mut().subkeys {
-         c.set(c.get() + 1);
-      }
-    }
+    tables_index: &RefCell<Vec<usize>>, array_key: &str) -> bool {
+    debug!("increment_array_table_index: {}", array_key);
+    let index = match map.borrow().get(array_key) {
+      Some(&HashValue{ value: None, subkeys: Children::Count(ref c) }) => {
+        c.set(c.get() + 1);
+        c.get() - 1
+      },
+      _ => return false,
+    };
     let len = tables_index.borrow().len();
-    let last_index = tables_index.borrow()[len - 1];
-    tables_index.borrow_mut()[len - 1] = last_index + 1;
+    tables_index.borrow_mut()[len - 1] = index;
+    true
   }
 
   fn add_to_table_set(map: &RefCell<&mut HashMap<String, HashValue<'a>>>,
@@ -387,11 +387,7 @@ impl<'a> Parser<'a> {
             let mut len = self.last_array_tables.borrow().len();
             let last_key = format_tt_keys(&self.last_array_tables.borrow()[len - 1]);
             debug!("current_key: {}, last_key: {}", current_key, last_key);
-            if current_key == last_key {
-              debug!("Increment array table index");
-              Parser::increment_array_table_index(&map, &self.last_array_tables,
-                &self.last_array_tables_index);
-            } else {
+            if current_key != last_key {
               let subtable = res.is_subtable_of(&self.last_array_tables.borrow()[len - 1]);
               if subtable {
                 debug!("Is subtable");
@@ -408,25 +404,12 @@ impl<'a> Parser<'a> {
                   self.last_array_tables_index.borrow_mut().pop();
                 }
                 len = self.last_array_tables.borrow().len();
-                if len > 0 {
-                  debug!("Increment array table index the second");
-                  Parser::increment_array_table_index(&map, &self.last_array_tables,
-                    &self.last_array_tables_index);
-                } else {
+                if len == 0 {
                   debug!("Add implicit tables");
                   Parser::add_implicit_tables(&map, &self.last_array_tables,
                     &self.last_array_tables_index,  res.clone());
                   self.last_array_tables.borrow_mut().push(res.clone());
                   self.last_array_tables_index.borrow_mut().push(0);
-                  let parent_key = Parser::get_key_parent(&self.last_array_tables,
-                    &self.last_array_tables_index);
-                  debug!("Got parent key: {}", parent_key);
-                  let contains_key = map.borrow().contains_key(&parent_key);
-                  if contains_key {
-                    debug!("Increment array table index the third");
-                    Parser::increment_array_table_index(&map, &self.last_array_tables,
-                      &self.last_array_tables_index);
-                  }
                 }
               }
             }
@@ -438,8 +421,12 @@ impl<'a> Parser<'a> {
             self.last_array_tables_index.borrow_mut().push(0);
           }
           debug!("Before call to get_array_table_key");
-          let (valid, full_key, parent_key) = Parser::get_array_table_key(&map, &self.last_array_tables,
+          let (valid, mut full_key, parent_key) = Parser::get_array_table_key(&map, &self.last_array_tables,
             &self.last_array_tables_index);
+          if valid && Parser::increment_array_table_index(&map, &self.last_array_tables_index, &parent_key) {
+            full_key = Parser::get_array_table_key(&map, &self.last_array_tables,
+              &self.last_array_tables_index).1;
+          }
           if !valid {
             debug!("Setting Invalid Table {}", full_key);
             self.errors.borrow_mut().push(ParseError::InvalidTable(
-- 
2.43.0

