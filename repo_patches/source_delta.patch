From 5d4e48012891aace9e3572998d698901251b63ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 01/19] fix: keep Python path components named super in
 Path::to_py

---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 789a005..d654222 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -61,8 +61,14 @@ impl Path {
     pub fn to_py(&self) -> String {
         self.segments
             .iter()
-            .map(Ident::as_py)
-            .map(|s| if s == "super" { "" } else { s })
+            .map(|ident| {
+                // Only the Rust keyword denotes a parent; a Python name `super` is spelled `r#super`
+                if ident.as_rs() == "super" {
+                    ""
+                } else {
+                    ident.as_py()
+                }
+            })
             .collect_vec()
             .join(".")
     }
-- 
2.43.0


From be54c6af896a72cc3409f7fa3f5dcd5ca2fd02cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 02/19] verif: expose crate-private items under --cfg
 pyo3_bindgen_verif

---
 pyo3_bindgen_engine/src/lib.rs         |  5 +++++
 pyo3_bindgen_engine/src/verif_hooks.rs | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+)
 create mode 100644 pyo3_bindgen_engine/src/verif_hooks.rs

diff --git a/pyo3_bindgen_engine/src/lib.rs b/pyo3_bindgen_engine/src/lib.rs
index 4f7f3ce..450368a 100644
--- a/pyo3_bindgen_engine/src/lib.rs
+++ b/pyo3_bindgen_engine/src/lib.rs
@@ -1,10 +1,15 @@
 //! Engine for automatic generation of Rust FFI bindings to Python modules.
 
+#![allow(unexpected_cfgs)]
+
 mod codegen;
 mod config;
 mod syntax;
 mod typing;
 mod utils;
+#[cfg(pyo3_bindgen_verif)]
+#[doc(hidden)]
+pub mod verif_hooks;
 
 // Internal re-exports for convenience
 use utils::io as io_utils;
diff --git a/pyo3_bindgen_engine/src/verif_hooks.rs b/pyo3_bindgen_engine/src/verif_hooks.rs
new file mode 100644
index 0000000..d5229d7
--- /dev/null
+++ b/pyo3_bindgen_engine/src/verif_hooks.rs
@@ -0,0 +1,19 @@
+//! Access to crate-private items for external verification harnesses.
+//!
+//! This module only exists under `--cfg pyo3_bindgen_verif`.
+
+pub use crate::syntax::import::ImportType;
+pub use crate::syntax::{AttributeVariant, Ident, Import, Path};
+pub use crate::typing::Type;
+pub use crate::utils::io::with_suppressed_python_output;
+pub use crate::utils::text::format_docstring;
+
+/// Access to the crate-private attribute filter of [`crate::Config`].
+pub fn is_attr_allowed(
+    cfg: &crate::Config,
+    attr_name: &Ident,
+    attr_module: &Path,
+    attr_type: &pyo3::Bound<pyo3::types::PyType>,
+) -> bool {
+    cfg.is_attr_allowed(attr_name, attr_module, attr_type)
+}
-- 
2.43.0


From dbe2001d3eeffa1f2937bb570bacab92a132f01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 03/19] fix: restore Python output streams on errors and
 suppress them with a writable object

---
 pyo3_bindgen_engine/src/utils/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/utils/io.rs b/pyo3_bindgen_engine/src/utils/io.rs
index a00b1b4..f35ac31 100644
--- a/pyo3_bindgen_engine/src/utils/io.rs
+++ b/pyo3_bindgen_engine/src/utils/io.rs
@@ -21,7 +21,7 @@ pub fn with_suppressed_python_output<T>(
     let original_stderr = sys.getattr(stderr_ident)?;
 
     // Suppress the output
-    let supressed_output = py.eval_bound(r"lambda: type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})", None, None)?;
+    let supressed_output = py.eval_bound(r"type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})()", None, None)?;
     if suppress_stdout {
         sys.setattr(stdout_ident, &supressed_output)?;
     }
@@ -30,9 +30,9 @@ pub fn with_suppressed_python_output<T>(
     }
 
     // Run the function
-    let ret = f()?;
+    let ret = f();
 
-    // Restore the original stdout and stderr
+    // Restore the original stdout and stderr (regardless of the outcome)
     if suppress_stdout {
         sys.setattr(stdout_ident, original_stdout)?;
     }
@@ -40,5 +40,5 @@ pub fn with_suppressed_python_output<T>(
         sys.setattr(stderr_ident, original_stderr)?;
     }
 
-    Ok(ret)
+    ret
 }
-- 
2.43.0


From 71dd4ac10a751085824a3b0817b9efad967d1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 04/19] fix: recognise functools.partial objects as closures

---
 .../src/syntax/common/attribute_variant.rs             | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
index 80317fb..5bb6ed3 100644
--- a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
@@ -1,7 +1,4 @@
-use crate::{
-    syntax::{Ident, Path},
-    Result,
-};
+use crate::{syntax::Path, Result};
 use pyo3::prelude::*;
 
 pub enum AttributeVariant {
@@ -27,7 +24,8 @@ impl AttributeVariant {
         let inspect = py.import_bound("inspect")?;
 
         // Get the name and module of the attribute type
-        let attr_type_name = Ident::from_py(&attr_type.name().unwrap_or_default());
+        // Note: `PyType::name()` includes the module for types implemented in C
+        let attr_type_name = attr_type.qualname().unwrap_or_default();
         let attr_type_module = Path::from_py(
             &attr_type
                 .getattr(pyo3::intern!(py, "__module__"))
@@ -52,7 +50,7 @@ impl AttributeVariant {
             .call_method1(pyo3::intern!(py, "ismethod"), (attr,))?
             .is_truthy()?;
         let is_closure =
-            attr_type_module.to_py().as_str() == "functools" && attr_type_name.as_py() == "partial";
+            attr_type_module.to_py().as_str() == "functools" && attr_type_name == "partial";
         let is_type = ["typing", "types"].contains(&attr_type_module.to_py().as_str());
 
         // Some decorators might make a class look external, but they tend to include "<locals>" in their name
-- 
2.43.0


From 0f7e6c23ce0b2a31d8a80e8e6d29d477d8e0471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 05/19] fix: map Python types only to existing and hashable
 Rust types

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 4 ++--
 pyo3_bindgen_engine/src/typing/mod.rs     | 5 +----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index d9f27f1..ce732dd 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -202,8 +202,8 @@ impl Type {
             }
 
             // Additional types - std
-            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::IpV4Addr)),
-            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::IpV6Addr)),
+            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::Ipv4Addr)),
+            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::Ipv6Addr)),
             Self::Path => OutputType::new(quote!(::std::path::PathBuf), quote!(&::std::path::Path)),
             // TODO: Map `PySlice` to `std::ops::Range` if possible
             Self::PySlice => OutputType::new(
diff --git a/pyo3_bindgen_engine/src/typing/mod.rs b/pyo3_bindgen_engine/src/typing/mod.rs
index c5ec710..fb2b3d8 100644
--- a/pyo3_bindgen_engine/src/typing/mod.rs
+++ b/pyo3_bindgen_engine/src/typing/mod.rs
@@ -72,6 +72,7 @@ pub enum Type {
 }
 
 impl Type {
+    /// Determine whether the type maps to a Rust type that implements `Hash` and `Eq`.
     fn is_hashable(&self) -> bool {
         matches!(
             self,
@@ -79,11 +80,7 @@ impl Type {
                 | Self::IpV4Addr
                 | Self::IpV6Addr
                 | Self::Path
-                | Self::PyDelta
-                | Self::PyDict { .. }
-                | Self::PyFrozenSet(..)
                 | Self::PyLong
-                | Self::PySet(..)
                 | Self::PyString
         )
     }
-- 
2.43.0


From b6f499b61fa6ccc1b44b6cc075afb3b1c6b961e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 06/19] fix: look up local types consistently for parameters
 and their conversion

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index ce732dd..a88c790 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -63,7 +63,7 @@ impl Type {
             }
             Self::Other(type_name)
                 if Self::try_map_external_type(type_name).is_none()
-                    && !local_types.contains_key(&Path::from_py(type_name)) =>
+                    && Self::find_local_type(type_name, local_types).is_none() =>
             {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyAny>>::into_py(#ident, py);
@@ -316,10 +316,7 @@ impl Type {
         }
 
         // Try to map the local types
-        let type_name_without_delimiters =
-            type_name.split_once('[').map(|s| s.0).unwrap_or(&type_name);
-        if let Some(relative_path) = local_types.get(&Path::from_py(type_name_without_delimiters)) {
-            let relative_path: syn::Path = relative_path.try_into().unwrap();
+        if let Some(relative_path) = Self::find_local_type(&type_name, local_types) {
             return OutputType::new(
                 quote!(::pyo3::Bound<'py, #relative_path>),
                 quote!(&::pyo3::Bound<'py, #relative_path>),
@@ -333,6 +330,19 @@ impl Type {
         )
     }
 
+    /// Find the relative path of a local type by its name (without type parameters).
+    fn find_local_type(type_name: &str, local_types: &HashMap<Path, Path>) -> Option<syn::Path> {
+        let type_name_without_delimiters =
+            type_name.split_once('[').map(|s| s.0).unwrap_or(type_name);
+        // An arbitrary annotation is not necessarily a valid Python path
+        if type_name_without_delimiters.contains("::") {
+            return None;
+        }
+        local_types
+            .get(&Path::from_py(type_name_without_delimiters))
+            .and_then(|relative_path| relative_path.try_into().ok())
+    }
+
     fn try_map_external_type(type_name: &str) -> Option<OutputType> {
         // TODO: Handle types from other packages with Rust bindings here
         match type_name {
-- 
2.43.0


From 207050834f2938cf731f705ab0d8f13326f1e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 07/19] fix: parse nested and malformed type annotations
 without panicking

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 214 +++++++++++-----------
 1 file changed, 104 insertions(+), 110 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 50d259b..0be0649 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -151,46 +151,43 @@ impl Type {
                         }
                         Self::Optional(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            Self::Optional(Box::new(inner_types[0].clone()))
+                            Self::Optional(Box::new(nth_or_unknown(&inner_types, 0)))
                         }
                         Self::PyDict { .. } => {
                             // debug_assert_eq!(inner_types.len(), 2);
                             Self::PyDict {
-                                key_type: Box::new(inner_types[0].clone()),
-                                value_type: Box::new(inner_types[1].clone()),
+                                key_type: Box::new(nth_or_unknown(&inner_types, 0)),
+                                value_type: Box::new(nth_or_unknown(&inner_types, 1)),
                             }
                         }
                         Self::PyFrozenSet(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            Self::PyFrozenSet(Box::new(inner_types[0].clone()))
+                            Self::PyFrozenSet(Box::new(nth_or_unknown(&inner_types, 0)))
                         }
                         Self::PyList(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            Self::PyList(Box::new(inner_types[0].clone()))
+                            Self::PyList(Box::new(nth_or_unknown(&inner_types, 0)))
                         }
                         Self::PySet(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            Self::PySet(Box::new(inner_types[0].clone()))
+                            Self::PySet(Box::new(nth_or_unknown(&inner_types, 0)))
                         }
                         Self::PyTuple(..) => Self::PyTuple(inner_types),
                         Self::PyFunction { .. } => {
                             // debug_assert!(!inner_types.is_empty());
                             Self::PyFunction {
                                 param_types: match inner_types.len() {
-                                    1 => Vec::default(),
+                                    0 | 1 => Vec::default(),
                                     _ => inner_types[..inner_types.len() - 1].to_owned(),
                                 },
                                 return_annotation: Box::new(
-                                    inner_types
-                                        .last()
-                                        .unwrap_or_else(|| unreachable!())
-                                        .to_owned(),
+                                    inner_types.last().cloned().unwrap_or(Self::Unknown),
                                 ),
                             }
                         }
                         Self::PyType => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            inner_types[0].clone()
+                            nth_or_unknown(&inner_types, 0)
                         }
                         _ => {
                             // TODO: Handle other types with inner types if useful (e.g. Generator)
@@ -212,7 +209,7 @@ impl Type {
 impl std::str::FromStr for Type {
     type Err = PyBindgenError;
     fn from_str(value: &str) -> Result<Self> {
-        Ok(match value {
+        Ok(match value.trim() {
             "Any" => Self::PyAny,
 
             // Primitives
@@ -224,52 +221,40 @@ impl std::str::FromStr for Type {
             "str" => Self::PyString,
 
             // Enums
-            optional
-                if optional.matches('|').count() == 1 && optional.matches("None").count() == 1 =>
-            {
-                let inner_type = Self::from_str(
-                    optional
-                        .split('|')
-                        .map(str::trim)
-                        .find(|x| *x != "None")
-                        .unwrap_or_else(|| unreachable!()),
-                )?;
-                Self::Optional(Box::new(inner_type))
-            }
-            r#union if r#union.contains('|') => {
-                let mut inner_types = r#union
-                    .split('|')
-                    .map(|x| x.trim().to_owned())
-                    .collect_vec();
-                repair_complex_sequence(&mut inner_types, ',');
-                let inner_types = inner_types
-                    .iter()
-                    .map(|x| Self::from_str(x))
-                    .collect::<Result<_>>()?;
-                Self::Union(inner_types)
+            r#union if split_sequence(r#union, '|').len() > 1 => {
+                let inner_types = split_sequence(r#union, '|');
+                match inner_types.iter().position(|x| x == "None") {
+                    Some(i) if inner_types.len() == 2 => {
+                        Self::Optional(Box::new(Self::from_str(&inner_types[1 - i])?))
+                    }
+                    _ => Self::Union(
+                        inner_types
+                            .iter()
+                            .map(|x| Self::from_str(x))
+                            .collect::<Result<_>>()?,
+                    ),
+                }
             }
             "Union" => Self::Union(vec![Self::Unknown]),
             "" | "None" | "NoneType" => Self::PyNone,
 
             // Collections
             dict if dict.starts_with("dict[") && dict.ends_with(']') => {
-                let mut inner_types = dict
-                    .strip_prefix("dict[")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix(']')
-                    .unwrap_or_else(|| unreachable!())
-                    .split(',')
-                    .map(|x| x.trim().to_owned())
-                    .collect_vec();
-                repair_complex_sequence(&mut inner_types, ',');
+                let inner_types = split_sequence(
+                    dict.strip_prefix("dict[")
+                        .unwrap_or_else(|| unreachable!())
+                        .strip_suffix(']')
+                        .unwrap_or_else(|| unreachable!()),
+                    ',',
+                );
                 // debug_assert_eq!(inner_types.len(), 2);
                 let inner_types = inner_types
                     .iter()
                     .map(|x| Self::from_str(x))
                     .collect::<Result<Vec<_>>>()?;
                 Self::PyDict {
-                    key_type: Box::new(inner_types[0].clone()),
-                    value_type: Box::new(inner_types[1].clone()),
+                    key_type: Box::new(nth_or_unknown(&inner_types, 0)),
+                    value_type: Box::new(nth_or_unknown(&inner_types, 1)),
                 }
             }
             "dict" | "Dict" | "Mapping" => Self::PyDict {
@@ -337,15 +322,14 @@ impl std::str::FromStr for Type {
                 Self::PySet(Box::new(inner_type))
             }
             tuple if tuple.starts_with("tuple[") && tuple.ends_with(']') => {
-                let mut inner_types = tuple
-                    .strip_prefix("tuple[")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix(']')
-                    .unwrap_or_else(|| unreachable!())
-                    .split(',')
-                    .map(|x| x.trim().to_owned())
-                    .collect_vec();
-                repair_complex_sequence(&mut inner_types, ',');
+                let inner_types = split_sequence(
+                    tuple
+                        .strip_prefix("tuple[")
+                        .unwrap_or_else(|| unreachable!())
+                        .strip_suffix(']')
+                        .unwrap_or_else(|| unreachable!()),
+                    ',',
+                );
                 let inner_types = inner_types
                     .iter()
                     .map(|x| Self::from_str(x))
@@ -387,15 +371,14 @@ impl std::str::FromStr for Type {
                 return_annotation: Box::new(Self::Unknown),
             },
             callable if callable.starts_with("Callable[") && callable.ends_with(']') => {
-                let mut inner_types = callable
-                    .strip_prefix("Callable[")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix(']')
-                    .unwrap_or_else(|| unreachable!())
-                    .split(',')
-                    .map(|x| x.trim().to_owned())
-                    .collect_vec();
-                repair_complex_sequence(&mut inner_types, ',');
+                let inner_types = split_sequence(
+                    callable
+                        .strip_prefix("Callable[")
+                        .unwrap_or_else(|| unreachable!())
+                        .strip_suffix(']')
+                        .unwrap_or_else(|| unreachable!()),
+                    ',',
+                );
                 // debug_assert!(!inner_types.is_empty());
                 let inner_types = inner_types
                     .iter()
@@ -430,22 +413,34 @@ impl std::str::FromStr for Type {
             )?,
 
             // classes
-            class if class.starts_with("<class '") && class.ends_with("'>") => Self::from_str(
-                class
+            class
+                if class
                     .strip_prefix("<class '")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix("'>")
-                    .unwrap_or_else(|| unreachable!()),
-            )?,
+                    .is_some_and(|x| x.ends_with("'>")) =>
+            {
+                Self::from_str(
+                    class
+                        .strip_prefix("<class '")
+                        .unwrap_or_else(|| unreachable!())
+                        .strip_suffix("'>")
+                        .unwrap_or_else(|| unreachable!()),
+                )?
+            }
 
             // enums
-            enume if enume.starts_with("<enum '") && enume.ends_with("'>") => Self::from_str(
-                enume
+            enume
+                if enume
                     .strip_prefix("<enum '")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix("'>")
-                    .unwrap_or_else(|| unreachable!()),
-            )?,
+                    .is_some_and(|x| x.ends_with("'>")) =>
+            {
+                Self::from_str(
+                    enume
+                        .strip_prefix("<enum '")
+                        .unwrap_or_else(|| unreachable!())
+                        .strip_suffix("'>")
+                        .unwrap_or_else(|| unreachable!()),
+                )?
+            }
 
             // typing
             typing if typing.starts_with("typing.") => Self::from_str(
@@ -476,45 +471,44 @@ impl std::str::FromStr for Type {
     }
 }
 
-// TODO: Refactor `repair_complex_sequence()` into something more sensible
+/// Returns the inner type at the given index, which is unknown if it is not specified.
+fn nth_or_unknown(inner_types: &[Type], index: usize) -> Type {
+    inner_types.get(index).cloned().unwrap_or(Type::Unknown)
+}
+
+/// Splits a sequence of (potentially nested) types at each separator that is not enclosed in brackets.
+fn split_sequence(value: &str, separator: char) -> Vec<String> {
+    let mut sequence = value
+        .split(separator)
+        .map(|x| x.trim().to_owned())
+        .collect_vec();
+    repair_complex_sequence(&mut sequence, separator);
+    sequence
+}
+
 /// Repairs complex wrapped sequences.
+/// Elements that were split within brackets are merged back together.
 fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
-    // debug_assert!(!sequence.is_empty());
-    // debug_assert!({
-    //     let merged_sequence = sequence.iter().join("");
-    //     merged_sequence.matches('[').count() == merged_sequence.matches(']').count()
-    // });
-
-    let mut traversed_all_elements = false;
-    let mut start_index = 0;
-    'outer: while !traversed_all_elements {
-        traversed_all_elements = true;
-        'inner: for i in start_index..(sequence.len() - 1) {
-            let mut n_scopes = sequence[i].matches('[').count() - sequence[i].matches(']').count();
-            if n_scopes == 0 {
-                continue;
+    let mut repaired: Vec<String> = Vec::with_capacity(sequence.len());
+    let mut n_scopes = 0_usize;
+    for element in sequence.drain(..) {
+        let is_nested = n_scopes > 0;
+        for c in element.chars() {
+            match c {
+                '[' => n_scopes += 1,
+                ']' => n_scopes = n_scopes.saturating_sub(1),
+                _ => {}
             }
-            for j in (i + 1)..sequence.len() {
-                n_scopes += sequence[j].matches('[').count();
-                n_scopes -= sequence[j].matches(']').count();
-                if n_scopes == 0 {
-                    let mut new_element = sequence[i].clone();
-                    for relevant_element in sequence.iter().take(j + 1).skip(i + 1) {
-                        new_element = format!("{new_element}{separator}{relevant_element}");
-                    }
-                    sequence[i] = new_element;
-                    sequence.drain((i + 1)..=j);
-                    if j < sequence.len() - 1 {
-                        traversed_all_elements = false;
-                        start_index = i;
-                        break 'inner;
-                    } else {
-                        break 'outer;
-                    }
-                }
+        }
+        match repaired.last_mut() {
+            Some(previous) if is_nested => {
+                previous.push(separator);
+                previous.push_str(&element);
             }
+            _ => repaired.push(element),
         }
     }
+    *sequence = repaired;
 }
 
 #[cfg(test)]
-- 
2.43.0


From b6a0ed632fd69aa7f0e6c3ce6faafe9bb519b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 08/19] fix: import the whole path of a module in generated
 lookups

---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index d654222..302347e 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -1,5 +1,6 @@
 use super::Ident;
 use itertools::Itertools;
+use pyo3::prelude::*;
 
 #[derive(Debug, Default, Clone, PartialEq, Eq, Hash)]
 pub struct Path {
@@ -203,11 +204,20 @@ impl Path {
     pub fn import_quote(&self, py: pyo3::Python) -> proc_macro2::TokenStream {
         // Find the last package and import it via py.import, then get the rest of the path via getattr()
         let mut package_path = self.root().unwrap_or_else(|| unreachable!());
-        for i in (1..self.len()).rev() {
+        for i in (1..=self.len()).rev() {
             let module_name = Self::from(&self[..i]);
-            if py.import_bound(module_name.to_py().as_str()).is_ok() {
-                package_path = module_name;
-                break;
+            if let Ok(module) = py.import_bound(module_name.to_py().as_str()) {
+                // An attribute of the parent package can shadow its submodule of the same name
+                let is_shadowed = i == self.len()
+                    && module_name.parent().is_some_and(|parent| {
+                        py.import_bound(parent.to_py().as_str())
+                            .and_then(|parent| parent.getattr(module_name.name().as_py()))
+                            .is_ok_and(|attr| !attr.is(&module))
+                    });
+                if !is_shadowed {
+                    package_path = module_name;
+                    break;
+                }
             }
         }
 
-- 
2.43.0


From 1aa7e1b995bf6b5e0ec467839825d62e4b0d71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 09/19] fix: use the annotation of the setter for generated
 setters

---
 pyo3_bindgen_engine/src/syntax/property.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 3f89eff..d507bfe 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -96,12 +96,18 @@ impl Property {
                                     .call_method0(pyo3::intern!(py, "values"))?
                                     .iter()?
                                     .nth(1)
-                                    .unwrap()?;
-                                let annotation = param.getattr(pyo3::intern!(py, "annotation"))?;
-                                if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
-                                    Type::Unknown
+                                    .transpose()?;
+                                if let Some(param) = param {
+                                    let annotation =
+                                        param.getattr(pyo3::intern!(py, "annotation"))?;
+                                    if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
+                                        Type::Unknown
+                                    } else {
+                                        annotation.try_into()?
+                                    }
                                 } else {
-                                    annotation.try_into()?
+                                    // The setter accepts its value via `*args`
+                                    Type::Unknown
                                 }
                             };
                         } else {
@@ -315,11 +321,11 @@ impl Property {
             }
         };
         let param_name = self.name.name().as_py();
-        let param_preprocessing = self.annotation.preprocess_borrowed(
+        let param_preprocessing = self.setter_annotation.preprocess_borrowed(
             &syn::Ident::new("p_value", proc_macro2::Span::call_site()),
             local_types,
         );
-        let param_type = self.annotation.clone().into_rs_borrowed(local_types);
+        let param_type = self.setter_annotation.clone().into_rs_borrowed(local_types);
         match &self.owner {
             PropertyOwner::Module => {
                 let import = pyo3::Python::with_gil(|py| {
-- 
2.43.0


From 5affc26202960cb50f41be05f1cc537cd0981732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 10/19] fix: forward all parameters of functions that accept
 the instance via *args or have unused parameters

---
 pyo3_bindgen_engine/src/syntax/function.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index bf046c3..8160f0c 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -102,9 +102,6 @@ impl Function {
                 })
                 .collect::<Result<Vec<_>>>()?;
 
-            // Retain only used parameters (discard unused `_` parameters)
-            parameters.retain(|param| param.name.as_rs() != "r#_");
-
             // Extract the return annotation of the function
             let return_annotation = {
                 let return_annotation =
@@ -231,8 +228,8 @@ impl Function {
             // Hack: Reassign InstanceMethod with no parameter to StaticMethod
             // This should not be necessary as every InstanceMethod should have at least one parameter (self), but it does for certain complex Python modules
             if let FunctionType::Method {
+                class_path,
                 typ: MethodType::InstanceMethod,
-                ..
             } = &typ
             {
                 if parameters.is_empty() {
@@ -240,7 +237,7 @@ impl Function {
                             "WARN: Method '{name}' is marked as an instance method, but has no parameters. Changed to static method.",
                         );
                     typ = FunctionType::Method {
-                        class_path: name.clone(),
+                        class_path: class_path.clone(),
                         typ: MethodType::StaticMethod,
                     };
                 }
@@ -252,7 +249,16 @@ impl Function {
                 ..
             } = typ
             {
-                parameters.remove(0);
+                // The instance might also be accepted via `*args`
+                if parameters.first().is_some_and(|param| {
+                    [
+                        ParameterKind::PositionalOnly,
+                        ParameterKind::PositionalOrKeyword,
+                    ]
+                    .contains(&param.kind)
+                }) {
+                    parameters.remove(0);
+                }
             };
 
             // If any of the parameters is still called 'self', do not handle the parameters
-- 
2.43.0


From 4612d2383bfee1e9ee8b2dea8317d1a9eb950e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:53 +0000
Subject: [PATCH 11/19] fix: embed source code under the Python name of its
 module

---
 pyo3_bindgen_engine/src/codegen.rs       | 15 ++++++++++-----
 pyo3_bindgen_engine/src/syntax/module.rs |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 32bf8e0..965fc85 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -149,11 +149,7 @@ impl Codegen {
         self.canonicalize();
 
         // Embed the source code of the modules
-        self.modules.iter_mut().for_each(|module| {
-            if let Some(source_code) = self.embedded_source_code.get(&module.name.to_rs()) {
-                module.source_code = Some(source_code.clone());
-            }
-        });
+        Self::embed_source_code(&mut self.modules, &self.embedded_source_code);
 
         // Generate the bindings for all modules
         self.modules
@@ -168,6 +164,15 @@ impl Codegen {
         Ok(std::fs::write(output_path, self.generate()?.to_string())?)
     }
 
+    fn embed_source_code(modules: &mut [Module], source_code: &HashMap<String, String>) {
+        modules.iter_mut().for_each(|module| {
+            if let Some(source_code) = source_code.get(&module.name.to_py()) {
+                module.source_code = Some(source_code.clone());
+            }
+            Self::embed_source_code(&mut module.submodules, source_code);
+        });
+    }
+
     fn parse_dependencies(&mut self) -> Result<()> {
         fn get_imports_recursive(input: &[Module]) -> Vec<Import> {
             let mut imports = Vec::new();
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 31fc78e..5291e84 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -477,7 +477,7 @@ impl Module {
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-            let module_name = self.name.to_rs();
+            let module_name = self.name.to_py();
             let file_name = format!("{module_name}/__init__.py");
             quote::quote! {
                 /// Embed the Python source code of the module into the Python interpreter
-- 
2.43.0


From b51e396cab33a93741daf464cd1ea9191a81dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 12/19] fix: report parent packages that cannot be imported
 instead of panicking

---
 pyo3_bindgen_engine/src/codegen.rs | 31 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 965fc85..a3e4d7a 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -146,7 +146,7 @@ impl Codegen {
         }
 
         // Canonicalize the module tree
-        self.canonicalize();
+        self.canonicalize()?;
 
         // Embed the source code of the modules
         Self::embed_source_code(&mut self.modules, &self.embedded_source_code);
@@ -255,29 +255,30 @@ impl Codegen {
         })
     }
 
-    fn canonicalize(&mut self) {
+    fn canonicalize(&mut self) -> Result<()> {
         // Canonicalize the module tree, such that no submodules remain at the top-level
         // Example: If `mod.submod.subsubmod` is currently top-level, it will be embedded as submodule into `mod.submod`
         //          and `mod.submod` will be embedded in top-level `mod`
         pyo3::Python::with_gil(|py| {
-            self.modules.iter_mut().for_each(|module| {
+            self.modules.iter_mut().try_for_each(|module| {
                 if module.name.len() > 1 {
-                    *module =
-                        (0..module.name.len() - 1)
-                            .rev()
-                            .fold(module.clone(), |package, i| {
-                                let name = Path::from(&module.name[0..=i]);
-                                let mut parent_package =
-                                    Module::empty(py, name).unwrap_or_else(|_| unreachable!());
-                                parent_package.submodules.push(package);
-                                parent_package
-                            });
+                    *module = (0..module.name.len() - 1).rev().try_fold(
+                        module.clone(),
+                        |package, i| {
+                            let name = Path::from(&module.name[0..=i]);
+                            let mut parent_package = Module::empty(py, name)?;
+                            parent_package.submodules.push(package);
+                            Result::Ok(parent_package)
+                        },
+                    )?;
                 }
-            });
-        });
+                Result::Ok(())
+            })
+        })?;
 
         // Merge duplicate modules in the tree
         self.merge_duplicate_modules();
+        Ok(())
     }
 
     fn merge_duplicate_modules(&mut self) {
-- 
2.43.0


From 3dd723e05360044d11c69c3dbccbe1c3f6ca4638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:18 +0000
Subject: [PATCH 13/19] fix: export only generated items from preludes

---
 pyo3_bindgen_engine/src/syntax/module.rs | 39 ++++++++++++++++++++----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 5291e84..7eaa5de 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -407,7 +407,7 @@ impl Module {
         }
         // Prelude
         if cfg.generate_preludes {
-            module_content.extend(self.generate_prelude());
+            module_content.extend(self.generate_prelude(cfg)?);
         }
         // Type variables
         if cfg.generate_type_vars {
@@ -623,7 +623,7 @@ impl Module {
         index_attr_names
     }
 
-    fn generate_prelude(&self) -> Result<proc_macro2::TokenStream> {
+    fn generate_prelude(&self, cfg: &Config) -> Result<proc_macro2::TokenStream> {
         // Skip if the prelude is empty
         if self.prelude.is_empty() {
             return Ok(proc_macro2::TokenStream::new());
@@ -635,13 +635,16 @@ impl Module {
             .iter()
             // Retain only attributes that are within self.modules, self.classes, self.functions, self.type_vars, self.properties
             .filter(|&ident| self.check_ident_exists_immediate(ident, false))
+            // Retain only attributes for which bindings are generated
+            .filter(|&ident| self.check_ident_generated_immediate(ident, cfg))
+            // Skip attributes without a valid Rust ident (their bindings are renamed)
+            .filter_map(|ident| syn::Ident::try_from(ident).ok())
             .map(|ident| {
-                let ident: syn::Ident = ident.try_into()?;
-                Ok(quote::quote! {
+                quote::quote! {
                     #ident,
-                })
+                }
             })
-            .collect::<Result<proc_macro2::TokenStream>>()?;
+            .collect::<proc_macro2::TokenStream>();
 
         // Return empty prelude if there are no exports
         if exports.is_empty() {
@@ -710,4 +713,28 @@ impl Module {
                 .iter()
                 .any(|property| property.name.name() == ident)
     }
+
+    fn check_ident_generated_immediate(&self, ident: &Ident, cfg: &Config) -> bool {
+        (cfg.traverse_submodules
+            && self
+                .submodules
+                .iter()
+                .any(|module| module.name.name() == ident))
+            || (cfg.generate_classes && self.classes.iter().any(|class| class.name.name() == ident))
+            || (cfg.generate_functions
+                && self
+                    .functions
+                    .iter()
+                    .any(|function| function.name.name() == ident))
+            || (cfg.generate_type_vars
+                && self
+                    .type_vars
+                    .iter()
+                    .any(|type_var| type_var.name.name() == ident))
+            || (cfg.generate_properties
+                && self
+                    .properties
+                    .iter()
+                    .any(|property| property.name.name() == ident))
+    }
 }
-- 
2.43.0


From c14a606f0d4ca6a907051070f14182115a999292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:28 +0000
Subject: [PATCH 14/19] fix: avoid collisions between generated accessors and
 other functions

---
 pyo3_bindgen_engine/src/syntax/class.rs    | 31 +++++++++++++++++---
 pyo3_bindgen_engine/src/syntax/function.rs | 21 +++++++++----
 pyo3_bindgen_engine/src/syntax/module.rs   | 22 +++++++++++++-
 pyo3_bindgen_engine/src/syntax/property.rs | 34 +++++++++++++++++++---
 4 files changed, 94 insertions(+), 14 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index e54f538..8b688f0 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -231,7 +231,18 @@ impl Class {
             })?;
         // Properties
         {
-            let mut scoped_function_idents_extra = Vec::with_capacity(2);
+            // The first name of a constructor or call wrapper that is not used by any method
+            let available_name = |prefix: &str| {
+                std::iter::once(Ident::from_py(prefix))
+                    .chain((1..).map(|i| Ident::from_py(&format!("{prefix}{i}"))))
+                    .find(|ident| !scoped_function_idents.contains(&ident))
+                    .unwrap_or_else(|| unreachable!())
+            };
+            let mut scoped_function_idents_extra = scoped_function_idents
+                .iter()
+                .filter(|&&name| syn::Ident::try_from(name).is_err())
+                .map(|&name| Function::sanitize_name(name))
+                .collect_vec();
             if self.methods.iter().any(|method| {
                 matches!(
                     method.typ,
@@ -241,7 +252,7 @@ impl Class {
                     }
                 )
             }) {
-                scoped_function_idents_extra.push(Ident::from_py("new"));
+                scoped_function_idents_extra.push(available_name("new"));
             }
             if self.methods.iter().any(|method| {
                 matches!(
@@ -252,12 +263,24 @@ impl Class {
                     }
                 )
             }) {
-                scoped_function_idents_extra.push(Ident::from_py("call"));
+                scoped_function_idents_extra.push(available_name("call"));
             }
             scoped_function_idents.extend(scoped_function_idents_extra.iter());
+            let scoped_property_idents = self
+                .properties
+                .iter()
+                .map(|property| property.name.name())
+                .collect_vec();
             self.properties
                 .iter()
-                .map(|property| property.generate(cfg, &scoped_function_idents, local_types))
+                .map(|property| {
+                    property.generate(
+                        cfg,
+                        &scoped_function_idents,
+                        &scoped_property_idents,
+                        local_types,
+                    )
+                })
                 .try_for_each(|def| {
                     match def? {
                         FunctionImplementation::Function(impl_fn) => {
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 8160f0c..4460de3 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -323,6 +323,14 @@ impl Function {
         }
     }
 
+    /// Replacement for a function name that is not a valid Rust ident.
+    pub fn sanitize_name(name: &Ident) -> Ident {
+        Ident::from_py(&format!(
+            "f_{}",
+            name.as_py().replace(|c: char| !c.is_alphanumeric(), "_")
+        ))
+    }
+
     pub fn generate(
         &self,
         cfg: &Config,
@@ -352,11 +360,14 @@ impl Function {
                 }
             } else {
                 // Sanitize the function name
-                let new_name = Ident::from_py(&format!(
-                    "f_{}",
-                    name.as_py().replace(|c: char| !c.is_alphanumeric(), "_")
-                ));
-                if let Ok(sanitized_ident) = new_name.clone().try_into() {
+                let new_name = Self::sanitize_name(name);
+                if scoped_function_idents.contains(&&new_name) {
+                    eprintln!(
+                        "WARN: Function '{}' is an invalid Rust ident for a function name. Its new name '{new_name}' is already taken. Bindings will not be generated.",
+                        self.name
+                    );
+                    return Ok(FunctionImplementation::empty_function());
+                } else if let Ok(sanitized_ident) = new_name.clone().try_into() {
                     eprintln!(
                         "WARN: Function '{}' is an invalid Rust ident for a function name. Renamed to '{}'.",
                         self.name, self.name.parent().unwrap_or_default().join(&new_name.into())
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 7eaa5de..b19427b 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -448,12 +448,32 @@ impl Module {
         }
         // Properties
         if cfg.generate_properties {
+            let sanitized_function_idents = scoped_function_idents
+                .iter()
+                .filter(|&&name| syn::Ident::try_from(name).is_err())
+                .map(|&name| Function::sanitize_name(name))
+                .collect_vec();
+            let scoped_function_idents = scoped_function_idents
+                .iter()
+                .copied()
+                .chain(&sanitized_function_idents)
+                .collect_vec();
+            let scoped_property_idents = self
+                .properties
+                .iter()
+                .map(|property| property.name.name())
+                .collect_vec();
             module_content.extend(
                 self.properties
                     .iter()
                     .map(|property| {
                         property
-                            .generate(cfg, &scoped_function_idents, &local_types)
+                            .generate(
+                                cfg,
+                                &scoped_function_idents,
+                                &scoped_property_idents,
+                                &local_types,
+                            )
                             .map(|def| {
                                 if let FunctionImplementation::Function(impl_fn) = def {
                                     impl_fn
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index d507bfe..73d28c3 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -156,6 +156,7 @@ impl Property {
         &self,
         cfg: &Config,
         scoped_function_idents: &[&Ident],
+        scoped_property_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<FunctionImplementation> {
         Ok(match self.owner {
@@ -164,14 +165,24 @@ impl Property {
 
                 // Getter
                 let impl_fn = self
-                    .generate_getter(cfg, scoped_function_idents, local_types)?
+                    .generate_getter(
+                        cfg,
+                        scoped_function_idents,
+                        scoped_property_idents,
+                        local_types,
+                    )?
                     .impl_fn;
                 functions.extend(quote::quote! { pub #impl_fn });
 
                 // Setter (if mutable)
                 if self.is_mutable {
                     let impl_fn = self
-                        .generate_setter(cfg, scoped_function_idents, local_types)?
+                        .generate_setter(
+                            cfg,
+                            scoped_function_idents,
+                            scoped_property_idents,
+                            local_types,
+                        )?
                         .impl_fn;
                     functions.extend(quote::quote! { pub #impl_fn });
                 }
@@ -183,13 +194,23 @@ impl Property {
                 let mut impl_fn = proc_macro2::TokenStream::new();
 
                 // Getter
-                let getter = self.generate_getter(cfg, scoped_function_idents, local_types)?;
+                let getter = self.generate_getter(
+                    cfg,
+                    scoped_function_idents,
+                    scoped_property_idents,
+                    local_types,
+                )?;
                 trait_fn.extend(getter.trait_fn);
                 impl_fn.extend(getter.impl_fn);
 
                 // Setter (if mutable)
                 if self.is_mutable {
-                    let setter = self.generate_setter(cfg, scoped_function_idents, local_types)?;
+                    let setter = self.generate_setter(
+                        cfg,
+                        scoped_function_idents,
+                        scoped_property_idents,
+                        local_types,
+                    )?;
                     trait_fn.extend(setter.trait_fn);
                     impl_fn.extend(setter.impl_fn);
                 }
@@ -203,6 +224,7 @@ impl Property {
         &self,
         cfg: &Config,
         scoped_function_idents: &[&Ident],
+        scoped_property_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<TraitMethod> {
         let mut trait_fn = proc_macro2::TokenStream::new();
@@ -227,6 +249,7 @@ impl Property {
                 {
                     let getter_name = Ident::from_py(&format!("get_{}", name.as_py()));
                     if scoped_function_idents.contains(&&getter_name)
+                        || scoped_property_idents.contains(&&getter_name)
                         || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
                     {
                         return Ok(TraitMethod::empty());
@@ -239,6 +262,7 @@ impl Property {
             } else {
                 let getter_name = Ident::from_py(&format!("get_{}", name.as_py()));
                 if scoped_function_idents.contains(&&getter_name)
+                    || scoped_property_idents.contains(&&getter_name)
                     || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
                 {
                     return Ok(TraitMethod::empty());
@@ -294,6 +318,7 @@ impl Property {
         &self,
         cfg: &Config,
         scoped_function_idents: &[&Ident],
+        scoped_property_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<TraitMethod> {
         let mut trait_fn = proc_macro2::TokenStream::new();
@@ -313,6 +338,7 @@ impl Property {
         let function_ident: syn::Ident = {
             let setter_name = Ident::from_py(&format!("set_{}", self.name.name().as_py()));
             if scoped_function_idents.contains(&&setter_name)
+                || scoped_property_idents.contains(&&setter_name)
                 || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&setter_name.as_py())
             {
                 return Ok(TraitMethod::empty());
-- 
2.43.0


From ea0b68f851a90777c0edb36beebe13e33a799a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:35 +0000
Subject: [PATCH 15/19] fix: omit the visibility of omitted module accessors

---
 pyo3_bindgen_engine/src/syntax/property.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 73d28c3..6e336ae 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -172,7 +172,9 @@ impl Property {
                         local_types,
                     )?
                     .impl_fn;
-                functions.extend(quote::quote! { pub #impl_fn });
+                if !impl_fn.is_empty() {
+                    functions.extend(quote::quote! { pub #impl_fn });
+                }
 
                 // Setter (if mutable)
                 if self.is_mutable {
@@ -184,7 +186,9 @@ impl Property {
                             local_types,
                         )?
                         .impl_fn;
-                    functions.extend(quote::quote! { pub #impl_fn });
+                    if !impl_fn.is_empty() {
+                        functions.extend(quote::quote! { pub #impl_fn });
+                    }
                 }
 
                 FunctionImplementation::Function(functions)
-- 
2.43.0


From 1cd089411c874b150e8937b53d2d007dba5bac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:42 +0000
Subject: [PATCH 16/19] fix: print Python paths that consist of parents only

---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 302347e..3f114fc 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -70,6 +70,13 @@ impl Path {
                     ident.as_py()
                 }
             })
+            // There is one dot per parent, also if no name follows the last one
+            .chain(
+                self.segments
+                    .last()
+                    .filter(|ident| ident.as_rs() == "super")
+                    .map(|_| ""),
+            )
             .collect_vec()
             .join(".")
     }
-- 
2.43.0


From 8fb559a327d4c71b835863f4674309a375b6c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 17/19] fix: parse unions of several None-like types without
 panicking

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 0be0649..169fc56 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -142,7 +142,7 @@ impl Type {
                                     inner_types
                                         .iter()
                                         .find(|x| **x != Self::PyNone)
-                                        .unwrap_or_else(|| unreachable!())
+                                        .unwrap_or(&Self::PyNone)
                                         .to_owned(),
                                 ))
                             } else {
-- 
2.43.0


From 43e84bb1bc65ec9aab74722b16a1a92a72ab45cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 18/19] fix: accept annotations that are not valid UTF-8

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 169fc56..d0e39cb 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -32,7 +32,8 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyAny>> for Type {
                         value
                             .downcast::<pyo3::types::PyString>()
                             .unwrap()
-                            .to_str()?,
+                            .to_string_lossy()
+                            .as_ref(),
                     )
                 } else {
                     Self::from_str(&value.to_string())
-- 
2.43.0


From ba8c69c6f4433c3077afc338ae6737865351234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 19/19] fix: recognise annotations that are the datetime class

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index d0e39cb..f66a3ad 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -77,10 +77,10 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for Type {
 
             // Additional types - datetime
             #[cfg(not(Py_LIMITED_API))]
-            t if t.is_subclass_of::<pyo3::types::PyDate>()? => Self::PyDate,
-            #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyDateTime>()? => Self::PyDateTime,
             #[cfg(not(Py_LIMITED_API))]
+            t if t.is_subclass_of::<pyo3::types::PyDate>()? => Self::PyDate,
+            #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyDelta>()? => Self::PyDelta,
             #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyTime>()? => Self::PyTime,
-- 
2.43.0

