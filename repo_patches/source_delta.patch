From 951d1ee3237804d5add6e4cffe2a0cdf07a86252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 01/51] fix: report an error for a directory without an entry
 file instead of panicking

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0dcfb57..f429059 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,7 +252,9 @@ impl Resolver {
                 };
                 ResolverStats::Error((err_msg, info))
             }
-            _ => unreachable!(),
+            // every candidate had been tried and none of them exists,
+            // for example a directory without any main file.
+            ResolverStats::Resolving(info) => ResolverStats::Error((resolve_err_msg, info)),
         }
     }
 }
-- 
2.43.0


From 9edc10812ddc84608e607512776dcfab9249d6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 02/51] fix: keep the request when a module directory without
 entry file is skipped

---
 src/resolve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index f33572a..7b0c322 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -104,7 +104,10 @@ impl Resolver {
                             ResolverStats::Error((error, err_info))
                         }
                     }
-                    _ => stats,
+                    // nothing in this module matched, look it up in the parent directory
+                    // with the original request rather than with the consumed one.
+                    ResolverStats::Resolving(_) => ResolverStats::Resolving(info),
+                    ResolverStats::Success(_) => stats,
                 }
             }
         } else {
-- 
2.43.0


From 7190a3b4da39442d7668cd376358558b03fe2a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 03/51] fix: look up every main field and main file from the
 package directory

---
 src/lib.rs               | 8 --------
 src/plugin/main_field.rs | 9 ++++-----
 src/plugin/main_file.rs  | 6 ++----
 3 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f429059..406b910 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -144,14 +144,6 @@ impl ResolverStats {
     pub fn is_success(&self) -> bool {
         matches!(self, ResolverStats::Success(_))
     }
-
-    pub fn extract_info(self) -> ResolveInfo {
-        match self {
-            ResolverStats::Resolving(info) => info,
-            ResolverStats::Error((_, info)) => info,
-            _ => unreachable!(),
-        }
-    }
 }
 
 pub(crate) static MODULE: &str = "node_modules";
diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index a68c6a7..6ad0594 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -21,8 +21,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
-            let mut main_field_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
-
             for user_main_field in &resolver.options.main_fields {
                 if let Some(main_field) = pkg_info
                     .raw
@@ -34,7 +32,10 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                         break;
                     }
 
-                    main_field_info = if main_field.starts_with("./") {
+                    // every field is looked up from the directory of the description file
+                    let main_field_info =
+                        ResolveInfo::from(info.path.to_owned(), info.request.clone());
+                    let main_field_info = if main_field.starts_with("./") {
                         main_field_info.with_target(main_field)
                     } else {
                         main_field_info.with_target(&format!("./{main_field}"))
@@ -47,8 +48,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
 
                     if stats.is_success() {
                         return stats;
-                    } else {
-                        main_field_info = stats.extract_info();
                     }
                 }
             }
diff --git a/src/plugin/main_file.rs b/src/plugin/main_file.rs
index 85a0789..8c27b98 100644
--- a/src/plugin/main_file.rs
+++ b/src/plugin/main_file.rs
@@ -18,9 +18,9 @@ impl<'a> MainFilePlugin<'a> {
 
 impl<'a> Plugin for MainFilePlugin<'a> {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
-        let mut main_file_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
         for main_file in &resolver.options.main_files {
-            main_file_info = main_file_info.with_target(&format!("./{main_file}"));
+            let main_file_info = ResolveInfo::from(info.path.to_owned(), info.request.clone())
+                .with_target(&format!("./{main_file}"));
             let stats = ExportsFieldPlugin::new(self.pkg_info)
                 .apply(resolver, main_file_info)
                 .and_then(|info| ImportsFieldPlugin::new(self.pkg_info).apply(resolver, info))
@@ -28,8 +28,6 @@ impl<'a> Plugin for MainFilePlugin<'a> {
                 .and_then(|info| resolver.resolve_as_file(info));
             if stats.is_success() {
                 return stats;
-            } else {
-                main_file_info = stats.extract_info();
             }
         }
         ResolverStats::Resolving(info)
-- 
2.43.0


From 6b49e98627916f64eaaef5c1bc3993cef5968cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 04/51] fix: accept null targets and report malformed exports
 and imports fields instead of panicking

---
 src/description.rs |  6 ++++--
 src/map.rs         | 20 +++++++++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 416468d..4716cdc 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -67,7 +67,8 @@ impl Resolver {
             }
         }
 
-        let exports_field_tree = if let Some(value) = json.get("exports") {
+        let exports_field_tree = if let Some(value) = json.get("exports").filter(|value| !value.is_null())
+        {
             let key = serde_json::to_string(&value).unwrap_or_else(|_| {
                 panic!("Parse {}/exports to hash key failed", file_path.display())
             });
@@ -82,7 +83,8 @@ impl Resolver {
             None
         };
 
-        let imports_field_tree = if let Some(value) = json.get("imports") {
+        let imports_field_tree = if let Some(value) = json.get("imports").filter(|value| !value.is_null())
+        {
             let key = serde_json::to_string(&value).unwrap_or_else(|_| {
                 panic!("Parse {}/imports to hash key failed", file_path.display())
             });
diff --git a/src/map.rs b/src/map.rs
index 8122f31..3bc2077 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -119,7 +119,13 @@ pub trait Field {
                         MappingValue::Conditional(conditional) => {
                             temp.push(AvailableMapping::Conditional(conditional))
                         }
-                        _ => panic!("Array mapping is not allowed nested in exports field"),
+                        // `null`, a target which never matched.
+                        MappingValue::Array(nested) if nested.is_empty() => {}
+                        _ => {
+                            return Err(
+                                "Array mapping is not allowed nested in exports field".to_string()
+                            )
+                        }
                     }
                 }
                 MappingValue::Array(temp)
@@ -131,7 +137,11 @@ pub trait Field {
                 }
                 MappingValue::Conditional(map)
             }
-            _ => unreachable!(),
+            // `null` means this subpath or condition is excluded.
+            serde_json::Value::Null => MappingValue::Array(vec![]),
+            serde_json::Value::Bool(_) | serde_json::Value::Number(_) => {
+                return Err(format!("Unexpected target {json_value} in field mapping"))
+            }
         };
         Ok(result)
     }
@@ -362,7 +372,11 @@ impl Field for ImportsField {
     fn build_field_path_tree(imports_field_value: &serde_json::Value) -> RResult<PathTreeNode> {
         let field = match Self::from_json(imports_field_value)? {
             MappingValue::Conditional(field) => field,
-            _ => unreachable!(),
+            _ => {
+                return Err(format!(
+                    "Imports field should be an object, but got {imports_field_value}"
+                ))
+            }
         };
         let mut root = PathTreeNode::default();
         for (key, value) in field {
-- 
2.43.0


From c5ecebd6ab511515a6335e9702c93f0a7dd5100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 05/51] fix: do not panic on a true entry in the browser field

---
 src/description.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 4716cdc..3f263ae 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -58,8 +58,10 @@ impl Resolver {
             if let Some(map) = value.as_object() {
                 for (key, value) in map {
                     if let Some(b) = value.as_bool() {
-                        assert!(!b);
-                        alias_fields.insert(key.to_string(), AliasMap::Ignored);
+                        // `true` keeps the original one.
+                        if !b {
+                            alias_fields.insert(key.to_string(), AliasMap::Ignored);
+                        }
                     } else if let Some(s) = value.as_str() {
                         alias_fields.insert(key.to_string(), AliasMap::Target(s.to_string()));
                     }
-- 
2.43.0


From 68a6ef2434f79347523d7346196f5e3dd9fd7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 06/51] fix: do not overflow the stack when entries of the
 browser field point at each other

---
 src/plugin/alias_field.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 425049d..449a579 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -19,16 +19,19 @@ impl<'a> AliasFieldPlugin<'a> {
         target: &AliasMap,
         alias_fields: &HashMap<String, AliasMap>,
     ) -> AliasMap {
-        match target {
-            AliasMap::Target(target) => {
-                if let Some(next) = alias_fields.get(target) {
-                    self.deal_with_alias_fields_recursive(next, alias_fields)
-                } else {
-                    AliasMap::Target(target.clone())
-                }
+        let mut current = target;
+        // a chain without repetition can not be longer than the number of its keys,
+        // so stop there if the aliases point at each other.
+        for _ in 0..alias_fields.len() {
+            match current {
+                AliasMap::Target(target) => match alias_fields.get(target) {
+                    Some(next) => current = next,
+                    None => break,
+                },
+                AliasMap::Ignored => break,
             }
-            AliasMap::Ignored => AliasMap::Ignored,
         }
+        current.clone()
     }
 
     pub(super) fn request_target_is_module_and_equal_alias_key(
-- 
2.43.0


From 3d5cc7fe79163d39ef2469c8dcfdc8ff58e992ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 07/51] fix: try the entries of the browser field in the order
 they are written

---
 src/description.rs        | 6 +++---
 src/plugin/alias_field.rs | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 3f263ae..13185df 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -1,6 +1,6 @@
 use crate::map::{ExportsField, Field, ImportsField, PathTreeNode};
 use crate::{AliasMap, RResult, Resolver};
-use std::collections::HashMap;
+use indexmap::IndexMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -17,7 +17,7 @@ pub struct PkgFileInfo {
     pub abs_dir_path: PathBuf,
     pub name: Option<String>,
     pub version: Option<String>,
-    pub alias_fields: HashMap<String, AliasMap>,
+    pub alias_fields: IndexMap<String, AliasMap>,
     pub exports_field_tree: Option<Arc<PathTreeNode>>,
     pub imports_field_tree: Option<Arc<PathTreeNode>>,
     pub side_effects: Option<SideEffects>,
@@ -52,7 +52,7 @@ impl Resolver {
                     .map_err(|_| format!("Parse {} failed", file_path.display()))
             })?;
 
-        let mut alias_fields = HashMap::new();
+        let mut alias_fields = IndexMap::new();
 
         if let Some(value) = json.get("browser") {
             if let Some(map) = value.as_object() {
diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 449a579..d2cd530 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -1,6 +1,7 @@
 use crate::{description::PkgFileInfo, AliasMap, Resolver};
+use indexmap::IndexMap;
+use std::path::PathBuf;
 use std::sync::Arc;
-use std::{collections::HashMap, path::PathBuf};
 
 use super::Plugin;
 use crate::{PathKind, ResolveInfo, ResolveResult, ResolverStats};
@@ -17,7 +18,7 @@ impl<'a> AliasFieldPlugin<'a> {
     pub(super) fn deal_with_alias_fields_recursive(
         &self,
         target: &AliasMap,
-        alias_fields: &HashMap<String, AliasMap>,
+        alias_fields: &IndexMap<String, AliasMap>,
     ) -> AliasMap {
         let mut current = target;
         // a chain without repetition can not be longer than the number of its keys,
-- 
2.43.0


From 894bf8ae9e91cc6b43812d2a3240cf98ee8d3e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 08/51] fix: report an error for recursive aliases instead of
 overflowing the stack

---
 src/lib.rs                    |  7 ++++++-
 src/parse.rs                  | 16 ++++++++++++++++
 src/plugin/alias.rs           | 22 +++++++++++++++++-----
 src/plugin/prefer_relative.rs |  2 +-
 src/utils.rs                  |  9 +++++++++
 5 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 406b910..66c72bf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -68,7 +68,7 @@ use std::{
     sync::Arc,
 };
 
-use crate::utils::RAISE_RESOLVE_ERROR_TAG;
+use crate::utils::{RAISE_RESOLVE_ERROR_TAG, RECURSION_ERROR_PREFIX};
 
 #[derive(Default, Debug)]
 pub struct Resolver {
@@ -144,6 +144,11 @@ impl ResolverStats {
     pub fn is_success(&self) -> bool {
         matches!(self, ResolverStats::Success(_))
     }
+
+    /// There is no need to try other candidates after a recursion.
+    pub fn is_recursion(&self) -> bool {
+        matches!(self, ResolverStats::Error((err, _)) if err.starts_with(RECURSION_ERROR_PREFIX))
+    }
 }
 
 pub(crate) static MODULE: &str = "node_modules";
diff --git a/src/parse.rs b/src/parse.rs
index a03f701..22f7ef2 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -3,12 +3,17 @@ use smol_str::SmolStr;
 use crate::kind::PathKind;
 use crate::Resolver;
 
+const MAX_REDIRECTS: u8 = 32;
+
 #[derive(Clone, Debug)]
 pub struct Request {
     pub target: SmolStr,
     pub query: SmolStr,
     pub fragment: SmolStr,
     pub(crate) kind: PathKind,
+    /// How many times it had been redirected by `alias` or by an internal request
+    /// in `imports` field.
+    pub(crate) redirects: u8,
 }
 
 impl std::fmt::Display for Request {
@@ -24,6 +29,7 @@ impl Request {
             query: "".into(),
             fragment: "".into(),
             kind: PathKind::Relative,
+            redirects: 0,
         }
     }
 
@@ -66,6 +72,15 @@ impl Request {
         (target, query, fragment)
     }
 
+    /// `None` if it had been redirected too many times, which means
+    /// that the redirections are recursive.
+    pub(crate) fn redirected_from(self, from: &Request) -> Option<Self> {
+        (from.redirects < MAX_REDIRECTS).then(|| Self {
+            redirects: from.redirects + 1,
+            ..self
+        })
+    }
+
     pub(crate) fn with_target(self, target: &str) -> Self {
         Self {
             kind: Resolver::get_target_kind(target),
@@ -83,6 +98,7 @@ impl Resolver {
             target: target.into(),
             query: query.into(),
             fragment: fragment.into(),
+            redirects: 0,
         }
     }
 }
diff --git a/src/plugin/alias.rs b/src/plugin/alias.rs
index 316222f..6729c2b 100644
--- a/src/plugin/alias.rs
+++ b/src/plugin/alias.rs
@@ -22,12 +22,24 @@ impl Plugin for AliasPlugin {
                             continue;
                         }
                         let normalized_target = inner_target.replacen(from, to, 1);
-                        let alias_info = ResolveInfo::from(
-                            info.path.to_path_buf(),
-                            info.request.clone().with_target(&normalized_target),
-                        );
+                        let alias_request = match info
+                            .request
+                            .clone()
+                            .with_target(&normalized_target)
+                            .redirected_from(&info.request)
+                        {
+                            Some(request) => request,
+                            None => {
+                                return ResolverStats::Error((
+                                    Resolver::raise_recursion_message(&info),
+                                    info,
+                                ))
+                            }
+                        };
+                        let alias_info =
+                            ResolveInfo::from(info.path.to_path_buf(), alias_request);
                         let stats = resolver._resolve(alias_info);
-                        if stats.is_success() {
+                        if stats.is_success() || stats.is_recursion() {
                             return stats;
                         }
                     }
diff --git a/src/plugin/prefer_relative.rs b/src/plugin/prefer_relative.rs
index 60c2351..03a27eb 100644
--- a/src/plugin/prefer_relative.rs
+++ b/src/plugin/prefer_relative.rs
@@ -17,7 +17,7 @@ impl Plugin for PreferRelativePlugin {
                 info.request.clone().with_target(&target),
             );
             let stats = resolver._resolve(info);
-            if stats.is_success() {
+            if stats.is_success() || stats.is_recursion() {
                 return stats;
             }
         }
diff --git a/src/utils.rs b/src/utils.rs
index c3f12d2..fe70a71 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -3,6 +3,7 @@ use std::path::{Path, PathBuf};
 use crate::{ResolveInfo, Resolver};
 
 pub static RAISE_RESOLVE_ERROR_TAG: &str = "T0";
+pub static RECURSION_ERROR_PREFIX: &str = "Recursion in resolving";
 
 impl Resolver {
     pub(super) fn raise_tag() -> String {
@@ -17,6 +18,14 @@ impl Resolver {
         )
     }
 
+    pub(super) fn raise_recursion_message(info: &ResolveInfo) -> String {
+        format!(
+            "{RECURSION_ERROR_PREFIX} '{}' in '{}'",
+            info.request,
+            info.path.display()
+        )
+    }
+
     pub(super) fn find_up(now_dir: &Path, file_name: &str) -> Option<PathBuf> {
         let path = now_dir.join(file_name);
         if path.is_file() {
-- 
2.43.0


From 78c4ca1beb958f31b6d27b732fccb4770a38fba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 09/51] fix: report an error for recursive imports fields
 instead of overflowing the stack

---
 src/plugin/imports_field.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index e1dcbdb..2a054f3 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -44,7 +44,15 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
             };
 
             if let Some(item) = list.first() {
-                let request = resolver.parse(item);
+                let request = match resolver.parse(item).redirected_from(&info.request) {
+                    Some(request) => request,
+                    None => {
+                        return ResolverStats::Error((
+                            Resolver::raise_recursion_message(&info),
+                            info,
+                        ))
+                    }
+                };
                 let is_normal_kind = matches!(request.kind, PathKind::Normal);
                 let is_internal_kind = matches!(request.kind, PathKind::Internal);
                 let info = ResolveInfo::from(
-- 
2.43.0


From edc0755b5a640d8babca560a23e46da4a8bbaf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 10/51] fix: report an error for malformed tsconfig files
 instead of panicking

---
 src/tsconfig.rs | 60 +++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 04901bf..e269625 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -20,28 +20,44 @@ pub struct CompilerOptions {
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
         let json = parse_file_to_value(location, resolver)?;
-        let compiler_options = json.get("compilerOptions").map(|options| {
-            // TODO: should optimized
-            let base_url = options
-                .get("baseUrl")
-                .map(|v| v.as_str().unwrap().to_string());
-            let paths = options.get("paths").map(|v| {
-                let mut map = HashMap::new();
+        let unexpected = |name: &str, value: &serde_json::Value| {
+            format!(
+                "{name} in {} had unexpected value {value}",
+                location.display()
+            )
+        };
+        let compiler_options = match json.get("compilerOptions") {
+            Some(options) => {
                 // TODO: should optimized
-                for (key, obj) in v.as_object().unwrap() {
-                    map.insert(
-                        key.to_string(),
-                        obj.as_array()
-                            .unwrap()
-                            .iter()
-                            .map(|v| v.as_str().unwrap().to_string())
-                            .collect(),
-                    );
-                }
-                map
-            });
-            CompilerOptions { base_url, paths }
-        });
+                let base_url = match options.get("baseUrl") {
+                    None | Some(serde_json::Value::Null) => None,
+                    Some(serde_json::Value::String(base_url)) => Some(base_url.to_string()),
+                    Some(v) => return Err(unexpected("baseUrl", v)),
+                };
+                let paths = match options.get("paths") {
+                    None | Some(serde_json::Value::Null) => None,
+                    Some(v) => {
+                        let mut map = HashMap::new();
+                        // TODO: should optimized
+                        for (key, obj) in v.as_object().ok_or_else(|| unexpected("paths", v))? {
+                            let targets = obj
+                                .as_array()
+                                .and_then(|targets| {
+                                    targets
+                                        .iter()
+                                        .map(|v| v.as_str().map(|s| s.to_string()))
+                                        .collect::<Option<Vec<_>>>()
+                                })
+                                .ok_or_else(|| unexpected("paths", v))?;
+                            map.insert(key.to_string(), targets);
+                        }
+                        Some(map)
+                    }
+                };
+                Some(CompilerOptions { base_url, paths })
+            }
+            None => None,
+        };
         let extends: Option<String> = json.get("extends").map(|v| v.to_string());
         Ok(TsConfig {
             extends,
@@ -55,7 +71,7 @@ fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_js
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
-        .unwrap_or_else(|| panic!("Transfer {} to serde value failed", location.display()));
+        .ok_or_else(|| format!("Parse {} failed. Error: it is empty", location.display()))?;
 
     // merge `extends`.
     if let serde_json::Value::String(s) = &json["extends"] {
-- 
2.43.0


From 0e56effec4e0526855e23fd25ebf1ae2efd83f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 11/51] fix: report an error for circular extends in tsconfig
 instead of overflowing the stack

---
 src/tsconfig.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index e269625..aa819e7 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -3,7 +3,7 @@
 use crate::{RResult, ResolveInfo, ResolveResult, Resolver, ResolverStats};
 use std::collections::HashMap;
 use std::fs::read_to_string;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
 #[derive(Debug, Clone)]
 pub struct TsConfig {
@@ -19,7 +19,7 @@ pub struct CompilerOptions {
 
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
-        let json = parse_file_to_value(location, resolver)?;
+        let json = parse_file_to_value(location, resolver, &mut vec![])?;
         let unexpected = |name: &str, value: &serde_json::Value| {
             format!(
                 "{name} in {} had unexpected value {value}",
@@ -66,7 +66,20 @@ impl TsConfig {
     }
 }
 
-fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_json::Value> {
+fn parse_file_to_value(
+    location: &Path,
+    resolver: &Resolver,
+    extended_by: &mut Vec<PathBuf>,
+) -> RResult<serde_json::Value> {
+    // the same file may be reached by different paths.
+    let real_location = location
+        .canonicalize()
+        .map_err(|_| format!("Open {} failed", location.display()))?;
+    if extended_by.contains(&real_location) {
+        return Err(format!("Circular extends in {}", location.display()));
+    }
+    extended_by.push(real_location);
+
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
@@ -81,7 +94,9 @@ fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_js
         // Is it better to use cache?
         if let ResolverStats::Success(result) = stats {
             let extends_tsconfig_json = match result {
-                ResolveResult::Info(info) => parse_file_to_value(&info.get_path(), resolver),
+                ResolveResult::Info(info) => {
+                    parse_file_to_value(&info.get_path(), resolver, extended_by)
+                }
                 ResolveResult::Ignored => {
                     return Err(format!("{s} had been ignored in {}", location.display()))
                 }
-- 
2.43.0


From 7e38c9164df2fe066c2af86f5a190a4578941539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 12/51] fix: do not slice inside of a char when matching the
 paths of tsconfig

---
 src/tsconfig_path.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 7a43b55..d2adf58 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -58,14 +58,7 @@ impl Resolver {
         pattern.find(|c| c == '*').and_then(|star_index| {
             let part1 = &pattern[..star_index];
             let part2 = &pattern[star_index + 1..];
-            if &search[0..star_index] != part1 {
-                return None;
-            }
-            if &search[search.len() - part2.len()..] != part2 {
-                return None;
-            }
-            let len = search.len() - part2.len() - part1.len();
-            Some(&search[star_index..star_index + len])
+            search.strip_prefix(part1)?.strip_suffix(part2)
         })
     }
 
-- 
2.43.0


From 95f3d0ff42149ecf8f1752efdc5aa26f911a266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 13/51] fix: try the paths of tsconfig in the order of their
 prefix rather than a random one

---
 src/tsconfig_path.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index d2adf58..8a20eb1 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -25,7 +25,7 @@ impl Resolver {
         absolute_base_url: &Path,
         paths: &HashMap<String, Vec<String>>,
     ) -> Vec<MappingEntry> {
-        paths
+        let mut entries: Vec<MappingEntry> = paths
             .iter()
             .map(|(key, paths)| {
                 let pattern = key.to_string();
@@ -35,7 +35,15 @@ impl Resolver {
                     .collect();
                 MappingEntry { pattern, paths }
             })
-            .collect()
+            .collect();
+        // The pattern with the longest prefix had been tried firstly.
+        let prefix_len = |pattern: &str| pattern.find('*').unwrap_or(pattern.len());
+        entries.sort_by(|a, b| {
+            prefix_len(&b.pattern)
+                .cmp(&prefix_len(&a.pattern))
+                .then_with(|| a.pattern.cmp(&b.pattern))
+        });
+        entries
     }
 
     fn parse_tsconfig(location: &Path, resolver: &Resolver) -> RResult<TsConfigInfo> {
-- 
2.43.0


From b8516c9c84c9c89534f00792174190b81ef405d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 14/51] fix: keep query and fragment of a request mapped by the
 paths of tsconfig

---
 src/parse.rs         | 10 ----------
 src/tsconfig_path.rs |  4 ++--
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 22f7ef2..37feea8 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -23,16 +23,6 @@ impl std::fmt::Display for Request {
 }
 
 impl Request {
-    pub(crate) fn empty() -> Self {
-        Self {
-            target: "".into(),
-            query: "".into(),
-            fragment: "".into(),
-            kind: PathKind::Relative,
-            redirects: 0,
-        }
-    }
-
     pub(crate) fn parse_identifier(ident: &str) -> (String, String, String) {
         // maybe we should use regexp: https://github.com/webpack/enhanced-resolve/blob/main/lib/util/identifier.js#L8
         let mut target = String::new();
diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 8a20eb1..d31471b 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -1,7 +1,7 @@
 // Copy from https://github.com/dividab/tsconfig-paths
 
 use super::tsconfig::TsConfig;
-use crate::{parse::Request, RResult, ResolveInfo, Resolver, ResolverStats};
+use crate::{RResult, ResolveInfo, Resolver, ResolverStats};
 use std::{
     collections::HashMap,
     path::{Path, PathBuf},
@@ -117,7 +117,7 @@ impl Resolver {
                     .replace('*', star_match);
 
                 let path = PathBuf::from(physical_path);
-                let result = self._resolve(ResolveInfo::from(path, Request::empty()));
+                let result = self._resolve(ResolveInfo::from(path, info.request.clone().with_target("")));
                 if result.is_success() {
                     return result;
                 }
-- 
2.43.0


From 974d29e7a255c8e17f19fcbf065719a3a3164704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 15/51] fix: do not map relative requests by the paths of
 tsconfig

---
 src/tsconfig_path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index d31471b..c8c877b 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -1,7 +1,7 @@
 // Copy from https://github.com/dividab/tsconfig-paths
 
 use super::tsconfig::TsConfig;
-use crate::{RResult, ResolveInfo, Resolver, ResolverStats};
+use crate::{PathKind, RResult, ResolveInfo, Resolver, ResolverStats};
 use std::{
     collections::HashMap,
     path::{Path, PathBuf},
@@ -97,6 +97,10 @@ impl Resolver {
             Ok(tsconfig) => tsconfig,
             Err(error) => return ResolverStats::Error((error, info)),
         };
+        // `paths` re-maps only non-relative requests.
+        if info.request.kind == PathKind::Relative {
+            return self._resolve(info);
+        }
         let absolute_path_mappings =
             Resolver::create_match_list(location, &tsconfig.base_url, &tsconfig.paths);
 
-- 
2.43.0


From 5037369b767e5fd746919552f0a9088b74696fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 16/51] fix: resolve an inherited baseUrl against the tsconfig
 which contains it

---
 src/tsconfig.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index aa819e7..f8fe37a 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -95,12 +95,22 @@ fn parse_file_to_value(
         if let ResolverStats::Success(result) = stats {
             let extends_tsconfig_json = match result {
                 ResolveResult::Info(info) => {
-                    parse_file_to_value(&info.get_path(), resolver, extended_by)
+                    let extends_location = info.get_path();
+                    let mut json = parse_file_to_value(&extends_location, resolver, extended_by)?;
+                    // `baseUrl` is relative to the file which contains it.
+                    if let Some(serde_json::Value::String(base_url)) =
+                        json.pointer_mut("/compilerOptions/baseUrl")
+                    {
+                        if let Some(dir) = extends_location.parent() {
+                            *base_url = dir.join(&base_url).display().to_string();
+                        }
+                    }
+                    json
                 }
                 ResolveResult::Ignored => {
                     return Err(format!("{s} had been ignored in {}", location.display()))
                 }
-            }?;
+            };
             merge(&mut json, extends_tsconfig_json);
         }
     }
-- 
2.43.0


From 1e1b0c5149d4581a552632d7eb03453dd23a1071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 17/51] fix: let the paths of a tsconfig override the inherited
 ones

---
 src/tsconfig.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index f8fe37a..48a7afb 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -121,6 +121,10 @@ fn merge(a: &mut serde_json::Value, b: serde_json::Value) {
     match (a, b) {
         (&mut serde_json::Value::Object(ref mut a), serde_json::Value::Object(b)) => {
             for (k, v) in b {
+                // An object-valued option, `paths` for example, is overridden as a whole.
+                if k == "paths" && a.get(&k).map_or(false, |v| !v.is_null()) {
+                    continue;
+                }
                 merge(a.entry(k).or_insert(serde_json::Value::Null), v);
             }
         }
-- 
2.43.0


From 625d5357cd464616da6f06c999180ac5ca70d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 18/51] fix: find the end of a non-ASCII module name by its
 bytes

---
 src/resolve.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 7b0c322..e884771 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -49,12 +49,8 @@ impl Resolver {
             let target = &info.request.target;
             // join request part
             let has_namespace_scope = target.starts_with('@');
-            let slash_index_list: Vec<usize> = target
-                .chars()
-                .enumerate()
-                .filter(|(_, char)| '/'.eq(char))
-                .map(|(index, _)| index)
-                .collect();
+            let slash_index_list: Vec<usize> =
+                target.match_indices('/').map(|(index, _)| index).collect();
             let last_start_index = if has_namespace_scope {
                 slash_index_list.get(1)
             } else {
-- 
2.43.0


From 0df2af1e10717f12e099148da9a3e22290e644a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 19/51] fix: do not panic on a request which is only a scope

---
 src/plugin/exports_field.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index f7d1214..05f2c27 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -47,8 +47,11 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                 let query = &info.request.query;
                 let fragment = &info.request.fragment;
                 let chars: String = if target.starts_with('@') {
-                    let index = target.find('/').unwrap();
-                    &target[index + 1..]
+                    match target.find('/') {
+                        Some(index) => &target[index + 1..],
+                        // a scope is not a package
+                        None => return ResolverStats::Error((Resolver::raise_tag(), info)),
+                    }
                 } else {
                     target
                 }
-- 
2.43.0


From 2b3a3c88adc19253938eba178f47232c66843f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 20/51] fix: keep the dollar signs of a subpath matched by a
 pattern

---
 src/map.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 3bc2077..0baef88 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -158,9 +158,7 @@ pub trait Field {
                 (true, false) => Err(format!("Expected {target} is folder mapping")),
                 (false, true) => Err(format!("Expected {target} is file mapping")),
                 (false, false) => {
-                    let request = remaining_request.as_ref().unwrap();
-                    let to = &request.replace('$', "$$");
-                    Ok(target.replace('*', to))
+                    Ok(target.replace('*', request))
                 }
             }
         } else if !is_folder {
-- 
2.43.0


From da554178d7c3b744d5aee4bb8b383bcfb2cc07db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 21/51] fix: count chars rather than bytes when matching
 subpaths

---
 src/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 0baef88..5e23c42 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -434,7 +434,7 @@ impl PathTreeNode {
         if let Some(map) = &node.wildcards {
             for (key, target) in map {
                 if remaining_request.starts_with(key) {
-                    let index = (last_non_slash_index + key.len()) as i32;
+                    let index = (last_non_slash_index + key.chars().count()) as i32;
                     if last_folder_match.is_none() || last_folder_match.unwrap().1 < index {
                         last_folder_match = Some((target, index));
                     }
@@ -498,7 +498,7 @@ impl PathTreeNode {
             .iter()
             .collect::<String>();
             if let Some(value) = node.files.get(&remaining_request) {
-                Some((value, (remaining_request.len() + 1) as i32))
+                Some((value, (request.len() + 1) as i32))
             } else {
                 Self::apply_wildcard_mappings(
                     Self::apply_folder_mapping(last_folder_match, node, last_non_slash_index),
-- 
2.43.0


From d904a80046898bab13dc2b9a05e5e2730b0d715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 22/51] fix: cache the tree of imports field in its own map

---
 src/description.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 13185df..e38deec 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -94,7 +94,7 @@ impl Resolver {
                 Some(tree.clone())
             } else {
                 let tree = Arc::new(ImportsField::build_field_path_tree(value)?);
-                self.cache.exports_content_to_tree.insert(key, tree.clone());
+                self.cache.imports_content_to_tree.insert(key, tree.clone());
                 Some(tree)
             }
         } else {
-- 
2.43.0


From 2c54ff20e9b39ac1163d45a4fc28c736218fc22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 23/51] fix: look up a package mapped by imports like any other
 package

---
 src/plugin/imports_field.rs | 32 +++++---------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index 2a054f3..f51a30a 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -1,8 +1,8 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, plugin::ExportsFieldPlugin, Resolver, MODULE};
+use crate::{description::PkgFileInfo, Resolver};
 
-use super::{AliasFieldPlugin, Plugin};
+use super::Plugin;
 use crate::{
     map::{Field, ImportsField},
     PathKind, ResolveInfo, ResolverStats,
@@ -55,33 +55,11 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
                 };
                 let is_normal_kind = matches!(request.kind, PathKind::Normal);
                 let is_internal_kind = matches!(request.kind, PathKind::Internal);
-                let info = ResolveInfo::from(
-                    if is_normal_kind {
-                        pkg_info.abs_dir_path.join(MODULE)
-                    } else {
-                        pkg_info.abs_dir_path.to_path_buf()
-                    },
-                    request,
-                );
+                let info = ResolveInfo::from(pkg_info.abs_dir_path.to_path_buf(), request);
 
                 if is_normal_kind {
-                    let path = info.get_path();
-                    // TODO: should optimized
-                    let pkg_info = match resolver.load_pkg_file(&path) {
-                        Ok(info) => info,
-                        Err(err) => return ResolverStats::Error((err, info)),
-                    };
-                    if let Some(ref pkg_info) = pkg_info {
-                        if !pkg_info.abs_dir_path.display().to_string().contains(MODULE) {
-                            return ResolverStats::Resolving(info);
-                        }
-                    }
-
-                    ExportsFieldPlugin::new(&pkg_info)
-                        .apply(resolver, info)
-                        .and_then(|info| ImportsFieldPlugin::new(&pkg_info).apply(resolver, info))
-                        .and_then(|info| AliasFieldPlugin::new(&pkg_info).apply(resolver, info))
-                        .and_then(|info| ImportsFieldPlugin::check_target(info, target))
+                    // look it up from the directory of this package
+                    ResolverStats::Resolving(info)
                 } else if is_internal_kind {
                     self.apply(resolver, info)
                 } else {
-- 
2.43.0


From 359d3083256876b198e5a51ff839f2d31d47996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 24/51] fix: do not treat a package whose name starts with the
 name of this one as itself

---
 src/plugin/exports_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index 05f2c27..94577ef 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -25,8 +25,8 @@ impl<'a> ExportsFieldPlugin<'a> {
         pkg_info
             .name
             .as_ref()
-            .map(|pkg_name| info.request.target.starts_with(pkg_name))
-            .map_or(false, |ans| ans)
+            .and_then(|pkg_name| info.request.target.strip_prefix(pkg_name.as_str()))
+            .map_or(false, |rest| rest.is_empty() || rest.starts_with('/'))
     }
 }
 
-- 
2.43.0


From 38920e82f3d9a11185dc6ba095471c568c987fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 25/51] fix: read exports from the root of the requested module
 only

---
 src/plugin/exports_field.rs | 10 ++++++----
 src/resolve.rs              | 39 ++++++++++++++++++++++---------------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index 94577ef..f987e80 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, kind::PathKind, Resolver, MODULE};
+use crate::{description::PkgFileInfo, kind::PathKind, Resolver};
 
 use super::Plugin;
 use crate::{
@@ -17,8 +17,10 @@ impl<'a> ExportsFieldPlugin<'a> {
         Self { pkg_info }
     }
 
-    fn is_in_module(&self, pkg_info: &PkgFileInfo) -> bool {
-        pkg_info.abs_dir_path.to_string_lossy().contains(MODULE)
+    /// Whether `pkg_info` describes the module which had been requested.
+    fn is_requested_module(pkg_info: &PkgFileInfo, info: &ResolveInfo) -> bool {
+        let module_name = Resolver::get_module_name(&info.request.target);
+        pkg_info.abs_dir_path.eq(&info.path.join(module_name))
     }
 
     pub(crate) fn is_resolve_self(pkg_info: &PkgFileInfo, info: &ResolveInfo) -> bool {
@@ -39,7 +41,7 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
-            if !self.is_in_module(pkg_info) && !Self::is_resolve_self(pkg_info, &info) {
+            if !Self::is_requested_module(pkg_info, &info) && !Self::is_resolve_self(pkg_info, &info) {
                 return ResolverStats::Resolving(info);
             }
 
diff --git a/src/resolve.rs b/src/resolve.rs
index e884771..5169d6a 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,7 +1,5 @@
 use std::path::{Path, PathBuf};
 
-use smol_str::SmolStr;
-
 use crate::plugin::{
     AliasFieldPlugin, ExportsFieldPlugin, ExtensionsPlugin, ImportsFieldPlugin, MainFieldPlugin,
     MainFilePlugin, Plugin,
@@ -41,27 +39,29 @@ impl Resolver {
             .and_then(|info| MainFilePlugin::new(&pkg_info_wrap).apply(self, info))
     }
 
+    /// `a` in `a/b/c`, `@a/b` in `@a/b/c`.
+    pub(crate) fn get_module_name(target: &str) -> &str {
+        let mut slash_indices = target.match_indices('/').map(|(index, _)| index);
+        let end = if target.starts_with('@') {
+            slash_indices.nth(1)
+        } else {
+            slash_indices.next()
+        };
+        end.map_or(target, |index| &target[..index])
+    }
+
     #[tracing::instrument]
     pub(crate) fn resolve_as_modules(&self, info: ResolveInfo) -> ResolverStats {
         let original_dir = info.path.clone();
         let module_root_path = original_dir.join(MODULE);
         let stats = if module_root_path.is_dir() {
             let target = &info.request.target;
-            // join request part
-            let has_namespace_scope = target.starts_with('@');
-            let slash_index_list: Vec<usize> =
-                target.match_indices('/').map(|(index, _)| index).collect();
-            let last_start_index = if has_namespace_scope {
-                slash_index_list.get(1)
-            } else {
-                slash_index_list.first()
-            };
-            let module_name =
-                last_start_index.map_or(target.clone(), |&index| SmolStr::new(&target[0..index]));
-            let module_path = module_root_path.join(&*module_name);
+            let module_path = module_root_path.join(Self::get_module_name(target));
 
             let module_info = ResolveInfo::from(module_root_path, info.request.clone());
-            let pkg_info = match self.load_pkg_file(&module_info.path.join(&**target)) {
+            // `exports` is read from the root of the module, even if there are
+            // other description files in its sub directories.
+            let pkg_info = match self.load_pkg_file(&module_path) {
                 Ok(pkg_info) => pkg_info,
                 Err(err) => return ResolverStats::Error((err, info)),
             };
@@ -78,8 +78,15 @@ impl Resolver {
             } else {
                 let stats = ExportsFieldPlugin::new(&pkg_info)
                     .apply(self, module_info)
-                    .and_then(|info| ImportsFieldPlugin::new(&pkg_info).apply(self, info))
                     .and_then(|info| {
+                        let pkg_info = match self.load_pkg_file(&info.get_path()) {
+                            Ok(pkg_info) => pkg_info,
+                            Err(err) => return ResolverStats::Error((err, info)),
+                        };
+                        let info = match ImportsFieldPlugin::new(&pkg_info).apply(self, info) {
+                            ResolverStats::Resolving(info) => info,
+                            stats => return stats,
+                        };
                         let info = if matches!(info.request.kind, PathKind::Normal) {
                             let target = format!("./{}", info.request.target);
                             info.with_target(&target)
-- 
2.43.0


From 2f147b58966dea5c0b94e6b5c258299206ac64ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 26/51] fix: do not let empty segments in a subpath lead out of
 the package

---
 src/map.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 5e23c42..ed963ec 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -81,23 +81,19 @@ pub struct PathTreeNode {
 ///  `build_field_path_tree` and `field_process`.
 pub trait Field {
     fn check_target(relative_path: &str) -> bool {
-        let relative_path = relative_path.chars().collect::<Vec<char>>();
-        let slash_index_list = PathTreeNode::get_next_list(&relative_path, '/');
-        let mut last_non_slash_index = 0;
         let mut cd = 0;
-        while let Some(&Some(slash_index)) = slash_index_list.get(last_non_slash_index) {
-            if relative_path[last_non_slash_index] == '.'
-                && relative_path[last_non_slash_index + 1] == '.'
-            {
-                cd -= 1;
-                if cd < 0 {
-                    return false;
+        for segment in relative_path.split('/') {
+            match segment {
+                ".." => {
+                    cd -= 1;
+                    if cd < 0 {
+                        return false;
+                    }
                 }
-            } else if relative_path[last_non_slash_index] == '.' {
-            } else {
-                cd += 1;
+                // `a//b` is the same as `a/b`
+                "" | "." => {}
+                _ => cd += 1,
             }
-            last_non_slash_index = slash_index + 1;
         }
         true
     }
-- 
2.43.0


From 104b146f37a973892bd1745bb68f210352bdc4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 27/51] fix: do not panic in debug builds when a description
 file is parsed again after a failure or by another thread

---
 src/cache.rs       | 19 -------------------
 src/description.rs | 19 -------------------
 src/lib.rs         |  7 -------
 3 files changed, 45 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 85e0c79..c1900a8 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -11,22 +11,3 @@ pub struct ResolverCache {
     pub exports_content_to_tree: DashMap<String, Arc<PathTreeNode>>,
     pub imports_content_to_tree: DashMap<String, Arc<PathTreeNode>>,
 }
-
-#[cfg(debug_assertions)]
-#[derive(Default, Debug, Clone)]
-pub(crate) struct DebugReadMap(DashMap<PathBuf, bool>);
-
-#[cfg(debug_assertions)]
-impl DebugReadMap {
-    pub(crate) fn remove(&self, path: &std::path::Path) {
-        self.0.remove(path);
-    }
-
-    pub(crate) fn contains_key(&self, path: &std::path::Path) -> bool {
-        self.0.contains_key(path)
-    }
-
-    pub(crate) fn insert(&self, path: &std::path::Path, value: bool) {
-        self.0.insert(path.to_path_buf(), value);
-    }
-}
diff --git a/src/description.rs b/src/description.rs
index e38deec..d099464 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -27,20 +27,6 @@ pub struct PkgFileInfo {
 impl Resolver {
     #[tracing::instrument]
     fn parse_description_file(&self, dir: &Path, file_path: PathBuf) -> RResult<PkgFileInfo> {
-        #[cfg(debug_assertions)]
-        {
-            // ensure that the same package.json is not parsed twice
-            if self.dbg_read_map.contains_key(&file_path) {
-                println!("{:?}", self.cache.file_dir_to_pkg_info);
-                println!("{:?}", self.dbg_read_map);
-                panic!(
-                    "Had try to parse same package.json, {}",
-                    file_path.display()
-                )
-            }
-            self.dbg_read_map.insert(&file_path, true);
-        }
-
         let str = tracing::debug_span!("read_to_string").in_scope(|| {
             self.fs
                 .read_to_string(&file_path)
@@ -187,11 +173,6 @@ impl Resolver {
                 // and not modified, then return
                 return Ok(r#ref.clone());
             } else {
-                #[cfg(debug_assertions)]
-                {
-                    self.dbg_read_map.remove(&description_file_path);
-                }
-
                 false
             }
         } else {
diff --git a/src/lib.rs b/src/lib.rs
index 66c72bf..3fe74eb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,9 +54,6 @@ mod tsconfig;
 mod tsconfig_path;
 mod utils;
 
-#[cfg(debug_assertions)]
-use cache::DebugReadMap;
-
 pub use cache::ResolverCache;
 pub use description::SideEffects;
 use kind::PathKind;
@@ -75,8 +72,6 @@ pub struct Resolver {
     pub options: ResolverOptions,
     cache: Arc<ResolverCache>,
     fs: fs::CacheFile,
-    #[cfg(debug_assertions)]
-    dbg_read_map: DebugReadMap,
 }
 
 pub type ResolverError = String;
@@ -176,8 +171,6 @@ impl Resolver {
             fs,
             cache,
             options,
-            #[cfg(debug_assertions)]
-            dbg_read_map: Default::default(),
         }
     }
 
-- 
2.43.0


From a197d9584a5fa80e4734d8444a6081822f5b65db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 28/51] fix: read a description file again when its
 modification time went backwards

---
 src/fs.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fs.rs b/src/fs.rs
index 2d67760..348abf4 100644
--- a/src/fs.rs
+++ b/src/fs.rs
@@ -42,12 +42,14 @@ impl CacheFile {
             .get(path.as_ref())
             .map(|value| value.1)
             .map(|stored_last_modify_time| -> RResult<bool> {
-                let duration = Self::get_last_modified_time_from_file(path.as_ref())?
-                    .duration_since(stored_last_modify_time)
-                    .map_err(|_| {
-                        format!("Compare SystemTime failed in {}", path.as_ref().display())
-                    })?;
-                Ok(duration >= self.duration)
+                let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
+                Ok(
+                    match last_modified_time.duration_since(stored_last_modify_time) {
+                        Ok(duration) => duration >= self.duration,
+                        // it had been replaced by an older file
+                        Err(_) => true,
+                    },
+                )
             })
             .map_or(Ok(true), |val| val)
     }
-- 
2.43.0


From 4112344db4bdd1e1f326038f25d8456022ee96d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 29/51] fix: get the modification time of a description file
 before its content

---
 src/fs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fs.rs b/src/fs.rs
index 348abf4..698d595 100644
--- a/src/fs.rs
+++ b/src/fs.rs
@@ -56,11 +56,13 @@ impl CacheFile {
 
     #[tracing::instrument]
     pub fn read_to_string<P: AsRef<Path> + Debug>(&self, path: P) -> RResult<Arc<String>> {
+        // get the time before the content, if it is modified between them then it
+        // will be read again next time.
+        let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
         let str = Arc::new(
             fs::read_to_string(path.as_ref())
                 .map_err(|_| format!("Open {} failed", path.as_ref().display()))?,
         );
-        let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
         self.cached_file.insert(
             path.as_ref().to_path_buf(),
             (str.clone(), last_modified_time),
-- 
2.43.0


From eaab99aecf1a0ef2dde49b25cd422d23e3b5b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 30/51] fix: check whether a cached description is up to date
 by the file it had been read from

---
 src/description.rs | 25 ++++++++++++++++------
 src/fs.rs          | 53 ++++++++++++++++++++--------------------------
 2 files changed, 42 insertions(+), 36 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index d099464..94e25a6 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -3,6 +3,7 @@ use crate::{AliasMap, RResult, Resolver};
 use indexmap::IndexMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
+use std::time::SystemTime;
 
 #[derive(Clone, Debug)]
 pub enum SideEffects {
@@ -15,6 +16,10 @@ pub struct PkgFileInfo {
     /// The path to the directory where the description file located.
     /// It not a property in package.json.
     pub abs_dir_path: PathBuf,
+    /// The path to the description file and the time it had been modified when reading it.
+    /// They are not properties in package.json.
+    pub(crate) file_path: PathBuf,
+    pub(crate) last_modified_time: SystemTime,
     pub name: Option<String>,
     pub version: Option<String>,
     pub alias_fields: IndexMap<String, AliasMap>,
@@ -27,7 +32,7 @@ pub struct PkgFileInfo {
 impl Resolver {
     #[tracing::instrument]
     fn parse_description_file(&self, dir: &Path, file_path: PathBuf) -> RResult<PkgFileInfo> {
-        let str = tracing::debug_span!("read_to_string").in_scope(|| {
+        let (str, last_modified_time) = tracing::debug_span!("read_to_string").in_scope(|| {
             self.fs
                 .read_to_string(&file_path)
                 .map_err(|_| format!("Open {} failed", file_path.display()))
@@ -129,6 +134,8 @@ impl Resolver {
             name,
             version,
             abs_dir_path: dir.to_path_buf(),
+            file_path,
+            last_modified_time,
             alias_fields,
             exports_field_tree,
             imports_field_tree,
@@ -169,11 +176,17 @@ impl Resolver {
         let description_file_path = path.join(description_file_name);
         let need_find_up = if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
             // if pkg_info_cache contain this key
-            if !self.fs.need_update(&description_file_path)? {
-                // and not modified, then return
-                return Ok(r#ref.clone());
-            } else {
-                false
+            match r#ref.as_ref() {
+                // and it is about the same file
+                Some(pkg_info) if pkg_info.file_path == description_file_path => {
+                    let last_modified_time = pkg_info.last_modified_time;
+                    if !self.fs.need_update(&description_file_path, last_modified_time)? {
+                        // and not modified, then return
+                        return Ok(r#ref.clone());
+                    }
+                    false
+                }
+                _ => !description_file_path.is_file(),
             }
         } else {
             !description_file_path.is_file()
diff --git a/src/fs.rs b/src/fs.rs
index 698d595..10aa8aa 100644
--- a/src/fs.rs
+++ b/src/fs.rs
@@ -1,9 +1,6 @@
-use dashmap::DashMap;
 use std::fmt::Debug;
 use std::fs;
 use std::path::Path;
-use std::path::PathBuf;
-use std::sync::Arc;
 use std::time;
 
 use crate::RResult;
@@ -11,7 +8,6 @@ use crate::RResult;
 #[derive(Default, Debug)]
 pub struct CacheFile {
     duration: time::Duration,
-    cached_file: DashMap<PathBuf, (Arc<String>, time::SystemTime)>,
 }
 
 impl CacheFile {
@@ -19,7 +15,6 @@ impl CacheFile {
     pub fn new(duration: u64) -> Self {
         CacheFile {
             duration: time::Duration::from_millis(duration),
-            cached_file: Default::default(),
         }
     }
 
@@ -32,41 +27,39 @@ impl CacheFile {
             .map_err(|_| format!("Get modified time of {} failed", path.as_ref().display()))
     }
 
+    /// Whether the file had been modified since it was read, `stored_last_modify_time`
+    /// is the time returned by `read_to_string`.
     #[tracing::instrument]
-    pub fn need_update<P: AsRef<Path> + Debug>(&self, path: P) -> RResult<bool> {
+    pub fn need_update<P: AsRef<Path> + Debug>(
+        &self,
+        path: P,
+        stored_last_modify_time: time::SystemTime,
+    ) -> RResult<bool> {
         if !path.as_ref().is_file() {
             // no  need update if `p` pointed file dose not exist
             return Ok(false);
         }
-        self.cached_file
-            .get(path.as_ref())
-            .map(|value| value.1)
-            .map(|stored_last_modify_time| -> RResult<bool> {
-                let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
-                Ok(
-                    match last_modified_time.duration_since(stored_last_modify_time) {
-                        Ok(duration) => duration >= self.duration,
-                        // it had been replaced by an older file
-                        Err(_) => true,
-                    },
-                )
-            })
-            .map_or(Ok(true), |val| val)
+        let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
+        Ok(
+            match last_modified_time.duration_since(stored_last_modify_time) {
+                Ok(duration) => duration >= self.duration,
+                // it had been replaced by an older file
+                Err(_) => true,
+            },
+        )
     }
 
+    /// Returns content and the last modified time.
     #[tracing::instrument]
-    pub fn read_to_string<P: AsRef<Path> + Debug>(&self, path: P) -> RResult<Arc<String>> {
+    pub fn read_to_string<P: AsRef<Path> + Debug>(
+        &self,
+        path: P,
+    ) -> RResult<(String, time::SystemTime)> {
         // get the time before the content, if it is modified between them then it
         // will be read again next time.
         let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
-        let str = Arc::new(
-            fs::read_to_string(path.as_ref())
-                .map_err(|_| format!("Open {} failed", path.as_ref().display()))?,
-        );
-        self.cached_file.insert(
-            path.as_ref().to_path_buf(),
-            (str.clone(), last_modified_time),
-        );
-        Ok(str)
+        let str = fs::read_to_string(path.as_ref())
+            .map_err(|_| format!("Open {} failed", path.as_ref().display()))?;
+        Ok((str, last_modified_time))
     }
 }
-- 
2.43.0


From 2783b13c0ead9b5b13d9945287e155b77bcb2f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 31/51] fix: do not cache missing description files and do not
 recurse for each parent directory

---
 src/description.rs | 78 +++++++++++++++++-----------------------------
 src/utils.rs       | 13 --------
 2 files changed, 28 insertions(+), 63 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 94e25a6..d570e87 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -160,69 +160,47 @@ impl Resolver {
 
     #[tracing::instrument]
     pub(crate) fn load_pkg_file(&self, path: &Path) -> RResult<Option<Arc<PkgFileInfo>>> {
-        if self.options.description_file.is_none() {
-            return Ok(None);
-        }
-        // Because the key in `self.cache.file_dir_to_pkg_info` represents directory.
-        // So this step is ensure `path` pointed to directory.
-        if !path.is_dir() {
-            return match path.parent() {
-                Some(dir) => self.load_pkg_file(dir),
-                None => Err(Resolver::raise_tag()),
-            };
+        let description_file_name = match self.options.description_file.as_ref() {
+            Some(name) => name,
+            None => return Ok(None),
+        };
+        // find the closest directory witch contains description file
+        for dir in path.ancestors() {
+            let description_file_path = dir.join(description_file_name);
+            if description_file_path.is_file() {
+                return self.load_pkg_file_in_dir(dir, description_file_path);
+            }
         }
+        Ok(None)
+    }
 
-        let description_file_name = self.options.description_file.as_ref().unwrap();
-        let description_file_path = path.join(description_file_name);
-        let need_find_up = if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
+    fn load_pkg_file_in_dir(
+        &self,
+        dir: &Path,
+        description_file_path: PathBuf,
+    ) -> RResult<Option<Arc<PkgFileInfo>>> {
+        if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(dir) {
             // if pkg_info_cache contain this key
-            match r#ref.as_ref() {
+            if let Some(pkg_info) = r#ref.as_ref() {
                 // and it is about the same file
-                Some(pkg_info) if pkg_info.file_path == description_file_path => {
-                    let last_modified_time = pkg_info.last_modified_time;
-                    if !self.fs.need_update(&description_file_path, last_modified_time)? {
-                        // and not modified, then return
-                        return Ok(r#ref.clone());
-                    }
-                    false
-                }
-                _ => !description_file_path.is_file(),
-            }
-        } else {
-            !description_file_path.is_file()
-        };
-
-        // pkg_info_cache do **not** contain this key
-        // or this file had modified
-        if need_find_up {
-            // find the closest directory witch contains description file
-            if let Some(target_dir) = Self::find_up(path, description_file_name) {
-                return self.load_pkg_file(&target_dir);
-            } else {
-                // it means all paths during from the `path` to root pointed None.
-                // cache it
-                let mut path = path;
-                loop {
-                    if path.is_dir() {
-                        self.cache
-                            .file_dir_to_pkg_info
-                            .insert(path.to_path_buf(), None);
-                        match path.parent() {
-                            Some(parent) => path = parent,
-                            None => return Ok(None),
-                        }
-                    }
+                if pkg_info.file_path == description_file_path
+                    && !self
+                        .fs
+                        .need_update(&description_file_path, pkg_info.last_modified_time)?
+                {
+                    // and not modified, then return
+                    return Ok(r#ref.clone());
                 }
             }
         }
 
         let pkg_info = Some(Arc::new(
-            self.parse_description_file(path, description_file_path)?,
+            self.parse_description_file(dir, description_file_path)?,
         ));
 
         self.cache
             .file_dir_to_pkg_info
-            .insert(path.to_path_buf(), pkg_info.clone());
+            .insert(dir.to_path_buf(), pkg_info.clone());
 
         Ok(pkg_info)
     }
diff --git a/src/utils.rs b/src/utils.rs
index fe70a71..e49837e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,5 +1,3 @@
-use std::path::{Path, PathBuf};
-
 use crate::{ResolveInfo, Resolver};
 
 pub static RAISE_RESOLVE_ERROR_TAG: &str = "T0";
@@ -25,15 +23,4 @@ impl Resolver {
             info.path.display()
         )
     }
-
-    pub(super) fn find_up(now_dir: &Path, file_name: &str) -> Option<PathBuf> {
-        let path = now_dir.join(file_name);
-        if path.is_file() {
-            Some(now_dir.to_path_buf())
-        } else {
-            now_dir
-                .parent()
-                .and_then(|parent| Self::find_up(parent, file_name))
-        }
-    }
 }
-- 
2.43.0


From b6beb4a996425093574fb1eb29fea46b9264dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 32/51] fix: do not take the description file of `a` for the
 one of `a/..`

---
 src/description.rs |  6 ++++--
 src/utils.rs       | 13 +++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index d570e87..809f3a7 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -165,11 +165,13 @@ impl Resolver {
             None => return Ok(None),
         };
         // find the closest directory witch contains description file
-        for dir in path.ancestors() {
+        let mut parent = Some(path.to_path_buf());
+        while let Some(dir) = parent {
             let description_file_path = dir.join(description_file_name);
             if description_file_path.is_file() {
-                return self.load_pkg_file_in_dir(dir, description_file_path);
+                return self.load_pkg_file_in_dir(&dir, description_file_path);
             }
+            parent = Self::parent_dir(&dir);
         }
         Ok(None)
     }
diff --git a/src/utils.rs b/src/utils.rs
index e49837e..53f5119 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,5 @@
+use std::path::{Path, PathBuf};
+
 use crate::{ResolveInfo, Resolver};
 
 pub static RAISE_RESOLVE_ERROR_TAG: &str = "T0";
@@ -23,4 +25,15 @@ impl Resolver {
             info.path.display()
         )
     }
+
+    /// Like `Path::parent`, but the parent of `a/b/..` is not `a/b`.
+    pub(super) fn parent_dir(dir: &Path) -> Option<PathBuf> {
+        if dir.ends_with("..") {
+            Self::normalize_path_without_link(dir)
+                .parent()
+                .map(Path::to_path_buf)
+        } else {
+            dir.parent().map(Path::to_path_buf)
+        }
+    }
 }
-- 
2.43.0


From 8eb75e809d1c45b6167740b62a50b2beab281de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 33/51] fix: do not look up modules of `a` for a request from
 `a/..`

---
 src/resolve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 5169d6a..8159a36 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -117,8 +117,8 @@ impl Resolver {
             ResolverStats::Resolving(info)
         }
         .and_then(|info| {
-            if let Some(parent_dir) = original_dir.parent() {
-                self.resolve_as_modules(info.with_path(parent_dir.to_path_buf()))
+            if let Some(parent_dir) = Self::parent_dir(&original_dir) {
+                self.resolve_as_modules(info.with_path(parent_dir))
             } else {
                 ResolverStats::Resolving(info)
             }
-- 
2.43.0


From 733558319eb5e1f14238a0f37317b0e1451750fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 34/51] fix: do not recurse for each parent directory when
 looking up modules

---
 src/resolve.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 8159a36..419517f 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -52,9 +52,24 @@ impl Resolver {
 
     #[tracing::instrument]
     pub(crate) fn resolve_as_modules(&self, info: ResolveInfo) -> ResolverStats {
-        let original_dir = info.path.clone();
-        let module_root_path = original_dir.join(MODULE);
-        let stats = if module_root_path.is_dir() {
+        let mut info = info;
+        loop {
+            let original_dir = info.path.clone();
+            info = match self.resolve_in_node_modules(info) {
+                ResolverStats::Resolving(info) => info,
+                stats => return stats,
+            };
+            info = match Self::parent_dir(&original_dir) {
+                Some(parent_dir) => info.with_path(parent_dir),
+                None => return ResolverStats::Error((Resolver::raise_tag(), info)),
+            };
+        }
+    }
+
+    #[tracing::instrument]
+    fn resolve_in_node_modules(&self, info: ResolveInfo) -> ResolverStats {
+        let module_root_path = info.path.join(MODULE);
+        if module_root_path.is_dir() {
             let target = &info.request.target;
             let module_path = module_root_path.join(Self::get_module_name(target));
 
@@ -116,18 +131,5 @@ impl Resolver {
         } else {
             ResolverStats::Resolving(info)
         }
-        .and_then(|info| {
-            if let Some(parent_dir) = Self::parent_dir(&original_dir) {
-                self.resolve_as_modules(info.with_path(parent_dir))
-            } else {
-                ResolverStats::Resolving(info)
-            }
-        });
-
-        match stats {
-            ResolverStats::Success(success) => ResolverStats::Success(success),
-            ResolverStats::Resolving(info) => ResolverStats::Error((Resolver::raise_tag(), info)),
-            ResolverStats::Error(err) => ResolverStats::Error(err),
-        }
     }
 }
-- 
2.43.0


From 1e006ed5617e1054cda2a86c5d7ff8438eabc2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 35/51] fix: look up the module which a file in a package is
 mapped to by the browser field

---
 src/lib.rs                | 12 +-----------
 src/parse.rs              |  4 ++--
 src/plugin/alias_field.rs | 21 +++++++++++++++++----
 src/plugin/main_field.rs  |  5 ++---
 src/plugin/main_file.rs   |  9 ++++++---
 src/resolve.rs            | 16 ++++++++++++++--
 6 files changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3fe74eb..1e5f5f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -220,17 +220,7 @@ impl Resolver {
                     .apply(self, info)
                     .and_then(|info| AliasFieldPlugin::new(&pkg_info_wrap).apply(self, info))
             })
-            .and_then(|info| {
-                if matches!(
-                    info.request.kind,
-                    PathKind::AbsolutePosix | PathKind::AbsoluteWin | PathKind::Relative
-                ) {
-                    self.resolve_as_file(info)
-                        .and_then(|info| self.resolve_as_dir(info))
-                } else {
-                    self.resolve_as_modules(info)
-                }
-            });
+            .and_then(|info| self.resolve_by_kind(info));
 
         match stats {
             ResolverStats::Success(result) => ResolverStats::Success(result),
diff --git a/src/parse.rs b/src/parse.rs
index 37feea8..9dc31eb 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -11,8 +11,8 @@ pub struct Request {
     pub query: SmolStr,
     pub fragment: SmolStr,
     pub(crate) kind: PathKind,
-    /// How many times it had been redirected by `alias` or by an internal request
-    /// in `imports` field.
+    /// How many times it had been redirected by `alias`, by `imports` field or
+    /// by `browser` field.
     pub(crate) redirects: u8,
 }
 
diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index d2cd530..7e852c1 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -76,10 +76,23 @@ impl<'a> Plugin for AliasFieldPlugin<'a> {
                     return match self
                         .deal_with_alias_fields_recursive(alias_target, &pkg_info.alias_fields)
                     {
-                        AliasMap::Target(converted) => ResolverStats::Resolving(
-                            info.with_path(pkg_info.abs_dir_path.to_path_buf())
-                                .with_target(&converted),
-                        ),
+                        AliasMap::Target(converted) => {
+                            match info
+                                .request
+                                .clone()
+                                .with_target(&converted)
+                                .redirected_from(&info.request)
+                            {
+                                Some(request) => ResolverStats::Resolving(ResolveInfo::from(
+                                    pkg_info.abs_dir_path.to_path_buf(),
+                                    request,
+                                )),
+                                None => ResolverStats::Error((
+                                    Resolver::raise_recursion_message(&info),
+                                    info,
+                                )),
+                            }
+                        }
                         AliasMap::Ignored => ResolverStats::Success(ResolveResult::Ignored),
                     };
                 }
diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index 6ad0594..7c747fb 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -43,10 +43,9 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
 
                     let stats = AliasFieldPlugin::new(self.pkg_info)
                         .apply(resolver, main_field_info)
-                        .and_then(|info| resolver.resolve_as_file(info))
-                        .and_then(|info| resolver.resolve_as_dir(info));
+                        .and_then(|info| resolver.resolve_by_kind(info));
 
-                    if stats.is_success() {
+                    if stats.is_success() || stats.is_recursion() {
                         return stats;
                     }
                 }
diff --git a/src/plugin/main_file.rs b/src/plugin/main_file.rs
index 8c27b98..a644f19 100644
--- a/src/plugin/main_file.rs
+++ b/src/plugin/main_file.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, Resolver};
+use crate::{description::PkgFileInfo, PathKind, Resolver};
 
 use super::{
     AliasFieldPlugin, ExportsFieldPlugin, ImportsFieldPlugin, Plugin, ResolveInfo, ResolverStats,
@@ -25,8 +25,11 @@ impl<'a> Plugin for MainFilePlugin<'a> {
                 .apply(resolver, main_file_info)
                 .and_then(|info| ImportsFieldPlugin::new(self.pkg_info).apply(resolver, info))
                 .and_then(|info| AliasFieldPlugin::new(self.pkg_info).apply(resolver, info))
-                .and_then(|info| resolver.resolve_as_file(info));
-            if stats.is_success() {
+                .and_then(|info| match info.request.kind {
+                    PathKind::Normal => resolver.resolve_as_modules(info),
+                    _ => resolver.resolve_as_file(info),
+                });
+            if stats.is_success() || stats.is_recursion() {
                 return stats;
             }
         }
diff --git a/src/resolve.rs b/src/resolve.rs
index 419517f..3888c22 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -39,6 +39,18 @@ impl Resolver {
             .and_then(|info| MainFilePlugin::new(&pkg_info_wrap).apply(self, info))
     }
 
+    pub(crate) fn resolve_by_kind(&self, info: ResolveInfo) -> ResolverStats {
+        if matches!(
+            info.request.kind,
+            PathKind::AbsolutePosix | PathKind::AbsoluteWin | PathKind::Relative
+        ) {
+            self.resolve_as_file(info)
+                .and_then(|info| self.resolve_as_dir(info))
+        } else {
+            self.resolve_as_modules(info)
+        }
+    }
+
     /// `a` in `a/b/c`, `@a/b` in `@a/b/c`.
     pub(crate) fn get_module_name(target: &str) -> &str {
         let mut slash_indices = target.match_indices('/').map(|(index, _)| index);
@@ -111,8 +123,8 @@ impl Resolver {
 
                         AliasFieldPlugin::new(&pkg_info).apply(self, info)
                     })
-                    .and_then(|info| self.resolve_as_file(info))
-                    .and_then(|info| self.resolve_as_dir(info));
+                    // `browser` field may map a file to an other module
+                    .and_then(|info| self.resolve_by_kind(info));
 
                 match stats {
                     ResolverStats::Error((error, err_info)) => {
-- 
2.43.0


From 9a6c2337e9d561b51311bea7884750655d7b65e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 36/51] fix: do not try a directory again when main fields
 point at each other

---
 src/plugin/main_field.rs | 21 +++++++++++++++++----
 src/resolve.rs           | 18 +++++++++++++++++-
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index 7c747fb..8976126 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -1,16 +1,24 @@
+use std::cell::RefCell;
+use std::collections::HashSet;
+use std::path::PathBuf;
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, Resolver};
+use crate::{description::PkgFileInfo, PathKind, Resolver};
 
 use super::{AliasFieldPlugin, Plugin, ResolveInfo, ResolverStats};
 
 pub struct MainFieldPlugin<'a> {
     pkg_info: &'a Option<Arc<PkgFileInfo>>,
+    /// The directories which had been tried.
+    tried: &'a RefCell<HashSet<PathBuf>>,
 }
 
 impl<'a> MainFieldPlugin<'a> {
-    pub fn new(pkg_info: &'a Option<Arc<PkgFileInfo>>) -> Self {
-        Self { pkg_info }
+    pub fn new(
+        pkg_info: &'a Option<Arc<PkgFileInfo>>,
+        tried: &'a RefCell<HashSet<PathBuf>>,
+    ) -> Self {
+        Self { pkg_info, tried }
     }
 }
 
@@ -43,7 +51,12 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
 
                     let stats = AliasFieldPlugin::new(self.pkg_info)
                         .apply(resolver, main_field_info)
-                        .and_then(|info| resolver.resolve_by_kind(info));
+                        .and_then(|info| match info.request.kind {
+                            PathKind::Normal => resolver.resolve_as_modules(info),
+                            _ => resolver
+                                .resolve_as_file(info)
+                                .and_then(|info| resolver.resolve_as_untried_dir(info, self.tried)),
+                        });
 
                     if stats.is_success() || stats.is_recursion() {
                         return stats;
diff --git a/src/resolve.rs b/src/resolve.rs
index 3888c22..74fdfff 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,3 +1,5 @@
+use std::cell::RefCell;
+use std::collections::HashSet;
 use std::path::{Path, PathBuf};
 
 use crate::plugin::{
@@ -24,17 +26,31 @@ impl Resolver {
 
     #[tracing::instrument]
     pub(crate) fn resolve_as_dir(&self, info: ResolveInfo) -> ResolverStats {
+        self.resolve_as_untried_dir(info, &Default::default())
+    }
+
+    /// The main fields of directories may point at each other, so every directory
+    /// is tried only once.
+    pub(crate) fn resolve_as_untried_dir(
+        &self,
+        info: ResolveInfo,
+        tried: &RefCell<HashSet<PathBuf>>,
+    ) -> ResolverStats {
         let dir = info.get_path();
         if !dir.is_dir() {
             return ResolverStats::Error((Resolver::raise_tag(), info));
         }
+        let real_dir = dir.canonicalize().unwrap_or_else(|_| dir.clone());
+        if !tried.borrow_mut().insert(real_dir) {
+            return ResolverStats::Error((Resolver::raise_tag(), info));
+        }
         let pkg_info_wrap = match self.load_pkg_file(&dir) {
             Ok(pkg_info) => pkg_info,
             Err(err) => return ResolverStats::Error((err, info)),
         };
 
         let info = info.with_path(dir).with_target("");
-        MainFieldPlugin::new(&pkg_info_wrap)
+        MainFieldPlugin::new(&pkg_info_wrap, tried)
             .apply(self, info)
             .and_then(|info| MainFilePlugin::new(&pkg_info_wrap).apply(self, info))
     }
-- 
2.43.0


From 8b4deb5be937d9b1216d80af8b242b627c01cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 37/51] fix: do not try absolute requests as relative ones when
 prefer_relative is set

---
 src/plugin/prefer_relative.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plugin/prefer_relative.rs b/src/plugin/prefer_relative.rs
index 03a27eb..41dfe99 100644
--- a/src/plugin/prefer_relative.rs
+++ b/src/plugin/prefer_relative.rs
@@ -1,4 +1,4 @@
-use crate::Resolver;
+use crate::{PathKind, Resolver};
 
 use super::{Plugin, ResolveInfo, ResolverStats};
 #[derive(Default)]
@@ -6,7 +6,10 @@ pub struct PreferRelativePlugin;
 
 impl Plugin for PreferRelativePlugin {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
-        if info.request.target.starts_with("../") || info.request.target.starts_with("./") {
+        if matches!(
+            info.request.kind,
+            PathKind::Relative | PathKind::AbsolutePosix | PathKind::AbsoluteWin
+        ) {
             return ResolverStats::Resolving(info);
         }
 
-- 
2.43.0


From ce5ab9140a2717cde210254ef670a185368bbf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 38/51] fix: apply the browser field of the importer even if
 the requested module is next to it

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1e5f5f9..fce9111 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -208,7 +208,8 @@ impl Resolver {
             .and_then(|info| PreferRelativePlugin::default().apply(self, info))
             .and_then(|info| {
                 let request = if info.request.kind.eq(&PathKind::Normal) {
-                    info.path.join(MODULE).join(&*info.request.target)
+                    // the description file of the importer
+                    info.path.to_path_buf()
                 } else {
                     info.get_path()
                 };
-- 
2.43.0


From dd7a765f96068a6c821084a3ff395ccc4cd8f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 39/51] fix: keep paths which are not valid UTF-8

---
 src/lib.rs       |  9 +++------
 src/normalize.rs | 12 ++++++------
 src/resolve.rs   |  4 +++-
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fce9111..ae021e5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -105,12 +105,9 @@ impl ResolveInfo {
     }
 
     pub fn join(&self) -> PathBuf {
-        let buf = format!(
-            "{}{}{}",
-            self.path.display(),
-            self.request.query,
-            self.request.fragment,
-        );
+        let mut buf = self.path.as_os_str().to_os_string();
+        buf.push(&*self.request.query);
+        buf.push(&*self.request.fragment);
         PathBuf::from(buf)
     }
 }
diff --git a/src/normalize.rs b/src/normalize.rs
index 018324b..ffe02b5 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -4,20 +4,20 @@ use crate::{RResult, ResolveResult, Resolver};
 
 impl Resolver {
     #[cfg(not(target_os = "windows"))]
-    fn adjust(p: PathBuf) -> String {
-        p.display().to_string()
+    fn adjust(p: PathBuf) -> PathBuf {
+        p
     }
 
     /// Eliminate `\\?\` prefix in windows.
     /// reference: https://stackoverflow.com/questions/41233684/why-does-my-canonicalized-path-get-prefixed-with
     #[cfg(target_os = "windows")]
-    fn adjust(p: PathBuf) -> String {
+    fn adjust(p: PathBuf) -> PathBuf {
         const VERBATIM_PREFIX: &str = r#"\\?\"#;
         let p = p.display().to_string();
         if p.starts_with(VERBATIM_PREFIX) {
-            p[VERBATIM_PREFIX.len()..].to_string()
+            PathBuf::from(&p[VERBATIM_PREFIX.len()..])
         } else {
-            p
+            PathBuf::from(p)
         }
     }
 
@@ -41,7 +41,7 @@ impl Resolver {
         if self.options.symlinks {
             Path::canonicalize(path)
                 .map_err(|_| "Path normalized failed".to_string())
-                .map(|result| PathBuf::from(Self::adjust(result)))
+                .map(Self::adjust)
         } else {
             Ok(Self::normalize_path_without_link(path))
         }
diff --git a/src/resolve.rs b/src/resolve.rs
index 74fdfff..00dccf0 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -11,7 +11,9 @@ use crate::{PathKind, ResolveInfo, ResolveResult, Resolver, ResolverStats, MODUL
 
 impl Resolver {
     pub(crate) fn append_ext_for_path(path: &Path, ext: &str) -> PathBuf {
-        PathBuf::from(&format!("{}{ext}", path.display()))
+        let mut path = path.as_os_str().to_os_string();
+        path.push(ext);
+        PathBuf::from(path)
     }
 
     #[tracing::instrument]
-- 
2.43.0


From 4d1af443b3822776213e27d3ab0cfb1501b8263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 40/51] fix: correct the name of assert/strict in built-in
 modules

---
 src/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kind.rs b/src/kind.rs
index 102dbe3..b165bc9 100644
--- a/src/kind.rs
+++ b/src/kind.rs
@@ -29,7 +29,7 @@ const BUILT_IN_MODULE_SET: Set<&'static str> = phf_set! {
    "_tls_common",
    "_tls_wrap",
    "assert",
-   "assert/,strict",
+   "assert/strict",
    "async_hooks",
    "buffer",
    "child_process",
-- 
2.43.0


From 56878f6bfc9f4e337d65268953a9bcf82609ce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 41/51] fix: count the redirections of a request mapped by
 exports

---
 src/parse.rs                | 9 +++++++++
 src/plugin/exports_field.rs | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 9dc31eb..2f8a67f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -71,6 +71,15 @@ impl Request {
         })
     }
 
+    /// The target of an `exports` field is found for the same request, which had been
+    /// redirected to this module.
+    pub(crate) fn redirected_like(self, from: &Request) -> Self {
+        Self {
+            redirects: from.redirects,
+            ..self
+        }
+    }
+
     pub(crate) fn with_target(self, target: &str) -> Self {
         Self {
             kind: Resolver::get_target_kind(target),
diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index f987e80..1d2bfb9 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -95,7 +95,7 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
             };
 
             for item in list {
-                let request = resolver.parse(&item);
+                let request = resolver.parse(&item).redirected_like(&info.request);
                 let info = ResolveInfo::from(pkg_info.abs_dir_path.to_path_buf(), request);
 
                 if info.get_path().is_file() && ExportsField::check_target(&info.request.target) {
-- 
2.43.0


From 14a18166cdcc3e51c4c146c5a4892cffad2b0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 42/51] fix: let unrelated entries of the browser field not
 decide where a cycle of entries ends

---
 src/plugin/alias_field.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 7e852c1..e5bf230 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -1,5 +1,6 @@
 use crate::{description::PkgFileInfo, AliasMap, Resolver};
 use indexmap::IndexMap;
+use std::collections::HashSet;
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -21,15 +22,12 @@ impl<'a> AliasFieldPlugin<'a> {
         alias_fields: &IndexMap<String, AliasMap>,
     ) -> AliasMap {
         let mut current = target;
-        // a chain without repetition can not be longer than the number of its keys,
-        // so stop there if the aliases point at each other.
-        for _ in 0..alias_fields.len() {
-            match current {
-                AliasMap::Target(target) => match alias_fields.get(target) {
-                    Some(next) => current = next,
-                    None => break,
-                },
-                AliasMap::Ignored => break,
+        // stop at the first repetition if the aliases point at each other.
+        let mut seen = HashSet::new();
+        while let AliasMap::Target(target) = current {
+            match alias_fields.get(target) {
+                Some(next) if seen.insert(target) => current = next,
+                _ => break,
             }
         }
         current.clone()
-- 
2.43.0


From eb76cc5f3b6c4e9c59372d0c110e76ac4ae42fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 43/51] fix: do not let the spelling of an earlier request show
 in errors of later ones

---
 src/description.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 809f3a7..67fdaac 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -196,13 +196,15 @@ impl Resolver {
             }
         }
 
+        // `a/.` and `a//` are the same key as `a`, so do not keep how this request spelled it.
+        let dir: PathBuf = dir.components().collect();
         let pkg_info = Some(Arc::new(
-            self.parse_description_file(dir, description_file_path)?,
+            self.parse_description_file(&dir, description_file_path)?,
         ));
 
         self.cache
             .file_dir_to_pkg_info
-            .insert(dir.to_path_buf(), pkg_info.clone());
+            .insert(dir, pkg_info.clone());
 
         Ok(pkg_info)
     }
-- 
2.43.0


From 0edbf02e78a6905e03d9e4b33fda132198359a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 44/51] fix: name the file which had been found if `..` follows
 a link and links are kept

---
 src/normalize.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index ffe02b5..d57a2ee 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -37,14 +37,38 @@ impl Resolver {
             })
     }
 
+    /// Links are kept, except those left by a `..` right behind them:
+    /// the parent of what they point to is the one the file had been found in.
+    fn normalize_path_with_link(path: &Path) -> std::io::Result<PathBuf> {
+        let mut result = PathBuf::new();
+        for path_component in path.components() {
+            match path_component {
+                Component::CurDir => {}
+                Component::ParentDir => {
+                    if result.is_symlink() {
+                        result = result.canonicalize().map(Self::adjust)?;
+                    }
+                    match result.components().next_back() {
+                        Some(Component::Normal(_)) => {
+                            result.pop();
+                        }
+                        Some(Component::RootDir | Component::Prefix(_)) => {}
+                        _ => result.push(path_component),
+                    }
+                }
+                _ => result.push(path_component),
+            }
+        }
+        Ok(result)
+    }
+
     fn normalize_path(&self, path: &Path) -> RResult<PathBuf> {
         if self.options.symlinks {
-            Path::canonicalize(path)
-                .map_err(|_| "Path normalized failed".to_string())
-                .map(Self::adjust)
+            Path::canonicalize(path).map(Self::adjust)
         } else {
-            Ok(Self::normalize_path_without_link(path))
+            Self::normalize_path_with_link(path)
         }
+        .map_err(|_| "Path normalized failed".to_string())
     }
 
     pub(super) fn normalize_result(&self, result: ResolveResult) -> RResult<ResolveResult> {
-- 
2.43.0


From 5b175e76c5909c12f242055b849d811f7bf3efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:03 +0000
Subject: [PATCH 45/51] fix: a directory in node_modules whose name begins with
 # overflowed the stack

---
 src/resolve.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 00dccf0..7b42943 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -3,8 +3,7 @@ use std::collections::HashSet;
 use std::path::{Path, PathBuf};
 
 use crate::plugin::{
-    AliasFieldPlugin, ExportsFieldPlugin, ExtensionsPlugin, ImportsFieldPlugin, MainFieldPlugin,
-    MainFilePlugin, Plugin,
+    AliasFieldPlugin, ExportsFieldPlugin, ExtensionsPlugin, MainFieldPlugin, MainFilePlugin, Plugin,
 };
 use crate::utils::RAISE_RESOLVE_ERROR_TAG;
 use crate::{PathKind, ResolveInfo, ResolveResult, Resolver, ResolverStats, MODULE};
@@ -128,11 +127,12 @@ impl Resolver {
                             Ok(pkg_info) => pkg_info,
                             Err(err) => return ResolverStats::Error((err, info)),
                         };
-                        let info = match ImportsFieldPlugin::new(&pkg_info).apply(self, info) {
-                            ResolverStats::Resolving(info) => info,
-                            stats => return stats,
-                        };
-                        let info = if matches!(info.request.kind, PathKind::Normal) {
+                        // a directory of this name is there, even if it begins with `#`,
+                        // looking it up as a module again would never end.
+                        let info = if matches!(
+                            info.request.kind,
+                            PathKind::Normal | PathKind::Internal
+                        ) {
                             let target = format!("./{}", info.request.target);
                             info.with_target(&target)
                         } else {
-- 
2.43.0


From 5f09b87f424b6dfd9386ed2045c9e6655ea9fa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 46/51] fix: imports that map to a longer internal request took
 exponential time and memory

---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 2f8a67f..bd2fea1 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -4,6 +4,8 @@ use crate::kind::PathKind;
 use crate::Resolver;
 
 const MAX_REDIRECTS: u8 = 32;
+/// A target which grows with each redirection, `#*` to `#*/*` for example, ends here.
+const MAX_REDIRECTED_LEN: usize = 64 * 1024;
 
 #[derive(Clone, Debug)]
 pub struct Request {
@@ -65,7 +67,9 @@ impl Request {
     /// `None` if it had been redirected too many times, which means
     /// that the redirections are recursive.
     pub(crate) fn redirected_from(self, from: &Request) -> Option<Self> {
-        (from.redirects < MAX_REDIRECTS).then(|| Self {
+        let is_endless = from.redirects >= MAX_REDIRECTS
+            || self.target.len() > from.target.len().max(MAX_REDIRECTED_LEN);
+        (!is_endless).then(|| Self {
             redirects: from.redirects + 1,
             ..self
         })
-- 
2.43.0


From 36668be798182dd40ff43bf0eea022eab4520e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:33 +0000
Subject: [PATCH 47/51] fix: do not pass an inherited baseUrl through lossy
 text, nor join it to the directory twice

---
 src/tsconfig.rs      | 34 ++++++++++++++++++----------------
 src/tsconfig_path.rs | 13 +++++--------
 2 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 48a7afb..9d0f625 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -13,13 +13,14 @@ pub struct TsConfig {
 
 #[derive(Debug, Clone)]
 pub struct CompilerOptions {
-    pub base_url: Option<String>,
+    /// Joined to the directory of the file which contains it.
+    pub base_url: Option<PathBuf>,
     pub paths: Option<HashMap<String, Vec<String>>>,
 }
 
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
-        let json = parse_file_to_value(location, resolver, &mut vec![])?;
+        let (json, base_url_dir) = parse_file_to_value(location, resolver, &mut vec![])?;
         let unexpected = |name: &str, value: &serde_json::Value| {
             format!(
                 "{name} in {} had unexpected value {value}",
@@ -31,7 +32,7 @@ impl TsConfig {
                 // TODO: should optimized
                 let base_url = match options.get("baseUrl") {
                     None | Some(serde_json::Value::Null) => None,
-                    Some(serde_json::Value::String(base_url)) => Some(base_url.to_string()),
+                    Some(serde_json::Value::String(base_url)) => Some(base_url_dir.join(base_url)),
                     Some(v) => return Err(unexpected("baseUrl", v)),
                 };
                 let paths = match options.get("paths") {
@@ -66,11 +67,12 @@ impl TsConfig {
     }
 }
 
+/// Returns the merged content and the directory which `baseUrl` in it is relative to.
 fn parse_file_to_value(
     location: &Path,
     resolver: &Resolver,
     extended_by: &mut Vec<PathBuf>,
-) -> RResult<serde_json::Value> {
+) -> RResult<(serde_json::Value, PathBuf)> {
     // the same file may be reached by different paths.
     let real_location = location
         .canonicalize()
@@ -86,26 +88,26 @@ fn parse_file_to_value(
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
         .ok_or_else(|| format!("Parse {} failed. Error: it is empty", location.display()))?;
 
+    // `location` pointed to `dir/tsconfig.json`
+    let mut base_url_dir = location.parent().unwrap().to_path_buf();
     // merge `extends`.
     if let serde_json::Value::String(s) = &json["extends"] {
-        // `location` pointed to `dir/tsconfig.json`
-        let dir = location.parent().unwrap().to_path_buf();
-        let stats = resolver._resolve(ResolveInfo::from(dir, resolver.parse(s)));
+        let stats =
+            resolver._resolve(ResolveInfo::from(base_url_dir.clone(), resolver.parse(s)));
         // Is it better to use cache?
         if let ResolverStats::Success(result) = stats {
             let extends_tsconfig_json = match result {
                 ResolveResult::Info(info) => {
-                    let extends_location = info.get_path();
-                    let mut json = parse_file_to_value(&extends_location, resolver, extended_by)?;
+                    let (extends_json, extends_dir) =
+                        parse_file_to_value(&info.get_path(), resolver, extended_by)?;
                     // `baseUrl` is relative to the file which contains it.
-                    if let Some(serde_json::Value::String(base_url)) =
-                        json.pointer_mut("/compilerOptions/baseUrl")
+                    if json
+                        .pointer("/compilerOptions/baseUrl")
+                        .map_or(true, |base_url| base_url.is_null())
                     {
-                        if let Some(dir) = extends_location.parent() {
-                            *base_url = dir.join(&base_url).display().to_string();
-                        }
+                        base_url_dir = extends_dir;
                     }
-                    json
+                    extends_json
                 }
                 ResolveResult::Ignored => {
                     return Err(format!("{s} had been ignored in {}", location.display()))
@@ -114,7 +116,7 @@ fn parse_file_to_value(
             merge(&mut json, extends_tsconfig_json);
         }
     }
-    Ok(json)
+    Ok((json, base_url_dir))
 }
 
 fn merge(a: &mut serde_json::Value, b: serde_json::Value) {
diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index c8c877b..268e7fc 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -10,7 +10,7 @@ use std::{
 #[derive(Default, Debug)]
 pub struct TsConfigInfo {
     pub paths: Option<HashMap<String, Vec<String>>>,
-    pub base_url: Option<String>,
+    pub base_url: Option<PathBuf>,
 }
 
 #[derive(Debug, PartialEq)]
@@ -71,20 +71,17 @@ impl Resolver {
     }
 
     fn create_match_list(
-        location: &Path,
-        base_url: &Option<String>,
+        base_url: &Option<PathBuf>,
         paths: &Option<HashMap<String, Vec<String>>>,
     ) -> Vec<MappingEntry> {
-        let location_dir = location.parent().unwrap();
-
         let absolute_base_url = if let Some(base_url) = base_url.as_ref() {
-            location_dir.join(base_url)
+            base_url
         } else {
             return vec![];
         };
         paths
             .as_ref()
-            .map(|paths| Self::get_absolute_mapping_entries(&absolute_base_url, paths))
+            .map(|paths| Self::get_absolute_mapping_entries(absolute_base_url, paths))
             .unwrap_or_default()
     }
 
@@ -102,7 +99,7 @@ impl Resolver {
             return self._resolve(info);
         }
         let absolute_path_mappings =
-            Resolver::create_match_list(location, &tsconfig.base_url, &tsconfig.paths);
+            Resolver::create_match_list(&tsconfig.base_url, &tsconfig.paths);
 
         for entry in absolute_path_mappings {
             let star_match = if entry.pattern == info.request.target {
-- 
2.43.0


From 973b0000795be65dd32acbd8ea152c4741b3c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:18 +0000
Subject: [PATCH 48/51] fix: a * in the directory that tsconfig paths are
 relative to is a part of its name

---
 src/tsconfig_path.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 268e7fc..789db6e 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -100,6 +100,7 @@ impl Resolver {
         }
         let absolute_path_mappings =
             Resolver::create_match_list(&tsconfig.base_url, &tsconfig.paths);
+        let base_url_prefix = tsconfig.base_url.unwrap_or_default().join("");
 
         for entry in absolute_path_mappings {
             let star_match = if entry.pattern == info.request.target {
@@ -111,13 +112,15 @@ impl Resolver {
                 }
             };
 
-            for physical_path_pattern in &entry.paths {
-                let physical_path = &physical_path_pattern
-                    .display()
-                    .to_string()
-                    .replace('*', star_match);
-
-                let path = PathBuf::from(physical_path);
+            let path_patterns = tsconfig.paths.iter().flat_map(|paths| &paths[&entry.pattern]);
+            for (path_pattern, physical_path_pattern) in path_patterns.zip(&entry.paths) {
+                let physical_path = path_pattern.replace('*', star_match);
+                let path = if physical_path_pattern.as_path() == Path::new(path_pattern) {
+                    PathBuf::from(physical_path)
+                } else {
+                    // A '*' in the directory is a part of its name.
+                    Self::append_ext_for_path(&base_url_prefix, &physical_path)
+                };
                 let result = self._resolve(ResolveInfo::from(path, info.request.clone().with_target("")));
                 if result.is_success() {
                     return result;
-- 
2.43.0


From 3150a200be158a722d662f208de32704d3c83880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:04 +0000
Subject: [PATCH 49/51] fix: do not drop the nodes of an exports or imports key
 one inside of the other

---
 src/map.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index ed963ec..0071478 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -394,6 +394,18 @@ impl Field for ImportsField {
     }
 }
 
+impl Drop for PathTreeNode {
+    /// A key of many segments is a chain of as many nodes, dropping them one inside of
+    /// the other would overflow the stack.
+    fn drop(&mut self) {
+        let mut nodes = vec![];
+        nodes.extend(self.children.take().into_iter().flatten());
+        while let Some((_, mut node)) = nodes.pop() {
+            nodes.extend(node.children.take().into_iter().flatten());
+        }
+    }
+}
+
 impl PathTreeNode {
     fn get_next_list(path: &[char], target: char) -> Vec<Option<usize>> {
         // TODO: rewrite it use fp.
-- 
2.43.0


From 21973b5e427bd9215b2a62caa65c0f0b96a62c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:59 +0000
Subject: [PATCH 50/51] fix: a chain of thousands of extended tsconfigs
 overflowed the stack

---
 src/tsconfig.rs | 93 +++++++++++++++++++++++++++----------------------
 1 file changed, 51 insertions(+), 42 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 9d0f625..5396013 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -1,7 +1,7 @@
 // copy from https://github.com/drivasperez/tsconfig
 
 use crate::{RResult, ResolveInfo, ResolveResult, Resolver, ResolverStats};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fs::read_to_string;
 use std::path::{Path, PathBuf};
 
@@ -20,7 +20,7 @@ pub struct CompilerOptions {
 
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
-        let (json, base_url_dir) = parse_file_to_value(location, resolver, &mut vec![])?;
+        let (json, base_url_dir) = parse_file_to_value(location, resolver)?;
         let unexpected = |name: &str, value: &serde_json::Value| {
             format!(
                 "{name} in {} had unexpected value {value}",
@@ -71,52 +71,61 @@ impl TsConfig {
 fn parse_file_to_value(
     location: &Path,
     resolver: &Resolver,
-    extended_by: &mut Vec<PathBuf>,
 ) -> RResult<(serde_json::Value, PathBuf)> {
-    // the same file may be reached by different paths.
-    let real_location = location
-        .canonicalize()
-        .map_err(|_| format!("Open {} failed", location.display()))?;
-    if extended_by.contains(&real_location) {
-        return Err(format!("Circular extends in {}", location.display()));
-    }
-    extended_by.push(real_location);
+    let mut location = location.to_path_buf();
+    let mut extended_by = HashSet::new();
+    // A file is followed by the one it extends, there may be too many of them for a recursion.
+    let mut chain = vec![];
+    loop {
+        // the same file may be reached by different paths.
+        let real_location = location
+            .canonicalize()
+            .map_err(|_| format!("Open {} failed", location.display()))?;
+        if !extended_by.insert(real_location) {
+            return Err(format!("Circular extends in {}", location.display()));
+        }
 
-    let json_str =
-        read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
-    let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
-        .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
-        .ok_or_else(|| format!("Parse {} failed. Error: it is empty", location.display()))?;
+        let json_str =
+            read_to_string(&location).map_err(|_| format!("Open {} failed", location.display()))?;
+        let json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
+            .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
+            .ok_or_else(|| format!("Parse {} failed. Error: it is empty", location.display()))?;
 
-    // `location` pointed to `dir/tsconfig.json`
-    let mut base_url_dir = location.parent().unwrap().to_path_buf();
-    // merge `extends`.
-    if let serde_json::Value::String(s) = &json["extends"] {
-        let stats =
-            resolver._resolve(ResolveInfo::from(base_url_dir.clone(), resolver.parse(s)));
-        // Is it better to use cache?
-        if let ResolverStats::Success(result) = stats {
-            let extends_tsconfig_json = match result {
-                ResolveResult::Info(info) => {
-                    let (extends_json, extends_dir) =
-                        parse_file_to_value(&info.get_path(), resolver, extended_by)?;
-                    // `baseUrl` is relative to the file which contains it.
-                    if json
-                        .pointer("/compilerOptions/baseUrl")
-                        .map_or(true, |base_url| base_url.is_null())
-                    {
-                        base_url_dir = extends_dir;
+        // `location` pointed to `dir/tsconfig.json`
+        let dir = location.parent().unwrap().to_path_buf();
+        let mut extends_location = None;
+        if let serde_json::Value::String(s) = &json["extends"] {
+            let stats = resolver._resolve(ResolveInfo::from(dir.clone(), resolver.parse(s)));
+            // Is it better to use cache?
+            if let ResolverStats::Success(result) = stats {
+                match result {
+                    ResolveResult::Info(info) => extends_location = Some(info.get_path()),
+                    ResolveResult::Ignored => {
+                        return Err(format!("{s} had been ignored in {}", location.display()))
                     }
-                    extends_json
-                }
-                ResolveResult::Ignored => {
-                    return Err(format!("{s} had been ignored in {}", location.display()))
-                }
-            };
-            merge(&mut json, extends_tsconfig_json);
+                };
+            }
+        }
+        chain.push((json, dir));
+        match extends_location {
+            Some(extends_location) => location = extends_location,
+            None => break,
         }
     }
-    Ok((json, base_url_dir))
+
+    // merge `extends`.
+    let merged = chain.into_iter().rev().reduce(
+        |(extends_json, extends_dir), (mut json, dir)| {
+            // `baseUrl` is relative to the file which contains it.
+            let base_url_dir = match json.pointer("/compilerOptions/baseUrl") {
+                Some(base_url) if !base_url.is_null() => dir,
+                _ => extends_dir,
+            };
+            merge(&mut json, extends_json);
+            (json, base_url_dir)
+        },
+    );
+    Ok(merged.unwrap())
 }
 
 fn merge(a: &mut serde_json::Value, b: serde_json::Value) {
-- 
2.43.0


From ac391bed068d258aab7929128095b4f9aea64675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:07 +0000
Subject: [PATCH 51/51] fix: redirections that fork and lead to no file took
 exponential time

---
 src/parse.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index bd2fea1..f4ef702 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1,9 +1,14 @@
 use smol_str::SmolStr;
+use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::Arc;
 
 use crate::kind::PathKind;
 use crate::Resolver;
 
 const MAX_REDIRECTS: u8 = 32;
+/// If each redirection has two ways to go on and none of them leads to a file, then
+/// their number doubles with each of the `MAX_REDIRECTS`.
+const MAX_REDIRECTS_IN_TOTAL: u32 = 10_000;
 /// A target which grows with each redirection, `#*` to `#*/*` for example, ends here.
 const MAX_REDIRECTED_LEN: usize = 64 * 1024;
 
@@ -16,6 +21,8 @@ pub struct Request {
     /// How many times it had been redirected by `alias`, by `imports` field or
     /// by `browser` field.
     pub(crate) redirects: u8,
+    /// How many times all the requests of this call had been redirected.
+    pub(crate) redirects_in_total: Arc<AtomicU32>,
 }
 
 impl std::fmt::Display for Request {
@@ -68,9 +75,11 @@ impl Request {
     /// that the redirections are recursive.
     pub(crate) fn redirected_from(self, from: &Request) -> Option<Self> {
         let is_endless = from.redirects >= MAX_REDIRECTS
+            || from.redirects_in_total.fetch_add(1, Ordering::Relaxed) >= MAX_REDIRECTS_IN_TOTAL
             || self.target.len() > from.target.len().max(MAX_REDIRECTED_LEN);
         (!is_endless).then(|| Self {
             redirects: from.redirects + 1,
+            redirects_in_total: from.redirects_in_total.clone(),
             ..self
         })
     }
@@ -80,6 +89,7 @@ impl Request {
     pub(crate) fn redirected_like(self, from: &Request) -> Self {
         Self {
             redirects: from.redirects,
+            redirects_in_total: from.redirects_in_total.clone(),
             ..self
         }
     }
@@ -102,6 +112,7 @@ impl Resolver {
             query: query.into(),
             fragment: fragment.into(),
             redirects: 0,
+            redirects_in_total: Default::default(),
         }
     }
 }
-- 
2.43.0

