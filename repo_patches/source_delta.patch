From fd94b40a546c7b607c7aa4a54abb0c0d8319bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 01/45] fix: resolving a directory without any entry fails
 instead of panicking

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0dcfb57..b6656c4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,7 +252,8 @@ impl Resolver {
                 };
                 ResolverStats::Error((err_msg, info))
             }
-            _ => unreachable!(),
+            // neither a main field nor a main file of the directory exists
+            ResolverStats::Resolving(info) => ResolverStats::Error((resolve_err_msg, info)),
         }
     }
 }
-- 
2.43.0


From d1514baf660f1b45922051794fe4582a46e8b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 02/45] fix: a failed node_modules level no longer changes the
 request of the outer levels

---
 src/resolve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index f33572a..6fba64d 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -104,7 +104,9 @@ impl Resolver {
                             ResolverStats::Error((error, err_info))
                         }
                     }
-                    _ => stats,
+                    // the outer levels are searched for the original request
+                    ResolverStats::Resolving(_) => ResolverStats::Resolving(info),
+                    ResolverStats::Success(_) => stats,
                 }
             }
         } else {
-- 
2.43.0


From 3750f11fcba98b3eb827004639d1dc7cf51cb75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 03/45] fix: split a non-ASCII package name at a byte offset

---
 src/resolve.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 6fba64d..66b0389 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -49,12 +49,8 @@ impl Resolver {
             let target = &info.request.target;
             // join request part
             let has_namespace_scope = target.starts_with('@');
-            let slash_index_list: Vec<usize> = target
-                .chars()
-                .enumerate()
-                .filter(|(_, char)| '/'.eq(char))
-                .map(|(index, _)| index)
-                .collect();
+            let slash_index_list: Vec<usize> =
+                target.match_indices('/').map(|(index, _)| index).collect();
             let last_start_index = if has_namespace_scope {
                 slash_index_list.get(1)
             } else {
-- 
2.43.0


From d996f0197fca2533c15e2ab93c108f5869e630e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 04/45] fix: a path request applies its .. to the path, not to
 the file system

---
 src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b6656c4..09a8108 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -93,11 +93,20 @@ impl ResolveInfo {
     }
 
     pub fn get_path(&self) -> PathBuf {
-        if self.request.target.is_empty() || self.request.target == "." {
-            self.path.to_path_buf()
-        } else {
-            self.path.join(&*self.request.target)
+        let target = &*self.request.target;
+        if target.is_empty() || target == "." {
+            return self.path.to_path_buf();
+        }
+        let path = self.path.join(target);
+        if !path.is_absolute() {
+            return path;
+        }
+        let mut path = Resolver::normalize_path_without_link(&path);
+        if target.ends_with('/') || matches!(target.rsplit('/').next(), Some("." | "..")) {
+            // it denotes a directory, keep the trailing slash to tell it from a file
+            path.push("");
         }
+        path
     }
 
     pub fn with_path(self, path: PathBuf) -> Self {
-- 
2.43.0


From 2b332f5d745b8d84f431cef9f888304c6b102a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 05/45] fix: a failed main field or main file no longer moves
 the lookup of the next one

---
 src/lib.rs               | 8 --------
 src/plugin/main_field.rs | 8 +++-----
 src/plugin/main_file.rs  | 6 ++----
 3 files changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 09a8108..5e7ecc1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -153,14 +153,6 @@ impl ResolverStats {
     pub fn is_success(&self) -> bool {
         matches!(self, ResolverStats::Success(_))
     }
-
-    pub fn extract_info(self) -> ResolveInfo {
-        match self {
-            ResolverStats::Resolving(info) => info,
-            ResolverStats::Error((_, info)) => info,
-            _ => unreachable!(),
-        }
-    }
 }
 
 pub(crate) static MODULE: &str = "node_modules";
diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index a68c6a7..fdda9bd 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -21,8 +21,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
-            let mut main_field_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
-
             for user_main_field in &resolver.options.main_fields {
                 if let Some(main_field) = pkg_info
                     .raw
@@ -34,7 +32,9 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                         break;
                     }
 
-                    main_field_info = if main_field.starts_with("./") {
+                    let main_field_info =
+                        ResolveInfo::from(info.path.to_owned(), info.request.clone());
+                    let main_field_info = if main_field.starts_with("./") {
                         main_field_info.with_target(main_field)
                     } else {
                         main_field_info.with_target(&format!("./{main_field}"))
@@ -47,8 +47,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
 
                     if stats.is_success() {
                         return stats;
-                    } else {
-                        main_field_info = stats.extract_info();
                     }
                 }
             }
diff --git a/src/plugin/main_file.rs b/src/plugin/main_file.rs
index 85a0789..8c27b98 100644
--- a/src/plugin/main_file.rs
+++ b/src/plugin/main_file.rs
@@ -18,9 +18,9 @@ impl<'a> MainFilePlugin<'a> {
 
 impl<'a> Plugin for MainFilePlugin<'a> {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
-        let mut main_file_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
         for main_file in &resolver.options.main_files {
-            main_file_info = main_file_info.with_target(&format!("./{main_file}"));
+            let main_file_info = ResolveInfo::from(info.path.to_owned(), info.request.clone())
+                .with_target(&format!("./{main_file}"));
             let stats = ExportsFieldPlugin::new(self.pkg_info)
                 .apply(resolver, main_file_info)
                 .and_then(|info| ImportsFieldPlugin::new(self.pkg_info).apply(resolver, info))
@@ -28,8 +28,6 @@ impl<'a> Plugin for MainFilePlugin<'a> {
                 .and_then(|info| resolver.resolve_as_file(info));
             if stats.is_success() {
                 return stats;
-            } else {
-                main_file_info = stats.extract_info();
             }
         }
         ResolverStats::Resolving(info)
-- 
2.43.0


From 86bea1436283c10fa9a65f5efc475500459939b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 06/45] fix: an exact exports/imports key below a folder or
 with non-ASCII characters has no remainder

---
 src/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 8122f31..0bd6f26 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -422,7 +422,7 @@ impl PathTreeNode {
         if let Some(map) = &node.wildcards {
             for (key, target) in map {
                 if remaining_request.starts_with(key) {
-                    let index = (last_non_slash_index + key.len()) as i32;
+                    let index = (last_non_slash_index + key.chars().count()) as i32;
                     if last_folder_match.is_none() || last_folder_match.unwrap().1 < index {
                         last_folder_match = Some((target, index));
                     }
@@ -486,7 +486,7 @@ impl PathTreeNode {
             .iter()
             .collect::<String>();
             if let Some(value) = node.files.get(&remaining_request) {
-                Some((value, (remaining_request.len() + 1) as i32))
+                Some((value, (request.len() + 1) as i32))
             } else {
                 Self::apply_wildcard_mappings(
                     Self::apply_folder_mapping(last_folder_match, node, last_non_slash_index),
-- 
2.43.0


From c1f1dbafdd66c05e808b7f0760fcfbab16558be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 07/45] fix: '$' in the part matched by an exports/imports
 wildcard is not doubled

---
 src/map.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 0bd6f26..42c5aeb 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -147,11 +147,7 @@ pub trait Field {
                 (true, true) => Ok(format!("{target}{request}")),
                 (true, false) => Err(format!("Expected {target} is folder mapping")),
                 (false, true) => Err(format!("Expected {target} is file mapping")),
-                (false, false) => {
-                    let request = remaining_request.as_ref().unwrap();
-                    let to = &request.replace('$', "$$");
-                    Ok(target.replace('*', to))
-                }
+                (false, false) => Ok(target.replace('*', request)),
             }
         } else if !is_folder {
             Ok(target.to_string())
-- 
2.43.0


From 386f468b2f1e751b49ce79b51baeae3fcf4b25da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 08/45] fix: empty and dotted segments no longer let an
 exports/imports target leave the package

---
 src/map.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 42c5aeb..bdaf818 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -81,23 +81,18 @@ pub struct PathTreeNode {
 ///  `build_field_path_tree` and `field_process`.
 pub trait Field {
     fn check_target(relative_path: &str) -> bool {
-        let relative_path = relative_path.chars().collect::<Vec<char>>();
-        let slash_index_list = PathTreeNode::get_next_list(&relative_path, '/');
-        let mut last_non_slash_index = 0;
         let mut cd = 0;
-        while let Some(&Some(slash_index)) = slash_index_list.get(last_non_slash_index) {
-            if relative_path[last_non_slash_index] == '.'
-                && relative_path[last_non_slash_index + 1] == '.'
-            {
-                cd -= 1;
-                if cd < 0 {
-                    return false;
+        for segment in relative_path.split('/') {
+            match segment {
+                "" | "." => {}
+                ".." => {
+                    cd -= 1;
+                    if cd < 0 {
+                        return false;
+                    }
                 }
-            } else if relative_path[last_non_slash_index] == '.' {
-            } else {
-                cd += 1;
+                _ => cd += 1,
             }
-            last_non_slash_index = slash_index + 1;
         }
         true
     }
-- 
2.43.0


From eeae213a45c8b7faf429ea4b353857917711e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 09/45] fix: null and malformed values in exports/imports no
 longer panic

---
 src/description.rs |  6 ++++--
 src/map.rs         | 16 +++++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 416468d..d22fec8 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -67,7 +67,8 @@ impl Resolver {
             }
         }
 
-        let exports_field_tree = if let Some(value) = json.get("exports") {
+        let exports_field = json.get("exports").filter(|value| !value.is_null());
+        let exports_field_tree = if let Some(value) = exports_field {
             let key = serde_json::to_string(&value).unwrap_or_else(|_| {
                 panic!("Parse {}/exports to hash key failed", file_path.display())
             });
@@ -82,7 +83,8 @@ impl Resolver {
             None
         };
 
-        let imports_field_tree = if let Some(value) = json.get("imports") {
+        let imports_field = json.get("imports").filter(|value| !value.is_null());
+        let imports_field_tree = if let Some(value) = imports_field {
             let key = serde_json::to_string(&value).unwrap_or_else(|_| {
                 panic!("Parse {}/imports to hash key failed", file_path.display())
             });
diff --git a/src/map.rs b/src/map.rs
index bdaf818..3e5fa80 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -114,7 +114,11 @@ pub trait Field {
                         MappingValue::Conditional(conditional) => {
                             temp.push(AvailableMapping::Conditional(conditional))
                         }
-                        _ => panic!("Array mapping is not allowed nested in exports field"),
+                        // `null` offers no target
+                        MappingValue::Array(_) if item.is_null() => {}
+                        MappingValue::Array(_) => {
+                            return Err(format!("Array mapping can't be nested, but got {item}"))
+                        }
                     }
                 }
                 MappingValue::Array(temp)
@@ -126,7 +130,9 @@ pub trait Field {
                 }
                 MappingValue::Conditional(map)
             }
-            _ => unreachable!(),
+            // `null` excludes the path: no target at all
+            serde_json::Value::Null => MappingValue::Array(vec![]),
+            _ => return Err(format!("Unexpected mapping target {json_value}")),
         };
         Ok(result)
     }
@@ -353,7 +359,11 @@ impl Field for ImportsField {
     fn build_field_path_tree(imports_field_value: &serde_json::Value) -> RResult<PathTreeNode> {
         let field = match Self::from_json(imports_field_value)? {
             MappingValue::Conditional(field) => field,
-            _ => unreachable!(),
+            _ => {
+                return Err(format!(
+                    "Imports field should be an object, but got {imports_field_value}"
+                ))
+            }
         };
         let mut root = PathTreeNode::default();
         for (key, value) in field {
-- 
2.43.0


From 4ba5935dd344a74a78e89b5e481ad24b28be4ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 10/45] fix: `true` in a browser field no longer panics

---
 src/description.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index d22fec8..3675dd2 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -57,8 +57,7 @@ impl Resolver {
         if let Some(value) = json.get("browser") {
             if let Some(map) = value.as_object() {
                 for (key, value) in map {
-                    if let Some(b) = value.as_bool() {
-                        assert!(!b);
+                    if value.as_bool() == Some(false) {
                         alias_fields.insert(key.to_string(), AliasMap::Ignored);
                     } else if let Some(s) = value.as_str() {
                         alias_fields.insert(key.to_string(), AliasMap::Target(s.to_string()));
-- 
2.43.0


From de7ab793263c8b70af54d567948de94e9b572366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 11/45] fix: an imports tree is no longer cached as an exports
 tree

---
 src/description.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 3675dd2..546a552 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -91,7 +91,7 @@ impl Resolver {
                 Some(tree.clone())
             } else {
                 let tree = Arc::new(ImportsField::build_field_path_tree(value)?);
-                self.cache.exports_content_to_tree.insert(key, tree.clone());
+                self.cache.imports_content_to_tree.insert(key, tree.clone());
                 Some(tree)
             }
         } else {
-- 
2.43.0


From 3f67b2bfa818dd18e3d575161ff06f0a34e3b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 12/45] fix: notice a description file that appears or
 disappears, and never loop on a missing directory

---
 src/description.rs | 41 ++++++++++++-----------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 546a552..0de6874 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -172,13 +172,22 @@ impl Resolver {
         if !path.is_dir() {
             return match path.parent() {
                 Some(dir) => self.load_pkg_file(dir),
-                None => Err(Resolver::raise_tag()),
+                None => Ok(None),
             };
         }
 
         let description_file_name = self.options.description_file.as_ref().unwrap();
         let description_file_path = path.join(description_file_name);
-        let need_find_up = if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
+        if !description_file_path.is_file() {
+            // The absence is not cached: the file may appear at any time.
+            return match Self::find_up(path, description_file_name) {
+                // find the closest directory witch contains description file
+                Some(target_dir) => self.load_pkg_file(&target_dir),
+                None => Ok(None),
+            };
+        }
+
+        if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
             // if pkg_info_cache contain this key
             if !self.fs.need_update(&description_file_path)? {
                 // and not modified, then return
@@ -188,37 +197,11 @@ impl Resolver {
                 {
                     self.dbg_read_map.remove(&description_file_path);
                 }
-
-                false
             }
-        } else {
-            !description_file_path.is_file()
-        };
+        }
 
         // pkg_info_cache do **not** contain this key
         // or this file had modified
-        if need_find_up {
-            // find the closest directory witch contains description file
-            if let Some(target_dir) = Self::find_up(path, description_file_name) {
-                return self.load_pkg_file(&target_dir);
-            } else {
-                // it means all paths during from the `path` to root pointed None.
-                // cache it
-                let mut path = path;
-                loop {
-                    if path.is_dir() {
-                        self.cache
-                            .file_dir_to_pkg_info
-                            .insert(path.to_path_buf(), None);
-                        match path.parent() {
-                            Some(parent) => path = parent,
-                            None => return Ok(None),
-                        }
-                    }
-                }
-            }
-        }
-
         let pkg_info = Some(Arc::new(
             self.parse_description_file(path, description_file_path)?,
         ));
-- 
2.43.0


From 576ee371dc1ea199d8a97f873283b5261d84b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 13/45] fix: a description file's cache entry is compared with
 the time of that very entry

A file put back with an older time, a file that could not be parsed for a
while, or another resolver sharing the cache left a stale entry in use.
---
 src/description.rs | 16 ++++++++++----
 src/fs.rs          | 54 ++++++++++++++++++----------------------------
 2 files changed, 33 insertions(+), 37 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 0de6874..aa74b1e 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -3,6 +3,7 @@ use crate::{AliasMap, RResult, Resolver};
 use std::collections::HashMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
+use std::time::SystemTime;
 
 #[derive(Clone, Debug)]
 pub enum SideEffects {
@@ -22,6 +23,8 @@ pub struct PkgFileInfo {
     pub imports_field_tree: Option<Arc<PathTreeNode>>,
     pub side_effects: Option<SideEffects>,
     pub raw: serde_json::Value,
+    /// The modification time of the description file when it was read.
+    pub(crate) modified: SystemTime,
 }
 
 impl Resolver {
@@ -41,7 +44,7 @@ impl Resolver {
             self.dbg_read_map.insert(&file_path, true);
         }
 
-        let str = tracing::debug_span!("read_to_string").in_scope(|| {
+        let (str, modified) = tracing::debug_span!("read_to_string").in_scope(|| {
             self.fs
                 .read_to_string(&file_path)
                 .map_err(|_| format!("Open {} failed", file_path.display()))
@@ -145,6 +148,7 @@ impl Resolver {
             imports_field_tree,
             side_effects,
             raw: json,
+            modified,
         })
     }
 
@@ -187,11 +191,15 @@ impl Resolver {
             };
         }
 
-        if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
+        let cached = self.cache.file_dir_to_pkg_info.get(path);
+        if let Some(pkg_info) = cached.and_then(|r#ref| r#ref.clone()) {
             // if pkg_info_cache contain this key
-            if !self.fs.need_update(&description_file_path)? {
+            if !self
+                .fs
+                .need_update(&description_file_path, pkg_info.modified)?
+            {
                 // and not modified, then return
-                return Ok(r#ref.clone());
+                return Ok(Some(pkg_info));
             } else {
                 #[cfg(debug_assertions)]
                 {
diff --git a/src/fs.rs b/src/fs.rs
index 2d67760..5c0e502 100644
--- a/src/fs.rs
+++ b/src/fs.rs
@@ -1,9 +1,6 @@
-use dashmap::DashMap;
 use std::fmt::Debug;
 use std::fs;
 use std::path::Path;
-use std::path::PathBuf;
-use std::sync::Arc;
 use std::time;
 
 use crate::RResult;
@@ -11,7 +8,6 @@ use crate::RResult;
 #[derive(Default, Debug)]
 pub struct CacheFile {
     duration: time::Duration,
-    cached_file: DashMap<PathBuf, (Arc<String>, time::SystemTime)>,
 }
 
 impl CacheFile {
@@ -19,7 +15,6 @@ impl CacheFile {
     pub fn new(duration: u64) -> Self {
         CacheFile {
             duration: time::Duration::from_millis(duration),
-            cached_file: Default::default(),
         }
     }
 
@@ -32,37 +27,30 @@ impl CacheFile {
             .map_err(|_| format!("Get modified time of {} failed", path.as_ref().display()))
     }
 
+    /// Whether the file changed since it was read with the modification time `loaded`.
     #[tracing::instrument]
-    pub fn need_update<P: AsRef<Path> + Debug>(&self, path: P) -> RResult<bool> {
-        if !path.as_ref().is_file() {
-            // no  need update if `p` pointed file dose not exist
-            return Ok(false);
-        }
-        self.cached_file
-            .get(path.as_ref())
-            .map(|value| value.1)
-            .map(|stored_last_modify_time| -> RResult<bool> {
-                let duration = Self::get_last_modified_time_from_file(path.as_ref())?
-                    .duration_since(stored_last_modify_time)
-                    .map_err(|_| {
-                        format!("Compare SystemTime failed in {}", path.as_ref().display())
-                    })?;
-                Ok(duration >= self.duration)
-            })
-            .map_or(Ok(true), |val| val)
+    pub fn need_update<P: AsRef<Path> + Debug>(
+        &self,
+        path: P,
+        loaded: time::SystemTime,
+    ) -> RResult<bool> {
+        let modified = Self::get_last_modified_time_from_file(path)?;
+        // a file that is put back may be older than the one which was read
+        let duration = modified
+            .duration_since(loaded)
+            .unwrap_or_else(|err| err.duration());
+        Ok(duration >= self.duration)
     }
 
+    /// The content and the modification time it had at least.
     #[tracing::instrument]
-    pub fn read_to_string<P: AsRef<Path> + Debug>(&self, path: P) -> RResult<Arc<String>> {
-        let str = Arc::new(
-            fs::read_to_string(path.as_ref())
-                .map_err(|_| format!("Open {} failed", path.as_ref().display()))?,
-        );
-        let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
-        self.cached_file.insert(
-            path.as_ref().to_path_buf(),
-            (str.clone(), last_modified_time),
-        );
-        Ok(str)
+    pub fn read_to_string<P: AsRef<Path> + Debug>(
+        &self,
+        path: P,
+    ) -> RResult<(String, time::SystemTime)> {
+        let modified = Self::get_last_modified_time_from_file(path.as_ref())?;
+        let str = fs::read_to_string(path.as_ref())
+            .map_err(|_| format!("Open {} failed", path.as_ref().display()))?;
+        Ok((str, modified))
     }
 }
-- 
2.43.0


From 80fe916d32410e6840c778deff2ca8ab169c83a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 14/45] fix: resolvers that share a cache may name the
 description file differently

---
 src/description.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index aa74b1e..bc0c1a3 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -23,6 +23,8 @@ pub struct PkgFileInfo {
     pub imports_field_tree: Option<Arc<PathTreeNode>>,
     pub side_effects: Option<SideEffects>,
     pub raw: serde_json::Value,
+    /// The description file itself: resolvers sharing a cache may name it differently.
+    pub(crate) file_path: PathBuf,
     /// The modification time of the description file when it was read.
     pub(crate) modified: SystemTime,
 }
@@ -148,6 +150,7 @@ impl Resolver {
             imports_field_tree,
             side_effects,
             raw: json,
+            file_path,
             modified,
         })
     }
@@ -194,9 +197,10 @@ impl Resolver {
         let cached = self.cache.file_dir_to_pkg_info.get(path);
         if let Some(pkg_info) = cached.and_then(|r#ref| r#ref.clone()) {
             // if pkg_info_cache contain this key
-            if !self
-                .fs
-                .need_update(&description_file_path, pkg_info.modified)?
+            if pkg_info.file_path == description_file_path
+                && !self
+                    .fs
+                    .need_update(&description_file_path, pkg_info.modified)?
             {
                 // and not modified, then return
                 return Ok(Some(pkg_info));
-- 
2.43.0


From 8947e017d5a8ecad9d8308583436ac817cd1a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 15/45] fix: the browser and imports fields of the importing
 package apply to its requests

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5e7ecc1..dd9b8ac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -218,8 +218,10 @@ impl Resolver {
             .apply(self, info)
             .and_then(|info| PreferRelativePlugin::default().apply(self, info))
             .and_then(|info| {
-                let request = if info.request.kind.eq(&PathKind::Normal) {
-                    info.path.join(MODULE).join(&*info.request.target)
+                // a module or `#` request belongs to the package of the importer
+                let request = if matches!(info.request.kind, PathKind::Normal | PathKind::Internal)
+                {
+                    info.path.to_path_buf()
                 } else {
                     info.get_path()
                 };
-- 
2.43.0


From f06bb77dba83384ec203cc0e3c8d9fdb37ad2998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 16/45] fix: a directory whose name merely contains
 `node_modules` is not node_modules

---
 src/plugin/alias.rs         | 2 +-
 src/plugin/exports_field.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plugin/alias.rs b/src/plugin/alias.rs
index 316222f..ca62ae3 100644
--- a/src/plugin/alias.rs
+++ b/src/plugin/alias.rs
@@ -9,7 +9,7 @@ pub struct AliasPlugin;
 impl Plugin for AliasPlugin {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
         let inner_target = &info.request.target;
-        if info.path.display().to_string().contains(MODULE) {
+        if info.path.components().any(|c| c.as_os_str() == MODULE) {
             return ResolverStats::Resolving(info);
         }
         for (from, to) in &resolver.options.alias {
diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index f7d1214..f8623f9 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -18,7 +18,10 @@ impl<'a> ExportsFieldPlugin<'a> {
     }
 
     fn is_in_module(&self, pkg_info: &PkgFileInfo) -> bool {
-        pkg_info.abs_dir_path.to_string_lossy().contains(MODULE)
+        pkg_info
+            .abs_dir_path
+            .components()
+            .any(|c| c.as_os_str() == MODULE)
     }
 
     pub(crate) fn is_resolve_self(pkg_info: &PkgFileInfo, info: &ResolveInfo) -> bool {
-- 
2.43.0


From 88608f51d5faebdabdd9a1b2bf4101b11dfa0fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 17/45] fix: a request for a bare scope no longer panics

---
 src/plugin/exports_field.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index f8623f9..ee465f6 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -50,8 +50,10 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                 let query = &info.request.query;
                 let fragment = &info.request.fragment;
                 let chars: String = if target.starts_with('@') {
-                    let index = target.find('/').unwrap();
-                    &target[index + 1..]
+                    match target.find('/') {
+                        Some(index) => &target[index + 1..],
+                        None => target,
+                    }
                 } else {
                     target
                 }
-- 
2.43.0


From 9dd7f414848830d20d16d534a3c85895f1647652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 18/45] fix: an imports target that names a module is resolved
 like any other module of the package

---
 src/plugin/imports_field.rs | 32 +++++---------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index e1dcbdb..69432a6 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -1,8 +1,8 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, plugin::ExportsFieldPlugin, Resolver, MODULE};
+use crate::{description::PkgFileInfo, Resolver};
 
-use super::{AliasFieldPlugin, Plugin};
+use super::Plugin;
 use crate::{
     map::{Field, ImportsField},
     PathKind, ResolveInfo, ResolverStats,
@@ -47,33 +47,11 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
                 let request = resolver.parse(item);
                 let is_normal_kind = matches!(request.kind, PathKind::Normal);
                 let is_internal_kind = matches!(request.kind, PathKind::Internal);
-                let info = ResolveInfo::from(
-                    if is_normal_kind {
-                        pkg_info.abs_dir_path.join(MODULE)
-                    } else {
-                        pkg_info.abs_dir_path.to_path_buf()
-                    },
-                    request,
-                );
+                let info = ResolveInfo::from(pkg_info.abs_dir_path.to_path_buf(), request);
 
                 if is_normal_kind {
-                    let path = info.get_path();
-                    // TODO: should optimized
-                    let pkg_info = match resolver.load_pkg_file(&path) {
-                        Ok(info) => info,
-                        Err(err) => return ResolverStats::Error((err, info)),
-                    };
-                    if let Some(ref pkg_info) = pkg_info {
-                        if !pkg_info.abs_dir_path.display().to_string().contains(MODULE) {
-                            return ResolverStats::Resolving(info);
-                        }
-                    }
-
-                    ExportsFieldPlugin::new(&pkg_info)
-                        .apply(resolver, info)
-                        .and_then(|info| ImportsFieldPlugin::new(&pkg_info).apply(resolver, info))
-                        .and_then(|info| AliasFieldPlugin::new(&pkg_info).apply(resolver, info))
-                        .and_then(|info| ImportsFieldPlugin::check_target(info, target))
+                    // a module of the package
+                    ResolverStats::Resolving(info)
                 } else if is_internal_kind {
                     self.apply(resolver, info)
                 } else {
-- 
2.43.0


From 1cf33fe2e6067aa903e537aec34751686314ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 19/45] fix: the query and fragment of a `#` request are kept

---
 src/parse.rs                | 9 +++++++++
 src/plugin/imports_field.rs | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index a03f701..c131b3a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -66,6 +66,15 @@ impl Request {
         (target, query, fragment)
     }
 
+    /// Keep the query and the fragment of the request it was derived from.
+    pub(crate) fn with_suffix_of(self, origin: &Request) -> Self {
+        Self {
+            query: format!("{}{}", self.query, origin.query).into(),
+            fragment: format!("{}{}", self.fragment, origin.fragment).into(),
+            ..self
+        }
+    }
+
     pub(crate) fn with_target(self, target: &str) -> Self {
         Self {
             kind: Resolver::get_target_kind(target),
diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index 69432a6..8fd43a5 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -44,7 +44,7 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
             };
 
             if let Some(item) = list.first() {
-                let request = resolver.parse(item);
+                let request = resolver.parse(item).with_suffix_of(&info.request);
                 let is_normal_kind = matches!(request.kind, PathKind::Normal);
                 let is_internal_kind = matches!(request.kind, PathKind::Internal);
                 let info = ResolveInfo::from(pkg_info.abs_dir_path.to_path_buf(), request);
-- 
2.43.0


From e8c639b573ba4c827b8be69058c1df73360e5227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 20/45] fix: imports targets that lead to each other in a
 circle no longer overflow the stack

---
 src/plugin/imports_field.rs | 46 +++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index 8fd43a5..4889e66 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -1,3 +1,4 @@
+use smol_str::SmolStr;
 use std::sync::Arc;
 
 use crate::{description::PkgFileInfo, Resolver};
@@ -8,6 +9,11 @@ use crate::{
     PathKind, ResolveInfo, ResolverStats,
 };
 
+/// How many `#` targets may lead to each other.
+const MAX_CHAIN_LENGTH: usize = 64;
+/// A wildcard target may grow with every step, but no path is longer than this.
+const MAX_TARGET_LENGTH: usize = 4096;
+
 pub struct ImportsFieldPlugin<'a> {
     pkg_info: &'a Option<Arc<PkgFileInfo>>,
 }
@@ -17,23 +23,25 @@ impl<'a> ImportsFieldPlugin<'a> {
         Self { pkg_info }
     }
 
-    fn check_target(info: ResolveInfo, target: &str) -> ResolverStats {
-        if info.get_path().is_file() && ImportsField::check_target(&info.request.target) {
-            ResolverStats::Resolving(info)
-        } else {
-            ResolverStats::Error((format!("Package path {target} is not exported"), info))
-        }
-    }
-}
-
-impl<'a> Plugin for ImportsFieldPlugin<'a> {
-    fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
+    fn apply_with_visited(
+        &self,
+        resolver: &Resolver,
+        info: ResolveInfo,
+        visited: &mut Vec<SmolStr>,
+    ) -> ResolverStats {
         if let Some(pkg_info) = self.pkg_info {
             if !info.request.target.starts_with('#') {
                 return ResolverStats::Resolving(info);
             }
 
             let target = &info.request.target;
+            if visited.contains(target)
+                || visited.len() > MAX_CHAIN_LENGTH
+                || target.len() > MAX_TARGET_LENGTH
+            {
+                return ResolverStats::Error((format!("{target} is imported by itself"), info));
+            }
+            visited.push(target.clone());
             let list = if let Some(root) = &pkg_info.imports_field_tree {
                 match ImportsField::field_process(root, target, &resolver.options.condition_names) {
                     Ok(list) => list,
@@ -53,7 +61,7 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
                     // a module of the package
                     ResolverStats::Resolving(info)
                 } else if is_internal_kind {
-                    self.apply(resolver, info)
+                    self.apply_with_visited(resolver, info, visited)
                 } else {
                     ImportsFieldPlugin::check_target(info, target)
                 }
@@ -64,4 +72,18 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
             ResolverStats::Resolving(info)
         }
     }
+
+    fn check_target(info: ResolveInfo, target: &str) -> ResolverStats {
+        if info.get_path().is_file() && ImportsField::check_target(&info.request.target) {
+            ResolverStats::Resolving(info)
+        } else {
+            ResolverStats::Error((format!("Package path {target} is not exported"), info))
+        }
+    }
+}
+
+impl<'a> Plugin for ImportsFieldPlugin<'a> {
+    fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
+        self.apply_with_visited(resolver, info, &mut vec![])
+    }
 }
-- 
2.43.0


From 65fca7a7b5a0b301d374080b65618f0916d74f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 21/45] fix: the exports field of a package's root, and of
 nothing else, guards the package

---
 src/resolve.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 66b0389..f7afe43 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -60,15 +60,18 @@ impl Resolver {
                 last_start_index.map_or(target.clone(), |&index| SmolStr::new(&target[0..index]));
             let module_path = module_root_path.join(&*module_name);
 
+            let is_module_dir = module_path.is_dir();
             let module_info = ResolveInfo::from(module_root_path, info.request.clone());
-            let pkg_info = match self.load_pkg_file(&module_info.path.join(&**target)) {
-                Ok(pkg_info) => pkg_info,
+            // `exports` belongs to the root of the package, whatever lies above or below it
+            let pkg_info = match self.load_pkg_file(&module_path) {
+                Ok(pkg_info) => pkg_info
+                    .filter(|pkg_info| !is_module_dir || pkg_info.abs_dir_path.eq(&module_path)),
                 Err(err) => return ResolverStats::Error((err, info)),
             };
             let is_resolve_self = pkg_info.as_ref().map_or(false, |pkg_info| {
                 ExportsFieldPlugin::is_resolve_self(pkg_info, &module_info)
             });
-            if !module_path.is_dir() && !is_resolve_self {
+            if !is_module_dir && !is_resolve_self {
                 let stats = self.resolve_as_file(module_info);
                 if stats.is_success() {
                     stats
@@ -87,7 +90,11 @@ impl Resolver {
                             info
                         };
 
-                        AliasFieldPlugin::new(&pkg_info).apply(self, info)
+                        // while `browser` belongs to the closest package of the path
+                        match self.load_pkg_file(&info.get_path()) {
+                            Ok(pkg_info) => AliasFieldPlugin::new(&pkg_info).apply(self, info),
+                            Err(err) => ResolverStats::Error((err, info)),
+                        }
                     })
                     .and_then(|info| self.resolve_as_file(info))
                     .and_then(|info| self.resolve_as_dir(info));
-- 
2.43.0


From 8e6875d6cf76a2b3639af16b39e33c85cfaacf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 22/45] fix: a package refers to itself by its exact name, with
 or without a node_modules directory

---
 src/lib.rs                  |  3 +-
 src/plugin/exports_field.rs |  4 +--
 src/resolve.rs              | 71 +++++++++++++++++++++++++------------
 3 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index dd9b8ac..61e2e14 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -241,7 +241,8 @@ impl Resolver {
                     self.resolve_as_file(info)
                         .and_then(|info| self.resolve_as_dir(info))
                 } else {
-                    self.resolve_as_modules(info)
+                    self.resolve_as_self(info)
+                        .and_then(|info| self.resolve_as_modules(info))
                 }
             });
 
diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index ee465f6..10bf003 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -28,8 +28,8 @@ impl<'a> ExportsFieldPlugin<'a> {
         pkg_info
             .name
             .as_ref()
-            .map(|pkg_name| info.request.target.starts_with(pkg_name))
-            .map_or(false, |ans| ans)
+            .and_then(|pkg_name| info.request.target.strip_prefix(pkg_name.as_str()))
+            .map_or(false, |rest| rest.is_empty() || rest.starts_with('/'))
     }
 }
 
diff --git a/src/resolve.rs b/src/resolve.rs
index f7afe43..4817624 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,7 +1,9 @@
 use std::path::{Path, PathBuf};
+use std::sync::Arc;
 
 use smol_str::SmolStr;
 
+use crate::description::PkgFileInfo;
 use crate::plugin::{
     AliasFieldPlugin, ExportsFieldPlugin, ExtensionsPlugin, ImportsFieldPlugin, MainFieldPlugin,
     MainFilePlugin, Plugin,
@@ -41,6 +43,50 @@ impl Resolver {
             .and_then(|info| MainFilePlugin::new(&pkg_info_wrap).apply(self, info))
     }
 
+    /// A package with `exports` is found by its own name.
+    #[tracing::instrument]
+    pub(crate) fn resolve_as_self(&self, info: ResolveInfo) -> ResolverStats {
+        let pkg_info = match self.load_pkg_file(&info.path) {
+            Ok(pkg_info) => pkg_info,
+            Err(err) => return ResolverStats::Error((err, info)),
+        };
+        let is_resolve_self = pkg_info.as_ref().map_or(false, |pkg_info| {
+            pkg_info.exports_field_tree.is_some()
+                && ExportsFieldPlugin::is_resolve_self(pkg_info, &info)
+        });
+        if is_resolve_self {
+            self.resolve_in_package(info, &pkg_info)
+        } else {
+            ResolverStats::Resolving(info)
+        }
+    }
+
+    fn resolve_in_package(
+        &self,
+        info: ResolveInfo,
+        pkg_info: &Option<Arc<PkgFileInfo>>,
+    ) -> ResolverStats {
+        ExportsFieldPlugin::new(pkg_info)
+            .apply(self, info)
+            .and_then(|info| ImportsFieldPlugin::new(pkg_info).apply(self, info))
+            .and_then(|info| {
+                let info = if matches!(info.request.kind, PathKind::Normal) {
+                    let target = format!("./{}", info.request.target);
+                    info.with_target(&target)
+                } else {
+                    info
+                };
+
+                // while `browser` belongs to the closest package of the path
+                match self.load_pkg_file(&info.get_path()) {
+                    Ok(pkg_info) => AliasFieldPlugin::new(&pkg_info).apply(self, info),
+                    Err(err) => ResolverStats::Error((err, info)),
+                }
+            })
+            .and_then(|info| self.resolve_as_file(info))
+            .and_then(|info| self.resolve_as_dir(info))
+    }
+
     #[tracing::instrument]
     pub(crate) fn resolve_as_modules(&self, info: ResolveInfo) -> ResolverStats {
         let original_dir = info.path.clone();
@@ -68,10 +114,7 @@ impl Resolver {
                     .filter(|pkg_info| !is_module_dir || pkg_info.abs_dir_path.eq(&module_path)),
                 Err(err) => return ResolverStats::Error((err, info)),
             };
-            let is_resolve_self = pkg_info.as_ref().map_or(false, |pkg_info| {
-                ExportsFieldPlugin::is_resolve_self(pkg_info, &module_info)
-            });
-            if !is_module_dir && !is_resolve_self {
+            if !is_module_dir {
                 let stats = self.resolve_as_file(module_info);
                 if stats.is_success() {
                     stats
@@ -79,25 +122,7 @@ impl Resolver {
                     ResolverStats::Resolving(info)
                 }
             } else {
-                let stats = ExportsFieldPlugin::new(&pkg_info)
-                    .apply(self, module_info)
-                    .and_then(|info| ImportsFieldPlugin::new(&pkg_info).apply(self, info))
-                    .and_then(|info| {
-                        let info = if matches!(info.request.kind, PathKind::Normal) {
-                            let target = format!("./{}", info.request.target);
-                            info.with_target(&target)
-                        } else {
-                            info
-                        };
-
-                        // while `browser` belongs to the closest package of the path
-                        match self.load_pkg_file(&info.get_path()) {
-                            Ok(pkg_info) => AliasFieldPlugin::new(&pkg_info).apply(self, info),
-                            Err(err) => ResolverStats::Error((err, info)),
-                        }
-                    })
-                    .and_then(|info| self.resolve_as_file(info))
-                    .and_then(|info| self.resolve_as_dir(info));
+                let stats = self.resolve_in_package(module_info, &pkg_info);
 
                 match stats {
                     ResolverStats::Error((error, err_info)) => {
-- 
2.43.0


From c727993e55eb16eec21107cd16c0c939f0c0815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 23/45] fix: which of several matching browser keys applies no
 longer depends on hashing

---
 src/description.rs        |  6 ++--
 src/plugin/alias_field.rs | 67 +++++++++++++++++++--------------------
 2 files changed, 35 insertions(+), 38 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index bc0c1a3..ebd7452 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -1,6 +1,6 @@
 use crate::map::{ExportsField, Field, ImportsField, PathTreeNode};
 use crate::{AliasMap, RResult, Resolver};
-use std::collections::HashMap;
+use indexmap::IndexMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use std::time::SystemTime;
@@ -18,7 +18,7 @@ pub struct PkgFileInfo {
     pub abs_dir_path: PathBuf,
     pub name: Option<String>,
     pub version: Option<String>,
-    pub alias_fields: HashMap<String, AliasMap>,
+    pub alias_fields: IndexMap<String, AliasMap>,
     pub exports_field_tree: Option<Arc<PathTreeNode>>,
     pub imports_field_tree: Option<Arc<PathTreeNode>>,
     pub side_effects: Option<SideEffects>,
@@ -57,7 +57,7 @@ impl Resolver {
                     .map_err(|_| format!("Parse {} failed", file_path.display()))
             })?;
 
-        let mut alias_fields = HashMap::new();
+        let mut alias_fields = IndexMap::new();
 
         if let Some(value) = json.get("browser") {
             if let Some(map) = value.as_object() {
diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 425049d..c0e21fe 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -1,6 +1,7 @@
 use crate::{description::PkgFileInfo, AliasMap, Resolver};
+use indexmap::IndexMap;
+use std::path::PathBuf;
 use std::sync::Arc;
-use std::{collections::HashMap, path::PathBuf};
 
 use super::Plugin;
 use crate::{PathKind, ResolveInfo, ResolveResult, ResolverStats};
@@ -17,7 +18,7 @@ impl<'a> AliasFieldPlugin<'a> {
     pub(super) fn deal_with_alias_fields_recursive(
         &self,
         target: &AliasMap,
-        alias_fields: &HashMap<String, AliasMap>,
+        alias_fields: &IndexMap<String, AliasMap>,
     ) -> AliasMap {
         match target {
             AliasMap::Target(target) => {
@@ -31,24 +32,26 @@ impl<'a> AliasFieldPlugin<'a> {
         }
     }
 
-    pub(super) fn request_target_is_module_and_equal_alias_key(
-        alias_key: &String,
-        info: &ResolveInfo,
-    ) -> bool {
-        info.request.target.eq(alias_key)
-    }
-
-    pub(super) fn request_path_is_equal_alias_key_path(
-        alias_path: &PathBuf,
+    /// The path itself comes first, then the extensions in their order.
+    pub(super) fn find_alias_of_path<'b>(
+        pkg_info: &'b PkgFileInfo,
         info: &ResolveInfo,
         extensions: &[String],
-    ) -> bool {
+    ) -> Option<&'b AliasMap> {
         let request_path = info.get_path();
-        alias_path.eq(&request_path)
-            || extensions.iter().any(|ext| {
-                let path_with_extension = Resolver::append_ext_for_path(&request_path, ext);
-                alias_path.eq(&path_with_extension)
-            })
+        let with_extension = extensions
+            .iter()
+            .map(|ext| Resolver::append_ext_for_path(&request_path, ext));
+        let candidates: Vec<PathBuf> = std::iter::once(request_path.clone())
+            .chain(with_extension)
+            .collect();
+        candidates.iter().find_map(|candidate| {
+            pkg_info
+                .alias_fields
+                .iter()
+                .find(|(alias_key, _)| pkg_info.abs_dir_path.join(alias_key).eq(candidate))
+                .map(|(_, alias_target)| alias_target)
+        })
     }
 }
 
@@ -59,26 +62,20 @@ impl<'a> Plugin for AliasFieldPlugin<'a> {
         }
 
         if let Some(pkg_info) = self.pkg_info.as_ref() {
-            for (alias_key, alias_target) in &pkg_info.alias_fields {
-                let should_deal_alias = match matches!(info.request.kind, PathKind::Normal) {
-                    true => Self::request_target_is_module_and_equal_alias_key(alias_key, &info),
-                    false => Self::request_path_is_equal_alias_key_path(
-                        &pkg_info.abs_dir_path.join(alias_key),
-                        &info,
-                        &resolver.options.extensions,
+            let alias_target = match matches!(info.request.kind, PathKind::Normal) {
+                true => pkg_info.alias_fields.get(&*info.request.target),
+                false => Self::find_alias_of_path(pkg_info, &info, &resolver.options.extensions),
+            };
+            if let Some(alias_target) = alias_target {
+                return match self
+                    .deal_with_alias_fields_recursive(alias_target, &pkg_info.alias_fields)
+                {
+                    AliasMap::Target(converted) => ResolverStats::Resolving(
+                        info.with_path(pkg_info.abs_dir_path.to_path_buf())
+                            .with_target(&converted),
                     ),
+                    AliasMap::Ignored => ResolverStats::Success(ResolveResult::Ignored),
                 };
-                if should_deal_alias {
-                    return match self
-                        .deal_with_alias_fields_recursive(alias_target, &pkg_info.alias_fields)
-                    {
-                        AliasMap::Target(converted) => ResolverStats::Resolving(
-                            info.with_path(pkg_info.abs_dir_path.to_path_buf())
-                                .with_target(&converted),
-                        ),
-                        AliasMap::Ignored => ResolverStats::Success(ResolveResult::Ignored),
-                    };
-                }
             }
             ResolverStats::Resolving(info)
         } else {
-- 
2.43.0


From 793dfe9c16c917fd8ed745fd076c80a7742a3112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 24/45] fix: browser keys that map to each other in a circle no
 longer overflow the stack

---
 src/plugin/alias_field.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index c0e21fe..f8f0b2f 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -19,11 +19,16 @@ impl<'a> AliasFieldPlugin<'a> {
         &self,
         target: &AliasMap,
         alias_fields: &IndexMap<String, AliasMap>,
+        depth: usize,
     ) -> AliasMap {
         match target {
             AliasMap::Target(target) => {
-                if let Some(next) = alias_fields.get(target) {
-                    self.deal_with_alias_fields_recursive(next, alias_fields)
+                // a chain longer than the map is a circle
+                let next = alias_fields
+                    .get(target)
+                    .filter(|_| depth < alias_fields.len());
+                if let Some(next) = next {
+                    self.deal_with_alias_fields_recursive(next, alias_fields, depth + 1)
                 } else {
                     AliasMap::Target(target.clone())
                 }
@@ -67,9 +72,11 @@ impl<'a> Plugin for AliasFieldPlugin<'a> {
                 false => Self::find_alias_of_path(pkg_info, &info, &resolver.options.extensions),
             };
             if let Some(alias_target) = alias_target {
-                return match self
-                    .deal_with_alias_fields_recursive(alias_target, &pkg_info.alias_fields)
-                {
+                return match self.deal_with_alias_fields_recursive(
+                    alias_target,
+                    &pkg_info.alias_fields,
+                    0,
+                ) {
                     AliasMap::Target(converted) => ResolverStats::Resolving(
                         info.with_path(pkg_info.abs_dir_path.to_path_buf())
                             .with_target(&converted),
-- 
2.43.0


From 5af04d4e0e2828938e14ec04bac16b368d8747a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 25/45] fix: a file of a package that browser maps to a module
 is looked up as a module

---
 src/lib.rs               | 13 +------------
 src/plugin/main_field.rs |  3 +--
 src/plugin/main_file.rs  | 10 ++++++++--
 src/resolve.rs           | 18 ++++++++++++++++--
 4 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 61e2e14..f7cfbe5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -233,18 +233,7 @@ impl Resolver {
                     .apply(self, info)
                     .and_then(|info| AliasFieldPlugin::new(&pkg_info_wrap).apply(self, info))
             })
-            .and_then(|info| {
-                if matches!(
-                    info.request.kind,
-                    PathKind::AbsolutePosix | PathKind::AbsoluteWin | PathKind::Relative
-                ) {
-                    self.resolve_as_file(info)
-                        .and_then(|info| self.resolve_as_dir(info))
-                } else {
-                    self.resolve_as_self(info)
-                        .and_then(|info| self.resolve_as_modules(info))
-                }
-            });
+            .and_then(|info| self.resolve_as_target(info));
 
         match stats {
             ResolverStats::Success(result) => ResolverStats::Success(result),
diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index fdda9bd..5d8130b 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -42,8 +42,7 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
 
                     let stats = AliasFieldPlugin::new(self.pkg_info)
                         .apply(resolver, main_field_info)
-                        .and_then(|info| resolver.resolve_as_file(info))
-                        .and_then(|info| resolver.resolve_as_dir(info));
+                        .and_then(|info| resolver.resolve_as_target(info));
 
                     if stats.is_success() {
                         return stats;
diff --git a/src/plugin/main_file.rs b/src/plugin/main_file.rs
index 8c27b98..5b938c2 100644
--- a/src/plugin/main_file.rs
+++ b/src/plugin/main_file.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, Resolver};
+use crate::{description::PkgFileInfo, PathKind, Resolver};
 
 use super::{
     AliasFieldPlugin, ExportsFieldPlugin, ImportsFieldPlugin, Plugin, ResolveInfo, ResolverStats,
@@ -25,7 +25,13 @@ impl<'a> Plugin for MainFilePlugin<'a> {
                 .apply(resolver, main_file_info)
                 .and_then(|info| ImportsFieldPlugin::new(self.pkg_info).apply(resolver, info))
                 .and_then(|info| AliasFieldPlugin::new(self.pkg_info).apply(resolver, info))
-                .and_then(|info| resolver.resolve_as_file(info));
+                .and_then(|info| {
+                    if matches!(info.request.kind, PathKind::Normal) {
+                        resolver.resolve_as_target(info)
+                    } else {
+                        resolver.resolve_as_file(info)
+                    }
+                });
             if stats.is_success() {
                 return stats;
             }
diff --git a/src/resolve.rs b/src/resolve.rs
index 4817624..697b60e 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -16,6 +16,21 @@ impl Resolver {
         PathBuf::from(&format!("{}{ext}", path.display()))
     }
 
+    /// Resolve a request that no field maps any more.
+    #[tracing::instrument]
+    pub(crate) fn resolve_as_target(&self, info: ResolveInfo) -> ResolverStats {
+        if matches!(
+            info.request.kind,
+            PathKind::AbsolutePosix | PathKind::AbsoluteWin | PathKind::Relative
+        ) {
+            self.resolve_as_file(info)
+                .and_then(|info| self.resolve_as_dir(info))
+        } else {
+            self.resolve_as_self(info)
+                .and_then(|info| self.resolve_as_modules(info))
+        }
+    }
+
     #[tracing::instrument]
     pub(crate) fn resolve_as_file(&self, info: ResolveInfo) -> ResolverStats {
         let path = info.get_path();
@@ -83,8 +98,7 @@ impl Resolver {
                     Err(err) => ResolverStats::Error((err, info)),
                 }
             })
-            .and_then(|info| self.resolve_as_file(info))
-            .and_then(|info| self.resolve_as_dir(info))
+            .and_then(|info| self.resolve_as_target(info))
     }
 
     #[tracing::instrument]
-- 
2.43.0


From 4ba9cc78e102aef3eb1f7bce3c67cafd823a82a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 26/45] fix: aliases, main fields and browser maps that lead
 back to themselves no longer overflow the stack

---
 src/lib.rs     |  6 +++++-
 src/resolve.rs | 10 +++++++++-
 src/utils.rs   | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f7cfbe5..bc29fa5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -68,7 +68,7 @@ use std::{
     sync::Arc,
 };
 
-use crate::utils::RAISE_RESOLVE_ERROR_TAG;
+use crate::utils::{Step, RAISE_RESOLVE_ERROR_TAG};
 
 #[derive(Default, Debug)]
 pub struct Resolver {
@@ -214,6 +214,10 @@ impl Resolver {
     #[tracing::instrument]
     fn _resolve(&self, info: ResolveInfo) -> ResolverStats {
         let resolve_err_msg = Self::raise_resolve_failed_message(&info);
+        let _step = match Step::enter("resolve", &info.path, &info.request.target) {
+            Some(step) => step,
+            None => return ResolverStats::Error((resolve_err_msg, info)),
+        };
         let stats = AliasPlugin::default()
             .apply(self, info)
             .and_then(|info| PreferRelativePlugin::default().apply(self, info))
diff --git a/src/resolve.rs b/src/resolve.rs
index 697b60e..192247d 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -8,7 +8,7 @@ use crate::plugin::{
     AliasFieldPlugin, ExportsFieldPlugin, ExtensionsPlugin, ImportsFieldPlugin, MainFieldPlugin,
     MainFilePlugin, Plugin,
 };
-use crate::utils::RAISE_RESOLVE_ERROR_TAG;
+use crate::utils::{Step, RAISE_RESOLVE_ERROR_TAG};
 use crate::{PathKind, ResolveInfo, ResolveResult, Resolver, ResolverStats, MODULE};
 
 impl Resolver {
@@ -26,6 +26,10 @@ impl Resolver {
             self.resolve_as_file(info)
                 .and_then(|info| self.resolve_as_dir(info))
         } else {
+            let _step = match Step::enter("module", &info.path, &info.request.target) {
+                Some(step) => step,
+                None => return ResolverStats::Error((Resolver::raise_tag(), info)),
+            };
             self.resolve_as_self(info)
                 .and_then(|info| self.resolve_as_modules(info))
         }
@@ -47,6 +51,10 @@ impl Resolver {
         if !dir.is_dir() {
             return ResolverStats::Error((Resolver::raise_tag(), info));
         }
+        let _step = match Step::enter("dir", &dir, "") {
+            Some(step) => step,
+            None => return ResolverStats::Error((Resolver::raise_tag(), info)),
+        };
         let pkg_info_wrap = match self.load_pkg_file(&dir) {
             Ok(pkg_info) => pkg_info,
             Err(err) => return ResolverStats::Error((err, info)),
diff --git a/src/utils.rs b/src/utils.rs
index c3f12d2..89f2f0b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,4 @@
+use std::cell::RefCell;
 use std::path::{Path, PathBuf};
 
 use crate::{ResolveInfo, Resolver};
@@ -28,3 +29,36 @@ impl Resolver {
         }
     }
 }
+
+/// How deep the steps of one resolution may be nested.
+const MAX_STEPS: usize = 100;
+
+type StepKey = (&'static str, PathBuf, String);
+
+thread_local! {
+    static STEPS: RefCell<Vec<StepKey>> = RefCell::new(vec![]);
+}
+
+/// A step of a resolution that is in progress in this thread, until it is dropped.
+pub(super) struct Step(());
+
+impl Step {
+    /// `None` if the step leads to itself, or if the steps grow without end.
+    pub(super) fn enter(name: &'static str, path: &Path, target: &str) -> Option<Step> {
+        STEPS.with(|steps| {
+            let mut steps = steps.borrow_mut();
+            let step = (name, path.to_path_buf(), target.to_string());
+            if steps.len() >= MAX_STEPS || steps.contains(&step) {
+                return None;
+            }
+            steps.push(step);
+            Some(Step(()))
+        })
+    }
+}
+
+impl Drop for Step {
+    fn drop(&mut self) {
+        STEPS.with(|steps| steps.borrow_mut().pop());
+    }
+}
-- 
2.43.0


From 374736e429185801c58e0470791e2a792e925513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 27/45] fix: malformed or circular tsconfig files and non-ASCII
 requests no longer panic

---
 src/tsconfig.rs      | 86 +++++++++++++++++++++++++++++---------------
 src/tsconfig_path.rs | 12 +------
 2 files changed, 59 insertions(+), 39 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 04901bf..8974108 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -1,9 +1,9 @@
 // copy from https://github.com/drivasperez/tsconfig
 
-use crate::{RResult, ResolveInfo, ResolveResult, Resolver, ResolverStats};
+use crate::{RResult, ResolveInfo, ResolveResult, Resolver, ResolverError, ResolverStats};
 use std::collections::HashMap;
 use std::fs::read_to_string;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
 #[derive(Debug, Clone)]
 pub struct TsConfig {
@@ -19,29 +19,25 @@ pub struct CompilerOptions {
 
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
-        let json = parse_file_to_value(location, resolver)?;
-        let compiler_options = json.get("compilerOptions").map(|options| {
-            // TODO: should optimized
-            let base_url = options
-                .get("baseUrl")
-                .map(|v| v.as_str().unwrap().to_string());
-            let paths = options.get("paths").map(|v| {
-                let mut map = HashMap::new();
-                // TODO: should optimized
-                for (key, obj) in v.as_object().unwrap() {
-                    map.insert(
-                        key.to_string(),
-                        obj.as_array()
-                            .unwrap()
-                            .iter()
-                            .map(|v| v.as_str().unwrap().to_string())
-                            .collect(),
-                    );
-                }
-                map
-            });
-            CompilerOptions { base_url, paths }
-        });
+        let json = parse_file_to_value(location, resolver, &mut vec![])?;
+        let compiler_options = json
+            .get("compilerOptions")
+            .map(|options| {
+                let base_url = options
+                    .get("baseUrl")
+                    .map(|v| {
+                        v.as_str()
+                            .map(str::to_string)
+                            .ok_or_else(|| unexpected(location, "baseUrl", v))
+                    })
+                    .transpose()?;
+                let paths = options
+                    .get("paths")
+                    .map(|v| parse_paths(v).ok_or_else(|| unexpected(location, "paths", v)))
+                    .transpose()?;
+                Ok::<_, ResolverError>(CompilerOptions { base_url, paths })
+            })
+            .transpose()?;
         let extends: Option<String> = json.get("extends").map(|v| v.to_string());
         Ok(TsConfig {
             extends,
@@ -50,12 +46,44 @@ impl TsConfig {
     }
 }
 
-fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_json::Value> {
+fn unexpected(location: &Path, field: &str, value: &serde_json::Value) -> ResolverError {
+    format!(
+        "{field} in {} had unexpected value {value}",
+        location.display()
+    )
+}
+
+fn parse_paths(value: &serde_json::Value) -> Option<HashMap<String, Vec<String>>> {
+    value
+        .as_object()?
+        .iter()
+        .map(|(key, list)| {
+            let list = list
+                .as_array()?
+                .iter()
+                .map(|path| path.as_str().map(str::to_string))
+                .collect::<Option<Vec<_>>>()?;
+            Some((key.to_string(), list))
+        })
+        .collect()
+}
+
+/// `visited` is the chain of files whose `extends` led here.
+fn parse_file_to_value(
+    location: &Path,
+    resolver: &Resolver,
+    visited: &mut Vec<PathBuf>,
+) -> RResult<serde_json::Value> {
+    let normalized = Resolver::normalize_path_without_link(location);
+    if visited.contains(&normalized) {
+        return Err(format!("{} extends itself", location.display()));
+    }
+    visited.push(normalized);
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
-        .unwrap_or_else(|| panic!("Transfer {} to serde value failed", location.display()));
+        .ok_or_else(|| format!("Transfer {} to serde value failed", location.display()))?;
 
     // merge `extends`.
     if let serde_json::Value::String(s) = &json["extends"] {
@@ -65,7 +93,9 @@ fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_js
         // Is it better to use cache?
         if let ResolverStats::Success(result) = stats {
             let extends_tsconfig_json = match result {
-                ResolveResult::Info(info) => parse_file_to_value(&info.get_path(), resolver),
+                ResolveResult::Info(info) => {
+                    parse_file_to_value(&info.get_path(), resolver, visited)
+                }
                 ResolveResult::Ignored => {
                     return Err(format!("{s} had been ignored in {}", location.display()))
                 }
diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 7a43b55..a0177fc 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -52,20 +52,10 @@ impl Resolver {
         if search.len() < pattern.len() {
             return None;
         }
-        if pattern == "*" {
-            return Some(search);
-        }
         pattern.find(|c| c == '*').and_then(|star_index| {
             let part1 = &pattern[..star_index];
             let part2 = &pattern[star_index + 1..];
-            if &search[0..star_index] != part1 {
-                return None;
-            }
-            if &search[search.len() - part2.len()..] != part2 {
-                return None;
-            }
-            let len = search.len() - part2.len() - part1.len();
-            Some(&search[star_index..star_index + len])
+            search.strip_prefix(part1)?.strip_suffix(part2)
         })
     }
 
-- 
2.43.0


From 8c25c711e5784db5c85f3aa1c70a67fa49369963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 28/45] fix: which tsconfig pattern applies no longer depends
 on hashing, and none applies to a relative request

---
 src/tsconfig_path.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index a0177fc..b2225cf 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -1,8 +1,9 @@
 // Copy from https://github.com/dividab/tsconfig-paths
 
 use super::tsconfig::TsConfig;
-use crate::{parse::Request, RResult, ResolveInfo, Resolver, ResolverStats};
+use crate::{kind::PathKind, parse::Request, RResult, ResolveInfo, Resolver, ResolverStats};
 use std::{
+    cmp::Reverse,
     collections::HashMap,
     path::{Path, PathBuf},
 };
@@ -86,8 +87,19 @@ impl Resolver {
             Ok(tsconfig) => tsconfig,
             Err(error) => return ResolverStats::Error((error, info)),
         };
-        let absolute_path_mappings =
-            Resolver::create_match_list(location, &tsconfig.base_url, &tsconfig.paths);
+        // like in TypeScript, `paths` never maps a relative request
+        let is_relative = matches!(info.request.kind, PathKind::Relative);
+        let mut absolute_path_mappings = if is_relative {
+            vec![]
+        } else {
+            Resolver::create_match_list(location, &tsconfig.base_url, &tsconfig.paths)
+        };
+        // an exact pattern comes first, then the one with the longest prefix
+        absolute_path_mappings.sort_by_key(|entry| {
+            let is_exact = entry.pattern == info.request.target;
+            let prefix = entry.pattern.find('*').unwrap_or(0);
+            (Reverse((is_exact, prefix)), entry.pattern.to_string())
+        });
 
         for entry in absolute_path_mappings {
             let star_match = if entry.pattern == info.request.target {
-- 
2.43.0


From acef970c853e4b0e59ed0d30783479719ae3dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 29/45] fix: a request mapped by tsconfig paths keeps its query
 and its trailing slash, and its .. is lexical

---
 src/tsconfig_path.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index b2225cf..9f9d48b 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -117,8 +117,12 @@ impl Resolver {
                     .to_string()
                     .replace('*', star_match);
 
-                let path = PathBuf::from(physical_path);
-                let result = self._resolve(ResolveInfo::from(path, Request::empty()));
+                let request = Request::empty().with_suffix_of(&info.request);
+                // it is normalized like any other path request
+                let path =
+                    ResolveInfo::from(PathBuf::new(), request.clone().with_target(physical_path))
+                        .get_path();
+                let result = self._resolve(ResolveInfo::from(path, request));
                 if result.is_success() {
                     return result;
                 }
-- 
2.43.0


From 033109e2fce19a9fc3c2b4bad81d67575d62b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 30/45] fix: an inherited tsconfig baseUrl is relative to its
 own file, and paths replace the inherited ones

---
 src/tsconfig.rs      | 25 ++++++++++++++++++++-----
 src/tsconfig_path.rs |  7 ++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 8974108..11fc32a 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -85,10 +85,17 @@ fn parse_file_to_value(
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
         .ok_or_else(|| format!("Transfer {} to serde value failed", location.display()))?;
 
+    // `location` pointed to `dir/tsconfig.json`
+    let dir = location.parent().unwrap().to_path_buf();
+    // `baseUrl` is relative to the file that declares it
+    if let Some(base_url) = json.pointer_mut("/compilerOptions/baseUrl") {
+        if let Some(s) = base_url.as_str() {
+            *base_url = dir.join(s).display().to_string().into();
+        }
+    }
+
     // merge `extends`.
     if let serde_json::Value::String(s) = &json["extends"] {
-        // `location` pointed to `dir/tsconfig.json`
-        let dir = location.parent().unwrap().to_path_buf();
         let stats = resolver._resolve(ResolveInfo::from(dir, resolver.parse(s)));
         // Is it better to use cache?
         if let ResolverStats::Success(result) = stats {
@@ -100,17 +107,25 @@ fn parse_file_to_value(
                     return Err(format!("{s} had been ignored in {}", location.display()))
                 }
             }?;
-            merge(&mut json, extends_tsconfig_json);
+            merge(&mut json, extends_tsconfig_json, false);
         }
     }
     Ok(json)
 }
 
-fn merge(a: &mut serde_json::Value, b: serde_json::Value) {
+fn merge(a: &mut serde_json::Value, b: serde_json::Value, is_options: bool) {
     match (a, b) {
         (&mut serde_json::Value::Object(ref mut a), serde_json::Value::Object(b)) => {
             for (k, v) in b {
-                merge(a.entry(k).or_insert(serde_json::Value::Null), v);
+                let option = a.entry(k).or_insert(serde_json::Value::Null);
+                if is_options {
+                    // an option replaces the inherited one as a whole
+                    if option.is_null() {
+                        *option = v;
+                    }
+                } else {
+                    merge(option, v, true);
+                }
             }
         }
         (a, b) => {
diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 9f9d48b..2aec23d 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -61,14 +61,11 @@ impl Resolver {
     }
 
     fn create_match_list(
-        location: &Path,
         base_url: &Option<String>,
         paths: &Option<HashMap<String, Vec<String>>>,
     ) -> Vec<MappingEntry> {
-        let location_dir = location.parent().unwrap();
-
         let absolute_base_url = if let Some(base_url) = base_url.as_ref() {
-            location_dir.join(base_url)
+            PathBuf::from(base_url)
         } else {
             return vec![];
         };
@@ -92,7 +89,7 @@ impl Resolver {
         let mut absolute_path_mappings = if is_relative {
             vec![]
         } else {
-            Resolver::create_match_list(location, &tsconfig.base_url, &tsconfig.paths)
+            Resolver::create_match_list(&tsconfig.base_url, &tsconfig.paths)
         };
         // an exact pattern comes first, then the one with the longest prefix
         absolute_path_mappings.sort_by_key(|entry| {
-- 
2.43.0


From 8b4a09888dd8e72fb24a81b97675a319123b7a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 31/45] fix: a path that is not UTF-8 is kept as it is

---
 src/lib.rs       |  9 +++------
 src/normalize.rs | 17 ++++++++---------
 src/resolve.rs   |  4 +++-
 3 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bc29fa5..7867a55 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -119,12 +119,9 @@ impl ResolveInfo {
     }
 
     pub fn join(&self) -> PathBuf {
-        let buf = format!(
-            "{}{}{}",
-            self.path.display(),
-            self.request.query,
-            self.request.fragment,
-        );
+        let mut buf = self.path.as_os_str().to_os_string();
+        buf.push(&*self.request.query);
+        buf.push(&*self.request.fragment);
         PathBuf::from(buf)
     }
 }
diff --git a/src/normalize.rs b/src/normalize.rs
index 018324b..676736b 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -4,20 +4,19 @@ use crate::{RResult, ResolveResult, Resolver};
 
 impl Resolver {
     #[cfg(not(target_os = "windows"))]
-    fn adjust(p: PathBuf) -> String {
-        p.display().to_string()
+    fn adjust(p: PathBuf) -> PathBuf {
+        p
     }
 
     /// Eliminate `\\?\` prefix in windows.
     /// reference: https://stackoverflow.com/questions/41233684/why-does-my-canonicalized-path-get-prefixed-with
     #[cfg(target_os = "windows")]
-    fn adjust(p: PathBuf) -> String {
+    fn adjust(p: PathBuf) -> PathBuf {
         const VERBATIM_PREFIX: &str = r#"\\?\"#;
-        let p = p.display().to_string();
-        if p.starts_with(VERBATIM_PREFIX) {
-            p[VERBATIM_PREFIX.len()..].to_string()
-        } else {
-            p
+        let s = p.display().to_string();
+        match s.strip_prefix(VERBATIM_PREFIX) {
+            Some(s) => PathBuf::from(s),
+            None => p,
         }
     }
 
@@ -41,7 +40,7 @@ impl Resolver {
         if self.options.symlinks {
             Path::canonicalize(path)
                 .map_err(|_| "Path normalized failed".to_string())
-                .map(|result| PathBuf::from(Self::adjust(result)))
+                .map(Self::adjust)
         } else {
             Ok(Self::normalize_path_without_link(path))
         }
diff --git a/src/resolve.rs b/src/resolve.rs
index 192247d..180e9f9 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -13,7 +13,9 @@ use crate::{PathKind, ResolveInfo, ResolveResult, Resolver, ResolverStats, MODUL
 
 impl Resolver {
     pub(crate) fn append_ext_for_path(path: &Path, ext: &str) -> PathBuf {
-        PathBuf::from(&format!("{}{ext}", path.display()))
+        let mut path = path.as_os_str().to_os_string();
+        path.push(ext);
+        PathBuf::from(path)
     }
 
     /// Resolve a request that no field maps any more.
-- 
2.43.0


From 9a990986078be52e36f6b5c941582412d39c6b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 32/45] fix: aliases that lead back to themselves in several
 ways no longer take exponential time

---
 src/utils.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 89f2f0b..3062037 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,11 +32,13 @@ impl Resolver {
 
 /// How deep the steps of one resolution may be nested.
 const MAX_STEPS: usize = 100;
+/// How many steps one resolution may take.
+const MAX_TOTAL_STEPS: usize = 10_000;
 
 type StepKey = (&'static str, PathBuf, String);
 
 thread_local! {
-    static STEPS: RefCell<Vec<StepKey>> = RefCell::new(vec![]);
+    static STEPS: RefCell<(Vec<StepKey>, usize)> = RefCell::new((vec![], 0));
 }
 
 /// A step of a resolution that is in progress in this thread, until it is dropped.
@@ -46,9 +48,13 @@ impl Step {
     /// `None` if the step leads to itself, or if the steps grow without end.
     pub(super) fn enter(name: &'static str, path: &Path, target: &str) -> Option<Step> {
         STEPS.with(|steps| {
-            let mut steps = steps.borrow_mut();
+            let (steps, total) = &mut *steps.borrow_mut();
+            if steps.is_empty() {
+                *total = 0;
+            }
+            *total += 1;
             let step = (name, path.to_path_buf(), target.to_string());
-            if steps.len() >= MAX_STEPS || steps.contains(&step) {
+            if *total > MAX_TOTAL_STEPS || steps.len() >= MAX_STEPS || steps.contains(&step) {
                 return None;
             }
             steps.push(step);
@@ -59,6 +65,6 @@ impl Step {
 
 impl Drop for Step {
     fn drop(&mut self) {
-        STEPS.with(|steps| steps.borrow_mut().pop());
+        STEPS.with(|steps| steps.borrow_mut().0.pop());
     }
 }
-- 
2.43.0


From f476681b34ebcf4c49490872ff652d1c439c3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 33/45] fix: a dotted segment in a request no longer reaches
 what exports or imports leave out

---
 src/map.rs                  | 9 +++++++++
 src/plugin/exports_field.rs | 7 +++++++
 src/plugin/imports_field.rs | 7 +++++++
 3 files changed, 23 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index 3e5fa80..ff065db 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -97,6 +97,15 @@ pub trait Field {
         true
     }
 
+    /// `.` and `..` would turn what a pattern matches into some other file
+    /// than the one it stands for.
+    fn has_dot_segment(request: &str) -> bool {
+        request
+            .split('/')
+            .skip(1)
+            .any(|segment| segment == "." || segment == "..")
+    }
+
     fn assert_target(exp: &str, expect_folder: bool) -> RResult<bool>;
     fn assert_request(request: &str) -> RResult<Vec<char>>;
     fn build_field_path_tree(json_value: &serde_json::Value) -> RResult<PathTreeNode>;
diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index 10bf003..f2c2813 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -47,6 +47,13 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
             }
 
             let list = if let Some(root) = &pkg_info.exports_field_tree {
+                if ExportsField::has_dot_segment(target) {
+                    return ResolverStats::Error((
+                        format!("Package path {target} is not exported"),
+                        info,
+                    ));
+                }
+
                 let query = &info.request.query;
                 let fragment = &info.request.fragment;
                 let chars: String = if target.starts_with('@') {
diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index 4889e66..9808256 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -43,6 +43,13 @@ impl<'a> ImportsFieldPlugin<'a> {
             }
             visited.push(target.clone());
             let list = if let Some(root) = &pkg_info.imports_field_tree {
+                if ImportsField::has_dot_segment(target) {
+                    return ResolverStats::Error((
+                        format!("Package path {target} is not exported"),
+                        info,
+                    ));
+                }
+
                 match ImportsField::field_process(root, target, &resolver.options.condition_names) {
                     Ok(list) => list,
                     Err(err) => return ResolverStats::Error((err, info)),
-- 
2.43.0


From 4da12fd4771c05e22aabef994d8de8ecc712d4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 34/45] fix: a query no longer cuts an exports target short

---
 src/plugin/exports_field.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index f2c2813..e9869a4 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -46,6 +46,9 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
+            let query = info.request.query.clone();
+            let fragment = info.request.fragment.clone();
+            let has_suffix = !query.is_empty() || !fragment.is_empty();
             let list = if let Some(root) = &pkg_info.exports_field_tree {
                 if ExportsField::has_dot_segment(target) {
                     return ResolverStats::Error((
@@ -54,8 +57,6 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                     ));
                 }
 
-                let query = &info.request.query;
-                let fragment = &info.request.fragment;
                 let chars: String = if target.starts_with('@') {
                     match target.find('/') {
                         Some(index) => &target[index + 1..],
@@ -78,7 +79,7 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                         }
                     }
                 };
-                let remaining_target = if !query.is_empty() || !fragment.is_empty() {
+                let remaining_target = if has_suffix {
                     let target = if target == "." {
                         String::from("./")
                     } else {
@@ -103,6 +104,10 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
 
             for item in list {
                 let request = resolver.parse(&item);
+                if has_suffix && (request.query != query || request.fragment != fragment) {
+                    // the target goes on behind the part that holds the query
+                    continue;
+                }
                 let info = ResolveInfo::from(pkg_info.abs_dir_path.to_path_buf(), request);
 
                 if info.get_path().is_file() && ExportsField::check_target(&info.request.target) {
-- 
2.43.0


From 0b862ec1a6e06f0acf99808d6b455f5ddd2ca498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 35/45] fix: give up sooner on aliases that lead back to
 themselves

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3062037..b8c5a11 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -33,7 +33,7 @@ impl Resolver {
 /// How deep the steps of one resolution may be nested.
 const MAX_STEPS: usize = 100;
 /// How many steps one resolution may take.
-const MAX_TOTAL_STEPS: usize = 10_000;
+const MAX_TOTAL_STEPS: usize = 1_000;
 
 type StepKey = (&'static str, PathBuf, String);
 
-- 
2.43.0


From b7d8dde995d7574f2cc43c8247a2cdfa3678c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 36/45] fix: what counts is a dotted segment in the part that
 an exports or imports pattern matches

---
 src/map.rs                  | 51 +++++++++++++++++++++----------------
 src/plugin/exports_field.rs | 14 +++++-----
 src/plugin/imports_field.rs |  2 +-
 3 files changed, 37 insertions(+), 30 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index ff065db..d935625 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -97,13 +97,34 @@ pub trait Field {
         true
     }
 
-    /// `.` and `..` would turn what a pattern matches into some other file
-    /// than the one it stands for.
-    fn has_dot_segment(request: &str) -> bool {
-        request
-            .split('/')
-            .skip(1)
-            .any(|segment| segment == "." || segment == "..")
+    /// `.` and `..` in what a pattern matches would turn its target into
+    /// some other file than the one it stands for.
+    fn matches_dot_segment(root: &PathTreeNode, target: &str) -> bool {
+        let request = match Self::assert_request(target) {
+            Ok(request) => request,
+            Err(_) => return false,
+        };
+        PathTreeNode::find_match(root, &request)
+            .and_then(|(_, index)| Self::remaining_request(&request, index))
+            .map_or(false, |remaining| {
+                remaining
+                    .split(['?', '#'])
+                    .next()
+                    .unwrap_or_default()
+                    .split('/')
+                    .any(|segment| segment == "." || segment == "..")
+            })
+    }
+
+    /// What a folder or a pattern leaves of the request.
+    fn remaining_request(request: &[char], index: i32) -> Option<String> {
+        if index == (request.len() as i32) + 1 {
+            None
+        } else if index < 0 {
+            Some(request.iter().skip((index.abs() - 1) as usize).collect())
+        } else {
+            Some(request.iter().skip(index as usize).collect())
+        }
     }
 
     fn assert_target(exp: &str, expect_folder: bool) -> RResult<bool>;
@@ -229,22 +250,8 @@ pub trait Field {
             None => return Ok(vec![]),
         };
 
-        let remaining_request: Option<String> =
-            if remain_request_index == (request.len() as i32) + 1 {
-                None
-            } else if remain_request_index < 0 {
-                let remaining = request
-                    .iter()
-                    .skip((remain_request_index.abs() - 1) as usize)
-                    .collect();
-                Some(remaining)
-            } else {
-                let remaining = request.iter().skip(remain_request_index as usize).collect();
-                Some(remaining)
-            };
-
         Self::mapping(
-            &remaining_request,
+            &Self::remaining_request(&request, remain_request_index),
             remain_request_index < 0,
             mapping,
             condition_names,
diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index e9869a4..d56c4a5 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -50,13 +50,6 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
             let fragment = info.request.fragment.clone();
             let has_suffix = !query.is_empty() || !fragment.is_empty();
             let list = if let Some(root) = &pkg_info.exports_field_tree {
-                if ExportsField::has_dot_segment(target) {
-                    return ResolverStats::Error((
-                        format!("Package path {target} is not exported"),
-                        info,
-                    ));
-                }
-
                 let chars: String = if target.starts_with('@') {
                     match target.find('/') {
                         Some(index) => &target[index + 1..],
@@ -90,6 +83,13 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                     target
                 };
 
+                if ExportsField::matches_dot_segment(root, &remaining_target) {
+                    return ResolverStats::Error((
+                        format!("Package path {} is not exported", info.request.target),
+                        info,
+                    ));
+                }
+
                 match ExportsField::field_process(
                     root,
                     &remaining_target,
diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index 9808256..9ac3d30 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -43,7 +43,7 @@ impl<'a> ImportsFieldPlugin<'a> {
             }
             visited.push(target.clone());
             let list = if let Some(root) = &pkg_info.imports_field_tree {
-                if ImportsField::has_dot_segment(target) {
+                if ImportsField::matches_dot_segment(root, target) {
                     return ResolverStats::Error((
                         format!("Package path {target} is not exported"),
                         info,
-- 
2.43.0


From ed301b4eeb119761ab3694cf3541d47af9ef4184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 37/45] fix: a deeply nested tsconfig fails instead of
 overflowing the stack

---
 src/tsconfig.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 11fc32a..05f5638 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -1,6 +1,7 @@
 // copy from https://github.com/drivasperez/tsconfig
 
 use crate::{RResult, ResolveInfo, ResolveResult, Resolver, ResolverError, ResolverStats};
+use jsonc_parser::{tokens::Token, Scanner};
 use std::collections::HashMap;
 use std::fs::read_to_string;
 use std::path::{Path, PathBuf};
@@ -68,6 +69,25 @@ fn parse_paths(value: &serde_json::Value) -> Option<HashMap<String, Vec<String>>
         .collect()
 }
 
+/// The parser calls itself for every nested value, here is the limit of `serde_json`.
+const MAX_DEPTH: usize = 128;
+
+fn is_nested_too_deep(json_str: &str) -> bool {
+    let mut scanner = Scanner::new(json_str);
+    let mut depth: usize = 0;
+    while let Ok(Some(token)) = scanner.scan() {
+        match token {
+            Token::OpenBrace | Token::OpenBracket => depth += 1,
+            Token::CloseBrace | Token::CloseBracket => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+        if depth > MAX_DEPTH {
+            return true;
+        }
+    }
+    false
+}
+
 /// `visited` is the chain of files whose `extends` led here.
 fn parse_file_to_value(
     location: &Path,
@@ -81,6 +101,9 @@ fn parse_file_to_value(
     visited.push(normalized);
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
+    if is_nested_too_deep(&json_str) {
+        return Err(format!("{} is nested too deep", location.display()));
+    }
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
         .ok_or_else(|| format!("Transfer {} to serde value failed", location.display()))?;
-- 
2.43.0


From 78086965f07964c5765cf549300eb732be891a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 38/45] fix: a very long request no longer overflows the stack

---
 src/description.rs | 10 ++++------
 src/utils.rs       | 12 ++++--------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index ebd7452..f68198d 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -176,12 +176,10 @@ impl Resolver {
         }
         // Because the key in `self.cache.file_dir_to_pkg_info` represents directory.
         // So this step is ensure `path` pointed to directory.
-        if !path.is_dir() {
-            return match path.parent() {
-                Some(dir) => self.load_pkg_file(dir),
-                None => Ok(None),
-            };
-        }
+        let path = match path.ancestors().find(|path| path.is_dir()) {
+            Some(dir) => dir,
+            None => return Ok(None),
+        };
 
         let description_file_name = self.options.description_file.as_ref().unwrap();
         let description_file_path = path.join(description_file_name);
diff --git a/src/utils.rs b/src/utils.rs
index b8c5a11..3b13657 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -19,14 +19,10 @@ impl Resolver {
     }
 
     pub(super) fn find_up(now_dir: &Path, file_name: &str) -> Option<PathBuf> {
-        let path = now_dir.join(file_name);
-        if path.is_file() {
-            Some(now_dir.to_path_buf())
-        } else {
-            now_dir
-                .parent()
-                .and_then(|parent| Self::find_up(parent, file_name))
-        }
+        now_dir
+            .ancestors()
+            .find(|dir| dir.join(file_name).is_file())
+            .map(Path::to_path_buf)
     }
 }
 
-- 
2.43.0


From 0deca93a44d717e240c1f15e3fcbedef9b5ff9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 39/45] fix: a number out of range in a tsconfig no longer
 panics

---
 src/tsconfig.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 05f5638..9bef999 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -5,6 +5,7 @@ use jsonc_parser::{tokens::Token, Scanner};
 use std::collections::HashMap;
 use std::fs::read_to_string;
 use std::path::{Path, PathBuf};
+use std::str::FromStr;
 
 #[derive(Debug, Clone)]
 pub struct TsConfig {
@@ -72,20 +73,22 @@ fn parse_paths(value: &serde_json::Value) -> Option<HashMap<String, Vec<String>>
 /// The parser calls itself for every nested value, here is the limit of `serde_json`.
 const MAX_DEPTH: usize = 128;
 
-fn is_nested_too_deep(json_str: &str) -> bool {
+/// `jsonc_parser` panics at what `serde_json` does not accept.
+fn is_convertible(json_str: &str) -> bool {
     let mut scanner = Scanner::new(json_str);
     let mut depth: usize = 0;
     while let Ok(Some(token)) = scanner.scan() {
         match token {
             Token::OpenBrace | Token::OpenBracket => depth += 1,
             Token::CloseBrace | Token::CloseBracket => depth = depth.saturating_sub(1),
+            Token::Number(number) if serde_json::Number::from_str(number).is_err() => return false,
             _ => {}
         }
         if depth > MAX_DEPTH {
-            return true;
+            return false;
         }
     }
-    false
+    true
 }
 
 /// `visited` is the chain of files whose `extends` led here.
@@ -101,8 +104,11 @@ fn parse_file_to_value(
     visited.push(normalized);
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
-    if is_nested_too_deep(&json_str) {
-        return Err(format!("{} is nested too deep", location.display()));
+    if !is_convertible(&json_str) {
+        return Err(format!(
+            "Transfer {} to serde value failed",
+            location.display()
+        ));
     }
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
-- 
2.43.0


From 3ec2190682ec5523a0b45ceb6fee6f5faaf8c1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 40/45] fix: a base directory of any depth no longer overflows
 the stack

---
 src/resolve.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 180e9f9..420fcce 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -114,8 +114,22 @@ impl Resolver {
     #[tracing::instrument]
     pub(crate) fn resolve_as_modules(&self, info: ResolveInfo) -> ResolverStats {
         let original_dir = info.path.clone();
-        let module_root_path = original_dir.join(MODULE);
-        let stats = if module_root_path.is_dir() {
+        let stats = original_dir
+            .ancestors()
+            .fold(ResolverStats::Resolving(info), |stats, dir| {
+                stats.and_then(|info| self.resolve_in_modules_of(info.with_path(dir.to_path_buf())))
+            });
+
+        match stats {
+            ResolverStats::Success(success) => ResolverStats::Success(success),
+            ResolverStats::Resolving(info) => ResolverStats::Error((Resolver::raise_tag(), info)),
+            ResolverStats::Error(err) => ResolverStats::Error(err),
+        }
+    }
+
+    fn resolve_in_modules_of(&self, info: ResolveInfo) -> ResolverStats {
+        let module_root_path = info.path.join(MODULE);
+        if module_root_path.is_dir() {
             let target = &info.request.target;
             // join request part
             let has_namespace_scope = target.starts_with('@');
@@ -164,18 +178,5 @@ impl Resolver {
         } else {
             ResolverStats::Resolving(info)
         }
-        .and_then(|info| {
-            if let Some(parent_dir) = original_dir.parent() {
-                self.resolve_as_modules(info.with_path(parent_dir.to_path_buf()))
-            } else {
-                ResolverStats::Resolving(info)
-            }
-        });
-
-        match stats {
-            ResolverStats::Success(success) => ResolverStats::Success(success),
-            ResolverStats::Resolving(info) => ResolverStats::Error((Resolver::raise_tag(), info)),
-            ResolverStats::Error(err) => ResolverStats::Error(err),
-        }
     }
 }
-- 
2.43.0


From 9892d363390d89438e539a13d8a92ec9d0f84fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 41/45] fix: a request for a directory does not name a file of
 that directory

---
 src/resolve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index 420fcce..a023b38 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -40,6 +40,10 @@ impl Resolver {
     #[tracing::instrument]
     pub(crate) fn resolve_as_file(&self, info: ResolveInfo) -> ResolverStats {
         let path = info.get_path();
+        if path.to_string_lossy().ends_with('/') {
+            // it denotes a directory
+            return ResolverStats::Resolving(info);
+        }
         if !(*self.options.enforce_extension.as_ref().unwrap_or(&false)) && path.is_file() {
             ResolverStats::Success(ResolveResult::Info(info.with_path(path).with_target("")))
         } else {
-- 
2.43.0


From 15b45ddb6827010b0cc1f5f45e07cb7b1a337b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 42/45] fix: a browser key for a hidden file is not taken for
 its directory

---
 src/plugin/alias_field.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index f8f0b2f..08b71c2 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -44,8 +44,10 @@ impl<'a> AliasFieldPlugin<'a> {
         extensions: &[String],
     ) -> Option<&'b AliasMap> {
         let request_path = info.get_path();
+        let is_dir_request = request_path.to_string_lossy().ends_with('/');
         let with_extension = extensions
             .iter()
+            .filter(|_| !is_dir_request)
             .map(|ext| Resolver::append_ext_for_path(&request_path, ext));
         let candidates: Vec<PathBuf> = std::iter::once(request_path.clone())
             .chain(with_extension)
-- 
2.43.0


From 1104f197e3a98d80a61d45d690e24a254731cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 43/45] fix: `assert/strict` is a module of Node.js

---
 src/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kind.rs b/src/kind.rs
index 102dbe3..b165bc9 100644
--- a/src/kind.rs
+++ b/src/kind.rs
@@ -29,7 +29,7 @@ const BUILT_IN_MODULE_SET: Set<&'static str> = phf_set! {
    "_tls_common",
    "_tls_wrap",
    "assert",
-   "assert/,strict",
+   "assert/strict",
    "async_hooks",
    "buffer",
    "child_process",
-- 
2.43.0


From fa4031ff2f1dc64c4b508c7f293e882d552198fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:16 +0000
Subject: [PATCH 44/45] fix: a description file that could not be parsed may be
 read again in debug builds

---
 src/description.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index f68198d..cfa191c 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -212,9 +212,13 @@ impl Resolver {
 
         // pkg_info_cache do **not** contain this key
         // or this file had modified
-        let pkg_info = Some(Arc::new(
-            self.parse_description_file(path, description_file_path)?,
-        ));
+        let pkg_info = self.parse_description_file(path, description_file_path.clone());
+        #[cfg(debug_assertions)]
+        if pkg_info.is_err() {
+            // it is not cached, so the next request reads it again
+            self.dbg_read_map.remove(&description_file_path);
+        }
+        let pkg_info = Some(Arc::new(pkg_info?));
 
         self.cache
             .file_dir_to_pkg_info
-- 
2.43.0


From 2ac45634d0cd44566835507452a510b51d9e64cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:32 +0000
Subject: [PATCH 45/45] fix: a main field that names its own directory does not
 hide the next main field

---
 src/plugin/main_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index 5d8130b..33d46d6 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -29,7 +29,7 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                 {
                     if main_field == "." || main_field == "./" {
                         // if it pointed to itself.
-                        break;
+                        continue;
                     }
 
                     let main_field_info =
-- 
2.43.0

