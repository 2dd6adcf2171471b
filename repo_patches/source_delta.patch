From c7d2fe417d055a61f3e0ccc5c0042253612b8b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 1/9] fix: decode percent-encoded git references in stable ids
 that name the package

---
 src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 67e6751..9fee179 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,9 +106,7 @@ impl From<PackageId> for Kid {
                 [name, version, source]
             } else {
                 let mut vmn = repr.rfind('#')?;
-                let (name, version) = if let Some(split) = repr[vmn..].find('@') {
-                    ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
-                } else {
+                let (name, version) = {
                     let begin = repr.rfind('/')? + 1;
                     let end = if repr.starts_with("git+") {
                         // Unfortunately the stable format percent encodes the source url in the metadata, and since
@@ -211,7 +209,11 @@ impl From<PackageId> for Kid {
                         vmn
                     };
 
-                    ((begin, end), (vmn + 1, repr.len()))
+                    if let Some(split) = repr[vmn..].find('@') {
+                        ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
+                    } else {
+                        ((begin, end), (vmn + 1, repr.len()))
+                    }
                 };
 
                 [name, version, (0, vmn)]
-- 
2.43.0


From f35cba0ccee86aaf3bf87233bab481223e4b176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 2/9] fix: hash crate ids by the components they are compared
 by

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9fee179..64a4bdd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -254,7 +254,10 @@ impl fmt::Display for Kid {
 
 impl std::hash::Hash for Kid {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        state.write(self.repr.as_bytes());
+        // Must agree with `Eq`, which only considers the components
+        self.name().hash(state);
+        self.version().hash(state);
+        self.source().hash(state);
     }
 }
 
-- 
2.43.0


From ed022ad1fbd53782b0b4d762c9a693009f743e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 3/9] fix: accept a null resolve graph, as cargo metadata
 --no-deps emits

---
 src/cm/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cm/de.rs b/src/cm/de.rs
index cd72f44..cec0986 100644
--- a/src/cm/de.rs
+++ b/src/cm/de.rs
@@ -91,7 +91,7 @@ map!(Metadata, map, {
             "packages" => packages = Some(tri!(map.next_value())),
             "workspace_members" => workspace_members = Some(tri!(map.next_value())),
             "workspace_default_members" => workspace_default_members = Some(tri!(map.next_value())),
-            "resolve" => resolve = Some(tri!(map.next_value())),
+            "resolve" => resolve = tri!(map.next_value()),
             "workspace_root" => workspace_root = Some(tri!(map.next_value())),
             "target_directory" => target_directory = Some(tri!(map.next_value())),
             "metadata" => workspace_metadata = tri!(map.next_value()),
-- 
2.43.0


From 059bf13a50f10c70ff622674cc6ace87a7d7e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 4/9] fix: serialize each target field once and under the key
 it is parsed from

---
 src/cm/ser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cm/ser.rs b/src/cm/ser.rs
index 48b8cc9..9dfac40 100644
--- a/src/cm/ser.rs
+++ b/src/cm/ser.rs
@@ -151,14 +151,13 @@ map!(Target, map, self, {
         name,
         kind,
         crate_types,
-        required_features,
         src_path,
         edition,
         doctest,
-        doctest,
         test,
         doc
     );
+    entry!(map, self, required_features, "required-features");
 });
 
 impl Serialize for Edition {
-- 
2.43.0


From 8c93809224329a6b43443efe443e0b2382cc67f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 5/9] fix: report a resolve graph without nodes as NoRootKrates
 instead of panicking

---
 src/builder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 46cc0e4..60e5f3a 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -830,7 +830,10 @@ impl Builder {
 
         // We need to establish if the package ids are in the opaque or stable format as
         // it changes how git sources are compared
-        let is_opaque = resolved.nodes[0].id.repr.splitn(3, ' ').count() == 3;
+        let is_opaque = resolved
+            .nodes
+            .first()
+            .is_some_and(|rn| rn.id.repr.splitn(3, ' ').count() == 3);
 
         let mut nodes: Vec<_> = resolved
             .nodes
@@ -945,7 +948,10 @@ impl Builder {
         };
 
         for root in &roots {
-            let krate_index = nodes.binary_search_by(|n| n.id.cmp(root)).unwrap();
+            let Ok(krate_index) = nodes.binary_search_by(|n| n.id.cmp(root)) else {
+                // The root isn't resolved, so there is nothing to reach from it
+                continue;
+            };
             let rnode = &nodes[krate_index];
 
             visit_stack.push(root);
-- 
2.43.0


From ddf566056bdcec459873b93e127b81bb62e3a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 6/9] fix: accept a rust-version with a single component

---
 src/cm/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cm/de.rs b/src/cm/de.rs
index cec0986..e31fc83 100644
--- a/src/cm/de.rs
+++ b/src/cm/de.rs
@@ -423,7 +423,7 @@ impl<'de> Deserialize<'de> for Source {
 /// > it cannot include semver operators or pre-release identifiers.
 ///
 /// [`semver::Version`] however requires three components. This function takes
-/// care of appending `.0` if the provided version number only has two components
+/// care of appending `.0` for each component the provided version number lacks
 /// and ensuring that it does not contain a pre-release version or build metadata.
 fn deserialize_rust_version<E: Error>(mut buf: String) -> Result<semver::Version, E> {
     for c in buf.chars() {
@@ -436,8 +436,8 @@ fn deserialize_rust_version<E: Error>(mut buf: String) -> Result<semver::Version
         }
     }
 
-    if buf.matches('.').count() == 1 {
-        // e.g. 1.0 -> 1.0.0
+    // e.g. 1 -> 1.0.0, 1.0 -> 1.0.0
+    for _ in buf.matches('.').count()..2 {
         buf.push_str(".0");
     }
 
-- 
2.43.0


From c52c0dab93b214bb1699c5791afc7c4b93de248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:45 +0000
Subject: [PATCH 7/9] fix: consider every kind of library target when resolving
 renamed dependencies

---
 src/builder.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 60e5f3a..fdb9a0c 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -631,11 +631,20 @@ impl Builder {
         impl<'p> Renames<'p> {
             #[inline]
             fn maybe_insert(&mut self, pkg: &'p crate::Package) {
-                let Some(targ) = pkg
-                    .targets
-                    .iter()
-                    .find(|tar| tar.kind.contains(&cm::TargetKind::Lib))
-                else {
+                // A package has at most one library, but its kind can be any of these
+                let Some(targ) = pkg.targets.iter().find(|tar| {
+                    tar.kind.iter().any(|kind| {
+                        matches!(
+                            kind,
+                            cm::TargetKind::Lib
+                                | cm::TargetKind::RLib
+                                | cm::TargetKind::DyLib
+                                | cm::TargetKind::CDyLib
+                                | cm::TargetKind::StaticLib
+                                | cm::TargetKind::ProcMacro
+                        )
+                    })
+                }) else {
                     return;
                 };
 
-- 
2.43.0


From d54a863d8907dfed301557932bf9c157a9097feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 8/9] fix: do not enable a dependency's feature on the crate
 whose edge to it was pruned

---
 src/builder.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index fdb9a0c..a285ad5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1799,6 +1799,9 @@ impl Builder {
                         continue;
                     }
 
+                    let is_dep_feature =
+                        sub_feat.kid != pid && matches!(sub_feat.name, FeatureEdgeName::Feature(_));
+
                     let feat_name = match sub_feat.name {
                         FeatureEdgeName::Feature(feat) => Some(feat),
                         FeatureEdgeName::Rename(kname) => Some(kname),
@@ -1809,6 +1812,17 @@ impl Builder {
                         get(&graph, sub_feat.kid, feat_name.as_deref())
                     {
                         target_id
+                    } else if is_dep_feature
+                        && get(&graph, sub_feat.kid, None).is_none_or(|dep| {
+                            !graph.neighbors(kind).any(|nid| match &graph[nid] {
+                                crate::Node::Krate { .. } => nid == dep,
+                                crate::Node::Feature { krate_index, .. } => *krate_index == dep,
+                            })
+                        })
+                    {
+                        // The dependency is in the graph, but this crate's own edge to it was
+                        // pruned, so the feature of the dependency is not enabled by this crate
+                        continue;
                     } else {
                         let feat_name = feat_name.unwrap_or_else(|| sub_feat.kid.name().to_owned());
 
-- 
2.43.0


From 16ca8128c439f779f42e197f5be8313f231b2fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 9/9] fix: look a crate's package up by its id, as not every
 package has to be resolved

---
 src/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index a285ad5..02e8ae1 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1038,7 +1038,9 @@ impl Builder {
             let krate_index = nodes.binary_search_by(|n| n.id.cmp(pid)).unwrap();
 
             let rnode = &nodes[krate_index];
-            let (_, krate) = &packages[krate_index];
+            // Every node has a package, but not every package has to be resolved, so
+            // the packages can't be indexed the same way as the nodes
+            let (_, krate) = &packages[packages.binary_search_by(|(id, _)| id.cmp(pid)).unwrap()];
 
             if exclude.iter().any(|exc| exc.matches(krate)) {
                 continue;
-- 
2.43.0

