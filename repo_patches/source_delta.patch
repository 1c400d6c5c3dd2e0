From 6beef7169241d6ab211ec329a2038d6c316fe590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:16 +0000
Subject: [PATCH 01/27] fix: resolve attribute references to definitions,
 independently of load order

A reference could resolve to an attribute that another group inherited and
overrode, and among several definitions of one attribute the one loaded first
won, so that the result depended on the order in which files were read.
---
 crates/weaver_resolver/src/attribute.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_resolver/src/attribute.rs b/crates/weaver_resolver/src/attribute.rs
index 153fb3e..747540d 100644
--- a/crates/weaver_resolver/src/attribute.rs
+++ b/crates/weaver_resolver/src/attribute.rs
@@ -208,7 +208,14 @@ fn resolve_conflict(
         _ => {}
     }
     match (&m.source, &existing.source) {
-        (AttributeSource::Local { .. }, AttributeSource::Local { .. }) => Ok(existing),
+        // Several local definitions: groups come in load order, which is not
+        // deterministic, so the choice must not depend on which one came first.
+        (
+            AttributeSource::Local { group_id },
+            AttributeSource::Local {
+                group_id: existing_id,
+            },
+        ) => Ok(if group_id < existing_id { m } else { existing }),
         // Prefer Dependency over Local to preserve original SchemaUrl provenance:
         (AttributeSource::Local { .. }, AttributeSource::Dependency { .. }) => Ok(existing),
         (AttributeSource::Dependency { .. }, AttributeSource::Local { .. }) => Ok(m),
@@ -486,8 +493,11 @@ impl AttributeCatalog {
                     source,
                     // An `Id` spec carrying an origin is an attribute inherited
                     // from a dependency through a refinement, not a definition
-                    // this registry owns.
-                    is_definition: origin.is_none(),
+                    // this registry owns. One that has a lineage is inherited
+                    // from another group, with the overrides of this group, so
+                    // it is not the definition that references resolve to.
+                    is_definition: origin.is_none()
+                        && !lineage.as_ref().is_some_and(|l| l.has_attribute(id)),
                 };
                 let root_attr = match self.root_attributes.get(id) {
                     Some(existing) => resolve_conflict(id, root_attr, existing.clone())?,
-- 
2.43.0


From 6c61d2c6839f947da0535549aab6d59235d426a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:56 +0000
Subject: [PATCH 02/27] fix: count template attributes towards coverage even
 when their finding is filtered

The coverage entry of an attribute was taken from the template_attribute
finding, so a finding filter changed the registry coverage.
---
 .../weaver_live_check/src/sample_attribute.rs | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/crates/weaver_live_check/src/sample_attribute.rs b/crates/weaver_live_check/src/sample_attribute.rs
index 15105c4..a0ce505 100644
--- a/crates/weaver_live_check/src/sample_attribute.rs
+++ b/crates/weaver_live_check/src/sample_attribute.rs
@@ -147,24 +147,9 @@ impl SampleAttribute {
         }
     }
 
-    fn update_stats(&mut self, stats: &mut LiveCheckStatistics) {
+    fn update_stats(&mut self, stats: &mut LiveCheckStatistics, seen_attribute_name: String) {
         stats.inc_entity_count("attribute");
         stats.maybe_add_live_check_result(self.live_check_result.as_ref());
-        let mut seen_attribute_name = self.name.clone();
-        if let Some(result) = &mut self.live_check_result {
-            for advice in &mut result.all_advice {
-                // If the advice is a template, adjust the name
-                if advice.id.parse::<FindingId>() == Ok(FindingId::TemplateAttribute) {
-                    if let Some(template_name) = advice
-                        .context
-                        .as_ref()
-                        .and_then(|c| c["template_name"].as_str())
-                    {
-                        seen_attribute_name = template_name.to_owned();
-                    }
-                }
-            }
-        }
         stats.add_attribute_name_to_coverage(seen_attribute_name);
     }
 }
@@ -241,7 +226,13 @@ impl LiveCheckRunner for SampleAttribute {
             );
         }
         self.live_check_result = Some(result);
-        self.update_stats(stats);
+        // An attribute counts towards the coverage of the registry attribute (or template)
+        // that defines it, whether or not the findings are filtered.
+        let seen_attribute_name = semconv_attribute.as_ref().map_or_else(
+            || self.name.clone(),
+            |attribute| attribute.name().to_owned(),
+        );
+        self.update_stats(stats, seen_attribute_name);
         Ok(())
     }
 }
-- 
2.43.0


From 83604af7307f5a519f9637e828732f2e0fa6c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:25 +0000
Subject: [PATCH 03/27] fix: live-check matches template attributes on a name
 boundary

A template attribute 'a.b' stands for 'a.b.<key>', but any name starting with
the same characters (e.g. 'a.bc') was taken for an instance of it, which hid
missing_attribute findings and satisfied required template attributes.
---
 .../src/advice/type_advisor.rs                  | 17 ++++++++++-------
 crates/weaver_live_check/src/live_checker.rs    |  9 ++++++++-
 defaults/policies/live_check_advice/otel.rego   |  6 +++++-
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/crates/weaver_live_check/src/advice/type_advisor.rs b/crates/weaver_live_check/src/advice/type_advisor.rs
index f1836e3..f43c4d5 100644
--- a/crates/weaver_live_check/src/advice/type_advisor.rs
+++ b/crates/weaver_live_check/src/advice/type_advisor.rs
@@ -21,11 +21,14 @@ use weaver_semconv::entity_association::EntityAssociation;
 
 use super::{emit_findings, Advisor, FindingBuilder};
 use crate::{
-    live_checker::LiveChecker, otlp_logger::OtlpEmitter, sample_attribute::SampleAttribute,
-    sample_metric::SampleInstrument, Error, FindingId, Sample, SampleRef, VersionedAttribute,
-    VersionedEntity, VersionedSignal, ATTRIBUTE_KEY_ADVICE_CONTEXT_KEY,
-    ATTRIBUTE_TYPE_ADVICE_CONTEXT_KEY, ENTITY_TYPE_ADVICE_CONTEXT_KEY,
-    EXPECTED_VALUE_ADVICE_CONTEXT_KEY, INSTRUMENT_ADVICE_CONTEXT_KEY, UNIT_ADVICE_CONTEXT_KEY,
+    live_checker::{matches_template, LiveChecker},
+    otlp_logger::OtlpEmitter,
+    sample_attribute::SampleAttribute,
+    sample_metric::SampleInstrument,
+    Error, FindingId, Sample, SampleRef, VersionedAttribute, VersionedEntity, VersionedSignal,
+    ATTRIBUTE_KEY_ADVICE_CONTEXT_KEY, ATTRIBUTE_TYPE_ADVICE_CONTEXT_KEY,
+    ENTITY_TYPE_ADVICE_CONTEXT_KEY, EXPECTED_VALUE_ADVICE_CONTEXT_KEY,
+    INSTRUMENT_ADVICE_CONTEXT_KEY, UNIT_ADVICE_CONTEXT_KEY,
 };
 
 /// An advisor that checks if a sample has the correct type
@@ -446,12 +449,12 @@ fn check_attributes<T: CheckableAttribute>(
             AttributeType::Template(_)
         );
 
-        // For template attributes, check if any sample attribute starts with the template prefix
+        // For template attributes, check if any sample attribute is an instance of the template
         // For non-template attributes, check for exact match
         let is_present = if is_template {
             sample_attributes
                 .iter()
-                .any(|attr| attr.name.starts_with(key))
+                .any(|attr| matches_template(&attr.name, key))
         } else {
             attribute_set.contains(key)
         };
diff --git a/crates/weaver_live_check/src/live_checker.rs b/crates/weaver_live_check/src/live_checker.rs
index ede3e89..d774059 100644
--- a/crates/weaver_live_check/src/live_checker.rs
+++ b/crates/weaver_live_check/src/live_checker.rs
@@ -195,7 +195,7 @@ impl LiveChecker {
     pub fn find_template(&self, attribute_name: &str) -> Option<Rc<VersionedAttribute>> {
         // Use the pre-sorted list to find the first (longest) matching template
         for (template_name, attribute) in &self.templates_by_length {
-            if attribute_name.starts_with(template_name) {
+            if matches_template(attribute_name, template_name) {
                 return Some(Rc::clone(attribute));
             }
         }
@@ -203,6 +203,13 @@ impl LiveChecker {
     }
 }
 
+/// Whether an attribute name is an instance (`<template_name>.<key>`) of a template attribute.
+pub(crate) fn matches_template(attribute_name: &str, template_name: &str) -> bool {
+    attribute_name
+        .strip_prefix(template_name)
+        .is_some_and(|key| key.is_empty() || key.starts_with('.'))
+}
+
 #[cfg(test)]
 mod tests {
     use std::fs::File;
diff --git a/defaults/policies/live_check_advice/otel.rego b/defaults/policies/live_check_advice/otel.rego
index 6414be6..bc4d402 100644
--- a/defaults/policies/live_check_advice/otel.rego
+++ b/defaults/policies/live_check_advice/otel.rego
@@ -122,5 +122,9 @@ make_advice_with_signal_info(advice_type, advice_level, advice_context, signal_n
 # Helper function to check if name is a template type
 is_template_type(name) if {
 	some template in object.keys(templates_set)
-	startswith(name, template)
+	startswith(name, concat("", [template, "."]))
+}
+
+is_template_type(name) if {
+	templates_set[name]
 }
-- 
2.43.0


From 8bee9b0b949c1696c49395b21bdad62854c9e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:15 +0000
Subject: [PATCH 04/27] fix: report duplicate ids of internal attribute groups

Internal attribute groups were removed before ids were checked for
duplicates, so of two groups with one id the first one loaded was used
without any report.
---
 crates/weaver_resolver/src/registry.rs | 34 ++++++++++++++------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/crates/weaver_resolver/src/registry.rs b/crates/weaver_resolver/src/registry.rs
index ab2376f..72989e1 100644
--- a/crates/weaver_resolver/src/registry.rs
+++ b/crates/weaver_resolver/src/registry.rs
@@ -175,17 +175,10 @@ pub(crate) fn resolve_registry_with_dependencies<C: crate::SchemaCacheLookup>(
 
     // Now we do validations.
 
-    // Note: this will remove all the `groups` from UnresolvedRegistry and create
-    // a complete `Registry` that is returned.
-    //
-    // This will also "taint" that attribute catalog so it cannot be used for creating new attribute refs.
-    let result = cleanup_and_stabilize_catalog_and_registry(attr_catalog, ureg);
-    let attr_name_index = attr_catalog.attribute_name_index();
-
-    // Other complementary checks.
-    // Check for duplicate group IDs.
+    // Check for duplicate group IDs. This comes before the internal attribute groups
+    // are removed: a reference to one of them also needs to be unambiguous.
     check_uniqueness(
-        &result,
+        ureg.groups.iter().map(|g| &g.group),
         &mut errors,
         |group| Some(group.id.clone()),
         |group_id, provenances| DuplicateGroupId {
@@ -193,9 +186,18 @@ pub(crate) fn resolve_registry_with_dependencies<C: crate::SchemaCacheLookup>(
             provenances,
         },
     );
+
+    // Note: this will remove all the `groups` from UnresolvedRegistry and create
+    // a complete `Registry` that is returned.
+    //
+    // This will also "taint" that attribute catalog so it cannot be used for creating new attribute refs.
+    let result = cleanup_and_stabilize_catalog_and_registry(attr_catalog, ureg);
+    let attr_name_index = attr_catalog.attribute_name_index();
+
+    // Other complementary checks.
     // Check for duplicate metric names.
     check_uniqueness(
-        &result,
+        &result.groups,
         &mut errors,
         |group| {
             // Ignore refinement duplicates, as they namespace differently.
@@ -212,7 +214,7 @@ pub(crate) fn resolve_registry_with_dependencies<C: crate::SchemaCacheLookup>(
     );
     // Check for duplicate group names.
     check_uniqueness(
-        &result,
+        &result.groups,
         &mut errors,
         |group| {
             // Ignore refinement duplicates, as they namespace differently.
@@ -272,12 +274,12 @@ fn check_v2_signal_id_collisions(registry: &Registry, errors: &mut Vec<Error>) {
     }
 }
 
-/// Generic function to check for duplicate keys in the given registry.
+/// Generic function to check for duplicate keys in the given groups.
 ///
 /// A key can be a group ID, a metric name, an event name, or any other key that is used
 /// to identify a group.
-fn check_uniqueness<K, KF, EF>(
-    registry: &Registry,
+fn check_uniqueness<'a, K, KF, EF>(
+    groups: impl IntoIterator<Item = &'a Group>,
     errors: &mut Vec<Error>,
     key_fn: KF,
     error_fn: EF,
@@ -288,7 +290,7 @@ fn check_uniqueness<K, KF, EF>(
 {
     let mut keys: HashMap<K, Vec<Provenance>> = HashMap::new();
 
-    for group in registry.groups.iter() {
+    for group in groups {
         if let Some(key) = key_fn(group) {
             let provenances = keys.entry(key).or_default();
             if let Some(p) = group.provenance() {
-- 
2.43.0


From 33684bbbef16103e16219ca78751ed36a2f5271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:14 +0000
Subject: [PATCH 05/27] fix: diff does not list a rename again when only its
 inferred note was spelled out

A published registry spells out the note of a renamed item. Comparing a
registry with its own published form listed each such item as renamed.
---
 crates/weaver_resolved_schema/src/lib.rs    |  4 ++--
 crates/weaver_resolved_schema/src/v2/mod.rs |  2 +-
 crates/weaver_semconv/src/deprecated.rs     | 14 ++++++++++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_resolved_schema/src/lib.rs b/crates/weaver_resolved_schema/src/lib.rs
index a72318f..525b244 100644
--- a/crates/weaver_resolved_schema/src/lib.rs
+++ b/crates/weaver_resolved_schema/src/lib.rs
@@ -382,7 +382,7 @@ impl ResolvedTelemetrySchema {
                 if let Some(deprecated) = attr.deprecated.as_ref() {
                     // is this a change from the baseline?
                     if let Some(baseline_deprecated) = baseline_attr.deprecated.as_ref() {
-                        if deprecated == baseline_deprecated {
+                        if deprecated.is_same_as(baseline_deprecated) {
                             // This attribute was already deprecated in the baseline.
                             // We can skip it.
                             continue;
@@ -465,7 +465,7 @@ impl ResolvedTelemetrySchema {
                 if let Some(deprecated) = group.deprecated.as_ref() {
                     // is this a change from the baseline?
                     if let Some(baseline_deprecated) = baseline_group.deprecated.as_ref() {
-                        if deprecated == baseline_deprecated {
+                        if deprecated.is_same_as(baseline_deprecated) {
                             continue;
                         }
                     }
diff --git a/crates/weaver_resolved_schema/src/v2/mod.rs b/crates/weaver_resolved_schema/src/v2/mod.rs
index cb3e391..1bb35f5 100644
--- a/crates/weaver_resolved_schema/src/v2/mod.rs
+++ b/crates/weaver_resolved_schema/src/v2/mod.rs
@@ -816,7 +816,7 @@ fn diff_signals_by_hash<T: Signal>(
             if let Some(deprecated) = latest_signal.common().deprecated.as_ref() {
                 // is this a change from the baseline?
                 if let Some(baseline_deprecated) = baseline_signal.common().deprecated.as_ref() {
-                    if deprecated == baseline_deprecated {
+                    if deprecated.is_same_as(baseline_deprecated) {
                         continue;
                     }
                 }
diff --git a/crates/weaver_semconv/src/deprecated.rs b/crates/weaver_semconv/src/deprecated.rs
index 51c86d9..3979b15 100644
--- a/crates/weaver_semconv/src/deprecated.rs
+++ b/crates/weaver_semconv/src/deprecated.rs
@@ -198,6 +198,20 @@ impl Deprecated {
         }
     }
 
+    /// Returns true if both deprecations say the same thing. A `note` that was left
+    /// out is the same as the inferred note spelled out, which is what a deprecation
+    /// becomes when it is serialized (e.g. in a published registry).
+    #[must_use]
+    pub fn is_same_as(&self, other: &Deprecated) -> bool {
+        let renamed_to = |d: &Deprecated| match d {
+            Deprecated::Renamed { renamed_to, .. } => Some(renamed_to.clone()),
+            _ => None,
+        };
+        self.reason() == other.reason()
+            && renamed_to(self) == renamed_to(other)
+            && self.note() == other.note()
+    }
+
     /// The deprecation reason, as it appears in the `reason` field.
     #[must_use]
     pub fn reason(&self) -> &'static str {
-- 
2.43.0


From c596a0f3df4bd5d1c29bed255b18fbf04b4d49a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:14 +0000
Subject: [PATCH 06/27] fix: version 1 diff compares signals, not their
 refinements

A version 2 metric refinement has the metric name of the metric that it
refines and took its place in the comparison, so that its deprecation was
reported for the metric. Refinements of events and spans were listed as
signals of their own.
---
 crates/weaver_resolved_schema/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolved_schema/src/lib.rs b/crates/weaver_resolved_schema/src/lib.rs
index 525b244..65fc8fc 100644
--- a/crates/weaver_resolved_schema/src/lib.rs
+++ b/crates/weaver_resolved_schema/src/lib.rs
@@ -283,12 +283,14 @@ impl ResolvedTelemetrySchema {
     }
 
     /// Grab a specific type of group identified by the name (not id).
+    ///
+    /// Refinements are not included, as the name identifies the signal they refine.
     #[must_use]
     pub fn groups_by_name(&self, group_type: GroupType) -> HashMap<&str, &Group> {
         self.registry
             .groups
             .iter()
-            .filter(|group| group.r#type == group_type)
+            .filter(|group| group.r#type == group_type && !group.is_v2_refinement())
             .filter_map(|g| g.signal_name().map(|name| (name, g)))
             .collect()
     }
-- 
2.43.0


From e76226ff746cff1a73823cf0d6833bee85f4422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:14 +0000
Subject: [PATCH 07/27] fix: list entity changes in the markdown and ansi diff
 reports

The changes to entities are under the key `entities` in the version 1
form, which the templates did not look at.
---
 defaults/diff_templates/ansi-stats/diff.txt.j2 | 4 ++--
 defaults/diff_templates/ansi/diff.txt.j2       | 2 +-
 defaults/diff_templates/markdown/diff.md.j2    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/defaults/diff_templates/ansi-stats/diff.txt.j2 b/defaults/diff_templates/ansi-stats/diff.txt.j2
index fa5f772..40dc79b 100644
--- a/defaults/diff_templates/ansi-stats/diff.txt.j2
+++ b/defaults/diff_templates/ansi-stats/diff.txt.j2
@@ -1,8 +1,8 @@
 
 {{ ("Summary of Schema Changes between " ~ ctx.head.semconv_version ~ " and " ~ ctx.baseline.semconv_version) | ansi_red | ansi_bold }}
 
-{% set item_types = ["registry_attributes", "metrics", "events", "spans", "resources"] %}
-{% for item_type in item_types %}
+{% set item_types = ["registry_attributes", "metrics", "events", "spans", "entities", "resources"] %}
+{% for item_type in item_types if ctx.changes[item_type] is defined %}
 {% set added_count = ctx.changes[item_type] | selectattr('type', 'equalto', 'added') | count %}
 {% set renamed_count = ctx.changes[item_type] | selectattr('type', 'equalto', 'renamed') | count %}
 {% set obsoleted_count = ctx.changes[item_type] | selectattr('type', 'equalto', 'obsoleted') | count %}
diff --git a/defaults/diff_templates/ansi/diff.txt.j2 b/defaults/diff_templates/ansi/diff.txt.j2
index 23ca056..e96cf18 100644
--- a/defaults/diff_templates/ansi/diff.txt.j2
+++ b/defaults/diff_templates/ansi/diff.txt.j2
@@ -1,4 +1,4 @@
-{%- set item_types = ["registry_attributes", "metrics", "events", "spans", "resources"] %}
+{%- set item_types = ["registry_attributes", "metrics", "events", "spans", "entities", "resources"] %}
 
 {{ ("Schema Changes between `" ~ ctx.head.semconv_version ~ "` and `" ~ ctx.baseline.semconv_version ~ "`") | ansi_red | ansi_bold }}
 
diff --git a/defaults/diff_templates/markdown/diff.md.j2 b/defaults/diff_templates/markdown/diff.md.j2
index d2988ee..24da6ae 100644
--- a/defaults/diff_templates/markdown/diff.md.j2
+++ b/defaults/diff_templates/markdown/diff.md.j2
@@ -1,4 +1,4 @@
-{%- set item_types = ["registry_attributes", "metrics", "events", "spans", "resources"] -%}
+{%- set item_types = ["registry_attributes", "metrics", "events", "spans", "entities", "resources"] -%}
 # Summary of Schema Changes
 ## Registry versions
 Baseline: {{ ctx.baseline.semconv_version }}
-- 
2.43.0


From bfd27f30109a1f89aba6054f95c938d1958cf248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:03 +0000
Subject: [PATCH 08/27] fix: keep the requirement level of a use when a newer
 attribute version is picked

---
 crates/weaver_resolver/src/attribute.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/weaver_resolver/src/attribute.rs b/crates/weaver_resolver/src/attribute.rs
index 747540d..9ecc304 100644
--- a/crates/weaver_resolver/src/attribute.rs
+++ b/crates/weaver_resolver/src/attribute.rs
@@ -149,7 +149,15 @@ impl AttributeCatalog {
             is_definition: true,
         };
         // Make sure we pick the attribute from the *correct* version of a transitive dependency.
+        let requirement_level = new_attr.attribute.requirement_level.clone();
+        let sampling_relevant = new_attr.attribute.sampling_relevant;
+        let role = new_attr.attribute.role.clone();
         new_attr = Self::upgrade_attribute_with_source(new_attr, cache_lookup)?;
+        // What the group says about its use of the attribute is not part of the
+        // definition, and stays when a newer version of the definition is picked.
+        new_attr.attribute.requirement_level = requirement_level;
+        new_attr.attribute.sampling_relevant = sampling_relevant;
+        new_attr.attribute.role = role;
 
         // Return a ref to this group's own copy of the attribute. Different
         // groups may reference the same attribute with different
-- 
2.43.0


From f252124cb81e6fed277eb3a0700f75cc1bb39999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:03 +0000
Subject: [PATCH 09/27] fix: keep the whole dependency graph in the resolver's
 schema cache

---
 crates/weaver_resolver/src/lib.rs | 38 ++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolver/src/lib.rs b/crates/weaver_resolver/src/lib.rs
index 8b4451b..331274b 100644
--- a/crates/weaver_resolver/src/lib.rs
+++ b/crates/weaver_resolver/src/lib.rs
@@ -3,7 +3,7 @@
 #![doc = include_str!("../README.md")]
 
 use lru::LruCache;
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::num::NonZeroUsize;
 use std::sync::Arc;
 use weaver_common::http_auth::HttpAuthResolver;
@@ -567,6 +567,41 @@ impl WeaverResolver {
         }
     }
 
+    /// Makes room in the cache for every schema of a dependency graph.
+    ///
+    /// A dependency is known by its location only while its parent is loaded. Once
+    /// evicted it would be fetched from its schema URL instead, or be missing when
+    /// the version chosen for the graph is looked up.
+    fn reserve_cache_for(&mut self, loaded: &LoadedSemconvRegistry) {
+        fn collect(loaded: &LoadedSemconvRegistry, urls: &mut HashSet<SchemaUrl>) {
+            match loaded {
+                LoadedSemconvRegistry::Unresolved {
+                    repo, dependencies, ..
+                } => {
+                    _ = urls.insert(repo.schema_url().clone());
+                    for dependency in dependencies {
+                        collect(dependency, urls);
+                    }
+                }
+                LoadedSemconvRegistry::Resolved(schema) => {
+                    urls.extend(SchemaUrl::try_from(schema.schema_url.as_str()));
+                    urls.extend(schema.dependencies.iter().cloned());
+                }
+                LoadedSemconvRegistry::ResolvedV2(schema) => {
+                    _ = urls.insert(schema.schema_url.clone());
+                    urls.extend(schema.dependencies.iter().cloned());
+                }
+            }
+        }
+        let mut urls = HashSet::new();
+        collect(loaded, &mut urls);
+        if let Some(capacity) = NonZeroUsize::new(urls.len()) {
+            if capacity > self.cache.cap() {
+                self.cache.resize(capacity);
+            }
+        }
+    }
+
     /// Loads and resolves a semantic convention repository directly from disk or virtual directory.
     pub fn load_and_resolve_schema<V: SchemaLoadingVisitor>(
         &mut self,
@@ -578,6 +613,7 @@ impl WeaverResolver {
             WResult::OkWithNFEs(loaded, nfes) => (loaded, nfes),
             WResult::FatalErr(e) => return WResult::FatalErr(e),
         };
+        self.reserve_cache_for(&loaded);
 
         if !visitor.check_raw_loaded_schema_files(&loaded) {
             return WResult::FatalErr(Error::LoadingAbortedByVisitor);
-- 
2.43.0


From 209bb9f84dd6b75a2af13fe100ea3710059a261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:42 +0000
Subject: [PATCH 10/27] fix: keep the severity of warnings of registries looked
 up by URL

---
 crates/weaver_forge/src/error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/weaver_forge/src/error.rs b/crates/weaver_forge/src/error.rs
index ba64c25..82629d3 100644
--- a/crates/weaver_forge/src/error.rs
+++ b/crates/weaver_forge/src/error.rs
@@ -310,6 +310,7 @@ pub enum Error {
 
     /// Resolver error.
     #[error("Resolver error: {0}")]
+    #[diagnostic(transparent)]
     ResolverError(#[from] weaver_resolver::Error),
 
     /// Schema error.
-- 
2.43.0


From 4ee4b2d1fec0d40cdd9b004d176c4d7dbfafa4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:17 +0000
Subject: [PATCH 11/27] fix: report a markdown snippet without an end marker
 instead of dropping the rest of the file

---
 crates/weaver_semconv_gen/src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/weaver_semconv_gen/src/lib.rs b/crates/weaver_semconv_gen/src/lib.rs
index a7cd1d1..5cbe342 100644
--- a/crates/weaver_semconv_gen/src/lib.rs
+++ b/crates/weaver_semconv_gen/src/lib.rs
@@ -72,6 +72,12 @@ pub enum Error {
         /// Markdown snipper identifier:  <!-- semconv {id} -->
         id: String,
     },
+    /// Thrown when a snippet is not closed before the end of the file.
+    #[error("Snippet is not closed before the end of the file: [{header}]")]
+    UnterminatedSnippet {
+        /// The line that opens the snippet.
+        header: String,
+    },
     /// Errors from using std io library.
     #[error("{0}")]
     StdIoError(String),
@@ -149,6 +155,7 @@ pub trait MarkdownSnippetGenerator {
     ) -> Result<String, Error> {
         let mut result = String::new();
         let mut snippet_context: Option<SnippetType> = None;
+        let mut snippet_header = "";
         for line in contents.lines() {
             match snippet_context {
                 Some(SnippetType::Semconv) => {
@@ -173,12 +180,14 @@ pub trait MarkdownSnippetGenerator {
                     // Check to see if line matches snippet request.
                     // If so, generate the snippet and continue.
                     if parser::is_markdown_snippet_directive(line) {
+                        snippet_header = line;
                         snippet_context = Some(SnippetType::Semconv);
                         let arg = parser::parse_markdown_snippet_directive(line)?;
                         let snippet =
                             self.generate_markdown_snippet(arg, attribute_registry_base_url)?;
                         result.push_str(&snippet);
                     } else if parser::is_weaver_directive(line) {
+                        snippet_header = line;
                         snippet_context = Some(SnippetType::Weaver);
                         let arg = parser::parse_weaver_snippet_directive(line)?;
                         let snippet = self.generate_weaver_snippet(arg)?;
@@ -187,6 +196,12 @@ pub trait MarkdownSnippetGenerator {
                 }
             }
         }
+        // Without an end marker everything after the header would be lost.
+        if snippet_context.is_some() {
+            return Err(Error::UnterminatedSnippet {
+                header: snippet_header.to_owned(),
+            });
+        }
         Ok(result)
     }
 
-- 
2.43.0


From 9e3a45f33ce37dcb1f5b66f235e84c280a66165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:54 +0000
Subject: [PATCH 12/27] fix: leave an up-to-date markdown file alone, as the
 dry run reports it

---
 crates/weaver_semconv_gen/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/weaver_semconv_gen/src/lib.rs b/crates/weaver_semconv_gen/src/lib.rs
index 5cbe342..a361524 100644
--- a/crates/weaver_semconv_gen/src/lib.rs
+++ b/crates/weaver_semconv_gen/src/lib.rs
@@ -130,16 +130,17 @@ pub trait MarkdownSnippetGenerator {
             .replace("\r\n", "\n");
         let updated_markdown =
             self.update_markdown_contents(&original_markdown, attribute_registry_base_url)?;
-        if !dry_run {
+        if original_markdown == updated_markdown {
+            // Up to date: the file keeps its bytes (e.g. its line endings).
+            Ok(())
+        } else if !dry_run {
             fs::write(file, updated_markdown).map_err(|e| Error::StdIoError(e.to_string()))?;
             Ok(())
-        } else if original_markdown != updated_markdown {
+        } else {
             Err(Error::MarkdownIsNotEqual {
                 original: original_markdown,
                 updated: updated_markdown,
             })
-        } else {
-            Ok(())
         }
     }
 
-- 
2.43.0


From 2b7be12e6c9983019b361b4e55c134097fd399f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:18 +0000
Subject: [PATCH 13/27] fix: infer attribute types and examples from all
 signals in order of arrival

---
 crates/weaver_infer/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_infer/src/lib.rs b/crates/weaver_infer/src/lib.rs
index 2498313..f741126 100644
--- a/crates/weaver_infer/src/lib.rs
+++ b/crates/weaver_infer/src/lib.rs
@@ -80,6 +80,8 @@ impl AccumulatedEvent {
 /// Accumulates telemetry samples into inferred semantic convention groups.
 #[derive(Default)]
 pub struct AccumulatedSamples {
+    /// Every attribute observed, on whatever it was observed, in order of arrival.
+    attributes: HashMap<String, AttributeSpec>,
     resources: HashMap<String, AttributeSpec>,
     spans: HashMap<String, AccumulatedSpan>,
     metrics: HashMap<String, AccumulatedMetric>,
@@ -100,7 +102,10 @@ impl AccumulatedSamples {
             Sample::Span(span) => self.add_span(span),
             Sample::Metric(metric) => self.add_metric(metric),
             Sample::Log(log) => self.add_event(log.event_name, log.attributes),
-            Sample::Attribute(attr) => accumulate_attribute(&mut self.resources, attr),
+            Sample::Attribute(attr) => {
+                accumulate_attribute(&mut self.attributes, attr.clone());
+                accumulate_attribute(&mut self.resources, attr);
+            }
             Sample::InstrumentationScope(_) => {
                 // Scope metadata is not part of the inferred resource or signal schema.
             }
@@ -114,6 +119,7 @@ impl AccumulatedSamples {
 
     fn add_resource(&mut self, resource: SampleResource) {
         for attr in resource.attributes {
+            accumulate_attribute(&mut self.attributes, attr.clone());
             accumulate_attribute(&mut self.resources, attr);
         }
     }
@@ -125,6 +131,7 @@ impl AccumulatedSamples {
             .or_insert_with(|| AccumulatedSpan::new(span.name.clone(), span.kind.clone()));
 
         for attr in span.attributes {
+            accumulate_attribute(&mut self.attributes, attr.clone());
             accumulate_attribute(&mut entry.attributes, attr);
         }
 
@@ -136,6 +143,7 @@ impl AccumulatedSamples {
                 .or_insert_with(|| AccumulatedEvent::new(event.name.clone()));
 
             for attr in event.attributes {
+                accumulate_attribute(&mut self.attributes, attr.clone());
                 accumulate_attribute(&mut event_entry.attributes, attr);
             }
         }
@@ -158,6 +166,7 @@ impl AccumulatedSamples {
                 DataPoints::Number(points) => {
                     for point in points {
                         for attr in point.attributes {
+                            accumulate_attribute(&mut self.attributes, attr.clone());
                             accumulate_attribute(&mut entry.attributes, attr);
                         }
                     }
@@ -165,6 +174,7 @@ impl AccumulatedSamples {
                 DataPoints::Histogram(points) => {
                     for point in points {
                         for attr in point.attributes {
+                            accumulate_attribute(&mut self.attributes, attr.clone());
                             accumulate_attribute(&mut entry.attributes, attr);
                         }
                     }
@@ -172,6 +182,7 @@ impl AccumulatedSamples {
                 DataPoints::ExponentialHistogram(points) => {
                     for point in points {
                         for attr in point.attributes {
+                            accumulate_attribute(&mut self.attributes, attr.clone());
                             accumulate_attribute(&mut entry.attributes, attr);
                         }
                     }
@@ -191,6 +202,7 @@ impl AccumulatedSamples {
             .or_insert_with(|| AccumulatedEvent::new(event_name));
 
         for attr in attributes {
+            accumulate_attribute(&mut self.attributes, attr.clone());
             accumulate_attribute(&mut entry.attributes, attr);
         }
     }
@@ -219,6 +231,8 @@ impl AccumulatedSamples {
     #[must_use]
     pub fn to_semconv_spec(&self) -> SemConvSpecV2 {
         let mut attribute_defs = HashMap::new();
+        // Comes first: what was observed decides, not the order in which the signals are visited.
+        collect_attribute_defs(self.attributes.values(), &mut attribute_defs);
         collect_attribute_defs(self.resources.values(), &mut attribute_defs);
 
         let mut spans = self
-- 
2.43.0


From 1c06ee82448762754f0f1d2157253e90a4568173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:59 +0000
Subject: [PATCH 14/27] fix: check the required attributes of exponential
 histogram data points

---
 .../src/advice/type_advisor.rs                | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/weaver_live_check/src/advice/type_advisor.rs b/crates/weaver_live_check/src/advice/type_advisor.rs
index f43c4d5..ccdc13f 100644
--- a/crates/weaver_live_check/src/advice/type_advisor.rs
+++ b/crates/weaver_live_check/src/advice/type_advisor.rs
@@ -702,6 +702,36 @@ impl Advisor for TypeAdvisor {
                     Ok(Vec::new())
                 }
             }
+            SampleRef::ExponentialHistogramDataPoint(sample_exponential_histogram_data_point) => {
+                if let Some(semconv_metric) = registry_group {
+                    let advice_list = match &*semconv_metric {
+                        VersionedSignal::Group(group) => check_attributes(
+                            &group.attributes,
+                            &sample_exponential_histogram_data_point.attributes,
+                            parent_signal,
+                        ),
+                        VersionedSignal::Metric(metric) => check_attributes(
+                            &metric.attributes,
+                            &sample_exponential_histogram_data_point.attributes,
+                            parent_signal,
+                        ),
+                        VersionedSignal::Span(_span) => vec![],
+                        VersionedSignal::Event(_event) => vec![],
+                    };
+
+                    // Emit each finding if emitter available
+                    emit_findings(
+                        &advice_list,
+                        &sample,
+                        otlp_emitter.as_deref(),
+                        parent_signal,
+                    );
+
+                    Ok(advice_list)
+                } else {
+                    Ok(Vec::new())
+                }
+            }
             SampleRef::Log(sample_log) => {
                 if let Some(semconv_event) = registry_group {
                     let advice_list = match &*semconv_event {
-- 
2.43.0


From 3dedd5c36c5c6f4e11b17b38c6e5b0678052fecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:59 +0000
Subject: [PATCH 15/27] fix: keep the resource of OTLP samples in live-check
 findings

---
 src/registry/live_check.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 844a25d..86cf959 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -393,7 +393,9 @@ pub(crate) fn command(
         // Track the most-recently-seen resource and attach it to signals that carry one.
         // This mirrors what the OTLP ingester does when building metrics/logs/spans from
         // OTLP protocol buffers, and allows JSON file inputs to associate a resource.
+        // OTLP signals already carry the resource they were sent with, if any.
         match &mut sample {
+            _ if shutdown_coordinator.is_some() => {}
             Sample::Resource(r) => current_resource = Some(std::rc::Rc::new(r.clone())),
             Sample::Metric(m) => m.resource = current_resource.clone(),
             Sample::Log(l) => l.resource = current_resource.clone(),
-- 
2.43.0


From 77adde40264c2d03bd1a70965f109c251722e4fc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:53:07 +0000
Subject: [PATCH 16/27] fix: keep hidden attributes of imported attribute
 groups hidden

---
 crates/weaver_resolver/src/imports.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/weaver_resolver/src/imports.rs b/crates/weaver_resolver/src/imports.rs
index 5df18a8..8418990 100644
--- a/crates/weaver_resolver/src/imports.rs
+++ b/crates/weaver_resolver/src/imports.rs
@@ -375,6 +375,7 @@ impl ImportableDependency for V1Schema {
                     .attributes
                     .iter()
                     .filter_map(|ar| self.catalog().attribute(ar))
+                    .filter(|a| !is_attribute_hidden(a))
                 {
                     let source = find_attribute_source(self, &a.name, &my_schema_url);
                     let ar = attribute_catalog.attribute_ref_with_provenance(
@@ -411,6 +412,15 @@ impl ImportableDependency for V1Schema {
     }
 }
 
+/// Whether the registry that declares an attribute hides it from its dependents.
+///
+/// An attribute group that is not public may declare or reference hidden
+/// attributes next to visible ones. Importing the group brings in the visible
+/// ones only.
+fn is_attribute_hidden(attribute: &Attribute) -> bool {
+    attribute.annotations.as_ref().is_some_and(is_excluded)
+}
+
 /// If an imported group's origin registry (recorded in its lineage
 /// provenance, which may point at a transitive dependency rather than the
 /// immediate one) was upgraded to a newer compatible version by graph-wide
@@ -462,6 +472,7 @@ fn upgrade_imported_group<C: crate::SchemaCacheLookup>(
         .attributes
         .iter()
         .filter_map(|ar| chosen_v1.catalog().attribute(ar))
+        .filter(|a| !is_attribute_hidden(a))
     {
         let source = find_attribute_source(chosen_v1, &a.name, chosen_url);
         attributes.push(attribute_catalog.attribute_ref_with_provenance(
-- 
2.43.0


From b39c35e723808c2d63e1675198df2f483b25bd17 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:56:56 +0000
Subject: [PATCH 17/27] fix: refine signals that a dependency passes on from a
 published registry

---
 crates/weaver_resolver/src/dependency.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolver/src/dependency.rs b/crates/weaver_resolver/src/dependency.rs
index 1e73f22..ee49def 100644
--- a/crates/weaver_resolver/src/dependency.rs
+++ b/crates/weaver_resolver/src/dependency.rs
@@ -233,7 +233,18 @@ pub(crate) trait GroupRefinementLookup {
 impl GroupRefinementLookup for V1Schema {
     fn lookup_group_summary(&self, id: &str) -> Option<GroupSummary> {
         let my_schema_url = SchemaUrl::try_from(self.schema_url.as_str()).ok();
-        self.group(id).map(|g| {
+        // A signal that came from a published registry carries its signal id,
+        // without the group type prefix that a v2 refinement asks for.
+        let published = || {
+            self.registry.groups.iter().find(|g| {
+                g.is_v2
+                    && id
+                        .strip_prefix(&g.r#type.to_string())
+                        .and_then(|rest| rest.strip_prefix('.'))
+                        .is_some_and(|rest| rest == g.id)
+            })
+        };
+        self.group(id).or_else(published).map(|g| {
             let attributes: Vec<UnresolvedAttribute> = g
                 .attributes
                 .iter()
-- 
2.43.0


From 7eba4fc9fc0004de672abc94b1330fde45fe6369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 18/27] fix: recognise a version 1 span in its published form
 when imports meet

A span defined in version 1 has no name, the same span read from a published
registry has one. Both were kept when a diamond in the dependency graph led to
them, and then reported as colliding.
---
 crates/weaver_resolver/src/imports.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_resolver/src/imports.rs b/crates/weaver_resolver/src/imports.rs
index 8418990..ee44dcc 100644
--- a/crates/weaver_resolver/src/imports.rs
+++ b/crates/weaver_resolver/src/imports.rs
@@ -496,7 +496,8 @@ fn is_same_imported_group(group: &Group, candidate: &Group) -> bool {
     if group.metric_name.is_some() || candidate.metric_name.is_some() {
         return group.metric_name == candidate.metric_name;
     }
-    if group.name.is_some() || candidate.name.is_some() {
+    // A span defined in version 1 has no name, its published form has one.
+    if group.name.is_some() && candidate.name.is_some() {
         return group.name == candidate.name;
     }
     strip_group_type_prefix(&group.id) == strip_group_type_prefix(&candidate.id)
-- 
2.43.0


From a6c5eb008b096c95817f671164cd8c51ddeb4619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 19/27] fix: answer a /stop in the first instant with the
 report

The admin server accepted requests before live-check told it whether a report
is to be delivered through /stop. A /stop in between was answered without one,
and the report went nowhere.
---
 src/registry/live_check.rs         |  4 +---
 src/registry/otlp/mod.rs           | 13 +++++++++++++
 src/registry/otlp/otlp_ingester.rs |  7 +++++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/registry/live_check.rs b/src/registry/live_check.rs
index 86cf959..e2cefd4 100644
--- a/src/registry/live_check.rs
+++ b/src/registry/live_check.rs
@@ -330,11 +330,9 @@ pub(crate) fn command(
                 otlp_grpc_port: config.otlp.grpc_port,
                 admin_port: config.otlp.admin_port,
                 inactivity_timeout: config.otlp.inactivity_timeout,
+                expect_report: is_http_output,
             };
             let (iter, coordinator) = otlp.ingest_otlp()?;
-            if is_http_output {
-                coordinator.set_expect_report(true);
-            }
             shutdown_coordinator = Some(coordinator);
             iter
         }
diff --git a/src/registry/otlp/mod.rs b/src/registry/otlp/mod.rs
index 7962910..9d0d72d 100644
--- a/src/registry/otlp/mod.rs
+++ b/src/registry/otlp/mod.rs
@@ -320,6 +320,18 @@ pub fn listen_otlp_requests(
     grpc_port: u16,
     admin_port: u16,
     inactivity_timeout: Duration,
+) -> Result<(impl Iterator<Item = OtlpRequest>, ShutdownCoordinator), Error> {
+    listen_otlp_requests_for(grpc_addr, grpc_port, admin_port, inactivity_timeout, false)
+}
+
+/// Same as [`listen_otlp_requests`], and says whether `/stop` is to answer with
+/// a report. The admin server knows it from its first request on.
+pub fn listen_otlp_requests_for(
+    grpc_addr: &str,
+    grpc_port: u16,
+    admin_port: u16,
+    inactivity_timeout: Duration,
+    expect_report: bool,
 ) -> Result<(impl Iterator<Item = OtlpRequest>, ShutdownCoordinator), Error> {
     let addr: SocketAddr =
         format!("{grpc_addr}:{grpc_port}")
@@ -342,6 +354,7 @@ pub fn listen_otlp_requests(
     // Create a watch channel for the last activity timestamp
     let (activity_tx, activity_rx) = watch::channel(Instant::now());
     let (coordinator, admin_shutdown_rx) = ShutdownCoordinator::new();
+    coordinator.set_expect_report(expect_report);
     let logs_service = LogsServiceImpl {
         tx: tx.clone(),
         activity_tx: activity_tx.clone(),
diff --git a/src/registry/otlp/otlp_ingester.rs b/src/registry/otlp/otlp_ingester.rs
index 2bfe1b6..a5fca89 100644
--- a/src/registry/otlp/otlp_ingester.rs
+++ b/src/registry/otlp/otlp_ingester.rs
@@ -18,7 +18,7 @@ use super::{
         otlp_profile_to_sample, sample_attribute_from_key_value, span_kind_from_otlp_kind,
         status_from_otlp_status,
     },
-    listen_otlp_requests, OtlpRequest, ShutdownCoordinator,
+    listen_otlp_requests_for, OtlpRequest, ShutdownCoordinator,
 };
 
 /// An ingester for OTLP data
@@ -31,6 +31,8 @@ pub struct OtlpIngester {
     pub admin_port: u16,
     /// The inactivity timeout
     pub inactivity_timeout: u64,
+    /// Whether the caller delivers a report for `/stop` to answer with
+    pub expect_report: bool,
 }
 
 /// Iterator for OTLP samples
@@ -282,11 +284,12 @@ impl OtlpIngester {
     pub fn ingest_otlp(
         &self,
     ) -> Result<(Box<dyn Iterator<Item = Sample>>, ShutdownCoordinator), Error> {
-        let (otlp_requests, coordinator) = listen_otlp_requests(
+        let (otlp_requests, coordinator) = listen_otlp_requests_for(
             self.otlp_grpc_address.as_str(),
             self.otlp_grpc_port,
             self.admin_port,
             Duration::from_secs(self.inactivity_timeout),
+            self.expect_report,
         )
         .map_err(|e| Error::IngestError {
             error: format!("Failed to listen to OTLP requests: {e}"),
-- 
2.43.0


From 554e574258ac0f96ca5dd5c603fff3b65c79288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:02 +0000
Subject: [PATCH 20/27] fix: accept weaver.yaml files with generate's --config

The option had the identifier of the global --config, so every weaver.yaml given was read as a
.weaver.toml and refused, and a .weaver.toml given globally was taken for a weaver.yaml.

(cherry picked from commit a69ed6a4bba07c29435436843be3aca66b688646)
---
 src/registry/generate.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/registry/generate.rs b/src/registry/generate.rs
index f8ee0a8..588ef4a 100644
--- a/src/registry/generate.rs
+++ b/src/registry/generate.rs
@@ -26,6 +26,14 @@ use weaver_macros::weaver_command;
 /// Generate artifacts from a semantic convention registry using Jinja templates.
 #[weaver_command(section = "generate")]
 #[derive(Debug, Args, WeaverCommand)]
+// Here `--config` names `weaver.yaml` files, so the global `--config` (the `.weaver.toml` file)
+// is `-C` after this subcommand, and neither is mistaken for the other.
+#[command(arg(
+    clap::Arg::new("config")
+        .short('C')
+        .value_parser(clap::value_parser!(PathBuf))
+        .hide(true)
+))]
 pub struct RegistryGenerateArgs {
     /// Target to generate the artifacts for.
     #[config_only(default = "")]
@@ -44,7 +52,12 @@ pub struct RegistryGenerateArgs {
 
     /// List of `weaver.yaml` configuration files to use. When there is a conflict, the last one
     /// will override the previous ones for the keys that are defined in both.
-    #[arg(short = 'c', long)]
+    #[arg(
+        id = "template_config",
+        short = 'c',
+        long = "config",
+        value_name = "CONFIG"
+    )]
     pub config: Option<Vec<PathBuf>>,
 
     /// Parameters key=value, defined in the command line, to pass to the templates.
-- 
2.43.0


From 24251d70d6cdb843da599cf2f81f5240c30e6a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:54 +0000
Subject: [PATCH 21/27] fix: leave file names out of a template's auto-escaping

With auto_escape html or json the rendered file_name was escaped as well, so that {{ ctx }}.json
was written to "name".json and a slash became part of the name.

(cherry picked from commit 7c56adec4307c2d9488745a6695f43ef01f50fde)
---
 crates/weaver_forge/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_forge/src/lib.rs b/crates/weaver_forge/src/lib.rs
index 45911b8..27cbcec 100644
--- a/crates/weaver_forge/src/lib.rs
+++ b/crates/weaver_forge/src/lib.rs
@@ -678,7 +678,8 @@ impl TemplateEngine {
         file_path_config: Option<&String>,
         auto_escape: &AutoEscapeMode,
     ) -> Result<(String, TemplateObject), Error> {
-        let mut engine = self.template_engine(auto_escape)?;
+        // The auto-escape mode is for the output of the template, not for its file name.
+        let mut engine = self.template_engine(&AutoEscapeMode::None)?;
 
         // Add the Weaver parameters to the template context
         engine.add_global(
@@ -715,6 +716,8 @@ impl TemplateEngine {
             template: template_path.to_path_buf(),
             error: "".to_owned(),
         })?;
+        let auto_escape_mode = minijinja::AutoEscape::from(auto_escape);
+        engine.set_auto_escape_callback(move |_| auto_escape_mode);
 
         // Add the handler to programmatically set the file name of the generated file
         // from the template.
-- 
2.43.0


From 06137576641872155db678ace80416d8f0608cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 22/27] fix: report policy findings along with a fatal error of
 a check

---
 src/registry/check.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/registry/check.rs b/src/registry/check.rs
index d575ee1..0d87181 100644
--- a/src/registry/check.rs
+++ b/src/registry/check.rs
@@ -7,7 +7,7 @@ use crate::weaver::WeaverEngine;
 use crate::{DiagnosticArgs, ExitDirectives};
 use clap::Args;
 use log::info;
-use weaver_common::diagnostic::DiagnosticMessages;
+use weaver_common::diagnostic::{DiagnosticMessages, ResultExt};
 use weaver_common::http_auth::HttpAuthResolver;
 use weaver_common::vdir::VirtualDirectoryPath;
 use weaver_config::{WeaverCommand, WeaverConfig};
@@ -56,14 +56,22 @@ pub(crate) fn command(
     );
 
     // Initialize the main registry.
-    let main_resolved = weaver.load_and_resolve_main(&mut diag_msgs)?;
+    // Whatever was found before a fatal error is reported along with it.
+    let main_resolved = weaver
+        .load_and_resolve_main(&mut diag_msgs)
+        .combine_diag_msgs_with(&diag_msgs)?;
 
     // Initialize the baseline registry if provided.
     let baseline = if let Some(br) = args.baseline_registry.as_ref() {
         // ignore non-fatal loading warnings for baseline.
         let mut ignored = DiagnosticMessages::empty();
-        let registry_repo = RegistryRepo::try_new_with_auth(None, br, &mut vec![], auth)?;
-        Some(weaver.load_and_resolve_repo(registry_repo, &mut ignored)?)
+        let registry_repo = RegistryRepo::try_new_with_auth(None, br, &mut vec![], auth)
+            .combine_diag_msgs_with(&diag_msgs)?;
+        Some(
+            weaver
+                .load_and_resolve_repo(registry_repo, &mut ignored)
+                .combine_diag_msgs_with(&diag_msgs)?,
+        )
     } else {
         None
     };
@@ -71,7 +79,9 @@ pub(crate) fn command(
     main_resolved.check_after_resolution_policy(&mut diag_msgs)?;
     // Now the comparison.
     if let Some(b) = baseline {
-        main_resolved.check_comparison_after_resolution(&b, &mut diag_msgs)?;
+        main_resolved
+            .check_comparison_after_resolution(&b, &mut diag_msgs)
+            .combine_diag_msgs_with(&diag_msgs)?;
     }
 
     if !diag_msgs.is_empty() {
-- 
2.43.0


From d94582064a3e39c2a9d7524b875586853665bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 23/27] fix: let OTEL_EXPORTER_OTLP_ENDPOINT override the
 endpoint of registry emit

---
 crates/weaver_emit/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/weaver_emit/src/lib.rs b/crates/weaver_emit/src/lib.rs
index 6500cd9..fbf9293 100644
--- a/crates/weaver_emit/src/lib.rs
+++ b/crates/weaver_emit/src/lib.rs
@@ -65,12 +65,21 @@ impl From<Error> for DiagnosticMessages {
     }
 }
 
+/// The endpoint to send to: the standard OTEL_EXPORTER_OTLP_ENDPOINT env var when it is set,
+/// the configured endpoint otherwise.
+fn otlp_endpoint(endpoint: &str) -> String {
+    std::env::var("OTEL_EXPORTER_OTLP_ENDPOINT")
+        .ok()
+        .filter(|value| !value.is_empty())
+        .unwrap_or_else(|| endpoint.to_owned())
+}
+
 /// Initialise a grpc OTLP exporter, sends to by default http://localhost:4317
 /// but can be overridden with the standard OTEL_EXPORTER_OTLP_ENDPOINT env var.
 fn init_tracer_provider(endpoint: &String) -> Result<SdkTracerProvider, ExporterBuildError> {
     let exporter = opentelemetry_otlp::SpanExporter::builder()
         .with_tonic()
-        .with_endpoint(endpoint)
+        .with_endpoint(otlp_endpoint(endpoint))
         .build()?;
     Ok(SdkTracerProvider::builder()
         .with_resource(
@@ -103,7 +112,7 @@ fn init_meter_provider(endpoint: &String) -> Result<SdkMeterProvider, ExporterBu
 
     let exporter = MetricExporter::builder()
         .with_tonic()
-        .with_endpoint(endpoint)
+        .with_endpoint(otlp_endpoint(endpoint))
         .build()?;
 
     let reader = PeriodicReader::builder(exporter).build();
@@ -140,7 +149,7 @@ fn init_logger_provider(
 
     let exporter = opentelemetry_otlp::LogExporter::builder()
         .with_tonic()
-        .with_endpoint(endpoint)
+        .with_endpoint(otlp_endpoint(endpoint))
         .build()?;
 
     Ok(opentelemetry_sdk::logs::SdkLoggerProvider::builder()
-- 
2.43.0


From 13dc713732bcbf1177c0bc8afe2414702dea9177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 24/27] fix: serve and mcp resolve the dependencies of the
 registry they convert

---
 src/weaver.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/weaver.rs b/src/weaver.rs
index 8ac8402..1ff2944 100644
--- a/src/weaver.rs
+++ b/src/weaver.rs
@@ -182,6 +182,7 @@ impl<'a> WeaverEngine<'a> {
                     template_schema: template,
                     registry_path_repr,
                     policy_engine,
+                    resolver,
                 })
             }
             WeaverResolvedSchema::V2(resolved) => {
@@ -271,6 +272,8 @@ pub struct ResolvedV1 {
     template_schema: ResolvedRegistry,
     registry_path_repr: String,
     policy_engine: Option<Engine>,
+    /// The resolver this registry was resolved with: it knows the dependencies.
+    resolver: WeaverResolver,
 }
 impl ResolvedV1 {
     /// Returns a reference to the resolved schema.
@@ -460,14 +463,13 @@ impl ResolvedV2 {
 impl TryFrom<ResolvedV1> for ResolvedV2 {
     type Error = Error;
 
-    fn try_from(value: ResolvedV1) -> Result<Self, Self::Error> {
+    fn try_from(mut value: ResolvedV1) -> Result<Self, Self::Error> {
         let resolved_schema: weaver_resolved_schema::v2::ResolvedTelemetrySchema =
             value.resolved_schema.try_into()?;
-        let mut null_resolver = weaver_resolver::NullSchemaResolver;
         let template_schema =
             match weaver_forge::v2::registry::ForgeResolvedRegistry::try_from_resolved_schema(
                 resolved_schema.clone(),
-                &mut null_resolver,
+                &mut value.resolver,
             ) {
                 WResult::Ok(t) => t,
                 WResult::OkWithNFEs(t, _) => t,
-- 
2.43.0


From b78c9a3778ad347616804acedf811d70a797032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:53 +0000
Subject: [PATCH 25/27] fix: let the get_attribute tool find template
 attributes

---
 crates/weaver_mcp/src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_mcp/src/service.rs b/crates/weaver_mcp/src/service.rs
index 90ee3fc..b799a33 100644
--- a/crates/weaver_mcp/src/service.rs
+++ b/crates/weaver_mcp/src/service.rs
@@ -418,7 +418,11 @@ impl WeaverMcpService {
                        full documentation."
     )]
     fn get_attribute(&self, Parameters(params): Parameters<GetAttributeParams>) -> String {
-        match self.search_context.get_attribute(&params.key) {
+        match self
+            .search_context
+            .get_attribute(&params.key)
+            .or_else(|| self.search_context.get_template(&params.key))
+        {
             Some(attr) => serde_json::to_string_pretty(attr.as_ref())
                 .unwrap_or_else(|e| format!("Error: {e}")),
             None => format!("Attribute '{}' not found in registry", params.key),
-- 
2.43.0


From 80516a2bcc6f854d1644d9bcba57aec1d1c3d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:53 +0000
Subject: [PATCH 26/27] fix: report every finding in the compact output of the
 live_check tool

---
 crates/weaver_mcp/src/service.rs | 214 ++++++++++++++++++++-----------
 1 file changed, 137 insertions(+), 77 deletions(-)

diff --git a/crates/weaver_mcp/src/service.rs b/crates/weaver_mcp/src/service.rs
index b799a33..475f0c5 100644
--- a/crates/weaver_mcp/src/service.rs
+++ b/crates/weaver_mcp/src/service.rs
@@ -19,6 +19,8 @@ use weaver_live_check::advice::{
     Advisor, DeprecatedAdvisor, EnumAdvisor, RegoAdvisor, StabilityAdvisor, TypeAdvisor,
 };
 use weaver_live_check::live_checker::LiveChecker;
+use weaver_live_check::sample_attribute::SampleAttribute;
+use weaver_live_check::sample_metric::{DataPoints, SampleExemplar};
 use weaver_live_check::{
     DisabledStatistics, LiveCheckResult, LiveCheckRunner, LiveCheckStatistics, Sample,
     VersionedRegistry,
@@ -122,9 +124,7 @@ fn extract_findings(result: &Option<LiveCheckResult>) -> Vec<serde_json::Value>
 }
 
 /// Extract actionable findings from all attributes in a slice.
-fn extract_attr_findings(
-    attrs: &[weaver_live_check::sample_attribute::SampleAttribute],
-) -> Vec<serde_json::Value> {
+fn extract_attr_findings(attrs: &[SampleAttribute]) -> Vec<serde_json::Value> {
     let mut out = Vec::new();
     for a in attrs {
         let findings = extract_findings(&a.live_check_result);
@@ -138,84 +138,138 @@ fn extract_attr_findings(
     out
 }
 
-/// Collect compact findings from all samples. Returns one entry per sample that has findings.
-fn collect_compact_findings(samples: &[Sample]) -> Vec<serde_json::Value> {
+/// A compact entry for one part of a sample, if there is anything to report about it.
+fn compact_entry(
+    kind: &str,
+    name: Option<&str>,
+    result: &Option<LiveCheckResult>,
+    attributes: &[SampleAttribute],
+) -> Option<serde_json::Value> {
+    let findings = extract_findings(result);
+    let attribute_findings = extract_attr_findings(attributes);
+    if findings.is_empty() && attribute_findings.is_empty() {
+        return None;
+    }
+    let mut entry = json!({
+        "type": kind,
+        "findings": findings,
+        "attribute_findings": attribute_findings,
+    });
+    if let Some(name) = name {
+        entry["name"] = json!(name);
+    }
+    Some(entry)
+}
+
+/// Compact entries for a metric data point and its exemplars.
+fn collect_data_point(
+    result: &Option<LiveCheckResult>,
+    attributes: &[SampleAttribute],
+    exemplars: &[SampleExemplar],
+    out: &mut Vec<serde_json::Value>,
+) {
+    out.extend(compact_entry("data_point", None, result, attributes));
+    for e in exemplars {
+        out.extend(compact_entry(
+            "exemplar",
+            None,
+            &e.live_check_result,
+            &e.filtered_attributes,
+        ));
+    }
+}
+
+/// Collect compact findings from a sample: one entry per part of it (the sample itself, its
+/// span events and links, its data points and exemplars) that has findings.
+fn collect_compact_findings(sample: &Sample) -> Vec<serde_json::Value> {
     let mut out = Vec::new();
-    for sample in samples {
-        match sample {
-            Sample::Attribute(a) => {
-                let findings = extract_findings(&a.live_check_result);
-                if !findings.is_empty() {
-                    out.push(json!({"name": a.name, "findings": findings}));
-                }
-            }
-            Sample::Span(s) => {
-                let mut parts = extract_findings(&s.live_check_result);
-                let attr_findings = extract_attr_findings(&s.attributes);
-                if !parts.is_empty() || !attr_findings.is_empty() {
-                    out.push(json!({
-                        "type": "span",
-                        "findings": parts,
-                        "attribute_findings": attr_findings,
-                    }));
-                }
-                // Check nested span events/links attributes
-                for evt in &s.span_events {
-                    parts = extract_attr_findings(&evt.attributes);
-                    if !parts.is_empty() {
-                        out.push(json!({"type": "span_event", "attribute_findings": parts}));
-                    }
-                }
+    match sample {
+        Sample::Attribute(a) => {
+            let findings = extract_findings(&a.live_check_result);
+            if !findings.is_empty() {
+                out.push(json!({"name": a.name, "findings": findings}));
             }
-            Sample::SpanEvent(e) => {
-                let parts = extract_attr_findings(&e.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "span_event", "attribute_findings": parts}));
-                }
-            }
-            Sample::SpanLink(l) => {
-                let parts = extract_attr_findings(&l.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "span_link", "attribute_findings": parts}));
-                }
-            }
-            Sample::Resource(r) => {
-                let parts = extract_attr_findings(&r.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "resource", "attribute_findings": parts}));
-                }
-            }
-            Sample::InstrumentationScope(scope) => {
-                let findings = extract_findings(&scope.live_check_result);
-                let attr_findings = extract_attr_findings(&scope.attributes);
-                if !findings.is_empty() || !attr_findings.is_empty() {
-                    out.push(json!({
-                        "name": scope.name,
-                        "type": "instrumentation_scope",
-                        "findings": findings,
-                        "attribute_findings": attr_findings,
-                    }));
-                }
-            }
-            Sample::Metric(m) => {
-                let findings = extract_findings(&m.live_check_result);
-                if !findings.is_empty() {
-                    out.push(json!({"name": m.name, "type": "metric", "findings": findings}));
-                }
+        }
+        Sample::Span(s) => {
+            out.extend(compact_entry(
+                "span",
+                None,
+                &s.live_check_result,
+                &s.attributes,
+            ));
+            for e in &s.span_events {
+                out.extend(compact_entry(
+                    "span_event",
+                    None,
+                    &e.live_check_result,
+                    &e.attributes,
+                ));
             }
-            Sample::Log(l) => {
-                let parts = extract_attr_findings(&l.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "log", "attribute_findings": parts}));
-                }
+            for l in &s.span_links {
+                out.extend(compact_entry(
+                    "span_link",
+                    None,
+                    &l.live_check_result,
+                    &l.attributes,
+                ));
             }
-            Sample::Profile(p) => {
-                let parts = extract_attr_findings(&p.attributes);
-                if !parts.is_empty() {
-                    out.push(json!({"type": "profile", "attribute_findings": parts}));
-                }
+        }
+        Sample::SpanEvent(e) => out.extend(compact_entry(
+            "span_event",
+            None,
+            &e.live_check_result,
+            &e.attributes,
+        )),
+        Sample::SpanLink(l) => out.extend(compact_entry(
+            "span_link",
+            None,
+            &l.live_check_result,
+            &l.attributes,
+        )),
+        Sample::Resource(r) => out.extend(compact_entry(
+            "resource",
+            None,
+            &r.live_check_result,
+            &r.attributes,
+        )),
+        Sample::InstrumentationScope(scope) => out.extend(compact_entry(
+            "instrumentation_scope",
+            Some(&scope.name),
+            &scope.live_check_result,
+            &scope.attributes,
+        )),
+        Sample::Metric(m) => {
+            out.extend(compact_entry(
+                "metric",
+                Some(&m.name),
+                &m.live_check_result,
+                &[],
+            ));
+            match &m.data_points {
+                Some(DataPoints::Number(points)) => points.iter().for_each(|p| {
+                    collect_data_point(&p.live_check_result, &p.attributes, &p.exemplars, &mut out);
+                }),
+                Some(DataPoints::Histogram(points)) => points.iter().for_each(|p| {
+                    collect_data_point(&p.live_check_result, &p.attributes, &p.exemplars, &mut out);
+                }),
+                Some(DataPoints::ExponentialHistogram(points)) => points.iter().for_each(|p| {
+                    collect_data_point(&p.live_check_result, &p.attributes, &p.exemplars, &mut out);
+                }),
+                None => {}
             }
         }
+        Sample::Log(l) => out.extend(compact_entry(
+            "log",
+            None,
+            &l.live_check_result,
+            &l.attributes,
+        )),
+        Sample::Profile(p) => out.extend(compact_entry(
+            "profile",
+            None,
+            &p.live_check_result,
+            &p.attributes,
+        )),
     }
     out
 }
@@ -525,12 +579,18 @@ impl WeaverMcpService {
                 serde_json::to_string_pretty(&samples).unwrap_or_else(|e| format!("Error: {e}"))
             }
             LiveCheckOutput::FindingsOnly => {
-                let findings = collect_compact_findings(&samples);
+                let findings: Vec<Vec<serde_json::Value>> = samples
+                    .iter()
+                    .map(collect_compact_findings)
+                    .filter(|entries| !entries.is_empty())
+                    .collect();
+                let samples_with_findings = findings.len();
+                let findings: Vec<serde_json::Value> = findings.into_iter().flatten().collect();
                 let total = samples.len();
                 let result_json = json!({
                     "findings": findings,
                     "total_samples_checked": total,
-                    "samples_with_findings": findings.len(),
+                    "samples_with_findings": samples_with_findings,
                 });
                 serde_json::to_string_pretty(&result_json).unwrap_or_else(|e| format!("Error: {e}"))
             }
-- 
2.43.0


From 2577ab450cd4187bfb280a68e6eab5554220d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:07 +0000
Subject: [PATCH 27/27] fix: check samples given to the live_check tool against
 the resource before them

---
 crates/weaver_mcp/src/service.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/weaver_mcp/src/service.rs b/crates/weaver_mcp/src/service.rs
index 475f0c5..fb235ac 100644
--- a/crates/weaver_mcp/src/service.rs
+++ b/crates/weaver_mcp/src/service.rs
@@ -6,6 +6,7 @@
 //! for querying, debugging and validating against the semantic convention registry.
 
 use std::path::PathBuf;
+use std::rc::Rc;
 use std::sync::Arc;
 
 use rmcp::handler::server::wrapper::Parameters;
@@ -21,6 +22,7 @@ use weaver_live_check::advice::{
 use weaver_live_check::live_checker::LiveChecker;
 use weaver_live_check::sample_attribute::SampleAttribute;
 use weaver_live_check::sample_metric::{DataPoints, SampleExemplar};
+use weaver_live_check::sample_resource::SampleResource;
 use weaver_live_check::{
     DisabledStatistics, LiveCheckResult, LiveCheckRunner, LiveCheckStatistics, Sample,
     VersionedRegistry,
@@ -564,8 +566,17 @@ impl WeaverMcpService {
             Err(e) => return format!("Failed to create live checker: {e}"),
         };
 
-        // Run live check on each sample (mutates samples in place)
+        // Run live check on each sample (mutates samples in place). As in `registry live-check`,
+        // a signal belongs to the most recent resource before it.
+        let mut current_resource: Option<Rc<SampleResource>> = None;
         for sample in &mut samples {
+            match sample {
+                Sample::Resource(r) => current_resource = Some(Rc::new(r.clone())),
+                Sample::Metric(m) => m.resource.clone_from(&current_resource),
+                Sample::Log(l) => l.resource.clone_from(&current_resource),
+                Sample::Span(s) => s.resource.clone_from(&current_resource),
+                _ => {}
+            }
             let sample_clone: Sample = sample.clone();
             if let Err(e) =
                 sample.run_live_check(&mut live_checker, &mut stats, None, &sample_clone)
-- 
2.43.0

