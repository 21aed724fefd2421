From 7996bc775626494234911291d5a391ddb2c94d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 01/52] fix: adding @index to a @graph+@set container gives
 @graph+@index+@set

---
 crates/core/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/container.rs b/crates/core/src/container.rs
index a604816..07b0fac 100644
--- a/crates/core/src/container.rs
+++ b/crates/core/src/container.rs
@@ -140,7 +140,7 @@ impl Container {
 			(Container::GraphSet, ContainerKind::Graph) => *self,
 			(Container::GraphSet, ContainerKind::Set) => *self,
 			(Container::GraphSet, ContainerKind::Id) => Container::GraphIdSet,
-			(Container::GraphSet, ContainerKind::Index) => Container::GraphIdSet,
+			(Container::GraphSet, ContainerKind::Index) => Container::GraphIndexSet,
 			(Container::GraphId, ContainerKind::Graph) => *self,
 			(Container::GraphId, ContainerKind::Id) => *self,
 			(Container::GraphId, ContainerKind::Set) => Container::GraphIdSet,
-- 
2.43.0


From b5b83626331737a4607798a1bdcd4ec69ed32049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 02/52] fix: reject unexpected entries when reading an expanded
 value object

---
 crates/core/src/object/value.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/object/value.rs b/crates/core/src/object/value.rs
index 9f3934b..5b50593 100644
--- a/crates/core/src/object/value.rs
+++ b/crates/core/src/object/value.rs
@@ -267,6 +267,7 @@ impl<T> Value<T> {
 			.map_err(InvalidExpandedJson::duplicate_key)?
 		{
 			Some(type_entry) => match type_entry.value {
+				_ if !object.is_empty() => Err(InvalidExpandedJson::UnexpectedEntry),
 				json_syntax::Value::String(ty) => match ty.as_str() {
 					"@json" => Ok(Self::Json(value_entry.value)),
 					iri => match Iri::new(iri) {
@@ -297,9 +298,11 @@ impl<T> Value<T> {
 						language,
 						direction,
 					)?))
-				} else {
+				} else if object.is_empty() {
 					let lit = value_entry.value.try_into()?;
 					Ok(Self::Literal(lit, None))
+				} else {
+					Err(InvalidExpandedJson::UnexpectedEntry)
 				}
 			}
 		}
-- 
2.43.0


From ccb65905878c4ecd206e8a0ba8d434591e7c7cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:12 +0000
Subject: [PATCH 03/52] fix: write the @included entry of a node object under
 its name

---
 crates/core/src/object/node/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index a49dc38..5741335 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -1319,7 +1319,7 @@ impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for Node<
 
 		if let Some(included) = self.included {
 			obj.insert(
-				"@include".into(),
+				"@included".into(),
 				included.into_with(vocabulary).into_json(),
 			);
 		}
-- 
2.43.0


From 0fcc99f642168bf128e27785f6fa312b3eeb7fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 04/52] fix: do not panic on a term without IRI mapping
 declared as a prefix

---
 crates/context-processing/src/algorithm/define.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 13125f0..87b1056 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -415,10 +415,11 @@ where
 									// `definition` to true.
 									if !key.as_str().contains(':')
 										&& !key.as_str().contains('/') && simple_term
-										&& is_gen_delim_or_blank(
-											env.vocabulary,
-											definition.value.as_ref().unwrap(),
-										) {
+										&& definition
+											.value
+											.as_ref()
+											.is_some_and(|t| is_gen_delim_or_blank(env.vocabulary, t))
+									{
 										definition.prefix = true;
 									}
 								}
@@ -737,7 +738,9 @@ where
 						// If the `prefix` flag of `definition` is set to `true`, and its IRI
 						// mapping is a keyword, an invalid term definition has been detected and
 						// processing is aborted.
-						if definition.prefix && definition.value.as_ref().unwrap().is_keyword() {
+						if definition.prefix
+							&& definition.value.as_ref().is_some_and(Term::is_keyword)
+						{
 							return Err(Error::InvalidTermDefinition);
 						}
 					}
-- 
2.43.0


From cfec21b587ec160c2f1477df6f2591f69ee5cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 05/52] fix: the context-level @protected entry also protects
 @type

---
 crates/context-processing/src/algorithm/define.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 87b1056..a93b2c2 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -135,7 +135,7 @@ where
 					// Checked during parsing.
 					let mut definition = TypeTermDefinition {
 						container: d.container,
-						..Default::default()
+						protected,
 					};
 
 					if let Some(protected) = d.protected {
-- 
2.43.0


From d07595713d10f47b51d1ba9aecb3f02788e5e4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 06/52] fix: a term cannot be mapped to a term that is itself
 mapped to null

---
 crates/context-processing/src/algorithm/define.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index a93b2c2..fc0c9e1 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -363,6 +363,10 @@ where
 											// been detected and processing is aborted.
 											return Err(Error::InvalidKeywordAlias);
 										}
+										Some(Term::Null) => {
+											// A term mapped to null has no IRI to offer.
+											return Err(Error::InvalidIriMapping);
+										}
 										Some(Term::Id(prop)) if !prop.is_valid() => {
 											// If the resulting IRI mapping is neither a keyword,
 											// nor an IRI, nor a blank node identifier, an
-- 
2.43.0


From b48ae7a6242af26aae53ef6c42697b081112417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 07/52] fix: refuse to redefine keywords and ignore
 keyword-like terms

---
 .../context-processing/src/algorithm/define.rs   | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index fc0c9e1..71484a4 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -170,6 +170,22 @@ where
 				}
 				EntryValueRef::Definition(d) => {
 					let key = term.as_key().unwrap();
+
+					// Since keywords cannot be overridden, term MUST NOT be a keyword and a
+					// keyword redefinition error has been detected and processing is aborted.
+					if Keyword::try_from(key.as_str()).is_ok() {
+						return Err(Error::KeywordRedefinition);
+					}
+
+					// If term has the form of a keyword, return; processors SHOULD generate a
+					// warning.
+					if key.is_keyword_like() {
+						env.warnings
+							.handle(env.vocabulary, Warning::KeywordLikeTerm(key.to_string()));
+						defined.end(&term);
+						return Ok(());
+					}
+
 					// Initialize `previous_definition` to any existing term definition for `term` in
 					// `active_context`, removing that term definition from active context.
 					let previous_definition = active_context.set_normal(key.clone(), None);
-- 
2.43.0


From 8972af2725db837ae5d4b192ec61337e2b63443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:50 +0000
Subject: [PATCH 08/52] fix: an empty IRI is only an empty term where the
 context defines one

---
 crates/context-processing/src/algorithm/define.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 71484a4..0d089f6 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -104,13 +104,13 @@ where
 {
 	let term = term.to_owned();
 	if defined.begin(&term)? {
-		if term.is_empty() {
-			return Err(Error::InvalidTermDefinition);
-		}
-
 		// Initialize `value` to a copy of the value associated with the entry `term` in
 		// `local_context`.
 		if let Some(value) = local_context.get(&term) {
+			if term.is_empty() {
+				return Err(Error::InvalidTermDefinition);
+			}
+
 			// Set the value associated with defined's term entry to false.
 			// This indicates that the term definition is now being created but is not yet
 			// complete.
-- 
2.43.0


From 8be0eaf52462bde70ce7b081261bc80118ee4769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:51 +0000
Subject: [PATCH 09/52] fix: a remote context is not an ancestor of the
 contexts listed after it

---
 crates/context-processing/src/algorithm/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index caaa5ed..58a3389 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -74,7 +74,7 @@ async fn process_context<'l: 'a, 'a, N, L, W>(
 	mut env: Environment<'a, N, L, W>,
 	active_context: &'a Context<N::Iri, N::BlankId>,
 	local_context: &'l syntax::context::Context,
-	mut remote_contexts: ProcessingStack<N::Iri>,
+	remote_contexts: ProcessingStack<N::Iri>,
 	base_url: Option<N::Iri>,
 	mut options: Options,
 ) -> ProcessingResult<'l, N::Iri, N::BlankId>
@@ -165,7 +165,10 @@ where
 				// If the document has no top-level map with an @context entry, an invalid remote
 				// context has been detected and processing is aborted.
 				// Set loaded context to the value of that entry.
-				if remote_contexts.push(context_iri.clone()) {
+				// The document is only added for the contexts it includes: the contexts that
+				// follow the reference are not part of it.
+				let mut document_contexts = remote_contexts.clone();
+				if document_contexts.push(context_iri.clone()) {
 					let loaded_context = env
 						.loader
 						.load_with(env.vocabulary, context_iri.clone())
@@ -192,7 +195,7 @@ where
 						},
 						&result,
 						&loaded_context,
-						remote_contexts.clone(),
+						document_contexts,
 						Some(context_iri),
 						new_options,
 					))
-- 
2.43.0


From 61aa7d305928e6f18685727e6dbb5ad7813ce708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:46 +0000
Subject: [PATCH 10/52] fix: compare node types in mapped equality

---
 crates/core/src/object/mapped_eq.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/object/mapped_eq.rs b/crates/core/src/object/mapped_eq.rs
index 42045b2..02bf58d 100644
--- a/crates/core/src/object/mapped_eq.rs
+++ b/crates/core/src/object/mapped_eq.rs
@@ -257,7 +257,14 @@ impl<T: Eq + Hash, B: Eq + Hash> MappedEq for super::Node<T, B> {
 	where
 		B: 'a + 'b,
 	{
-		opt_mapped_eq(self.id.as_ref(), other.id.as_ref(), f.clone())
+		let types_eq = match (&self.types, &other.types) {
+			(Some(a), Some(b)) => a.unordered_mapped_eq(b, f.clone()),
+			(None, None) => true,
+			_ => false,
+		};
+
+		types_eq
+			&& opt_mapped_eq(self.id.as_ref(), other.id.as_ref(), f.clone())
 			&& opt_mapped_eq(self.included_entry(), other.included_entry(), f.clone())
 			&& opt_mapped_eq(self.graph_entry(), other.graph_entry(), f.clone())
 			&& self.properties().mapped_eq(other.properties(), f.clone())
-- 
2.43.0


From 57179322a5ed47074be6ba25f460560a42cc729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:34 +0000
Subject: [PATCH 11/52] fix: expand the entries of @reverse with the whole
 expansion algorithm

---
 crates/expansion/src/element.rs |   8 ++
 crates/expansion/src/node.rs    | 139 ++++++++++----------------------
 2 files changed, 50 insertions(+), 97 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index a96e6ef..69fa265 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -332,6 +332,14 @@ where
 
 				if let Some(expanded_key) = expanded_key {
 					match &expanded_key {
+						// If `active_property` equals `@reverse`, an invalid reverse
+						// property map error has been detected.
+						Term::Keyword(keyword)
+							if active_property == Keyword::Reverse
+								&& *keyword != Keyword::Context =>
+						{
+							return Err(Error::InvalidReversePropertyMap)
+						}
 						Term::Keyword(Keyword::Value) => value_entry = Some(value.clone()),
 						Term::Keyword(Keyword::List) => {
 							if active_property.is_some() && active_property != Keyword::Graph {
diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 8be89eb..08d48b0 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -304,110 +304,55 @@ where
 					Keyword::Reverse => {
 						// If value is not a map, an invalid @reverse value error
 						// has been detected and processing is aborted.
-						if let Some(value) = value.as_object() {
-							let mut reverse_entries: Vec<&Entry> = value.iter().collect();
-
-							if options.ordered {
-								reverse_entries.sort_by_key(|entry| &entry.key)
-							}
-
-							for Entry {
-								key: reverse_key,
-								value: reverse_value,
-							} in reverse_entries
-							{
-								match expand_iri(
-									&mut env,
-									active_context,
-									Nullable::Some(reverse_key.as_str().into()),
-									false,
-									Some(options.policy.vocab),
-								)? {
-									Some(Term::Keyword(_)) => {
-										return Err(Error::InvalidReversePropertyMap)
-									}
-									Some(Term::Id(reverse_prop))
-										if reverse_prop
-											.with(&*env.vocabulary)
-											.as_str()
-											.contains(':') =>
-									{
-										if !reverse_prop.is_valid() {
-											match options.policy.invalid {
-												Action::Keep => (),
-												Action::Drop => continue,
-												Action::Reject => {
-													return Err(Error::KeyExpansionFailed(
-														reverse_key.to_string(),
-													))
-												}
-											}
-										}
+						if value.is_object() {
+							// Set `expanded_value` to the result of using this algorithm
+							// recursively, passing `active_context`, `@reverse` as active
+							// property, `value` as element and `base_url`.
+							let expanded_value = Box::pin(expand_element(
+								Environment {
+									vocabulary: env.vocabulary,
+									loader: env.loader,
+									warnings: env.warnings,
+								},
+								active_context,
+								ActiveProperty::Some("@reverse"),
+								value,
+								base_url,
+								options,
+								false,
+							))
+							.await?;
 
-										let reverse_expanded_value = Box::pin(expand_element(
-											Environment {
-												vocabulary: env.vocabulary,
-												loader: env.loader,
-												warnings: env.warnings,
-											},
-											active_context,
-											ActiveProperty::Some(reverse_key.as_ref()),
-											reverse_value,
-											base_url,
-											options,
-											false,
-										))
-										.await?;
+							for object in expanded_value {
+								let Object::Node(node) = object.into_inner() else {
+									return Err(Error::InvalidReversePropertyMap);
+								};
 
-										let is_double_reversed =
-											if let Some(reverse_key_definition) =
-												active_context.get(reverse_key.as_str())
-											{
-												reverse_key_definition.reverse_property()
-											} else {
-												false
-											};
+								// The entries that are reversed twice are properties of
+								// `result`.
+								for (prop, nodes) in node.reverse_properties.into_iter().flatten() {
+									result.insert_all(
+										prop,
+										nodes.into_iter().map(|node| node.map_inner(Object::node)),
+									)
+								}
 
-										if is_double_reversed {
-											result.insert_all(
-												reverse_prop,
-												reverse_expanded_value.into_iter(),
-											)
-										} else {
-											let mut reverse_expanded_nodes = Vec::new();
-											for object in reverse_expanded_value {
-												match object.try_cast::<Node<N::Iri, N::BlankId>>()
-												{
-													Ok(node) => reverse_expanded_nodes.push(node),
-													Err(_) => {
-														return Err(
-															Error::InvalidReversePropertyValue,
-														)
-													}
-												}
+								// All the others are reverse properties, whose values must
+								// be nodes.
+								for (reverse_prop, objects) in node.properties {
+									let mut reverse_nodes = Vec::new();
+									for object in objects {
+										match object.try_cast::<Node<N::Iri, N::BlankId>>() {
+											Ok(node) => reverse_nodes.push(node),
+											Err(_) => {
+												return Err(Error::InvalidReversePropertyValue)
 											}
-
-											result.reverse_properties_or_default().insert_all(
-												reverse_prop,
-												reverse_expanded_nodes.into_iter(),
-											)
 										}
 									}
-									_ => {
-										if options.policy.invalid.is_reject() {
-											return Err(Error::KeyExpansionFailed(
-												reverse_key.to_string(),
-											));
-										}
 
-										if !options.policy.allow_undefined {
-											return Err(Error::KeyExpansionFailed(
-												reverse_key.to_string(),
-											));
-										}
-
-										// otherwise the key is just dropped.
-									}
+									result
+										.reverse_properties_or_default()
+										.insert_all(reverse_prop, reverse_nodes.into_iter());
 								}
 							}
 						} else {
-- 
2.43.0


From 14874ee6b665d444772587742074cfc5d9eb3ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:32 +0000
Subject: [PATCH 12/52] fix: ignore @context and undefined entries in value,
 list and set objects

---
 crates/expansion/src/element.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 69fa265..dbba59d 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -1,7 +1,8 @@
 use crate::{
-	expand_array, expand_iri, expand_literal, expand_node, expand_value, Error, Expanded,
+	expand_array, expand_iri, expand_literal, expand_node, expand_value, Action, Error, Expanded,
 	GivenLiteralValue, LiteralValue, Loader, Options, Warning, WarningHandler,
 };
+use contextual::WithContext;
 use json_ld_context_processing::{Options as ProcessingOptions, Process};
 use json_ld_core::{object, Context, Environment, Id, Indexed, Object, Term, ValidId};
 use json_ld_syntax::{Keyword, Nullable};
@@ -358,6 +359,24 @@ where
 				}
 			}
 
+			if list_entry.is_some() || set_entry.is_some() || value_entry.is_some() {
+				// Drop the entries that are no part of the resulting object: `@context`, and
+				// the keys that expand to neither a keyword nor an IRI. They are kept, and
+				// hence rejected below, if the policy forbids them.
+				if options.policy.invalid != Action::Reject && options.policy.allow_undefined {
+					let vocabulary = &*env.vocabulary;
+					expanded_entries.retain(|ExpandedEntry(_, expanded_key, _)| match expanded_key {
+						Term::Null | Term::Keyword(Keyword::Context) => false,
+						Term::Keyword(_) => true,
+						Term::Id(id) => id.with(vocabulary).as_str().contains(':'),
+					});
+				} else {
+					expanded_entries.retain(|ExpandedEntry(_, expanded_key, _)| {
+						*expanded_key != Term::Keyword(Keyword::Context)
+					});
+				}
+			}
+
 			if let Some(list_entry) = list_entry {
 				// List objects.
 				let mut index = None;
-- 
2.43.0


From 7140dfb87430d4c9858982040223167db76f8059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:59 +0000
Subject: [PATCH 13/52] fix: detect colliding keywords in value, list and set
 objects

---
 crates/expansion/src/element.rs | 12 ++++++++++++
 crates/expansion/src/value.rs   |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index dbba59d..b5e43f8 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -375,6 +375,18 @@ where
 						*expanded_key != Term::Keyword(Keyword::Context)
 					});
 				}
+
+				// No keyword other than `@type` can be used twice, even through aliases.
+				for (i, ExpandedEntry(_, expanded_key, _)) in expanded_entries.iter().enumerate() {
+					if expanded_key.is_keyword()
+						&& *expanded_key != Term::Keyword(Keyword::Type)
+						&& expanded_entries[..i]
+							.iter()
+							.any(|ExpandedEntry(_, other, _)| other == expanded_key)
+					{
+						return Err(Error::CollidingKeywords);
+					}
+				}
 			}
 
 			if let Some(list_entry) = list_entry {
diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 084fe6c..6b53186 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -76,6 +76,7 @@ where
 		.as_ref()
 		.map(|t| *t == Term::Keyword(Keyword::Json))
 		.unwrap_or(false);
+	let mut has_type = false;
 	let mut ty = None;
 	let mut index = None;
 	let mut language = None;
@@ -130,6 +131,11 @@ where
 			}
 			// If expanded ...
 			Term::Keyword(Keyword::Type) => {
+				// A value object has at most one type.
+				if std::mem::replace(&mut has_type, true) {
+					return Err(InvalidValue::TypedValue);
+				}
+
 				if let Some(ty_value) = value.as_str() {
 					let expanded_ty = expand_iri(
 						env,
-- 
2.43.0


From 2689ffac87ef961eb0e142c2ce269bba223fed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:11 +0000
Subject: [PATCH 14/52] fix: only unwrap the graph of a lone top level map

---
 crates/expansion/src/document.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/crates/expansion/src/document.rs b/crates/expansion/src/document.rs
index 253fc20..cf9c3a9 100644
--- a/crates/expansion/src/document.rs
+++ b/crates/expansion/src/document.rs
@@ -1,5 +1,5 @@
 use super::expand_element;
-use crate::{ActiveProperty, Error, Loader, Options, WarningHandler};
+use crate::{ActiveProperty, Error, Expanded, Loader, Options, WarningHandler};
 use json_ld_core::{Context, Environment, ExpandedDocument, IndexedObject, Object};
 use json_syntax::Value;
 use rdf_types::VocabularyMut;
@@ -34,20 +34,15 @@ where
 		false,
 	)
 	.await?;
-	if expanded.len() == 1 {
-		let obj = expanded.into_iter().next().unwrap();
-		match obj.into_unnamed_graph() {
+
+	match expanded {
+		// If the result is a map that contains only an `@graph` entry, set the result to
+		// that value.
+		Expanded::Object(obj) if obj.index().is_none() => match obj.into_unnamed_graph() {
 			Ok(graph) => Ok(ExpandedDocument::from(graph)),
-			Err(obj) => {
-				let mut result = ExpandedDocument::new();
-				if filter_top_level_item(&obj) {
-					result.insert(obj);
-				}
-				Ok(result)
-			}
-		}
-	} else {
-		Ok(expanded.into_iter().filter(filter_top_level_item).collect())
+			Err(obj) => Ok(Some(obj).into_iter().filter(filter_top_level_item).collect()),
+		},
+		expanded => Ok(expanded.into_iter().filter(filter_top_level_item).collect()),
 	}
 }
 
-- 
2.43.0


From b8d26978ed5ac59859bd71f97430cbf7cce94412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:15 +0000
Subject: [PATCH 15/52] fix: ignore null values of list and graph containers

---
 crates/expansion/src/node.rs | 43 +++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 08d48b0..9300a4d 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -870,6 +870,11 @@ where
 					}
 				};
 
+				// If expanded value is null, ignore key by continuing to the next key.
+				if expanded_value.is_null() {
+					continue;
+				}
+
 				// If container mapping includes @list and expanded value is
 				// not already a list object, convert expanded value to a list
 				// object by first setting it to an array containing only
@@ -905,28 +910,26 @@ where
 					);
 				}
 
-				if !expanded_value.is_null() {
-					// If the term definition associated to key indicates that it
-					// is a reverse property:
-					if is_reverse_property {
-						// We must filter out anything that is not an object.
-						let mut reverse_expanded_nodes = Vec::new();
-						for object in expanded_value {
-							match object.try_cast::<Node<N::Iri, N::BlankId>>() {
-								Ok(node) => reverse_expanded_nodes.push(node),
-								Err(_) => return Err(Error::InvalidReversePropertyValue),
-							}
+				// If the term definition associated to key indicates that it
+				// is a reverse property:
+				if is_reverse_property {
+					// We must filter out anything that is not an object.
+					let mut reverse_expanded_nodes = Vec::new();
+					for object in expanded_value {
+						match object.try_cast::<Node<N::Iri, N::BlankId>>() {
+							Ok(node) => reverse_expanded_nodes.push(node),
+							Err(_) => return Err(Error::InvalidReversePropertyValue),
 						}
-
-						result
-							.reverse_properties_or_default()
-							.insert_all(prop, reverse_expanded_nodes.into_iter());
-					} else {
-						// Otherwise, key is not a reverse property use add value
-						// to add expanded value to the expanded property entry in
-						// result using true for as array.
-						result.insert_all(prop, expanded_value.into_iter());
 					}
+
+					result
+						.reverse_properties_or_default()
+						.insert_all(prop, reverse_expanded_nodes.into_iter());
+				} else {
+					// Otherwise, key is not a reverse property use add value
+					// to add expanded value to the expanded property entry in
+					// result using true for as array.
+					result.insert_all(prop, expanded_value.into_iter());
 				}
 			}
 
-- 
2.43.0


From abcb993e77f24fbe9a5ab36f554c25e8682bd9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:26 +0000
Subject: [PATCH 16/52] fix: only wrap the nested arrays of list containers

---
 crates/expansion/src/array.rs   | 19 +++++++++----------
 crates/expansion/src/element.rs | 31 +++++++++++--------------------
 2 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/crates/expansion/src/array.rs b/crates/expansion/src/array.rs
index 6090dfc..e7de2db 100644
--- a/crates/expansion/src/array.rs
+++ b/crates/expansion/src/array.rs
@@ -27,9 +27,6 @@ where
 	let mut is_list = false;
 	let mut result = Vec::new();
 
-	// If the container mapping of `active_property` includes `@list`, and
-	// `expanded_item` is an array, set `expanded_item` to a new map containing
-	// the entry `@list` where the value is the original `expanded_item`.
 	if let Some(definition) = active_property_definition {
 		is_list = definition.container().contains(ContainerKind::List);
 	}
@@ -54,13 +51,15 @@ where
 		))
 		.await?;
 
-		result.extend(e);
-	}
-
-	if is_list {
-		return Ok(Expanded::Object(
-			Object::List(object::List::new(result)).into(),
-		));
+		// If the container mapping of `active_property` includes `@list`, and
+		// `expanded_item` is an array, set `expanded_item` to a new map containing
+		// the entry `@list` where the value is the original `expanded_item`.
+		match e {
+			Expanded::Array(items) if is_list => {
+				result.push(Object::List(object::List::new(items)).into())
+			}
+			e => result.extend(e),
+		}
 	}
 
 	// Return result.
diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index b5e43f8..78b3921 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -407,28 +407,19 @@ where
 				// recursively passing active context, active property, value for element,
 				// base URL, and the ordered flags, ensuring that the
 				// result is an array..
-				let mut result = Vec::new();
-				let list_entry = Value::force_as_array(&list_entry);
-				for item in list_entry {
-					let e = Box::pin(expand_element(
-						Environment {
-							vocabulary: env.vocabulary,
-							loader: env.loader,
-							warnings: env.warnings,
-						},
-						active_context.as_ref(),
-						active_property,
-						item,
-						base_url,
-						options,
-						false,
-					))
-					.await?;
-					result.extend(e)
-				}
+				let result = Box::pin(expand_element(
+					env,
+					active_context.as_ref(),
+					active_property,
+					&list_entry,
+					base_url,
+					options,
+					false,
+				))
+				.await?;
 
 				Ok(Expanded::Object(Indexed::new(
-					Object::List(object::List::new(result)),
+					Object::List(object::List::new(result.into_iter().collect())),
 					index,
 				)))
 			} else if let Some(set_entry) = set_entry {
-- 
2.43.0


From 4ec6012a2fd9f9aff7002ad908819254337b3d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:39 +0000
Subject: [PATCH 17/52] fix: keep the indexes that expand to nothing

---
 crates/expansion/src/node.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 9300a4d..b629a27 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -692,16 +692,13 @@ where
 
 								// Initialize `expanded_index` to the result of IRI
 								// expanding index.
-								let expanded_index = match expand_iri(
+								let expanded_index = expand_iri(
 									&mut env,
 									active_context,
 									Nullable::Some(index.as_str().into()),
 									false,
 									Some(options.policy.vocab),
-								)? {
-									Some(Term::Null) | Some(Term::Keyword(Keyword::None)) => None,
-									key => key,
-								};
+								)?;
 
 								// If index value is not an array set index value to
 								// an array containing only index value.
@@ -744,7 +741,7 @@ where
 										item = Object::node(node).into();
 									}
 
-									if expanded_index.is_some() {
+									if expanded_index != Some(Term::Keyword(Keyword::None)) {
 										// If `container_mapping` includes @index,
 										// index key is not @index, and expanded index is
 										// not @none:
@@ -822,16 +819,17 @@ where
 												)?
 												.and_then(node_id_of_term);
 											}
-										} else if container_mapping.contains(ContainerKind::Type) {
+										} else if let (true, Some(expanded_index)) = (
+											container_mapping.contains(ContainerKind::Type),
+											expanded_index.clone().filter(|index| !index.is_null()),
+										) {
 											// Otherwise, if container mapping includes
 											// @type and expanded index is not @none,
 											// initialize types to a new array consisting
 											// of expanded index followed by any existing
 											// values of @type in item. Add the key-value
 											// pair (@type-types) to item.
-											if let Ok(typ) =
-												expanded_index.clone().unwrap().try_into()
-											{
+											if let Ok(typ) = expanded_index.try_into() {
 												if let Object::Node(ref mut node) = *item {
 													node.types_mut_or_default().insert(0, typ);
 												}
-- 
2.43.0


From 09a62a331d17069c500c5dc7d0aa92961b4e304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:33 +0000
Subject: [PATCH 18/52] fix: detect colliding @index entries in node objects

---
 crates/expansion/src/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index b629a27..679a9ed 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -150,7 +150,8 @@ where
 				if (options.processing_mode == ProcessingMode::JsonLd1_0
 					|| (expanded_property != Keyword::Included
 						&& expanded_property != Keyword::Type))
-					&& result.has_key(&Term::Keyword(expanded_property))
+					&& (result.has_key(&Term::Keyword(expanded_property))
+						|| (expanded_property == Keyword::Index && result.index().is_some()))
 				{
 					return Err(Error::CollidingKeywords);
 				}
-- 
2.43.0


From f91fbcb027acf3c19d7d450476ca4cc9fdc6c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:23 +0000
Subject: [PATCH 19/52] fix: process the entries in lexicographic order when
 asked to

---
 crates/expansion/src/element.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 78b3921..0f47cd3 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -123,12 +123,6 @@ where
 		}
 
 		Value::Object(element) => {
-			// let entries: Cow<[Entry<_, C>]> = if options.ordered {
-			// 	Cow::Owned(element.entries().iter().cloned().collect())
-			// } else {
-			// 	Cow::Borrowed(element.entries().as_slice())
-			// };
-
 			// Preliminary key expansions.
 			let mut preliminary_value_entry = None;
 			let mut preliminary_id_entry = None;
@@ -214,7 +208,9 @@ where
 			}
 
 			let entries: Cow<[Entry]> = if options.ordered {
-				Cow::Owned(element.entries().to_vec())
+				let mut entries = element.entries().to_vec();
+				entries.sort_by(|a, b| a.key.cmp(&b.key));
+				Cow::Owned(entries)
 			} else {
 				Cow::Borrowed(element.entries())
 			};
-- 
2.43.0


From eb4c89effc3259c3db4b0085e4a71de49cd4c883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:42 +0000
Subject: [PATCH 20/52] fix: skip the @list entries without active property

---
 crates/expansion/src/element.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 0f47cd3..2d7c65a 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -341,6 +341,9 @@ where
 						Term::Keyword(Keyword::List) => {
 							if active_property.is_some() && active_property != Keyword::Graph {
 								list_entry = Some(value.clone())
+							} else {
+								// Continue with the next entry.
+								continue;
 							}
 						}
 						Term::Keyword(Keyword::Set) => set_entry = Some(value.clone()),
-- 
2.43.0


From a78764dab148a128683e09466374706e8a70b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:59 +0000
Subject: [PATCH 21/52] fix: expand the values of @json typed properties to
 JSON literals

---
 crates/expansion/src/literal.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/expansion/src/literal.rs b/crates/expansion/src/literal.rs
index 84251a8..832818c 100644
--- a/crates/expansion/src/literal.rs
+++ b/crates/expansion/src/literal.rs
@@ -221,6 +221,18 @@ where
 					}
 				}
 
+				// A `@json` type makes a JSON literal.
+				Some(Type::Json) => {
+					let json = match result {
+						Literal::Null => json_syntax::Value::Null,
+						Literal::Boolean(b) => json_syntax::Value::Boolean(b),
+						Literal::Number(n) => json_syntax::Value::Number(n),
+						Literal::String(s) => json_syntax::Value::String(s),
+					};
+
+					return Ok(Object::Value(Value::Json(json)).into());
+				}
+
 				Some(t) => {
 					if let Ok(t) = t.into_iri() {
 						ty = Some(t)
-- 
2.43.0


From 64841425878f8b624eb73dd5d11ad9a77a6d4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:07 +0000
Subject: [PATCH 22/52] fix: merge the types of a node declared several times

---
 crates/core/src/flattening/node_map.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index c6bb1cd..d1f95f6 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -374,12 +374,13 @@ where
 			.declare_node(id.clone(), index)?;
 
 		if let Some(entry) = node.types.as_deref() {
-			flat_node.types = Some(
-				entry
-					.iter()
-					.map(|ty| env.assign_node_id(Some(ty)))
-					.collect(),
-			);
+			let flat_types = flat_node.types_mut_or_default();
+			for ty in entry {
+				let flat_ty = env.assign_node_id(Some(ty));
+				if !flat_types.contains(&flat_ty) {
+					flat_types.push(flat_ty)
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 4532ecf72c5e6a117128d755488e1893685c0f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:25 +0000
Subject: [PATCH 23/52] fix: keep the typed nodes without properties of named
 graphs

---
 crates/core/src/flattening/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/flattening/mod.rs b/crates/core/src/flattening/mod.rs
index a521fda..b98a829 100644
--- a/crates/core/src/flattening/mod.rs
+++ b/crates/core/src/flattening/mod.rs
@@ -94,12 +94,13 @@ fn filter_graph<T, B>(node: IndexedNode<T, B>) -> Option<IndexedNode<T, B>> {
 }
 
 fn filter_sub_graph<T, B>(mut node: IndexedNode<T, B>) -> Option<IndexedObject<T, B>> {
-	if node.index().is_none() && node.properties().is_empty() {
+	node.set_graph_entry(None);
+	node.set_included(None);
+	node.set_reverse_properties(None);
+
+	if node.index().is_none() && node.is_empty() {
 		None
 	} else {
-		node.set_graph_entry(None);
-		node.set_included(None);
-		node.set_reverse_properties(None);
 		Some(node.map_inner(Object::node))
 	}
 }
-- 
2.43.0


From 15ce10e09fcd84e0f16637ea2c7b30e3704a7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:39 +0000
Subject: [PATCH 24/52] fix: relabel the blank node properties when flattening

---
 crates/core/src/flattening/node_map.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index d1f95f6..894b86c 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -411,6 +411,7 @@ where
 	}
 
 	for (property, objects) in node.properties() {
+		let property = env.assign_node_id(Some(property));
 		let mut flat_objects = Vec::new();
 		for object in objects {
 			let flat_object = extend_node_map(env, node_map, object, active_graph)?;
@@ -422,11 +423,12 @@ where
 			.get_mut(&id)
 			.unwrap()
 			.properties_mut()
-			.insert_all_unique(property.clone(), flat_objects)
+			.insert_all_unique(property, flat_objects)
 	}
 
 	if let Some(reverse_properties) = node.reverse_properties_entry() {
 		for (property, nodes) in reverse_properties.iter() {
+			let property = env.assign_node_id(Some(property));
 			for subject in nodes {
 				let flat_subject = extend_node_map_from_node(
 					env,
-- 
2.43.0


From d17912387d608701bfaaf9f5f953cf90108a526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:59 +0000
Subject: [PATCH 25/52] fix: canonicalize the literals nested in @graph and
 @included

---
 crates/core/src/object/list.rs     | 12 +++++++++--
 crates/core/src/object/mod.rs      | 12 +++++++++--
 crates/core/src/object/node/mod.rs | 32 ++++++++++++++++++++++++++++--
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 44fe8aa..3d9ac4b 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -74,14 +74,22 @@ impl<T, B> List<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		for object in self {
 			object.canonicalize_with(buffer)
 		}
 	}
 
 	/// Puts this list object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index a65ac70..94b11f1 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -167,7 +167,11 @@ impl<T, B> Object<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		match self {
 			Self::List(l) => l.canonicalize_with(buffer),
 			Self::Node(n) => n.canonicalize_with(buffer),
@@ -176,7 +180,11 @@ impl<T, B> Object<T, B> {
 	}
 
 	/// Puts this object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 5741335..a37f152 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -191,7 +191,31 @@ impl<T, B> Node<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
+		if let Some(graph) = self.graph_mut() {
+			*graph = std::mem::take(graph)
+				.into_iter()
+				.map(|mut o| {
+					o.canonicalize_with(buffer);
+					o
+				})
+				.collect();
+		}
+
+		if let Some(included) = self.included_mut() {
+			*included = std::mem::take(included)
+				.into_iter()
+				.map(|mut n| {
+					n.canonicalize_with(buffer);
+					n
+				})
+				.collect();
+		}
+
 		for (_, objects) in self.properties_mut() {
 			for object in objects {
 				object.canonicalize_with(buffer)
@@ -208,7 +232,11 @@ impl<T, B> Node<T, B> {
 	}
 
 	/// Puts this node object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
-- 
2.43.0


From 9e96b1399bbad3c05708c431a020cb44792a997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:17 +0000
Subject: [PATCH 26/52] fix: relabel the blank node identifiers used as
 properties

---
 crates/core/src/object/node/mod.rs | 31 ++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index a37f152..bb3a044 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -661,6 +661,25 @@ impl<T: Eq + Hash, B: Eq + Hash> Node<T, B> {
 	}
 }
 
+/// Relabels the given property if it is a blank node identifier.
+fn relabel_property<T, B, N: Vocabulary<Iri = T, BlankId = B>, G: Generator<N>>(
+	property: &mut Id<T, B>,
+	vocabulary: &mut N,
+	generator: &mut G,
+	relabeling: &mut hashbrown::HashMap<B, Subject<T, B>>,
+) where
+	T: Clone + Eq + Hash,
+	B: Clone + Eq + Hash,
+{
+	if let Some(b) = property.as_blank().cloned() {
+		*property = relabeling
+			.entry(b)
+			.or_insert_with(|| generator.next(vocabulary))
+			.clone()
+			.into();
+	}
+}
+
 impl<T, B> Relabel<T, B> for Node<T, B> {
 	fn relabel_with<N: Vocabulary<Iri = T, BlankId = B>, G: Generator<N>>(
 		&mut self,
@@ -716,17 +735,21 @@ impl<T, B> Relabel<T, B> for Node<T, B> {
 				.collect();
 		}
 
-		for (_, objects) in self.properties_mut() {
-			for object in objects {
+		for (mut property, mut objects) in std::mem::take(self.properties_mut()) {
+			relabel_property(&mut property, vocabulary, generator, relabeling);
+			for object in &mut objects {
 				object.relabel_with(vocabulary, generator, relabeling);
 			}
+			self.properties.insert_all(property, objects)
 		}
 
 		if let Some(reverse_properties) = self.reverse_properties_mut() {
-			for (_, nodes) in reverse_properties.iter_mut() {
-				for node in nodes {
+			for (mut property, mut nodes) in std::mem::take(reverse_properties) {
+				relabel_property(&mut property, vocabulary, generator, relabeling);
+				for node in &mut nodes {
 					node.relabel_with(vocabulary, generator, relabeling);
 				}
+				reverse_properties.insert_all(property, nodes)
 			}
 		}
 	}
-- 
2.43.0


From a5cd4285eef75d4e09acc05a5a451c40031db415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:58 +0000
Subject: [PATCH 27/52] fix: keep the rdf:rest chain when a list item has no
 RDF value

---
 crates/core/src/rdf/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index e9c1b41..a579f04 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -552,12 +552,12 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 					let previous = list.previous().cloned();
 					match list.next(vocabulary, generator) {
 						Some(node) => {
+							let id = node.id.clone();
+
 							if let Some(compound_value) =
 								node.object
 									.rdf_value_with(vocabulary, generator, rdf_direction)
 							{
-								let id = node.id.clone();
-
 								if let Some(compound_triples) = compound_value.triples {
 									match compound_triples {
 										CompoundValueTriples::List(list) => {
@@ -574,14 +574,14 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 									ValidId::Iri(vocabulary.insert(RDF_FIRST)),
 									compound_value.value,
 								));
+							}
 
-								if let Some(previous_id) = previous {
-									break Some(rdf_types::Triple(
-										previous_id,
-										ValidId::Iri(vocabulary.insert(RDF_REST)),
-										id.into_term(),
-									));
-								}
+							if let Some(previous_id) = previous {
+								break Some(rdf_types::Triple(
+									previous_id,
+									ValidId::Iri(vocabulary.insert(RDF_REST)),
+									id.into_term(),
+								));
 							}
 						}
 						None => {
-- 
2.43.0


From 28228e68914fd0e0829e89d60f3b0be988c9d9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:29 +0000
Subject: [PATCH 28/52] fix: emit the triples of compound literals

---
 crates/core/src/rdf/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index a579f04..14711f8 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -140,6 +140,7 @@ impl<T: Clone> crate::object::Value<T> {
 	) -> Option<CompoundLiteral<T, V::BlankId, V::Literal>>
 	where
 		V: Vocabulary<Iri = T> + IriVocabularyMut + LiteralVocabularyMut,
+		V::BlankId: Clone,
 	{
 		match self {
 			Self::Json(json) => {
@@ -179,9 +180,24 @@ impl<T: Clone> crate::object::Value<T> {
 						}
 						Some(RdfDirection::CompoundLiteral) => {
 							let id = generator.next(vocabulary);
+							let ty = match language {
+								Some(tag) => rdf_types::LiteralType::LangString(tag),
+								None => rdf_types::LiteralType::Any(vocabulary.insert(XSD_STRING)),
+							};
+							let value = vocabulary
+								.insert_owned_literal(Literal::new(string.to_string(), ty));
+							let ty = vocabulary.insert(XSD_STRING);
+							let direction = vocabulary.insert_owned_literal(Literal::new(
+								direction.to_string(),
+								rdf_types::LiteralType::Any(ty),
+							));
 							Some(CompoundLiteral {
-								value: id.into_term(),
-								triples: None,
+								value: Clone::clone(&id).into_term(),
+								triples: Some(CompoundLiteralTriples {
+									id,
+									value: Some(Value::Literal(value)),
+									direction: Some(Value::Literal(direction)),
+								}),
 							})
 						}
 						None => match language {
-- 
2.43.0


From c419ebf9713f8437d9ba0f2a97b66b8dc1a05708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:07 +0000
Subject: [PATCH 29/52] fix: serialize integral numbers up to 10^21 as
 xsd:integer

---
 crates/core/src/rdf/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 14711f8..8c6dde9 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -260,16 +260,19 @@ impl<T: Clone> crate::object::Value<T> {
 					}
 					value::Literal::Null => ("null".to_string(), None),
 					value::Literal::Number(n) => {
-						if n.is_i64()
-							&& !ty
-								.as_ref()
-								.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
-								.unwrap_or(false)
-						{
+						let is_double = ty
+							.as_ref()
+							.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
+							.unwrap_or(false);
+						let f = n.as_f64_lossy();
+						if n.is_i64() && !is_double {
 							(n.to_string(), Some(vocabulary.insert(XSD_INTEGER)))
+						} else if f.fract() == 0.0 && f.abs() < 1e21 && !is_double {
+							// Integral number without an `i64` representation.
+							(format!("{f:.0}"), Some(vocabulary.insert(XSD_INTEGER)))
 						} else {
 							(
-								pretty_dtoa::dtoa(n.as_f64_lossy(), XSD_CANONICAL_FLOAT),
+								pretty_dtoa::dtoa(f, XSD_CANONICAL_FLOAT),
 								Some(vocabulary.insert(XSD_DOUBLE)),
 							)
 						}
-- 
2.43.0


From 336d937cae79e39442adff789114810cc9025efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:38 +0000
Subject: [PATCH 30/52] fix: compact a language-tagged string to a plain string
 only where nothing is lost

---
 crates/compaction/src/value.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/compaction/src/value.rs b/crates/compaction/src/value.rs
index ee7984d..2dc58fd 100644
--- a/crates/compaction/src/value.rs
+++ b/crates/compaction/src/value.rs
@@ -190,10 +190,10 @@ where
 			let ls_direction = ls.direction(); //.map(|d| Nullable::Some(d));
 
 			if remove_index
-			&& (ls_language.is_none() || language == ls_language) // || (ls.language().is_none() && language.is_none()))
-			&& (ls_direction.is_none() || direction == ls_direction)
+				&& type_mapping.is_none()
+				&& language == ls_language
+				&& direction == ls_direction
 			{
-				// || (ls.direction().is_none() && direction.is_none())) {
 				return Ok(json_syntax::Value::String(ls.as_str().into()));
 			} else {
 				let compact_key = compact_key(
-- 
2.43.0


From 21adaf660c2dd97c44357f354a1064670e844f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:51 +0000
Subject: [PATCH 31/52] fix: a list item without language counts as @none when
 a list term is selected

---
 crates/compaction/src/iri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 4656858..8a4542a 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -148,7 +148,7 @@ where
 						} else {
 							for item in list {
 								let mut item_type = None;
-								let mut item_lang_dir = None;
+								let mut item_lang_dir = Some(Nullable::Some((None, None)));
 								let mut is_value = false;
 
 								match item.inner() {
-- 
2.43.0


From 50424c67e1961ac0cac45b9c99ee888876af10f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:03 +0000
Subject: [PATCH 32/52] fix: choose the shortest compact IRI whatever the order
 of the definitions

---
 crates/compaction/src/iri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 8a4542a..b904153 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -446,7 +446,8 @@ where
 						// and value is null, set compact IRI to candidate.
 						let candidate_def = active_context.get(candidate.as_str());
 						if (compact_iri.is_empty()
-							|| (candidate.len() <= compact_iri.len() && candidate < compact_iri))
+							|| candidate.len() < compact_iri.len()
+							|| (candidate.len() == compact_iri.len() && candidate < compact_iri))
 							&& (candidate_def.is_none()
 								|| (candidate_def.is_some()
 									&& (candidate_def.and_then(|def| def.value()) == Some(var))
-- 
2.43.0


From 829a85c2a65fc6162604c62ec844c81c9754d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:15 +0000
Subject: [PATCH 33/52] fix: only prefix terms make an IRI confusable with a
 compact IRI

---
 crates/compaction/src/iri.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index b904153..cb55750 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -473,8 +473,10 @@ where
 	// an IRI confused with prefix error has been detected, and processing is aborted.
 	if let Some(iri) = var.as_iri() {
 		let iri = vocabulary.iri(iri).unwrap();
-		if active_context.contains_term(iri.scheme().as_str()) {
-			return Err(IriConfusedWithPrefix);
+		if let Some(definition) = active_context.get(iri.scheme().as_str()) {
+			if definition.prefix() && iri.authority().is_none() {
+				return Err(IriConfusedWithPrefix);
+			}
 		}
 	}
 
-- 
2.43.0


From bd04165105d3adb1d18a5b58f80533da6e224ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:27 +0000
Subject: [PATCH 34/52] fix: disambiguate relative IRIs that are keywords

---
 crates/compaction/src/iri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index cb55750..64f1fca 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -4,7 +4,7 @@ use json_ld_core::{
 	context::inverse::{LangSelection, Selection, TypeSelection},
 	object, Container, Context, Indexed, Nullable, Object, ProcessingMode, Term, Type, Value,
 };
-use json_ld_syntax::{is_keyword, is_keyword_like};
+use json_ld_syntax::is_keyword_like;
 use rdf_types::Vocabulary;
 use std::hash::Hash;
 
@@ -500,7 +500,7 @@ where
 }
 
 fn disambiguate_keyword(s: String) -> String {
-	if is_keyword_like(&s) && !is_keyword(&s) {
+	if is_keyword_like(&s) {
 		"./".to_string() + &s
 	} else {
 		s
-- 
2.43.0


From c469d7b4f952c2a1dc6452fdf30f3098f3cf4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:38 +0000
Subject: [PATCH 35/52] fix: use the alias of @id in compacted graph objects

---
 crates/compaction/src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index ba72110..8f5fe84 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -259,7 +259,7 @@ where
 				vocabulary,
 				active_context,
 				&Term::Keyword(Keyword::Id),
-				false,
+				true,
 				false,
 				options,
 			)?
-- 
2.43.0


From 69b89dac6ee29a10773f1249f39a29f8077ff1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:50 +0000
Subject: [PATCH 36/52] fix: put indexed lists and graphs in the index map of
 their term

---
 crates/compaction/src/property.rs | 141 +++++++++++++++++++++++-------
 1 file changed, 109 insertions(+), 32 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 8f5fe84..8ffad72 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -12,6 +12,93 @@ use json_ld_syntax::Keyword;
 use rdf_types::VocabularyMut;
 use std::hash::Hash;
 
+/// Adds a compacted list or graph object to the `item_active_property` entry of
+/// `nest_result`, along with its index.
+///
+/// If `container` includes `@index` the entry is an index map, in which the
+/// object cannot be put directly: it is added to the map under its index.
+#[allow(clippy::too_many_arguments)]
+fn add_indexed_object<N>(
+	vocabulary: &N,
+	mut object: json_syntax::Object,
+	index: Option<&str>,
+	nest_result: &mut json_syntax::Object,
+	container: Container,
+	as_array: bool,
+	item_active_property: &str,
+	active_context: &Context<N::Iri, N::BlankId>,
+	options: Options,
+) -> Result<(), Error>
+where
+	N: VocabularyMut,
+	N::Iri: Clone + Hash + Eq,
+	N::BlankId: Clone + Hash + Eq,
+{
+	let index_map = container.contains(ContainerKind::Index);
+	let index_property = match active_context.get(item_active_property) {
+		Some(def) => def.index().is_some(),
+		None => false,
+	};
+
+	if let Some(index) = index {
+		if !index_map || index_property {
+			let key = compact_key(
+				vocabulary,
+				active_context,
+				&Term::Keyword(Keyword::Index),
+				true,
+				false,
+				options,
+			)?;
+
+			object.insert(key.unwrap(), json_syntax::Value::String(index.into()));
+		}
+	}
+
+	let object = json_syntax::Value::Object(object);
+
+	if index_map {
+		let map_key = match index {
+			Some(index) if !index_property => index.to_string(),
+			_ => compact_iri(
+				vocabulary,
+				active_context,
+				&Term::Keyword(Keyword::None),
+				true,
+				false,
+				options,
+			)?
+			.unwrap(),
+		};
+
+		if nest_result
+			.get_unique(item_active_property)
+			.ok()
+			.unwrap()
+			.is_none()
+		{
+			nest_result.insert(
+				item_active_property.into(),
+				json_syntax::Object::default().into(),
+			);
+		}
+
+		let map_object = nest_result
+			.get_unique_mut(item_active_property)
+			.ok()
+			.unwrap()
+			.unwrap()
+			.as_object_mut()
+			.unwrap();
+
+		add_value(map_object, &map_key, object, as_array)
+	} else {
+		add_value(nest_result, item_active_property, object, as_array)
+	}
+
+	Ok(())
+}
+
 #[allow(clippy::too_many_arguments)]
 async fn compact_property_list<N, L>(
 	vocabulary: &mut N,
@@ -70,25 +157,19 @@ where
 		// If `expanded_item` contains the entry @index-value,
 		// then add an entry to compacted item where the key is
 		// the result of IRI compacting @index and value is value.
-		if let Some(index) = expanded_index {
-			let key = compact_key(
-				vocabulary,
-				active_context,
-				&Term::Keyword(Keyword::Index),
-				true,
-				false,
-				options,
-			)?;
-
-			compacted_item_list_object
-				.insert(key.unwrap(), json_syntax::Value::String(index.into()));
-		}
-
-		compacted_item = json_syntax::Value::Object(compacted_item_list_object);
-
 		// Use add value to add `compacted_item` to
 		// the `item_active_property` entry in `nest_result` using `as_array`.
-		add_value(nest_result, item_active_property, compacted_item, as_array)
+		add_indexed_object(
+			vocabulary,
+			compacted_item_list_object,
+			expanded_index,
+			nest_result,
+			container,
+			as_array,
+			item_active_property,
+			active_context,
+			options,
+		)?
 	} else {
 		// Otherwise, set the value of the item active property entry in nest result to compacted item.
 		nest_result.insert(item_active_property.into(), compacted_item);
@@ -278,23 +359,19 @@ where
 		// If `expanded_item` contains an @index entry,
 		// add an entry in `compacted_item` using the key from
 		// IRI compacting @index and the value of @index in `expanded_item`.
-		if let Some(index_entry) = expanded_index {
-			let key = compact_iri(
-				vocabulary,
-				active_context,
-				&Term::Keyword(Keyword::Index),
-				true,
-				false,
-				options,
-			)?
-			.unwrap();
-			map.insert(key.into(), index_entry.into());
-		}
-
 		// Use `add_value` to add `compacted_item` to the
 		// `item_active_property` entry in `nest_result` using `as_array`.
-		let compacted_item = json_syntax::Value::Object(map);
-		add_value(nest_result, item_active_property, compacted_item, as_array)
+		add_indexed_object(
+			vocabulary,
+			map,
+			expanded_index,
+			nest_result,
+			container,
+			as_array,
+			item_active_property,
+			active_context,
+			options,
+		)?
 	}
 
 	Ok(())
-- 
2.43.0


From 749807a94c038416affe5a37d181946977243226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:04 +0000
Subject: [PATCH 37/52] fix: keep the values of an index property that are not
 strings

---
 crates/compaction/src/property.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 8ffad72..ad07484 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -658,19 +658,24 @@ where
 													json_syntax::Value::String(s) => {
 														(Some(s.to_string()), Vec::new())
 													}
-													json_syntax::Value::Array(values) => {
+													json_syntax::Value::Array(values)
+														if values
+															.first()
+															.is_some_and(|v| v.is_string()) =>
+													{
 														let mut values = values.into_iter();
-														match values.next() {
-															Some(first_value) => (
-																first_value
-																	.as_str()
-																	.map(|v| v.to_string()),
-																values.collect(),
-															),
-															None => (None, values.collect()),
-														}
+														let first_value = values.next().unwrap();
+														(
+															first_value
+																.as_str()
+																.map(|v| v.to_string()),
+															values.collect(),
+														)
+													}
+													other => {
+														map.insert(entry.key, other);
+														(None, Vec::new())
 													}
-													other => (None, vec![other]),
 												},
 												None => (None, Vec::new()),
 											}
-- 
2.43.0


From a74302a91380f6eae78d92f49abfe1c04ba6a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:17 +0000
Subject: [PATCH 38/52] fix: recognize an aliased @id when compacting a type
 map

---
 crates/compaction/src/property.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index ad07484..fb4bf8c 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -783,7 +783,18 @@ where
 							// `active_property`, and a map composed of the single
 							// entry for @id from `expanded_item` for `element`.
 							if let Some(map) = compacted_item.as_object() {
-								if map.len() == 1 && map.get_unique("@id").ok().unwrap().is_some() {
+								let id_key = compact_iri(
+									vocabulary,
+									active_context,
+									&Term::Keyword(Keyword::Id),
+									true,
+									false,
+									options,
+								)?
+								.unwrap();
+								if map.len() == 1
+									&& map.get_unique(id_key.as_str()).ok().unwrap().is_some()
+								{
 									let obj = Object::node(Node::with_id(
 										expanded_item.id().unwrap().clone(),
 									));
-- 
2.43.0


From 9be3a5cebd5be32a98ed9848d79a4a60c41f31ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:30 +0000
Subject: [PATCH 39/52] fix: look at the index of reverse property values when
 selecting a term

---
 crates/compaction/src/iri.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 64f1fca..d45b8d5 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -119,17 +119,14 @@ where
 				}
 			}
 
-			let mut has_index = false;
+			let has_index = value.is_some_and(|v| v.index().is_some());
 			let mut is_simple_value = false; // value object with no type, no index, no language and no direction.
 
 			if reverse {
 				type_lang_value = Some(TypeLangValue::Type(TypeSelection::Reverse));
 				containers.push(Container::Set);
 			} else {
-				let value_ref = value.map(|v| {
-					has_index = v.index().is_some();
-					v.inner().as_ref()
-				});
+				let value_ref = value.map(|v| v.inner().as_ref());
 
 				match value_ref {
 					Some(object::Ref::List(list)) => {
-- 
2.43.0


From 07aca254a2b72da0bcb104e819fdc186d42429a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:44 +0000
Subject: [PATCH 40/52] fix: keep a scalar single when an empty array is added
 to it

---
 crates/compaction/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/lib.rs b/crates/compaction/src/lib.rs
index e70dfd8..fb991e1 100644
--- a/crates/compaction/src/lib.rs
+++ b/crates/compaction/src/lib.rs
@@ -404,7 +404,8 @@ fn add_value(map: &mut json_syntax::Object, key: &str, value: json_syntax::Value
 		.unwrap()
 		.map(|entry| entry.is_array())
 	{
-		Some(false) => {
+		// (the items of an array are added one by one, below)
+		Some(false) if as_array || !value.is_array() => {
 			let Entry { key, value } = map.remove_unique(key).ok().unwrap().unwrap();
 			map.insert(key, json_syntax::Value::Array(vec![value]));
 		}
-- 
2.43.0


From e127781dca0cbebc81fceb2f7e366285a91aa95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:04 +0000
Subject: [PATCH 41/52] fix: a reverse property term never stands for the
 property itself

---
 crates/core/src/context/inverse.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/context/inverse.rs b/crates/core/src/context/inverse.rs
index d02c3a5..c2f23cc 100644
--- a/crates/core/src/context/inverse.rs
+++ b/crates/core/src/context/inverse.rs
@@ -118,11 +118,19 @@ struct InverseContainer<T> {
 }
 
 struct Any {
-	none: Key,
+	none: Option<Key>,
+}
+
+impl Any {
+	fn set_none(&mut self, term: &Key) {
+		if self.none.is_none() {
+			self.none = Some(term.clone())
+		}
+	}
 }
 
 impl<T> InverseContainer<T> {
-	pub fn new(term: &Key) -> InverseContainer<T> {
+	pub fn new() -> InverseContainer<T> {
 		InverseContainer {
 			language: InverseLang {
 				any: None,
@@ -133,7 +141,7 @@ impl<T> InverseContainer<T> {
 				any: None,
 				map: HashMap::new(),
 			},
-			any: Any { none: term.clone() },
+			any: Any { none: None },
 		}
 	}
 }
@@ -175,7 +183,11 @@ impl<T> InverseDefinition<T> {
 		for container in containers {
 			if let Some(type_lang_map) = self.get(container) {
 				match selection {
-					Selection::Any => return Some(&type_lang_map.any.none),
+					Selection::Any => {
+						if let Some(term) = type_lang_map.any.none.as_ref() {
+							return Some(term);
+						}
+					}
 					Selection::Type(preferred_values) => {
 						for item in preferred_values {
 							if let Some(term) = type_lang_map.typ.select(item.clone()) {
@@ -305,7 +317,7 @@ impl<'a, T: Clone + Hash + Eq, B: Clone + Hash + Eq> From<&'a Context<T, B>>
 					let container = &term_definition.container;
 					let container_map = result.reference_mut(var, InverseDefinition::new);
 					let type_lang_map =
-						container_map.reference_mut(container, || InverseContainer::new(term));
+						container_map.reference_mut(container, InverseContainer::new);
 
 					let type_map = &mut type_lang_map.typ;
 					let lang_map = &mut type_lang_map.language;
@@ -316,6 +328,9 @@ impl<'a, T: Clone + Hash + Eq, B: Clone + Hash + Eq> From<&'a Context<T, B>>
 							type_map.reverse = Some(term.clone())
 						}
 					} else {
+						// A reverse property never stands for the property itself.
+						type_lang_map.any.set_none(term);
+
 						match &term_definition.typ {
 							Some(Type::None) => {
 								// Otherwise, if term definition has a type mapping which is @none:
-- 
2.43.0


From 3ea42c4f9767d7e1e34916dcb6e299f863c279fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:17 +0000
Subject: [PATCH 42/52] fix: use the relative form of an IRI only when it
 resolves to it

---
 crates/compaction/src/iri.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index d45b8d5..e42f511 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -485,9 +485,12 @@ where
 			let base_iri = vocabulary.iri(base_iri).unwrap();
 			if let Some(iri) = var.as_iri() {
 				let iri = vocabulary.iri(iri).unwrap();
-				return Ok(Some(disambiguate_keyword(
-					iri.relative_to(base_iri).as_str().into(),
-				)));
+				let relative = iri.relative_to(base_iri);
+
+				// Some IRIs (without path, for instance) have no relative form.
+				if relative.resolved(base_iri) == *iri {
+					return Ok(Some(disambiguate_keyword(relative.as_str().into())));
+				}
 			}
 		}
 	}
-- 
2.43.0


From 95347711076eed7d2b4321fb15be6986d39d579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:16 +0000
Subject: [PATCH 43/52] fix: expand compact IRIs whose prefix could not be the
 scheme of an IRI

---
 .../src/algorithm/define.rs                   | 12 +++----
 .../context-processing/src/algorithm/iri.rs   | 33 ++++++++++++++-----
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 0d089f6..dd8e9f4 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -1,4 +1,4 @@
-use super::{expand_iri_simple, expand_iri_with, Environment, Merged};
+use super::{expand_iri_simple, expand_iri_with, iri::split_compact_iri, Environment, Merged};
 use crate::{Error, Options, ProcessingStack, Warning, WarningHandler};
 use iref::{Iri, IriRef};
 use json_ld_core::{
@@ -10,7 +10,7 @@ use json_ld_syntax::{
 		definition::{EntryValueRef, KeyOrKeyword, KeyOrKeywordRef},
 		term_definition::{self, IdRef},
 	},
-	CompactIri, ContainerKind, ExpandableRef, Keyword, LenientLangTag, Nullable,
+	ContainerKind, ExpandableRef, Keyword, LenientLangTag, Nullable,
 };
 use rdf_types::{BlankId, VocabularyMut};
 use std::{collections::HashMap, hash::Hash};
@@ -454,7 +454,7 @@ where
 							// Otherwise if the `term` contains a colon (:) anywhere after the first
 							// character.
 							if let KeyOrKeyword::Key(term) = &term {
-								if let Ok(compact_iri) = CompactIri::new(term.as_str()) {
+								if let Some((prefix, suffix)) = split_compact_iri(term.as_str()) {
 									// If `term` is a compact IRI with a prefix that is an entry in local
 									// context a dependency has been found.
 									// Use this algorithm recursively passing `active_context`,
@@ -467,7 +467,7 @@ where
 										},
 										active_context,
 										local_context,
-										KeyOrKeywordRef::Key(compact_iri.prefix().into()),
+										KeyOrKeywordRef::Key(prefix.into()),
 										defined,
 										remote_contexts.clone(),
 										None,
@@ -480,7 +480,7 @@ where
 									// IRI mapping of `definition` to the result of concatenating the value
 									// associated with the prefix's IRI mapping and the term's suffix.
 									if let Some(prefix_definition) =
-										active_context.get(compact_iri.prefix())
+										active_context.get(prefix)
 									{
 										let mut result = String::new();
 
@@ -494,7 +494,7 @@ where
 											}
 										}
 
-										result.push_str(compact_iri.suffix());
+										result.push_str(suffix);
 
 										if let Ok(iri) = Iri::new(result.as_str()) {
 											definition.value =
diff --git a/crates/context-processing/src/algorithm/iri.rs b/crates/context-processing/src/algorithm/iri.rs
index f53b3cb..bc1eea6 100644
--- a/crates/context-processing/src/algorithm/iri.rs
+++ b/crates/context-processing/src/algorithm/iri.rs
@@ -10,7 +10,24 @@ use rdf_types::{
 	vocabulary::{BlankIdVocabulary, IriVocabulary},
 	BlankId, Vocabulary, VocabularyMut,
 };
-use syntax::{context::definition::KeyOrKeywordRef, is_keyword_like, CompactIri};
+use syntax::{context::definition::KeyOrKeywordRef, is_keyword_like};
+
+/// Splits `value` into a prefix and a suffix, if it has the form of a compact
+/// IRI.
+///
+/// The prefix may be any term, not only what could be the scheme of an IRI.
+pub(super) fn split_compact_iri(value: &str) -> Option<(&str, &str)> {
+	match value.split_once(':') {
+		Some((prefix, suffix))
+			if !prefix.is_empty()
+				&& prefix != "_" && !is_keyword_like(prefix)
+				&& !suffix.starts_with("//") =>
+		{
+			Some((prefix, suffix))
+		}
+		_ => None,
+	}
+}
 
 pub struct MalformedIri(pub String);
 
@@ -103,7 +120,7 @@ where
 					return Ok(Some(Term::Id(Id::Invalid("_:".to_string()))));
 				}
 
-				if let Ok(compact_iri) = CompactIri::new(value) {
+				if let Some((prefix, suffix)) = split_compact_iri(value) {
 					// If local context is not null, it contains a `prefix` entry, and the value of the
 					// prefix entry in defined is not true, invoke the Create Term Definition
 					// algorithm, passing active context, local context, prefix as term, and defined.
@@ -117,7 +134,7 @@ where
 						},
 						active_context,
 						local_context,
-						KeyOrKeywordRef::Key(compact_iri.prefix().into()),
+						KeyOrKeywordRef::Key(prefix.into()),
 						defined,
 						remote_contexts,
 						None,
@@ -129,13 +146,13 @@ where
 					// If active context contains a term definition for prefix having a non-null IRI
 					// mapping and the prefix flag of the term definition is true, return the result
 					// of concatenating the IRI mapping associated with prefix and suffix.
-					let prefix_key = Key::from(compact_iri.prefix().to_string());
+					let prefix_key = Key::from(prefix.to_string());
 					if let Some(term_definition) = active_context.get_normal(&prefix_key) {
 						if term_definition.prefix {
 							if let Some(mapping) = &term_definition.value {
 								let mut result =
 									mapping.with(&*env.vocabulary).as_str().to_string();
-								result.push_str(compact_iri.suffix());
+								result.push_str(suffix);
 
 								return Ok(Some(Term::Id(Id::from_string_in(
 									env.vocabulary,
@@ -280,17 +297,17 @@ where
 					return Ok(Some(Term::Id(Id::Invalid("_:".to_string()))));
 				}
 
-				if let Ok(compact_iri) = CompactIri::new(value) {
+				if let Some((prefix, suffix)) = split_compact_iri(value) {
 					// If active context contains a term definition for prefix having a non-null IRI
 					// mapping and the prefix flag of the term definition is true, return the result
 					// of concatenating the IRI mapping associated with prefix and suffix.
-					let prefix_key = Key::from(compact_iri.prefix().to_string());
+					let prefix_key = Key::from(prefix.to_string());
 					if let Some(term_definition) = active_context.get_normal(&prefix_key) {
 						if term_definition.prefix {
 							if let Some(mapping) = &term_definition.value {
 								let mut result =
 									mapping.with(&*env.vocabulary).as_str().to_string();
-								result.push_str(compact_iri.suffix());
+								result.push_str(suffix);
 
 								return Ok(Some(Term::Id(Id::from_string_in(
 									env.vocabulary,
-- 
2.43.0


From 117ec7b3181aeee1ea3c9b85cd51b00428b132ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:16 +0000
Subject: [PATCH 44/52] fix: compare relative forms by text

---
 crates/compaction/src/iri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index e42f511..677215d 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -488,7 +488,7 @@ where
 				let relative = iri.relative_to(base_iri);
 
 				// Some IRIs (without path, for instance) have no relative form.
-				if relative.resolved(base_iri) == *iri {
+				if relative.resolved(base_iri).as_str() == iri.as_str() {
 					return Ok(Some(disambiguate_keyword(relative.as_str().into())));
 				}
 			}
-- 
2.43.0


From 8518dc4101d3d965625c60657716abd1fb86ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:46 +0000
Subject: [PATCH 45/52] fix: give context processing failures the code of their
 failure

---
 crates/context-processing/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/context-processing/src/lib.rs b/crates/context-processing/src/lib.rs
index 9a0bdb2..26481a1 100644
--- a/crates/context-processing/src/lib.rs
+++ b/crates/context-processing/src/lib.rs
@@ -130,7 +130,7 @@ impl Error {
 			Self::CyclicIriMapping => ErrorCode::CyclicIriMapping,
 			Self::InvalidTermDefinition => ErrorCode::InvalidTermDefinition,
 			Self::KeywordRedefinition => ErrorCode::KeywordRedefinition,
-			Self::InvalidProtectedValue => ErrorCode::InvalidPropagateValue,
+			Self::InvalidProtectedValue => ErrorCode::InvalidProtectedValue,
 			Self::InvalidTypeMapping => ErrorCode::InvalidTypeMapping,
 			Self::InvalidReverseProperty => ErrorCode::InvalidReverseProperty,
 			Self::InvalidIriMapping => ErrorCode::InvalidIriMapping,
@@ -139,7 +139,7 @@ impl Error {
 			Self::InvalidScopedContext => ErrorCode::InvalidScopedContext,
 			Self::ProtectedTermRedefinition => ErrorCode::ProtectedTermRedefinition,
 			Self::ContextLoadingFailed(_) => ErrorCode::LoadingRemoteContextFailed,
-			Self::ContextExtractionFailed(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextExtractionFailed(_) => ErrorCode::InvalidRemoteContext,
 			Self::ForbiddenVocab => ErrorCode::InvalidVocabMapping,
 		}
 	}
-- 
2.43.0


From 0435100b774b422d58869aa4520230674b6ece51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:16 +0000
Subject: [PATCH 46/52] fix: give context load errors of the processor their
 own code

---
 crates/core/src/loader/mod.rs | 11 +++++++++++
 src/processor/mod.rs          |  6 +++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/loader/mod.rs b/crates/core/src/loader/mod.rs
index f8ae90b..b05baab 100644
--- a/crates/core/src/loader/mod.rs
+++ b/crates/core/src/loader/mod.rs
@@ -1,5 +1,6 @@
 use hashbrown::HashSet;
 use iref::{Iri, IriBuf};
+use json_ld_syntax::ErrorCode;
 use mime::Mime;
 use rdf_types::vocabulary::{IriVocabulary, IriVocabularyMut};
 use static_iref::iri;
@@ -98,6 +99,16 @@ pub enum ContextLoadError {
 	ContextExtractionFailed(#[from] ExtractContextError),
 }
 
+impl ContextLoadError {
+	/// Returns the code of this error.
+	pub fn code(&self) -> ErrorCode {
+		match self {
+			Self::LoadingDocumentFailed(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextExtractionFailed(_) => ErrorCode::InvalidRemoteContext,
+		}
+	}
+}
+
 impl<I> RemoteContextReference<I> {
 	/// Loads the remote context with the given `vocabulary` and `loader`.
 	///
diff --git a/src/processor/mod.rs b/src/processor/mod.rs
index 4fa0406..2a5d10c 100644
--- a/src/processor/mod.rs
+++ b/src/processor/mod.rs
@@ -170,7 +170,7 @@ impl ExpandError {
 			Self::Expansion(e) => e.code(),
 			Self::ContextProcessing(e) => e.code(),
 			Self::Loading(_) => ErrorCode::LoadingDocumentFailed,
-			Self::ContextLoading(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextLoading(e) => e.code(),
 		}
 	}
 }
@@ -212,7 +212,7 @@ impl CompactError {
 			Self::ContextProcessing(e) => e.code(),
 			Self::Compaction(e) => e.code(),
 			Self::Loading(_) => ErrorCode::LoadingDocumentFailed,
-			Self::ContextLoading(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextLoading(e) => e.code(),
 		}
 	}
 }
@@ -247,7 +247,7 @@ impl<I, B> FlattenError<I, B> {
 			Self::Compact(e) => e.code(),
 			Self::ConflictingIndexes(_) => ErrorCode::ConflictingIndexes,
 			Self::Loading(_) => ErrorCode::LoadingDocumentFailed,
-			Self::ContextLoading(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextLoading(e) => e.code(),
 		}
 	}
 }
-- 
2.43.0


From ffb34d944274ff10303d0043388410ac79b343a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:28 +0000
Subject: [PATCH 47/52] fix: read the duplicate key error code

---
 crates/syntax/src/error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/syntax/src/error.rs b/crates/syntax/src/error.rs
index 094753b..76e39df 100644
--- a/crates/syntax/src/error.rs
+++ b/crates/syntax/src/error.rs
@@ -290,6 +290,7 @@ impl<'a> TryFrom<&'a str> for ErrorCode {
 			"multiple context link headers" => Ok(MultipleContextLinkHeaders),
 			"processing mode conflict" => Ok(ProcessingModeConflict),
 			"protected term redefinition" => Ok(ProtectedTermRedefinition),
+			"duplicate key" => Ok(DuplicateKey),
 			_ => Err(()),
 		}
 	}
-- 
2.43.0


From 335c09657d5658e568de98e74a08d0e649c1ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:23 +0000
Subject: [PATCH 48/52] fix: keep the final URL of documents loaded through
 HTTP redirections

---
 crates/core/src/loader/reqwest/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index abb9fff..7a4771a 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -163,6 +163,17 @@ impl Loader for ReqwestLoader {
 				.await
 				.map_err(|e| LoadError::new(url.clone(), e))?;
 
+			// The client may have followed HTTP redirections, in which case
+			// this is the response of another URL.
+			if let Ok(mut requested_url) = ::reqwest::Url::parse(url.as_str()) {
+				requested_url.set_fragment(response.url().fragment());
+				if requested_url != *response.url() {
+					if let Ok(final_url) = IriBuf::new(response.url().to_string()) {
+						url = final_url
+					}
+				}
+			}
+
 			match response.status() {
 				StatusCode::OK => {
 					let mut content_types = response
-- 
2.43.0


From 58ab4e21ce10e9575bd9728380dbcb9c3eb6e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:35 +0000
Subject: [PATCH 49/52] fix: accept all +json media types

---
 crates/core/src/loader/reqwest/content_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/loader/reqwest/content_type.rs b/crates/core/src/loader/reqwest/content_type.rs
index 6f13911..96e8168 100644
--- a/crates/core/src/loader/reqwest/content_type.rs
+++ b/crates/core/src/loader/reqwest/content_type.rs
@@ -104,7 +104,7 @@ impl ContentType {
 	}
 
 	pub fn is_json_ld(&self) -> bool {
-		self.media_type == "application/json" || self.media_type == "application/ld+json"
+		self.media_type == "application/json" || self.media_type.suffix() == Some(mime::JSON)
 	}
 
 	pub fn media_type(&self) -> &Mime {
-- 
2.43.0


From c55c10fc3d101ade0196b60bdc58406d5dffc9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:47 +0000
Subject: [PATCH 50/52] fix: read all the links of a Link header

---
 crates/core/src/loader/reqwest/link.rs | 51 +++++++++++++++++++++-----
 crates/core/src/loader/reqwest/mod.rs  | 50 +++++++++++++------------
 2 files changed, 69 insertions(+), 32 deletions(-)

diff --git a/crates/core/src/loader/reqwest/link.rs b/crates/core/src/loader/reqwest/link.rs
index 50b2a25..1adea38 100644
--- a/crates/core/src/loader/reqwest/link.rs
+++ b/crates/core/src/loader/reqwest/link.rs
@@ -8,7 +8,22 @@ pub struct Link {
 }
 
 impl Link {
+	/// Parses the first link of the given `Link` header value.
+	#[cfg(test)]
 	pub fn new(value: &HeaderValue) -> Option<Self> {
+		Self::parse(&mut value.as_bytes().iter())
+	}
+
+	/// Parses all the (comma separated) links of the given `Link` header value.
+	///
+	/// Stops at the first ill-formed link.
+	pub fn all(value: &HeaderValue) -> impl '_ + Iterator<Item = Self> {
+		let mut bytes = value.as_bytes().iter();
+		std::iter::from_fn(move || Self::parse(&mut bytes))
+	}
+
+	/// Parses the next link.
+	fn parse(bytes: &mut std::slice::Iter<u8>) -> Option<Self> {
 		enum State {
 			BeginHref,
 			Href,
@@ -16,6 +31,7 @@ impl Link {
 			BeginKey,
 			Key,
 			BeginValue,
+			QuotedValue,
 			Value,
 		}
 
@@ -25,12 +41,11 @@ impl Link {
 		let mut current_value = Vec::new();
 		let mut params = HashMap::new();
 
-		let mut bytes = value.as_bytes().iter();
-
 		loop {
 			match state {
 				State::BeginHref => match bytes.next().copied() {
 					Some(b'<') => state = State::Href,
+					Some(b' ' | b'\t' | b',') => (),
 					_ => break None,
 				},
 				State::Href => match bytes.next().copied() {
@@ -42,8 +57,9 @@ impl Link {
 				},
 				State::NextParam => match bytes.next().copied() {
 					Some(b';') => state = State::BeginKey,
-					Some(_) => break None,
-					None => {
+					Some(b' ' | b'\t') => (),
+					Some(b) if b != b',' => break None,
+					_ => {
 						break match IriRefBuf::from_vec(href) {
 							Ok(href) => Some(Self { href, params }),
 							Err(_) => None,
@@ -51,7 +67,7 @@ impl Link {
 					}
 				},
 				State::BeginKey => match bytes.next().copied() {
-					Some(b' ') => (),
+					Some(b' ' | b'\t') => (),
 					Some(b) => {
 						current_key.push(b);
 						state = State::Key
@@ -63,11 +79,14 @@ impl Link {
 					Some(b) => current_key.push(b),
 					None => break None,
 				},
-				State::BeginValue => match bytes.next().copied() {
-					Some(b'"') => state = State::Value,
-					_ => break None,
+				State::BeginValue => match bytes.as_slice().first().copied() {
+					Some(b'"') => {
+						bytes.next();
+						state = State::QuotedValue
+					}
+					_ => state = State::Value,
 				},
-				State::Value => match bytes.next().copied() {
+				State::QuotedValue => match bytes.next().copied() {
 					Some(b'"') => {
 						params.insert(
 							std::mem::take(&mut current_key),
@@ -79,6 +98,20 @@ impl Link {
 					Some(b) => current_value.push(b),
 					None => break None,
 				},
+				State::Value => match bytes.as_slice().first().copied() {
+					None | Some(b';' | b',' | b' ' | b'\t') => {
+						params.insert(
+							std::mem::take(&mut current_key),
+							std::mem::take(&mut current_value),
+						);
+
+						state = State::NextParam
+					}
+					Some(b) => {
+						current_value.push(b);
+						bytes.next();
+					}
+				},
 			}
 		}
 	}
diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index 7a4771a..2e13f00 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -186,20 +186,21 @@ impl Loader for ReqwestLoader {
 						Some(content_type) => {
 							let mut context_url = None;
 							if *content_type.media_type() != "application/ld+json" {
-								for link in response.headers().get_all(LINK).into_iter() {
-									if let Some(link) = Link::new(link) {
-										if link.rel()
-											== Some(b"http://www.w3.org/ns/json-ld#context")
-										{
-											if context_url.is_some() {
-												return Err(LoadError::new(
-													url,
-													Error::MultipleContextLinkHeaders,
-												));
-											}
-
-											context_url = Some(link.href().resolved(&url));
+								for link in response
+									.headers()
+									.get_all(LINK)
+									.into_iter()
+									.flat_map(Link::all)
+								{
+									if link.rel() == Some(b"http://www.w3.org/ns/json-ld#context") {
+										if context_url.is_some() {
+											return Err(LoadError::new(
+												url,
+												Error::MultipleContextLinkHeaders,
+											));
 										}
+
+										context_url = Some(link.href().resolved(&url));
 									}
 								}
 							}
@@ -235,16 +236,19 @@ impl Loader for ReqwestLoader {
 						}
 						None => {
 							log::debug!("no valid media type found");
-							for link in response.headers().get_all(LINK).into_iter() {
-								if let Some(link) = Link::new(link) {
-									if link.rel() == Some(b"alternate")
-										&& link.type_() == Some(b"application/ld+json")
-									{
-										log::debug!("link found");
-										url = link.href().resolved(&url);
-										redirection_number += 1;
-										continue 'next_url;
-									}
+							for link in response
+								.headers()
+								.get_all(LINK)
+								.into_iter()
+								.flat_map(Link::all)
+							{
+								if link.rel() == Some(b"alternate")
+									&& link.type_() == Some(b"application/ld+json")
+								{
+									log::debug!("link found");
+									url = link.href().resolved(&url);
+									redirection_number += 1;
+									continue 'next_url;
 								}
 							}
 
-- 
2.43.0


From b19f455694f5dc76bfcda78823806e9d24fe51b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:58 +0000
Subject: [PATCH 51/52] fix: quote the profile parameter of the Accept header

---
 crates/core/src/loader/reqwest/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index 2e13f00..e95375c 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -104,11 +104,7 @@ impl ReqwestLoader {
 		let mut json_ld_params = String::new();
 
 		if !options.request_profile.is_empty() {
-			json_ld_params.push_str("; profile=");
-
-			if options.request_profile.len() > 1 {
-				json_ld_params.push('"');
-			}
+			json_ld_params.push_str("; profile=\"");
 
 			for (i, p) in options.request_profile.iter().enumerate() {
 				if i > 0 {
@@ -118,9 +114,7 @@ impl ReqwestLoader {
 				json_ld_params.push_str(p.iri().as_str());
 			}
 
-			if options.request_profile.len() > 1 {
-				json_ld_params.push('"');
-			}
+			json_ld_params.push('"');
 		}
 
 		Self {
-- 
2.43.0


From 4e8515699acfdddf2706fee2e0f36d37642d6160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:56 +0000
Subject: [PATCH 52/52] fix: visit the items of lists and the keys of reverse
 properties when traversing fragments

---
 crates/core/src/object/list.rs     | 32 ++++++++++++++++++++++++++++++
 crates/core/src/object/mod.rs      |  3 +++
 crates/core/src/object/node/mod.rs | 17 +++++++++++-----
 3 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 3d9ac4b..5610894 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -214,6 +214,38 @@ pub enum FragmentRef<'a, T, B> {
 	Value(&'a [IndexedObject<T, B>]),
 }
 
+impl<'a, T, B> FragmentRef<'a, T, B> {
+	pub fn sub_fragments(&self) -> SubFragments<'a, T, B> {
+		match self {
+			Self::Entry(items) => SubFragments::Entry(Some(()), Some(items)),
+			Self::Key => SubFragments::None,
+			Self::Value(items) => SubFragments::Value(items.iter()),
+		}
+	}
+}
+
+pub enum SubFragments<'a, T, B> {
+	None,
+	Entry(Option<()>, Option<&'a [IndexedObject<T, B>]>),
+	Value(std::slice::Iter<'a, IndexedObject<T, B>>),
+}
+
+impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
+	type Item = super::FragmentRef<'a, T, B>;
+
+	fn next(&mut self) -> Option<Self::Item> {
+		match self {
+			Self::None => None,
+			Self::Entry(k, v) => k
+				.take()
+				.map(|()| FragmentRef::Key)
+				.or_else(|| v.take().map(FragmentRef::Value))
+				.map(super::FragmentRef::ListFragment),
+			Self::Value(items) => items.next().map(super::FragmentRef::IndexedObject),
+		}
+	}
+}
+
 impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for List<T, B> {
 	fn into_json_with(self, vocabulary: &N) -> json_syntax::Value {
 		let mut obj = json_syntax::Object::new();
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index 94b11f1..8f458da 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -1077,6 +1077,7 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 			}
 			Self::IndexedNodeList(l) => SubFragments::IndexedNodeList(l.iter()),
 			Self::ValueFragment(i) => SubFragments::Value(i.sub_fragments()),
+			Self::ListFragment(i) => SubFragments::List(i.sub_fragments()),
 			Self::NodeFragment(i) => SubFragments::Node(i.sub_fragments()),
 			_ => SubFragments::None,
 		}
@@ -1112,6 +1113,7 @@ pub enum SubFragments<'a, T, B> {
 	IndexEntry(Option<()>, Option<&'a str>),
 	Object(Option<&'a str>, ObjectSubFragments<'a, T, B>),
 	Value(value::SubFragments<'a, T>),
+	List(list::SubFragments<'a, T, B>),
 	Node(node::SubFragments<'a, T, B>),
 	IndexedNodeList(std::slice::Iter<'a, IndexedNode<T, B>>),
 }
@@ -1131,6 +1133,7 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 				None => i.next(),
 			},
 			Self::Value(i) => i.next().map(FragmentRef::ValueFragment),
+			Self::List(i) => i.next(),
 			Self::Node(i) => i.next(),
 			Self::IndexedNodeList(i) => i.next().map(FragmentRef::IndexedNode),
 		}
diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index bb3a044..0dc94af 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -875,7 +875,7 @@ impl<'a, T, B> EntryValueRef<'a, T, B> {
 			Self::Type(l) => SubFragments::Type(l.iter()),
 			Self::Graph(g) => SubFragments::Graph(g.iter()),
 			Self::Included(i) => SubFragments::Included(i.iter()),
-			Self::Reverse(r) => SubFragments::Reverse(r.iter()),
+			Self::Reverse(r) => SubFragments::Reverse(r.iter(), None),
 			Self::Property(p) => SubFragments::Property(p.iter()),
 			_ => SubFragments::None,
 		}
@@ -1199,7 +1199,10 @@ pub enum SubFragments<'a, T, B> {
 	Type(std::slice::Iter<'a, Id<T, B>>),
 	Graph(indexmap::set::Iter<'a, IndexedObject<T, B>>),
 	Included(indexmap::set::Iter<'a, IndexedNode<T, B>>),
-	Reverse(reverse_properties::Iter<'a, T, B>),
+	Reverse(
+		reverse_properties::Iter<'a, T, B>,
+		Option<&'a [IndexedNode<T, B>]>,
+	),
 	Property(std::slice::Iter<'a, IndexedObject<T, B>>),
 }
 
@@ -1221,9 +1224,13 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 				.map(|t| super::FragmentRef::NodeFragment(FragmentRef::TypeFragment(t))),
 			Self::Graph(g) => g.next().map(|o| super::FragmentRef::IndexedObject(o)),
 			Self::Included(i) => i.next().map(|n| super::FragmentRef::IndexedNode(n)),
-			Self::Reverse(r) => r
-				.next()
-				.map(|(_, n)| super::FragmentRef::IndexedNodeList(n)),
+			Self::Reverse(r, nodes) => match nodes.take() {
+				Some(n) => Some(super::FragmentRef::IndexedNodeList(n)),
+				None => r.next().map(|(id, n)| {
+					*nodes = Some(n);
+					super::FragmentRef::NodeFragment(FragmentRef::Key(EntryKeyRef::Property(id)))
+				}),
+			},
 			Self::Property(o) => o.next().map(|o| super::FragmentRef::IndexedObject(o)),
 		}
 	}
-- 
2.43.0

