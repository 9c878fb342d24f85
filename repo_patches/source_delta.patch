From 2664f0c2af3c30ebc8e62fccbb7c3ed9ef5597d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:55 +0000
Subject: [PATCH 01/73] fix: track a remote context only while it is being
 processed

The processing stack was shared between the entries of a context array, so a
context included twice was skipped the second time and @base was ignored in
entries following a remote context.
---
 crates/context-processing/src/algorithm/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index caaa5ed..bf66055 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -74,7 +74,7 @@ async fn process_context<'l: 'a, 'a, N, L, W>(
 	mut env: Environment<'a, N, L, W>,
 	active_context: &'a Context<N::Iri, N::BlankId>,
 	local_context: &'l syntax::context::Context,
-	mut remote_contexts: ProcessingStack<N::Iri>,
+	remote_contexts: ProcessingStack<N::Iri>,
 	base_url: Option<N::Iri>,
 	mut options: Options,
 ) -> ProcessingResult<'l, N::Iri, N::BlankId>
@@ -165,6 +165,9 @@ where
 				// If the document has no top-level map with an @context entry, an invalid remote
 				// context has been detected and processing is aborted.
 				// Set loaded context to the value of that entry.
+				// Each entry works on its own copy: a remote context is only in the stack
+				// while it is being processed.
+				let mut remote_contexts = remote_contexts.clone();
 				if remote_contexts.push(context_iri.clone()) {
 					let loaded_context = env
 						.loader
@@ -192,7 +195,7 @@ where
 						},
 						&result,
 						&loaded_context,
-						remote_contexts.clone(),
+						remote_contexts,
 						Some(context_iri),
 						new_options,
 					))
-- 
2.43.0


From 9ec7de721eaa5f5650a050cdbd567e0492be1956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:20 +0000
Subject: [PATCH 02/73] fix: define term dependencies like any other term of
 the context

Terms defined on demand, because another term depends on them, lost the base
URL, the context's @protected value and the override flag, so the result
depended on the order of the entries of the context.
---
 crates/context-processing/src/algorithm/define.rs | 14 +++++++++++---
 crates/context-processing/src/algorithm/iri.rs    | 14 ++++++++------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 13125f0..2b89167 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -213,6 +213,8 @@ where
 							local_context,
 							defined,
 							remote_contexts.clone(),
+							base_url.clone(),
+							protected,
 							options,
 						)
 						.await?;
@@ -270,6 +272,8 @@ where
 							local_context,
 							defined,
 							remote_contexts,
+							base_url,
+							protected,
 							options,
 						)
 						.await?
@@ -354,6 +358,8 @@ where
 										local_context,
 										defined,
 										remote_contexts.clone(),
+										base_url.clone(),
+										protected,
 										options,
 									)
 									.await?
@@ -400,6 +406,8 @@ where
 											local_context,
 											defined,
 											remote_contexts.clone(),
+											base_url.clone(),
+											protected,
 											options,
 										)
 										.await?;
@@ -449,9 +457,9 @@ where
 										KeyOrKeywordRef::Key(compact_iri.prefix().into()),
 										defined,
 										remote_contexts.clone(),
-										None,
-										false,
-										options.with_no_override(),
+										base_url.clone(),
+										protected,
+										options,
 									))
 									.await?;
 
diff --git a/crates/context-processing/src/algorithm/iri.rs b/crates/context-processing/src/algorithm/iri.rs
index f53b3cb..5b4d5dd 100644
--- a/crates/context-processing/src/algorithm/iri.rs
+++ b/crates/context-processing/src/algorithm/iri.rs
@@ -34,6 +34,8 @@ pub async fn expand_iri_with<'a, N, L, W>(
 	local_context: &'a Merged<'a>,
 	defined: &'a mut DefinedTerms,
 	remote_contexts: ProcessingStack<N::Iri>,
+	base_url: Option<N::Iri>,
+	protected: bool,
 	options: Options,
 ) -> ExpandIriResult<N::Iri, N::BlankId>
 where
@@ -67,9 +69,9 @@ where
 				value.into(),
 				defined,
 				remote_contexts.clone(),
-				None,
-				false,
-				options.with_no_override(),
+				base_url.clone(),
+				protected,
+				options,
 			))
 			.await?;
 
@@ -120,9 +122,9 @@ where
 						KeyOrKeywordRef::Key(compact_iri.prefix().into()),
 						defined,
 						remote_contexts,
-						None,
-						false,
-						options.with_no_override(),
+						base_url,
+						protected,
+						options,
 					))
 					.await?;
 
-- 
2.43.0


From 98094dc189241e8947e664960b66219ab07d136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 03/73] fix: only reject the empty term when the context
 defines it

---
 crates/context-processing/src/algorithm/define.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 2b89167..0a2620d 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -104,13 +104,13 @@ where
 {
 	let term = term.to_owned();
 	if defined.begin(&term)? {
-		if term.is_empty() {
-			return Err(Error::InvalidTermDefinition);
-		}
-
 		// Initialize `value` to a copy of the value associated with the entry `term` in
 		// `local_context`.
 		if let Some(value) = local_context.get(&term) {
+			if term.is_empty() {
+				return Err(Error::InvalidTermDefinition);
+			}
+
 			// Set the value associated with defined's term entry to false.
 			// This indicates that the term definition is now being created but is not yet
 			// complete.
-- 
2.43.0


From a2d1b6fd80013df203f970883114d8b4bed34142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 04/73] fix: reverse terms cannot redefine protected terms

---
 crates/context-processing/src/algorithm/define.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 0a2620d..3ba62a9 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -310,6 +310,21 @@ where
 						// Set the `reverse_property` flag of `definition` to `true`.
 						definition.reverse_property = true;
 
+						// A protected term can only be redefined with the same definition.
+						if !options.override_protected {
+							if let Some(previous_definition) = previous_definition {
+								if previous_definition.protected {
+									if definition.modulo_protected_field()
+										!= previous_definition.modulo_protected_field()
+									{
+										return Err(Error::ProtectedTermRedefinition);
+									}
+
+									definition.protected = true;
+								}
+							}
+						}
+
 						// Set the term definition of `term` in `active_context` to
 						// `definition` and the value associated with `defined`'s entry `term`
 						// to `true` and return.
-- 
2.43.0


From 99b5eaf321a3f764a6fd0d17f7bb17c93162463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 05/73] fix: a context's @protected entry also protects @type

---
 crates/context-processing/src/algorithm/define.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 3ba62a9..8761320 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -135,7 +135,7 @@ where
 					// Checked during parsing.
 					let mut definition = TypeTermDefinition {
 						container: d.container,
-						..Default::default()
+						protected,
 					};
 
 					if let Some(protected) = d.protected {
-- 
2.43.0


From 16f447aab99b3a6732c40afba7cdec372af88892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:25 +0000
Subject: [PATCH 06/73] fix: ignore terms having the form of a keyword

---
 crates/context-processing/src/algorithm/define.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 8761320..6e1bd7d 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -10,7 +10,7 @@ use json_ld_syntax::{
 		definition::{EntryValueRef, KeyOrKeyword, KeyOrKeywordRef},
 		term_definition::{self, IdRef},
 	},
-	CompactIri, ContainerKind, ExpandableRef, Keyword, LenientLangTag, Nullable,
+	is_keyword_like, CompactIri, ContainerKind, ExpandableRef, Keyword, LenientLangTag, Nullable,
 };
 use rdf_types::{BlankId, VocabularyMut};
 use std::{collections::HashMap, hash::Hash};
@@ -170,6 +170,17 @@ where
 				}
 				EntryValueRef::Definition(d) => {
 					let key = term.as_key().unwrap();
+
+					// Terms having the form of a keyword are ignored; processors SHOULD
+					// generate a warning.
+					if is_keyword_like(key.as_str()) {
+						env.warnings.handle(
+							env.vocabulary,
+							Warning::KeywordLikeTerm(key.to_string()),
+						);
+						return Ok(());
+					}
+
 					// Initialize `previous_definition` to any existing term definition for `term` in
 					// `active_context`, removing that term definition from active context.
 					let previous_definition = active_context.set_normal(key.clone(), None);
-- 
2.43.0


From 0a17f1801a9bb282a8c2b06a756c649307b5f082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:57 +0000
Subject: [PATCH 07/73] fix: reject a term whose @id expands to null

---
 crates/context-processing/src/algorithm/define.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 6e1bd7d..86714fd 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -395,6 +395,11 @@ where
 											// been detected and processing is aborted.
 											return Err(Error::InvalidKeywordAlias);
 										}
+										Some(Term::Null) => {
+											// The term would be mapped to nothing, which only
+											// an explicit `null` can ask for.
+											return Err(Error::InvalidIriMapping);
+										}
 										Some(Term::Id(prop)) if !prop.is_valid() => {
 											// If the resulting IRI mapping is neither a keyword,
 											// nor an IRI, nor a blank node identifier, an
-- 
2.43.0


From 5140838b081375f0e536a5f5a648d763a1081b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:08 +0000
Subject: [PATCH 08/73] fix: do not panic on a term without IRI mapping

---
 crates/context-processing/src/algorithm/define.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 86714fd..b9fdf08 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -454,10 +454,9 @@ where
 									// `definition` to true.
 									if !key.as_str().contains(':')
 										&& !key.as_str().contains('/') && simple_term
-										&& is_gen_delim_or_blank(
-											env.vocabulary,
-											definition.value.as_ref().unwrap(),
-										) {
+										&& definition.value.as_ref().is_some_and(|value| {
+											is_gen_delim_or_blank(env.vocabulary, value)
+										}) {
 										definition.prefix = true;
 									}
 								}
@@ -776,7 +775,12 @@ where
 						// If the `prefix` flag of `definition` is set to `true`, and its IRI
 						// mapping is a keyword, an invalid term definition has been detected and
 						// processing is aborted.
-						if definition.prefix && definition.value.as_ref().unwrap().is_keyword() {
+						if definition.prefix
+							&& definition
+								.value
+								.as_ref()
+								.is_some_and(|value| value.is_keyword())
+						{
 							return Err(Error::InvalidTermDefinition);
 						}
 					}
-- 
2.43.0


From 1c32a912b8d0da2845e80150d4e0c0c3fe43be1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:19 +0000
Subject: [PATCH 09/73] fix: an @index property can be defined after the term
 using it

---
 .../context-processing/src/algorithm/define.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index b9fdf08..7bffeeb 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -672,13 +672,25 @@ where
 						// which MUST be a string expanding to an IRI.
 						// Otherwise, an invalid term definition has been detected and processing
 						// is aborted.
-						match expand_iri_simple(
-							&mut env,
+						match expand_iri_with(
+							Environment {
+								vocabulary: env.vocabulary,
+								loader: env.loader,
+								warnings: env.warnings,
+							},
 							active_context,
 							Nullable::Some(index_value.as_str().into()),
 							false,
 							Some(options.vocab),
-						)? {
+							local_context,
+							defined,
+							remote_contexts.clone(),
+							base_url.clone(),
+							protected,
+							options,
+						)
+						.await?
+						{
 							Some(Term::Id(Id::Valid(ValidId::Iri(_)))) => (),
 							_ => return Err(Error::InvalidTermDefinition),
 						}
-- 
2.43.0


From 12b5813b57909382909f4471625e7bab305e03a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:34 +0000
Subject: [PATCH 10/73] fix: @graph, @set and @index make a graph index
 container, not a graph id container

---
 crates/core/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/container.rs b/crates/core/src/container.rs
index a604816..07b0fac 100644
--- a/crates/core/src/container.rs
+++ b/crates/core/src/container.rs
@@ -140,7 +140,7 @@ impl Container {
 			(Container::GraphSet, ContainerKind::Graph) => *self,
 			(Container::GraphSet, ContainerKind::Set) => *self,
 			(Container::GraphSet, ContainerKind::Id) => Container::GraphIdSet,
-			(Container::GraphSet, ContainerKind::Index) => Container::GraphIdSet,
+			(Container::GraphSet, ContainerKind::Index) => Container::GraphIndexSet,
 			(Container::GraphId, ContainerKind::Graph) => *self,
 			(Container::GraphId, ContainerKind::Id) => *self,
 			(Container::GraphId, ContainerKind::Set) => Container::GraphIdSet,
-- 
2.43.0


From bdb33615557f746a7ae07c6f442df671f236d22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:45 +0000
Subject: [PATCH 11/73] fix: report invalid remote contexts as such

---
 crates/context-processing/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/context-processing/src/lib.rs b/crates/context-processing/src/lib.rs
index 9a0bdb2..ab01d99 100644
--- a/crates/context-processing/src/lib.rs
+++ b/crates/context-processing/src/lib.rs
@@ -139,7 +139,8 @@ impl Error {
 			Self::InvalidScopedContext => ErrorCode::InvalidScopedContext,
 			Self::ProtectedTermRedefinition => ErrorCode::ProtectedTermRedefinition,
 			Self::ContextLoadingFailed(_) => ErrorCode::LoadingRemoteContextFailed,
-			Self::ContextExtractionFailed(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextExtractionFailed(ExtractContextError::Syntax(e)) => e.code(),
+			Self::ContextExtractionFailed(_) => ErrorCode::InvalidRemoteContext,
 			Self::ForbiddenVocab => ErrorCode::InvalidVocabMapping,
 		}
 	}
-- 
2.43.0


From 2a501f29fc7cea79c8ca5a628aa3cff6d59ca35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:56 +0000
Subject: [PATCH 12/73] fix: resolve references in a remote context against its
 final URL

---
 crates/context-processing/src/algorithm/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index bf66055..69e390b 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -169,10 +169,17 @@ where
 				// while it is being processed.
 				let mut remote_contexts = remote_contexts.clone();
 				if remote_contexts.push(context_iri.clone()) {
-					let loaded_context = env
+					let context_document = env
 						.loader
 						.load_with(env.vocabulary, context_iri.clone())
-						.await?
+						.await?;
+
+					let document_url = context_document
+						.url()
+						.cloned()
+						.unwrap_or_else(|| context_iri.clone());
+
+					let loaded_context = context_document
 						.into_document()
 						.into_ld_context()
 						.map_err(Error::ContextExtractionFailed)?;
@@ -196,7 +203,7 @@ where
 						&result,
 						&loaded_context,
 						remote_contexts,
-						Some(context_iri),
+						Some(document_url),
 						new_options,
 					))
 					.await?;
-- 
2.43.0


From fbd0f2867887c1c9d9922144e2ad9b219199afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:42 +0000
Subject: [PATCH 13/73] fix: reject keyword redefinitions

---
 crates/context-processing/src/algorithm/define.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 7bffeeb..6d0543e 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -171,6 +171,11 @@ where
 				EntryValueRef::Definition(d) => {
 					let key = term.as_key().unwrap();
 
+					// Keywords cannot be redefined.
+					if Keyword::try_from(key.as_str()).is_ok() {
+						return Err(Error::KeywordRedefinition);
+					}
+
 					// Terms having the form of a keyword are ignored; processors SHOULD
 					// generate a warning.
 					if is_keyword_like(key.as_str()) {
-- 
2.43.0


From a50bafeb8734a001f19feb608fc844f66b7ee6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 14/73] fix: derive term IRIs from blank node prefixes and
 vocabularies

---
 .../src/algorithm/define.rs                   | 59 +++++++++----------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 6d0543e..4e4a468 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -1,6 +1,7 @@
 use super::{expand_iri_simple, expand_iri_with, Environment, Merged};
 use crate::{Error, Options, ProcessingStack, Warning, WarningHandler};
-use iref::{Iri, IriRef};
+use contextual::WithContext;
+use iref::IriRef;
 use json_ld_core::{
 	context::{NormalTermDefinition, TypeTermDefinition},
 	Container, Context, Id, Loader, ProcessingMode, Term, Type, ValidId,
@@ -506,23 +507,23 @@ where
 									{
 										let mut result = String::new();
 
-										if let Some(prefix_key) = prefix_definition.value() {
-											if let Some(prefix_iri) = prefix_key.as_iri() {
-												result = env
-													.vocabulary
-													.iri(prefix_iri)
-													.unwrap()
-													.to_string()
-											}
+										if let Some(Term::Id(prefix_id)) = prefix_definition.value()
+										{
+											result = prefix_id
+												.with(&*env.vocabulary)
+												.as_str()
+												.to_string()
 										}
 
 										result.push_str(compact_iri.suffix());
 
-										if let Ok(iri) = Iri::new(result.as_str()) {
-											definition.value =
-												Some(Term::Id(Id::iri(env.vocabulary.insert(iri))))
-										} else {
-											return Err(Error::InvalidIriMapping);
+										match Id::from_string_in(env.vocabulary, result) {
+											id @ Id::Valid(_) => {
+												definition.value = Some(Term::Id(id))
+											}
+											Id::Invalid(_) => {
+												return Err(Error::InvalidIriMapping)
+											}
 										}
 									}
 								}
@@ -576,25 +577,19 @@ where
 											// associated with the vocabulary mapping and `term`.
 											// If it does not have a vocabulary mapping, an invalid IRI mapping error
 											// been detected and processing is aborted.
-											if let Some(vocabulary_iri) =
-												context_vocabulary.as_iri()
-											{
-												let mut result = env
-													.vocabulary
-													.iri(vocabulary_iri)
-													.unwrap()
-													.to_string();
-												result.push_str(key.as_str());
-												if let Ok(iri) = Iri::new(result.as_str()) {
-													definition.value =
-														Some(Term::<N::Iri, N::BlankId>::from(
-															env.vocabulary.insert(iri),
-														))
-												} else {
-													return Err(Error::InvalidIriMapping);
+											let mut result = context_vocabulary
+												.with(&*env.vocabulary)
+												.as_str()
+												.to_string();
+											result.push_str(key.as_str());
+
+											match Id::from_string_in(env.vocabulary, result) {
+												id @ Id::Valid(_) => {
+													definition.value = Some(Term::Id(id))
+												}
+												Id::Invalid(_) => {
+													return Err(Error::InvalidIriMapping)
 												}
-											} else {
-												return Err(Error::InvalidIriMapping);
 											}
 										} else {
 											// If it does not have a vocabulary mapping, an invalid IRI mapping error
-- 
2.43.0


From 2870476fbb488985a7955ba6336cb72009b8cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:27 +0000
Subject: [PATCH 15/73] fix: reject @propagate in json-ld-1.0 mode inside
 arrays too

---
 crates/context-processing/src/algorithm/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 69e390b..54f23e1 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -278,6 +278,7 @@ where
 					None => None,
 				};
 
+				let has_propagate_entry = context.propagate.is_some();
 				let context = Merged::new(context, import_context);
 
 				// 5.7) If context has a @base entry and remote contexts is empty, i.e.,
@@ -367,6 +368,14 @@ where
 					}
 				}
 
+				// 5.11) If context has a @propagate entry and processing mode is json-ld-1.0, an
+				// invalid context entry error has been detected and processing is aborted.
+				if has_propagate_entry
+					&& options.processing_mode == ProcessingMode::JsonLd1_0
+				{
+					return Err(Error::InvalidContextEntry);
+				}
+
 				// 5.12) Create a map `defined` to keep track of whether or not a term
 				// has already been defined or is currently being defined during recursion.
 				let mut defined = DefinedTerms::new();
-- 
2.43.0


From 900ca530f96992281c557d336e3d8ae1516ec1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 16/73] fix: reject a vocabulary mapping that does not expand
 to an IRI

---
 crates/context-processing/src/algorithm/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 54f23e1..da9f5b1 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -3,6 +3,7 @@ use std::hash::Hash;
 use crate::{
 	Error, Options, Process, Processed, ProcessingResult, ProcessingStack, WarningHandler,
 };
+use contextual::WithContext;
 use iref::IriRef;
 use json_ld_core::{Context, Environment, ExtractContext, Loader, ProcessingMode, Term};
 use json_ld_syntax::{self as syntax, Nullable};
@@ -327,7 +328,10 @@ where
 								true,
 								Some(options.vocab),
 							)? {
-								Some(Term::Id(vocab)) => {
+								Some(Term::Id(vocab))
+									if vocab.is_valid()
+										|| vocab.with(&*env.vocabulary).as_str() == "_:" =>
+								{
 									result.set_vocabulary(Some(Term::Id(vocab)))
 								}
 								_ => return Err(Error::InvalidVocabMapping),
-- 
2.43.0


From 8a2b5a5e6d8ca1adecab00876b42d2248a3e27c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 17/73] fix: do not overflow the stack on a scoped context
 importing its own context

---
 .../context-processing/src/algorithm/mod.rs   | 10 +++++++
 crates/context-processing/src/stack.rs        | 30 ++++++++++++++++++-
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index da9f5b1..da6549b 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -224,6 +224,10 @@ where
 					}
 				}
 
+				// Like remote contexts, an imported context is in the stack while the terms
+				// it defines are being processed.
+				let mut remote_contexts = remote_contexts.clone();
+
 				// 5.6) If context has an @import entry:
 				let import_context = match &context.import {
 					Some(import_value) => {
@@ -242,6 +246,12 @@ where
 						)
 						.ok_or(Error::InvalidImportValue)?;
 
+						// The context is already being imported: one of its own terms has a
+						// scoped context importing it.
+						if !remote_contexts.push_import(import.clone()) {
+							continue;
+						}
+
 						// 5.6.4) Dereference import.
 						let import_context = env
 							.loader
diff --git a/crates/context-processing/src/stack.rs b/crates/context-processing/src/stack.rs
index 4288450..ee0df47 100644
--- a/crates/context-processing/src/stack.rs
+++ b/crates/context-processing/src/stack.rs
@@ -37,12 +37,18 @@ impl<I> StackNode<I> {
 #[derive(Clone)]
 pub struct ProcessingStack<I> {
 	head: Option<Arc<StackNode<I>>>,
+
+	/// Imported contexts, which are not remote contexts on their own.
+	imports: Option<Arc<StackNode<I>>>,
 }
 
 impl<I> ProcessingStack<I> {
 	/// Creates a new empty processing stack.
 	pub fn new() -> Self {
-		Self { head: None }
+		Self {
+			head: None,
+			imports: None,
+		}
 	}
 
 	/// Checks if the stack is empty.
@@ -80,6 +86,28 @@ impl<I> ProcessingStack<I> {
 			true
 		}
 	}
+
+	/// Push the URL of an imported context to the stack, unless it is already
+	/// being imported.
+	///
+	/// Returns `true` if the URL was successfully added or
+	/// `false` if a loop has been detected.
+	pub fn push_import(&mut self, url: I) -> bool
+	where
+		I: PartialEq,
+	{
+		if self
+			.imports
+			.as_ref()
+			.is_some_and(|imports| imports.contains(&url))
+		{
+			false
+		} else {
+			let imports = self.imports.take();
+			self.imports = Some(Arc::new(StackNode::new(imports, url)));
+			true
+		}
+	}
 }
 
 impl<I> Default for ProcessingStack<I> {
-- 
2.43.0


From 968963b7fe6d6dc571c63e0ef05a0bb24435605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 18/73] fix: ignore @context and undefined keys in value, list
 and set objects

---
 crates/expansion/src/element.rs | 22 ++++++++++++++++++++--
 crates/expansion/src/value.rs   |  7 ++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index a96e6ef..d8b23c8 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -2,12 +2,13 @@ use crate::{
 	expand_array, expand_iri, expand_literal, expand_node, expand_value, Error, Expanded,
 	GivenLiteralValue, LiteralValue, Loader, Options, Warning, WarningHandler,
 };
+use contextual::WithContext;
 use json_ld_context_processing::{Options as ProcessingOptions, Process};
 use json_ld_core::{object, Context, Environment, Id, Indexed, Object, Term, ValidId};
 use json_ld_syntax::{Keyword, Nullable};
 use json_syntax::{object::Entry, Value};
 use mown::Mown;
-use rdf_types::VocabularyMut;
+use rdf_types::{Vocabulary, VocabularyMut};
 use std::{borrow::Cow, hash::Hash};
 
 pub(crate) struct ExpandedEntry<'a, T, B>(pub &'a str, pub Term<T, B>, pub &'a Value);
@@ -61,6 +62,19 @@ impl<'a> PartialEq<Keyword> for ActiveProperty<'a> {
 	}
 }
 
+/// Checks if entries with the given expanded key are dropped by the expansion
+/// algorithm: those whose key is neither a keyword nor contains a colon (`:`).
+pub(crate) fn is_dropped<N>(vocabulary: &N, expanded_key: &Term<N::Iri, N::BlankId>) -> bool
+where
+	N: Vocabulary,
+{
+	match expanded_key {
+		Term::Null => true,
+		Term::Id(id) => !id.with(vocabulary).as_str().contains(':'),
+		Term::Keyword(_) => false,
+	}
+}
+
 /// Result of the expansion of a single element in a JSON-LD document.
 pub(crate) type ElementExpansionResult<T, B> = Result<Expanded<T, B>, Error>;
 
@@ -332,6 +346,8 @@ where
 
 				if let Some(expanded_key) = expanded_key {
 					match &expanded_key {
+						// The `@context` entry has already been processed.
+						Term::Keyword(Keyword::Context) => continue,
 						Term::Keyword(Keyword::Value) => value_entry = Some(value.clone()),
 						Term::Keyword(Keyword::List) => {
 							if active_property.is_some() && active_property != Keyword::Graph {
@@ -360,6 +376,7 @@ where
 							None => return Err(Error::InvalidIndexValue),
 						},
 						Term::Keyword(Keyword::List) => (),
+						key if options.policy.allow_undefined && is_dropped(env.vocabulary, &key) => (),
 						_ => return Err(Error::InvalidSetOrListObject),
 					}
 				}
@@ -401,6 +418,7 @@ where
 							// but is ignored.
 						}
 						Term::Keyword(Keyword::Set) => (),
+						key if options.policy.allow_undefined && is_dropped(env.vocabulary, &key) => (),
 						_ => return Err(Error::InvalidSetOrListObject),
 					}
 				}
@@ -422,7 +440,7 @@ where
 				// Value objects.
 				let expanded_value = expand_value(
 					&mut env,
-					options.policy.vocab,
+					options,
 					input_type,
 					type_scoped_context,
 					expanded_entries,
diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 084fe6c..150337d 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -1,4 +1,4 @@
-use crate::{expand_iri, Action, ExpandedEntry, Warning, WarningHandler};
+use crate::{expand_iri, is_dropped, ExpandedEntry, Options, Warning, WarningHandler};
 use json_ld_context_processing::algorithm::RejectVocab;
 use json_ld_core::{
 	object::value::Literal, Context, Environment, Id, Indexed, IndexedObject, LangString, Object,
@@ -60,7 +60,7 @@ pub type ValueExpansionResult<T, B> = Result<Option<IndexedObject<T, B>>, Invali
 /// Expand a value object.
 pub(crate) fn expand_value<N, L, W>(
 	env: &mut Environment<N, L, W>,
-	vocab_policy: Action,
+	options: Options,
 	input_type: Option<Term<N::Iri, N::BlankId>>,
 	type_scoped_context: &Context<N::Iri, N::BlankId>,
 	expanded_entries: Vec<ExpandedEntry<N::Iri, N::BlankId>>,
@@ -136,7 +136,7 @@ where
 						type_scoped_context,
 						Nullable::Some(ty_value.into()),
 						true,
-						Some(vocab_policy),
+						Some(options.policy.vocab),
 					)?;
 
 					match expanded_ty {
@@ -154,6 +154,7 @@ where
 				}
 			}
 			Term::Keyword(Keyword::Value) => (),
+			key if options.policy.allow_undefined && is_dropped(env.vocabulary, &key) => (),
 			_ => {
 				return Err(InvalidValue::ValueObject);
 			}
-- 
2.43.0


From dfc2c72c81a423f14626085ac4b99190fc457bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:24 +0000
Subject: [PATCH 19/73] fix: detect all colliding keywords, whatever the order
 of entries

---
 crates/expansion/src/element.rs | 48 ++++++++++++++++++++++--
 crates/expansion/src/node.rs    | 66 ++++++++++++++++-----------------
 2 files changed, 78 insertions(+), 36 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index d8b23c8..13b4f77 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -4,7 +4,9 @@ use crate::{
 };
 use contextual::WithContext;
 use json_ld_context_processing::{Options as ProcessingOptions, Process};
-use json_ld_core::{object, Context, Environment, Id, Indexed, Object, Term, ValidId};
+use json_ld_core::{
+	object, Context, Environment, Id, Indexed, Object, ProcessingMode, Term, ValidId,
+};
 use json_ld_syntax::{Keyword, Nullable};
 use json_syntax::{object::Entry, Value};
 use mown::Mown;
@@ -75,6 +77,26 @@ where
 	}
 }
 
+/// Checks if several entries of a same object may expand to the given keyword.
+///
+/// If not, having more than one of them is a colliding keywords error.
+pub(crate) fn may_repeat(keyword: Keyword, processing_mode: ProcessingMode) -> bool {
+	match keyword {
+		Keyword::Type => processing_mode != ProcessingMode::JsonLd1_0,
+		// Ignored in json-ld-1.0 mode.
+		Keyword::Direction => processing_mode == ProcessingMode::JsonLd1_0,
+		Keyword::Id
+		| Keyword::Graph
+		| Keyword::Value
+		| Keyword::Language
+		| Keyword::Index
+		| Keyword::List
+		| Keyword::Set
+		| Keyword::Reverse => false,
+		_ => true,
+	}
+}
+
 /// Result of the expansion of a single element in a JSON-LD document.
 pub(crate) type ElementExpansionResult<T, B> = Result<Expanded<T, B>, Error>;
 
@@ -345,6 +367,18 @@ where
 				)?;
 
 				if let Some(expanded_key) = expanded_key {
+					// Two keys expanding to the same keyword collide.
+					if let Term::Keyword(keyword) = expanded_key {
+						if active_property != Keyword::Reverse
+							&& !may_repeat(keyword, options.processing_mode)
+							&& expanded_entries
+								.iter()
+								.any(|ExpandedEntry(_, e, _)| *e == expanded_key)
+						{
+							return Err(Error::CollidingKeywords);
+						}
+					}
+
 					match &expanded_key {
 						// The `@context` entry has already been processed.
 						Term::Keyword(Keyword::Context) => continue,
@@ -376,7 +410,11 @@ where
 							None => return Err(Error::InvalidIndexValue),
 						},
 						Term::Keyword(Keyword::List) => (),
-						key if options.policy.allow_undefined && is_dropped(env.vocabulary, &key) => (),
+						key if options.policy.allow_undefined
+							&& is_dropped(env.vocabulary, &key) =>
+						{
+							()
+						}
 						_ => return Err(Error::InvalidSetOrListObject),
 					}
 				}
@@ -418,7 +456,11 @@ where
 							// but is ignored.
 						}
 						Term::Keyword(Keyword::Set) => (),
-						key if options.policy.allow_undefined && is_dropped(env.vocabulary, &key) => (),
+						key if options.policy.allow_undefined
+							&& is_dropped(env.vocabulary, &key) =>
+						{
+							()
+						}
 						_ => return Err(Error::InvalidSetOrListObject),
 					}
 				}
diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 8be89eb..ab34d96 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -1,6 +1,6 @@
 use crate::{
-	expand_element, expand_iri, expand_literal, filter_top_level_item, Action, ActiveProperty,
-	Error, Expanded, ExpandedEntry, LiteralValue, Options, Warning, WarningHandler,
+	expand_element, expand_iri, expand_literal, filter_top_level_item, may_repeat, Action,
+	ActiveProperty, Error, Expanded, ExpandedEntry, LiteralValue, Options, Warning, WarningHandler,
 };
 use contextual::WithContext;
 use indexmap::IndexSet;
@@ -47,10 +47,10 @@ where
 	// let mut result = Indexed::new(Node::new(), None);
 	// let mut has_value_object_entries = false;
 
-	let (result, has_value_object_entries) = expand_node_entries(
+	let (result, keywords) = expand_node_entries(
 		env,
 		Indexed::new(Node::new(), None),
-		false,
+		Vec::new(),
 		active_context,
 		type_scoped_context,
 		active_property,
@@ -72,6 +72,8 @@ where
 	// Otherwise, if result contains the entry @set or @list:
 	// FIXME TODO
 
+	let has_value_object_entries =
+		keywords.contains(&Keyword::Language) || keywords.contains(&Keyword::Direction);
 	if has_value_object_entries && result.is_empty() && result.id.is_none() {
 		return Ok(None);
 	}
@@ -95,9 +97,8 @@ where
 /// Type returned by the `expand_node_entries` function.
 ///
 /// It is a tuple containing both the node being expanded
-/// and a boolean flag set to `true` if the node contains
-/// value object entries (in practice, if it has a `@language` entry).
-type ExpandedNode<T, B> = (Indexed<Node<T, B>>, bool);
+/// and the keywords the keys of its entries expanded to so far.
+type ExpandedNode<T, B> = (Indexed<Node<T, B>>, Vec<Keyword>);
 
 /// Result of the `expand_node_entries` function.
 type NodeEntriesExpensionResult<T, B> = Result<ExpandedNode<T, B>, Error>;
@@ -106,7 +107,7 @@ type NodeEntriesExpensionResult<T, B> = Result<ExpandedNode<T, B>, Error>;
 async fn expand_node_entries<'a, N, L, W>(
 	mut env: Environment<'a, N, L, W>,
 	mut result: Indexed<Node<N::Iri, N::BlankId>>,
-	mut has_value_object_entries: bool,
+	mut keywords: Vec<Keyword>,
 	active_context: &'a Context<N::Iri, N::BlankId>,
 	type_scoped_context: &'a Context<N::Iri, N::BlankId>,
 	active_property: ActiveProperty<'a>,
@@ -147,14 +148,14 @@ where
 				// `@included` or `@type` (unless processing mode is json-ld-1.0), a
 				// colliding keywords error has been detected and processing is
 				// aborted.
-				if (options.processing_mode == ProcessingMode::JsonLd1_0
-					|| (expanded_property != Keyword::Included
-						&& expanded_property != Keyword::Type))
-					&& result.has_key(&Term::Keyword(expanded_property))
+				if !may_repeat(expanded_property, options.processing_mode)
+					&& keywords.contains(&expanded_property)
 				{
 					return Err(Error::CollidingKeywords);
 				}
 
+				keywords.push(expanded_property);
+
 				match expanded_property {
 					// If `expanded_property` is @id:
 					Keyword::Id => {
@@ -287,9 +288,9 @@ where
 						}
 					}
 					// If expanded property is @language:
-					Keyword::Language => has_value_object_entries = true,
+					Keyword::Language => (),
 					// If expanded property is @direction:
-					Keyword::Direction => has_value_object_entries = true,
+					Keyword::Direction => (),
 					// If expanded property is @index:
 					Keyword::Index => {
 						if let Some(index) = value.as_str() {
@@ -485,26 +486,25 @@ where
 									})
 									.collect::<Result<_, _>>()?;
 
-								let (new_result, new_has_value_object_entries) =
-									Box::pin(expand_node_entries(
-										Environment {
-											vocabulary: env.vocabulary,
-											loader: env.loader,
-											warnings: env.warnings,
-										},
-										result,
-										has_value_object_entries,
-										active_context.as_ref(),
-										type_scoped_context,
-										active_property,
-										nested_expanded_entries,
-										base_url,
-										options,
-									))
-									.await?;
+								let (new_result, new_keywords) = Box::pin(expand_node_entries(
+									Environment {
+										vocabulary: env.vocabulary,
+										loader: env.loader,
+										warnings: env.warnings,
+									},
+									result,
+									keywords,
+									active_context.as_ref(),
+									type_scoped_context,
+									active_property,
+									nested_expanded_entries,
+									base_url,
+									options,
+								))
+								.await?;
 
 								result = new_result;
-								has_value_object_entries = new_has_value_object_entries;
+								keywords = new_keywords;
 							} else {
 								return Err(Error::InvalidNestValue);
 							}
@@ -1003,5 +1003,5 @@ where
 		}
 	}
 
-	Ok((result, has_value_object_entries))
+	Ok((result, keywords))
 }
-- 
2.43.0


From 8b957624aab14abe413476cf0fbfa70015b07f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:07 +0000
Subject: [PATCH 20/73] fix: report the errors of value objects as specified

---
 crates/expansion/src/value.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 150337d..cc58c03 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -2,7 +2,7 @@ use crate::{expand_iri, is_dropped, ExpandedEntry, Options, Warning, WarningHand
 use json_ld_context_processing::algorithm::RejectVocab;
 use json_ld_core::{
 	object::value::Literal, Context, Environment, Id, Indexed, IndexedObject, LangString, Object,
-	Term, ValidId, Value,
+	ProcessingMode, Term, ValidId, Value,
 };
 use json_ld_syntax::{Direction, ErrorCode, Keyword, LenientLangTagBuf, Nullable};
 use rdf_types::VocabularyMut;
@@ -18,6 +18,9 @@ pub enum InvalidValue {
 	#[error("Invalid `@index` value")]
 	IndexValue,
 
+	#[error("Invalid `@type` value")]
+	TypeValue,
+
 	#[error("Invalid typed value")]
 	TypedValue,
 
@@ -40,6 +43,7 @@ impl InvalidValue {
 			Self::LanguageTaggedString => ErrorCode::InvalidLanguageTaggedString,
 			Self::BaseDirection => ErrorCode::InvalidBaseDirection,
 			Self::IndexValue => ErrorCode::InvalidIndexValue,
+			Self::TypeValue => ErrorCode::InvalidTypeValue,
 			Self::TypedValue => ErrorCode::InvalidTypedValue,
 			Self::ValueObject => ErrorCode::InvalidValueObject,
 			Self::ValueObjectValue => ErrorCode::InvalidValueObjectValue,
@@ -104,7 +108,9 @@ where
 			Term::Keyword(Keyword::Direction) => {
 				// If processing mode is json-ld-1.0, continue with the next key
 				// from element.
-				// TODO processing mode.
+				if options.processing_mode == ProcessingMode::JsonLd1_0 {
+					continue;
+				}
 
 				// If value is neither "ltr" nor "rtl", an invalid base direction
 				// error has been detected and processing is aborted.
@@ -149,8 +155,16 @@ where
 						}
 						_ => return Err(InvalidValue::TypedValue),
 					}
-				} else {
+				} else if json_syntax::Value::force_as_array(value)
+					.iter()
+					.all(json_syntax::Value::is_string)
+				{
 					return Err(InvalidValue::TypedValue);
+				} else {
+					// If value is neither a string nor an array of strings, an
+					// invalid type value error has been detected and processing
+					// is aborted.
+					return Err(InvalidValue::TypeValue);
 				}
 			}
 			Term::Keyword(Keyword::Value) => (),
@@ -161,13 +175,20 @@ where
 		}
 	}
 
+	// A value object cannot contain both `@type` and either `@language` or
+	// `@direction`.
+	if (is_json || ty.is_some()) && (language.is_some() || direction.is_some()) {
+		return Err(InvalidValue::ValueObject);
+	}
+
 	// If input type is @json, set expanded value to value.
 	// If processing mode is json-ld-1.0, an invalid value object value error has
 	// been detected and processing is aborted.
 	if is_json {
-		if language.is_some() || direction.is_some() {
-			return Err(InvalidValue::ValueObject);
+		if options.processing_mode == ProcessingMode::JsonLd1_0 {
+			return Err(InvalidValue::ValueObjectValue);
 		}
+
 		return Ok(Some(Indexed::new(
 			Object::Value(Value::Json(value_entry.clone())),
 			index,
@@ -201,10 +222,6 @@ where
 	// been detected (only strings can be language-tagged) and processing is
 	// aborted.
 	if language.is_some() || direction.is_some() {
-		if ty.is_some() {
-			return Err(InvalidValue::ValueObject);
-		}
-
 		if let Literal::String(s) = result {
 			let lang = match language {
 				Some(language) => {
-- 
2.43.0


From 292602c239345772248097b13e581544ae7d376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:42 +0000
Subject: [PATCH 21/73] fix: check the values of @index in set objects and of
 @language and @direction in node objects

---
 crates/expansion/src/element.rs |  5 ++++-
 crates/expansion/src/node.rs    | 37 ++++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 13b4f77..f78b476 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -449,11 +449,14 @@ where
 				)))
 			} else if let Some(set_entry) = set_entry {
 				// Set objects.
-				for ExpandedEntry(_, expanded_key, _) in expanded_entries {
+				for ExpandedEntry(_, expanded_key, value) in expanded_entries {
 					match expanded_key {
 						Term::Keyword(Keyword::Index) => {
 							// having an `@index` here is tolerated,
 							// but is ignored.
+							if !value.is_string() {
+								return Err(Error::InvalidIndexValue);
+							}
 						}
 						Term::Keyword(Keyword::Set) => (),
 						key if options.policy.allow_undefined
diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index ab34d96..18c9c77 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -1,6 +1,7 @@
 use crate::{
 	expand_element, expand_iri, expand_literal, filter_top_level_item, may_repeat, Action,
-	ActiveProperty, Error, Expanded, ExpandedEntry, LiteralValue, Options, Warning, WarningHandler,
+	ActiveProperty, Error, Expanded, ExpandedEntry, InvalidValue, LiteralValue, Options, Warning,
+	WarningHandler,
 };
 use contextual::WithContext;
 use indexmap::IndexSet;
@@ -9,7 +10,7 @@ use json_ld_core::{
 	object, object::value::Literal, Container, Context, Environment, Id, Indexed, IndexedObject,
 	LangString, Loader, Node, Object, ProcessingMode, Term, Type, Value,
 };
-use json_ld_syntax::{ContainerKind, Keyword, LenientLangTagBuf, Nullable};
+use json_ld_syntax::{ContainerKind, Direction, Keyword, LenientLangTagBuf, Nullable};
 use json_syntax::object::Entry;
 use mown::Mown;
 use rdf_types::VocabularyMut;
@@ -72,8 +73,9 @@ where
 	// Otherwise, if result contains the entry @set or @list:
 	// FIXME TODO
 
-	let has_value_object_entries =
-		keywords.contains(&Keyword::Language) || keywords.contains(&Keyword::Direction);
+	let has_value_object_entries = keywords.contains(&Keyword::Language)
+		|| (keywords.contains(&Keyword::Direction)
+			&& options.processing_mode != ProcessingMode::JsonLd1_0);
 	if has_value_object_entries && result.is_empty() && result.id.is_none() {
 		return Ok(None);
 	}
@@ -288,9 +290,30 @@ where
 						}
 					}
 					// If expanded property is @language:
-					Keyword::Language => (),
+					Keyword::Language => {
+						// If value is not a string, an invalid language-tagged
+						// string error has been detected and processing is aborted.
+						if !value.is_string() {
+							return Err(Error::Value(InvalidValue::LanguageTaggedString));
+						}
+					}
 					// If expanded property is @direction:
-					Keyword::Direction => (),
+					Keyword::Direction => {
+						// If processing mode is json-ld-1.0, continue with the next
+						// key from element.
+						if options.processing_mode == ProcessingMode::JsonLd1_0 {
+							continue;
+						}
+
+						// If value is neither "ltr" nor "rtl", an invalid base
+						// direction error has been detected and processing is aborted.
+						if !value
+							.as_str()
+							.is_some_and(|value| Direction::try_from(value).is_ok())
+						{
+							return Err(Error::Value(InvalidValue::BaseDirection));
+						}
+					}
 					// If expanded property is @index:
 					Keyword::Index => {
 						if let Some(index) = value.as_str() {
@@ -846,7 +869,7 @@ where
 												// value object error has been detected and
 												// processing is aborted.
 												return Err(Error::Value(
-													crate::InvalidValue::ValueObject,
+													InvalidValue::ValueObject,
 												));
 											}
 										} else if container_mapping.contains(ContainerKind::Index)
-- 
2.43.0


From 26c30337b4d7c843c43707d66602452e74a7d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:06 +0000
Subject: [PATCH 22/73] fix: expand @reverse maps like any other map

---
 crates/expansion/src/element.rs |  10 ++-
 crates/expansion/src/node.rs    | 143 +++++++++++---------------------
 2 files changed, 54 insertions(+), 99 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index f78b476..5fa79da 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -367,10 +367,14 @@ where
 				)?;
 
 				if let Some(expanded_key) = expanded_key {
-					// Two keys expanding to the same keyword collide.
 					if let Term::Keyword(keyword) = expanded_key {
-						if active_property != Keyword::Reverse
-							&& !may_repeat(keyword, options.processing_mode)
+						// Keywords are not allowed in a `@reverse` map.
+						if active_property == Keyword::Reverse && keyword != Keyword::Context {
+							return Err(Error::InvalidReversePropertyMap);
+						}
+
+						// Two keys expanding to the same keyword collide.
+						if !may_repeat(keyword, options.processing_mode)
 							&& expanded_entries
 								.iter()
 								.any(|ExpandedEntry(_, e, _)| *e == expanded_key)
diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 18c9c77..d0f7b37 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -328,110 +328,61 @@ where
 					Keyword::Reverse => {
 						// If value is not a map, an invalid @reverse value error
 						// has been detected and processing is aborted.
-						if let Some(value) = value.as_object() {
-							let mut reverse_entries: Vec<&Entry> = value.iter().collect();
-
-							if options.ordered {
-								reverse_entries.sort_by_key(|entry| &entry.key)
-							}
+						if value.is_object() {
+							// Otherwise initialize `expanded_value` to the result of using
+							// this algorithm recursively, passing `active_context`,
+							// `@reverse` as active property, `value` as element, `base_url`,
+							// and the `frame_expansion` and `ordered` flags.
+							let expanded_value = Box::pin(expand_element(
+								Environment {
+									vocabulary: env.vocabulary,
+									loader: env.loader,
+									warnings: env.warnings,
+								},
+								active_context,
+								ActiveProperty::Some("@reverse"),
+								value,
+								base_url,
+								options,
+								false,
+							))
+							.await?;
 
-							for Entry {
-								key: reverse_key,
-								value: reverse_value,
-							} in reverse_entries
-							{
-								match expand_iri(
-									&mut env,
-									active_context,
-									Nullable::Some(reverse_key.as_str().into()),
-									false,
-									Some(options.policy.vocab),
-								)? {
-									Some(Term::Keyword(_)) => {
-										return Err(Error::InvalidReversePropertyMap)
-									}
-									Some(Term::Id(reverse_prop))
-										if reverse_prop
-											.with(&*env.vocabulary)
-											.as_str()
-											.contains(':') =>
-									{
-										if !reverse_prop.is_valid() {
-											match options.policy.invalid {
-												Action::Keep => (),
-												Action::Drop => continue,
-												Action::Reject => {
-													return Err(Error::KeyExpansionFailed(
-														reverse_key.to_string(),
-													))
-												}
-											}
-										}
+							for object in expanded_value {
+								let Ok(reverse_node) =
+									object.try_cast::<Node<N::Iri, N::BlankId>>()
+								else {
+									return Err(Error::InvalidReversePropertyMap);
+								};
 
-										let reverse_expanded_value = Box::pin(expand_element(
-											Environment {
-												vocabulary: env.vocabulary,
-												loader: env.loader,
-												warnings: env.warnings,
-											},
-											active_context,
-											ActiveProperty::Some(reverse_key.as_ref()),
-											reverse_value,
-											base_url,
-											options,
-											false,
-										))
-										.await?;
+								let reverse_node = reverse_node.into_inner();
 
-										let is_double_reversed =
-											if let Some(reverse_key_definition) =
-												active_context.get(reverse_key.as_str())
-											{
-												reverse_key_definition.reverse_property()
-											} else {
-												false
-											};
+								// If expanded value contains an @reverse entry, i.e., properties
+								// that are reversed twice, add them to `result`.
+								for (prop, nodes) in
+									reverse_node.reverse_properties.into_iter().flatten()
+								{
+									result.insert_all(
+										prop,
+										nodes.into_iter().map(|node| node.map_inner(Object::node)),
+									)
+								}
 
-										if is_double_reversed {
-											result.insert_all(
-												reverse_prop,
-												reverse_expanded_value.into_iter(),
-											)
-										} else {
-											let mut reverse_expanded_nodes = Vec::new();
-											for object in reverse_expanded_value {
-												match object.try_cast::<Node<N::Iri, N::BlankId>>()
-												{
-													Ok(node) => reverse_expanded_nodes.push(node),
-													Err(_) => {
-														return Err(
-															Error::InvalidReversePropertyValue,
-														)
-													}
-												}
+								// Add the other properties to the reverse properties of `result`.
+								for (prop, objects) in reverse_node.properties {
+									let mut reverse_expanded_nodes = Vec::new();
+									for object in objects {
+										match object.try_cast::<Node<N::Iri, N::BlankId>>() {
+											Ok(node) => reverse_expanded_nodes.push(node),
+											Err(_) => {
+												return Err(Error::InvalidReversePropertyValue)
 											}
-
-											result.reverse_properties_or_default().insert_all(
-												reverse_prop,
-												reverse_expanded_nodes.into_iter(),
-											)
 										}
 									}
-									_ => {
-										if options.policy.invalid.is_reject() {
-											return Err(Error::KeyExpansionFailed(
-												reverse_key.to_string(),
-											));
-										}
 
-										if !options.policy.allow_undefined {
-											return Err(Error::KeyExpansionFailed(
-												reverse_key.to_string(),
-											));
-										}
-
-										// otherwise the key is just dropped.
-									}
+									result
+										.reverse_properties_or_default()
+										.insert_all(prop, reverse_expanded_nodes.into_iter())
 								}
 							}
 						} else {
-- 
2.43.0


From 362ff9491623dd4110ecfd4e83f41171947f0b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:33 +0000
Subject: [PATCH 23/73] fix: drop null values of list and graph containers

---
 crates/expansion/src/node.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index d0f7b37..b1ee818 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -905,7 +905,11 @@ where
 				// expanded value if it is not already an array, and then by
 				// setting it to a map containing the key-value pair
 				// @list-expanded value.
-				if container_mapping.contains(ContainerKind::List) && !expanded_value.is_list() {
+				// A null expanded value is dropped below.
+				if container_mapping.contains(ContainerKind::List)
+					&& !expanded_value.is_list()
+					&& !expanded_value.is_null()
+				{
 					expanded_value = Expanded::Object(
 						Object::List(object::List::new(expanded_value.into_iter().collect()))
 							.into(),
@@ -919,6 +923,7 @@ where
 				if container_mapping.contains(ContainerKind::Graph)
 					&& !container_mapping.contains(ContainerKind::Id)
 					&& !container_mapping.contains(ContainerKind::Index)
+					&& !expanded_value.is_null()
 				{
 					expanded_value = Expanded::Array(
 						expanded_value
-- 
2.43.0


From faec4f2b1b587af3d98d340472295f45d6d1d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 24/73] fix: keep the entries of index maps whose key does not
 expand to an IRI

---
 crates/expansion/src/node.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index b1ee818..9883d7c 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -728,8 +728,10 @@ where
 									false,
 									Some(options.policy.vocab),
 								)? {
-									Some(Term::Null) | Some(Term::Keyword(Keyword::None)) => None,
-									key => key,
+									Some(Term::Keyword(Keyword::None)) => None,
+									// Any other index is kept, even if it does not expand
+									// to an IRI.
+									key => Some(key.unwrap_or(Term::Null)),
 								};
 
 								// If index value is not an array set index value to
@@ -806,14 +808,16 @@ where
 												false,
 												Some(options.policy.vocab),
 											)? {
-												Some(Term::Id(prop)) => prop,
-												_ => continue,
+												Some(Term::Id(prop)) => Some(prop),
+												_ => None,
 											};
 
 											// Add the key-value pair (expanded index
 											// key-index property values) to item.
 											if let Object::Node(node) = item.inner_mut() {
-												node.insert(expanded_index_key, re_expanded_index);
+												if let Some(prop) = expanded_index_key {
+													node.insert(prop, re_expanded_index);
+												}
 											} else {
 												// If item is a value object, it MUST NOT
 												// contain any extra properties; an invalid
@@ -858,7 +862,9 @@ where
 											// of expanded index followed by any existing
 											// values of @type in item. Add the key-value
 											// pair (@type-types) to item.
-											if let Ok(typ) =
+											if expanded_index == Some(Term::Null) {
+												// Not a type.
+											} else if let Ok(typ) =
 												expanded_index.clone().unwrap().try_into()
 											{
 												if let Object::Node(ref mut node) = *item {
-- 
2.43.0


From 8910bb1ba357b3d012dcd0ed5fc5af477ca37812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:39 +0000
Subject: [PATCH 25/73] fix: only unwrap the default graph of a document that
 is a single map

---
 crates/expansion/src/document.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/expansion/src/document.rs b/crates/expansion/src/document.rs
index 253fc20..87ec82a 100644
--- a/crates/expansion/src/document.rs
+++ b/crates/expansion/src/document.rs
@@ -1,5 +1,5 @@
 use super::expand_element;
-use crate::{ActiveProperty, Error, Loader, Options, WarningHandler};
+use crate::{ActiveProperty, Error, Expanded, Loader, Options, WarningHandler};
 use json_ld_core::{Context, Environment, ExpandedDocument, IndexedObject, Object};
 use json_syntax::Value;
 use rdf_types::VocabularyMut;
@@ -34,8 +34,9 @@ where
 		false,
 	)
 	.await?;
-	if expanded.len() == 1 {
-		let obj = expanded.into_iter().next().unwrap();
+	// Only the map a document consists of can be reduced to its `@graph` entry, not
+	// the items of an array.
+	if let Expanded::Object(obj) = expanded {
 		match obj.into_unnamed_graph() {
 			Ok(graph) => Ok(ExpandedDocument::from(graph)),
 			Err(obj) => {
-- 
2.43.0


From 2ff5db45b33aa7776dd07cafcb1b103886229e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:51 +0000
Subject: [PATCH 26/73] fix: expand values of a JSON-typed term in value
 expansion

---
 crates/expansion/src/literal.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/expansion/src/literal.rs b/crates/expansion/src/literal.rs
index 84251a8..9ada1e4 100644
--- a/crates/expansion/src/literal.rs
+++ b/crates/expansion/src/literal.rs
@@ -221,6 +221,17 @@ where
 					}
 				}
 
+				Some(Type::Json) => {
+					let json = match result {
+						Literal::Null => json_syntax::Value::Null,
+						Literal::Boolean(b) => json_syntax::Value::Boolean(b),
+						Literal::Number(n) => json_syntax::Value::Number(n),
+						Literal::String(s) => json_syntax::Value::String(s),
+					};
+
+					return Ok(Object::Value(Value::Json(json)).into());
+				}
+
 				Some(t) => {
 					if let Ok(t) = t.into_iri() {
 						ty = Some(t)
-- 
2.43.0


From fd84be02dd38a5096c7048dc3152760cef5e8363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 27/73] fix: serialize included nodes as @included

---
 crates/core/src/object/node/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index a49dc38..5741335 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -1319,7 +1319,7 @@ impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for Node<
 
 		if let Some(included) = self.included {
 			obj.insert(
-				"@include".into(),
+				"@included".into(),
 				included.into_with(vocabulary).into_json(),
 			);
 		}
-- 
2.43.0


From 1886082718d1c227f59cddcc1a43325cb757d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:27 +0000
Subject: [PATCH 28/73] fix: do not unwrap a graph that has an @index

---
 crates/core/src/object/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index a65ac70..882caa2 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -482,7 +482,7 @@ impl<T, B> Indexed<Object<T, B>> {
 	pub fn into_unnamed_graph(self) -> Result<Graph<T, B>, Self> {
 		let (obj, index) = self.into_parts();
 		match obj {
-			Object::Node(n) => match n.into_unnamed_graph() {
+			Object::Node(n) if index.is_none() => match n.into_unnamed_graph() {
 				Ok(g) => Ok(g),
 				Err(n) => Err(Indexed::new(Object::node(n), index)),
 			},
-- 
2.43.0


From fa9e8e0e92c8044323e29fd6ac6ab83221c73532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:08 +0000
Subject: [PATCH 29/73] fix: canonicalize the literals of graphs and included
 nodes

---
 crates/core/src/object/list.rs     | 12 +++++++++--
 crates/core/src/object/mod.rs      | 12 +++++++++--
 crates/core/src/object/node/mod.rs | 32 ++++++++++++++++++++++++++++--
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 44fe8aa..3d9ac4b 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -74,14 +74,22 @@ impl<T, B> List<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		for object in self {
 			object.canonicalize_with(buffer)
 		}
 	}
 
 	/// Puts this list object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index 882caa2..c17c760 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -167,7 +167,11 @@ impl<T, B> Object<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		match self {
 			Self::List(l) => l.canonicalize_with(buffer),
 			Self::Node(n) => n.canonicalize_with(buffer),
@@ -176,7 +180,11 @@ impl<T, B> Object<T, B> {
 	}
 
 	/// Puts this object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 5741335..a37f152 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -191,7 +191,31 @@ impl<T, B> Node<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
+		if let Some(graph) = self.graph_mut() {
+			*graph = std::mem::take(graph)
+				.into_iter()
+				.map(|mut o| {
+					o.canonicalize_with(buffer);
+					o
+				})
+				.collect();
+		}
+
+		if let Some(included) = self.included_mut() {
+			*included = std::mem::take(included)
+				.into_iter()
+				.map(|mut n| {
+					n.canonicalize_with(buffer);
+					n
+				})
+				.collect();
+		}
+
 		for (_, objects) in self.properties_mut() {
 			for object in objects {
 				object.canonicalize_with(buffer)
@@ -208,7 +232,11 @@ impl<T, B> Node<T, B> {
 	}
 
 	/// Puts this node object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
-- 
2.43.0


From 670de7a21868a286cd959a4136050131b619ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:43 +0000
Subject: [PATCH 30/73] fix: emit the triples of compound literals

---
 crates/core/src/rdf/mod.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index e9c1b41..12e06e0 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -18,6 +18,7 @@ pub const RDF_TYPE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#type
 pub const RDF_FIRST: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#first");
 pub const RDF_REST: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest");
 pub const RDF_VALUE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#value");
+pub const RDF_LANGUAGE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#language");
 pub const RDF_DIRECTION: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#direction");
 pub const RDF_JSON: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#JSON");
 /// IRI of the `http://www.w3.org/1999/02/22-rdf-syntax-ns#nil` value.
@@ -99,6 +100,9 @@ pub struct CompoundLiteralTriples<T, B, L> {
 	/// String value.
 	value: Option<Value<T, B, L>>,
 
+	/// Language value.
+	language: Option<Value<T, B, L>>,
+
 	/// Direction value.
 	direction: Option<Value<T, B, L>>,
 }
@@ -113,6 +117,14 @@ impl<T: Clone, B: Clone, L: Clone> CompoundLiteralTriples<T, B, L> {
 			));
 		}
 
+		if let Some(language) = self.language.take() {
+			return Some(rdf_types::Triple(
+				self.id.clone(),
+				ValidId::Iri(vocabulary.insert(RDF_LANGUAGE)),
+				language,
+			));
+		}
+
 		if let Some(direction) = self.direction.take() {
 			return Some(rdf_types::Triple(
 				self.id.clone(),
@@ -140,6 +152,7 @@ impl<T: Clone> crate::object::Value<T> {
 	) -> Option<CompoundLiteral<T, V::BlankId, V::Literal>>
 	where
 		V: Vocabulary<Iri = T> + IriVocabularyMut + LiteralVocabularyMut,
+		V::BlankId: Clone,
 	{
 		match self {
 			Self::Json(json) => {
@@ -179,9 +192,23 @@ impl<T: Clone> crate::object::Value<T> {
 						}
 						Some(RdfDirection::CompoundLiteral) => {
 							let id = generator.next(vocabulary);
+							let ty = vocabulary.insert(XSD_STRING);
+							let mut literal = |value: String| {
+								Value::Literal(vocabulary.insert_owned_literal(Literal::new(
+									value,
+									rdf_types::LiteralType::Any(ty.clone()),
+								)))
+							};
+							let triples = CompoundLiteralTriples {
+								id: id.clone(),
+								value: Some(literal(string.to_string())),
+								language: language
+									.map(|tag| literal(tag.to_string().to_ascii_lowercase())),
+								direction: Some(literal(direction.to_string())),
+							};
 							Some(CompoundLiteral {
 								value: id.into_term(),
-								triples: None,
+								triples: Some(triples),
 							})
 						}
 						None => match language {
-- 
2.43.0


From 78bd2b6486e51eb207145f9bab127c049c3f0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 31/73] fix: follow the i18n namespace for directions without
 language

---
 crates/core/src/rdf/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 12e06e0..f6c3ef5 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -52,7 +52,7 @@ pub enum RdfDirection {
 	///
 	/// If a language tag is present the IRI will be of the form
 	/// `https://www.w3.org/ns/i18n#language_direction` or simply
-	/// `https://www.w3.org/ns/i18n#direction` otherwise where `direction` is
+	/// `https://www.w3.org/ns/i18n#_direction` otherwise where `direction` is
 	/// either `rtl` or `ltr`.
 	I18nDatatype,
 
@@ -654,8 +654,11 @@ where
 
 fn i18n(language: Option<LangTagBuf>, direction: Direction) -> IriBuf {
 	let iri = match &language {
-		Some(language) => format!("https://www.w3.org/ns/i18n#{language}_{direction}"),
-		None => format!("https://www.w3.org/ns/i18n#{direction}"),
+		Some(language) => format!(
+			"https://www.w3.org/ns/i18n#{}_{direction}",
+			language.to_string().to_ascii_lowercase()
+		),
+		None => format!("https://www.w3.org/ns/i18n#_{direction}"),
 	};
 
 	IriBuf::new(iri).unwrap()
-- 
2.43.0


From 1fbe5a024729b29b87a931ff69a33d38c85802b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:24 +0000
Subject: [PATCH 32/73] fix: keep the chain of a list with an item without RDF
 value

---
 crates/core/src/rdf/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index f6c3ef5..551c4a8 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -579,12 +579,12 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 					let previous = list.previous().cloned();
 					match list.next(vocabulary, generator) {
 						Some(node) => {
+							let id = node.id.clone();
+
 							if let Some(compound_value) =
 								node.object
 									.rdf_value_with(vocabulary, generator, rdf_direction)
 							{
-								let id = node.id.clone();
-
 								if let Some(compound_triples) = compound_value.triples {
 									match compound_triples {
 										CompoundValueTriples::List(list) => {
@@ -601,14 +601,14 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 									ValidId::Iri(vocabulary.insert(RDF_FIRST)),
 									compound_value.value,
 								));
+							}
 
-								if let Some(previous_id) = previous {
-									break Some(rdf_types::Triple(
-										previous_id,
-										ValidId::Iri(vocabulary.insert(RDF_REST)),
-										id.into_term(),
-									));
-								}
+							if let Some(previous_id) = previous {
+								break Some(rdf_types::Triple(
+									previous_id,
+									ValidId::Iri(vocabulary.insert(RDF_REST)),
+									id.into_term(),
+								));
 							}
 						}
 						None => {
-- 
2.43.0


From bd5130311ed154d8bb3893361462e760d7272d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 33/73] fix: convert any integer below 1e21 to xsd:integer

---
 crates/core/src/rdf/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 551c4a8..80fd549 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -278,6 +278,19 @@ impl<T: Clone> crate::object::Value<T> {
 								.unwrap_or(false)
 						{
 							(n.to_string(), Some(vocabulary.insert(XSD_INTEGER)))
+						} else if n.as_f64_lossy().fract() == 0.0
+							&& n.as_f64_lossy().abs() < 1e21
+							&& !ty
+								.as_ref()
+								.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
+								.unwrap_or(false)
+						{
+							// Integer out of the `i64` range, or written with a
+							// fraction or exponent (`1.0`).
+							(
+								format!("{:.0}", n.as_f64_lossy() + 0.0),
+								Some(vocabulary.insert(XSD_INTEGER)),
+							)
 						} else {
 							(
 								pretty_dtoa::dtoa(n.as_f64_lossy(), XSD_CANONICAL_FLOAT),
-- 
2.43.0


From 4085c1f06ed8d104ff58c33e086176dbc22adee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 34/73] fix: relabel blank node properties too

---
 crates/core/src/object/node/mod.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index a37f152..72e5047 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -661,6 +661,26 @@ impl<T: Eq + Hash, B: Eq + Hash> Node<T, B> {
 	}
 }
 
+/// Relabels a property, if it is a blank node identifier.
+fn relabel_property<T: Clone, B: Clone + Eq + Hash, N, G: Generator<N>>(
+	property: Id<T, B>,
+	vocabulary: &mut N,
+	generator: &mut G,
+	relabeling: &mut hashbrown::HashMap<B, Subject<T, B>>,
+) -> Id<T, B>
+where
+	N: Vocabulary<Iri = T, BlankId = B>,
+{
+	match property {
+		Id::Valid(Subject::Blank(b)) => relabeling
+			.entry(b)
+			.or_insert_with(|| generator.next(vocabulary))
+			.clone()
+			.into(),
+		property => property,
+	}
+}
+
 impl<T, B> Relabel<T, B> for Node<T, B> {
 	fn relabel_with<N: Vocabulary<Iri = T, BlankId = B>, G: Generator<N>>(
 		&mut self,
@@ -716,6 +736,11 @@ impl<T, B> Relabel<T, B> for Node<T, B> {
 				.collect();
 		}
 
+		for (property, objects) in std::mem::take(self.properties_mut()) {
+			let property = relabel_property(property, vocabulary, generator, relabeling);
+			self.properties_mut().set(property, objects)
+		}
+
 		for (_, objects) in self.properties_mut() {
 			for object in objects {
 				object.relabel_with(vocabulary, generator, relabeling);
@@ -723,6 +748,11 @@ impl<T, B> Relabel<T, B> for Node<T, B> {
 		}
 
 		if let Some(reverse_properties) = self.reverse_properties_mut() {
+			for (property, nodes) in std::mem::take(reverse_properties) {
+				let property = relabel_property(property, vocabulary, generator, relabeling);
+				reverse_properties.set(property, nodes)
+			}
+
 			for (_, nodes) in reverse_properties.iter_mut() {
 				for node in nodes {
 					node.relabel_with(vocabulary, generator, relabeling);
-- 
2.43.0


From 527d649d60eff0cb7f0aedebf460208a224a36ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:11 +0000
Subject: [PATCH 35/73] fix: merge the types of a node when flattening

---
 crates/core/src/flattening/node_map.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index c6bb1cd..bdaf281 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -374,12 +374,12 @@ where
 			.declare_node(id.clone(), index)?;
 
 		if let Some(entry) = node.types.as_deref() {
-			flat_node.types = Some(
-				entry
-					.iter()
-					.map(|ty| env.assign_node_id(Some(ty)))
-					.collect(),
-			);
+			let types = flat_node.types.get_or_insert_with(Vec::new);
+			for ty in entry.iter().map(|ty| env.assign_node_id(Some(ty))) {
+				if !types.contains(&ty) {
+					types.push(ty)
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 54be96a396d77e74f9444b8a4dd74b787909dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:24 +0000
Subject: [PATCH 36/73] fix: keep the nodes of a named graph that only have
 types

---
 crates/core/src/flattening/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/flattening/mod.rs b/crates/core/src/flattening/mod.rs
index a521fda..96af25f 100644
--- a/crates/core/src/flattening/mod.rs
+++ b/crates/core/src/flattening/mod.rs
@@ -94,7 +94,7 @@ fn filter_graph<T, B>(node: IndexedNode<T, B>) -> Option<IndexedNode<T, B>> {
 }
 
 fn filter_sub_graph<T, B>(mut node: IndexedNode<T, B>) -> Option<IndexedObject<T, B>> {
-	if node.index().is_none() && node.properties().is_empty() {
+	if node.index().is_none() && node.properties().is_empty() && node.types.is_none() {
 		None
 	} else {
 		node.set_graph_entry(None);
-- 
2.43.0


From cdbfec0ca9fc75de32de566f4e6b7096962f96bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:39 +0000
Subject: [PATCH 37/73] fix: relabel blank node properties when flattening

---
 crates/core/src/flattening/node_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index bdaf281..1c44ed3 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -421,7 +421,7 @@ where
 			.get_mut(&id)
 			.unwrap()
 			.properties_mut()
-			.insert_all_unique(property.clone(), flat_objects)
+			.insert_all_unique(env.assign_node_id(Some(property)), flat_objects)
 	}
 
 	if let Some(reverse_properties) = node.reverse_properties_entry() {
@@ -444,7 +444,7 @@ where
 					.unwrap();
 
 				flat_subject.properties_mut().insert_unique(
-					property.clone(),
+					env.assign_node_id(Some(property)),
 					Indexed::none(Object::node(Node::with_id(id.clone()))),
 				)
 			}
-- 
2.43.0


From bc51fb5c94540b89ae4f30f294e00f471326f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:04 +0000
Subject: [PATCH 38/73] fix: keep the lexical form of booleans and numbers read
 from RDF

---
 crates/core/src/rdf/mod.rs       |  2 +-
 crates/core/src/serialization.rs | 48 ++++++++++++++++++++------------
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 80fd549..6856918 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -328,7 +328,7 @@ impl<T: Clone> crate::object::Value<T> {
 }
 
 // <https://www.w3.org/TR/xmlschema11-2/#f-doubleLexmap>
-const XSD_CANONICAL_FLOAT: pretty_dtoa::FmtFloatConfig = pretty_dtoa::FmtFloatConfig::default()
+pub(crate) const XSD_CANONICAL_FLOAT: pretty_dtoa::FmtFloatConfig = pretty_dtoa::FmtFloatConfig::default()
 	.force_e_notation()
 	.capitalize_e(true);
 
diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index bea3008..c8da0e3 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -20,8 +20,8 @@ use std::{
 use crate::{
 	object::{List, Literal},
 	rdf::{
-		RDF_FIRST, RDF_JSON, RDF_NIL, RDF_REST, RDF_TYPE, XSD_BOOLEAN, XSD_DOUBLE, XSD_INTEGER,
-		XSD_STRING,
+		RDF_FIRST, RDF_JSON, RDF_NIL, RDF_REST, RDF_TYPE, XSD_BOOLEAN, XSD_CANONICAL_FLOAT,
+		XSD_DOUBLE, XSD_INTEGER, XSD_STRING,
 	},
 	ExpandedDocument, Id, Indexed, IndexedObject, LangString, Node, Object, ValidId, Value,
 };
@@ -647,6 +647,23 @@ where
 		})
 }
 
+/// Native representation of the given number, unless its lexical form is not
+/// the one this representation is turned back into.
+fn native_number(lexical: &str, is_double: bool) -> Option<json_syntax::NumberBuf> {
+	let n = json_syntax::NumberBuf::from_str(lexical).ok()?;
+	let value = n.as_f64_lossy();
+
+	let canonical = if is_double {
+		pretty_dtoa::dtoa(value, XSD_CANONICAL_FLOAT)
+	} else if value.abs() < 9007199254740992f64 {
+		(value as i64).to_string()
+	} else {
+		return None;
+	};
+
+	(canonical == lexical && !(value == 0.0 && value.is_sign_negative())).then_some(n)
+}
+
 type ResourceTerm<V> = Term<
 	Id<<V as IriVocabulary>::Iri, <V as BlankIdVocabulary>::BlankId>,
 	Value<<V as IriVocabulary>::Iri>,
@@ -682,26 +699,21 @@ where
 								})?;
 							Value::Json(json)
 						} else if ty == XSD_BOOLEAN {
+							// Only the canonical forms have a native representation.
 							let b = match l.as_ref() {
-								"true" | "1" => true,
-								"false" | "0" => false,
-								other => {
-									return Err(SerializationError::InvalidBoolean(
-										context.into_iris(vocabulary, interpretation),
-										other.to_owned(),
-									))
-								}
+								"true" => Literal::Boolean(true),
+								"false" => Literal::Boolean(false),
+								other => Literal::String(other.into()),
 							};
 
-							Value::Literal(Literal::Boolean(b), Some(i.clone()))
+							Value::Literal(b, Some(i.clone()))
 						} else if ty == XSD_INTEGER || ty == XSD_DOUBLE {
-							let n = json_syntax::NumberBuf::from_str(l.as_str()).map_err(|_| {
-								SerializationError::Number(
-									context.into_iris(vocabulary, interpretation),
-									l.as_ref().to_owned(),
-								)
-							})?;
-							Value::Literal(Literal::Number(n), Some(i.clone()))
+							let n = match native_number(l.as_str(), ty == XSD_DOUBLE) {
+								Some(n) => Literal::Number(n),
+								None => Literal::String(l.as_ref().into()),
+							};
+
+							Value::Literal(n, Some(i.clone()))
 						} else if ty == XSD_STRING {
 							Value::Literal(Literal::String(l.as_ref().into()), None)
 						} else {
-- 
2.43.0


From b1d33e05c4fc513ef2e3399c833bf4c0fa1656db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:04 +0000
Subject: [PATCH 39/73] fix: keep rdf:type and rdf:first apart when reading RDF

---
 crates/core/src/serialization.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index c8da0e3..24f1230 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -264,8 +264,7 @@ impl<I, B> ExpandedDocument<I, B> {
 			let subject = graph.resource_mut(quad.0);
 
 			match rdf_property(vocabulary, interpretation, quad.1) {
-				Some(RdfProperty::Type) => {
-					rdf_terms.first = Some(quad.1);
+				Some(RdfProperty::Type) if id_of(interpretation, quad.2).is_some() => {
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
 
 					if ty.is_list() {
@@ -292,7 +291,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					subject.list.rest.insert(quad.2);
 					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.1);
 				}
-				None => {
+				Some(RdfProperty::Type) | None => {
 					subject.insert(quad.1, quad.2);
 				}
 			}
-- 
2.43.0


From 7c8a0664ce36469461f107f4099e3c774febd4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:14 +0000
Subject: [PATCH 40/73] fix: turn the list chains of RDF datasets into lists

---
 crates/core/src/serialization.rs | 144 ++++++++++++++++++++++---------
 1 file changed, 104 insertions(+), 40 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 24f1230..7040490 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -51,6 +51,10 @@ impl<R: Ord> SerDataset<R> {
 		}
 	}
 
+	fn graphs_mut(&mut self) -> impl Iterator<Item = &mut SerGraph<R>> {
+		std::iter::once(&mut self.default_graph).chain(self.named_graphs.values_mut())
+	}
+
 	fn fold_into_default_graph(mut self) -> SerGraph<R> {
 		for (id, graph) in self.named_graphs {
 			self.default_graph.resource_mut(id).graph = Some(graph);
@@ -68,6 +72,11 @@ struct SerList<R> {
 	first: HashSet<R>,
 	rest: HashSet<R>,
 	reverse_rest: HashSet<R>,
+
+	/// Is this a cell of a list, represented as a list object.
+	is_cell: bool,
+
+	/// Values of the list, for the first cell.
 	values: Option<Vec<R>>,
 }
 
@@ -77,6 +86,7 @@ impl<R> Default for SerList<R> {
 			first: HashSet::new(),
 			rest: HashSet::new(),
 			reverse_rest: HashSet::new(),
+			is_cell: false,
 			values: None,
 		}
 	}
@@ -98,6 +108,9 @@ struct SerResource<R> {
 	graph: Option<SerGraph<R>>,
 	list: SerList<R>,
 	references: usize,
+
+	/// Last subject referring to this resource.
+	referrer: Option<R>,
 }
 
 impl<R> Default for SerResource<R> {
@@ -108,6 +121,7 @@ impl<R> Default for SerResource<R> {
 			graph: None,
 			list: SerList::default(),
 			references: 0,
+			referrer: None,
 		}
 	}
 }
@@ -155,6 +169,66 @@ impl<R> SerGraph<R> {
 	{
 		self.resources.entry(id).or_default()
 	}
+
+	/// Finds the well-formed lists ending with `nil`.
+	///
+	/// The function `is_candidate` tells if a resource may be replaced by a
+	/// list object, considering the rest of the dataset.
+	fn build_lists(&mut self, nil: &R, is_candidate: impl Fn(&R) -> bool)
+	where
+		R: Copy + Ord,
+	{
+		let is_cell = |id: &R| {
+			is_candidate(id)
+				&& self
+					.get(id)
+					.is_some_and(|cell| cell.references == 1 && cell.is_list_node())
+		};
+
+		let mut cells = BTreeSet::new();
+		let mut lists = Vec::new();
+		if let Some(nil) = self.get(nil) {
+			for id in nil.list.reverse_rest.iter().copied() {
+				let mut list_cells = Vec::new();
+				let mut cell_id = Some(id).filter(is_cell);
+				while let Some(id) = cell_id {
+					list_cells.push(id);
+					let list = &self.resources[&id].list;
+					cell_id = list.reverse_rest.iter().copied().find(is_cell);
+				}
+
+				list_cells.reverse();
+				cells.extend(list_cells.iter().copied());
+				lists.push(list_cells);
+			}
+		}
+
+		// Lists that only contain each other must be kept as they are.
+		lists.retain(|list_cells| {
+			let mut visited = BTreeSet::new();
+			let mut id = list_cells.first().copied();
+			while let Some(cell_id) = id.filter(|id| cells.contains(id)) {
+				if !visited.insert(cell_id) {
+					return false;
+				}
+
+				id = self.resources[&cell_id].referrer;
+			}
+
+			!list_cells.is_empty()
+		});
+
+		for list_cells in lists {
+			let mut values = Vec::with_capacity(list_cells.len());
+			for &id in &list_cells {
+				let list = &mut self.resource_mut(id).list;
+				values.extend(list.first.iter().copied());
+				list.is_cell = true;
+			}
+
+			self.resource_mut(list_cells[0]).list.values = Some(values)
+		}
+	}
 }
 
 enum RdfProperty {
@@ -253,6 +327,11 @@ impl<I, B> ExpandedDocument<I, B> {
 		let mut node_map: SerDataset<&'a T::Resource> = SerDataset::new();
 
 		let mut nil = None;
+
+		// How many times each resource is mentioned as an object in the dataset,
+		// or `usize::MAX` if it has another role.
+		let mut mentions: BTreeMap<&'a T::Resource, usize> = BTreeMap::new();
+
 		let mut rdf_terms = RdfTerms {
 			list: None,
 			first: None,
@@ -260,6 +339,13 @@ impl<I, B> ExpandedDocument<I, B> {
 		};
 
 		for quad in quads {
+			let m = mentions.entry(quad.2).or_default();
+			*m = m.saturating_add(1);
+			mentions.insert(quad.1, usize::MAX);
+			if let Some(g) = quad.3 {
+				mentions.insert(g, usize::MAX);
+			}
+
 			let graph = node_map.graph_mut(quad.3);
 			let subject = graph.resource_mut(quad.0);
 
@@ -272,6 +358,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					}
 
 					subject.types.insert(ty);
+					mentions.insert(quad.2, usize::MAX);
 				}
 				Some(RdfProperty::First) => {
 					rdf_terms.first = Some(quad.1);
@@ -289,7 +376,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					}
 
 					subject.list.rest.insert(quad.2);
-					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.1);
+					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.0);
 				}
 				Some(RdfProperty::Type) | None => {
 					subject.insert(quad.1, quad.2);
@@ -297,7 +384,8 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 
 			let object = graph.resource_mut(quad.2);
-			if quad.1 == quad.2 {
+			object.referrer = Some(quad.0);
+			if quad.0 == quad.2 {
 				object.references = usize::MAX;
 			} else {
 				let r = object.references;
@@ -305,50 +393,26 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 		}
 
-		let mut graph = node_map.fold_into_default_graph();
-
-		let mut lists = Vec::new();
-		if let Some(nil_id) = nil {
-			if let Some(nil) = graph.get(&nil_id) {
-				for &node_id in &nil.list.reverse_rest {
-					let mut head_id = node_id;
-					if is_anonymous(interpretation, head_id) {
-						if let Some(mut head) = graph.get(&head_id) {
-							if head.references == 1 && head.is_list_node() {
-								let mut values = Vec::new();
-
-								loop {
-									let first = head.list.first.iter().next().copied().unwrap();
-									let parent_id =
-										head.list.reverse_rest.iter().next().copied().unwrap();
-									values.push(first);
-
-									if is_anonymous(interpretation, parent_id) {
-										if let Some(parent) = graph.get(&parent_id) {
-											if parent.references == 1 && parent.is_list_node() {
-												head_id = parent_id;
-												head = parent;
-												continue;
-											}
-										}
-									}
-
-									break;
-								}
-
-								values.reverse();
-								lists.push((head_id, values))
-							}
-						}
+		if let Some(nil) = nil {
+			// Blank nodes described in several graphs are no list cells.
+			let mut subjects = BTreeSet::new();
+			for graph in node_map.graphs_mut() {
+				for (&id, resource) in &graph.resources {
+					if !resource.is_empty() && !subjects.insert(id) {
+						mentions.insert(id, usize::MAX);
 					}
 				}
 			}
-		}
 
-		for (id, values) in lists {
-			graph.resource_mut(id).list.values = Some(values)
+			for graph in node_map.graphs_mut() {
+				graph.build_lists(&nil, |id| {
+					is_anonymous(interpretation, id) && mentions.get(id) == Some(&1)
+				})
+			}
 		}
 
+		let graph = node_map.fold_into_default_graph();
+
 		let mut result = ExpandedDocument::new();
 		for (id, resource) in &graph.resources {
 			if resource.references != 1 && !resource.is_empty() {
-- 
2.43.0


From 2cc4537f9742f993c1b4a2899c1d272f821f222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:14 +0000
Subject: [PATCH 41/73] fix: keep the resources that only refer to each other
 when reading RDF

---
 crates/core/src/serialization.rs | 58 ++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 7040490..5989352 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -170,6 +170,59 @@ impl<R> SerGraph<R> {
 		self.resources.entry(id).or_default()
 	}
 
+	/// Makes sure that every resource is found in the document, even if it is
+	/// referenced once by a resource found in it.
+	fn break_cycles(&mut self)
+	where
+		R: Copy + Ord,
+	{
+		let mut visited = BTreeSet::new();
+		let mut stack: Vec<_> = self
+			.resources
+			.iter()
+			.filter_map(|(&id, resource)| (resource.references != 1).then_some(id))
+			.collect();
+		let ids: Vec<_> = self.resources.keys().copied().collect();
+		let mut ids = ids.into_iter();
+
+		loop {
+			while let Some(id) = stack.pop() {
+				if !visited.insert(id) {
+					continue;
+				}
+
+				let resource = &self.resources[&id];
+				let objects: Vec<_> = match &resource.list.values {
+					Some(values) => values.clone(),
+					None => resource
+						.properties
+						.values()
+						.flatten()
+						.chain(&resource.list.first)
+						.chain(&resource.list.rest)
+						.copied()
+						.collect(),
+				};
+
+				stack.extend(
+					objects
+						.into_iter()
+						.filter(|o| self.resources[o].references == 1),
+				);
+			}
+
+			let resource = ids.find(|id| !visited.contains(id) && !self.resources[id].list.is_cell);
+
+			match resource {
+				Some(id) => {
+					self.resource_mut(id).references = usize::MAX;
+					stack.push(id)
+				}
+				None => break,
+			}
+		}
+	}
+
 	/// Finds the well-formed lists ending with `nil`.
 	///
 	/// The function `is_candidate` tells if a resource may be replaced by a
@@ -359,6 +412,7 @@ impl<I, B> ExpandedDocument<I, B> {
 
 					subject.types.insert(ty);
 					mentions.insert(quad.2, usize::MAX);
+					continue;
 				}
 				Some(RdfProperty::First) => {
 					rdf_terms.first = Some(quad.1);
@@ -411,6 +465,10 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 		}
 
+		for graph in node_map.graphs_mut() {
+			graph.break_cycles()
+		}
+
 		let graph = node_map.fold_into_default_graph();
 
 		let mut result = ExpandedDocument::new();
-- 
2.43.0


From bab221e46389e74f2964fcc75fee8045c8441f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:12 +0000
Subject: [PATCH 42/73] fix: only wrap the nested arrays of list containers in
 lists

---
 crates/expansion/src/array.rs   | 13 ++++++------
 crates/expansion/src/element.rs | 35 +++++++++++++++------------------
 2 files changed, 22 insertions(+), 26 deletions(-)

diff --git a/crates/expansion/src/array.rs b/crates/expansion/src/array.rs
index 6090dfc..b152e80 100644
--- a/crates/expansion/src/array.rs
+++ b/crates/expansion/src/array.rs
@@ -54,13 +54,12 @@ where
 		))
 		.await?;
 
-		result.extend(e);
-	}
-
-	if is_list {
-		return Ok(Expanded::Object(
-			Object::List(object::List::new(result)).into(),
-		));
+		match e {
+			Expanded::Array(items) if is_list => {
+				result.push(Object::List(object::List::new(items)).into())
+			}
+			e => result.extend(e),
+		}
 	}
 
 	// Return result.
diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 5fa79da..48fdced 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -427,25 +427,22 @@ where
 				// recursively passing active context, active property, value for element,
 				// base URL, and the ordered flags, ensuring that the
 				// result is an array..
-				let mut result = Vec::new();
-				let list_entry = Value::force_as_array(&list_entry);
-				for item in list_entry {
-					let e = Box::pin(expand_element(
-						Environment {
-							vocabulary: env.vocabulary,
-							loader: env.loader,
-							warnings: env.warnings,
-						},
-						active_context.as_ref(),
-						active_property,
-						item,
-						base_url,
-						options,
-						false,
-					))
-					.await?;
-					result.extend(e)
-				}
+				let result = Box::pin(expand_element(
+					Environment {
+						vocabulary: env.vocabulary,
+						loader: env.loader,
+						warnings: env.warnings,
+					},
+					active_context.as_ref(),
+					active_property,
+					&list_entry,
+					base_url,
+					options,
+					false,
+				))
+				.await?
+				.into_iter()
+				.collect();
 
 				Ok(Expanded::Object(Indexed::new(
 					Object::List(object::List::new(result)),
-- 
2.43.0


From af7628921200dfd54d74c0ba70a65d6689c676c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:12 +0000
Subject: [PATCH 43/73] fix: refuse value objects with several types

---
 crates/expansion/src/value.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index cc58c03..55fba84 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -81,6 +81,7 @@ where
 		.map(|t| *t == Term::Keyword(Keyword::Json))
 		.unwrap_or(false);
 	let mut ty = None;
+	let mut has_type = false;
 	let mut index = None;
 	let mut language = None;
 	let mut direction = None;
@@ -145,6 +146,12 @@ where
 						Some(options.policy.vocab),
 					)?;
 
+					// The values of multiple `@type` entries are concatenated
+					// into an array, which is not a valid datatype.
+					if std::mem::replace(&mut has_type, true) {
+						return Err(InvalidValue::TypedValue);
+					}
+
 					match expanded_ty {
 						Some(Term::Keyword(Keyword::Json)) => {
 							is_json = true;
-- 
2.43.0


From 5c87d8eac88b880c4a31025b0b8829579d629d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:38 +0000
Subject: [PATCH 44/73] fix: process the context of a compaction with the base
 IRI

---
 src/processor/mod.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/processor/mod.rs b/src/processor/mod.rs
index 4fa0406..68330d9 100644
--- a/src/processor/mod.rs
+++ b/src/processor/mod.rs
@@ -1897,10 +1897,18 @@ where
 		.map_err(CompactError::ContextLoading)?
 		.into_document();
 
-	let mut active_context = context
+	// The given context is processed with regard to the base IRI of the
+	// compacted document, which it may change.
+	let base = match options.base.as_ref() {
+		Some(base) => Some(base.clone()),
+		None if options.compact_to_relative => url.cloned(),
+		None => None,
+	};
+
+	let active_context = context
 		.process_full(
 			vocabulary,
-			&Context::new(None),
+			&Context::new(base),
 			loader,
 			context_base.cloned(),
 			options.context_processing_options(),
@@ -1909,15 +1917,6 @@ where
 		.await
 		.map_err(CompactError::ContextProcessing)?;
 
-	match options.base.as_ref() {
-		Some(base) => active_context.set_base_iri(Some(base.clone())),
-		None => {
-			if options.compact_to_relative && active_context.base_iri().is_none() {
-				active_context.set_base_iri(url.cloned());
-			}
-		}
-	}
-
 	expanded_input
 		.compact_full(
 			vocabulary,
-- 
2.43.0


From bd2f8fbc665fafddc8f4f12376237531467634bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:53 +0000
Subject: [PATCH 45/73] fix: keep IRIs absolute that no relative reference
 stands for

---
 crates/compaction/src/iri.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 4656858..d269e7d 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -1,10 +1,11 @@
 use crate::{Options, TypeLangValue};
 use contextual::WithContext;
+use iref::IriRef;
 use json_ld_core::{
 	context::inverse::{LangSelection, Selection, TypeSelection},
 	object, Container, Context, Indexed, Nullable, Object, ProcessingMode, Term, Type, Value,
 };
-use json_ld_syntax::{is_keyword, is_keyword_like};
+use json_ld_syntax::is_keyword_like;
 use rdf_types::Vocabulary;
 use std::hash::Hash;
 
@@ -485,9 +486,13 @@ where
 			let base_iri = vocabulary.iri(base_iri).unwrap();
 			if let Some(iri) = var.as_iri() {
 				let iri = vocabulary.iri(iri).unwrap();
-				return Ok(Some(disambiguate_keyword(
-					iri.relative_to(base_iri).as_str().into(),
-				)));
+				let relative = disambiguate_keyword(iri.relative_to(base_iri).as_str().into());
+
+				// Some IRIs have no relative reference that stands for them.
+				return Ok(Some(match IriRef::new(&relative) {
+					Ok(iri_ref) if iri_ref.resolved(base_iri).as_str() == iri.as_str() => relative,
+					_ => iri.as_str().to_string(),
+				}));
 			}
 		}
 	}
@@ -497,7 +502,7 @@ where
 }
 
 fn disambiguate_keyword(s: String) -> String {
-	if is_keyword_like(&s) && !is_keyword(&s) {
+	if is_keyword_like(&s) {
 		"./".to_string() + &s
 	} else {
 		s
-- 
2.43.0


From 410d5a5f4fe85454af8ec8a1569fed3fd7694615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:20 +0000
Subject: [PATCH 46/73] fix: compact strings to scalars only when nothing is
 lost

---
 crates/compaction/src/value.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/compaction/src/value.rs b/crates/compaction/src/value.rs
index ee7984d..2dc58fd 100644
--- a/crates/compaction/src/value.rs
+++ b/crates/compaction/src/value.rs
@@ -190,10 +190,10 @@ where
 			let ls_direction = ls.direction(); //.map(|d| Nullable::Some(d));
 
 			if remove_index
-			&& (ls_language.is_none() || language == ls_language) // || (ls.language().is_none() && language.is_none()))
-			&& (ls_direction.is_none() || direction == ls_direction)
+				&& type_mapping.is_none()
+				&& language == ls_language
+				&& direction == ls_direction
 			{
-				// || (ls.direction().is_none() && direction.is_none())) {
 				return Ok(json_syntax::Value::String(ls.as_str().into()));
 			} else {
 				let compact_key = compact_key(
-- 
2.43.0


From af9c040d8798e400ae0c4b627476252c43ec6a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:35 +0000
Subject: [PATCH 47/73] fix: do not put strings with a direction in language
 maps

---
 crates/compaction/src/iri.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index d269e7d..b2d4921 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -260,8 +260,11 @@ where
 							type_lang_value = Some(TypeLangValue::Lang(LangSelection::Lang(
 								Nullable::Some((v.language(), v.direction())),
 							)));
-							containers.push(Container::Language);
-							containers.push(Container::LanguageSet)
+							// A language map does not tell the direction of its values.
+							if v.direction().is_none() {
+								containers.push(Container::Language);
+								containers.push(Container::LanguageSet)
+							}
 						} else if let Some(ty) = v.typ() {
 							type_lang_value = Some(TypeLangValue::Type(TypeSelection::Type(
 								ty.as_syntax_type().cloned(),
-- 
2.43.0


From 4f736eabf5be90dddc30756c0e3d0838110dc3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:53 +0000
Subject: [PATCH 48/73] fix: use the alias of @id in compacted graph objects

---
 crates/compaction/src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index ba72110..8f5fe84 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -259,7 +259,7 @@ where
 				vocabulary,
 				active_context,
 				&Term::Keyword(Keyword::Id),
-				false,
+				true,
 				false,
 				options,
 			)?
-- 
2.43.0


From 053702ba892c09e0809aad92651f725bc3f5178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:25 +0000
Subject: [PATCH 49/73] fix: report only IRIs that are confused with a prefix

---
 crates/compaction/src/iri.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index b2d4921..4cb3bb5 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -476,7 +476,11 @@ where
 	// an IRI confused with prefix error has been detected, and processing is aborted.
 	if let Some(iri) = var.as_iri() {
 		let iri = vocabulary.iri(iri).unwrap();
-		if active_context.contains_term(iri.scheme().as_str()) {
+		if iri.authority().is_none()
+			&& active_context
+				.get(iri.scheme().as_str())
+				.is_some_and(|definition| definition.prefix())
+		{
 			return Err(IriConfusedWithPrefix);
 		}
 	}
-- 
2.43.0


From 29dd22b0b6d7c026eed7978ccecfb0bba67e1ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 50/73] fix: choose the shortest compact IRI

---
 crates/compaction/src/iri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 4cb3bb5..f6165ce 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -450,7 +450,7 @@ where
 						// and value is null, set compact IRI to candidate.
 						let candidate_def = active_context.get(candidate.as_str());
 						if (compact_iri.is_empty()
-							|| (candidate.len() <= compact_iri.len() && candidate < compact_iri))
+							|| (candidate.len(), &candidate) < (compact_iri.len(), &compact_iri))
 							&& (candidate_def.is_none()
 								|| (candidate_def.is_some()
 									&& (candidate_def.and_then(|def| def.value()) == Some(var))
-- 
2.43.0


From 36934d79aed973dd8d7b89f20de3a0f8af8d552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:59 +0000
Subject: [PATCH 51/73] fix: give list items without a language the language
 @none

---
 crates/compaction/src/iri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index f6165ce..fcd37bb 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -149,7 +149,7 @@ where
 						} else {
 							for item in list {
 								let mut item_type = None;
-								let mut item_lang_dir = None;
+								let mut item_lang_dir = Some(Nullable::Some((None, None)));
 								let mut is_value = false;
 
 								match item.inner() {
-- 
2.43.0


From 1aff3480e0978617b0be4f0d563c044d31e43ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:35 +0000
Subject: [PATCH 52/73] fix: do not panic when a container map meets other
 values

---
 crates/compaction/src/property.rs | 71 ++++++++-----------------------
 1 file changed, 17 insertions(+), 54 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 8f5fe84..2b90f30 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -132,24 +132,7 @@ where
 		// Initialize `map_object` to the value of `item_active_property`
 		// in `nest_result`, initializing it to a new empty map,
 		// if necessary.
-		if nest_result
-			.get_unique(item_active_property)
-			.ok()
-			.unwrap()
-			.is_none()
-		{
-			nest_result.insert(
-				item_active_property.into(),
-				json_ld_syntax::Object::default().into(),
-			);
-		}
-
-		let map_object = nest_result
-			.get_unique_mut(item_active_property)
-			.ok()
-			.unwrap()
-			.unwrap();
-		let map_object = map_object.as_object_mut().unwrap();
+		let map_object = map_entry(nest_result, item_active_property);
 
 		// Initialize `map_key` by IRI compacting the value of @id in
 		// `expanded_item` or @none if no such value exists
@@ -173,24 +156,7 @@ where
 		// Initialize `map_object` to the value of `item_active_property`
 		// in `nest_result`, initializing it to a new empty map,
 		// if necessary.
-		if nest_result
-			.get_unique(item_active_property)
-			.ok()
-			.unwrap()
-			.is_none()
-		{
-			nest_result.insert(
-				item_active_property.into(),
-				json_ld_syntax::Object::default().into(),
-			);
-		}
-
-		let map_object = nest_result
-			.get_unique_mut(item_active_property)
-			.ok()
-			.unwrap()
-			.unwrap();
-		let map_object = map_object.as_object_mut().unwrap();
+		let map_object = map_entry(nest_result, item_active_property);
 
 		// Initialize `map_key` the value of @index in `expanded_item`
 		// or @none, if no such value exists.
@@ -300,6 +266,20 @@ where
 	Ok(())
 }
 
+/// Returns the map in the entry `key` of `object`, which is created if there is none.
+/// A map is added to the values of the entry that are not a map.
+fn map_entry<'a>(object: &'a mut json_syntax::Object, key: &str) -> &'a mut json_syntax::Object {
+	let is_object = |entry: &json_syntax::Value| entry.is_object();
+	if !object.get_unique(key).ok().unwrap().is_some_and(is_object) {
+		add_value(object, key, json_syntax::Object::default().into(), false);
+	}
+
+	match object.get_unique_mut(key).ok().unwrap().unwrap() {
+		json_syntax::Value::Array(values) => values.last_mut().unwrap().as_object_mut().unwrap(),
+		value => value.as_object_mut().unwrap(),
+	}
+}
+
 fn select_nest_result<'a, I, B>(
 	result: &'a mut json_syntax::Object,
 	active_context: &Context<I, B>,
@@ -488,24 +468,7 @@ where
 						// Initialize `map_object` to the value of
 						// `item_active_property` in `nest_result`,
 						// initializing it to a new empty map, if necessary.
-						if nest_result
-							.get_unique(item_active_property.as_str())
-							.ok()
-							.unwrap()
-							.is_none()
-						{
-							nest_result.insert(
-								item_active_property.clone().into(),
-								json_syntax::Object::default().into(),
-							);
-						}
-
-						let map_object = nest_result
-							.get_unique_mut(item_active_property.as_str())
-							.ok()
-							.unwrap()
-							.unwrap();
-						let map_object = map_object.as_object_mut().unwrap();
+						let map_object = map_entry(nest_result, &item_active_property);
 
 						// Initialize container key by IRI compacting either
 						// @language, @index, @id, or @type based on the contents of container.
-- 
2.43.0


From 2ee2d3c037f7b3c4c5070f2bf3a2040b30e9ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:52 +0000
Subject: [PATCH 53/73] fix: use the alias of @none in compacted graph index
 maps

---
 crates/compaction/src/property.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 2b90f30..92f03d0 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -160,11 +160,22 @@ where
 
 		// Initialize `map_key` the value of @index in `expanded_item`
 		// or @none, if no such value exists.
-		let map_key = expanded_index.unwrap_or("@none");
+		let map_key = match expanded_index {
+			Some(index) => index.to_owned(),
+			None => compact_iri(
+				vocabulary,
+				active_context,
+				&Term::Keyword(Keyword::None),
+				true,
+				false,
+				options,
+			)?
+			.unwrap(),
+		};
 
 		// Use `add_value` to add `compacted_item` to
 		// the `map_key` entry in `map_object` using `as_array`.
-		add_value(map_object, map_key, compacted_item, as_array)
+		add_value(map_object, &map_key, compacted_item, as_array)
 	} else if container.contains(ContainerKind::Graph) && node.is_simple_graph() {
 		// Otherwise, if `container` includes @graph and
 		// `expanded_item` is a simple graph object
-- 
2.43.0


From 40fada025393b552854a7d459af5f9ad1cbc3dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:09 +0000
Subject: [PATCH 54/73] fix: recognise the alias of @id in compacted type maps

---
 crates/compaction/src/property.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 92f03d0..b66b1f7 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -675,7 +675,17 @@ where
 							// `active_property`, and a map composed of the single
 							// entry for @id from `expanded_item` for `element`.
 							if let Some(map) = compacted_item.as_object() {
-								if map.len() == 1 && map.get_unique("@id").ok().unwrap().is_some() {
+								let id_alias = compact_iri(
+									vocabulary,
+									active_context,
+									&Term::Keyword(Keyword::Id),
+									true,
+									false,
+									options,
+								)?
+								.unwrap();
+
+								if map.len() == 1 && map.contains_key(id_alias.as_str()) {
 									let obj = Object::node(Node::with_id(
 										expanded_item.id().unwrap().clone(),
 									));
-- 
2.43.0


From 5bd491eaa632610345fb52d3474b8269ee809fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:50 +0000
Subject: [PATCH 55/73] fix: keep the values of map keys that are not strings

---
 crates/compaction/src/property.rs | 115 +++++++-----------------------
 1 file changed, 27 insertions(+), 88 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index b66b1f7..2f05ec8 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -291,6 +291,27 @@ fn map_entry<'a>(object: &'a mut json_syntax::Object, key: &str) -> &'a mut json
 	}
 }
 
+/// Takes the first value of the entry `key` of `object`, if it is a string.
+fn take_map_key(object: &mut json_syntax::Object, key: &str) -> Option<String> {
+	match object.get_unique(key).ok().unwrap()? {
+		json_syntax::Value::String(_) => (),
+		json_syntax::Value::Array(values) if values.first().is_some_and(|v| v.is_string()) => (),
+		_ => return None,
+	}
+
+	let mut values = match object.remove_unique(key).ok().unwrap()?.value {
+		json_syntax::Value::Array(values) => values.into_iter(),
+		value => vec![value].into_iter(),
+	};
+
+	let first_value = values.next()?.as_str().map(ToOwned::to_owned);
+	for value in values {
+		add_value(object, key, value, false)
+	}
+
+	first_value
+}
+
 fn select_nest_result<'a, I, B>(
 	result: &'a mut json_syntax::Object,
 	active_context: &Context<I, B>,
@@ -542,58 +563,14 @@ where
 
 									// Set `map_key` to the first value of
 									// `container_key` in `compacted_item`, if any.
-									let (map_key, remaining_values) = match &mut compacted_item {
-										json_syntax::Value::Object(map) => {
-											match map
-												.remove_unique(
-													container_key.as_ref().unwrap().as_str(),
-												)
-												.ok()
-												.unwrap()
-											{
-												Some(entry) => match entry.value {
-													json_syntax::Value::String(s) => {
-														(Some(s.to_string()), Vec::new())
-													}
-													json_syntax::Value::Array(values) => {
-														let mut values = values.into_iter();
-														match values.next() {
-															Some(first_value) => (
-																first_value
-																	.as_str()
-																	.map(|v| v.to_string()),
-																values.collect(),
-															),
-															None => (None, values.collect()),
-														}
-													}
-													other => (None, vec![other]),
-												},
-												None => (None, Vec::new()),
-											}
-										}
-										_ => (None, Vec::new()),
-									};
-
 									// If there are remaining values in `compacted_item`
 									// for container key, use `add_value` to add
 									// those remaining values to the `container_key`
 									// in `compacted_item`.
 									// Otherwise, remove that entry from compacted item.
-									if !remaining_values.is_empty() {
-										if let Some(map) = compacted_item.as_object_mut() {
-											for value in remaining_values {
-												add_value(
-													map,
-													container_key.as_deref().unwrap(),
-													value,
-													false,
-												)
-											}
-										}
-									}
-
-									map_key
+									compacted_item.as_object_mut().and_then(|map| {
+										take_map_key(map, container_key.as_deref().unwrap())
+									})
 								}
 								None => {
 									// Otherwise, if `container` includes @index and
@@ -621,52 +598,14 @@ where
 
 							// Set `map_key` to the first value of `container_key` in
 							// `compacted_item`, if any.
-							let (map_key, remaining_values) = match compacted_item.as_object_mut() {
-								Some(map) => {
-									match map
-										.remove_unique(container_key.as_ref().unwrap().as_str())
-										.ok()
-										.unwrap()
-									{
-										Some(entry) => match entry.value {
-											json_syntax::Value::String(s) => {
-												(Some((*s).to_string()), Vec::new())
-											}
-											json_syntax::Value::Array(values) => {
-												let mut values = values.into_iter();
-												match values.next() {
-													Some(first_value) => (
-														first_value.as_str().map(ToOwned::to_owned),
-														values.collect(),
-													),
-													None => (None, values.collect()),
-												}
-											}
-											other => (None, vec![other]),
-										},
-										None => (None, Vec::new()),
-									}
-								}
-								_ => (None, Vec::new()),
-							};
-
 							// If there are remaining values in `compacted_item` for
 							// `container_key`, use `add_value` to add those
 							// remaining values to the `container_key` in
 							// `compacted_item`.
 							// Otherwise, remove that entry from compacted item.
-							if !remaining_values.is_empty() {
-								if let Some(map) = compacted_item.as_object_mut() {
-									for value in remaining_values {
-										add_value(
-											map,
-											container_key.as_deref().unwrap(),
-											value,
-											false,
-										)
-									}
-								}
-							}
+							let map_key = compacted_item
+								.as_object_mut()
+								.and_then(|map| take_map_key(map, container_key.as_deref().unwrap()));
 
 							// If `compacted_item` contains a single entry with a key
 							// expanding to @id, set `compacted_item` to the result of
-- 
2.43.0


From e5836802664d86134eff19c8d4e422a099a8ee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:50 +0000
Subject: [PATCH 56/73] fix: compact reverse maps with the previous context

---
 crates/compaction/src/node.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/node.rs b/crates/compaction/src/node.rs
index eb02cba..7fb122c 100644
--- a/crates/compaction/src/node.rs
+++ b/crates/compaction/src/node.rs
@@ -235,6 +235,12 @@ where
 				}
 			}
 
+			// If the active context is not propagated, the reverse map is
+			// compacted with the previous context.
+			let reverse_context = active_context
+				.previous_context()
+				.unwrap_or(active_context.as_ref());
+
 			let mut reverse_result = json_syntax::Object::default();
 			for (expanded_property, expanded_value) in reverse_properties.iter() {
 				compact_property(
@@ -242,7 +248,7 @@ where
 					&mut reverse_result,
 					expanded_property.clone().into(),
 					expanded_value.iter(),
-					active_context.as_ref(),
+					reverse_context,
 					loader,
 					true,
 					options,
-- 
2.43.0


From abe2f7f179777394e81b76598fce8fcdd022008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 57/73] fix: revert the context for indexed node references

---
 crates/compaction/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/node.rs b/crates/compaction/src/node.rs
index 7fb122c..ad3676a 100644
--- a/crates/compaction/src/node.rs
+++ b/crates/compaction/src/node.rs
@@ -34,7 +34,7 @@ where
 	// If element does not contain an @value entry, and element does not consist of
 	// a single @id entry, set active context to previous context from active context,
 	// as the scope of a term-scoped context does not apply when processing new node objects.
-	if !(node.is_empty() && node.id.is_some()) {
+	if !(node.is_empty() && node.id.is_some() && index.is_none()) {
 		// does not consist of a single @id entry
 		if let Some(previous_context) = active_context.previous_context() {
 			active_context = previous_context
-- 
2.43.0


From cd55708af1218226dda6be261ea977948c3f1606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:14 +0000
Subject: [PATCH 58/73] fix: recognise @id itself in compacted type maps

---
 crates/compaction/src/property.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 2f05ec8..498c4d5 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -614,17 +614,14 @@ where
 							// `active_property`, and a map composed of the single
 							// entry for @id from `expanded_item` for `element`.
 							if let Some(map) = compacted_item.as_object() {
-								let id_alias = compact_iri(
-									vocabulary,
-									active_context,
-									&Term::Keyword(Keyword::Id),
-									true,
-									false,
-									options,
-								)?
-								.unwrap();
-
-								if map.len() == 1 && map.contains_key(id_alias.as_str()) {
+								let is_id = |key: &str| {
+									key == Keyword::Id.into_str()
+										|| active_context.get(key).is_some_and(|def| {
+											def.value() == Some(&Term::Keyword(Keyword::Id))
+										})
+								};
+
+								if map.len() == 1 && map.iter().all(|entry| is_id(&entry.key)) {
 									let obj = Object::node(Node::with_id(
 										expanded_item.id().unwrap().clone(),
 									));
-- 
2.43.0


From 79138f85fb1a3ee43cac3ba3f2df37a158a0be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:01 +0000
Subject: [PATCH 59/73] fix: leave the value alone when nothing is added to it

---
 crates/compaction/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/lib.rs b/crates/compaction/src/lib.rs
index e70dfd8..5ab69fc 100644
--- a/crates/compaction/src/lib.rs
+++ b/crates/compaction/src/lib.rs
@@ -404,7 +404,7 @@ fn add_value(map: &mut json_syntax::Object, key: &str, value: json_syntax::Value
 		.unwrap()
 		.map(|entry| entry.is_array())
 	{
-		Some(false) => {
+		Some(false) if as_array || !value.is_array() => {
 			let Entry { key, value } = map.remove_unique(key).ok().unwrap().unwrap();
 			map.insert(key, json_syntax::Value::Array(vec![value]));
 		}
-- 
2.43.0


From cc01bf0b9294f51a01f291345d86b31952531b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:38 +0000
Subject: [PATCH 60/73] fix: look up the container of nested lists in the
 active context

---
 crates/compaction/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/compaction/src/lib.rs b/crates/compaction/src/lib.rs
index 5ab69fc..d67eaeb 100644
--- a/crates/compaction/src/lib.rs
+++ b/crates/compaction/src/lib.rs
@@ -322,11 +322,11 @@ impl<I, B, T: Any<I, B>> CompactIndexedFragment<I, B> for T {
 									.into_processed(),
 							)
 						}
-
-						list_container = active_property_definition
-							.container()
-							.contains(ContainerKind::List);
 					}
+
+					list_container = active_context
+						.get(active_property)
+						.is_some_and(|def| def.container().contains(ContainerKind::List));
 				}
 
 				if list_container {
-- 
2.43.0


From 1c564ca9f635e4128d0d81849595c6d36c5f07b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:39 +0000
Subject: [PATCH 61/73] fix: indexed values of a reverse property do not fit
 index containers by lack of an index

---
 crates/compaction/src/iri.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index fcd37bb..4f569c8 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -120,19 +120,14 @@ where
 				}
 			}
 
-			let mut has_index = false;
+			let has_index = value.is_some_and(|value| value.index().is_some());
 			let mut is_simple_value = false; // value object with no type, no index, no language and no direction.
 
 			if reverse {
 				type_lang_value = Some(TypeLangValue::Type(TypeSelection::Reverse));
 				containers.push(Container::Set);
 			} else {
-				let value_ref = value.map(|v| {
-					has_index = v.index().is_some();
-					v.inner().as_ref()
-				});
-
-				match value_ref {
+				match value.map(|v| v.inner().as_ref()) {
 					Some(object::Ref::List(list)) => {
 						if !has_index {
 							containers.push(Container::List);
-- 
2.43.0


From 2f676e251c295aa64a01584fa6cda81f6963018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:05 +0000
Subject: [PATCH 62/73] fix: panic on a value of a type map whose only property
 is named like an alias of @id

---
 crates/compaction/src/property.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 498c4d5..74c16fb 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -621,10 +621,12 @@ where
 										})
 								};
 
-								if map.len() == 1 && map.iter().all(|entry| is_id(&entry.key)) {
-									let obj = Object::node(Node::with_id(
-										expanded_item.id().unwrap().clone(),
-									));
+								let id = expanded_item.id().filter(|_| {
+									map.len() == 1 && map.iter().all(|entry| is_id(&entry.key))
+								});
+
+								if let Some(id) = id {
+									let obj = Object::node(Node::with_id(id.clone()));
 									compacted_item = Box::pin(obj.compact_indexed_fragment(
 										vocabulary,
 										None,
-- 
2.43.0


From cbe563fc977d6c0aeabc5f5080a927275a7298ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:20 +0000
Subject: [PATCH 63/73] fix: mount points ending with a slash, or without path,
 cover what is below them

---
 crates/core/src/loader/fs.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/loader/fs.rs b/crates/core/src/loader/fs.rs
index e701190..3211432 100644
--- a/crates/core/src/loader/fs.rs
+++ b/crates/core/src/loader/fs.rs
@@ -1,6 +1,6 @@
 use super::{Loader, RemoteDocument};
 use crate::{LoadError, LoadingResult};
-use iref::{Iri, IriBuf};
+use iref::{iri::Segment, Iri, IriBuf};
 use json_syntax::Parse;
 use std::fs::File;
 use std::io::{BufReader, Read};
@@ -52,9 +52,9 @@ impl FsLoader {
 	/// Returns the local file path associated to the given `url` if any.
 	pub fn filepath(&self, url: &Iri) -> Option<PathBuf> {
 		for (path, target_url) in &self.mount_points {
-			if let Some((suffix, _, _)) = url.as_iri_ref().suffix(target_url) {
+			if let Some(suffix) = mounted_suffix(url, target_url) {
 				let mut filepath = path.clone();
-				for seg in suffix.as_path().segments() {
+				for seg in suffix {
 					filepath.push(seg.as_str())
 				}
 
@@ -66,6 +66,35 @@ impl FsLoader {
 	}
 }
 
+/// Segments of `url` below the given mount point, if it covers `url`.
+///
+/// The mount point is a directory, with or without a final `/`, and the empty
+/// path following an authority is the root path.
+fn mounted_suffix<'a>(url: &'a Iri, mount_point: &'a Iri) -> Option<Vec<&'a Segment>> {
+	let is_rooted = |iri: &Iri| iri.path().is_absolute() || iri.authority().is_some();
+
+	if url.scheme() != mount_point.scheme()
+		|| url.authority() != mount_point.authority()
+		|| is_rooted(url) != is_rooted(mount_point)
+	{
+		return None;
+	}
+
+	let mut prefix: Vec<_> = mount_point.path().normalized_segments().collect();
+	if prefix.last().is_some_and(|segment| segment.is_empty()) {
+		prefix.pop();
+	}
+
+	let mut segments = url.path().normalized_segments();
+	for segment in prefix {
+		if segments.next()? != segment {
+			return None;
+		}
+	}
+
+	Some(segments.collect())
+}
+
 impl Loader for FsLoader {
 	async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
 		match self.filepath(url) {
-- 
2.43.0


From ccd285b4bf24a0da8277d552793562a1af8e9fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:32 +0000
Subject: [PATCH 64/73] fix: IRIs could lead outside of the mounted directory

---
 crates/core/src/loader/fs.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/loader/fs.rs b/crates/core/src/loader/fs.rs
index 3211432..d80548e 100644
--- a/crates/core/src/loader/fs.rs
+++ b/crates/core/src/loader/fs.rs
@@ -92,7 +92,13 @@ fn mounted_suffix<'a>(url: &'a Iri, mount_point: &'a Iri) -> Option<Vec<&'a Segm
 		}
 	}
 
-	Some(segments.collect())
+	// Never leave the mounted directory.
+	let suffix: Vec<_> = segments.collect();
+	if suffix.iter().any(|segment| segment.as_str() == "..") {
+		return None;
+	}
+
+	Some(suffix)
 }
 
 impl Loader for FsLoader {
-- 
2.43.0


From cc70722c076927ffaf48b2af37c91a910dd6ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:42 +0000
Subject: [PATCH 65/73] fix: panic when comparing objects with duplicate keys

---
 crates/syntax/src/compare.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/syntax/src/compare.rs b/crates/syntax/src/compare.rs
index df760ac..7215f55 100644
--- a/crates/syntax/src/compare.rs
+++ b/crates/syntax/src/compare.rs
@@ -36,13 +36,14 @@ impl Compare for Value {
 			(Self::Object(a), Self::Object(b)) => {
 				if a.len() == b.len() {
 					for entry in a {
-						match b.get_unique(&*entry.key).expect("invalid JSON-LD") {
-							Some(value) => {
+						// Objects with duplicate keys are not JSON-LD.
+						match (a.get_unique(&*entry.key), b.get_unique(&*entry.key)) {
+							(Ok(_), Ok(Some(value))) => {
 								if !entry.value.compare(value) {
 									return false;
 								}
 							}
-							None => return false,
+							_ => return false,
 						}
 					}
 
-- 
2.43.0


From 8e2afe9a9ca03bc1bdfe7a561788b844f42c4c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:53 +0000
Subject: [PATCH 66/73] fix: the items of a list were compared without their
 order

---
 crates/syntax/src/compare.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/compare.rs b/crates/syntax/src/compare.rs
index 7215f55..570d715 100644
--- a/crates/syntax/src/compare.rs
+++ b/crates/syntax/src/compare.rs
@@ -39,7 +39,16 @@ impl Compare for Value {
 						// Objects with duplicate keys are not JSON-LD.
 						match (a.get_unique(&*entry.key), b.get_unique(&*entry.key)) {
 							(Ok(_), Ok(Some(value))) => {
-								if !entry.value.compare(value) {
+								let equal = match (entry.key.as_str(), &entry.value, value) {
+									// The items of a list are ordered.
+									("@list", Self::Array(a), Self::Array(b)) => {
+										a.len() == b.len()
+											&& a.iter().zip(b).all(|(a, b)| a.compare(b))
+									}
+									(_, a, b) => a.compare(b),
+								};
+
+								if !equal {
 									return false;
 								}
 							}
-- 
2.43.0


From 000a8796f0017d8e0f47c151ac70e1a43c1349fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:03 +0000
Subject: [PATCH 67/73] fix: unexpected entries of expanded value objects were
 silently dropped

---
 crates/core/src/object/value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/object/value.rs b/crates/core/src/object/value.rs
index 9f3934b..88ec642 100644
--- a/crates/core/src/object/value.rs
+++ b/crates/core/src/object/value.rs
@@ -266,6 +266,7 @@ impl<T> Value<T> {
 			.remove_unique("@type")
 			.map_err(InvalidExpandedJson::duplicate_key)?
 		{
+			Some(_) if !object.is_empty() => Err(InvalidExpandedJson::UnexpectedEntry),
 			Some(type_entry) => match type_entry.value {
 				json_syntax::Value::String(ty) => match ty.as_str() {
 					"@json" => Ok(Self::Json(value_entry.value)),
@@ -297,6 +298,8 @@ impl<T> Value<T> {
 						language,
 						direction,
 					)?))
+				} else if !object.is_empty() {
+					Err(InvalidExpandedJson::UnexpectedEntry)
 				} else {
 					let lit = value_entry.value.try_into()?;
 					Ok(Self::Literal(lit, None))
-- 
2.43.0


From 603b08c193a75e7ac90f8671a3a846efca9cb5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:13 +0000
Subject: [PATCH 68/73] fix: the URL of remote documents ignored HTTP
 redirections

---
 crates/core/src/loader/reqwest/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index abb9fff..f90b9c4 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -163,6 +163,13 @@ impl Loader for ReqwestLoader {
 				.await
 				.map_err(|e| LoadError::new(url.clone(), e))?;
 
+			// The location of the document is the one HTTP redirections led to.
+			if reqwest::Url::parse(url.as_str()).ok().as_ref() != Some(response.url()) {
+				if let Ok(location) = IriBuf::new(response.url().to_string()) {
+					url = location
+				}
+			}
+
 			match response.status() {
 				StatusCode::OK => {
 					let mut content_types = response
-- 
2.43.0


From ae13f4d6f6c6d24aeabb90f710417a76fb990301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:57 +0000
Subject: [PATCH 69/73] fix: media types with the +json suffix were refused

---
 crates/core/src/loader/reqwest/content_type.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/loader/reqwest/content_type.rs b/crates/core/src/loader/reqwest/content_type.rs
index 6f13911..6e9a3b3 100644
--- a/crates/core/src/loader/reqwest/content_type.rs
+++ b/crates/core/src/loader/reqwest/content_type.rs
@@ -104,7 +104,11 @@ impl ContentType {
 	}
 
 	pub fn is_json_ld(&self) -> bool {
-		self.media_type == "application/json" || self.media_type == "application/ld+json"
+		self.media_type == "application/json"
+			|| self
+				.media_type
+				.suffix()
+				.is_some_and(|suffix| suffix == "json")
 	}
 
 	pub fn media_type(&self) -> &Mime {
-- 
2.43.0


From 7dfc9d292af609724c0663fc294010032d3cf1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:10 +0000
Subject: [PATCH 70/73] fix: Link headers with whitespace, unquoted values or
 other parameters were ignored

---
 crates/core/src/loader/reqwest/link.rs | 68 +++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/crates/core/src/loader/reqwest/link.rs b/crates/core/src/loader/reqwest/link.rs
index 50b2a25..1484636 100644
--- a/crates/core/src/loader/reqwest/link.rs
+++ b/crates/core/src/loader/reqwest/link.rs
@@ -16,6 +16,7 @@ impl Link {
 			BeginKey,
 			Key,
 			BeginValue,
+			QuotedValue,
 			Value,
 		}
 
@@ -30,6 +31,7 @@ impl Link {
 		loop {
 			match state {
 				State::BeginHref => match bytes.next().copied() {
+					Some(b' ' | b'\t') => (),
 					Some(b'<') => state = State::Href,
 					_ => break None,
 				},
@@ -41,6 +43,7 @@ impl Link {
 					None => break None,
 				},
 				State::NextParam => match bytes.next().copied() {
+					Some(b' ' | b'\t') => (),
 					Some(b';') => state = State::BeginKey,
 					Some(_) => break None,
 					None => {
@@ -51,34 +54,73 @@ impl Link {
 					}
 				},
 				State::BeginKey => match bytes.next().copied() {
-					Some(b' ') => (),
+					Some(b' ' | b'\t' | b';') => (),
 					Some(b) => {
-						current_key.push(b);
+						current_key.push(b.to_ascii_lowercase());
 						state = State::Key
 					}
-					None => break None,
+					None => state = State::NextParam,
 				},
 				State::Key => match bytes.next().copied() {
+					Some(b' ' | b'\t') => (),
 					Some(b'=') => state = State::BeginValue,
-					Some(b) => current_key.push(b),
-					None => break None,
+					Some(b';') => {
+						// A parameter without value.
+						params
+							.entry(std::mem::take(&mut current_key))
+							.or_insert_with(Vec::new);
+						state = State::BeginKey
+					}
+					Some(b) => current_key.push(b.to_ascii_lowercase()),
+					None => {
+						params
+							.entry(std::mem::take(&mut current_key))
+							.or_insert_with(Vec::new);
+						state = State::NextParam
+					}
 				},
 				State::BeginValue => match bytes.next().copied() {
-					Some(b'"') => state = State::Value,
-					_ => break None,
+					Some(b' ' | b'\t') => (),
+					Some(b'"') => state = State::QuotedValue,
+					Some(b';') | None => break None,
+					Some(b) => {
+						current_value.push(b);
+						state = State::Value
+					}
 				},
-				State::Value => match bytes.next().copied() {
+				State::QuotedValue => match bytes.next().copied() {
 					Some(b'"') => {
-						params.insert(
-							std::mem::take(&mut current_key),
-							std::mem::take(&mut current_value),
-						);
-
+						params
+							.entry(std::mem::take(&mut current_key))
+							.or_insert(std::mem::take(&mut current_value));
 						state = State::NextParam
 					}
+					Some(b'\\') => match bytes.next().copied() {
+						Some(b) => current_value.push(b),
+						None => break None,
+					},
 					Some(b) => current_value.push(b),
 					None => break None,
 				},
+				State::Value => match bytes.next().copied() {
+					Some(b @ (b' ' | b'\t' | b';')) => {
+						params
+							.entry(std::mem::take(&mut current_key))
+							.or_insert(std::mem::take(&mut current_value));
+						state = if b == b';' {
+							State::BeginKey
+						} else {
+							State::NextParam
+						}
+					}
+					Some(b) => current_value.push(b),
+					None => {
+						params
+							.entry(std::mem::take(&mut current_key))
+							.or_insert(std::mem::take(&mut current_value));
+						state = State::NextParam
+					}
+				},
 			}
 		}
 	}
-- 
2.43.0


From f464d91efaa9cfa9b1737cd40eab0a76fdd01a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:23 +0000
Subject: [PATCH 71/73] fix: several links of a single Link header were ignored

---
 crates/core/src/loader/reqwest/link.rs | 40 ++++++++++++++++++++++++--
 crates/core/src/loader/reqwest/mod.rs  | 40 +++++++++++---------------
 2 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/crates/core/src/loader/reqwest/link.rs b/crates/core/src/loader/reqwest/link.rs
index 1484636..a84b9a7 100644
--- a/crates/core/src/loader/reqwest/link.rs
+++ b/crates/core/src/loader/reqwest/link.rs
@@ -8,7 +8,43 @@ pub struct Link {
 }
 
 impl Link {
-	pub fn new(value: &HeaderValue) -> Option<Self> {
+	/// All the links of the given header fields, each of which may hold several
+	/// links separated by commas.
+	pub fn all<'a>(values: impl IntoIterator<Item = &'a HeaderValue>) -> Vec<Self> {
+		let mut links = Vec::new();
+
+		for value in values {
+			let bytes = value.as_bytes();
+			let mut begin = 0;
+			let (mut in_href, mut in_quotes, mut escaped) = (false, false, false);
+
+			for (i, b) in bytes.iter().copied().enumerate() {
+				match b {
+					_ if escaped => escaped = false,
+					b'\\' if in_quotes => escaped = true,
+					b'"' if !in_href => in_quotes = !in_quotes,
+					b'<' if !in_quotes => in_href = true,
+					b'>' if !in_quotes => in_href = false,
+					b',' if !in_quotes && !in_href => {
+						links.extend(Self::parse(&bytes[begin..i]));
+						begin = i + 1
+					}
+					_ => (),
+				}
+			}
+
+			links.extend(Self::parse(&bytes[begin..]))
+		}
+
+		links
+	}
+
+	#[cfg(test)]
+	fn new(value: &HeaderValue) -> Option<Self> {
+		Self::parse(value.as_bytes())
+	}
+
+	fn parse(value: &[u8]) -> Option<Self> {
 		enum State {
 			BeginHref,
 			Href,
@@ -26,7 +62,7 @@ impl Link {
 		let mut current_value = Vec::new();
 		let mut params = HashMap::new();
 
-		let mut bytes = value.as_bytes().iter();
+		let mut bytes = value.iter();
 
 		loop {
 			match state {
diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index f90b9c4..a24187d 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -182,20 +182,16 @@ impl Loader for ReqwestLoader {
 						Some(content_type) => {
 							let mut context_url = None;
 							if *content_type.media_type() != "application/ld+json" {
-								for link in response.headers().get_all(LINK).into_iter() {
-									if let Some(link) = Link::new(link) {
-										if link.rel()
-											== Some(b"http://www.w3.org/ns/json-ld#context")
-										{
-											if context_url.is_some() {
-												return Err(LoadError::new(
-													url,
-													Error::MultipleContextLinkHeaders,
-												));
-											}
-
-											context_url = Some(link.href().resolved(&url));
+								for link in Link::all(response.headers().get_all(LINK)) {
+									if link.rel() == Some(b"http://www.w3.org/ns/json-ld#context") {
+										if context_url.is_some() {
+											return Err(LoadError::new(
+												url,
+												Error::MultipleContextLinkHeaders,
+											));
 										}
+
+										context_url = Some(link.href().resolved(&url));
 									}
 								}
 							}
@@ -231,16 +227,14 @@ impl Loader for ReqwestLoader {
 						}
 						None => {
 							log::debug!("no valid media type found");
-							for link in response.headers().get_all(LINK).into_iter() {
-								if let Some(link) = Link::new(link) {
-									if link.rel() == Some(b"alternate")
-										&& link.type_() == Some(b"application/ld+json")
-									{
-										log::debug!("link found");
-										url = link.href().resolved(&url);
-										redirection_number += 1;
-										continue 'next_url;
-									}
+							for link in Link::all(response.headers().get_all(LINK)) {
+								if link.rel() == Some(b"alternate")
+									&& link.type_() == Some(b"application/ld+json")
+								{
+									log::debug!("link found");
+									url = link.href().resolved(&url);
+									redirection_number += 1;
+									continue 'next_url;
 								}
 							}
 
-- 
2.43.0


From 3a3553b60c2f79181267cb9855d4596359f84611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:34 +0000
Subject: [PATCH 72/73] fix: links with several relation types were ignored

---
 crates/core/src/loader/reqwest/link.rs | 8 ++++++++
 crates/core/src/loader/reqwest/mod.rs  | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/loader/reqwest/link.rs b/crates/core/src/loader/reqwest/link.rs
index a84b9a7..ed14deb 100644
--- a/crates/core/src/loader/reqwest/link.rs
+++ b/crates/core/src/loader/reqwest/link.rs
@@ -169,6 +169,14 @@ impl Link {
 		self.params.get(b"rel".as_slice()).map(Vec::as_slice)
 	}
 
+	/// Checks if the given relation is one of those of the link.
+	pub fn has_rel(&self, rel: &[u8]) -> bool {
+		self.rel().is_some_and(|rels| {
+			rels.split(u8::is_ascii_whitespace)
+				.any(|r| r.eq_ignore_ascii_case(rel))
+		})
+	}
+
 	pub fn type_(&self) -> Option<&[u8]> {
 		self.params.get(b"type".as_slice()).map(Vec::as_slice)
 	}
diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index a24187d..b41cd2a 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -183,7 +183,7 @@ impl Loader for ReqwestLoader {
 							let mut context_url = None;
 							if *content_type.media_type() != "application/ld+json" {
 								for link in Link::all(response.headers().get_all(LINK)) {
-									if link.rel() == Some(b"http://www.w3.org/ns/json-ld#context") {
+									if link.has_rel(b"http://www.w3.org/ns/json-ld#context") {
 										if context_url.is_some() {
 											return Err(LoadError::new(
 												url,
@@ -228,7 +228,7 @@ impl Loader for ReqwestLoader {
 						None => {
 							log::debug!("no valid media type found");
 							for link in Link::all(response.headers().get_all(LINK)) {
-								if link.rel() == Some(b"alternate")
+								if link.has_rel(b"alternate")
 									&& link.type_() == Some(b"application/ld+json")
 								{
 									log::debug!("link found");
-- 
2.43.0


From b367f33cbbebc32bd6483cd845fb949d89d9d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:45 +0000
Subject: [PATCH 73/73] fix: media type parameters with whitespace, upper case
 names or escapes

---
 .../core/src/loader/reqwest/content_type.rs   | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/loader/reqwest/content_type.rs b/crates/core/src/loader/reqwest/content_type.rs
index 6e9a3b3..ba7503d 100644
--- a/crates/core/src/loader/reqwest/content_type.rs
+++ b/crates/core/src/loader/reqwest/content_type.rs
@@ -39,21 +39,22 @@ impl ContentType {
 					None => break,
 				},
 				State::NextParam => match bytes.next().copied() {
+					Some(b' ' | b'\t') => (),
 					Some(b';') => state = State::BeginKey,
 					Some(_) => return None,
 					None => break,
 				},
 				State::BeginKey => match bytes.next().copied() {
-					Some(b' ') => (),
+					Some(b' ' | b'\t' | b';') => (),
 					Some(b) => {
-						current_key.push(b);
+						current_key.push(b.to_ascii_lowercase());
 						state = State::Key
 					}
-					None => return None,
+					None => break,
 				},
 				State::Key => match bytes.next().copied() {
 					Some(b'=') => state = State::BeginValue,
-					Some(b) => current_key.push(b),
+					Some(b) => current_key.push(b.to_ascii_lowercase()),
 					None => return None,
 				},
 				State::BeginValue => match bytes.next().copied() {
@@ -73,17 +74,22 @@ impl ContentType {
 
 						state = State::NextParam
 					}
+					Some(b'\\') => current_value.push(bytes.next().copied()?),
 					Some(b) => current_value.push(b),
 					None => return None,
 				},
 				State::Value => match bytes.next().copied() {
-					Some(b';') => {
+					Some(b @ (b' ' | b'\t' | b';')) => {
 						params.insert(
 							std::mem::take(&mut current_key),
 							std::mem::take(&mut current_value),
 						);
 
-						state = State::BeginKey
+						state = if b == b';' {
+							State::BeginKey
+						} else {
+							State::NextParam
+						}
 					}
 					Some(b) => current_value.push(b),
 					None => {
@@ -97,7 +103,7 @@ impl ContentType {
 			}
 		}
 
-		match Mime::from_str(std::str::from_utf8(&mime).ok()?) {
+		match Mime::from_str(std::str::from_utf8(&mime).ok()?.trim()) {
 			Ok(media_type) => Some(Self { media_type, params }),
 			Err(_) => None,
 		}
-- 
2.43.0

