From 7cb8a4f5fa5e148f1900798c5a71fa5d03f6a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 01/58] fix: Iri::split panics on cannot-be-a-base IRIs such as
 urn:isbn:1234

---
 rdftk_iri/src/iri.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 37c22a7..3f2bab0 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -321,7 +321,9 @@ impl Iri {
             && !self.0.path().ends_with("/")
             && self.0.query().is_none()
         {
-            if let Ok(name) = Name::from_str(self.0.path_segments().unwrap().last().unwrap()) {
+            // the last path segment; a path without any '/', `urn:isbn:1234`, has no such segment.
+            let (_, segment) = self.0.path().rsplit_once('/')?;
+            if let Ok(name) = Name::from_str(segment) {
                 let path = self.0.path();
                 let path = &path[0..path.len() - name.as_ref().len()];
                 Some((self.with_new_path(path), name))
-- 
2.43.0


From d0a73de97bbf45c3d41f14b81bad4641185a1dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 02/58] fix: Iri::split treats the last path segment of a
 namespace IRI with an empty fragment as a name

---
 rdftk_iri/src/iri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 3f2bab0..981647b 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -317,7 +317,8 @@ impl Iri {
             } else {
                 None
             }
-        } else if !self.0.path().is_empty()
+        } else if self.0.fragment().is_none()
+            && !self.0.path().is_empty()
             && !self.0.path().ends_with("/")
             && self.0.query().is_none()
         {
-- 
2.43.0


From 24c5ec7d7e628294f54668c5c33d9ae8db6a1a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 03/58] fix: Namespace accepts a prefix ending in '.', which
 PN_PREFIX does not allow

---
 rdftk_iri/src/pname.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 94427ea..4453e54 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -252,7 +252,10 @@ impl FromStr for Namespace {
                 Ok(Self(s.to_string()))
             } else {
                 let mut chars = pn_prefix.chars();
-                if is_pn_chars_base(chars.next().unwrap()) && chars.all(is_pn_prefix_local_rest) {
+                if !pn_prefix.ends_with('.')
+                    && is_pn_chars_base(chars.next().unwrap())
+                    && chars.all(is_pn_prefix_local_rest)
+                {
                     Ok(Self(s.to_string()))
                 } else {
                     Err(NameParseError::InvalidCharacter(s.to_string()))
-- 
2.43.0


From 451a1759fb57f766061a21a107e16edc5db4433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 04/58] fix: serde deserialization of Namespace and Name
 accepts strings that do not parse

---
 rdftk_iri/src/pname.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 4453e54..5d46554 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -98,6 +98,7 @@ pub enum PrefixedName {
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String"))]
 pub struct Namespace(String);
 
 /// The character used to separate a [`Namespace`] prefix from a [`Name`] in a
@@ -145,6 +146,7 @@ pub const NAMESPACE_DEFAULT_STRING: &str = ":";
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String"))]
 pub struct Name(String);
 
 ///
@@ -267,6 +269,14 @@ impl FromStr for Namespace {
     }
 }
 
+impl TryFrom<String> for Namespace {
+    type Error = NameParseError;
+
+    fn try_from(s: String) -> Result<Self, Self::Error> {
+        Self::from_str(&s)
+    }
+}
+
 impl AsRef<str> for Namespace {
     fn as_ref(&self) -> &str {
         &self.0
@@ -407,6 +417,14 @@ impl FromStr for Name {
     }
 }
 
+impl TryFrom<String> for Name {
+    type Error = NameParseError;
+
+    fn try_from(s: String) -> Result<Self, Self::Error> {
+        Self::from_str(&s)
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
-- 
2.43.0


From 35789c99a48956ac687f15c1d8bda641b4173478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 05/58] fix: rdftk_names does not compile, Iri::make_name is no
 longer an IriExtra method

---
 rdftk_names/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_names/src/lib.rs b/rdftk_names/src/lib.rs
index 0ef0bcb..03f5b3b 100644
--- a/rdftk_names/src/lib.rs
+++ b/rdftk_names/src/lib.rs
@@ -132,7 +132,7 @@ macro_rules! namespace {
                 let _ = cache.insert(
                     $name.to_string(),
                     (
-                        <::rdftk_iri::Iri as ::rdftk_iri::IriExtra>::make_name(
+                        ::rdftk_iri::Iri::make_name(
                                 &NS_IRI,
                                 <::rdftk_iri::Name as ::std::str::FromStr>::from_str($name).unwrap()
                             ).unwrap(),
-- 
2.43.0


From 005505fa12cf95da62ca5d052491b1e58cc2e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 06/58] fix: rdftk_core does not compile against the current
 rdftk_iri types

---
 rdftk_core/src/error.rs                 | 12 +++++++++---
 rdftk_core/src/model/graph.rs           |  2 +-
 rdftk_core/src/model/literal.rs         | 18 +++++++++---------
 rdftk_core/src/model/statement/bnode.rs |  8 ++++----
 rdftk_iri/src/error.rs                  |  2 +-
 5 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/rdftk_core/src/error.rs b/rdftk_core/src/error.rs
index 887617f..fb79465 100644
--- a/rdftk_core/src/error.rs
+++ b/rdftk_core/src/error.rs
@@ -142,7 +142,7 @@ pub enum Error {
     ///
     /// An error parsing Name strings.
     ///
-    Name(::rdftk_iri::NameParseError),
+    Name(::rdftk_iri::error::NameParseError),
     ///
     /// An error occurred converting to UTF-8 text.
     ///
@@ -420,14 +420,20 @@ impl From<::rdftk_iri::Error> for Error {
     }
 }
 
+impl From<::rdftk_iri::error::UrlError> for Error {
+    fn from(source: ::rdftk_iri::error::UrlError) -> Self {
+        Self::Iri(source.into())
+    }
+}
+
 impl From<::language_tags::ParseError> for Error {
     fn from(source: ::language_tags::ParseError) -> Self {
         Self::LanguageTag(source)
     }
 }
 
-impl From<::rdftk_iri::NameParseError> for Error {
-    fn from(source: ::rdftk_iri::NameParseError) -> Self {
+impl From<::rdftk_iri::error::NameParseError> for Error {
+    fn from(source: ::rdftk_iri::error::NameParseError) -> Self {
         Self::Name(source)
     }
 }
diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 15ec049..43aed27 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -19,7 +19,7 @@ fn simple_graph_writer(graph: &Graph)
 use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
 use crate::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
-use rdftk_iri::{Iri, IriExtra, IriPrefixMap, Name};
+use rdftk_iri::{Iri, IriPrefixMap, Name};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::Hash;
diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 13e7ebe..64220eb 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -51,7 +51,7 @@
  */
 
 use crate::error::Error;
-use rdftk_iri::{Iri, Name, QName};
+use rdftk_iri::{Iri, LocalName, Name};
 use rdftk_names::{rdf, xsd};
 use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
@@ -372,7 +372,7 @@ impl DataType {
 
 impl From<Iri> for Literal {
     fn from(v: Iri) -> Self {
-        Self::with_data_type(v.as_ref(), DataType::Iri)
+        Self::with_data_type(AsRef::<str>::as_ref(&v), DataType::Iri)
     }
 }
 
@@ -395,7 +395,7 @@ impl TryFrom<Literal> for Iri {
         match value.data_type() {
             Some(dt) => {
                 if *dt == DataType::Iri {
-                    Ok(Iri::parse(value.lexical_form())?)
+                    Ok(value.lexical_form().parse::<Iri>()?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
                         from_type: dt.to_string(),
@@ -578,20 +578,20 @@ impl PartialEq<f32> for Literal {
 // Variant QName
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
-impl From<QName> for Literal {
-    fn from(v: QName) -> Self {
+impl From<LocalName> for Literal {
+    fn from(v: LocalName) -> Self {
         Self::with_data_type(v, DataType::QName)
     }
 }
 
-impl From<&QName> for Literal {
-    fn from(v: &QName) -> Self {
+impl From<&LocalName> for Literal {
+    fn from(v: &LocalName) -> Self {
         Self::from(v.clone())
     }
 }
 
-impl PartialEq<QName> for Literal {
-    fn eq(&self, other: &QName) -> bool {
+impl PartialEq<LocalName> for Literal {
+    fn eq(&self, other: &LocalName) -> bool {
         *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::QName)
     }
 }
diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index 208f4cc..73ff22d 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -1,4 +1,4 @@
-use rdftk_iri::{Name, NameParser, QName};
+use rdftk_iri::{LocalName, Name};
 use std::fmt::{Display, Formatter};
 use std::str::FromStr;
 use unique_id::sequence::SequenceGenerator as IDGenerator;
@@ -98,7 +98,7 @@ impl BlankNode {
         S: AsRef<str>,
     {
         let s: &str = s.as_ref();
-        NameParser::BlankNode.is_valid_str(if let Some(s) = s.strip_prefix(BLANK_NODE_PREFIX) {
+        Name::is_valid_str(if let Some(s) = s.strip_prefix(BLANK_NODE_PREFIX) {
             s
         } else {
             s
@@ -109,7 +109,7 @@ impl BlankNode {
     /// Return a qualified version of the blank node, i.e. with the reserved
     /// namespace value `"_"`.
     ///
-    pub fn to_qname(&self) -> QName {
-        QName::new_blank(Name::new_unchecked(&self.0)).unwrap()
+    pub fn to_qname(&self) -> LocalName {
+        LocalName::new_unchecked(BLANK_NODE_PREFIX, &self.0)
     }
 }
diff --git a/rdftk_iri/src/error.rs b/rdftk_iri/src/error.rs
index 73f3839..1c2275b 100644
--- a/rdftk_iri/src/error.rs
+++ b/rdftk_iri/src/error.rs
@@ -8,7 +8,7 @@ use alloc::string::String;
 
 use strum::{EnumIs, EnumTryAs};
 use thiserror::Error;
-use url::ParseError as UrlError;
+pub use url::ParseError as UrlError;
 
 ///
 /// The `Error` type for this crate.
-- 
2.43.0


From 1ad44ed1750f6b9c4a609172e074378c5cc3a7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 07/58] fix: rdftk_io does not compile against the current
 rdftk_iri types

---
 rdftk_io/src/turtle/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index f1c2bb6..c084a8d 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -535,7 +535,7 @@ impl TurtleWriter {
         let mappings = graph.prefix_mappings();
         if !mappings.is_empty() {
             for (prefix, namespace) in mappings.mappings().sorted() {
-                let prefix = prefix.as_ref().map(|n| n.as_ref()).unwrap_or("");
+                let prefix = prefix.name_string().unwrap_or_default();
                 let mut namespace_str = namespace.to_string();
                 // If we have any base Iri conversions to do for any of the
                 // namespaces, then do it now:
@@ -777,7 +777,7 @@ impl TurtleWriter {
         trace!(name: "write_literal", ?literal);
         Ok(match literal.data_type() {
             Some(DataType::Iri) => {
-                let iri = Iri::parse(literal.lexical_form())?;
+                let iri = Iri::from_str(literal.lexical_form())?;
                 self.write_iri(w, graph, &iri)?
             }
             Some(DataType::Boolean)
-- 
2.43.0


From 6e8ba15a895e1f9d7cf6b812297db4502a8593f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 08/58] fix: Display of graph names, nodes and statements
 writes <<iri>>, Iri displays its own brackets

---
 rdftk_core/src/model/graph.rs             | 2 +-
 rdftk_core/src/model/statement.rs         | 2 +-
 rdftk_core/src/model/statement/object.rs  | 2 +-
 rdftk_core/src/model/statement/subject.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 43aed27..32f5fdc 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -81,7 +81,7 @@ impl Display for GraphName {
             "{}",
             match &self {
                 Self::BNode(node) => format!("_:{}", node),
-                Self::Iri(iri) => format!("<{}>", iri),
+                Self::Iri(iri) => iri.to_string(),
             }
         )
     }
diff --git a/rdftk_core/src/model/statement.rs b/rdftk_core/src/model/statement.rs
index d8ff046..f2a07eb 100644
--- a/rdftk_core/src/model/statement.rs
+++ b/rdftk_core/src/model/statement.rs
@@ -62,7 +62,7 @@ impl Display for Statement {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(
             f,
-            "{} <{}> {}",
+            "{} {} {}",
             &self.subject().to_string(),
             &self.predicate().to_string(),
             &self.object().to_string(),
diff --git a/rdftk_core/src/model/statement/object.rs b/rdftk_core/src/model/statement/object.rs
index 9443935..7c313a4 100644
--- a/rdftk_core/src/model/statement/object.rs
+++ b/rdftk_core/src/model/statement/object.rs
@@ -122,7 +122,7 @@ impl Display for ObjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{BLANK_NODE_NAMESPACE}:{node}"),
-            Self::Resource(iri) => write!(f, "<{iri}>"),
+            Self::Resource(iri) => write!(f, "{iri}"),
             Self::Literal(lit) => {
                 if f.alternate() {
                     write!(f, "{lit:#}")
diff --git a/rdftk_core/src/model/statement/subject.rs b/rdftk_core/src/model/statement/subject.rs
index 67dd8cd..427caf3 100644
--- a/rdftk_core/src/model/statement/subject.rs
+++ b/rdftk_core/src/model/statement/subject.rs
@@ -94,7 +94,7 @@ impl Display for SubjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{}:{}", BLANK_NODE_NAMESPACE, node),
-            Self::Resource(iri) => write!(f, "<{}>", iri),
+            Self::Resource(iri) => write!(f, "{}", iri),
             Self::Statement(st) => write!(f, "<< {} >>", st),
         }
     }
-- 
2.43.0


From 38e9f4131a3d9b76d0e5eb24b88ba43c19c0360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 09/58] fix: Graph::matches returns nothing when a component of
 the pattern is None

---
 rdftk_core/src/model/graph.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 32f5fdc..3bea051 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -374,9 +374,9 @@ impl Graph {
         self.statements
             .iter()
             .filter(|st| {
-                (subject.is_some() && st.subject() == subject.unwrap())
-                    && (predicate.is_some() && st.predicate() == predicate.unwrap())
-                    && (object.is_some() && st.object() == object.unwrap())
+                (subject.is_none() || st.subject() == subject.unwrap())
+                    && (predicate.is_none() || st.predicate() == predicate.unwrap())
+                    && (object.is_none() || st.object() == object.unwrap())
             })
             .collect()
     }
-- 
2.43.0


From 28287ca572f3d18cce7b61407bfdc65ca842fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 10/58] fix: Graph::remove_all_for removes every other subject
 and keeps the one it was given

---
 rdftk_core/src/model/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 3bea051..ae79a87 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -557,9 +557,9 @@ impl Graph {
             (Default::default(), Default::default()),
             |(mut keep, mut discard): (Vec<Statement>, Vec<Statement>), st| {
                 if st.subject() == subject {
-                    keep.push(st.clone());
-                } else {
                     discard.push(st.clone());
+                } else {
+                    keep.push(st.clone());
                 }
                 (keep, discard)
             },
-- 
2.43.0


From a680822da1417e2e9c45f7aa33019246b53aec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 11/58] fix: Graph reports FEATURE_GRAPH_DUPLICATES for graphs
 of unique statements only

---
 rdftk_core/src/model/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index ae79a87..287c57c 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -199,7 +199,7 @@ impl GraphName {
 
 impl Featured for Graph {
     fn supports_feature(&self, feature: &Iri) -> bool {
-        (*feature == *FEATURE_GRAPH_DUPLICATES && self.statements.is_unique())
+        (*feature == *FEATURE_GRAPH_DUPLICATES && !self.statements.is_unique())
             || *feature == *FEATURE_RDF_STAR
     }
 }
-- 
2.43.0


From adddaa519c06d69cbc4f6628d11f0c7b959170a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 12/58] fix: BlankNode::from_str keeps the reserved prefix, so
 that _:a displays as _:_:a

---
 rdftk_core/src/model/statement/bnode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index 73ff22d..eeaefee 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -43,7 +43,7 @@ impl FromStr for BlankNode {
 
     fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
         if BlankNode::is_valid_str(s) {
-            Ok(Self(s.into()))
+            Ok(Self(s.strip_prefix(BLANK_NODE_PREFIX).unwrap_or(s).into()))
         } else {
             Err(crate::error::Error::InvalidBlankNodeName { name: s.into() })
         }
-- 
2.43.0


From 2c636ec9f6babb198702396b2efd8e2523584f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 13/58] fix: Statement::reify leaves a collection object in the
 reified statements

---
 rdftk_core/src/model/statement.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/statement.rs b/rdftk_core/src/model/statement.rs
index f2a07eb..6ee1d74 100644
--- a/rdftk_core/src/model/statement.rs
+++ b/rdftk_core/src/model/statement.rs
@@ -222,8 +222,15 @@ impl Statement {
                 rdf::object().clone(),
                 nested.0.to_object(),
             ));
+        } else if let Some(collection) = self.object().as_collection() {
+            let nested = collection.reify()?;
+            statements.extend(nested.1);
+            statements.push(Self::new(
+                new_subject.clone(),
+                rdf::object().clone(),
+                nested.0.to_object(),
+            ));
         } else {
-            // TODO: check for ObjectNode::Collection
             statements.push(Self::new(
                 new_subject.clone(),
                 rdf::object().clone(),
-- 
2.43.0


From 1591a562913e54c12060b66ad946c6f1f8a2e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 14/58] fix: Collection::reify leaves nested collections and
 statements in the reified statements

---
 rdftk_core/src/model/statement/collection.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/statement/collection.rs b/rdftk_core/src/model/statement/collection.rs
index 1aa60ea..8a84dfd 100644
--- a/rdftk_core/src/model/statement/collection.rs
+++ b/rdftk_core/src/model/statement/collection.rs
@@ -184,7 +184,19 @@ impl Collection {
                     rdf::a_type().clone(),
                     rdf::list().clone(),
                 ));
-                // TODO: deal with recursive ObjectNode::Collection
+                let nested = if let Some(collection) = object.as_collection() {
+                    Some(collection.reify()?)
+                } else if let Some(statement) = object.as_statement() {
+                    Some(statement.reify()?)
+                } else {
+                    None
+                };
+                let object = if let Some((nested_subject, nested_statements)) = nested {
+                    statements.extend(nested_statements);
+                    nested_subject.to_object()
+                } else {
+                    object.clone()
+                };
                 statements.push(Statement::new(
                     subject.clone(),
                     rdf::first().clone(),
-- 
2.43.0


From 567959f6072471ec0e34c461d6b43a78d3f3b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 15/58] fix: Graph::simplify leaves a nested object under a
 nested subject and drops the prefix mappings

---
 rdftk_core/src/model/graph.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 287c57c..e406067 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -654,34 +654,24 @@ impl Graph {
         if let Some(name) = self.name() {
             new_graph.set_name(name.clone());
         }
+        new_graph.set_prefix_mappings(self.prefix_mappings().clone());
         for statement in self.statements() {
+            let mut new_statement = statement.clone();
             if let Some(subject_statement) = statement.subject().as_statement() {
                 let (subject, statements) = subject_statement.reify()?;
-                new_graph.insert(Statement::new(
-                    subject,
-                    statement.predicate().clone(),
-                    statement.object().clone(),
-                ));
+                new_statement.set_subject(subject);
                 new_graph.extend(statements);
-            } else if let Some(object_statement) = statement.object().as_statement() {
+            }
+            if let Some(object_statement) = statement.object().as_statement() {
                 let (subject, statements) = object_statement.reify()?;
-                new_graph.insert(Statement::new(
-                    statement.subject().clone(),
-                    statement.predicate().clone(),
-                    subject.to_object(),
-                ));
+                new_statement.set_object(subject.to_object());
                 new_graph.extend(statements);
             } else if let Some(object_collection) = statement.object().as_collection() {
                 let (subject, statements) = object_collection.reify()?;
-                new_graph.insert(Statement::new(
-                    statement.subject().clone(),
-                    statement.predicate().clone(),
-                    subject.to_object(),
-                ));
+                new_statement.set_object(subject.to_object());
                 new_graph.extend(statements);
-            } else {
-                new_graph.insert(statement.clone());
             }
+            new_graph.insert(new_statement);
         }
 
         Ok(new_graph)
-- 
2.43.0


From cd5a59fec57c3756047bd7f901d58422d762e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 16/58] fix: typed literals display <<datatype>> and never
 equal the Iri they were made from

---
 rdftk_core/src/model/literal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 64220eb..729d67d 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -384,7 +384,8 @@ impl From<&Iri> for Literal {
 
 impl PartialEq<Iri> for Literal {
     fn eq(&self, other: &Iri) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Iri)
+        self.lexical_form() == AsRef::<str>::as_ref(other)
+            && self.data_type() == Some(&DataType::Iri)
     }
 }
 
@@ -847,7 +848,7 @@ impl Display for Literal {
                     "\"{}\"{}",
                     self.lexical_form(),
                     match (self.data_type(), self.language()) {
-                        (Some(data_type), None) => format!("^^<{}>", data_type.as_iri()),
+                        (Some(data_type), None) => format!("^^{}", data_type.as_iri()),
                         (None, Some(language)) => format!("@{}", language),
                         _ => String::new(),
                     }
-- 
2.43.0


From 75c96caa6341251e8d63c5b53467008cfac0630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 17/58] fix: Literal::base64_encoded labels its value as
 hexBinary

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 729d67d..ca33f7c 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -972,7 +972,7 @@ impl Literal {
 
     #[cfg(feature = "binary_types")]
     pub fn base64_encoded(v: &[u8]) -> Self {
-        Self::with_data_type(STANDARD.encode(v), DataType::HexBinary)
+        Self::with_data_type(STANDARD.encode(v), DataType::Base64Binary)
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From 3f665ee9767a96a7597c90d000e5e4ff625b45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 18/58] fix: hexBinary literals cannot be decoded, the encoder
 writes no separators

---
 rdftk_core/src/model/literal.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index ca33f7c..cbe1e8a 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1044,10 +1044,11 @@ where
     S: AsRef<str>,
 {
     let value = value.as_ref();
-    let mut buffer = Vec::with_capacity((value.len() + 1) / 3);
-    for (index, hex_pair) in value.split(" ").enumerate() {
+    let mut buffer = Vec::with_capacity(value.len().div_ceil(2));
+    for (index, hex_pair) in value.as_bytes().chunks(2).enumerate() {
+        let hex_pair = String::from_utf8_lossy(hex_pair);
         if hex_pair.len() == 2 {
-            let byte = u8::from_str_radix(hex_pair, 16).map_err(|_| Error::HexDecoder {
+            let byte = u8::from_str_radix(&hex_pair, 16).map_err(|_| Error::HexDecoder {
                 value: hex_pair.to_string(),
                 index,
             })?;
-- 
2.43.0


From 012975a345c8c4bee0d4e13191ee3a8bec898fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 19/58] fix: duration literals drop the leading zeros of a
 fraction and never equal their Duration

---
 rdftk_core/src/model/literal.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index cbe1e8a..f89bc4a 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -516,7 +516,7 @@ impl From<Duration> for Literal {
         let nanos = v.subsec_nanos();
         Self::with_data_type(
             if nanos != 0 {
-                format!("PT{seconds}.{nanos}S")
+                format!("PT{seconds}.{nanos:09}S")
             } else {
                 format!("PT{seconds}S")
             },
@@ -547,8 +547,7 @@ impl From<&chrono::Duration> for Literal {
 
 impl PartialEq<Duration> for Literal {
     fn eq(&self, other: &Duration) -> bool {
-        *self.lexical_form() == other.as_nanos().to_string()
-            && self.data_type() == Some(&DataType::Duration)
+        *self == Self::from(other)
     }
 }
 
-- 
2.43.0


From bc1f1e4f5b807e67f447c24104eaeb0f1b9a13ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 20/58] fix: DataType::from(Iri) does not recognize seven of
 the data types it defines

---
 rdftk_core/src/model/literal.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index f89bc4a..9d64166 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -318,6 +318,20 @@ impl From<Iri> for DataType {
             Self::UnsignedByte
         } else if &iri == xsd::duration() {
             Self::Duration
+        } else if &iri == xsd::base64_binary() {
+            Self::Base64Binary
+        } else if &iri == xsd::date() {
+            Self::Date
+        } else if &iri == xsd::date_time() {
+            Self::DateTime
+        } else if &iri == xsd::decimal() {
+            Self::Decimal
+        } else if &iri == xsd::hex_binary() {
+            Self::HexBinary
+        } else if &iri == xsd::language() {
+            Self::Language
+        } else if &iri == xsd::time() {
+            Self::Time
         } else if &iri == rdf::xml_literal() {
             Self::XmlLiteral
         } else {
-- 
2.43.0


From 71e31aa68a2e9e4859c93c03e971876e8d7a3980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 21/58] fix: Literal::with_data_type_iri makes a literal that
 differs from the same literal with_data_type

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 9d64166..656970f 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -974,7 +974,7 @@ impl Literal {
     {
         Self {
             lexical_form: escape_string(v),
-            data_type: Some(DataType::Other(data_type)),
+            data_type: Some(DataType::from(data_type)),
             language: None,
         }
     }
-- 
2.43.0


From d5c1e99103e15b376e9ccb2f0770e41c7d387cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 22/58] fix: literals escape characters as \0 and \u{..}, which
 no RDF syntax reads

---
 rdftk_core/src/model/literal.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 656970f..31a206f 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1036,8 +1036,15 @@ fn escape_string<S>(value: S) -> String
 where
     S: Into<String>,
 {
-    let formatted = format!("{:?}", value.into());
-    formatted[1..formatted.len() - 1].to_string()
+    let mut escaped = String::new();
+    for c in value.into().chars() {
+        match c {
+            '"' | '\\' | '\n' | '\r' | '\t' => escaped.extend(c.escape_default()),
+            c if c.is_control() => escaped.push_str(&format!("\\u{:04X}", c as u32)),
+            c => escaped.push(c),
+        }
+    }
+    escaped
 }
 
 fn hex_encode(value: &[u8]) -> String {
-- 
2.43.0


From 96ec92edd82ba31cb16f69e3f7500a03c77b17b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 23/58] fix: a literal with escaped characters does not equal
 the string it was made from

---
 rdftk_core/src/model/literal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 31a206f..20c4541 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -628,14 +628,14 @@ impl From<&str> for Literal {
 
 impl PartialEq<String> for Literal {
     fn eq(&self, other: &String) -> bool {
-        self.lexical_form() == other
+        *self.lexical_form() == escape_string(other)
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
 
 impl PartialEq<str> for Literal {
     fn eq(&self, other: &str) -> bool {
-        self.lexical_form() == other
+        *self.lexical_form() == escape_string(other)
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
-- 
2.43.0


From ab059d1b1f86cede2b404ff5d74727b0f16ff126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 24/58] fix: the alternate form of an anyURI literal is an IRI
 node, not a literal

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 20c4541..6f5dcaa 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -839,7 +839,7 @@ impl Eq for Literal {}
 impl Display for Literal {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match (self.data_type(), f.alternate()) {
-            (Some(DataType::Iri), _) => write!(f, "<{}>", self.lexical_form()),
+            (Some(DataType::Iri), false) => write!(f, "<{}>", self.lexical_form()),
             (
                 Some(DataType::Boolean)
                 | Some(DataType::Long)
-- 
2.43.0


From 5896b5038e9c17893df3a33ff2fdc47d112f4a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 25/58] fix: there is no way to get the unescaped value of a
 literal for formats with their own escapes

---
 rdftk_core/src/model/literal.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 6f5dcaa..62b6f18 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -999,6 +999,35 @@ impl Literal {
         &self.lexical_form
     }
 
+    ///
+    /// Return the lexical form of this literal with all escape sequences replaced by the
+    /// characters they denote, this is the string the literal was constructed from.
+    ///
+    pub fn unescaped_form(&self) -> String {
+        let mut unescaped = String::new();
+        let mut chars = self.lexical_form.chars();
+        while let Some(c) = chars.next() {
+            unescaped.push(match c {
+                '\\' => match chars.next() {
+                    Some('n') => '\n',
+                    Some('r') => '\r',
+                    Some('t') => '\t',
+                    Some('u') => {
+                        let digits: String = chars.by_ref().take(4).collect();
+                        u32::from_str_radix(&digits, 16)
+                            .ok()
+                            .and_then(char::from_u32)
+                            .unwrap_or(char::REPLACEMENT_CHARACTER)
+                    }
+                    Some(c) => c,
+                    None => c,
+                },
+                c => c,
+            });
+        }
+        unescaped
+    }
+
     ///
     /// Returns `true` if this literal has a specified data type, else `false`.
     ///
-- 
2.43.0


From 00cf4eba91b7413532708a633e032c751374c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 26/58] fix: a nested resource is flattened to a statement
 about its parent

---
 rdftk_core/src/model/resource.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/resource.rs b/rdftk_core/src/model/resource.rs
index 2a73cc6..b01efd0 100644
--- a/rdftk_core/src/model/resource.rs
+++ b/rdftk_core/src/model/resource.rs
@@ -686,7 +686,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                     match object {
                         ResourceObject::Resource(resource) => {
                             flatten(resource, sts);
-                            subject.to_object()
+                            resource.subject.to_object()
                         }
                         ResourceObject::Literal(literal) => ObjectNode::from(literal.clone()),
                         _ => unreachable!(),
-- 
2.43.0


From 8d9a454b983e4dc6f746461f99a49b6c5977917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 27/58] fix: container members are numbered from rdf:_0

---
 rdftk_core/src/model/resource.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/resource.rs b/rdftk_core/src/model/resource.rs
index b01efd0..3fb3e38 100644
--- a/rdftk_core/src/model/resource.rs
+++ b/rdftk_core/src/model/resource.rs
@@ -663,7 +663,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                             flatten(resource, sts);
                             sts.push(Statement::new(
                                 container.clone(),
-                                rdf::member(index),
+                                rdf::member(index + 1),
                                 resource.subject.to_object(),
                             ));
                         }
@@ -672,7 +672,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                         for (index, literal) in lc.values.iter().enumerate() {
                             sts.push(Statement::new(
                                 container.clone(),
-                                rdf::member(index),
+                                rdf::member(index + 1),
                                 literal,
                             ));
                         }
-- 
2.43.0


From 21999f6f5133d3a6519464d7a0953ac2b506717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 28/58] fix: Graph::skolemize keeps blank nodes that are nested
 or name the graph, and drops name and mappings

---
 rdftk_core/src/model/graph.rs | 78 ++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 20 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index e406067..20728de 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -18,7 +18,7 @@ fn simple_graph_writer(graph: &Graph)
 
 use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
-use crate::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
+use crate::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::{Iri, IriPrefixMap, Name};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display, Formatter};
@@ -616,27 +616,14 @@ impl Graph {
     pub fn skolemize(&self, base: &Iri) -> Result<Self, Error> {
         let mut mapping: HashMap<BlankNode, Iri> = Default::default();
 
-        let mut new_graph = Self::default();
+        let mut new_graph = self.clone();
+        new_graph.clear();
+        if let Some(blank) = self.name().and_then(|name| name.as_blank()) {
+            new_graph.set_name(skolem_iri(blank, base, &mut mapping)?.into());
+        }
 
         for statement in self.statements() {
-            let mut new_statement = statement.clone();
-            if let Some(blank) = new_statement.subject().as_blank() {
-                if !mapping.contains_key(blank) {
-                    let _ = mapping.insert(blank.clone(), base.genid()?);
-                }
-                let name = mapping.get(blank).unwrap().clone();
-                let subject = SubjectNode::from(name);
-                new_statement.set_subject(subject);
-            }
-            if let Some(blank) = new_statement.object().as_blank() {
-                if !mapping.contains_key(blank) {
-                    let _ = mapping.insert(blank.clone(), base.genid()?);
-                }
-                let name = mapping.get(blank).unwrap().clone();
-                let object = ObjectNode::from(name);
-                new_statement.set_object(object);
-            }
-            new_graph.insert(new_statement);
+            new_graph.insert(skolem_statement(statement, base, &mut mapping)?);
         }
 
         Ok(new_graph)
@@ -678,6 +665,57 @@ impl Graph {
     }
 }
 
+// ------------------------------------------------------------------------------------------------
+// Private Functions > Skolemize
+// ------------------------------------------------------------------------------------------------
+
+fn skolem_iri(
+    blank: &BlankNode,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<Iri, Error> {
+    if !mapping.contains_key(blank) {
+        let _ = mapping.insert(blank.clone(), base.genid()?);
+    }
+    Ok(mapping.get(blank).unwrap().clone())
+}
+
+fn skolem_statement(
+    statement: &Statement,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<Statement, Error> {
+    let mut new_statement = statement.clone();
+    match statement.subject() {
+        SubjectNode::Blank(blank) => {
+            new_statement.set_subject(skolem_iri(blank, base, mapping)?.into())
+        }
+        SubjectNode::Resource(_) => {}
+        SubjectNode::Statement(nested) => {
+            new_statement.set_subject(skolem_statement(nested, base, mapping)?.into())
+        }
+    }
+    new_statement.set_object(skolem_object(statement.object(), base, mapping)?);
+    Ok(new_statement)
+}
+
+fn skolem_object(
+    object: &ObjectNode,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<ObjectNode, Error> {
+    Ok(match object {
+        ObjectNode::Blank(blank) => skolem_iri(blank, base, mapping)?.into(),
+        ObjectNode::Resource(_) | ObjectNode::Literal(_) => object.clone(),
+        ObjectNode::Collection(collection) => collection
+            .iter()
+            .map(|element| skolem_object(element, base, mapping))
+            .collect::<Result<Vec<ObjectNode>, Error>>()
+            .map(|elements| Collection::from(elements).into())?,
+        ObjectNode::Statement(nested) => skolem_statement(nested, base, mapping)?.into(),
+    })
+}
+
 // ------------------------------------------------------------------------------------------------
 // Implementations > Statements Enum
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From ae4a6c3d32a0bafd6c49ed6a96e4937c49ceda13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 29/58] fix: N-Triples and N-Quads writers write <<predicate>>,
 and N-Quads literals in Turtle shorthand

---
 rdftk_io/src/nq/writer.rs | 4 ++--
 rdftk_io/src/nt/writer.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rdftk_io/src/nq/writer.rs b/rdftk_io/src/nq/writer.rs
index 2c4fd2d..004113f 100644
--- a/rdftk_io/src/nq/writer.rs
+++ b/rdftk_io/src/nq/writer.rs
@@ -47,9 +47,9 @@ impl ObjectWriter<Graph> for NQuadWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if let Some(graph_name) = graph_name {
-                        writeln!(w, "{} <{}> {} {} .", subject, predicate, object, graph_name)?;
+                        writeln!(w, "{} {} {:#} {} .", subject, predicate, object, graph_name)?;
                     } else {
-                        writeln!(w, "{} <{}> {} .", subject, predicate, object)?;
+                        writeln!(w, "{} {} {:#} .", subject, predicate, object)?;
                     }
                 }
             }
diff --git a/rdftk_io/src/nt/writer.rs b/rdftk_io/src/nt/writer.rs
index 08151e1..b3e8093 100644
--- a/rdftk_io/src/nt/writer.rs
+++ b/rdftk_io/src/nt/writer.rs
@@ -38,9 +38,9 @@ impl ObjectWriter<Graph> for NTripleWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if self.options().force_string_literals {
-                        writeln!(w, "{subject} <{predicate}> {object:#} .")?;
+                        writeln!(w, "{subject} {predicate} {object:#} .")?;
                     } else {
-                        writeln!(w, "{subject} <{predicate}> {object} .")?;
+                        writeln!(w, "{subject} {predicate} {object} .")?;
                     }
                 }
             }
-- 
2.43.0


From b2a319c0d0020fa92b875930b1ed654a465ef3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 30/58] fix: N-Triples reader keeps escape sequences in
 literals, mislabels data types and panics on \uD800

---
 rdftk_io/src/common/parser/ntriples.rs | 67 +++++++++++++-------------
 1 file changed, 33 insertions(+), 34 deletions(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index d54adf0..ddf056c 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -1,11 +1,10 @@
 use super::Rule;
 use pest::iterators::Pair;
-use rdftk_core::error::Error;
+use rdftk_core::error::{invalid_from_str_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
 use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::Iri;
-use regex::Regex;
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -148,7 +147,7 @@ fn rdf_literal(input_pair: Pair<'_, Rule>) -> Result<Literal, Error> {
         if let Some(other) = inner_pair.next() {
             match other.as_rule() {
                 Rule::IRIREF => {
-                    let data_type = DataType::Other(iri_ref(other)?);
+                    let data_type = DataType::from(iri_ref(other)?);
                     Ok(Literal::with_data_type(&lexical_form, data_type))
                 }
                 Rule::LANGTAG => {
@@ -179,7 +178,7 @@ fn string(input_pair: Pair<'_, Rule>) -> Result<String, Error> {
             Rule::STRING_LITERAL_QUOTE => {
                 let inner_pair = inner_pair.into_inner().next().unwrap();
                 if inner_pair.as_rule() == Rule::QUOTE_INNER {
-                    Ok(inner_pair.as_str().to_string())
+                    unescape(inner_pair.as_str())
                 } else {
                     Err(pest_error!(
                         unexpected
@@ -207,7 +206,7 @@ fn iri_ref(input_pair: Pair<'_, Rule>) -> Result<Iri, Error> {
     if input_pair.as_rule() == Rule::IRIREF {
         let iri = input_pair.as_str().to_string();
         // strip the '<' and '>' characters.
-        let iri_str = unescape_iri(&iri[1..iri.len() - 1]);
+        let iri_str = unescape(&iri[1..iri.len() - 1])?;
         Ok(Iri::from_str(&iri_str)?)
     } else {
         Err(pest_error!(unexpected RULE_FN, &input_pair, [Rule::IRIREF]))
@@ -219,10 +218,8 @@ fn lang_tag(input_pair: Pair<'_, Rule>) -> Result<LanguageTag, Error> {
 
     if input_pair.as_rule() == Rule::LANGTAG {
         let tag = input_pair.as_str().to_string();
-        println!("**{tag}**");
         // strip the leading '@'
         let tag = &tag[1..];
-        println!("**{tag}**");
         Ok(LanguageTag::parse(tag)?)
     } else {
         Err(pest_error!(unexpected RULE_FN, &input_pair, [Rule::LANGTAG]))
@@ -231,34 +228,36 @@ fn lang_tag(input_pair: Pair<'_, Rule>) -> Result<LanguageTag, Error> {
 
 // ------------------------------------------------------------------------------------------------
 
-lazy_static::lazy_static! {
-    static ref UNICODE_ESC: Regex =
-        Regex::new(r"(\\U[[:xdigit:]]{8})|(\\u[[:xdigit:]]{4})").unwrap();
-}
-
-fn unescape_iri(iri: &str) -> String {
-    let (new_iri, end) =
-        UNICODE_ESC
-            .captures_iter(iri)
-            .fold((String::new(), 0), |(so_far, start), cap| {
-                let cap = cap.get(0).unwrap();
-                (
-                    format!(
-                        "{}{}{}",
-                        so_far,
-                        &iri[start..cap.start()],
-                        unescape_uchar(cap.as_str())
-                    ),
-                    cap.end(),
-                )
+///
+/// Replace the numeric (`UCHAR`) and string (`ECHAR`) escape sequences in `text`, as matched by the
+/// grammar, with the characters they stand for.
+///
+fn unescape(text: &str) -> Result<String, Error> {
+    let mut unescaped = String::with_capacity(text.len());
+    let mut chars = text.chars();
+    while let Some(c) = chars.next() {
+        if c == '\\' {
+            unescaped.push(match chars.next() {
+                Some('u') => unescape_uchar(chars.by_ref().take(4).collect())?,
+                Some('U') => unescape_uchar(chars.by_ref().take(8).collect())?,
+                Some('t') => '\t',
+                Some('b') => '\u{08}',
+                Some('n') => '\n',
+                Some('r') => '\r',
+                Some('f') => '\u{0C}',
+                Some(c) => c,
+                None => return Err(invalid_from_str_error(text, "ECHAR")),
             });
-
-    format!("{}{}", new_iri, &iri[end..])
+        } else {
+            unescaped.push(c);
+        }
+    }
+    Ok(unescaped)
 }
 
-fn unescape_uchar(uchar: &str) -> char {
-    use std::char;
-    let uchar = &uchar[2..];
-    let uchar_u32 = u32::from_str_radix(uchar, 16).unwrap();
-    char::from_u32(uchar_u32).unwrap()
+fn unescape_uchar(digits: String) -> Result<char, Error> {
+    u32::from_str_radix(&digits, 16)
+        .ok()
+        .and_then(char::from_u32)
+        .ok_or_else(|| invalid_from_str_error(digits, "UCHAR"))
 }
-- 
2.43.0


From c35ef5e3386aeff996834c1b97d68e468a373dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 31/58] fix: N-Quads reader rejects every statement without a
 graph label

---
 rdftk_io/src/common/parser/nquads.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/parser/nquads.rs b/rdftk_io/src/common/parser/nquads.rs
index fb0c4ce..220bf71 100644
--- a/rdftk_io/src/common/parser/nquads.rs
+++ b/rdftk_io/src/common/parser/nquads.rs
@@ -56,7 +56,9 @@ fn nquad(input_pair: Pair<'_, Rule>, data_set: &mut DataSet) -> Result<(), Error
         let predicate: Iri = nt_predicate(inner_pairs.next().unwrap())?;
         let object: ObjectNode = nt_object(inner_pairs.next().unwrap())?;
         let statement: Statement = Statement::new(subject, predicate, object);
-        let graph: &mut Graph = if let Some(new_inner_pair) = inner_pairs.next() {
+        let graph: &mut Graph = if let Some(new_inner_pair) =
+            inner_pairs.find(|pair| pair.as_rule() == Rule::ntripleSubject)
+        {
             let graph_name = subject_to_graph_name(nt_subject(new_inner_pair)?);
             if let Some(graph) = data_set.graph_mut(&Some(graph_name.clone())) {
                 graph
-- 
2.43.0


From 824a963967219c990907179691716eb57b5441b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 32/58] fix: JSON writer writes <iri> and escaped values, JSON
 reader panics on blank node values it wrote

---
 rdftk_io/src/json/reader.rs |  2 +-
 rdftk_io/src/json/writer.rs | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/rdftk_io/src/json/reader.rs b/rdftk_io/src/json/reader.rs
index 4d468be..b98a0c7 100644
--- a/rdftk_io/src/json/reader.rs
+++ b/rdftk_io/src/json/reader.rs
@@ -232,7 +232,7 @@ fn parse_bnode_object(
 ) -> Result<(), Error> {
     parse_rule!("parse_bnode_object" entry);
     if let Some(Value::String(s)) = object.get(OBJ_KEY_VALUE) {
-        let object = BlankNode::from_str(&s[2..])?;
+        let object = BlankNode::from_str(s)?;
         let st = Statement::new(subject.clone(), predicate.clone(), object);
         graph.insert(st);
         Ok(())
diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index 63d2590..2e2f6cd 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -1,5 +1,5 @@
 use crate::json::syntax::{
-    OBJ_KEY_DATATYPE, OBJ_KEY_LANG, OBJ_KEY_TYPE, OBJ_KEY_VALUE, OBJ_TYPE_BNODE, OBJ_TYPE_LITERAL,
+    BNODE_PREFIX, OBJ_KEY_DATATYPE, OBJ_KEY_LANG, OBJ_KEY_TYPE, OBJ_KEY_VALUE, OBJ_TYPE_BNODE, OBJ_TYPE_LITERAL,
     OBJ_TYPE_URI,
 };
 use crate::json::NAME;
@@ -80,7 +80,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(object.as_blank().unwrap().to_string()),
+                            Value::String(format!("{BNODE_PREFIX}{}", object.as_blank().unwrap())),
                         );
                     } else if object.is_resource() {
                         let _ = object_map.insert(
@@ -89,7 +89,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(object.as_resource().unwrap().to_string()),
+                            Value::String(format!("{:#}", object.as_resource().unwrap())),
                         );
                     } else if object.is_literal() {
                         let literal = object.as_literal().unwrap();
@@ -99,7 +99,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(literal.lexical_form().to_string()),
+                            Value::String(literal.unescaped_form()),
                         );
                         if let Some(language) = literal.language() {
                             let _ = object_map.insert(
@@ -110,7 +110,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         if let Some(data_type) = literal.data_type() {
                             let _ = object_map.insert(
                                 OBJ_KEY_DATATYPE.to_string(),
-                                Value::String(data_type.as_iri().to_string()),
+                                Value::String(format!("{:#}", data_type.as_iri())),
                             );
                         }
                     } else {
@@ -118,9 +118,13 @@ impl ObjectWriter<Graph> for JsonWriter {
                     }
                     objects.push(Value::Object(object_map));
                 }
-                let _ = predicate_map.insert(predicate.to_string(), Value::Array(objects));
+                let _ = predicate_map.insert(format!("{predicate:#}"), Value::Array(objects));
             }
-            let _ = json_graph.insert(subject.to_string(), Value::Object(predicate_map));
+            let subject = match subject.as_resource() {
+                Some(iri) => format!("{iri:#}"),
+                None => subject.to_string(),
+            };
+            let _ = json_graph.insert(subject, Value::Object(predicate_map));
         }
         if self.options.pretty_print() {
             serde_json::to_writer_pretty(w, &Value::Object(json_graph)).map_err(json_error)?;
-- 
2.43.0


From 276904d308c76e781a5f517aa170dd62476e9145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 33/58] fix: XML writer writes <iri>, accumulates prefixes,
 escapes values twice and panics on predicates without '#' or '/'

---
 rdftk_io/src/xml/writer.rs | 60 +++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 091a67b..25c3f2a 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -6,7 +6,7 @@ use crate::xml::syntax::ATTRIBUTE_XML_LANG_PREFIXED;
 use crate::GraphWriter;
 use objio::HasOptions;
 use objio::{impl_has_options, ObjectWriter};
-use rdftk_core::error::{rdf_star_not_supported_error, Error};
+use rdftk_core::error::{invalid_qname_error, rdf_star_not_supported_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::statement::SubjectNode;
 use rdftk_iri::Iri;
@@ -197,31 +197,31 @@ impl XmlWriter {
     fn default_mappings() -> HashMap<String, String> {
         let mappings: HashMap<String, String> = [
             (
-                dc::elements::namespace().to_string(),
+                dc::elements::namespace_str().to_string(),
                 dc::elements::default_prefix().to_string(),
             ),
             (
-                foaf::namespace().to_string(),
+                foaf::namespace_str().to_string(),
                 foaf::default_prefix().to_string(),
             ),
             (
-                geo::namespace().to_string(),
+                geo::namespace_str().to_string(),
                 geo::default_prefix().to_string(),
             ),
             (
-                owl::namespace().to_string(),
+                owl::namespace_str().to_string(),
                 owl::default_prefix().to_string(),
             ),
             (
-                rdf::namespace().to_string(),
+                rdf::namespace_str().to_string(),
                 rdf::default_prefix().to_string(),
             ),
             (
-                rdfs::namespace().to_string(),
+                rdfs::namespace_str().to_string(),
                 rdfs::default_prefix().to_string(),
             ),
             (
-                xsd::namespace().to_string(),
+                xsd::namespace_str().to_string(),
                 xsd::default_prefix().to_string(),
             ),
         ]
@@ -263,19 +263,21 @@ impl XmlWriter {
         }
 
         for predicate in graph.predicates_for(subject) {
-            let (ns, mut name) = split_uri(predicate);
+            let (ns, local_name) = split_uri(predicate)?;
+            let (prefix, name) = match self.mappings.get(&ns) {
+                Some(prefix) => (Some(prefix), format!("{prefix}:{local_name}")),
+                None => (None, local_name),
+            };
 
             for object in graph.objects_for(subject, predicate) {
-                let mut element = if let Some(prefix) = self.mappings.get(&ns) {
-                    name = format!("{}:{}", prefix, name);
+                let mut element = if let Some(prefix) = prefix {
                     XmlEvent::start_element(name.as_str()).ns(prefix, &ns)
                 } else {
                     XmlEvent::start_element(name.as_str()).default_ns(&ns)
                 };
 
                 if let Some(iri) = object.as_resource() {
-                    let iri = iri.to_string();
-                    element = element.attr(RDF_RESOURCE.as_str(), &iri);
+                    element = element.attr(RDF_RESOURCE.as_str(), iri.as_ref());
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
                     if flat {
@@ -294,15 +296,15 @@ impl XmlWriter {
                         element = element.attr(ATTRIBUTE_XML_LANG_PREFIXED, &language)
                     }
                     if let Some(data_type) = literal.data_type() {
-                        let dt_iri = data_type.as_iri().to_string();
+                        let dt_iri = data_type.as_iri();
                         writer
-                            .write(element.attr(RDF_DATATYPE.as_str(), &dt_iri))
+                            .write(element.attr(RDF_DATATYPE.as_str(), dt_iri.as_ref()))
                             .map_err(xml_error)?
                     } else {
                         writer.write(element).map_err(xml_error)?;
                     }
                     writer
-                        .write(XmlEvent::Characters(literal.lexical_form()))
+                        .write(XmlEvent::Characters(&literal.unescaped_form()))
                         .map_err(xml_error)?;
                 } else {
                     return rdf_star_not_supported_error(super::NAME).into();
@@ -333,15 +335,19 @@ fn xml_error(e: xml::writer::Error) -> Error {
     }
 }
 
-fn split_uri(iri: &Iri) -> (String, String) {
-    let iri = iri.to_string();
-    let index = iri
-        .chars()
-        .rev()
-        .enumerate()
-        .find_map(|(i, c)| if c == '#' || c == '/' { Some(i) } else { None })
-        .unwrap();
-    assert_ne!(index, iri.len());
-    let index = iri.len() - index;
-    (iri[..index].to_string(), iri[index..].to_string())
+///
+/// Split a predicate into a namespace and the longest local name that is valid as the name of an
+/// element; the namespace ends in the last character that cannot be part of such a name.
+///
+fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
+    let iri: &str = iri.as_ref();
+    let tail = iri
+        .trim_end_matches(|c: char| c.is_ascii_alphanumeric() || matches!(c, '_' | '-' | '.'))
+        .len();
+    iri[tail..]
+        .find(|c: char| c.is_ascii_alphabetic() || c == '_')
+        .map(|start| iri.split_at(tail + start))
+        .filter(|(namespace, _)| !namespace.is_empty())
+        .map(|(namespace, name)| (namespace.to_string(), name.to_string()))
+        .ok_or_else(|| invalid_qname_error(iri))
 }
-- 
2.43.0


From 6433e93988fe9e46310265e20cfee2f928ffb8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 34/58] fix: Turtle writer panics on nested statements, writes
 <<iri>>, invalid collections and escapes, and duplicates blank nodes

---
 rdftk_io/src/turtle/writer.rs | 178 +++++++++++++++++++---------------
 1 file changed, 101 insertions(+), 77 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index c084a8d..22ebd94 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -6,14 +6,14 @@ use rdftk_core::{
     model::{
         graph::Graph,
         literal::{DataType, Literal},
-        statement::{Collection, ObjectNode, Statement, SubjectNode},
+        statement::{BlankNode, Collection, ObjectNode, SubjectNode},
     },
 };
 use rdftk_iri::Iri;
 use rdftk_names::{dc::elements, foaf, owl, rdf, rdfs, skos};
 use std::{
     cell::RefCell,
-    collections::{BTreeMap, HashSet},
+    collections::{BTreeMap, HashMap, HashSet},
     io::Write,
     str::FromStr,
     sync::LazyLock,
@@ -110,7 +110,8 @@ enum PredicateGroupOrdering {
 #[derive(Clone, Debug, Default)]
 struct WriterContext {
     indenter: Indenter,
-    blanks_to_write: HashSet<SubjectNode>,
+    /// The blank nodes that are the object of exactly one statement, and so may be nested.
+    nestable: HashSet<SubjectNode>,
 }
 
 const DECL_BASE_TTL: &str = "@base";
@@ -344,29 +345,14 @@ impl ObjectWriter<Graph> for TurtleWriter {
     where
         W: Write,
     {
-        let (nested, plain): (Vec<_>, Vec<_>) =
-            graph.statements().partition(|stmt| stmt.is_nested());
-
-        let mut reified_statements: Vec<Statement> = nested
-            .into_iter()
-            .map(|stmt| {
-                let (subject, mut new) = stmt.reify().unwrap();
-                new.push(Statement::new(
-                    stmt.subject(),
-                    stmt.predicate().clone(),
-                    subject.to_object(),
-                ));
-                new
-            })
-            .flatten()
-            .collect();
-        plain
-            .into_iter()
-            .for_each(|s| reified_statements.push(s.clone()));
-
-        let mut denested_graph = Graph::from(reified_statements);
-        denested_graph.set_prefix_mappings(graph.prefix_mappings().clone());
-        self.write_turtle_doc(w, &denested_graph)
+        if graph
+            .statements()
+            .any(|stmt| stmt.is_nested() || contains_statement(stmt.object()))
+        {
+            self.write_turtle_doc(w, &graph.simplify()?)
+        } else {
+            self.write_turtle_doc(w, graph)
+        }
     }
 }
 
@@ -476,15 +462,11 @@ impl TurtleWriter {
             let mut context_mut = self.context.borrow_mut();
             context_mut.indenter =
                 Indenter::default().with_default_indent_width(self.options.indent_width());
-            // Initialize with all the blank nodes in the graph
-            context_mut.blanks_to_write = graph
-                .blank_node_subjects()
-                .iter()
-                .map(|s| {
-                    let s = *s;
-                    s.clone()
-                })
-                .collect();
+            context_mut.nestable = if self.options.nest_blank_nodes() {
+                nestable_blank_nodes(graph)
+            } else {
+                Default::default()
+            };
         }
 
         // [3] directives
@@ -515,7 +497,7 @@ impl TurtleWriter {
             writeln!(
                 w,
                 "{decl} {IRI_START}{}{IRI_END}{eos}",
-                base.to_string().as_str()
+                AsRef::<str>::as_ref(base)
             )?;
             if !self.options.use_intellij_style() {
                 writeln!(w)?;
@@ -536,15 +518,15 @@ impl TurtleWriter {
         if !mappings.is_empty() {
             for (prefix, namespace) in mappings.mappings().sorted() {
                 let prefix = prefix.name_string().unwrap_or_default();
-                let mut namespace_str = namespace.to_string();
+                let mut namespace_str = format!("{namespace:#}");
                 // If we have any base Iri conversions to do for any of the
                 // namespaces, then do it now:
                 for (from_base, to_base) in self.options.convert_base().iter() {
-                    let from_base_str = from_base.to_string();
+                    let from_base_str = format!("{from_base:#}");
                     if namespace_str.starts_with(from_base_str.as_str()) {
                         namespace_str = format!(
                             "{}{}",
-                            to_base.to_string().as_str(),
+                            AsRef::<str>::as_ref(to_base),
                             &namespace_str[from_base_str.len()..]
                         );
                         break;
@@ -586,13 +568,13 @@ impl TurtleWriter {
             writeln!(w)?;
         }
 
-        // The given cursor object collects all the blank-node objects that have not
-        // been written to the turtle file yet but have been referred to during
-        // the call to `write_normal_subjects` above. Now process those
-        // unwritten blank nodes and add them to the end of the file.
+        // Now process those blank nodes that were not nested in the subjects written above
+        // and add them to the end of the file.
         let context = self.context.borrow();
-        // Iterate over all blank nodes
-        for subject in context.blanks_to_write.iter() {
+        for subject in graph.blank_node_subjects().into_iter().sorted() {
+            if context.nestable.contains(subject) {
+                continue;
+            }
             context.indenter.reset_depth();
             self.write_subject(w, graph, subject, flags)?;
             self.write_predicate_object_list(w, graph, subject, flags)?;
@@ -689,7 +671,7 @@ impl TurtleWriter {
     ) -> Result<()> {
         trace!(name: "write_verb", ?predicate, ?group, max_len, ?flags);
         // Special treatment for `rdf:type`; show it in turtle as just "a"
-        if group == PredicateGroupOrdering::Type {
+        if predicate == rdf::a_type() {
             let type_verb = if self.options.use_rdf_type_a {
                 RDF_TYPE_A.to_string()
             } else {
@@ -726,10 +708,10 @@ impl TurtleWriter {
     /// Turtle as if it's an Iri with the default base.
     fn compress_iri(&self, graph: &Graph, iri: &Iri) -> Result<String> {
         trace!(name: "compress_iri", ?iri);
-        let mut iri_str = iri.to_string();
+        let mut iri_str = format!("{iri:#}");
         if let Some(id_base) = &self.options.id_base() {
             if let Some(ref convert_to_id_base) = self.options.convert_to_id_base() {
-                let target_id_base = convert_to_id_base.to_string();
+                let target_id_base = format!("{convert_to_id_base:#}");
                 if iri_str.starts_with(target_id_base.as_str()) {
                     return Ok(format!(
                         "{IRI_START}{}{IRI_END}",
@@ -737,7 +719,7 @@ impl TurtleWriter {
                     ));
                 }
             }
-            let id_base_str = id_base.to_string();
+            let id_base_str = format!("{id_base:#}");
             if iri_str.starts_with(id_base_str.as_str()) {
                 return Ok(format!(
                     "{IRI_START}{}{IRI_END}",
@@ -746,18 +728,18 @@ impl TurtleWriter {
             }
         }
         for (from_base, to_base) in self.options.convert_base().iter() {
-            let from_base_str = from_base.to_string();
+            let from_base_str = format!("{from_base:#}");
             if iri_str.starts_with(from_base_str.as_str()) {
                 iri_str = format!(
                     "{}{}",
-                    to_base.to_string().as_str(),
+                    AsRef::<str>::as_ref(to_base),
                     &iri_str[from_base_str.len()..]
                 );
             }
         }
         let iri = Iri::from_str(iri_str.as_str())?;
         Ok(match graph.prefix_mappings().compress(&iri) {
-            None => format!("{IRI_START}{iri}{IRI_END}"),
+            None => format!("{iri}"),
             Some(_qname) => format!("{_qname}"),
         })
     }
@@ -776,24 +758,12 @@ impl TurtleWriter {
     fn write_literal<W: Write>(&self, w: &mut W, graph: &Graph, literal: &Literal) -> Result<()> {
         trace!(name: "write_literal", ?literal);
         Ok(match literal.data_type() {
-            Some(DataType::Iri) => {
-                let iri = Iri::from_str(literal.lexical_form())?;
-                self.write_iri(w, graph, &iri)?
+            // The one shorthand that every value of the data type has.
+            Some(DataType::Boolean) if matches!(literal.lexical_form().as_str(), "true" | "false") => {
+                write!(w, "{}", literal.lexical_form())?
             }
-            Some(DataType::Boolean)
-            | Some(DataType::Long)
-            | Some(DataType::Int)
-            | Some(DataType::Short)
-            | Some(DataType::Byte)
-            | Some(DataType::UnsignedLong)
-            | Some(DataType::UnsignedInt)
-            | Some(DataType::UnsignedShort)
-            | Some(DataType::UnsignedByte)
-            | Some(DataType::Float)
-            | Some(DataType::Double)
-            | Some(DataType::Decimal) => write!(w, "{}", literal.lexical_form())?,
             _ => {
-                write!(w, "{:?}", literal.lexical_form())?;
+                write!(w, "\"{}\"", literal.lexical_form())?;
                 match (literal.data_type(), literal.language()) {
                     (Some(data_type), None) => {
                         write!(w, "{DATATYPE_PREFIX}")?;
@@ -856,16 +826,13 @@ impl TurtleWriter {
         trace!(name: "write_object", ?object, ?flags);
         match &object {
             ObjectNode::Blank(blank) => {
-                if self.options.nest_blank_nodes()
-                    && graph.contains_subject(&object.to_subject().unwrap())
-                {
+                let subject = SubjectNode::from(blank.clone());
+                if !self.context.borrow().nestable.contains(&subject) {
+                    write!(w, "{BLANK_NODE_PREFIX}{NAME_SEPARATOR}{blank}",)?;
+                } else if graph.contains_subject(&subject) {
                     self.write_blank_node_property_list(w, graph, object, flags)?;
-                } else if self.options.nest_blank_nodes()
-                    && !graph.contains_subject(&object.to_subject().unwrap())
-                {
-                    write!(w, "{BLANK_NODE_START}{BLANK_NODE_END}")?;
                 } else {
-                    write!(w, "{BLANK_NODE_PREFIX}{NAME_SEPARATOR}{blank}",)?;
+                    write!(w, "{BLANK_NODE_START}{BLANK_NODE_END}")?;
                 }
             }
             ObjectNode::Resource(iri) => {
@@ -905,7 +872,7 @@ impl TurtleWriter {
             for (idx, object) in collection.iter().enumerate() {
                 self.write_object(w, graph, object, flags)?;
                 if idx < collection.len() - 1 {
-                    write!(w, "{OBJECT_SEPARATOR}{SPACE_SEPARATOR}")?;
+                    write!(w, "{SPACE_SEPARATOR}")?;
                 }
             }
             if self.options.outdent_collection_end {
@@ -984,6 +951,63 @@ impl TurtleWriter {
     }
 }
 
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+fn contains_statement(object: &ObjectNode) -> bool {
+    match object {
+        ObjectNode::Statement(_) => true,
+        ObjectNode::Collection(collection) => collection.iter().any(contains_statement),
+        _ => false,
+    }
+}
+
+fn blank_nodes_in<'a>(object: &'a ObjectNode, blanks: &mut Vec<&'a BlankNode>) {
+    match object {
+        ObjectNode::Blank(blank) => blanks.push(blank),
+        ObjectNode::Collection(collection) => {
+            collection.iter().for_each(|o| blank_nodes_in(o, blanks))
+        }
+        _ => {}
+    }
+}
+
+///
+/// Return the blank nodes that have exactly one parent, and no cycle among their ancestors; any
+/// other blank node has to be written with its label to remain the same node.
+///
+fn nestable_blank_nodes(graph: &Graph) -> HashSet<SubjectNode> {
+    let mut parents: HashMap<SubjectNode, Vec<&SubjectNode>> = HashMap::default();
+    for statement in graph.statements() {
+        let mut blanks = Vec::default();
+        blank_nodes_in(statement.object(), &mut blanks);
+        for blank in blanks {
+            parents
+                .entry(blank.clone().into())
+                .or_default()
+                .push(statement.subject());
+        }
+    }
+    let only_parent = |node: &SubjectNode| match parents.get(node).map(Vec::as_slice) {
+        Some([parent]) => Some(*parent),
+        _ => None,
+    };
+    parents
+        .keys()
+        .filter(|node| {
+            let mut ancestor = only_parent(node);
+            let mut steps = 0;
+            while let Some(parent) = ancestor.filter(|_| steps <= parents.len()) {
+                ancestor = only_parent(parent);
+                steps += 1;
+            }
+            (1..=parents.len()).contains(&steps)
+        })
+        .cloned()
+        .collect()
+}
+
 // ------------------------------------------------------------------------------------------------
 // Implementations > Ordering
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 552a4cf7309b5ddaa0d6ffbf81345cd83d1aad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 35/58] fix: DOT writer gives nested statements no node,
 ignores the node prefix of objects and labels nodes <iri>

---
 rdftk_io/src/dot/writer.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index fdbf428..3c61c24 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -287,16 +287,19 @@ impl ObjectWriter<Graph> for DotWriter {
 
         writeln!(w)?;
 
+        self.nodes.borrow_mut().clear();
+        let graph = graph.simplify()?;
         let mappings = graph.prefix_mappings();
         for statement in graph.statements() {
             writeln!(
                 w,
-                "    \"{}{}\" -> \"node_{}\" [label=\"{}\"];",
+                "    \"{}{}\" -> \"{}{}\" [label=\"{}\"];",
                 self.options.node_prefix,
                 self.subject_id(statement.subject()),
+                self.options.node_prefix,
                 self.object_id(statement.object()),
                 match mappings.compress(statement.predicate()) {
-                    None => statement.predicate().to_string(),
+                    None => format!("{:#}", statement.predicate()),
                     Some(qname) => qname.to_string(),
                 }
             )?;
@@ -361,6 +364,14 @@ impl ObjectWriter<Graph> for DotWriter {
 
 impl GraphWriter for DotWriter {}
 
+// The shorthand form of a literal may be the same as that of another node.
+fn object_key(node: &ObjectNode) -> String {
+    match node.as_literal() {
+        Some(literal) => format!("{literal:#}"),
+        None => node.to_string(),
+    }
+}
+
 impl DotWriter {
     ///
     /// Create a new writer with the provided options, this is used to override the default
@@ -394,7 +405,7 @@ impl DotWriter {
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
-                        label: node.as_resource().unwrap().to_string(),
+                        label: format!("{:#}", node.as_resource().unwrap()),
                     },
                 );
             }
@@ -404,13 +415,13 @@ impl DotWriter {
 
     fn object_id(&self, node: &ObjectNode) -> String {
         let mut nodes = self.nodes.borrow_mut();
-        if let Some(node) = nodes.get(&node.to_string()) {
+        if let Some(node) = nodes.get(&object_key(node)) {
             node.id.clone()
         } else {
             let id = format!("{}", nodes.len() + 1);
             if node.is_blank() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    object_key(node),
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Blank,
@@ -419,16 +430,16 @@ impl DotWriter {
                 );
             } else if node.is_resource() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    object_key(node),
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
-                        label: node.as_resource().unwrap().to_string(),
+                        label: format!("{:#}", node.as_resource().unwrap()),
                     },
                 );
             } else if node.is_literal() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    object_key(node),
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Literal,
-- 
2.43.0


From 25e421ab3364ce9448e4d1bb71048f8ab09ec4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 36/58] fix: hexBinary literals with a sign, +A, decode as a
 byte

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 62b6f18..23f0082 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1096,7 +1096,7 @@ where
     let mut buffer = Vec::with_capacity(value.len().div_ceil(2));
     for (index, hex_pair) in value.as_bytes().chunks(2).enumerate() {
         let hex_pair = String::from_utf8_lossy(hex_pair);
-        if hex_pair.len() == 2 {
+        if hex_pair.len() == 2 && hex_pair.chars().all(|c| c.is_ascii_hexdigit()) {
             let byte = u8::from_str_radix(&hex_pair, 16).map_err(|_| Error::HexDecoder {
                 value: hex_pair.to_string(),
                 index,
-- 
2.43.0


From 4bcea963216079d3c3ef6d2ff97bac052ea3b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 37/58] fix: an anyURI literal of an IRI with a quote or a
 backslash is not equal to it and reads back as another

---
 rdftk_core/src/model/literal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 23f0082..21887a0 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -398,7 +398,7 @@ impl From<&Iri> for Literal {
 
 impl PartialEq<Iri> for Literal {
     fn eq(&self, other: &Iri) -> bool {
-        self.lexical_form() == AsRef::<str>::as_ref(other)
+        self.unescaped_form() == AsRef::<str>::as_ref(other)
             && self.data_type() == Some(&DataType::Iri)
     }
 }
@@ -410,7 +410,7 @@ impl TryFrom<Literal> for Iri {
         match value.data_type() {
             Some(dt) => {
                 if *dt == DataType::Iri {
-                    Ok(value.lexical_form().parse::<Iri>()?)
+                    Ok(value.unescaped_form().parse::<Iri>()?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
                         from_type: dt.to_string(),
-- 
2.43.0


From 3e30c1e0c86eab4fb4fa616da8b9a75504061ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 38/58] fix: literals of infinite floating point values are
 inf, which xsd:float and xsd:double do not have

---
 rdftk_core/src/model/literal.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 21887a0..4c1ddf5 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -510,13 +510,14 @@ impl PartialEq<rust_decimal::Decimal> for Literal {
 
 impl From<f64> for Literal {
     fn from(v: f64) -> Self {
-        Self::with_data_type(v.to_string(), DataType::Double)
+        Self::with_data_type(float_form(&v.to_string()), DataType::Double)
     }
 }
 
 impl PartialEq<f64> for Literal {
     fn eq(&self, other: &f64) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Double)
+        *self.lexical_form() == float_form(&other.to_string())
+            && self.data_type() == Some(&DataType::Double)
     }
 }
 
@@ -578,13 +579,14 @@ impl PartialEq<chrono::Duration> for Literal {
 
 impl From<f32> for Literal {
     fn from(v: f32) -> Self {
-        Self::with_data_type(v.to_string(), DataType::Float)
+        Self::with_data_type(float_form(&v.to_string()), DataType::Float)
     }
 }
 
 impl PartialEq<f32> for Literal {
     fn eq(&self, other: &f32) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Float)
+        *self.lexical_form() == float_form(&other.to_string())
+            && self.data_type() == Some(&DataType::Float)
     }
 }
 
@@ -1076,6 +1078,11 @@ where
     escaped
 }
 
+/// The XML Schema form of a Rust floating point number, they differ for the infinities.
+fn float_form(value: &str) -> String {
+    value.replace("inf", "INF")
+}
+
 fn hex_encode(value: &[u8]) -> String {
     if !value.is_empty() {
         let mut buffer = String::with_capacity(value.len() * 2);
-- 
2.43.0


From de017e23161b98051d718dfbeb0b357c0adbd968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 39/58] fix: owl:incompatibleWith and xsd:ENTITY are misspelled

---
 rdftk_names/src/owl.rs | 2 +-
 rdftk_names/src/xsd.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_names/src/owl.rs b/rdftk_names/src/owl.rs
index 77d5267..e45ccdf 100644
--- a/rdftk_names/src/owl.rs
+++ b/rdftk_names/src/owl.rs
@@ -67,7 +67,7 @@ namespace! {
         version_info, "versionInfo",
         deprecated, "deprecated",
         backward_compatible_with, "backwardCompatibleWith",
-        incompatible_with, "incompatible_with",
+        incompatible_with, "incompatibleWith",
         prior_version, "priorVersion",
         ontology, "Ontology",
         version, "version",
diff --git a/rdftk_names/src/xsd.rs b/rdftk_names/src/xsd.rs
index 61ed016..a29e27f 100644
--- a/rdftk_names/src/xsd.rs
+++ b/rdftk_names/src/xsd.rs
@@ -14,7 +14,7 @@ namespace! {
         day_time_duration, "dayTimeDuration",
         decimal, "decimal",
         duration, "duration",
-        entity, "entity",
+        entity, "ENTITY",
         g_day, "gDay",
         g_month, "gMonth",
         g_month_day, "gMonthDay",
-- 
2.43.0


From 664cbd90f9e025981c2b81f2b80e1e72ed8caf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 40/58] fix: blank node labels and names with consecutive dots,
 such as _:a..b, are not read

---
 rdftk_io/src/common/common.pest | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/common/common.pest b/rdftk_io/src/common/common.pest
index 8c04b42..4db4cd2 100644
--- a/rdftk_io/src/common/common.pest
+++ b/rdftk_io/src/common/common.pest
@@ -338,7 +338,7 @@ BLANK_NODE_LABEL = @{
 
 BLANK_NODE_LABEL_TAIL = {
     PN_CHARS
-  | &("." ~ PN_CHARS) ~ "."
+  | &("."+ ~ PN_CHARS) ~ "."
 }
 
 ANON = {
@@ -528,7 +528,7 @@ PN_PREFIX = @{
 
 PN_PREFIX_TAIL = {
     PN_CHARS
-  | &("." ~ PN_CHARS) ~ "."
+  | &("."+ ~ PN_CHARS) ~ "."
 }
 
 PN_LOCAL = @{
@@ -537,7 +537,7 @@ PN_LOCAL = @{
 
 PN_LOCAL_TAIL = {
     PN_LOCAL_CHARS
-  | &("." ~ PN_LOCAL_CHARS) ~ "."
+  | &("."+ ~ PN_LOCAL_CHARS) ~ "."
 }
 
 PN_LOCAL_CHARS = {
-- 
2.43.0


From 9daaa329963ab622342bf90459bd036ae11436bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 41/58] fix: IRIREF admits '<', which the grammar of N-Triples
 and Turtle does not

---
 rdftk_io/src/common/common.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/common.pest b/rdftk_io/src/common/common.pest
index 4db4cd2..ca4d990 100644
--- a/rdftk_io/src/common/common.pest
+++ b/rdftk_io/src/common/common.pest
@@ -319,7 +319,7 @@ IRIREF_INNER = @{
 
 IRIREF_CHAR = {
     /* #x00=NULL #01-#x1F=control codes #x20=space */
-    !(">" | '\u{0000}'..'\u{0020}' | "\"" | "{" | "}" | "|" | "^" | "`" | "\\") ~ ANY
+    !("<" | ">" | '\u{0000}'..'\u{0020}' | "\"" | "{" | "}" | "|" | "^" | "`" | "\\") ~ ANY
   | UCHAR
 }
 
-- 
2.43.0


From 52d92728d8d7832ea5685a13ee44cbd35594e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 42/58] fix: striped XML leaves out blank nodes that are no
 object, duplicates shared ones and never ends for cycles

---
 rdftk_io/src/common/mod.rs     |  3 ++
 rdftk_io/src/common/nesting.rs | 60 ++++++++++++++++++++++++++++++++++
 rdftk_io/src/turtle/writer.rs  | 54 ++++--------------------------
 rdftk_io/src/xml/writer.rs     | 28 +++++++++-------
 4 files changed, 85 insertions(+), 60 deletions(-)
 create mode 100644 rdftk_io/src/common/nesting.rs

diff --git a/rdftk_io/src/common/mod.rs b/rdftk_io/src/common/mod.rs
index 5fa3aad..ec40226 100644
--- a/rdftk_io/src/common/mod.rs
+++ b/rdftk_io/src/common/mod.rs
@@ -9,6 +9,9 @@ Internal, common, code for reader and writer implementations.
 #[cfg(feature = "nt")]
 pub(crate) mod indenter;
 
+#[cfg(any(feature = "turtle", feature = "xml"))]
+pub(crate) mod nesting;
+
 #[cfg(any(
     feature = "n3",
     feature = "nq",
diff --git a/rdftk_io/src/common/nesting.rs b/rdftk_io/src/common/nesting.rs
new file mode 100644
index 0000000..3ae1fcf
--- /dev/null
+++ b/rdftk_io/src/common/nesting.rs
@@ -0,0 +1,60 @@
+/*!
+Blank nodes that may be written where they are referred to, and so without a label.
+*/
+
+use rdftk_core::model::graph::Graph;
+use rdftk_core::model::statement::{BlankNode, ObjectNode, SubjectNode};
+use std::collections::{HashMap, HashSet};
+
+// ------------------------------------------------------------------------------------------------
+// Crate Functions
+// ------------------------------------------------------------------------------------------------
+
+///
+/// Return the blank nodes that have exactly one parent, and no cycle among their ancestors; any
+/// other blank node has to be written with its label to remain the same node.
+///
+pub(crate) fn nestable_blank_nodes(graph: &Graph) -> HashSet<SubjectNode> {
+    let mut parents: HashMap<SubjectNode, Vec<&SubjectNode>> = HashMap::default();
+    for statement in graph.statements() {
+        let mut blanks = Vec::default();
+        blank_nodes_in(statement.object(), &mut blanks);
+        for blank in blanks {
+            parents
+                .entry(blank.clone().into())
+                .or_default()
+                .push(statement.subject());
+        }
+    }
+    let only_parent = |node: &SubjectNode| match parents.get(node).map(Vec::as_slice) {
+        Some([parent]) => Some(*parent),
+        _ => None,
+    };
+    parents
+        .keys()
+        .filter(|node| {
+            let mut ancestor = only_parent(node);
+            let mut steps = 0;
+            while let Some(parent) = ancestor.filter(|_| steps <= parents.len()) {
+                ancestor = only_parent(parent);
+                steps += 1;
+            }
+            (1..=parents.len()).contains(&steps)
+        })
+        .cloned()
+        .collect()
+}
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+fn blank_nodes_in<'a>(object: &'a ObjectNode, blanks: &mut Vec<&'a BlankNode>) {
+    match object {
+        ObjectNode::Blank(blank) => blanks.push(blank),
+        ObjectNode::Collection(collection) => {
+            collection.iter().for_each(|o| blank_nodes_in(o, blanks))
+        }
+        _ => {}
+    }
+}
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 22ebd94..d8c7af8 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -1,4 +1,7 @@
-use crate::{common::indenter::Indenter, GraphWriter};
+use crate::{
+    common::{indenter::Indenter, nesting::nestable_blank_nodes},
+    GraphWriter,
+};
 use itertools::Itertools;
 use objio::{impl_has_options, HasOptions, ObjectWriter};
 use rdftk_core::{
@@ -6,14 +9,14 @@ use rdftk_core::{
     model::{
         graph::Graph,
         literal::{DataType, Literal},
-        statement::{BlankNode, Collection, ObjectNode, SubjectNode},
+        statement::{Collection, ObjectNode, SubjectNode},
     },
 };
 use rdftk_iri::Iri;
 use rdftk_names::{dc::elements, foaf, owl, rdf, rdfs, skos};
 use std::{
     cell::RefCell,
-    collections::{BTreeMap, HashMap, HashSet},
+    collections::{BTreeMap, HashSet},
     io::Write,
     str::FromStr,
     sync::LazyLock,
@@ -963,51 +966,6 @@ fn contains_statement(object: &ObjectNode) -> bool {
     }
 }
 
-fn blank_nodes_in<'a>(object: &'a ObjectNode, blanks: &mut Vec<&'a BlankNode>) {
-    match object {
-        ObjectNode::Blank(blank) => blanks.push(blank),
-        ObjectNode::Collection(collection) => {
-            collection.iter().for_each(|o| blank_nodes_in(o, blanks))
-        }
-        _ => {}
-    }
-}
-
-///
-/// Return the blank nodes that have exactly one parent, and no cycle among their ancestors; any
-/// other blank node has to be written with its label to remain the same node.
-///
-fn nestable_blank_nodes(graph: &Graph) -> HashSet<SubjectNode> {
-    let mut parents: HashMap<SubjectNode, Vec<&SubjectNode>> = HashMap::default();
-    for statement in graph.statements() {
-        let mut blanks = Vec::default();
-        blank_nodes_in(statement.object(), &mut blanks);
-        for blank in blanks {
-            parents
-                .entry(blank.clone().into())
-                .or_default()
-                .push(statement.subject());
-        }
-    }
-    let only_parent = |node: &SubjectNode| match parents.get(node).map(Vec::as_slice) {
-        Some([parent]) => Some(*parent),
-        _ => None,
-    };
-    parents
-        .keys()
-        .filter(|node| {
-            let mut ancestor = only_parent(node);
-            let mut steps = 0;
-            while let Some(parent) = ancestor.filter(|_| steps <= parents.len()) {
-                ancestor = only_parent(parent);
-                steps += 1;
-            }
-            (1..=parents.len()).contains(&steps)
-        })
-        .cloned()
-        .collect()
-}
-
 // ------------------------------------------------------------------------------------------------
 // Implementations > Ordering
 // ------------------------------------------------------------------------------------------------
diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 25c3f2a..1e95c75 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -2,6 +2,7 @@ use super::syntax::{
     ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_NODE_ID, ATTRIBUTE_RESOURCE, DEFAULT_ENCODING,
     ELEMENT_DESCRIPTION, ELEMENT_RDF,
 };
+use crate::common::nesting::nestable_blank_nodes;
 use crate::xml::syntax::ATTRIBUTE_XML_LANG_PREFIXED;
 use crate::GraphWriter;
 use objio::HasOptions;
@@ -11,7 +12,7 @@ use rdftk_core::model::graph::Graph;
 use rdftk_core::model::statement::SubjectNode;
 use rdftk_iri::Iri;
 use rdftk_names::{dc, foaf, geo, owl, rdf, rdfs, xsd};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Write;
 use xml::common::XmlVersion;
 use xml::writer::{EventWriter, XmlEvent};
@@ -28,7 +29,8 @@ use xml::EmitterConfig;
 pub enum XmlStyle {
     /// Flatten the graph so all subjects are at the same level in the document.
     Flat,
-    /// Nest blank nodes so that the document only has Iri subjects at the same level.
+    /// Nest blank nodes so that the document only has Iri subjects, and those blank nodes that
+    /// cannot be nested in only one other subject, at the same level.
     Striped,
 }
 
@@ -173,13 +175,14 @@ impl ObjectWriter<Graph> for XmlWriter {
 
         let graph = graph.simplify()?;
 
-        if self.options.style == XmlStyle::Flat {
-            for subject in graph.subjects() {
-                self.write_subject(&mut writer, &graph, subject, true)?;
-            }
+        let nestable = if self.options.style == XmlStyle::Flat {
+            Default::default()
         } else {
-            for subject in graph.subjects().iter().filter(|s| s.is_resource()) {
-                self.write_subject(&mut writer, &graph, subject, false)?;
+            nestable_blank_nodes(&graph)
+        };
+        for subject in graph.subjects() {
+            if !nestable.contains(subject) {
+                self.write_subject(&mut writer, &graph, subject, &nestable)?;
             }
         }
 
@@ -236,10 +239,10 @@ impl XmlWriter {
         writer: &mut EventWriter<W>,
         graph: &Graph,
         subject: &SubjectNode,
-        flat: bool,
+        nestable: &HashSet<SubjectNode>,
     ) -> Result<(), Error> {
         if let Some(blank) = subject.as_blank() {
-            if flat {
+            if !nestable.contains(subject) {
                 writer
                     .write(
                         XmlEvent::start_element(RDF_DESCRIPTION.as_str())
@@ -280,12 +283,13 @@ impl XmlWriter {
                     element = element.attr(RDF_RESOURCE.as_str(), iri.as_ref());
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
-                    if flat {
+                    let blank_subject = SubjectNode::from(blank.clone());
+                    if !nestable.contains(&blank_subject) {
                         element = element.attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref());
                         writer.write(element).map_err(xml_error)?;
                     } else {
                         writer.write(element).map_err(xml_error)?;
-                        self.write_subject(writer, graph, &blank.clone().into(), flat)?;
+                        self.write_subject(writer, graph, &blank_subject, nestable)?;
                     }
                 } else if let Some(literal) = object.as_literal() {
                     let language = literal
-- 
2.43.0


From 3359fad9a40e3a14e7a2ea9a4d24658b9f80d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 43/58] fix: XML writer loses carriage returns and writes
 control characters that XML does not allow

---
 rdftk_io/src/xml/writer.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 1e95c75..6bb4f39 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -7,7 +7,9 @@ use crate::xml::syntax::ATTRIBUTE_XML_LANG_PREFIXED;
 use crate::GraphWriter;
 use objio::HasOptions;
 use objio::{impl_has_options, ObjectWriter};
-use rdftk_core::error::{invalid_qname_error, rdf_star_not_supported_error, Error};
+use rdftk_core::error::{
+    invalid_from_str_error, invalid_qname_error, rdf_star_not_supported_error, Error,
+};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::statement::SubjectNode;
 use rdftk_iri::Iri;
@@ -307,9 +309,7 @@ impl XmlWriter {
                     } else {
                         writer.write(element).map_err(xml_error)?;
                     }
-                    writer
-                        .write(XmlEvent::Characters(&literal.unescaped_form()))
-                        .map_err(xml_error)?;
+                    write_text(writer, &literal.unescaped_form())?;
                 } else {
                     return rdf_star_not_supported_error(super::NAME).into();
                 }
@@ -339,6 +339,31 @@ fn xml_error(e: xml::writer::Error) -> Error {
     }
 }
 
+///
+/// Write text such that it is read as the same text: line ends other than a newline, which are
+/// normalized, and control characters can only be written as references; those characters that are
+/// not part of XML cannot be written at all.
+///
+fn write_text<W: Write>(writer: &mut EventWriter<W>, text: &str) -> Result<(), Error> {
+    if text.contains(['\0', '\u{FFFE}', '\u{FFFF}']) {
+        return Err(invalid_from_str_error(text, "XML text"));
+    }
+    for part in text.split_inclusive(is_reference_only) {
+        let characters = part.strip_suffix(is_reference_only).unwrap_or(part);
+        writer
+            .write(XmlEvent::Characters(characters))
+            .map_err(xml_error)?;
+        if let Some(c) = part[characters.len()..].chars().next() {
+            write!(writer.inner_mut(), "&#x{:X};", c as u32)?;
+        }
+    }
+    Ok(())
+}
+
+fn is_reference_only(c: char) -> bool {
+    c == '\u{2028}' || (c.is_control() && c != '\t' && c != '\n')
+}
+
 ///
 /// Split a predicate into a namespace and the longest local name that is valid as the name of an
 /// element; the namespace ends in the last character that cannot be part of such a name.
-- 
2.43.0


From 8181c212deb306d257fd08d0d69206eb494ca90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 44/58] fix: N-Triples writer writes the short forms of Turtle
 unless told not to

---
 rdftk_io/src/nt/writer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/nt/writer.rs b/rdftk_io/src/nt/writer.rs
index b3e8093..851413a 100644
--- a/rdftk_io/src/nt/writer.rs
+++ b/rdftk_io/src/nt/writer.rs
@@ -8,7 +8,7 @@ use std::io::Write;
 // Public Types
 // ------------------------------------------------------------------------------------------------
 
-#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash)]
+#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
 pub struct NTripleWriterOptions {
     force_string_literals: bool,
 }
@@ -63,6 +63,15 @@ impl HasOptions<NTripleWriterOptions> for NTripleWriter {
 
 // ------------------------------------------------------------------------------------------------
 
+impl Default for NTripleWriterOptions {
+    fn default() -> Self {
+        // N-Triples has only quoted literals, the short forms are those of Turtle.
+        Self {
+            force_string_literals: true,
+        }
+    }
+}
+
 impl NTripleWriterOptions {
     pub fn force_string_literals(self, flag: bool) -> Self {
         let mut self_mut = self;
-- 
2.43.0


From 72e2339adef0543dd7cd6a4f6c93409a8fd81e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 45/58] fix: converting a data set on the command line panics

---
 rdftk_cli/src/commands/representations.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rdftk_cli/src/commands/representations.rs b/rdftk_cli/src/commands/representations.rs
index 171e17e..0f40c89 100644
--- a/rdftk_cli/src/commands/representations.rs
+++ b/rdftk_cli/src/commands/representations.rs
@@ -51,9 +51,18 @@ pub(crate) struct ConvertCmd {
 
 impl Command for ConvertCmd {
     fn execute(mut self) -> Result<ExitCode, Error> {
-        let graph = super::read_graph(&mut self.input, self.from)?;
-        super::write_graph(&graph, &mut self.output, self.to)?;
-        Ok(ExitCode::SUCCESS)
+        if !self.from.is_dataset_representation() {
+            let graph = super::read_graph(&mut self.input, self.from)?;
+            super::write_graph(&graph, &mut self.output, self.to)?;
+            Ok(ExitCode::SUCCESS)
+        } else if self.to.is_dataset_representation() {
+            let dataset = super::read_dataset(&mut self.input, self.from)?;
+            super::write_dataset(&dataset, &mut self.output, self.to)?;
+            Ok(ExitCode::SUCCESS)
+        } else {
+            eprintln!("Currently unable to convert datasets to graph representations.");
+            Ok(ExitCode::FAILURE)
+        }
     }
 }
 
-- 
2.43.0


From 3d7122b557fee19309ec711d0cf913da18e48884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 46/58] fix: the command line reports success for output that
 is still buffered

---
 rdftk_cli/src/commands/draw.rs            | 2 ++
 rdftk_cli/src/commands/representations.rs | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/rdftk_cli/src/commands/draw.rs b/rdftk_cli/src/commands/draw.rs
index b67e130..9fb4fcb 100644
--- a/rdftk_cli/src/commands/draw.rs
+++ b/rdftk_cli/src/commands/draw.rs
@@ -3,6 +3,7 @@ use clap::Args;
 use objio::{ObjectWriter};
 use rdftk_core::{error::Error};
 use rdftk_io::{dot};
+use std::io::Write;
 use std::process::ExitCode;
 
 // ------------------------------------------------------------------------------------------------
@@ -55,6 +56,7 @@ impl Command for DrawCmd {
             let graph = super::read_graph(&mut self.input, self.from)?;
             let writer = dot::DotWriter::default();
             writer.write(&mut self.output, &graph)?;
+            self.output.flush()?;
             Ok(ExitCode::SUCCESS)
         }
     }
diff --git a/rdftk_cli/src/commands/representations.rs b/rdftk_cli/src/commands/representations.rs
index 0f40c89..7c27495 100644
--- a/rdftk_cli/src/commands/representations.rs
+++ b/rdftk_cli/src/commands/representations.rs
@@ -1,6 +1,7 @@
 use super::{Command, Representation};
 use clap::Args;
 use rdftk_core::error::Error;
+use std::io::Write;
 use std::process::ExitCode;
 
 // ------------------------------------------------------------------------------------------------
@@ -54,10 +55,12 @@ impl Command for ConvertCmd {
         if !self.from.is_dataset_representation() {
             let graph = super::read_graph(&mut self.input, self.from)?;
             super::write_graph(&graph, &mut self.output, self.to)?;
+            self.output.flush()?;
             Ok(ExitCode::SUCCESS)
         } else if self.to.is_dataset_representation() {
             let dataset = super::read_dataset(&mut self.input, self.from)?;
             super::write_dataset(&dataset, &mut self.output, self.to)?;
+            self.output.flush()?;
             Ok(ExitCode::SUCCESS)
         } else {
             eprintln!("Currently unable to convert datasets to graph representations.");
-- 
2.43.0


From bfbd3618773c23e35fa9d95bcd562b45a4572de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 47/58] fix: XML reader ignores the data types of literals

---
 rdftk_io/src/xml/reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 3f76300..25ff7d9 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -1,6 +1,6 @@
 use crate::xml::syntax::{
-    ATTRIBUTE_ABOUT, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE, ATTRIBUTE_RESOURCE,
-    ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_RDF,
+    ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE,
+    ATTRIBUTE_RESOURCE, ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_RDF,
     PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
 use objio::ObjectReader;
@@ -514,6 +514,8 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
                     Some(SubjectType::RelativeResource(attribute.value.to_string()));
             } else if attribute.name.local_name == ATTRIBUTE_RESOURCE {
                 response.resource = Some(value_to_iri(&attribute.value)?);
+            } else if attribute.name.local_name == ATTRIBUTE_DATATYPE {
+                response.data_type = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_PARSE_TYPE {
                 if attribute.value == PARSE_TYPE_LITERAL {
                     response.parse_type = Some(ParseType::XmlLiteral);
-- 
2.43.0


From f7a6984ada1de354fb15fcf3bd75e5e4a306fe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 48/58] fix: XML reader ends a description at its first
 rdf:resource and ignores rdf:nodeID of properties

---
 rdftk_io/src/xml/reader.rs | 46 +++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 25ff7d9..ae2cb09 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -284,7 +284,6 @@ fn parse_predicate_element<R: Read>(
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
-    let mut no_child_elements = false;
     loop {
         let event = event_reader.next();
         match &event {
@@ -294,19 +293,29 @@ fn parse_predicate_element<R: Read>(
                 attributes,
             }) => {
                 trace_event!("parse_predicate_element" => event);
-                if no_child_elements {
-                    error_event!(state => "parse_predicate_element", "child elements not allowed here");
-                }
                 let attributes = parse_attributes(attributes)?;
-                if let Some(resource) = attributes.resource {
+                let resource: Option<SubjectNode> = match (
+                    &attributes.resource,
+                    &attributes.subject_type,
+                ) {
+                    (Some(resource), None) => Some(resource.clone().into()),
+                    (None, Some(SubjectType::BlankNamed(label))) => {
+                        Some(BlankNode::from_str(label)?.into())
+                    }
+                    (None, None) => None,
+                    _ => {
+                        error_event!(state => "parse_predicate_element", "more than one object");
+                    }
+                };
+                if let Some(resource) = resource {
                     // SPEC: §2.4 Empty Property Elements
                     graph.insert(Statement::new(
                         subject.clone(),
                         name_to_iri(name)?,
-                        resource,
+                        resource.to_object(),
                     ));
-                    // set outer loop value
-                    no_child_elements = true;
+                    parse_predicate_attributes(&attributes.inner, &resource, graph)?;
+                    parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
                         None => {
@@ -376,6 +385,27 @@ fn parse_predicate_element<R: Read>(
     }
 }
 
+fn parse_empty_element<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<(), Error> {
+    loop {
+        let event = event_reader.next();
+        match &event {
+            Ok(XmlEvent::EndElement { .. }) => {
+                trace_event!("parse_empty_element" => event);
+                return Ok(());
+            }
+            Ok(XmlEvent::StartElement { .. } | XmlEvent::CData(_) | XmlEvent::Characters(_)) => {
+                error_event!(state => "parse_empty_element", "content not allowed here");
+            }
+            Ok(_) => {
+                trace_event!("parse_empty_element" => ignore event);
+            }
+            Err(e) => {
+                error_event!(parse => "parse_empty_element", e);
+            }
+        }
+    }
+}
+
 fn parse_object_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     xml_base: &Option<Iri>,
-- 
2.43.0


From 01e1bdc533317b6237d5ddcca0cd8cb5634090dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 49/58] fix: XML reader does not connect nested nodes with the
 statements that they are objects of

---
 rdftk_io/src/xml/reader.rs | 204 +++++++++++++++++++++----------------
 1 file changed, 118 insertions(+), 86 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index ae2cb09..e41f4e4 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -52,6 +52,12 @@ enum ParseType {
     Collection,
 }
 
+#[derive(Clone, Debug)]
+enum Content {
+    Node(SubjectNode),
+    Text(String),
+}
+
 #[derive(Clone, Debug)]
 struct Attributes<'a> {
     subject_type: Option<SubjectType>,
@@ -149,12 +155,7 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
                 trace_event!("parse_document" => event);
                 let attributes = parse_attributes(attributes)?;
                 if rdf_element.matches(name) {
-                    let _ = parse_subject_element(
-                        event_reader,
-                        &attributes.uri_base,
-                        None,
-                        &mut graph,
-                    )?;
+                    let _ = parse_subject_element(event_reader, &attributes.uri_base, &mut graph)?;
                 } else {
                     error_event!(state => "parse_document", "expecting rdf:RDF");
                 }
@@ -172,11 +173,9 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
 fn parse_subject_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     xml_base: &Option<Iri>,
-    _subject: Option<&SubjectNode>,
     graph: &mut Graph,
-) -> Result<Option<SubjectNode>, Error> {
-    let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
-    let mut subject: Option<SubjectNode> = None;
+) -> Result<Vec<SubjectNode>, Error> {
+    let mut subjects: Vec<SubjectNode> = Default::default();
     loop {
         let event = event_reader.next();
         match &event {
@@ -187,46 +186,13 @@ fn parse_subject_element<R: Read>(
             }) => {
                 trace_event!("parse_subject_element" => event);
                 let attributes = parse_attributes(attributes)?;
-                let subject_node: SubjectNode = match &attributes.subject_type {
-                    None => {
-                        // SPEC: §2.1 Introduction
-                        BlankNode::generate().into()
-                    }
-                    Some(SubjectType::Resource(subject)) => {
-                        // SPEC: §2.2 Node Elements and Property Elements
-                        subject.clone().into()
-                    }
-                    Some(SubjectType::RelativeResource(subject)) => {
-                        // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-                        let uri = format!("{}{}", xml_base.as_ref().unwrap(), subject);
-                        value_to_iri(&uri)?.into()
-                    }
-                    Some(SubjectType::BlankNamed(subject)) => {
-                        // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
-                        BlankNode::from_str(subject)?.into()
-                    }
-                };
-                if !description_element.matches(name) {
-                    // SPEC: §2.13 Typed Node Elements
-                    graph.insert(Statement::new(
-                        subject_node.clone(),
-                        rdf::a_type().clone(),
-                        name_to_iri(name)?,
-                    ));
-                }
-                parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
-                parse_predicate_element(
+                subjects.push(parse_node_element(
                     event_reader,
-                    if attributes.uri_base.is_some() {
-                        &attributes.uri_base
-                    } else {
-                        xml_base
-                    },
-                    &subject_node,
+                    name,
+                    &attributes,
+                    xml_base,
                     graph,
-                )?;
-                // set outer loop value
-                subject = Some(subject_node);
+                )?);
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_subject_element" => event);
@@ -240,7 +206,56 @@ fn parse_subject_element<R: Read>(
             }
         }
     }
-    Ok(subject)
+    Ok(subjects)
+}
+
+fn parse_node_element<R: Read>(
+    event_reader: &mut EventReader<&mut R>,
+    name: &OwnedName,
+    attributes: &Attributes<'_>,
+    xml_base: &Option<Iri>,
+    graph: &mut Graph,
+) -> Result<SubjectNode, Error> {
+    let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
+    let subject_node: SubjectNode = match &attributes.subject_type {
+        None => {
+            // SPEC: §2.1 Introduction
+            BlankNode::generate().into()
+        }
+        Some(SubjectType::Resource(subject)) => {
+            // SPEC: §2.2 Node Elements and Property Elements
+            subject.clone().into()
+        }
+        Some(SubjectType::RelativeResource(subject)) => {
+            // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
+            let uri = format!("{}{}", xml_base.as_ref().unwrap(), subject);
+            value_to_iri(&uri)?.into()
+        }
+        Some(SubjectType::BlankNamed(subject)) => {
+            // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
+            BlankNode::from_str(subject)?.into()
+        }
+    };
+    if !description_element.matches(name) {
+        // SPEC: §2.13 Typed Node Elements
+        graph.insert(Statement::new(
+            subject_node.clone(),
+            rdf::a_type().clone(),
+            name_to_iri(name)?,
+        ));
+    }
+    parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
+    parse_predicate_element(
+        event_reader,
+        if attributes.uri_base.is_some() {
+            &attributes.uri_base
+        } else {
+            xml_base
+        },
+        &subject_node,
+        graph,
+    )?;
+    Ok(subject_node)
 }
 
 #[inline]
@@ -319,23 +334,36 @@ fn parse_predicate_element<R: Read>(
                 } else {
                     match attributes.parse_type {
                         None => {
-                            if let Some(content) =
-                                parse_object_element(event_reader, xml_base, graph)?
-                            {
-                                let literal = if let Some(data_type) = attributes.data_type {
-                                    // SPEC: §2.9 Typed Literals: rdf:datatype
-                                    Literal::with_data_type(&content, DataType::from(data_type))
-                                } else if let Some(language) = attributes.language {
-                                    // SPEC: §2.7 Languages: xml:lang
-                                    Literal::with_language(&content, language)
-                                } else {
-                                    Literal::plain(&content)
-                                };
-                                graph.insert(Statement::new(
-                                    subject.clone(),
-                                    name_to_iri(name)?,
-                                    literal,
-                                ));
+                            let xml_base = if attributes.uri_base.is_some() {
+                                &attributes.uri_base
+                            } else {
+                                xml_base
+                            };
+                            match parse_object_element(event_reader, xml_base, graph)? {
+                                Content::Node(node) => {
+                                    // SPEC: §2.2 Node Elements and Property Elements
+                                    graph.insert(Statement::new(
+                                        subject.clone(),
+                                        name_to_iri(name)?,
+                                        node.to_object(),
+                                    ));
+                                }
+                                Content::Text(content) => {
+                                    let literal = if let Some(data_type) = attributes.data_type {
+                                        // SPEC: §2.9 Typed Literals: rdf:datatype
+                                        Literal::with_data_type(&content, DataType::from(data_type))
+                                    } else if let Some(language) = attributes.language {
+                                        // SPEC: §2.7 Languages: xml:lang
+                                        Literal::with_language(&content, language)
+                                    } else {
+                                        Literal::plain(&content)
+                                    };
+                                    graph.insert(Statement::new(
+                                        subject.clone(),
+                                        name_to_iri(name)?,
+                                        literal,
+                                    ));
+                                }
                             }
                         }
                         Some(ParseType::XmlLiteral) => {
@@ -351,16 +379,20 @@ fn parse_predicate_element<R: Read>(
                         }
                         Some(ParseType::Resource) => {
                             // SPEC: §2.11 Omitting Blank Nodes: rdf:parseType="Resource"
-                            let subject_node = BlankNode::generate().into();
-                            //parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
-                            let _subject = parse_subject_element(
+                            let subject_node: SubjectNode = BlankNode::generate().into();
+                            graph.insert(Statement::new(
+                                subject.clone(),
+                                name_to_iri(name)?,
+                                subject_node.to_object(),
+                            ));
+                            parse_predicate_element(
                                 event_reader,
                                 if attributes.uri_base.is_some() {
                                     &attributes.uri_base
                                 } else {
                                     xml_base
                                 },
-                                Some(&subject_node),
+                                &subject_node,
                                 graph,
                             )?;
                         }
@@ -410,9 +442,9 @@ fn parse_object_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     xml_base: &Option<Iri>,
     graph: &mut Graph,
-) -> Result<Option<String>, Error> {
+) -> Result<Content, Error> {
     let mut content = String::new();
-    let mut has_elements = false;
+    let mut node: Option<SubjectNode> = None;
     let mut has_characters = false;
     loop {
         let event = event_reader.next();
@@ -426,28 +458,28 @@ fn parse_object_element<R: Read>(
                 if has_characters {
                     error_event!(state => "parse_object_element", &format!("found XML content, parseType != Literal ({:?})", name));
                 }
-                // set outer loop value
-                has_elements = true;
+                if node.is_some() {
+                    error_event!(state => "parse_object_element", "found more than one element");
+                }
                 let attributes = parse_attributes(attributes)?;
-                let subject_node = BlankNode::generate().into();
-                let _subject = parse_subject_element(
+                node = Some(parse_node_element(
                     event_reader,
-                    if attributes.uri_base.is_some() {
-                        &attributes.uri_base
-                    } else {
-                        xml_base
-                    },
-                    Some(&subject_node),
+                    name,
+                    &attributes,
+                    xml_base,
                     graph,
-                )?;
+                )?);
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_content_element" => event);
-                return Ok(Some(content));
+                return Ok(match node {
+                    Some(node) => Content::Node(node),
+                    None => Content::Text(content),
+                });
             }
             Ok(XmlEvent::CData(value)) => {
                 trace_event!("parse_content_element" => event);
-                if has_elements {
+                if node.is_some() {
                     error_event!(state => "parse_object_element", format!("found character content after element(s)"));
                 }
                 // set outer loop value
@@ -456,7 +488,7 @@ fn parse_object_element<R: Read>(
             }
             Ok(XmlEvent::Characters(value)) => {
                 trace_event!("parse_content_element" => event);
-                if has_elements {
+                if node.is_some() {
                     error_event!(state => "parse_object_element", "found character content after element(s)");
                 }
                 // set outer loop value
-- 
2.43.0


From 3dd7efb084f0640409bb9042461765ab7961e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 50/58] fix: XML reader does not inherit xml:lang, and does not
 apply it to property attributes

---
 rdftk_io/src/xml/reader.rs | 109 ++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 61 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index e41f4e4..cb13117 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -58,13 +58,18 @@ enum Content {
     Text(String),
 }
 
+#[derive(Clone, Debug, Default)]
+struct Scope {
+    uri_base: Option<Iri>,
+    language: Option<LanguageTag>,
+}
+
 #[derive(Clone, Debug)]
 struct Attributes<'a> {
     subject_type: Option<SubjectType>,
     parse_type: Option<ParseType>,
-    uri_base: Option<Iri>,
+    scope: Scope,
     data_type: Option<Iri>,
-    language: Option<LanguageTag>,
     resource: Option<Iri>,
     inner: Vec<&'a OwnedAttribute>,
 }
@@ -153,9 +158,9 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
                 attributes,
             }) => {
                 trace_event!("parse_document" => event);
-                let attributes = parse_attributes(attributes)?;
+                let attributes = parse_attributes(attributes, &Scope::default())?;
                 if rdf_element.matches(name) {
-                    let _ = parse_subject_element(event_reader, &attributes.uri_base, &mut graph)?;
+                    let _ = parse_subject_element(event_reader, &attributes.scope, &mut graph)?;
                 } else {
                     error_event!(state => "parse_document", "expecting rdf:RDF");
                 }
@@ -172,7 +177,7 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
 
 fn parse_subject_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     graph: &mut Graph,
 ) -> Result<Vec<SubjectNode>, Error> {
     let mut subjects: Vec<SubjectNode> = Default::default();
@@ -185,14 +190,8 @@ fn parse_subject_element<R: Read>(
                 attributes,
             }) => {
                 trace_event!("parse_subject_element" => event);
-                let attributes = parse_attributes(attributes)?;
-                subjects.push(parse_node_element(
-                    event_reader,
-                    name,
-                    &attributes,
-                    xml_base,
-                    graph,
-                )?);
+                let attributes = parse_attributes(attributes, scope)?;
+                subjects.push(parse_node_element(event_reader, name, &attributes, graph)?);
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_subject_element" => event);
@@ -213,7 +212,6 @@ fn parse_node_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     name: &OwnedName,
     attributes: &Attributes<'_>,
-    xml_base: &Option<Iri>,
     graph: &mut Graph,
 ) -> Result<SubjectNode, Error> {
     let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
@@ -228,7 +226,7 @@ fn parse_node_element<R: Read>(
         }
         Some(SubjectType::RelativeResource(subject)) => {
             // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-            let uri = format!("{}{}", xml_base.as_ref().unwrap(), subject);
+            let uri = format!("{}{}", attributes.scope.uri_base.as_ref().unwrap(), subject);
             value_to_iri(&uri)?.into()
         }
         Some(SubjectType::BlankNamed(subject)) => {
@@ -244,17 +242,8 @@ fn parse_node_element<R: Read>(
             name_to_iri(name)?,
         ));
     }
-    parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
-    parse_predicate_element(
-        event_reader,
-        if attributes.uri_base.is_some() {
-            &attributes.uri_base
-        } else {
-            xml_base
-        },
-        &subject_node,
-        graph,
-    )?;
+    parse_predicate_attributes(attributes, &subject_node, graph)?;
+    parse_predicate_element(event_reader, &attributes.scope, &subject_node, graph)?;
     Ok(subject_node)
 }
 
@@ -272,14 +261,23 @@ fn value_to_iri(name: &str) -> Result<Iri, Error> {
     Ok(Iri::from_str(name)?)
 }
 
+#[inline]
+fn plain_literal(value: &str, scope: &Scope) -> Literal {
+    match &scope.language {
+        // SPEC: §2.7 Languages: xml:lang
+        Some(language) => Literal::with_language(value, language.clone()),
+        None => Literal::plain(value),
+    }
+}
+
 fn parse_predicate_attributes(
-    attributes: &[&OwnedAttribute],
+    attributes: &Attributes<'_>,
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
     // SPEC: §2.5 Property Attributes
     // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
-    for attribute in attributes {
+    for attribute in &attributes.inner {
         trace!(
             "XmlReader::parse_predicate_attributes attribute: {:?}",
             attribute
@@ -287,7 +285,7 @@ fn parse_predicate_attributes(
         graph.insert(Statement::new(
             subject.clone(),
             name_to_iri(&attribute.name)?,
-            Literal::plain(&attribute.value),
+            plain_literal(&attribute.value, &attributes.scope),
         ));
     }
     Ok(())
@@ -295,7 +293,7 @@ fn parse_predicate_attributes(
 
 fn parse_predicate_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
@@ -308,7 +306,7 @@ fn parse_predicate_element<R: Read>(
                 attributes,
             }) => {
                 trace_event!("parse_predicate_element" => event);
-                let attributes = parse_attributes(attributes)?;
+                let attributes = parse_attributes(attributes, scope)?;
                 let resource: Option<SubjectNode> = match (
                     &attributes.resource,
                     &attributes.subject_type,
@@ -329,17 +327,12 @@ fn parse_predicate_element<R: Read>(
                         name_to_iri(name)?,
                         resource.to_object(),
                     ));
-                    parse_predicate_attributes(&attributes.inner, &resource, graph)?;
+                    parse_predicate_attributes(&attributes, &resource, graph)?;
                     parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
                         None => {
-                            let xml_base = if attributes.uri_base.is_some() {
-                                &attributes.uri_base
-                            } else {
-                                xml_base
-                            };
-                            match parse_object_element(event_reader, xml_base, graph)? {
+                            match parse_object_element(event_reader, &attributes.scope, graph)? {
                                 Content::Node(node) => {
                                     // SPEC: §2.2 Node Elements and Property Elements
                                     graph.insert(Statement::new(
@@ -352,11 +345,8 @@ fn parse_predicate_element<R: Read>(
                                     let literal = if let Some(data_type) = attributes.data_type {
                                         // SPEC: §2.9 Typed Literals: rdf:datatype
                                         Literal::with_data_type(&content, DataType::from(data_type))
-                                    } else if let Some(language) = attributes.language {
-                                        // SPEC: §2.7 Languages: xml:lang
-                                        Literal::with_language(&content, language)
                                     } else {
-                                        Literal::plain(&content)
+                                        plain_literal(&content, &attributes.scope)
                                     };
                                     graph.insert(Statement::new(
                                         subject.clone(),
@@ -387,11 +377,7 @@ fn parse_predicate_element<R: Read>(
                             ));
                             parse_predicate_element(
                                 event_reader,
-                                if attributes.uri_base.is_some() {
-                                    &attributes.uri_base
-                                } else {
-                                    xml_base
-                                },
+                                &attributes.scope,
                                 &subject_node,
                                 graph,
                             )?;
@@ -440,7 +426,7 @@ fn parse_empty_element<R: Read>(event_reader: &mut EventReader<&mut R>) -> Resul
 
 fn parse_object_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     graph: &mut Graph,
 ) -> Result<Content, Error> {
     let mut content = String::new();
@@ -461,14 +447,8 @@ fn parse_object_element<R: Read>(
                 if node.is_some() {
                     error_event!(state => "parse_object_element", "found more than one element");
                 }
-                let attributes = parse_attributes(attributes)?;
-                node = Some(parse_node_element(
-                    event_reader,
-                    name,
-                    &attributes,
-                    xml_base,
-                    graph,
-                )?);
+                let attributes = parse_attributes(attributes, scope)?;
+                node = Some(parse_node_element(event_reader, name, &attributes, graph)?);
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_content_element" => event);
@@ -547,13 +527,15 @@ fn parse_xml_literal_element<R: Read>(
     }
 }
 
-fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Error> {
+fn parse_attributes<'a>(
+    attributes: &'a [OwnedAttribute],
+    outer: &Scope,
+) -> Result<Attributes<'a>, Error> {
     let mut response = Attributes {
         subject_type: None,
         parse_type: None,
-        uri_base: None,
+        scope: outer.clone(),
         data_type: None,
-        language: None,
         resource: None,
         inner: Default::default(),
     };
@@ -561,9 +543,14 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
     for attribute in attributes {
         if attribute.name.namespace == Some(XML_NAMESPACE.to_string()) {
             if attribute.name.local_name == ATTRIBUTE_XML_BASE {
-                response.uri_base = Some(value_to_iri(&attribute.value)?);
+                response.scope.uri_base = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_XML_LANG {
-                response.language = Some(LanguageTag::from_str(&attribute.value)?);
+                // SPEC: §2.7 Languages: xml:lang
+                response.scope.language = if attribute.value.is_empty() {
+                    None
+                } else {
+                    Some(LanguageTag::from_str(&attribute.value)?)
+                };
             }
         } else if attribute.name.namespace == Some(rdf::namespace_str().to_string()) {
             if attribute.name.local_name == ATTRIBUTE_ABOUT {
-- 
2.43.0


From 72fa6db97bc64bfff88240d276d5e2906ee2432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 51/58] fix: XML reader panics on names without a namespace,
 rdf:ID, collections, XML literals and parse types

---
 rdftk_io/src/xml/reader.rs | 57 +++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index cb13117..5f7a9c7 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -1,7 +1,7 @@
 use crate::xml::syntax::{
     ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE,
     ATTRIBUTE_RESOURCE, ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_RDF,
-    PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
+    PARSE_TYPE_COLLECTION, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
 use objio::ObjectReader;
 use rdftk_core::error::{invalid_state_error, Error};
@@ -226,8 +226,12 @@ fn parse_node_element<R: Read>(
         }
         Some(SubjectType::RelativeResource(subject)) => {
             // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-            let uri = format!("{}{}", attributes.scope.uri_base.as_ref().unwrap(), subject);
-            value_to_iri(&uri)?.into()
+            match &attributes.scope.uri_base {
+                Some(base) => base.with_new_fragment(subject).into(),
+                None => {
+                    error_event!(state => "parse_node_element", "rdf:ID without xml:base");
+                }
+            }
         }
         Some(SubjectType::BlankNamed(subject)) => {
             // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
@@ -249,11 +253,12 @@ fn parse_node_element<R: Read>(
 
 #[inline]
 fn name_to_iri(name: &OwnedName) -> Result<Iri, Error> {
-    Ok(Iri::from_str(&format!(
-        "{}{}",
-        name.namespace.as_ref().unwrap(),
-        name.local_name
-    ))?)
+    match &name.namespace {
+        Some(namespace) => Ok(Iri::from_str(&format!("{}{}", namespace, name.local_name))?),
+        None => {
+            error_event!(state => "name_to_iri", "name without a namespace");
+        }
+    }
 }
 
 #[inline]
@@ -384,7 +389,28 @@ fn parse_predicate_element<R: Read>(
                         }
                         Some(ParseType::Collection) => {
                             // SPEC: §2.16 Collections: rdf:parseType="Collection"
-                            todo!()
+                            let items =
+                                parse_subject_element(event_reader, &attributes.scope, graph)?;
+                            let mut list: SubjectNode = rdf::nil().clone().into();
+                            for item in items.iter().rev() {
+                                let cell: SubjectNode = BlankNode::generate().into();
+                                graph.insert(Statement::new(
+                                    cell.clone(),
+                                    rdf::first().clone(),
+                                    item.to_object(),
+                                ));
+                                graph.insert(Statement::new(
+                                    cell.clone(),
+                                    rdf::rest().clone(),
+                                    list.to_object(),
+                                ));
+                                list = cell;
+                            }
+                            graph.insert(Statement::new(
+                                subject.clone(),
+                                name_to_iri(name)?,
+                                list.to_object(),
+                            ));
                         }
                     }
                 }
@@ -506,13 +532,13 @@ fn parse_xml_literal_element<R: Read>(
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_content_element" => event);
+                if opened == 0 {
+                    return Ok(String::from_utf8(content).unwrap());
+                }
                 if let Some(event) = event.unwrap().as_writer_event() {
                     writer.write(event).unwrap()
                 }
                 opened -= 1;
-                if opened == 0 {
-                    return Ok(String::from_utf8(content).unwrap());
-                }
             }
             Ok(event) => {
                 // We only leave trim_whitespace=false so that these events are also written out.
@@ -566,14 +592,13 @@ fn parse_attributes<'a>(
             } else if attribute.name.local_name == ATTRIBUTE_DATATYPE {
                 response.data_type = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_PARSE_TYPE {
-                if attribute.value == PARSE_TYPE_LITERAL {
-                    response.parse_type = Some(ParseType::XmlLiteral);
-                } else if attribute.value == PARSE_TYPE_RESOURCE {
+                if attribute.value == PARSE_TYPE_RESOURCE {
                     response.parse_type = Some(ParseType::Resource);
                 } else if attribute.value == PARSE_TYPE_COLLECTION {
                     response.parse_type = Some(ParseType::Collection);
                 } else {
-                    panic!();
+                    // SPEC: any other value is treated as PARSE_TYPE_LITERAL.
+                    response.parse_type = Some(ParseType::XmlLiteral);
                 }
             }
         } else {
-- 
2.43.0


From 6b0625e76d95b53c5beeb8bb9af7a6521469bcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 52/58] fix: XML reader drops rdf:type attributes, white space
 and stray text, and escapes XML literals

---
 rdftk_io/src/xml/reader.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 5f7a9c7..4f55bc0 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -7,7 +7,7 @@ use objio::ObjectReader;
 use rdftk_core::error::{invalid_state_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
-use rdftk_core::model::statement::{BlankNode, Statement, SubjectNode};
+use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::Iri;
 use rdftk_names::rdf;
 use std::io::Read;
@@ -197,6 +197,9 @@ fn parse_subject_element<R: Read>(
                 trace_event!("parse_subject_element" => event);
                 break;
             }
+            Ok(XmlEvent::CData(_) | XmlEvent::Characters(_)) => {
+                error_event!(state => "parse_subject_element", "character content not allowed here");
+            }
             Ok(_) => {
                 trace_event!("parse_subject_element" => ignore event);
             }
@@ -287,11 +290,13 @@ fn parse_predicate_attributes(
             "XmlReader::parse_predicate_attributes attribute: {:?}",
             attribute
         );
-        graph.insert(Statement::new(
-            subject.clone(),
-            name_to_iri(&attribute.name)?,
-            plain_literal(&attribute.value, &attributes.scope),
-        ));
+        let predicate = name_to_iri(&attribute.name)?;
+        let object: ObjectNode = if &predicate == rdf::a_type() {
+            value_to_iri(&attribute.value)?.into()
+        } else {
+            plain_literal(&attribute.value, &attributes.scope).into()
+        };
+        graph.insert(Statement::new(subject.clone(), predicate, object));
     }
     Ok(())
 }
@@ -363,9 +368,7 @@ fn parse_predicate_element<R: Read>(
                         }
                         Some(ParseType::XmlLiteral) => {
                             // SPEC: §2.8 XML Literals: rdf:parseType="Literal"
-                            let content = parse_xml_literal_element(event_reader)?
-                                .replace('<', "&lt;")
-                                .replace('>', "&gt;");
+                            let content = parse_xml_literal_element(event_reader)?;
                             graph.insert(Statement::new(
                                 subject.clone(),
                                 name_to_iri(name)?,
@@ -419,6 +422,9 @@ fn parse_predicate_element<R: Read>(
                 trace_event!("parse_predicate_element" => event);
                 return Ok(());
             }
+            Ok(XmlEvent::CData(_) | XmlEvent::Characters(_)) => {
+                error_event!(state => "parse_predicate_element", "character content not allowed here");
+            }
             Ok(_) => {
                 trace_event!("parse_predicate_element" => ignore event);
             }
@@ -492,6 +498,11 @@ fn parse_object_element<R: Read>(
                 has_characters = true;
                 content.push_str(value);
             }
+            Ok(XmlEvent::Whitespace(value)) => {
+                trace_event!("parse_content_element" => event);
+                // Content, if there are no elements.
+                content.push_str(value);
+            }
             Ok(XmlEvent::Characters(value)) => {
                 trace_event!("parse_content_element" => event);
                 if node.is_some() {
@@ -600,6 +611,8 @@ fn parse_attributes<'a>(
                     // SPEC: any other value is treated as PARSE_TYPE_LITERAL.
                     response.parse_type = Some(ParseType::XmlLiteral);
                 }
+            } else {
+                response.inner.push(attribute);
             }
         } else {
             response.inner.push(attribute);
-- 
2.43.0


From 4d3cdfc209c5022606bfbe2dd7031f0ac06dcc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 53/58] fix: XML reader takes rdf:li for a predicate and
 property attributes of empty elements for text

---
 rdftk_io/src/xml/reader.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 4f55bc0..5b17053 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -105,6 +105,14 @@ impl ExpectedName {
     }
 }
 
+// ------------------------------------------------------------------------------------------------
+
+impl Attributes<'_> {
+    fn describes_resource(&self) -> bool {
+        !self.inner.is_empty() && self.parse_type.is_none() && self.data_type.is_none()
+    }
+}
+
 // ------------------------------------------------------------------------------------------------
 // Private Functions
 // ------------------------------------------------------------------------------------------------
@@ -307,6 +315,7 @@ fn parse_predicate_element<R: Read>(
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
+    let mut members = 0;
     loop {
         let event = event_reader.next();
         match &event {
@@ -317,6 +326,12 @@ fn parse_predicate_element<R: Read>(
             }) => {
                 trace_event!("parse_predicate_element" => event);
                 let attributes = parse_attributes(attributes, scope)?;
+                let mut predicate = name_to_iri(name)?;
+                if &predicate == rdf::li() {
+                    // SPEC: §2.15 Container Membership Property Elements: rdf:li and rdf:_n
+                    members += 1;
+                    predicate = rdf::member(members);
+                }
                 let resource: Option<SubjectNode> = match (
                     &attributes.resource,
                     &attributes.subject_type,
@@ -325,7 +340,11 @@ fn parse_predicate_element<R: Read>(
                     (None, Some(SubjectType::BlankNamed(label))) => {
                         Some(BlankNode::from_str(label)?.into())
                     }
-                    (None, None) => None,
+                    // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
+                    (None, None) if attributes.describes_resource() => {
+                        Some(BlankNode::generate().into())
+                    }
+                    (None, None | Some(SubjectType::RelativeResource(_))) => None,
                     _ => {
                         error_event!(state => "parse_predicate_element", "more than one object");
                     }
@@ -334,7 +353,7 @@ fn parse_predicate_element<R: Read>(
                     // SPEC: §2.4 Empty Property Elements
                     graph.insert(Statement::new(
                         subject.clone(),
-                        name_to_iri(name)?,
+                        predicate,
                         resource.to_object(),
                     ));
                     parse_predicate_attributes(&attributes, &resource, graph)?;
@@ -347,7 +366,7 @@ fn parse_predicate_element<R: Read>(
                                     // SPEC: §2.2 Node Elements and Property Elements
                                     graph.insert(Statement::new(
                                         subject.clone(),
-                                        name_to_iri(name)?,
+                                        predicate,
                                         node.to_object(),
                                     ));
                                 }
@@ -360,7 +379,7 @@ fn parse_predicate_element<R: Read>(
                                     };
                                     graph.insert(Statement::new(
                                         subject.clone(),
-                                        name_to_iri(name)?,
+                                        predicate,
                                         literal,
                                     ));
                                 }
@@ -371,7 +390,7 @@ fn parse_predicate_element<R: Read>(
                             let content = parse_xml_literal_element(event_reader)?;
                             graph.insert(Statement::new(
                                 subject.clone(),
-                                name_to_iri(name)?,
+                                predicate,
                                 Literal::with_data_type(&content, DataType::XmlLiteral),
                             ));
                         }
@@ -380,7 +399,7 @@ fn parse_predicate_element<R: Read>(
                             let subject_node: SubjectNode = BlankNode::generate().into();
                             graph.insert(Statement::new(
                                 subject.clone(),
-                                name_to_iri(name)?,
+                                predicate,
                                 subject_node.to_object(),
                             ));
                             parse_predicate_element(
@@ -411,7 +430,7 @@ fn parse_predicate_element<R: Read>(
                             }
                             graph.insert(Statement::new(
                                 subject.clone(),
-                                name_to_iri(name)?,
+                                predicate,
                                 list.to_object(),
                             ));
                         }
-- 
2.43.0


From 728a214e791f53d170c0f6dab1188cc4ad9e92cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 54/58] fix: the log of the command line goes into the document
 that it writes

---
 rdftk_cli/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdftk_cli/src/main.rs b/rdftk_cli/src/main.rs
index ce9f35d..3b82de1 100644
--- a/rdftk_cli/src/main.rs
+++ b/rdftk_cli/src/main.rs
@@ -105,7 +105,11 @@ fn init_logging(log_filter: LogFilter) -> Result<(), Error> {
             .parse()
             .map_err(unknown_error)?,
     );
-    let subscriber = FmtSubscriber::builder().with_env_filter(filter).finish();
+    // Standard output may be where a document goes.
+    let subscriber = FmtSubscriber::builder()
+        .with_env_filter(filter)
+        .with_writer(std::io::stderr)
+        .finish();
 
     tracing::subscriber::set_global_default(subscriber).map_err(unknown_error)?;
 
-- 
2.43.0


From 2bff419712611c386e378e7cede6402577d90aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:56 +0000
Subject: [PATCH 55/58] fix: redeclare the default namespace in nested elements
 of RDF/XML

---
 rdftk_io/src/xml/writer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 6bb4f39..095262b 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -278,7 +278,9 @@ impl XmlWriter {
                 let mut element = if let Some(prefix) = prefix {
                     XmlEvent::start_element(name.as_str()).ns(prefix, &ns)
                 } else {
-                    XmlEvent::start_element(name.as_str()).default_ns(&ns)
+                    // An attribute, as `default_ns` leaves the declaration out when any enclosing
+                    // element made it, even where another element has since made a different one.
+                    XmlEvent::start_element(name.as_str()).attr("xmlns", &ns)
                 };
 
                 if let Some(iri) = object.as_resource() {
-- 
2.43.0


From 4fc8f1a04f0a0082b6aa9a4ef4580c1799dad25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 56/58] fix: XML literals keep the namespaces of their elements

---
 rdftk_io/src/xml/reader.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 5b17053..10395e3 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -15,6 +15,7 @@ use std::str::FromStr;
 use tracing::{error, trace};
 use xml::attribute::OwnedAttribute;
 use xml::name::OwnedName;
+use xml::namespace::{Namespace, NS_EMPTY_URI, NS_NO_PREFIX, NS_XMLNS_PREFIX, NS_XML_PREFIX};
 use xml::reader::XmlEvent;
 use xml::{EventReader, EventWriter};
 
@@ -550,18 +551,45 @@ fn parse_xml_literal_element<R: Read>(
     writer_config.normalize_empty_elements = true;
     let mut writer = EventWriter::new_with_config(&mut content, writer_config);
     let mut opened: u32 = 0;
+    // The namespaces in scope for each of the elements that are open.
+    let mut scopes: Vec<Namespace> = vec![Namespace::empty()];
     loop {
         let event = event_reader.next();
         match &event {
-            Ok(XmlEvent::StartElement { .. }) => {
+            Ok(XmlEvent::StartElement {
+                name,
+                attributes,
+                namespace,
+            }) => {
                 trace_event!("parse_content_element" => event);
-                if let Some(event) = event.unwrap().as_writer_event() {
-                    writer.write(event).unwrap()
+                // The writer leaves out declarations that undo, or repeat after a different one, those
+                // of an enclosing element; so that they are written as attributes.
+                let outer = &scopes[scopes.len() - 1];
+                let declarations: Vec<(String, &str)> = namespace
+                    .iter()
+                    .filter(|(prefix, uri)| {
+                        !matches!(*prefix, NS_XML_PREFIX | NS_XMLNS_PREFIX)
+                            && outer.get(prefix).unwrap_or(NS_EMPTY_URI) != *uri
+                    })
+                    .map(|(prefix, uri)| match prefix {
+                        NS_NO_PREFIX => (NS_XMLNS_PREFIX.to_string(), uri),
+                        prefix => (format!("{NS_XMLNS_PREFIX}:{prefix}"), uri),
+                    })
+                    .collect();
+                let mut element = xml::writer::XmlEvent::start_element(name.borrow());
+                for (name, uri) in &declarations {
+                    element = element.attr(name.as_str(), uri);
+                }
+                for attribute in attributes {
+                    element = element.attr(attribute.name.borrow(), &attribute.value);
                 }
+                writer.write(element).unwrap();
+                scopes.push(namespace.clone());
                 opened += 1;
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_content_element" => event);
+                scopes.pop();
                 if opened == 0 {
                     return Ok(String::from_utf8(content).unwrap());
                 }
-- 
2.43.0


From f52ab09aa8b15f7a6ff832785ed9a697e620c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:30 +0000
Subject: [PATCH 57/58] fix: XML literals keep line ends and white space of
 attributes

---
 rdftk_io/src/xml/reader.rs | 39 +++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 10395e3..b58b870 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -549,6 +549,8 @@ fn parse_xml_literal_element<R: Read>(
     let mut writer_config = xml::EmitterConfig::new();
     writer_config.write_document_declaration = false;
     writer_config.normalize_empty_elements = true;
+    // Text is escaped before it is written, as there is more that has to be than the writer knows.
+    writer_config.perform_escaping = false;
     let mut writer = EventWriter::new_with_config(&mut content, writer_config);
     let mut opened: u32 = 0;
     // The namespaces in scope for each of the elements that are open.
@@ -565,7 +567,7 @@ fn parse_xml_literal_element<R: Read>(
                 // The writer leaves out declarations that undo, or repeat after a different one, those
                 // of an enclosing element; so that they are written as attributes.
                 let outer = &scopes[scopes.len() - 1];
-                let declarations: Vec<(String, &str)> = namespace
+                let declarations: Vec<(String, String)> = namespace
                     .iter()
                     .filter(|(prefix, uri)| {
                         !matches!(*prefix, NS_XML_PREFIX | NS_XMLNS_PREFIX)
@@ -575,13 +577,18 @@ fn parse_xml_literal_element<R: Read>(
                         NS_NO_PREFIX => (NS_XMLNS_PREFIX.to_string(), uri),
                         prefix => (format!("{NS_XMLNS_PREFIX}:{prefix}"), uri),
                     })
+                    .map(|(name, uri)| (name, escape(uri, &['\t', '\n'])))
                     .collect();
                 let mut element = xml::writer::XmlEvent::start_element(name.borrow());
                 for (name, uri) in &declarations {
                     element = element.attr(name.as_str(), uri);
                 }
-                for attribute in attributes {
-                    element = element.attr(attribute.name.borrow(), &attribute.value);
+                let values: Vec<String> = attributes
+                    .iter()
+                    .map(|attribute| escape(&attribute.value, &['\t', '\n']))
+                    .collect();
+                for (attribute, value) in attributes.iter().zip(&values) {
+                    element = element.attr(attribute.name.borrow(), value);
                 }
                 writer.write(element).unwrap();
                 scopes.push(namespace.clone());
@@ -598,6 +605,12 @@ fn parse_xml_literal_element<R: Read>(
                 }
                 opened -= 1;
             }
+            Ok(XmlEvent::Characters(text)) | Ok(XmlEvent::Whitespace(text)) => {
+                trace_event!("parse_content_element" => event);
+                writer
+                    .write(xml::writer::XmlEvent::Characters(&escape(text, &[])))
+                    .unwrap();
+            }
             Ok(event) => {
                 // We only leave trim_whitespace=false so that these events are also written out.
                 if let Some(event) = event.as_writer_event() {
@@ -611,6 +624,26 @@ fn parse_xml_literal_element<R: Read>(
     }
 }
 
+///
+/// Escape markup, and those characters that would be read as others (line ends and, in attributes,
+/// white space), in text that is to be part of an XML literal.
+///
+fn escape(text: &str, white_space: &[char]) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '&' => escaped.push_str("&amp;"),
+            '"' => escaped.push_str("&quot;"),
+            '\r' | '\u{85}' | '\u{2028}' => escaped.push_str(&format!("&#x{:X};", c as u32)),
+            c if white_space.contains(&c) => escaped.push_str(&format!("&#x{:X};", c as u32)),
+            c => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 fn parse_attributes<'a>(
     attributes: &'a [OwnedAttribute],
     outer: &Scope,
-- 
2.43.0


From 9ec0ddd6db9a86c80966477c43d6b2436221ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 58/58] fix: the Turtle writer made relative references that
 resolve to other IRIs

---
 rdftk_io/src/turtle/writer.rs | 43 ++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index d8c7af8..ecb250e 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -705,6 +705,28 @@ impl TurtleWriter {
         Ok(write!(w, "{}", self.compress_iri(graph, iri)?)?)
     }
 
+    /// Returns `true` if resolving `reference` against `base`, an Iri without a fragment, results in
+    /// the Iri that is the concatenation of the two. This is not the case, for example, where the
+    /// reference would replace the last segment of the base's path.
+    fn resolves_to_concatenation(base: &Iri, base_str: &str, reference: &str) -> bool {
+        match reference.chars().next() {
+            None | Some('#') => true,
+            Some('?') => !base_str.contains('?'),
+            Some('/') => false,
+            Some(_) => {
+                let is_hierarchical = base_str
+                    .split_once(':')
+                    .map(|(_, rest)| rest.starts_with('/'))
+                    .unwrap_or_default();
+                let first_segment = reference.split(['/', '?', '#']).next().unwrap_or_default();
+                is_hierarchical
+                    && base.looks_like_namespace()
+                    && first_segment != "."
+                    && !first_segment.contains(':')
+            }
+        }
+    }
+
     /// Compress any Iri to its "QName" given the supplied set of prefixes and
     /// their namespace Iris. If we're encountering an Iri whose prefix
     /// equals the given (optional) `convert_to_base` Iri then write it to
@@ -713,21 +735,20 @@ impl TurtleWriter {
         trace!(name: "compress_iri", ?iri);
         let mut iri_str = format!("{iri:#}");
         if let Some(id_base) = &self.options.id_base() {
+            // References are resolved against the base without its fragment.
+            let id_base_str = format!("{id_base:#}");
+            let base = id_base.with_no_fragment();
+            let base_str = format!("{base:#}");
             if let Some(ref convert_to_id_base) = self.options.convert_to_id_base() {
                 let target_id_base = format!("{convert_to_id_base:#}");
-                if iri_str.starts_with(target_id_base.as_str()) {
-                    return Ok(format!(
-                        "{IRI_START}{}{IRI_END}",
-                        &iri_str[target_id_base.len()..]
-                    ));
+                if let Some(rest) = iri_str.strip_prefix(target_id_base.as_str()) {
+                    iri_str = format!("{id_base_str}{rest}");
                 }
             }
-            let id_base_str = format!("{id_base:#}");
-            if iri_str.starts_with(id_base_str.as_str()) {
-                return Ok(format!(
-                    "{IRI_START}{}{IRI_END}",
-                    &iri_str[id_base_str.len()..]
-                ));
+            if let Some(reference) = iri_str.strip_prefix(base_str.as_str()) {
+                if Self::resolves_to_concatenation(&base, &base_str, reference) {
+                    return Ok(format!("{IRI_START}{reference}{IRI_END}"));
+                }
             }
         }
         for (from_base, to_base) in self.options.convert_base().iter() {
-- 
2.43.0

