//! Nodes, statements and graphs of rdftk_core as JSON values and back, see spec/Rdf.tla.
#![allow(dead_code)]

use super::common::*;
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::literal::{LanguageTag, Literal};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_iri::{Iri, IriPrefixMap, Namespace};
use std::str::FromStr;

pub fn to_iri(v: &Value) -> Iri {
    let t = text(v);
    Iri::from_str(&t).unwrap_or_else(|e| panic!("refused: the IRI {t}: {e}"))
}

pub fn to_blank(v: &Value) -> BlankNode {
    let t = text(v);
    BlankNode::from_str(&t).unwrap_or_else(|e| panic!("refused: the blank node {t}: {e}"))
}

pub fn to_literal(v: &Value) -> Literal {
    let lexical = text(&v[1]);
    let (data_type, language) = (text(&v[2]), text(&v[3]));
    if !language.is_empty() {
        let tag = LanguageTag::from_str(&language)
            .unwrap_or_else(|e| panic!("harness: the language {language}: {e}"));
        Literal::with_language(lexical, tag)
    } else if !data_type.is_empty() {
        Literal::with_data_type_iri(lexical, to_iri(&v[2]))
    } else {
        Literal::plain(lexical)
    }
}

pub fn to_subject(v: &Value) -> SubjectNode {
    match v[0].as_str() {
        Some("b") => to_blank(&v[1]).into(),
        Some("i") => to_iri(&v[1]).into(),
        Some("s") => to_statement(&v[1]).into(),
        _ => panic!("harness: not a subject {v}"),
    }
}

pub fn to_object(v: &Value) -> ObjectNode {
    match v[0].as_str() {
        Some("b") => to_blank(&v[1]).into(),
        Some("i") => to_iri(&v[1]).into(),
        Some("s") => to_statement(&v[1]).into(),
        Some("l") => to_literal(v).into(),
        Some("c") => ObjectNode::Collection(Collection::from(
            v[1].as_array().unwrap().iter().map(to_object).collect::<Vec<_>>(),
        )),
        _ => panic!("harness: not an object {v}"),
    }
}

pub fn to_statement(v: &Value) -> Statement {
    Statement::new(to_subject(&v[0]), to_iri(&v[1]), to_object(&v[2]))
}

pub fn to_statements(v: &Value) -> Vec<Statement> {
    v.as_array().expect("statements").iter().map(to_statement).collect()
}

pub fn to_name(v: &Value) -> Option<GraphName> {
    match v[0].as_str() {
        Some("none") => None,
        Some("b") => Some(to_blank(&v[1]).into()),
        Some("i") => Some(to_iri(&v[1]).into()),
        _ => panic!("harness: not a graph name {v}"),
    }
}

pub fn to_mappings(v: &Value) -> IriPrefixMap {
    let mut map = IriPrefixMap::empty();
    for m in v.as_array().expect("mappings") {
        map.insert(Namespace::from_str(&text(&m[0])).expect("refused: prefix"), to_iri(&m[1]));
    }
    map
}

/// [unique, name, statements, mappings]
pub fn to_graph(v: &Value) -> Graph {
    let unique = v[0].as_bool().expect("unique");
    let graph = match (unique, to_name(&v[1])) {
        (true, Some(name)) => Graph::unique_named(name),
        (true, None) => Graph::unique(),
        (false, Some(name)) => Graph::named(name),
        (false, None) => Graph::default(),
    };
    graph.with_mappings(to_mappings(&v[3])).with_statements(to_statements(&v[2]))
}

/// How a text is written: as a string, or as an array of code points.
pub type Text = fn(&str) -> Value;

pub fn as_string(s: &str) -> Value {
    Value::String(s.to_string())
}

pub struct Out(pub Text);

impl Out {
    pub fn iri(&self, i: &Iri) -> Value {
        let s: &str = i.as_ref();
        (self.0)(s)
    }

    pub fn blank(&self, b: &BlankNode) -> Value {
        (self.0)(b.as_ref())
    }

    pub fn literal(&self, l: &Literal) -> Value {
        json!([
            "l",
            (self.0)(&l.unescaped_form()),
            l.data_type().map(|d| self.iri(d.as_iri())).unwrap_or((self.0)("")),
            (self.0)(&l.language().map(|t| t.to_string()).unwrap_or_default())
        ])
    }

    pub fn subject(&self, n: &SubjectNode) -> Value {
        match n {
            SubjectNode::Blank(b) => json!(["b", self.blank(b)]),
            SubjectNode::Resource(i) => json!(["i", self.iri(i)]),
            SubjectNode::Statement(s) => json!(["s", self.statement(s)]),
        }
    }

    pub fn object(&self, n: &ObjectNode) -> Value {
        match n {
            ObjectNode::Blank(b) => json!(["b", self.blank(b)]),
            ObjectNode::Resource(i) => json!(["i", self.iri(i)]),
            ObjectNode::Statement(s) => json!(["s", self.statement(s)]),
            ObjectNode::Literal(l) => self.literal(l),
            ObjectNode::Collection(c) => {
                json!(["c", c.iter().map(|o| self.object(o)).collect::<Vec<_>>()])
            }
        }
    }

    pub fn statement(&self, s: &Statement) -> Value {
        json!([self.subject(s.subject()), self.iri(s.predicate()), self.object(s.object())])
    }

    pub fn statements<'a>(&self, i: impl IntoIterator<Item = &'a Statement>) -> Value {
        Value::Array(i.into_iter().map(|s| self.statement(s)).collect())
    }

    pub fn name(&self, n: Option<&GraphName>) -> Value {
        match n {
            None => json!(["none"]),
            Some(GraphName::BNode(b)) => json!(["b", self.blank(b)]),
            Some(GraphName::Iri(i)) => json!(["i", self.iri(i)]),
        }
    }

    pub fn mappings(&self, m: &IriPrefixMap) -> Value {
        Value::Array(m.mappings().map(|(p, i)| json!([(self.0)(p.as_ref()), self.iri(i)])).collect())
    }

    pub fn graph(&self, g: &Graph) -> Value {
        use rdftk_core::model::features::{Featured, FEATURE_GRAPH_DUPLICATES};
        json!([
            !g.supports_feature(&FEATURE_GRAPH_DUPLICATES),
            self.name(g.name()),
            self.statements(g.statements()),
            self.mappings(g.prefix_mappings())
        ])
    }
}
