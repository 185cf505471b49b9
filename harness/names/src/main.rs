//! Says what the functions of the vocabularies return.
#[path = "../../common/mod.rs"]
mod common;
use common::*;
use rdftk_iri::{Iri, IriPrefixMap, LocalName};
use std::str::FromStr;

/// The IRI of a term, its name and its qualified name.
pub type Term = (Iri, &'static str, &'static str);
/// The prefix and the namespace of a vocabulary, as an IRI and as a text.
pub type Of = (String, Iri, &'static str);

macro_rules! terms {
    ($module:ident, $($path:ident)::+ : $($name:ident),*) => {
        mod $module {
            use rdftk_names::$($path)::+ as v;
            pub fn term(f: &str) -> Option<crate::Term> {
                ::paste::paste! {
                    match f {
                        $(stringify!($name) => Some((v::$name().clone(), v::[<$name _str>](), v::[<$name _qname>]())),)*
                        _ => None,
                    }
                }
            }
            pub fn of() -> crate::Of {
                (v::default_prefix().to_string(), v::namespace().clone(), v::namespace_str())
            }
        }
    };
}
include!("terms.rs");

mod declared {
    macro_rules! declare {
        ($module:ident, $prefix:expr, $iri:expr, $($f:ident, $n:expr);*) => {
            pub mod $module {
                rdftk_names::namespace! { $prefix, $iri, { $($f, $n),* } }
                pub fn of(f: &str) -> Option<[String; 6]> {
                    ::paste::paste! {
                        match f {
                            $(stringify!($f) => Some([
                                default_prefix().to_string(),
                                super::super::itext(namespace()),
                                namespace_str().to_string(),
                                super::super::itext($f()),
                                [<$f _str>]().to_string(),
                                [<$f _qname>]().to_string(),
                            ]),)*
                            _ => None,
                        }
                    }
                }
            }
        };
    }
    declare!(p, "p", "heep://schema/com/p#", foo, "Foo"; bar, "Bar");
    declare!(q, "q-1", "http://e.org:8080/a/b/", dash, "a-b"; dot, "a.b"; digit, "9"; under, "_x");
    declare!(r, "r", "https://e.org/x?y=z#", one, "one");
}

fn itext(i: &Iri) -> String {
    let s: &str = i.as_ref();
    s.to_string()
}

fn vocabulary(v: &str) -> rdftk_iri::Vocabulary {
    use rdftk_iri::vocab::*;
    match v {
        "owl" => VOCABULARY_OWL,
        "rdf" => VOCABULARY_RDF,
        "rdfs" => VOCABULARY_RDF_SCHEMA,
        "skos" => VOCABULARY_SKOS,
        "xsd" => VOCABULARY_XML_SCHEMA,
        "foaf" => VOCABULARY_FOAF,
        "cal" => VOCABULARY_CAL,
        "dbpedia" => VOCABULARY_DBPEDIA,
        "dc" => VOCABULARY_DC_ELEMENTS,
        "dcterms" => VOCABULARY_DC_TERMS,
        "doap" => VOCABULARY_DOAP,
        "geonames" => VOCABULARY_GEO_NAMES,
        "isothes" => VOCABULARY_ISO_SKOS,
        "opengis" => VOCABULARY_OPEN_GIS,
        "org" => VOCABULARY_ORG,
        "sioc" => VOCABULARY_SIOC,
        "skosxl" => VOCABULARY_SKOS_XL,
        "vann" => VOCABULARY_VANN,
        "void" => VOCABULARY_VOID,
        "wot" => VOCABULARY_WOT,
        v => panic!("harness: no vocabulary {v}"),
    }
}

fn stage(v: &str) -> &'static str {
    use rdftk_names::skos::term_status::*;
    match v {
        "archaic" => STATUS_ARCHAIC,
        "deprecated" => STATUS_DEPRECATED,
        "proposed" => STATUS_PROPOSED,
        "stable" => STATUS_STABLE,
        "testing" => STATUS_TESTING,
        "unstable" => STATUS_UNSTABLE,
        v => panic!("harness: no stage {v}"),
    }
}

/// A term, and what a map with the vocabulary's prefix in it compresses and expands it to.
fn term(v: &str, f: &str) -> Value {
    let (_, term, of) = ALL.iter().find(|(k, _, _)| *k == v).unwrap_or_else(|| panic!("harness: no vocabulary {v}"));
    let (iri, name, qname) = term(f).unwrap_or_else(|| panic!("harness: no term {v}:{f}"));
    let (prefix, namespace, _) = of();
    let mut map = IriPrefixMap::default();
    let _ = map.insert(rdftk_iri::Namespace::from_str(&format!("{prefix}:")).expect("namespace"), namespace);
    let short = map.compress(&iri).map(|n| n.to_string()).unwrap_or_default();
    let long = LocalName::from_str(qname).ok().and_then(|n| map.expand(&n)).map(|i| itext(&i)).unwrap_or_default();
    json!([itext(&iri), name, qname, short, long])
}

struct Names;

impl Sut for Names {
    fn reset(&mut self, _: &Value) {}
    fn observe(&mut self) -> Value {
        json!([])
    }
    fn apply(&mut self, op: &Value) -> Value {
        let v = op["v"].as_str().unwrap_or_default().to_string();
        let f = op["f"].as_str().unwrap_or_default().to_string();
        match op["op"].as_str().expect("op") {
            "names.term" => {
                // The first use of a vocabulary makes its table: from as many threads as asked for.
                let n = op["threads"].as_u64().unwrap_or(1) as usize;
                let barrier = std::sync::Arc::new(std::sync::Barrier::new(n));
                let threads: Vec<_> = (0..n)
                    .map(|_| {
                        let (barrier, v, f) = (barrier.clone(), v.clone(), f.clone());
                        std::thread::spawn(move || {
                            barrier.wait();
                            term(&v, &f)
                        })
                    })
                    .collect();
                let all: Vec<Value> = threads
                    .into_iter()
                    .map(|t| t.join().unwrap_or_else(|e| panic!("{}", panic_text(e))))
                    .collect();
                json!(all)
            }
            "names.of" => {
                let (_, _, of) = ALL.iter().find(|(k, _, _)| *k == v).expect("harness: vocabulary");
                let (prefix, iri, text) = of();
                json!([prefix, itext(&iri), text])
            }
            "names.member" => {
                let n = op["n"].as_u64().expect("n") as usize;
                json!([itext(&rdftk_names::rdf::member(n)), rdftk_names::rdf::member_qname(n)])
            }
            "names.stage" => json!([stage(&v)]),
            "names.declared" => json!(match v.as_str() {
                "p" => declared::p::of(&f),
                "q" => declared::q::of(&f),
                _ => declared::r::of(&f),
            }
            .expect("harness: declared")),
            "names.vocabulary" => {
                let v = vocabulary(&v);
                json!([cps(v.prefix()), cps(v.iri()), cps(&v.prefix_as_namespace().to_string()), cps(&itext(&v.iri_as_iri()))])
            }
            op => panic!("harness: no operation {op}"),
        }
    }
}

fn main() {
    run(Names);
}
