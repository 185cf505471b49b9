#[path = "../../common/mod.rs"]
mod common;
#[path = "../../common/model.rs"]
mod model;
use common::*;
use model::*;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::features::Featured;
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_core::model::resource::{Predicate, Resource};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_iri::{Iri, LocalName, Name};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

const OUT: Out = Out(as_string);
const CPS: Out = Out(cps);

#[derive(Default)]
struct Core {
    graphs: Vec<Graph>,
    data: DataSet,
    names: Vec<Value>,
    seen: HashSet<String>,
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn ord(o: Ordering) -> Value {
    json!(match o {
        Ordering::Less => "lt",
        Ordering::Equal => "eq",
        Ordering::Greater => "gt",
    })
}

fn unit() -> Value {
    json!(["unit"])
}

fn list<T>(i: impl IntoIterator<Item = T>, f: impl Fn(T) -> Value) -> Value {
    Value::Array(i.into_iter().map(f).collect())
}

fn optional<'a>(v: &'a Value) -> Option<&'a Value> {
    if v[0] == "none" {
        None
    } else {
        Some(&v[1])
    }
}

/// Every pair of values, compared in every way.
fn compare<T: Ord + Hash + Clone>(vs: &[T]) -> Value {
    list(vs, |a| {
        list(vs, |b| {
            json!([
                a == b,
                ord(a.cmp(b)),
                opt(a.partial_cmp(b).map(ord)),
                hash(a) == hash(b),
                a < b,
                a <= b
            ])
        })
    })
}

impl Core {
    fn graph_op(&mut self, kind: &str, op: &Value) -> Value {
        let g = op["g"].as_u64().expect("slot") as usize;
        match kind {
            "new" => self.graphs[g] = to_graph(&op["v"]),
            "from" => {
                let sts = to_statements(&op["v"]);
                self.graphs[g] = match op["via"].as_str() {
                    Some("vec") => Graph::from(sts),
                    Some("iter") => sts.into_iter().collect(),
                    Some("one") => Graph::from(sts[0].clone()),
                    v => panic!("harness: no constructor {v:?}"),
                }
            }
            "with" => self.graphs[g] = std::mem::take(&mut self.graphs[g]).with_statements(to_statements(&op["v"])),
            "insert" => self.graphs[g].insert(to_statement(&op["s"])),
            "extend" => self.graphs[g].extend(to_statements(&op["v"])),
            "merge" => {
                let other = self.graphs[1 - g].clone();
                self.graphs[g].merge(&other)
            }
            "clone" => self.graphs[1 - g] = self.graphs[g].clone(),
            "dedup" => return OUT.statements(&self.graphs[g].dedup()),
            "remove" => self.graphs[g].remove(&to_statement(&op["s"])),
            "remove_all_for" => {
                return OUT.statements(&self.graphs[g].remove_all_for(&to_subject(&op["n"])))
            }
            "clear" => self.graphs[g].clear(),
            "set_name" => self.graphs[g].set_name(to_name(&op["n"]).expect("harness: name")),
            "unset_name" => self.graphs[g].unset_name(),
            "set_mappings" => self.graphs[g].set_prefix_mappings(to_mappings(&op["v"])),
            "with_mappings" => {
                self.graphs[g] = std::mem::take(&mut self.graphs[g]).with_mappings(to_mappings(&op["v"]))
            }
            "size" => {
                let v = &self.graphs[g];
                return json!([
                    v.len(),
                    v.is_empty(),
                    v.is_named(),
                    v.supports_feature(&rdftk_core::model::features::FEATURE_RDF_STAR)
                ]);
            }
            "has" => {
                let (v, s) = (&self.graphs[g], to_statement(&op["s"]));
                return json!([
                    v.contains(&s),
                    v.contains_all(s.subject(), s.predicate(), s.object()),
                    v.contains_subject(s.subject())
                ]);
            }
            "match" => {
                let s = optional(&op["s"]).map(to_subject);
                let p = optional(&op["p"]).map(to_iri);
                let o = optional(&op["o"]).map(to_object);
                return OUT.statements(self.graphs[g].matches(s.as_ref(), p.as_ref(), o.as_ref()));
            }
            "sets" => {
                let v = &self.graphs[g];
                return json!([
                    list(v.subjects(), |s| OUT.subject(s)),
                    list(v.node_subjects(), |s| OUT.subject(s)),
                    list(v.blank_node_subjects(), |s| OUT.subject(s)),
                    list(v.predicates(), |p| OUT.iri(p)),
                    list(v.objects(), |o| OUT.object(o))
                ]);
            }
            "for" => {
                let (v, s, p) = (&self.graphs[g], to_subject(&op["n"]), to_iri(&op["p"]));
                return json!([
                    list(v.predicates_for(&s), |p| OUT.iri(p)),
                    list(v.objects_for(&s, &p), |o| OUT.object(o))
                ]);
            }
            "simplify" => {
                let simple = self.graphs[g].simplify().expect("simplify");
                return json!(["graph", OUT.graph(&simple)]);
            }
            "skolemize" => {
                let base = to_iri(&op["base"]);
                let r = self.graphs[g].skolemize(&base).expect("skolemize");
                let mut iris = Vec::new();
                iris_of(&r, &mut iris);
                let known: Vec<Iri> = op["known"].as_array().unwrap().iter().map(to_iri).collect();
                let fresh: Vec<Value> = iris
                    .iter()
                    .filter(|i| !known.contains(i))
                    .map(|i| json!([OUT.iri(i), CPS.iri(i)]))
                    .collect();
                return json!(["graph", OUT.graph(&r), fresh]);
            }
            _ => panic!("harness: no operation {kind}"),
        }
        unit()
    }

    fn data_op(&mut self, kind: &str, op: &Value) -> Value {
        let graphs = |v: &Value| v.as_array().expect("graphs").iter().map(to_graph).collect::<Vec<_>>();
        match kind {
            "from" => {
                let gs = graphs(&op["v"]);
                self.data = match op["via"].as_str() {
                    Some("vec") => DataSet::from(gs),
                    Some("iter") => gs.into_iter().collect(),
                    Some("one") => DataSet::from(gs[0].clone()),
                    Some("map") => DataSet::from(
                        gs.into_iter().map(|g| (g.name().cloned(), g)).collect::<std::collections::HashMap<_, _>>(),
                    ),
                    v => panic!("harness: no constructor {v:?}"),
                }
            }
            "insert" => self.data.insert(to_graph(&op["v"])),
            "extend" => self.data.extend(graphs(&op["v"])),
            "remove" => self.data.remove(&to_name(&op["n"])),
            "clear" => self.data.clear(),
            // A change of a graph in place.
            "edit" => {
                return match self.data.graph_mut(&to_name(&op["n"])) {
                    None => json!(["none"]),
                    Some(g) => {
                        g.insert(to_statement(&op["s"]));
                        json!(["some"])
                    }
                }
            }
            "look" => {
                let name = to_name(&op["n"]);
                let d = &self.data;
                return json!([
                    d.contains_graph(&name),
                    d.has_default_graph(),
                    name.as_ref().map(|n| d.has_graph_named(n)).unwrap_or(d.has_default_graph()),
                    opt(d.graph(&name).map(|g| OUT.graph(g))),
                    opt(d.default_graph().map(|g| OUT.graph(g))),
                    opt(match &name {
                        Some(n) => d.graph_named(n).map(|g| OUT.graph(g)),
                        None => d.graph(&None).map(|g| OUT.graph(g)),
                    }),
                    d.len(),
                    d.is_empty(),
                    list(d.graphs(), |g| OUT.name(g.name()))
                ]);
            }
            _ => panic!("harness: no operation {kind}"),
        }
        unit()
    }

    fn node_op(&mut self, kind: &str, op: &Value) -> Value {
        match kind {
            "reify" => {
                let (node, sts) = to_statement(&op["s"]).reify().expect("reify");
                json!([OUT.subject(&node), OUT.statements(&sts)])
            }
            "reify_list" => {
                let c = match to_object(&op["c"]) {
                    ObjectNode::Collection(c) => c,
                    _ => panic!("harness: not a collection"),
                };
                let (node, sts) = c.reify().expect("reify");
                json!([OUT.subject(&node), OUT.statements(&sts)])
            }
            "cmp_subject" => {
                let vs: Vec<SubjectNode> = op["v"].as_array().unwrap().iter().map(to_subject).collect();
                compare(&vs)
            }
            "cmp_object" => {
                let vs: Vec<ObjectNode> = op["v"].as_array().unwrap().iter().map(to_object).collect();
                compare(&vs)
            }
            "cmp_statement" => {
                let vs: Vec<Statement> = op["v"].as_array().unwrap().iter().map(to_statement).collect();
                compare(&vs)
            }
            "cmp_literal" => {
                let vs: Vec<Literal> = op["v"].as_array().unwrap().iter().map(to_literal).collect();
                compare(&vs)
            }
            "sort" => {
                let mut vs: Vec<ObjectNode> = op["v"].as_array().unwrap().iter().map(to_object).collect();
                vs.sort();
                list(&vs, |v| CPS.object(v))
            }
            // The text of a node or a statement, plain and alternate.
            "display" => {
                let o = to_object(&op["n"]);
                json!([cps(&o.to_string()), cps(&format!("{o:#}"))])
            }
            "display_statement" => {
                let s = to_statement(&op["s"]);
                json!([cps(&s.to_string())])
            }
            "display_name" => {
                let n = to_name(&op["n"]).expect("harness: name");
                let s = match &n {
                    GraphName::BNode(b) => SubjectNode::from(b.clone()),
                    GraphName::Iri(i) => SubjectNode::from(i.clone()),
                };
                json!([
                    cps(&n.to_string()),
                    n.is_blank(),
                    n.is_iri(),
                    opt(n.as_blank().map(|b| CPS.blank(b))),
                    opt(n.as_iri().map(|i| CPS.iri(i))),
                    GraphName::from(s) == n
                ])
            }
            // A collection, and the ways to make and to take it apart.
            "collection" => {
                let c = match to_object(&op["c"]) {
                    ObjectNode::Collection(c) => c,
                    _ => panic!("harness: not a collection"),
                };
                let again: Collection = c.iter().cloned().collect();
                let singles: Vec<ObjectNode> = c
                    .iter()
                    .map(|o| {
                        let one = match o.clone() {
                            ObjectNode::Blank(v) => Collection::from(v),
                            ObjectNode::Resource(v) => Collection::from(v),
                            ObjectNode::Literal(v) => Collection::from(v),
                            ObjectNode::Statement(v) => Collection::from(v),
                            o => Collection::from(o),
                        };
                        let first = one.iter().next().cloned().expect("an element");
                        first
                    })
                    .collect();
                json!([
                    c.len(),
                    c.is_empty(),
                    list(c.iter(), |o| CPS.object(o)),
                    list(&Vec::<ObjectNode>::from(c.clone()), |o| CPS.object(o)),
                    list(&singles, |o| CPS.object(o)),
                    again == c,
                    c == Collection::nil()
                ])
            }
            "rdf_type" => {
                let s = Statement::rdf_type(to_subject(&op["n"]), to_iri(&op["p"]));
                json!([CPS.statement(&s)])
            }
            // What a node says it is, what it turns into and what it equals.
            "variants" => {
                let o = to_object(&op["n"]);
                let s = o.to_subject();
                let p = to_iri(&op["p"]);
                let (as_s, as_o) = (s.clone(), o.clone());
                let st = s.clone().map(|s| Statement::new(s, p.clone(), o.clone()));
                let mut edited = st.clone();
                if let Some(e) = edited.as_mut() {
                    let other = to_object(&op["other"]);
                    e.set_object(other.clone());
                    e.set_predicate(to_iri(&op["q"]));
                    if let Some(s) = other.to_subject() {
                        e.set_subject(s);
                    }
                }
                json!([
                    [o.is_blank(), o.is_resource(), o.is_literal(), o.is_collection(), o.is_statement()],
                    opt(as_s.as_ref().map(|s| json!([s.is_blank(), s.is_resource(), s.is_statement()]))),
                    opt(as_s.as_ref().map(|s| CPS.subject(s))),
                    opt(as_s.as_ref().map(|s| CPS.object(&s.to_object()))),
                    [
                        o.as_blank().is_some(),
                        o.as_resource().is_some(),
                        o.as_literal().is_some(),
                        o.as_collection().is_some(),
                        o.as_statement().is_some()
                    ],
                    match &as_o {
                        ObjectNode::Blank(b) => as_o == *b && o.as_blank() == Some(b),
                        ObjectNode::Resource(b) => as_o == *b && o.as_resource() == Some(b),
                        ObjectNode::Literal(b) => as_o == *b && o.as_literal() == Some(b),
                        ObjectNode::Collection(b) => as_o == *b && o.as_collection() == Some(b),
                        ObjectNode::Statement(b) => as_o == *b && o.as_statement().as_ref() == Some(b),
                    },
                    opt(st.as_ref().map(|s| json!([CPS.statement(s), s.is_nested()]))),
                    opt(edited.as_ref().map(|s| CPS.statement(s)))
                ])
            }
            // Every way to make a node, a list or a name of a graph from what a node is.
            "ways" => {
                let o = to_object(&op["n"]);
                let s = o.to_subject();
                let (mut subjects, mut objects, mut lists, mut names) = (vec![], vec![ObjectNode::from(&o)], vec![], vec![]);
                lists.extend([Collection::from(o.clone()), Collection::from(&o), Collection::from(vec![o.clone()]), [o.clone()].into_iter().collect()]);
                if let Some(s) = &s {
                    subjects.push(SubjectNode::from(s));
                    objects.push(s.to_object());
                }
                macro_rules! made {
                    ($v:expr, $( $kind:ident $to:ident ),*) => {{ $( $to.push($kind::from($v.clone())); $to.push($kind::from(&$v)); )* }};
                }
                match &o {
                    ObjectNode::Blank(v) => {
                        let label = Name::from_str(v.as_ref()).expect("harness: label");
                        made!(v.clone(), SubjectNode subjects, ObjectNode objects, Collection lists, GraphName names);
                        made!(label.clone(), SubjectNode subjects, ObjectNode objects, Collection lists, GraphName names);
                        let (b, c) = (BlankNode::from(label.clone()), BlankNode::from(&label));
                        subjects.extend([b.into(), c.into()]);
                        names.push(GraphName::blank_named(v.as_ref()).expect("harness: label"));
                        names.push(GraphName::from(SubjectNode::from(v)));
                        objects.push(Statement::new(v, rdftk_names::rdf::a_type().clone(), v).object().clone());
                    }
                    ObjectNode::Resource(v) => {
                        made!(v.clone(), SubjectNode subjects, ObjectNode objects, Collection lists, GraphName names);
                        names.push(GraphName::named(v.clone()));
                        names.push(GraphName::from(SubjectNode::from(v)));
                    }
                    ObjectNode::Literal(v) => made!(v.clone(), ObjectNode objects, Collection lists),
                    ObjectNode::Collection(v) => made!(v.clone(), ObjectNode objects),
                    ObjectNode::Statement(v) => {
                        made!(v.clone(), SubjectNode subjects, ObjectNode objects, Collection lists);
                        let v = Statement::clone(v);
                        made!(v.clone(), SubjectNode subjects, ObjectNode objects, Collection lists);
                    }
                }
                json!([
                    list(&subjects, |s| CPS.subject(s)),
                    list(&objects, |o| CPS.object(o)),
                    list(&lists, |c| list(c.iter(), |o| CPS.object(o))),
                    list(&names, |n| CPS.name(Some(n)))
                ])
            }
            // Whether nodes equal what others are.
            "equal" => {
                let (a, b) = (to_object(&op["a"]), to_object(&op["b"]));
                let object = match &b {
                    ObjectNode::Blank(v) => a == *v,
                    ObjectNode::Resource(v) => a == *v,
                    ObjectNode::Literal(v) => a == *v,
                    ObjectNode::Collection(v) => a == *v,
                    ObjectNode::Statement(v) => {
                        let inner: &Statement = v;
                        assert_eq!(a == *v, a == *inner, "equal to a statement, or to what is shared");
                        a == *v
                    }
                };
                let subject = a.to_subject().map(|s| match &b {
                    ObjectNode::Blank(v) => s == *v,
                    ObjectNode::Resource(v) => s == *v,
                    ObjectNode::Statement(v) => {
                        let inner: &Statement = v;
                        assert_eq!(s == *v, s == *inner, "equal to a statement, or to what is shared");
                        s == *v
                    }
                    _ => false,
                });
                json!([a == b, object, subject.unwrap_or(a == b)])
            }
            // What nodes, statements and data sets say that they can be.
            "features" => {
                use rdftk_core::model::features::*;
                let o = to_object(&op["n"]);
                let all: [&Iri; 6] = [
                    &FEATURE_RDF_STAR,
                    &FEATURE_STMT_OBJECT_COLLECTIONS,
                    &FEATURE_STMT_SUBJECT_COLLECTIONS,
                    &FEATURE_N3_FORMULAE,
                    &FEATURE_GRAPH_DUPLICATES,
                    &FEATURE_COMBINED_DEFAULT,
                ];
                let ask = |v: &dyn Featured| json!(all.iter().map(|f| v.supports_feature(f)).collect::<Vec<_>>());
                let s = o.to_subject();
                let st = s.clone().map(|s| Statement::new(s, rdftk_names::rdf::a_type().clone(), o.clone()));
                json!([ask(&o), opt(s.as_ref().map(|s| ask(s))), opt(st.as_ref().map(|s| ask(s))), ask(&DataSet::default())])
            }
            "blank" => {
                let t = text(&op["t"]);
                let r = BlankNode::from_str(&t);
                json!([
                    BlankNode::is_valid_str(&t),
                    match r {
                        Err(_) => json!(["err"]),
                        Ok(b) => json!([
                            "ok",
                            [
                                cps(b.as_ref()),
                                cps(&b.to_string()),
                                cps(&SubjectNode::from(b.clone()).to_string()),
                                cps(&ObjectNode::from(b.clone()).to_string()),
                                cps(&String::from(&b)),
                                cps(&String::from(b.clone())),
                                cps(&b.to_qname().to_string())
                            ]
                        ]),
                    }
                ])
            }
            "blank_eq" => {
                let (a, b) = (to_blank(&op["a"]), to_blank(&op["b"]));
                json!([
                    a == b,
                    hash(&a) == hash(&b),
                    SubjectNode::from(a.clone()) == SubjectNode::from(b.clone()),
                    ObjectNode::from(a.clone()) == ObjectNode::from(b.clone()),
                    ord(a.cmp(&b))
                ])
            }
            "generate" => {
                let n = op["n"].as_u64().unwrap() as usize;
                let threads = op["threads"].as_u64().unwrap() as usize;
                let barrier = std::sync::Arc::new(std::sync::Barrier::new(threads));
                let handles: Vec<_> = (0..threads)
                    .map(|t| {
                        let barrier = barrier.clone();
                        std::thread::spawn(move || {
                            barrier.wait();
                            (0..n)
                                .map(|i| {
                                    // The other operations that make new nodes, too.
                                    let subject = match (t + i) % 4 {
                                        0 | 1 => return BlankNode::generate().to_string(),
                                        2 => {
                                            let i = Iri::from_str("http://a/").unwrap();
                                            Statement::new(i.clone(), i.clone(), i).reify().unwrap().0
                                        }
                                        _ => Collection::from(Literal::plain("a")).reify().unwrap().0,
                                    };
                                    subject.as_blank().expect("a blank node").to_string()
                                })
                                .collect::<Vec<_>>()
                        })
                    })
                    .collect();
                let made: Vec<String> = handles
                    .into_iter()
                    .flat_map(|h| match h.join() {
                        Ok(v) => v,
                        Err(e) => std::panic::resume_unwind(e),
                    })
                    .collect();
                let fresh = made.iter().fold(true, |f, t| self.seen.insert(t.clone()) && f);
                let step = (made.len() / 64).max(1);
                json!([
                    made.len(),
                    fresh,
                    made.iter().all(|t| BlankNode::is_valid_str(t)),
                    made.iter().step_by(step).map(|t| cps(t)).collect::<Vec<_>>()
                ])
            }
            // A graph that uses the label that is generated next.
            "collide" => {
                let last = BlankNode::generate().to_string();
                let mut used = vec![last.clone()];
                if let (Some(head), Some(n)) = (last.get(..1), last.get(1..).and_then(|n| n.parse::<u64>().ok())) {
                    used = (n + 1..n + 4).map(|n| format!("{head}{n}")).collect();
                }
                let i = Iri::from_str("http://a/").unwrap();
                let inner = Statement::new(i.clone(), i.clone(), i.clone());
                let mut g = Graph::default();
                for u in &used {
                    g.insert(Statement::new(BlankNode::from_str(u).unwrap(), i.clone(), i.clone()));
                }
                g.insert(Statement::new(inner, i.clone(), i.clone()));
                let simple = g.simplify().unwrap();
                let subjects = simple.blank_node_subjects().len();
                json!([subjects == used.len() + 1])
            }
            _ => panic!("harness: no operation {kind}"),
        }
    }

    fn literal_op(&mut self, kind: &str, op: &Value) -> Value {
        match kind {
            // A literal of the text in every way that there is to make one.
            "text" => {
                let t = text(&op["t"]);
                let l = match op["how"].as_str().expect("how") {
                    "plain" => Literal::plain(t.clone()),
                    "string" => Literal::from(t.clone()),
                    "str" => Literal::from(t.as_str()),
                    "language" => Literal::with_language(t.clone(), LanguageTag::from_str("en").unwrap()),
                    "type" => Literal::with_data_type(t.clone(), DataType::from(to_iri(&op["dt"]))),
                    "type_iri" => Literal::with_data_type_iri(t.clone(), to_iri(&op["dt"])),
                    v => panic!("harness: no constructor {v}"),
                };
                json!([
                    cps(l.lexical_form()),
                    cps(&l.unescaped_form()),
                    cps(&l.to_string()),
                    cps(&format!("{l:#}")),
                    CPS.literal(&l),
                    [l.has_data_type(), l.has_language()],
                    l == t && l == *t.as_str()
                ])
            }
            "types" => {
                let i = to_iri(&op["dt"]);
                let d = DataType::from(i.clone());
                let named = !matches!(d, DataType::Other(_));
                json!([CPS.iri(d.as_iri()), cps(&d.to_string()), named, DataType::from(d.as_iri().clone()) == d])
            }
            "typed" => self.typed(op["ty"].as_str().expect("type"), &text(&op["t"]), &text(&op["other"])),
            "bytes" => {
                let v: Vec<u8> = op["v"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
                let l = match op["how"].as_str() {
                    Some("hex") => Literal::hex_encoded(&v),
                    _ => Literal::base64_encoded(&v),
                };
                let back = Vec::<u8>::try_from(l.clone());
                json!([CPS.literal(&l), cps(l.lexical_form()), opt(back.ok().map(|b| json!(b)))])
            }
            "decode" => {
                let l = Literal::with_data_type_iri(text(&op["t"]), to_iri(&op["dt"]));
                opt(Vec::<u8>::try_from(l).ok().map(|b| json!(b)))
            }
            "to_iri" => opt(Iri::try_from(to_literal(&op["l"])).ok().map(|i| CPS.iri(&i))),
            _ => panic!("harness: no operation {kind}"),
        }
    }

    /// A literal of a Rust value: [the literal, its lexical form, whether it equals the value, whether it
    /// equals another value, whether literals that are not of the value's type equal it].
    fn typed(&mut self, ty: &str, t: &str, other: &str) -> Value {
        fn one<V>(v: V, o: V) -> Value
        where
            V: Clone + Into<Literal>,
            Literal: PartialEq<V>,
        {
            let l: Literal = v.clone().into();
            let plain = Literal::plain(l.unescaped_form());
            let wrong = Literal::with_data_type_iri(
                l.unescaped_form(),
                Iri::from_str("http://example.org/type").unwrap(),
            );
            let tagged = Literal::with_language(l.unescaped_form(), LanguageTag::from_str("en").unwrap());
            json!([
                CPS.literal(&l),
                cps(l.lexical_form()),
                l == v,
                l == o,
                [plain == v, wrong == v, tagged == v],
                Literal::from_value_eq(&l, &v)
            ])
        }
        trait Again<V> {
            fn from_value_eq(l: &Literal, v: &V) -> bool;
        }
        impl<V: Clone + Into<Literal>> Again<V> for Literal {
            fn from_value_eq(l: &Literal, v: &V) -> bool {
                *l == v.clone().into()
            }
        }
        macro_rules! parse {
            ($t:ty) => {
                one(
                    t.parse::<$t>().unwrap_or_else(|_| panic!("harness: {t} is no {ty}")),
                    other.parse::<$t>().unwrap_or_else(|_| panic!("harness: {other} is no {ty}")),
                )
            };
        }
        fn duration(t: &str) -> std::time::Duration {
            let t = if t == "P0D" { "0" } else { t.trim_start_matches("PT").trim_end_matches('S') };
            let (s, n) = t.split_once('.').unwrap_or((t, "0"));
            std::time::Duration::new(s.parse().unwrap(), format!("{n:0<9}").parse().unwrap())
        }
        match ty {
            "boolean" => parse!(bool),
            "long" => parse!(i64),
            "int" => parse!(i32),
            "short" => parse!(i16),
            "byte" => parse!(i8),
            "unsignedLong" => parse!(u64),
            "unsignedInt" => parse!(u32),
            "unsignedShort" => parse!(u16),
            "unsignedByte" => parse!(u8),
            "double" => parse!(f64),
            "float" => parse!(f32),
            "decimal" => parse!(rust_decimal::Decimal),
            "anyURI" => parse!(Iri),
            "QName" => parse!(LocalName),
            "Name" => parse!(Name),
            "language" => parse!(LanguageTag),
            "string" => parse!(String),
            "duration" => one(duration(t), duration(other)),
            "chrono" => one(
                chrono::Duration::from_std(duration(t)).unwrap(),
                chrono::Duration::from_std(duration(other)).unwrap(),
            ),
            _ => panic!("harness: no type {ty}"),
        }
    }

    fn resource_op(&mut self, kind: &str, op: &Value) -> Value {
        match kind {
            "flatten" => {
                let r = resource(&op["r"]);
                let flags = json!([r.is_a_resource(), r.is_an_individual()]);
                let sts: Vec<Statement> = r.into();
                json!([flags, OUT.statements(&sts)])
            }
            "anonymous" => {
                let (mut a, mut b) = (Resource::anonymous(), Resource::anonymous());
                let p = to_iri(&op["p"]);
                a.resource(p.clone(), {
                    b.literal(p.clone(), Literal::plain("b"));
                    b
                });
                OUT.statements(&Vec::<Statement>::from(a))
            }
            _ => panic!("harness: no operation {kind}"),
        }
    }
}

/// [subject, [[predicate, how, value] ..]]; see spec/Resource.tla.
fn resource(v: &Value) -> Resource {
    let mut r = match v[0][0].as_str() {
        Some("b") => Resource::semi_anonymous(to_blank(&v[0][1])),
        Some("i") => Resource::individual(to_iri(&v[0][1])),
        _ => Resource::new(to_subject(&v[0])),
    };
    for e in v[1].as_array().expect("properties") {
        let (p, how, value) = (to_iri(&e[0]), e[1].as_str().expect("how"), &e[2]);
        let literals = || value.as_array().unwrap().iter().map(to_literal).collect::<Vec<_>>();
        let resources = || value.as_array().unwrap().iter().map(resource).collect::<Vec<_>>();
        let raw = || text(&value[1]);
        match how {
            "property" => r.property(p, to_literal(value)),
            "value_of" => r.value_of(p, to_literal(value)),
            "literal" => r.literal(p, to_literal(value)),
            "literal_str" => r.literal_str(p, &raw()),
            "literal_typed_str" => r.literal_typed_str(p, &raw(), DataType::from(to_iri(&value[2]))),
            "literal_language_str" => {
                r.literal_language_str(p, &raw(), LanguageTag::from_str(&text(&value[3])).unwrap())
            }
            "literal_language_str_str" => r.literal_language_str_str(p, &raw(), &text(&value[3])),
            "property_alternatives" => r.property_alternatives(p, &literals()),
            "property_bag" => r.property_bag(p, &literals()),
            "property_sequence" => r.property_sequence(p, &literals()),
            "property_container" => r.property_container(p, &literals(), to_iri(&e[3])),
            "resource_blank_named" => r.resource_blank_named(p, &to_blank(&value[0][1])),
            "resource_named" => r.resource_named(p, to_iri(&value[0][1])),
            "resource" => r.resource(p, resource(value)),
            "resource_alternatives" => r.resource_alternatives(p, &resources()),
            "resource_bag" => r.resource_bag(p, &resources()),
            "resource_sequence" => r.resource_sequence(p, &resources()),
            "resource_container" => r.resource_container(p, &resources(), to_iri(&e[3])),
            "instance_of" => r.instance_of(to_iri(&value[0][1])),
            // The same by way of a Predicate.
            _ => {
                let mut b = Predicate::new(p);
                match how.strip_prefix("predicate.").unwrap_or_else(|| panic!("harness: no method {how}")) {
                    "property" => b.property(to_literal(value)),
                    "property_alternatives" => b.property_alternatives(&literals()),
                    "property_bag" => b.property_bag(&literals()),
                    "property_sequence" => b.property_sequence(&literals()),
                    "property_container" => b.property_container(&literals(), to_iri(&e[3])),
                    "resource_blank_named" => b.resource_blank_named(&to_blank(&value[0][1])),
                    "resource_named" => b.resource_named(to_iri(&value[0][1])),
                    "resource" => b.resource(resource(value)),
                    "resource_alternatives" => b.resource_alternatives(&resources()),
                    "resource_bag" => b.resource_bag(&resources()),
                    "resource_sequence" => b.resource_sequence(&resources()),
                    "resource_container" => b.resource_container(&resources(), to_iri(&e[3])),
                    h => panic!("harness: no method {h}"),
                };
                r.predicate(b)
            }
        };
    }
    r
}

fn iris_of(g: &Graph, to: &mut Vec<Iri>) {
    fn add(i: &Iri, to: &mut Vec<Iri>) {
        if !to.contains(i) {
            to.push(i.clone());
        }
    }
    fn object(o: &ObjectNode, to: &mut Vec<Iri>) {
        match o {
            ObjectNode::Resource(i) => add(i, to),
            ObjectNode::Collection(c) => c.iter().for_each(|o| object(o, to)),
            ObjectNode::Statement(s) => statement(s, to),
            _ => {}
        }
    }
    fn statement(s: &Statement, to: &mut Vec<Iri>) {
        object(&s.subject().to_object(), to);
        add(s.predicate(), to);
        object(s.object(), to);
    }
    if let Some(i) = g.name().and_then(|n| n.as_iri()) {
        add(i, to);
    }
    g.statements().for_each(|s| statement(s, to));
}

impl Sut for Core {
    fn reset(&mut self, op: &Value) {
        self.graphs = vec![Graph::default(), Graph::default()];
        self.data = DataSet::default();
        self.names = op["names"].as_array().cloned().unwrap_or_default();
    }

    fn apply(&mut self, op: &Value) -> Value {
        let code = op["op"].as_str().expect("op");
        let (group, kind) = code.split_once('.').expect("group");
        match group {
            "graph" => self.graph_op(kind, op),
            "data" => self.data_op(kind, op),
            "node" => self.node_op(kind, op),
            "lit" => self.literal_op(kind, op),
            "res" => self.resource_op(kind, op),
            _ => panic!("harness: no group {group}"),
        }
    }

    fn observe(&mut self) -> Value {
        json!({
            "g": list(&self.graphs, |g| OUT.graph(g)),
            "d": list(&self.names, |n| json!([n, opt(self.data.graph(&to_name(n)).map(|g| OUT.graph(g)))])),
            "size": self.data.len()
        })
    }
}

fn main() {
    run(Core::default());
}
